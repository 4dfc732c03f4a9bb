//! Compares graphs made of real pointers of many kinds, on one thread and on several, with panics
//! in callbacks, for an external monitor (Miri, AddressSanitizer, LeakSanitizer, ThreadSanitizer)
//! to watch.  What the functions answer is not judged here.
//!
//!   vub SEED FIRST CASES SIZE     prints what was done
use graph_safe_compare::basic::modes::limited::LimitReached;
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::random::{self, NumberGenerator};
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
use graph_safe_compare::generic::equiv::{self, Equiv};
use graph_safe_compare::generic::equiv_classes::premade::{hash_map, rc as prc};
use graph_safe_compare::generic::equiv_classes::{self, Class};
use graph_safe_compare::generic::precheck_interleave;
use graph_safe_compare::utils::RefId;
use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};
use graph_safe_compare::{basic, cycle_safe, deep_safe, robust, wide_safe, Node};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::convert::Infallible;
use std::marker::PhantomData;
use std::num::NonZeroU16;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::{Rc, Weak};
use std::sync::{Arc, OnceLock};
use vmon::{graph, owned, util};

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
struct R(Cell<u64>);
impl R {
    fn new(s: u64) -> Self {
        R(Cell::new(mix(s)))
    }
    fn us(&self, n: usize) -> usize {
        self.0.set(self.0.get().wrapping_add(0x9E37_79B9_7F4A_7C15));
        ((u128::from(mix(self.0.get())) * n as u128) >> 64) as usize
    }
}

thread_local! {
    static CALLBACKS: Cell<u64> = const { Cell::new(0) };
    /// Panic when this many callbacks remain (0: never).
    static FUSE: Cell<u64> = const { Cell::new(0) };
}
#[derive(Debug)]
struct Boom(#[allow(dead_code)] Box<u32>);
fn tick() {
    CALLBACKS.with(|c| {
        c.set(c.get() + 1);
        if c.get() > 200_000_000 {
            eprintln!("OUT-OF-BUDGET");
            std::process::exit(7);
        }
    });
    FUSE.with(|f| {
        if f.get() > 0 {
            f.set(f.get() - 1);
            if f.get() == 0 {
                std::panic::panic_any(Boom(Box::new(1)));
            }
        }
    });
}

// -- graphs ---------------------------------------------------------------------------------------

struct Spec {
    v: Vec<(u8, Vec<usize>)>,
    a: usize,
    b: usize,
    plain: bool,
}
fn spec(r: &R, size: usize) -> Spec {
    let n = 1 + r.us(size);
    let cyclic = r.us(2) == 0;
    let chain = size > 50 && r.us(4) == 0;
    let d = 1 + r.us(3);
    // All nodes of a kind alike (but for one, sometimes), so that comparisons go on for long, relate
    // most of the nodes, and merge many classes.
    let alike = !chain && r.us(3) == 0;
    let odd = if alike && r.us(4) == 0 { r.us(n) } else { n };
    let mut v = Vec::new();
    for i in 0 .. n {
        let to = if alike {
            let lev = i % 4;
            // Levels, or cycles.
            (0 .. d).map(|_| if cyclic { r.us(n) } else { r.us(n) / 4 * 4 + lev + 1 }).filter(|t| *t < n && (cyclic || lev < 3)).collect()
        } else if chain {
            if i > 0 { vec![i - 1] } else { vec![] }
        } else if cyclic {
            (0 .. r.us(d + 1)).map(|_| r.us(n)).collect()
        } else if i > 0 {
            (0 .. r.us(d + 1)).map(|_| r.us(i)).collect()
        } else {
            vec![]
        };
        v.push((u8::from(if alike { i == odd } else { r.us(15) == 0 }), to));
    }
    let a = if alike && !cyclic { r.us(n) / 4 * 4 } else if cyclic { r.us(n) } else { n - 1 };
    let b = if r.us(4) == 0 || (alike && r.us(2) == 0) {
        if alike && !cyclic { r.us(n) / 4 * 4 } else { r.us(n) }
    } else {
        for i in 0 .. n {
            let to = v[i].1.iter().map(|t| if r.us(12) == 0 { *t } else { t + n }).collect();
            let val = v[i].0;
            v.push((val, to));
        }
        match r.us(4) {
            0 => {
                let x = n + r.us(n);
                v[x].0 += 1;
            },
            1 => {
                let x = n + r.us(n);
                let _ = v[x].1.pop();
            },
            _ => (),
        }
        n + a
    };
    let mut s = Spec { v, a, b, plain: false };
    // Whether the plain traversals end, and soon.
    let mut todo = vec![(s.a, s.b)];
    let mut left = 50 * s.v.len() as u64;
    while let Some((x, y)) = todo.pop() {
        if x != y && left > 0 {
            left -= 1;
            todo.extend(s.v[x].1.iter().copied().zip(s.v[y].1.iter().copied()));
        }
    }
    s.plain = left > 0;
    s
}

/// Nodes with as many edges as their indexes can number, or one fewer or more.
fn wide(r: &R, n: usize) -> Spec {
    let n = n + r.us(3) - 1;
    let leaves = 2 + r.us(4);
    let to = |from: usize| (0 .. n).map(|i| from + i % leaves).collect();
    let mut v = vec![(0, to(2)), (0, to(2 + leaves))];
    v.extend((0 .. 2 * leaves).map(|_| (0, vec![])));
    if r.us(3) == 0 {
        let _ = v[r.us(2)].1.pop();
    }
    Spec { v, a: 0, b: 1, plain: true }
}

// -- functions ------------------------------------------------------------------------------------

#[derive(Default)]
struct Lcg(Box<u32>);
impl NumberGenerator for Lcg {
    fn rand_upto(&mut self, e: NonZeroU16) -> u16 {
        tick();
        *self.0 = self.0.wrapping_mul(1_664_525).wrapping_add(99_991);
        ((*self.0 >> 9) % u32::from(e.get())) as u16
    }
}
/// Atomic counts.
#[derive(Clone)]
struct ARc(#[allow(clippy::arc_with_non_send_sync)] Arc<Cell<Class<ARc>>>);
impl std::ops::Deref for ARc {
    type Target = Cell<Class<ARc>>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl equiv_classes::Rc for ARc {
    #[allow(clippy::arc_with_non_send_sync)]
    fn new(v: Cell<Class<Self>>) -> Self {
        ARc(Arc::new(v))
    }
}
struct Tree<N: Node>(BTreeMap<u64, Vec<(N::Id, ARc)>>);
impl<N: Node> Default for Tree<N> {
    fn default() -> Self {
        Tree(BTreeMap::new())
    }
}
fn hash<T: std::hash::Hash>(k: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish() % 4
}
impl<N: Node> equiv_classes::Table for Tree<N> {
    type Node = N;
    type Rc = ARc;
    fn get(&self, k: &N::Id) -> Option<&ARc> {
        self.0.get(&hash(k))?.iter().find(|e| e.0 == *k).map(|e| &e.1)
    }
    fn insert(&mut self, k: N::Id, v: ARc) {
        let l = self.0.entry(hash(&k)).or_default();
        l.retain(|e| e.0 != k);
        l.push((k, v));
    }
}
struct A<N, X>(PhantomData<(N, X)>);
impl<N: Node, X: NumberGenerator> interleave::Params for A<N, X> {
    const PRECHECK_LIMIT: u16 = 4;
    const FAST_LIMIT_MAX: u16 = 3;
    const SLOW_LIMIT: u16 = 2;
    type Node = N;
    type Table = hash_map::Table<Self>;
    type RNG = X;
}
impl<N: Node, X> hash_map::Params for A<N, X> {
    const INITIAL_CAPACITY: usize = 1;
    type Node = N;
}
impl<N: Node, X> queue::Params for A<N, X> {
    const INITIAL_CAPACITY: usize = 0;
    type Node = N;
}
impl<N: Node, X> stack::Params for A<N, X> {
    const INITIAL_CAPACITY: usize = 0;
    type Node = N;
}
struct B<N, X>(PhantomData<(N, X)>);
impl<N: Node, X: NumberGenerator> interleave::Params for B<N, X> {
    const PRECHECK_LIMIT: u16 = 2;
    const FAST_LIMIT_MAX: u16 = 0;
    const SLOW_LIMIT: u16 = 1;
    type Node = N;
    type Table = Tree<N>;
    type RNG = X;
}
macro_rules! il {
    ($m:ident, $p:ident, $r:ty) => {
        fn $m<N: Node>(a: N, b: N) -> N::Cmp {
            struct P<N>(PhantomData<N>);
            impl<N: Node> equiv::Params for P<N> {
                type Node = N;
                type DescendMode = Interleave<$p<N, Lcg>>;
                type RecurMode = $r;
                type Error = Infallible;
            }
            match Equiv::<P<N>>::default().equiv(a, b) {
                Ok(v) => v,
                Err(e) => match e {},
            }
        }
    };
}
il!(ilc, A, CallStack);
il!(ilq, A, RecurQueue<A<N, Lcg>>);
il!(ils, A, RecurStack<A<N, Lcg>>);
il!(tlc, B, CallStack);
il!(tlq, B, RecurQueue<A<N, Lcg>>);
il!(tls, B, RecurStack<A<N, Lcg>>);
macro_rules! pi {
    ($m:ident, $p:ident, $x:ty, $r:ty, $s:ty) => {
        fn $m<N: Node + Clone>(a: N, b: N) -> N::Cmp {
            struct P<N>(PhantomData<N>);
            impl<N: Node> precheck_interleave::Params<N> for P<N> {
                type PrecheckRecurMode = $r;
                type InterleaveRecurMode = $s;
                type InterleaveParams = $p<N, $x>;
                type Error = Infallible;
            }
            match precheck_interleave::equiv::<N, P<N>>(a, b) {
                Ok(v) => v,
                Err(e) => match e {},
            }
        }
    };
}
pi!(picc, A, Lcg, CallStack, CallStack);
pi!(piqq, A, random::fastrand::RandomNumberGenerator, RecurQueue<A<N, Lcg>>, RecurQueue<A<N, Lcg>>);
pi!(piss, B, random::oorandom::RandomNumberGenerator, RecurStack<A<N, Lcg>>, RecurStack<A<N, Lcg>>);
pi!(picq, B, random::wyrng::RandomNumberGenerator, CallStack, RecurQueue<A<N, Lcg>>);

fn all<N: Node + Clone>(r: &R, s: &Spec, few: bool, a: impl Fn() -> N, b: impl Fn() -> N) -> u64 {
    let safe: [fn(N, N) -> N::Cmp; 14] = [
        robust::equiv, robust::precheck_equiv, cycle_safe::equiv, cycle_safe::precheck_equiv, ilc, ilq, ils, tlc, tlq, tls, picc, piqq, piss, picq,
    ];
    let plain: [fn(N, N) -> N::Cmp; 3] = [basic::equiv, deep_safe::equiv, wide_safe::equiv];
    let limited: [fn(u16, N, N) -> Result<N::Cmp, LimitReached>; 3] = [basic::limited_equiv, deep_safe::limited_equiv, wide_safe::limited_equiv];
    let mut done = 0;
    let mut one = |f: &dyn Fn()| {
        done += 1;
        // One in five ends by a panic of a callback.
        let fuse = if r.us(5) == 0 { 1 + r.us(40) as u64 } else { 0 };
        FUSE.with(|x| x.set(fuse));
        let e = catch_unwind(AssertUnwindSafe(f));
        FUSE.with(|x| x.set(0));
        if let Err(p) = e {
            if !p.is::<Boom>() {
                eprintln!("OTHER-PANIC");
            }
        }
    };
    for (i, f) in safe.iter().enumerate() {
        if !few || r.us(4) == 0 || i == 0 {
            one(&|| drop(f(a(), b())));
        }
    }
    for (p, l) in plain.iter().zip(limited) {
        if !few || r.us(3) == 0 {
            let n = r.us(3 * s.v.len()) as u16;
            one(&|| drop(l(n, a(), b())));
            if s.plain {
                one(&|| drop(p(a(), b())));
            }
        }
    }
    done
}

// -- nodes ----------------------------------------------------------------------------------------

/// Borrowed, with edges set afterwards.
struct VB<'g>(u8, RefCell<Vec<&'g VB<'g>>>);
fn borrowed<'g>(r: &R, s: &Spec, few: bool, v: &'g [VB<'g>]) -> u64 {
    for (i, x) in s.v.iter().enumerate() {
        v[i].1.borrow_mut().extend(x.1.iter().map(|t| &v[*t]));
    }
    all(r, s, few, || &v[s.a], || &v[s.b])
}
impl<'g> Node for &'g VB<'g> {
    type Cmp = bool;
    type Id = RefId<&'g VB<'g>>;
    type Index = usize;
    fn id(&self) -> Self::Id {
        tick();
        RefId(*self)
    }
    fn get_edge(&self, i: &usize) -> Option<Self> {
        tick();
        self.1.borrow().get(*i).copied()
    }
    fn equiv_modulo_edges(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
/// Counted, edges weak (the graph keeps everything alive).
struct VR(u8, RefCell<Vec<Weak<VR>>>);
#[derive(Clone)]
struct NR(Rc<VR>);
impl Node for NR {
    type Cmp = Ordering;
    type Id = RefId<Rc<VR>>;
    type Index = u8;
    fn id(&self) -> Self::Id {
        tick();
        RefId(self.0.clone())
    }
    fn get_edge(&self, i: &u8) -> Option<Self> {
        tick();
        self.0 .1.borrow().get(usize::from(*i)).map(|w| NR(w.upgrade().expect("alive")))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> Ordering {
        tick();
        self.0 .0.cmp(&o.0 .0)
    }
}
/// Trait objects, fat ids.
trait Ob {
    fn val(&self) -> u8;
    fn to(&self, i: u16) -> Option<Rc<dyn Ob>>;
}
struct O1(u8, RefCell<Vec<Weak<dyn Ob>>>);
struct O2(String, RefCell<Vec<Weak<dyn Ob>>>);
impl Ob for O1 {
    fn val(&self) -> u8 {
        self.0
    }
    fn to(&self, i: u16) -> Option<Rc<dyn Ob>> {
        self.1.borrow().get(usize::from(i)).map(|w| w.upgrade().expect("alive"))
    }
}
impl Ob for O2 {
    fn val(&self) -> u8 {
        self.0.len() as u8
    }
    fn to(&self, i: u16) -> Option<Rc<dyn Ob>> {
        self.1.borrow().get(usize::from(i)).map(|w| w.upgrade().expect("alive"))
    }
}
#[derive(Clone)]
struct ND(Rc<dyn Ob>);
impl Node for ND {
    type Cmp = bool;
    type Id = RefId<Rc<dyn Ob>>;
    type Index = u16;
    fn id(&self) -> Self::Id {
        tick();
        RefId(self.0.clone())
    }
    fn get_edge(&self, i: &u16) -> Option<Self> {
        tick();
        self.0.to(*i).map(ND)
    }
    fn equiv_modulo_edges(&self, o: &Self) -> bool {
        tick();
        self.0.val() == o.0.val()
    }
}
/// Generated lazily: nodes live only as long as somebody holds them or their ids.
struct VL<'s>(&'s Spec, usize, Box<u64>);
#[derive(Clone)]
struct NL<'s>(Rc<VL<'s>>);
impl<'s> Node for NL<'s> {
    type Cmp = bool;
    type Id = RefId<Rc<VL<'s>>>;
    type Index = i8;
    fn id(&self) -> Self::Id {
        tick();
        RefId(self.0.clone())
    }
    fn get_edge(&self, i: &i8) -> Option<Self> {
        tick();
        self.0 .0.v[self.0 .1].1.get(*i as usize).map(|t| NL(Rc::new(VL(self.0 .0, *t, Box::new(*t as u64)))))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> bool {
        tick();
        self.0 .0.v[self.0 .1].0 == o.0 .0.v[o.0 .1].0 && *self.0 .2 < 1 << 40
    }
}
/// Ids, values and results that own heap memory.
#[derive(PartialEq)]
struct Diff(Option<Box<(usize, usize)>>);
impl graph_safe_compare::Cmp for Diff {
    fn new_equiv() -> Self {
        Diff(None)
    }
    fn is_equiv(&self) -> bool {
        self.0.is_none()
    }
    fn from_ord(o: Ordering) -> Self {
        Diff((!o.is_eq()).then(|| Box::new((0, 0))))
    }
}
#[derive(Clone)]
struct NS<'s>(&'s Spec, Box<usize>);
impl<'s> Node for NS<'s> {
    type Cmp = Diff;
    type Id = String;
    type Index = u128;
    fn id(&self) -> String {
        tick();
        format!("node {}", self.1)
    }
    fn get_edge(&self, i: &u128) -> Option<Self> {
        tick();
        self.0.v[*self.1].1.get(*i as usize).map(|t| NS(self.0, Box::new(*t)))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> Diff {
        tick();
        Diff((self.0.v[*self.1].0 != o.0.v[*o.1].0).then(|| Box::new((*self.1, *o.1))))
    }
}
/// Shared among threads.
struct VA(u8, OnceLock<Vec<std::sync::Weak<VA>>>);
#[derive(Clone)]
struct NA(Arc<VA>);
impl Node for NA {
    type Cmp = bool;
    type Id = RefId<Arc<VA>>;
    type Index = u32;
    fn id(&self) -> Self::Id {
        tick();
        RefId(self.0.clone())
    }
    fn get_edge(&self, i: &u32) -> Option<Self> {
        tick();
        self.0 .1.get().expect("set").get(*i as usize).map(|w| NA(w.upgrade().expect("alive")))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> bool {
        tick();
        self.0 .0 == o.0 .0
    }
}
/// An exclusively owned tree, nodes borrowed from within it.
struct VT(u8, Vec<VT>);
fn tree(s: &Spec, i: usize, left: &mut usize) -> VT {
    *left = left.saturating_sub(1);
    VT(s.v[i].0, if *left > 0 { s.v[i].1.iter().map(|t| tree(s, *t, left)).collect() } else { vec![] })
}
impl<'t> Node for &'t VT {
    type Cmp = Ordering;
    type Id = RefId<&'t VT>;
    type Index = isize;
    fn id(&self) -> Self::Id {
        tick();
        RefId(*self)
    }
    fn get_edge(&self, i: &isize) -> Option<Self> {
        tick();
        self.1.get(*i as usize)
    }
    fn equiv_modulo_edges(&self, o: &Self) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}

fn case(seed: u64, c: u64, size: usize, few: bool) -> (usize, u64) {
    let r = &R::new(mix(seed) ^ c);
    let kind = (c % 9) as usize;
    let s = &match kind {
        1 if c % 4 == 0 => wide(r, 256),
        3 if c % 4 == 1 => wide(r, 128),
        _ => spec(r, size),
    };
    let n = match kind {
        0 => {
            let v: Vec<VB<'_>> = s.v.iter().map(|x| VB(x.0, RefCell::default())).collect();
            borrowed(r, s, few, &v)
        },
        1 => {
            let v: Vec<Rc<VR>> = s.v.iter().map(|x| Rc::new(VR(x.0, RefCell::default()))).collect();
            for (i, x) in s.v.iter().enumerate() {
                v[i].1.borrow_mut().extend(x.1.iter().map(|t| Rc::downgrade(&v[*t])));
            }
            all(r, s, few, || NR(v[s.a].clone()), || NR(v[s.b].clone()))
        },
        2 => {
            let (mut keep1, mut keep2) = (Vec::new(), Vec::new());
            let v: Vec<Rc<dyn Ob>> = s
                .v
                .iter()
                .enumerate()
                .map(|(i, x)| -> Rc<dyn Ob> {
                    if i % 2 == 0 {
                        let o = Rc::new(O1(x.0, RefCell::default()));
                        keep1.push((i, o.clone()));
                        o
                    } else {
                        let o = Rc::new(O2("x".repeat(usize::from(x.0)), RefCell::default()));
                        keep2.push((i, o.clone()));
                        o
                    }
                })
                .collect();
            for (i, o) in &keep1 {
                o.1.borrow_mut().extend(s.v[*i].1.iter().map(|t| Rc::downgrade(&v[*t])));
            }
            for (i, o) in &keep2 {
                o.1.borrow_mut().extend(s.v[*i].1.iter().map(|t| Rc::downgrade(&v[*t])));
            }
            all(r, s, few, || ND(v[s.a].clone()), || ND(v[s.b].clone()))
        },
        3 => {
            // Every object is a node of its own: only acyclic ones end.
            if s.plain && s.v.len() < 40 && acyclic(s) {
                let f = |i: usize| NL(Rc::new(VL(s, i, Box::new(0))));
                all(r, s, few, || f(s.a), || f(s.b))
            } else {
                0
            }
        },
        4 => all(r, s, few, || NS(s, Box::new(s.a)), || NS(s, Box::new(s.b))),
        5 => {
            let mut left = 3 * size;
            let (x, y) = (tree(s, s.a, &mut left), tree(s, s.b, &mut (3 * size)));
            let s = &Spec { v: vec![(0, vec![]); 3 * size], a: 0, b: 0, plain: true };
            all(r, s, few, || &x, || &y)
        },
        8 => {
            // Everything of users' types, owning memory.
            owned::OWNING.with(|o| o.set(true));
            let r = &mut util::Rng::new(mix(seed) ^ c);
            let mut n = 0;
            for _ in 0 .. if few { 3 } else { 20 } {
                let merges = r.chance(1, 2);
                let case = if merges {
                    let w = r.range(3, 12) as usize;
                    let k = if r.chance(1, 2) { 3 } else { r.us(5) };
                    graph::merge_case(r, w, k)
                } else {
                    let (n, fam) = (r.range(2, 12) as usize, r.us(graph::FAMILIES));
                    graph::gen_case(r, n, graph::Cyc::Yes, fam, true)
                };
                let (b, d) = case.branch_stats();
                if b * d > 300 && !merges {
                    continue;
                }
                let way = if merges && r.chance(1, 2) { owned::WAYS - 3 + r.us(3) } else { r.us(owned::WAYS) };
                let x = r.next();
                let whole = owned::watch(way, &case, x, 0, 200);
                let mut calls = whole.calls;
                n += 1;
                for _ in 0 .. if few { 2 } else { 12 } {
                    let s = owned::watch(way, &case, x, 1 + r.below(whole.calls), 200);
                    calls += s.calls;
                    n += 1;
                }
                CALLBACKS.with(|c| c.set(c.get() + calls));
            }
            n
        },
        _ => {
            let v: Vec<Arc<VA>> = s.v.iter().map(|x| Arc::new(VA(x.0, OnceLock::new()))).collect();
            for (i, x) in s.v.iter().enumerate() {
                let _ = v[i].1.set(x.1.iter().map(|t| Arc::downgrade(&v[*t])).collect());
            }
            let v = &v;
            std::thread::scope(|sc| {
                let ts: Vec<_> = (0 .. 3)
                    .map(|t| {
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(sc, move || {
                                let r = &R::new(seed ^ c << 8 ^ t);
                                let n = all(r, s, few, || NA(v[s.a].clone()), || NA(v[s.b].clone()));
                                (n, CALLBACKS.with(Cell::get))
                            })
                            .expect("thread")
                    })
                    .collect();
                ts.into_iter()
                    .map(|t| {
                        let (n, k) = t.join().expect("no panic");
                        CALLBACKS.with(|c| c.set(c.get() + k));
                        n
                    })
                    .sum()
            })
        },
    };
    (kind, n)
}
fn acyclic(s: &Spec) -> bool {
    let n = s.v.len();
    let mut deg = vec![0; n];
    s.v.iter().flat_map(|x| &x.1).for_each(|t| deg[*t] += 1);
    let mut q: Vec<usize> = (0 .. n).filter(|i| deg[*i] == 0).collect();
    let mut seen = 0;
    while let Some(i) = q.pop() {
        seen += 1;
        for t in &s.v[i].1 {
            deg[*t] -= 1;
            if deg[*t] == 0 {
                q.push(*t);
            }
        }
    }
    seen == n
}

/// Whether a type may go to, or be shared with, other threads.
struct May<T: ?Sized>(PhantomData<T>);
trait MayNot {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> MayNot for May<T> {}
impl<T: ?Sized + Send> May<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> May<T> {
    #[allow(dead_code)]
    const SYNC: bool = true;
}
/// What must not, as it gives access to something that must not.
fn confined() {
    macro_rules! check {
        ($($t:ty),*) => {$(
            if May::<$t>::SEND {
                eprintln!("Data race possible: {} may be sent to another thread", stringify!($t));
            }
        )*};
    }
    macro_rules! check_sync {
        ($($t:ty),*) => {$(
            if May::<$t>::SYNC {
                eprintln!("Data race possible: {} may be shared by threads", stringify!($t));
            }
        )*};
    }
    check!(RefId<Rc<u8>>, RefId<&Cell<u8>>, RefId<Rc<dyn Ob>>, prc::Rc, hash_map::Table<A<NR, Lcg>>, Interleave<A<NR, Lcg>>, RecurQueue<A<NR, Lcg>>, RecurStack<A<NR, Lcg>>);
    check_sync!(RefId<Rc<u8>>, RefId<Box<Cell<u8>>>, prc::Rc, hash_map::Table<A<NR, Lcg>>, Interleave<A<NR, Lcg>>, RecurQueue<A<NR, Lcg>>, RecurStack<A<NR, Lcg>>);
}

fn main() {
    confined();
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().is::<Boom>() {
            eprintln!("{i}");
        }
    }));
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().expect("number")).collect();
    let few = a[3] < 30;
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut kinds = [0_u64; 9];
        let mut sum = 0;
        for c in a[1] .. a[1] + a[2] {
            let (k, n) = case(a[0], c, a[3] as usize, few);
            kinds[k] += n;
            sum += n;
        }
        println!("comparisons {sum} callbacks {} by-kind {kinds:?}", CALLBACKS.with(Cell::get));
    });
    t.expect("thread").join().expect("no panic");
}
