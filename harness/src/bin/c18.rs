//! C18: RefId.
use graph_safe_compare::utils::RefId;
use graph_safe_compare::Node;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::Deref;
use std::pin::Pin;
use std::rc::{Rc, Weak};
use std::sync::Arc;
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::util::*;

// -- the laws -------------------------------------------------------------------------------------

/// A pointee whose own traits must never be used.
#[derive(Clone)]
struct Touchy(#[allow(dead_code)] u64);
fn touched() -> ! {
    panic!("a trait of the pointed-to value was used")
}
impl PartialEq for Touchy {
    fn eq(&self, _: &Self) -> bool {
        touched()
    }
}
impl Eq for Touchy {}
impl PartialOrd for Touchy {
    fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
        touched()
    }
}
impl Ord for Touchy {
    fn cmp(&self, _: &Self) -> Ordering {
        touched()
    }
}
impl Hash for Touchy {
    fn hash<H: Hasher>(&self, _: &mut H) {
        touched()
    }
}
trait Tr {
    fn n(&self) -> u64;
}
impl Tr for Touchy {
    fn n(&self) -> u64 {
        self.0
    }
}
struct Outer {
    inner: Touchy,
    #[allow(dead_code)]
    more: [u64; 3],
}
impl Tr for Outer {
    fn n(&self) -> u64 {
        self.inner.n() + 1
    }
}
/// A pointer type of the user's own.
struct Own<'a>(&'a Touchy);
impl Deref for Own<'_> {
    type Target = Touchy;
    fn deref(&self) -> &Touchy {
        self.0
    }
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xEE);
    }
    fn finish(&self) -> u64 {
        self.0.iter().fold(1469598103934665603, |h, b| (h ^ u64::from(*b)).wrapping_mul(1099511628211))
    }
}
fn rec<T: Hash>(x: &T) -> Vec<u8> {
    let mut h = Rec::default();
    x.hash(&mut h);
    h.0
}

/// Where something is, and with which metadata (as far as distinguished by the maker).
type Key = (usize, u64);

fn laws<T: Deref>(kind: &str, v: &[(RefId<T>, Key)], cov: &mut Cov) {
    let sip = std::collections::hash_map::RandomState::new();
    let n = v.len();
    let mut bads = Vec::new();
    let mut bad = |s: String| bads.push(format!("RefId of {kind}: {s}"));
    for i in 0..n {
        for j in 0..n {
            let ((a, ka), (b, kb)) = (&v[i], &v[j]);
            let same = ka == kb;
            if (a == b) != same || (a != b) == same {
                bad(format!("== gives {} and != gives {} for targets {ka:?} and {kb:?}", a == b, a != b));
            }
            let c = a.cmp(b);
            if (c == Ordering::Equal) != same {
                bad(format!("cmp gives {c:?} for targets {ka:?} and {kb:?}"));
            }
            if b.cmp(a) != c.reverse() {
                bad(format!("cmp gives {c:?} and in the other direction {:?}", b.cmp(a)));
            }
            if a.partial_cmp(b) != Some(c) {
                bad(format!("cmp gives {c:?}, partial_cmp {:?}", a.partial_cmp(b)));
            }
            if (a < b, a <= b, a > b, a >= b) != (c.is_lt(), c.is_le(), c.is_gt(), c.is_ge()) {
                bad(format!("cmp gives {c:?}, but <, <=, >, >= give {:?}", (a < b, a <= b, a > b, a >= b)));
            }
            // (As ids of plain references to the same targets, which can be copied.)
            let (p, q) = (RefId(&*a.0), RefId(&*b.0));
            if (p == q, p.cmp(&q)) != (same, c) {
                bad(format!("for references to the same targets, cmp gives {:?} instead of {c:?}", p.cmp(&q)));
            }
            let (gt, lt) = if c.is_gt() { (p, q) } else { (q, p) };
            for (mx, mn) in [(p.max(q), p.min(q)), (q.max(p), q.min(p)), (std::cmp::max(p, q), std::cmp::min(p, q))] {
                if mx != gt || mn != lt {
                    bad(format!("max or min disagree with cmp {c:?}"));
                }
            }
            for (k, _) in v.iter().take(4) {
                let k = RefId(&*k.0);
                let exp = if k < lt { lt } else if k > gt { gt } else { k };
                if k.clamp(lt, gt) != exp || exp != k.max(lt).min(gt) {
                    bad(format!("clamp disagrees with cmp between {ka:?} and {kb:?}"));
                }
            }
            let (ra, rb) = (rec(a), rec(b));
            if same != (ra == rb) {
                bad(format!("what is hashed is {} for targets {ka:?} and {kb:?}", if ra == rb { "the same" } else { "different" }));
            }
            if same && sip.hash_one(a) != sip.hash_one(b) {
                bad(format!("equal, but hashes differ for targets {ka:?} and {kb:?}"));
            }
            cov.add("pairs of ids judged", 1);
        }
    }
    for s in bads {
        cov.vio(s);
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                let (a, b, c) = (&v[i].0, &v[j].0, &v[k].0);
                if a <= b && b <= c && !(a <= c) || a < b && b < c && !(a < c) || a == b && b == c && a != c {
                    cov.vio(format!("RefId of {kind}: not transitive for {:?} {:?} {:?}", v[i].1, v[j].1, v[k].1));
                }
            }
        }
        cov.add("triples of ids judged", (n * n) as u64);
    }
    let mut sorted: Vec<_> = v.iter().map(|x| RefId(&*x.0 .0)).collect();
    sorted.sort();
    if !sorted.is_sorted() || sorted.windows(2).any(|w| w[0].cmp(&w[1]) == Ordering::Greater) {
        cov.vio(format!("RefId of {kind}: sorting does not sort"));
    }
    let hs: HashSet<&RefId<T>> = v.iter().map(|x| &x.0).collect();
    let bs: BTreeSet<&RefId<T>> = v.iter().map(|x| &x.0).collect();
    let ks: HashSet<Key> = v.iter().map(|x| x.1).collect();
    if hs.len() != ks.len() || bs.len() != ks.len() {
        cov.vio(format!("RefId of {kind}: {} distinct targets, but {} in a hash set, {} in an ordered one", ks.len(), hs.len(), bs.len()));
    }
    cov.eval(Some(mix2(kind.bytes().fold(3, |h, b| mix2(h, u64::from(b))), ks.iter().map(|k| mix2(k.0 as u64, k.1)).fold(0, u64::wrapping_add))));
}
fn at<T: ?Sized>(p: *const T) -> usize {
    p.cast::<u8>() as usize
}
fn zoo(r: &mut Rng, cov: &mut Cov) {
    let n = r.range(2, 7) as usize;
    let arr: Vec<Touchy> = (0..n as u64).map(|_| Touchy(7)).collect();
    let boxes: Vec<Box<Touchy>> = (0..n as u64).map(|_| Box::new(Touchy(7))).collect();
    let some = |r: &mut Rng| r.us(n);
    let key = |t: &Touchy| (at(t), 0);
    {
        let v: Vec<_> = (0..8).map(|k| { let i = some(r); let t = if k % 2 == 0 { &arr[i] } else { &*boxes[i] }; (RefId(t), key(t)) }).collect();
        laws("&T", &v, cov);
        let v: Vec<_> = v.iter().map(|x| (RefId(x.0 .0), x.1)).collect::<Vec<_>>().iter().map(|x| (x.0, x.1)).collect();
        laws("&T (copied)", &v, cov);
        let v: Vec<_> = v.iter().map(|x| (RefId(Own(x.0 .0)), x.1)).collect();
        laws("custom pointer", &v, cov);
        let v: Vec<_> = v.iter().map(|x| (RefId(Pin::new(x.0 .0 .0)), x.1)).collect();
        laws("Pin<&T>", &v, cov);
    }
    {
        let mut m = arr.clone();
        let v: Vec<_> = m.iter_mut().map(|t| { let k = key(t); (RefId(t), k) }).collect();
        laws("&mut T", &v, cov);
        let mut l = boxes.clone();
        let mut v: Vec<_> = l.drain(..).map(|t| { let k = key(&t); (RefId(t), k) }).collect();
        let i = some(r);
        v.swap(0, i);
        laws("Box", &v, cov);
    }
    {
        let rcs: Vec<Rc<Touchy>> = (0..n).map(|_| Rc::new(Touchy(7))).collect();
        let v: Vec<_> = (0..8).map(|_| { let t = rcs[some(r)].clone(); let k = key(&t); (RefId(t), k) }).collect();
        laws("Rc", &v, cov);
        let v: Vec<_> = v.iter().map(|x| (x.0.clone(), x.1)).collect();
        laws("Rc (cloned)", &v, cov);
        let v: Vec<_> = v.iter().map(|x| { let d: Rc<dyn Tr> = x.0 .0.clone(); (RefId(d), x.1) }).collect();
        let w: Vec<_> = v.iter().chain(v.iter()).map(|x| (x.0.clone(), x.1)).take(12).collect();
        laws("Rc<dyn>", &w, cov);
        let arcs: Vec<Arc<Touchy>> = (0..n).map(|_| Arc::new(Touchy(7))).collect();
        let v: Vec<_> = (0..8).map(|_| { let t = arcs[some(r)].clone(); let k = key(&t); (RefId(t), k) }).collect();
        laws("Arc", &v, cov);
    }
    {
        // Slices of one array: the same start with other lengths, the same length elsewhere.
        let sl = |r: &mut Rng| { let i = r.us(n + 1); let j = i + r.us(n + 1 - i); let s = &arr[i..j]; (s, (at(s.as_ptr()), s.len() as u64)) };
        let v: Vec<_> = (0..10).map(|_| { let (s, k) = sl(r); (RefId(s), k) }).collect();
        laws("&[T]", &v, cov);
        let text = "aaaaaaaa";
        let v: Vec<_> = (0..10).map(|_| { let i = r.us(9); let j = i + r.us(9 - i); let s = &text[i..j]; (RefId(s), (at(s.as_ptr()), s.len() as u64)) }).collect();
        laws("&str", &v, cov);
        let v: Vec<_> = (0..6).map(|i| { let s: Vec<Touchy> = vec![Touchy(7); i % 3 + 1]; let k = (at(s.as_ptr()), s.len() as u64); (RefId(s), k) }).collect();
        laws("Vec", &v, cov);
        let v: Vec<_> = (0..6).map(|i| { let s = "x".repeat(i % 3 + 1); let k = (at(s.as_ptr()), s.len() as u64); (RefId(s), k) }).collect();
        laws("String", &v, cov);
        let rs: Vec<Rc<[Touchy]>> = (0..n).map(|i| vec![Touchy(7); i % 3].into()).collect();
        let v: Vec<_> = (0..8).map(|_| { let t = rs[some(r)].clone(); let k = (at(t.as_ptr()), t.len() as u64); (RefId(t), k) }).collect();
        // (Empty ones are not necessarily distinct.)
        laws("Rc<[T]>", &v, cov);
        let a8 = [7u8; 8];
        let v: Vec<_> = (0..10).map(|_| { let i = r.us(9); let j = i + r.us(9 - i); let s = &a8[i..j]; (RefId(s), (at(s.as_ptr()), s.len() as u64)) }).collect();
        laws("&[u8]", &v, cov);
        let units = [(); 6];
        let v: Vec<_> = (0..6).map(|i| { let s = &units[..i]; (RefId(s), (at(s.as_ptr()), s.len() as u64)) }).collect();
        laws("&[()]", &v, cov);
        let v: Vec<_> = units.iter().map(|u| (RefId(u), (at(u), 0))).collect();
        laws("&()", &v, cov);
    }
    {
        // Trait objects, some with the same address and another type.
        let os: Vec<Outer> = (0..n).map(|_| Outer { inner: Touchy(7), more: [7; 3] }).collect();
        // (One place makes each kind, so that each has one vtable.)
        fn outer(o: &Outer) -> &dyn Tr { o }
        fn inner(o: &Outer) -> &dyn Tr { &o.inner }
        let v: Vec<_> = (0..10).map(|_| { let o = &os[some(r)]; if r.chance(1, 2) { (RefId(outer(o)), (at(o), 1)) } else { (RefId(inner(o)), (at(&o.inner), 2)) } }).collect();
        laws("&dyn", &v, cov);
        cov.add("trait objects", v.iter().map(|x| x.0 .0.n() & 1).sum());
    }
}

// -- graphs generated lazily, alive only through their pointers -----------------------------------

struct Datum {
    x: u32,
    #[allow(dead_code)]
    touchy: Touchy,
}
thread_local! {
    static ALIVE: Cell<i64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
    static ADDRS: RefCell<HashSet<usize>> = RefCell::default();
}
impl Datum {
    fn new(x: u32) -> Self {
        ALIVE.with(|a| a.set(a.get() + 1));
        MADE.with(|a| a.set(a.get() + 1));
        Datum { x, touchy: Touchy(1) }
    }
}
impl Drop for Datum {
    fn drop(&mut self) {
        ALIVE.with(|a| a.set(a.get() - 1));
    }
}
trait DatumLike {
    fn x(&self) -> u32;
}
impl DatumLike for Datum {
    fn x(&self) -> u32 {
        self.x
    }
}
/// A pointer that keeps its target alive.
trait Lp: Clone + Deref + 'static {
    fn mk(x: u32) -> Self;
    fn x(&self) -> u32;
    type W: Clone;
    fn down(&self) -> Self::W;
    fn up(w: &Self::W) -> Option<Self>;
}
macro_rules! lp {
    ($p:ty, $w:ty, $mk:expr, $x:expr, $down:expr, $up:expr) => {
        impl Lp for $p {
            fn mk(x: u32) -> Self { let p: $p = $mk(x); ADDRS.with(|a| a.borrow_mut().insert(at::<<$p as Deref>::Target>(&*p))); p }
            fn x(&self) -> u32 { $x(self) }
            type W = $w;
            fn down(&self) -> $w { $down(self) }
            fn up(w: &$w) -> Option<Self> { $up(w) }
        }
    };
}
lp!(Rc<Datum>, Weak<Datum>, |x| Rc::new(Datum::new(x)), |s: &Rc<Datum>| s.x, Rc::downgrade, Weak::upgrade);
lp!(Arc<Datum>, std::sync::Weak<Datum>, |x| Arc::new(Datum::new(x)), |s: &Arc<Datum>| s.x, Arc::downgrade, std::sync::Weak::upgrade);
lp!(Rc<dyn DatumLike>, Weak<dyn DatumLike>, |x| { let r: Rc<dyn DatumLike> = Rc::new(Datum::new(x)); r }, |s: &Rc<dyn DatumLike>| DatumLike::x(&**s), Rc::downgrade, Weak::upgrade);
lp!(Rc<[Datum]>, Weak<[Datum]>, |x| { let r: Rc<[Datum]> = vec![Datum::new(x), Datum::new(x)].into(); r }, |s: &Rc<[Datum]>| s[0].x, Rc::downgrade, Weak::upgrade);

struct World<'g, P: Lp> {
    g: &'g Graph,
    /// Whether an object that is still alive is given again, and not another one like it.
    cached: bool,
    cache: RefCell<HashMap<u32, P::W>>,
    calls: Cell<u64>,
    budget: u64,
}
struct LN<'g, P: Lp> {
    w: &'g World<'g, P>,
    p: P,
}
impl<P: Lp> Clone for LN<'_, P> {
    fn clone(&self) -> Self {
        LN { w: self.w, p: self.p.clone() }
    }
}
impl<'g, P: Lp> World<'g, P> {
    fn node(&'g self, x: u32) -> LN<'g, P> {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if n > self.budget {
            std::panic::panic_any(Budget);
        }
        let id = self.g.id[x as usize];
        if self.cached {
            if let Some(p) = self.cache.borrow().get(&id).and_then(P::up) {
                return LN { w: self, p };
            }
        }
        let p = P::mk(x);
        if self.cached {
            self.cache.borrow_mut().insert(id, p.down());
        }
        LN { w: self, p }
    }
}
impl<P: Lp> Node for LN<'_, P> {
    type Cmp = Rich;
    type Id = RefId<P>;
    type Index = u32;
    fn id(&self) -> RefId<P> {
        RefId(self.p.clone())
    }
    fn get_edge(&self, i: &u32) -> Option<Self> {
        self.w.g.edge(self.p.x(), *i as usize).map(|y| self.w.node(y))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> Rich {
        let (a, b) = (self.p.x(), o.p.x());
        Rich::make(cmpval(self.w.g.val[a as usize], self.w.g.val[b as usize]), a, b)
    }
}
fn lazy<P: Lp>(kind: &str, case: &Case, cached: bool, alg: Alg, cap: u64, cov: &mut Cov) {
    let exp_eq = hk_equal(case, usize::MAX);
    let order = alg.orders().1;
    let w: World<'_, P> = World { g: &case.g, cached, cache: RefCell::default(), calls: Cell::new(0), budget: cap };
    ALIVE.with(|a| a.set(0));
    MADE.with(|a| a.set(0));
    ADDRS.with(|a| a.borrow_mut().clear());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let (a, b) = (w.node(case.ra), w.node(case.rb));
        call_few(alg, a, b).map(|c| c.out())
    }));
    let made = MADE.with(Cell::get);
    let addrs = ADDRS.with(|a| a.borrow().len()) as u64;
    cov.add("lazily made objects", made);
    cov.max("most objects for one address", made / addrs.max(1));
    cov.eval((made > 6).then(|| mix2(mix2(case.hash(), u64::from(cached)), kind.bytes().chain(alg.name().bytes()).fold(3, |h, b| mix2(h, u64::from(b))))));
    cov.sample(|| format!("{} on lazily made {kind} (cached {cached}): {made} objects at {addrs} addresses; {}", alg.name(), case.dump(8)));
    let d = || format!("{} on lazily made {kind} (given again while alive: {cached}): {}", alg.name(), case.dump(60));
    match r {
        Ok(Ok(o)) => {
            if (o == Outcome::Equal) != exp_eq {
                cov.vio(format!("{}: result {o:?}, the graphs are {}", d(), if exp_eq { "equal" } else { "different" }));
            } else if (!case.cyclic || order == Order::Bfs) && alg.orders().0 == order {
                // (Different objects may represent the same node.)
                let idof = |o: Outcome| match o {
                    Outcome::Val { ord, a, b } => Outcome::Val { ord, a: case.g.id[a as usize], b: case.g.id[b as usize] },
                    o => o,
                };
                if let Some(e) = first_diff(case, order, usize::MAX, 1_000_000) {
                    if idof(e) != idof(o) {
                        cov.vio(format!("{}: result {o:?}, the first difference is {e:?}", d()));
                    }
                }
            }
        },
        Ok(Err(_)) => return,
        Err(p) => {
            let e = classify(p);
            cov.vio(format!("{}: {}", d(), end_text(&e)));
            return;
        },
    }
    let left = ALIVE.with(Cell::get);
    if left != 0 {
        cov.vio(format!("{}: {left} objects are still alive after it returned", d()));
    }
}
/// The same graphs, without anything in common, nor several objects for a node.
fn apart(c: &Case) -> Case {
    let n = c.g.n() as u32;
    let mut b = B::default();
    for k in [0, n] {
        for x in 0..n {
            b.node(c.g.val[x as usize], c.g.edges(x).iter().map(|y| y + k).collect());
        }
    }
    Case::new(&b, c.ra, c.rb + n, &c.label)
}
fn lazy_any(r: &mut Rng, cov: &mut Cov) {
    let cached = r.chance(1, 2);
    let (mut case, cap, alg);
    if cached && r.chance(3, 4) {
        let n = size(r, 60);
        let fam = r.us(FAMILIES);
        case = gen_case(r, n, Cyc::Yes, fam, false);
        alg = few_alg(r);
        let b = safe_bound(&case, alg);
        if b > 200_000 {
            return;
        }
        // (Before its pointer is kept in the table, a node may be given as several objects.)
        cap = budget_for(b.saturating_mul(3));
    } else {
        loop {
            let n = size(r, 60);
            let fam = r.us(FAMILIES);
            case = gen_case(r, n, Cyc::No, fam, false);
            if case.cyclic {
                continue;
            }
            if !cached {
                case = apart(&case);
            }
            let s = naive(&case, Order::Dfs, usize::MAX, 8000);
            let t = naive(&case, Order::Bfs, usize::MAX, 8000);
            if s.stop != Stop::Cap && t.stop != Stop::Cap {
                break;
            }
        }
        alg = if r.chance(1, 5) { *r.pick(&STD_PLAIN) } else { few_alg(r) };
        cap = 4_000_000;
    }
    set_rng(rng_cfg(r));
    match r.below(5) {
        0 | 1 => lazy::<Rc<Datum>>("Rc<T>", &case, cached, alg, cap, cov),
        2 => lazy::<Arc<Datum>>("Arc<T>", &case, cached, alg, cap, cov),
        3 => lazy::<Rc<dyn DatumLike>>("Rc<dyn>", &case, cached, alg, cap, cov),
        _ => lazy::<Rc<[Datum]>>("Rc<[T]>", &case, cached, alg, cap, cov),
    }
}

// -- nodes that are slices, or trait objects, that share addresses ---------------------------------

#[derive(Clone, Copy)]
struct SN<'a>(&'a [u8], u8);
fn sedge(s: &[u8], how: u8, i: u8) -> Option<&[u8]> {
    if s.is_empty() {
        return None;
    }
    match (how, i) {
        (0, 0) | (1, 1) => Some(&s[..s.len() - 1]),
        (0, 1) | (1, 0) => Some(&s[1..]),
        (2, 0) => Some(&s[..s.len() / 2]),
        (2, 1) => Some(&s[s.len() / 2 + 1..]),
        (2, 2) => Some(&s[..s.len() - 1]),
        _ => None,
    }
}
impl<'a> Node for SN<'a> {
    type Cmp = Ordering;
    type Id = RefId<&'a [u8]>;
    type Index = u8;
    fn id(&self) -> Self::Id {
        RefId(self.0)
    }
    fn get_edge(&self, i: &u8) -> Option<Self> {
        sedge(self.0, self.1, *i).map(|s| SN(s, self.1))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> Ordering {
        self.0.last().cmp(&o.0.last())
    }
}
#[derive(Clone, Copy)]
struct STR<'a>(&'a str, u8);
impl<'a> Node for STR<'a> {
    type Cmp = Ordering;
    type Id = RefId<&'a str>;
    type Index = u8;
    fn id(&self) -> Self::Id {
        RefId(self.0)
    }
    fn get_edge(&self, i: &u8) -> Option<Self> {
        sedge(self.0.as_bytes(), self.1, *i).map(|s| STR(std::str::from_utf8(s).expect("ascii"), self.1))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> Ordering {
        self.0.as_bytes().last().cmp(&o.0.as_bytes().last())
    }
}
/// First difference, in preorder or level by level, by plain recursion.
fn sref(a: &[u8], b: &[u8], how: u8, bfs: bool) -> Ordering {
    let mut q = std::collections::VecDeque::from([(a, b)]);
    while let Some((a, b)) = if bfs { q.pop_front() } else { q.pop_back() } {
        let c = a.last().cmp(&b.last());
        if c != Ordering::Equal {
            return c;
        }
        let mut kids = Vec::new();
        for i in 0.. {
            match (sedge(a, how, i), sedge(b, how, i)) {
                (Some(x), Some(y)) => kids.push((x, y)),
                (None, None) => break,
                // (Does not occur after equal last bytes: both or none are empty.)
                (x, y) => return x.is_some().cmp(&y.is_some()),
            }
        }
        if bfs {
            q.extend(kids);
        } else {
            q.extend(kids.into_iter().rev());
        }
    }
    Ordering::Equal
}
fn slices(r: &mut Rng, cov: &mut Cov) {
    let n = r.range(2, 9) as usize;
    let mut buf: Vec<u8> = (0..n as u8).map(|_| b'a' + r.below(2) as u8).collect();
    if r.chance(1, 2) {
        buf.fill(b'a');
    }
    let mut buf2 = buf.clone();
    if r.chance(1, 2) {
        let i = r.us(n);
        buf2[i] ^= 1;
    }
    let how = r.below(3) as u8;
    let part = |r: &mut Rng| {
        let i = r.us(n + 1);
        (i, i + r.us(n + 1 - i))
    };
    let ((i, j), (k, l)) = (part(r), part(r));
    let (i, j, k, l) = if r.chance(1, 3) { (i, j, i, j) } else if r.chance(1, 2) { (i, j, i, l.max(i)) } else { (i, j, k, l) };
    let b2 = if r.chance(2, 3) { &buf } else { &buf2 };
    let (a, b) = (&buf[i..j], &b2[k..l]);
    let alg = if r.chance(1, 3) { *r.pick(&STD_PLAIN) } else { few_alg(r) };
    set_rng(rng_cfg(r));
    let text = r.chance(1, 3);
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if text {
            call_few(alg, STR(std::str::from_utf8(a).expect("ascii"), how), STR(std::str::from_utf8(b).expect("ascii"), how)).ok()
        } else {
            call_few(alg, SN(a, how), SN(b, how)).ok()
        }
    }));
    let exp = sref(a, b, how, alg.orders().1 == Order::Bfs);
    cov.eval(Some(mix2(mix2((i * 10 + j) as u64, (k * 10 + l) as u64), mix2(u64::from(how), mix2(buf.iter().chain(b2.iter()).fold(1, |h, x| mix2(h, u64::from(*x))), alg.name().bytes().fold(1, |h, x| mix2(h, u64::from(x))))))));
    cov.add("comparisons of slices as nodes", 1);
    let (o1, o2) = alg.orders();
    let exact = o1 == o2;
    if got.as_ref().ok().copied().flatten().map(|g| if exact { g } else { exp }) != Some(exp) || matches!(&got, Ok(Some(g)) if g.is_eq() != exp.is_eq()) {
        cov.vio(format!("{} on the parts {i}..{j} of {buf:?} and {k}..{l} of {b2:?} (same memory: {}) as nodes, {how}: {:?}, should be {exp:?}", alg.name(), std::ptr::eq(b2, &buf), got.map_err(classify)));
    }
}

#[repr(C)]
struct Wrap<T>(T, u8);
trait Dn {
    fn v(&self) -> u8;
    fn kid(&self, i: u8) -> Option<&dyn Dn>;
}
impl<T: Dn> Dn for Wrap<T> {
    fn v(&self) -> u8 {
        self.1
    }
    fn kid(&self, i: u8) -> Option<&dyn Dn> {
        (i < 2).then_some(&self.0)
    }
}
struct End(u8);
impl Dn for End {
    fn v(&self) -> u8 {
        self.0
    }
    fn kid(&self, _: u8) -> Option<&dyn Dn> {
        None
    }
}
#[derive(Clone, Copy)]
struct DNode<'a>(&'a dyn Dn);
impl<'a> Node for DNode<'a> {
    type Cmp = Ordering;
    type Id = RefId<&'a dyn Dn>;
    type Index = u8;
    fn id(&self) -> Self::Id {
        RefId(self.0)
    }
    fn get_edge(&self, i: &u8) -> Option<Self> {
        self.0.kid(*i).map(DNode)
    }
    fn equiv_modulo_edges(&self, o: &Self) -> Ordering {
        self.0.v().cmp(&o.0.v())
    }
}
/// Trait objects nested at one and the same address: only the metadata distinguishes them.
fn nested_objects(r: &mut Rng, cov: &mut Cov) {
    let x: Vec<u8> = (0..5).map(|_| if r.chance(1, 6) { 1 } else { 0 }).collect();
    let mut y = x.clone();
    if r.chance(1, 2) {
        y[r.us(5)] ^= 1;
    }
    let mk = |v: &[u8]| Wrap(Wrap(Wrap(Wrap(End(v[4]), v[3]), v[2]), v[1]), v[0]);
    let (p, q) = (mk(&x), mk(&y));
    let (i, j) = (r.us(5), r.us(5));
    fn at_depth(o: &dyn Dn, i: usize) -> &dyn Dn {
        if i == 0 { o } else { at_depth(o.kid(0).expect("kid"), i - 1) }
    }
    let same = r.chance(1, 2);
    let z = if same { &x } else { &y };
    let (a, b) = (at_depth(&p, i), if same { at_depth(&p, j) } else { at_depth(&q, j) });
    let alg = if r.chance(1, 3) { *r.pick(&STD_PLAIN) } else { few_alg(r) };
    set_rng(rng_cfg(r));
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call_few(alg, DNode(a), DNode(b)).ok()));
    // Chains of values (each with its child twice): the first difference is that of the chains.
    let (u, w) = (&x[i..], &z[j..]);
    let exp = u.cmp(w);
    cov.add("comparisons of nested trait objects as nodes", 1);
    cov.eval(Some(mix2((i * 5 + j) as u64, mix2(u64::from(same), u.iter().chain(w).fold(1, |h, x| mix2(h, u64::from(*x)))))));
    if got.as_ref().ok().copied().flatten() != Some(exp) {
        cov.vio(format!("{} on nested trait objects {u:?} and {w:?} (same memory: {same}): {:?}, should be {exp:?}", alg.name(), got.map_err(classify)));
    }
}

fn go(job: &mut Job, cov: &mut Cov) {
    let r = &mut job.rng;
    match job.part {
        0 => {
            for _ in 0..4 {
                let mut c = Cov::default();
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| zoo(r, &mut c)));
                cov.evals += c.evals;
                cov.sigs.extend(c.sigs);
                for (k, v) in c.counters {
                    cov.add(k, v);
                }
                for v in c.vios {
                    cov.vio(v);
                }
                if let Err(p) = res {
                    cov.vio(format!("a trait of RefId: {}", end_text(&classify(p))));
                }
            }
        },
        1 => {
            for _ in 0..60 {
                lazy_any(r, cov);
            }
        },
        2 => {
            for _ in 0..200 {
                slices(r, cov);
            }
        },
        _ => {
            for _ in 0..200 {
                nested_objects(r, cov);
            }
        },
    }
}
fn main() {
    static PLAN: Plan = Plan {
        prop: "C18",
        rule: "a set of pointers of one kind whose pairs and triples are all judged, or a comparison over objects made lazily, over slices, or over trait objects at one address",
        parts: &[(300, 3000), (4000, 60_000), (1000, 10_000), (400, 3000)],
        stack: 64 << 20,
        run: go,
    };
    vmon::driver::main(&PLAN);
}
