//! One deterministic workload over every function that the configuration provides.  Prints, for
//! each slot (function x node type), a digest of all observations: returned value, and the exact
//! sequence of callbacks where it does not depend on the configuration's default generator.
//!
//!   vcfg SEED CASES            prints `slot<TAB>digest<TAB>observations<TAB>callbacks`
//!   vcfg SEED CASES SLOT       prints `case<TAB>observation` for that slot
//!   vcfg SEED CASES show CASE  describes that case
#![cfg_attr(feature = "anticipate", feature(step_trait, never_type))]
use graph_safe_compare::basic::modes::limited::{LimitReached, Limited};
use graph_safe_compare::basic::modes::unlimited::Unlimited;
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::random::{self, NumberGenerator};
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
use graph_safe_compare::generic::equiv::{self, Equiv};
use graph_safe_compare::generic::equiv_classes::{self, Class};
use graph_safe_compare::generic::precheck_interleave;
use graph_safe_compare::utils::RefId;
use graph_safe_compare::{basic, Cmp, Node};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::num::NonZeroU16;
use std::rc::Rc;

#[cfg(not(feature = "anticipate"))]
type Never = std::convert::Infallible;
#[cfg(feature = "anticipate")]
type Never = !;

// -- utilities ------------------------------------------------------------------------------------

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93))
}
struct R(Cell<u64>);
impl R {
    fn next(&self) -> u64 {
        self.0.set(self.0.get().wrapping_add(1));
        mix(self.0.get().wrapping_mul(0xA24B_AED4_963E_E407))
    }
    fn us(&self, n: usize) -> usize {
        ((u128::from(self.next()) * n as u128) >> 64) as usize
    }
    fn chance(&self, a: usize, b: usize) -> bool {
        self.us(b) < a
    }
}

// -- graphs ---------------------------------------------------------------------------------------

struct Vx {
    val: u8,
    to: Vec<u32>,
}
struct G {
    v: Vec<Vx>,
    a: u32,
    b: u32,
    cyclic: bool,
    /// Pairs that the plain traversals visit, breadth-first and depth-first; `None`: too many.
    plain: Option<(u64, u64)>,
    deep: bool,
}

fn gen(seed: u64, case: u64) -> G {
    let r = R(Cell::new(mix2(seed, case)));
    let mut v: Vec<Vx> = Vec::new();
    let kind = r.us(10);
    let cyclic = kind < 4;
    let mut deep = false;
    match kind {
        9 => {
            // Long chain, the tail being the first, or the last edge.
            let n = 1 + r.us(3000);
            deep = n > 300;
            let first = r.chance(1, 2);
            for i in 0 .. n {
                v.push(Vx { val: 0, to: Vec::new() });
                if i > 0 {
                    let mut to = vec![i as u32 - 1];
                    if r.chance(1, 2) {
                        to.insert(usize::from(first), r.us(i.min(3)) as u32);
                    }
                    v[i].to = to;
                }
            }
        },
        8 => {
            // Degenerate: every level shares the next.
            let n = 2 + r.us(if r.chance(1, 3) { 60 } else { 9 });
            for i in 0 .. n {
                v.push(Vx { val: 0, to: if i > 0 { vec![i as u32 - 1; 2] } else { Vec::new() } });
            }
        },
        _ => {
            let n = 1 + r.us([4, 12, 40, 120][r.us(4)]);
            let maxd = [1, 2, 3, 6, 30][r.us(5)];
            for i in 0 .. n {
                let d = r.us(maxd + 1);
                let to = (0 .. d)
                    .filter_map(|_| {
                        if cyclic {
                            Some(r.us(n) as u32)
                        } else if i > 0 {
                            Some(if r.chance(1, 2) { i - 1 - r.us(i.min(3)) } else { r.us(i) } as u32)
                        } else {
                            None
                        }
                    })
                    .collect();
                v.push(Vx { val: if r.chance(1, 12) { r.us(3) as u8 } else { 0 }, to });
            }
        },
    }
    let n = v.len() as u32;
    let a = if cyclic { r.us(n as usize) as u32 } else { n - 1 };
    // The other graph: a copy with some nodes duplicated, some shared with the first, and mutated.
    let b = match r.us(6) {
        0 => r.us(n as usize) as u32,
        k => {
            let dup = 1 + u32::from(r.chance(1, 2));
            for c in 0 .. dup {
                for i in 0 .. n {
                    let to = v[i as usize]
                        .to
                        .clone()
                        .into_iter()
                        .map(|t| if r.chance(1, 40) { t } else { n + t + n * if cyclic || dup == 1 { r.us(dup as usize) as u32 } else { c } })
                        .collect();
                    let val = v[i as usize].val;
                    v.push(Vx { val, to });
                }
            }
            for _ in 0 .. k / 2 {
                let x = (n + r.us((n * dup) as usize) as u32) as usize;
                match r.us(4) {
                    0 => v[x].val = v[x].val.wrapping_add(1 + r.us(2) as u8),
                    1 => {
                        let _ = v[x].to.pop();
                    },
                    2 if !v[x].to.is_empty() => {
                        let t = v[x].to[0];
                        v[x].to.push(t);
                    },
                    _ if v[x].to.len() > 1 => {
                        let l = v[x].to.len();
                        v[x].to.swap(0, l - 1);
                    },
                    _ => (),
                }
            }
            a + n
        },
    };
    let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
    let mut g = G { v, a, b, cyclic, plain: None, deep };
    g.plain = plain(&g, true, 30_000).zip(plain(&g, false, 30_000));
    g
}

fn plain(g: &G, bfs: bool, cap: u64) -> Option<u64> {
    let mut todo = std::collections::VecDeque::from([(g.a, g.b)]);
    let mut n = 0;
    while let Some((a, b)) = todo.pop_front() {
        n += 1;
        if n > cap {
            return None;
        }
        if a == b {
            continue;
        }
        let (x, y) = (&g.v[a as usize], &g.v[b as usize]);
        if x.val != y.val {
            return Some(n);
        }
        // Conservative when the amounts of edges differ: may count more.
        let m = x.to.len().min(y.to.len());
        if bfs {
            (0 .. m).for_each(|i| todo.push_back((x.to[i], y.to[i])));
        } else {
            (0 .. m).rev().for_each(|i| todo.push_front((x.to[i], y.to[i])));
        }
    }
    Some(n)
}

// -- nodes ----------------------------------------------------------------------------------------

thread_local! {
    static LOG: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
fn log(x: u64) {
    LOG.with(|l| {
        let (h, n) = l.get();
        if n > 30_000_000 {
            eprintln!("out of budget");
            std::process::exit(7);
        }
        l.set(((h ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23), n + 1));
    });
}

/// Names the difference.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum P {
    Eq,
    Pair(u32, u32),
    Amount(Ordering),
}
impl Cmp for P {
    fn new_equiv() -> Self {
        P::Eq
    }
    fn is_equiv(&self) -> bool {
        *self == P::Eq
    }
    fn from_ord(o: Ordering) -> Self {
        if o.is_eq() { P::Eq } else { P::Amount(o) }
    }
}
trait Obs: Cmp {
    fn obs(&self) -> u64;
    fn of(a: &Vx, b: &Vx, ai: u32, bi: u32) -> Self;
}
impl Obs for P {
    fn obs(&self) -> u64 {
        match self {
            P::Eq => 1,
            P::Pair(a, b) => mix2(u64::from(*a), u64::from(*b)),
            P::Amount(o) => 10_u64.wrapping_add_signed(*o as i64),
        }
    }
    fn of(a: &Vx, b: &Vx, ai: u32, bi: u32) -> Self {
        if a.val == b.val { P::Eq } else { P::Pair(ai, bi) }
    }
}
impl Obs for bool {
    fn obs(&self) -> u64 {
        u64::from(*self)
    }
    fn of(a: &Vx, b: &Vx, _: u32, _: u32) -> Self {
        a.val == b.val
    }
}
impl Obs for Ordering {
    fn obs(&self) -> u64 {
        10_u64.wrapping_add_signed(*self as i64)
    }
    fn of(a: &Vx, b: &Vx, _: u32, _: u32) -> Self {
        a.val.cmp(&b.val)
    }
}

trait Ix: 'static + Clone + Default + Ord {
    fn get(&self) -> usize;
}
macro_rules! ix { ($($t:ty)*) => { $(impl Ix for $t { fn get(&self) -> usize { *self as usize } })* } }
ix!(u8 i16 u64 usize);

/// Node by number: id is the number (`I32`) or the vertex' address (`Addr`).
trait Kind<'g>: 'static {
    type Id: Clone + Ord + std::hash::Hash;
    type C: Obs;
    fn id(g: &'g G, i: u32) -> Self::Id;
}
struct N<'g, K, I>(&'g G, u32, PhantomData<(K, I)>);
impl<K, I> Clone for N<'_, K, I> {
    fn clone(&self) -> Self {
        N(self.0, self.1, PhantomData)
    }
}
struct KP;
impl<'g> Kind<'g> for KP {
    type Id = u32;
    type C = P;
    fn id(_: &'g G, i: u32) -> u32 {
        i
    }
}
struct KB;
impl<'g> Kind<'g> for KB {
    type Id = RefId<&'g Vx>;
    type C = bool;
    fn id(g: &'g G, i: u32) -> Self::Id {
        RefId(&g.v[i as usize])
    }
}
struct KO;
impl<'g> Kind<'g> for KO {
    type Id = (u8, std::num::NonZeroU32);
    type C = Ordering;
    fn id(_: &'g G, i: u32) -> Self::Id {
        (0, std::num::NonZeroU32::new(i + 1).expect("positive"))
    }
}
macro_rules! node { ($($k:ty, $i:ty);*) => { $(
impl<'g> Node for N<'g, $k, $i> {
    type Cmp = <$k as Kind<'g>>::C;
    type Id = <$k as Kind<'g>>::Id;
    type Index = $i;
    fn id(&self) -> Self::Id {
        log(1 << 40 | u64::from(self.1));
        <$k as Kind<'g>>::id(self.0, self.1)
    }
    fn get_edge(&self, i: &$i) -> Option<Self> {
        log(2 << 40 | u64::from(self.1) << 8 | Ix::get(i) as u64);
        self.0.v[self.1 as usize].to.get(Ix::get(i)).map(|t| N(self.0, *t, PhantomData))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> Self::Cmp {
        log(3 << 40 | u64::from(self.1) << 20 | u64::from(o.1));
        <Self::Cmp as Obs>::of(&self.0.v[self.1 as usize], &self.0.v[o.1 as usize], self.1, o.1)
    }
}
)* } }
node!(KP, u8; KP, usize; KB, i16; KO, u64; KB, usize);

// -- own random numbers, table and pointer --------------------------------------------------------

#[derive(Default)]
struct MyRng(u64);
impl NumberGenerator for MyRng {
    fn rand_upto(&mut self, e: NonZeroU16) -> u16 {
        self.0 += 1;
        log(4 << 40 | u64::from(e.get()));
        (mix(self.0) % u64::from(e.get())) as u16
    }
}
#[derive(Clone)]
struct MyRc(Rc<Cell<Class<MyRc>>>);
impl std::ops::Deref for MyRc {
    type Target = Cell<Class<MyRc>>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl equiv_classes::Rc for MyRc {
    fn new(v: Cell<Class<Self>>) -> Self {
        MyRc(Rc::new(v))
    }
}
struct MyTable<N: Node, T>(BTreeMap<N::Id, T>)
where
    N::Id: Ord;
impl<N: Node, T> Default for MyTable<N, T>
where
    N::Id: Ord,
{
    fn default() -> Self {
        MyTable(BTreeMap::new())
    }
}
impl<N: Node, T: equiv_classes::Rc> equiv_classes::Table for MyTable<N, T>
where
    N::Id: Ord,
{
    type Node = N;
    type Rc = T;
    fn get(&self, k: &N::Id) -> Option<&T> {
        let x = self.0.get(k);
        log(5 << 40 | u64::from(x.is_some()));
        x
    }
    fn insert(&mut self, k: N::Id, v: T) {
        log(6 << 40);
        let _ = self.0.insert(k, v);
    }
}

/// Parameters: number generator, pointer, constants (precheck, fast, slow).
struct IP<N, X, T, const A: u16, const B: u16, const C: u16>(PhantomData<(N, X, T)>);
impl<N: Node, X: NumberGenerator, T: equiv_classes::Rc, const A: u16, const B: u16, const C: u16> interleave::Params for IP<N, X, T, A, B, C>
where
    N::Id: Ord,
{
    const PRECHECK_LIMIT: u16 = A;
    const FAST_LIMIT_MAX: u16 = B;
    const SLOW_LIMIT: u16 = C;
    type Node = N;
    type Table = MyTable<N, T>;
    type RNG = X;
}
/// Default constants.
struct DP<N, X, T>(PhantomData<(N, X, T)>);
impl<N: Node, X: NumberGenerator, T: equiv_classes::Rc> interleave::Params for DP<N, X, T>
where
    N::Id: Ord,
{
    type Node = N;
    type Table = MyTable<N, T>;
    type RNG = X;
}
/// Functions `$il` (interleave), `$ul` (unlimited), `$li` (limited) with a recursion mode.
macro_rules! modes {
    ($m:ident, $r:ty) => {
        mod $m {
            use super::*;
            struct IA<N, I>(PhantomData<(N, I)>);
            impl<N: Node, I: interleave::Params<Node = N>> equiv::Params for IA<N, I> {
                type Node = N;
                type DescendMode = Interleave<I>;
                type RecurMode = $r;
                type Error = Never;
            }
            struct UA<N>(PhantomData<N>);
            impl<N: Node> equiv::Params for UA<N> {
                type Node = N;
                type DescendMode = Unlimited;
                type RecurMode = $r;
                type Error = Never;
            }
            struct LA<N>(PhantomData<N>);
            impl<N: Node> equiv::Params for LA<N> {
                type Node = N;
                type DescendMode = Limited<u32>;
                type RecurMode = $r;
                type Error = LimitReached;
            }
            #[allow(dead_code)]
            pub fn il<N: Node, I: interleave::Params<Node = N>>(a: N, b: N) -> N::Cmp {
                ok(Equiv::<IA<N, I>>::default().equiv(a, b))
            }
            #[allow(dead_code)]
            pub fn ul<N: Node>(a: N, b: N) -> N::Cmp {
                ok(Equiv::<UA<N>>::default().equiv(a, b))
            }
            #[allow(dead_code)]
            pub fn li<N: Node>(l: u32, a: N, b: N) -> Result<N::Cmp, LimitReached> {
                Equiv::<LA<N>>::new(Limited(l)).equiv(a, b)
            }
        }
    };
}
modes!(mc, CallStack);
#[cfg(feature = "alloc")]
modes!(mq, al::RecurQueue<al::QP<N>>);
#[cfg(feature = "alloc")]
modes!(mq0, al::RecurQueue<al::SP<N>>);
#[cfg(feature = "alloc")]
modes!(ms, al::RecurStack<al::QP<N>>);
#[cfg(feature = "alloc")]
modes!(ms0, al::RecurStack<al::SP<N>>);
struct PP<N, I, M, M2>(PhantomData<(N, I, M, M2)>);
impl<N: Node, I: interleave::Params<Node = N>> precheck_interleave::Params<N> for PP<N, I, CallStack, CallStack> {
    type PrecheckRecurMode = CallStack;
    type InterleaveRecurMode = CallStack;
    type InterleaveParams = I;
    type Error = Never;
}
fn ok<T>(r: Result<T, Never>) -> T {
    match r {
        Ok(v) => v,
        #[allow(unreachable_patterns)]
        Err(e) => match e {},
    }
}
// -- recording ------------------------------------------------------------------------------------

struct Slots {
    digests: BTreeMap<&'static str, (u64, u64, u64)>,
    only: Option<String>,
    case: u64,
    bad: Vec<String>,
}
impl Slots {
    /// `whole`: the callbacks belong to the observation.
    fn put(&mut self, slot: &'static str, whole: bool, f: impl FnOnce() -> u64) -> (u64, u64, u64) {
        LOG.with(|l| l.set((0, 0)));
        let v = f();
        let (h, n) = LOG.with(Cell::get);
        let x = if whole { mix2(mix2(v, h), n) } else { v };
        let e = self.digests.entry(slot).or_default();
        e.0 = mix2(e.0, x);
        e.1 += 1;
        e.2 += n;
        if self.only.as_deref() == Some(slot) {
            println!("{}\t{x:016x}\tvalue={v:x} callbacks={}", self.case, if whole { format!("{n}") } else { "any".into() });
        }
        (v, h, n)
    }
    fn same(&mut self, what: &str, x: (u64, u64, u64), y: (u64, u64, u64)) {
        if x != y && self.bad.len() < 20 {
            self.bad.push(format!("case {}: {what}: {x:x?} and {y:x?}", self.case));
        }
    }
}
fn lim<C: Obs>(r: Result<C, LimitReached>) -> u64 {
    match r {
        Ok(c) => c.obs(),
        Err(LimitReached) => 99,
    }
}

macro_rules! nodes {
    ($g:expr, $k:ty, $i:ty) => {
        (N::<$k, $i>($g, $g.a, PhantomData), N::<$k, $i>($g, $g.b, PhantomData))
    };
}

fn workload(s: &mut Slots, seed: u64, case: u64) {
    let g = &gen(seed, case);
    s.case = case;
    let r = R(Cell::new(mix2(seed, !case)));
    let limit = match r.us(5) {
        0 => r.us(4) as u64,
        1 => 400,
        2 => g.plain.map_or(50, |p| p.1),
        3 => g.plain.map_or(50, |p| p.1.saturating_sub(1)),
        _ => r.us(300) as u64,
    };
    // A sharing-insensitive depth-first value is only schedule-independent on acyclic graphs.
    macro_rules! on {
        ($slot:expr, $whole:expr, $k:ty, $i:ty, $f:expr) => {{
            let (a, b) = nodes!(g, $k, $i);
            s.put($slot, $whole, || $f(a, b).obs())
        }};
    }
    macro_rules! onl {
        ($slot:expr, $k:ty, $i:ty, $l:expr, $f:expr) => {{
            let (a, b) = nodes!(g, $k, $i);
            s.put($slot, true, || lim($f($l, a, b)))
        }};
    }
    // A limit that does not fit the ticker's type is not used.
    if limit < 256 {
        onl!("basic limited u8, P u8", KP, u8, limit as u8, basic::limited_equiv);
    }
    onl!("basic limited u16, bool RefId i16", KB, i16, limit as u16, basic::limited_equiv);
    onl!("basic limited u128, Ordering u64", KO, u64, u128::from(limit), basic::limited_equiv);
    onl!("generic limited callstack, P usize", KP, usize, limit as u32, mc::li);
    if g.plain.is_some() {
        on!("basic, P u8", true, KP, u8, basic::equiv);
        on!("basic, bool RefId i16", true, KB, i16, basic::equiv);
        on!("basic, Ordering u64", true, KO, u64, basic::equiv);
        on!("generic unlimited callstack, P usize", true, KP, usize, mc::ul);
    }
    on!("interleave callstack (7,14,2), P u8", true, KP, u8, mc::il::<_, IP<_, MyRng, MyRc, 7, 14, 2>>);
    on!("interleave callstack (0,0,1), bool RefId i16", true, KB, i16, mc::il::<_, IP<_, MyRng, MyRc, 0, 0, 1>>);
    on!("interleave callstack (9,18,0), Ordering u64", true, KO, u64, mc::il::<_, IP<_, MyRng, MyRc, 9, 18, 0>>);
    on!("interleave callstack default constants, P usize", true, KP, usize, mc::il::<_, DP<_, MyRng, MyRc>>);
    {
        let (a, b) = nodes!(g, KP, u8);
        s.put("precheck_interleave callstack (5,3,1), P u8", true, || {
            ok(precheck_interleave::equiv::<_, PP<_, IP<_, MyRng, MyRc, 5, 3, 1>, CallStack, CallStack>>(a, b)).obs()
        });
        let (a, b) = nodes!(g, KB, usize);
        s.put("precheck_interleave callstack default constants, bool RefId usize", true, || {
            ok(precheck_interleave::equiv::<_, PP<_, DP<_, MyRng, MyRc>, CallStack, CallStack>>(a, b)).obs()
        });
    }
    #[cfg(feature = "wyrng")]
    {
        on!("interleave wyrng (3,11,1), P u8", true, KP, u8, mc::il::<_, IP<_, random::wyrng::RandomNumberGenerator, MyRc, 3, 11, 1>>);
        on!("interleave wyrng default constants, Ordering u64", true, KO, u64, mc::il::<_, DP<_, random::wyrng::RandomNumberGenerator, MyRc>>);
    }
    #[cfg(feature = "oorandom")]
    {
        on!("interleave oorandom (3,11,1), P u8", true, KP, u8, mc::il::<_, IP<_, random::oorandom::RandomNumberGenerator, MyRc, 3, 11, 1>>);
        on!("interleave oorandom default constants, Ordering u64", true, KO, u64, mc::il::<_, DP<_, random::oorandom::RandomNumberGenerator, MyRc>>);
    }
    #[cfg(feature = "alloc")]
    with_alloc(s, g, limit);
    #[cfg(feature = "std")]
    with_std(s, g);
}

#[cfg(feature = "alloc")]
mod al {
    use super::*;
    pub use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
    pub use graph_safe_compare::generic::equiv_classes::premade::rc as prc;
    pub use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};
    pub use graph_safe_compare::{deep_safe, wide_safe};
    pub struct QP<N>(PhantomData<N>);
    impl<N: Node> queue::Params for QP<N> {
        type Node = N;
    }
    impl<N: Node> stack::Params for QP<N> {
        type Node = N;
    }
    pub struct SP<N>(PhantomData<N>);
    impl<N: Node> queue::Params for SP<N> {
        const INITIAL_CAPACITY: usize = 0;
        type Node = N;
    }
    impl<N: Node> stack::Params for SP<N> {
        const INITIAL_CAPACITY: usize = 0;
        type Node = N;
    }
    impl<N: Node, I: interleave::Params<Node = N>> precheck_interleave::Params<N> for PP<N, I, RecurQueue<QP<N>>, RecurQueue<QP<N>>> {
        type PrecheckRecurMode = RecurQueue<QP<N>>;
        type InterleaveRecurMode = RecurQueue<QP<N>>;
        type InterleaveParams = I;
        type Error = Never;
    }
    impl<N: Node, I: interleave::Params<Node = N>> precheck_interleave::Params<N> for PP<N, I, RecurStack<SP<N>>, RecurStack<SP<N>>> {
        type PrecheckRecurMode = RecurStack<SP<N>>;
        type InterleaveRecurMode = RecurStack<SP<N>>;
        type InterleaveParams = I;
        type Error = Never;
    }
    impl<N: Node, I: interleave::Params<Node = N>> precheck_interleave::Params<N> for PP<N, I, CallStack, RecurQueue<QP<N>>> {
        type PrecheckRecurMode = CallStack;
        type InterleaveRecurMode = RecurQueue<QP<N>>;
        type InterleaveParams = I;
        type Error = Never;
    }
}
#[cfg(feature = "alloc")]
fn with_alloc(s: &mut Slots, g: &G, limit: u64) {
    use al::*;
    macro_rules! on {
        ($slot:expr, $whole:expr, $k:ty, $i:ty, $f:expr) => {{
            let (a, b) = nodes!(g, $k, $i);
            s.put($slot, $whole, || $f(a, b).obs())
        }};
    }
    macro_rules! onl {
        ($slot:expr, $k:ty, $i:ty, $l:expr, $f:expr) => {{
            let (a, b) = nodes!(g, $k, $i);
            s.put($slot, true, || lim($f($l, a, b)))
        }};
    }
    onl!("deep limited u32, P u8", KP, u8, limit as u32, deep_safe::limited_equiv);
    onl!("wide limited u64, P u8", KP, u8, limit, wide_safe::limited_equiv);
    onl!("wide limited usize, Ordering u64", KO, u64, limit as usize, wide_safe::limited_equiv);
    onl!("deep limited usize, bool RefId i16", KB, i16, limit as usize, deep_safe::limited_equiv);
    if g.plain.is_some() {
        on!("deep, P u8", true, KP, u8, deep_safe::equiv);
        on!("wide, P u8", true, KP, u8, wide_safe::equiv);
        on!("deep, bool RefId i16", true, KB, i16, deep_safe::equiv);
        on!("wide, Ordering u64", true, KO, u64, wide_safe::equiv);
        on!("generic unlimited queue, P usize", true, KP, usize, mq0::ul);
        on!("generic unlimited stack, P usize", true, KP, usize, ms0::ul);
    }
    on!("interleave queue (7,14,2) premade rc, P u8", true, KP, u8, mq::il::<_, IP<_, MyRng, prc::Rc, 7, 14, 2>>);
    on!("interleave stack (7,14,2) premade rc, P u8", true, KP, u8, ms::il::<_, IP<_, MyRng, prc::Rc, 7, 14, 2>>);
    on!("interleave queue default constants, Ordering u64", true, KO, u64, mq0::il::<_, DP<_, MyRng, MyRc>>);
    on!("interleave stack default constants premade rc, bool RefId usize", true, KB, usize, ms0::il::<_, DP<_, MyRng, prc::Rc>>);
    let (a, b) = nodes!(g, KP, u8);
    s.put("precheck_interleave queue (6,4,1), P u8", true, || {
        ok(precheck_interleave::equiv::<_, PP<_, IP<_, MyRng, prc::Rc, 6, 4, 1>, RecurQueue<QP<_>>, RecurQueue<QP<_>>>>(a, b)).obs()
    });
    let (a, b) = nodes!(g, KO, u64);
    s.put("precheck_interleave stack (6,4,1), Ordering u64", true, || {
        ok(precheck_interleave::equiv::<_, PP<_, IP<_, MyRng, MyRc, 6, 4, 1>, RecurStack<SP<_>>, RecurStack<SP<_>>>>(a, b)).obs()
    });
    let (a, b) = nodes!(g, KB, i16);
    s.put("precheck_interleave callstack-queue default constants, bool RefId i16", true, || {
        ok(precheck_interleave::equiv::<_, PP<_, DP<_, MyRng, prc::Rc>, CallStack, RecurQueue<QP<_>>>>(a, b)).obs()
    });
}

#[cfg(feature = "std")]
mod st {
    use super::*;
    pub use graph_safe_compare::generic::equiv_classes::premade::hash_map;
    pub use graph_safe_compare::{cycle_safe, robust};
    /// The generator that is documented to be the default one.
    #[cfg(feature = "wyrng")]
    pub type Expected = random::wyrng::RandomNumberGenerator;
    #[cfg(all(feature = "oorandom", not(feature = "wyrng")))]
    pub type Expected = random::oorandom::RandomNumberGenerator;
    #[cfg(all(feature = "fastrand", not(feature = "oorandom"), not(feature = "wyrng")))]
    pub type Expected = random::fastrand::RandomNumberGenerator;
    /// Default constants, premade table.
    pub struct HP<N, X>(PhantomData<(N, X)>);
    impl<N: Node, X: NumberGenerator> interleave::Params for HP<N, X> {
        type Node = N;
        type Table = hash_map::Table<Self>;
        type RNG = X;
    }
    impl<N: Node, X> hash_map::Params for HP<N, X> {
        type Node = N;
    }
    pub struct HS<N, X>(PhantomData<(N, X)>);
    impl<N: Node, X: NumberGenerator> interleave::Params for HS<N, X> {
        const PRECHECK_LIMIT: u16 = 12;
        type Node = N;
        type Table = hash_map::Table<Self>;
        type RNG = X;
    }
    impl<N: Node, X> hash_map::Params for HS<N, X> {
        const INITIAL_CAPACITY: usize = 0;
        type Node = N;
    }
}
#[cfg(feature = "std")]
fn with_std(s: &mut Slots, g: &G) {
    use al::*;
    use st::*;
    #[cfg(feature = "fastrand")]
    let reseed = || fastrand::seed(g.v.len() as u64 * 77 + u64::from(g.a));
    #[cfg(not(feature = "fastrand"))]
    let reseed = || ();
    macro_rules! on {
        ($slot:expr, $whole:expr, $k:ty, $i:ty, $f:expr) => {{
            let (a, b) = nodes!(g, $k, $i);
            reseed();
            s.put($slot, $whole, || $f(a, b).obs())
        }};
    }
    macro_rules! eq {
        ($slot:expr, $k:ty, $i:ty, $f:expr) => {{
            let (a, b) = nodes!(g, $k, $i);
            reseed();
            s.put($slot, false, || u64::from($f(a, b).is_equiv()))
        }};
    }
    let _ = g.deep;
    on!("interleave hash_map queue (12,24,1), P u8", true, KP, u8, mq::il::<_, HS<_, MyRng>>);
    on!("interleave hash_map callstack default constants, Ordering u64", true, KO, u64, mc::il::<_, HP<_, MyRng>>);
    #[cfg(feature = "fastrand")]
    on!("interleave fastrand hash_map (12,24,1), P usize", true, KP, usize, ms::il::<_, HS<_, random::fastrand::RandomNumberGenerator>>);
    // Premade ones: the value where it does not depend on the draws ...
    on!("robust equiv, P u8", false, KP, u8, robust::equiv);
    on!("robust precheck_equiv, P u8", false, KP, u8, robust::precheck_equiv);
    on!("robust equiv, Ordering u64", false, KO, u64, robust::equiv);
    on!("robust precheck_equiv, bool RefId i16", false, KB, i16, robust::precheck_equiv);
    if g.cyclic {
        eq!("cycle_safe equiv (equality), P u8", KP, u8, cycle_safe::equiv);
        eq!("cycle_safe precheck_equiv (equality), P u8", KP, u8, cycle_safe::precheck_equiv);
    } else {
        on!("cycle_safe equiv, P u8", false, KP, u8, cycle_safe::equiv);
        on!("cycle_safe precheck_equiv, P u8", false, KP, u8, cycle_safe::precheck_equiv);
        on!("cycle_safe equiv, Ordering u64", false, KO, u64, cycle_safe::equiv);
    }
    on!("cycle_safe equiv, bool RefId usize", false, KB, usize, cycle_safe::equiv);
    // ... and all of what they do compared with the generic equivalent that names its generator.
    let x = on!("(premade)", false, KP, u8, robust::equiv);
    let y = on!("(generic)", false, KP, u8, mq::il::<_, HP<_, Expected>>);
    s.same("robust::equiv and its generic equivalent with the default generator", x, y);
    let x = on!("(premade)", false, KO, u64, cycle_safe::equiv);
    let y = on!("(generic)", false, KO, u64, mc::il::<_, HP<_, Expected>>);
    s.same("cycle_safe::equiv and its generic equivalent with the default generator", x, y);
    let x = on!("(premade)", false, KP, usize, robust::precheck_equiv);
    let (a, b) = nodes!(g, KP, usize);
    reseed();
    let y = s.put("(generic)", false, || ok(precheck_interleave::equiv::<_, PP<_, HP<_, Expected>, RecurQueue<QP<_>>, RecurQueue<QP<_>>>>(a, b)).obs());
    s.same("robust::precheck_equiv and its generic equivalent with the default generator", x, y);
    let x = on!("(premade)", false, KB, usize, cycle_safe::precheck_equiv);
    let (a, b) = nodes!(g, KB, usize);
    reseed();
    let y = s.put("(generic)", false, || ok(precheck_interleave::equiv::<_, PP<_, HP<_, Expected>, CallStack, CallStack>>(a, b)).obs());
    s.same("cycle_safe::precheck_equiv and its generic equivalent with the default generator", x, y);
}

/// Histories of the generators themselves, for every bound.
fn draws(s: &mut Slots, seed: u64) {
    fn go<X: NumberGenerator>(s: &mut Slots, slot: &'static str, seed: u64) {
        s.case = 0;
        s.put(slot, true, || {
            let mut h = 0;
            let mut x = X::default();
            for e in 1 ..= u16::MAX {
                h = mix2(h, u64::from(x.rand_upto(NonZeroU16::new(e).expect("positive"))));
            }
            let r = R(Cell::new(seed));
            for _ in 0 .. 20_000 {
                let e = 1 + (r.next() as u16 >> (r.us(16))) % u16::MAX;
                h = mix2(h, u64::from(x.rand_upto(NonZeroU16::new(e).expect("positive"))));
            }
            h
        });
    }
    #[cfg(feature = "wyrng")]
    go::<random::wyrng::RandomNumberGenerator>(s, "draws wyrng", seed);
    #[cfg(feature = "oorandom")]
    go::<random::oorandom::RandomNumberGenerator>(s, "draws oorandom", seed);
    #[cfg(all(feature = "fastrand", feature = "std"))]
    {
        fastrand::seed(seed);
        go::<random::fastrand::RandomNumberGenerator>(s, "draws fastrand", seed);
    }
    #[cfg(any(feature = "wyrng", feature = "oorandom", all(feature = "fastrand", feature = "std")))]
    {
        #[cfg(feature = "fastrand")]
        fastrand::seed(seed);
        #[cfg(feature = "wyrng")]
        type E = random::wyrng::RandomNumberGenerator;
        #[cfg(all(feature = "oorandom", not(feature = "wyrng")))]
        type E = random::oorandom::RandomNumberGenerator;
        #[cfg(all(feature = "fastrand", not(feature = "oorandom"), not(feature = "wyrng")))]
        type E = random::fastrand::RandomNumberGenerator;
        if std::any::TypeId::of::<E>() != std::any::TypeId::of::<random::default::RandomNumberGenerator>() {
            s.bad.push("the default generator is not the one of highest priority".into());
        }
        let n = s.digests.len();
        go::<random::default::RandomNumberGenerator>(s, "(default)", seed);
        let _ = n;
    }
    let _ = (&go::<MyRng>, seed);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize, d: u64| a.get(i).map_or(d, |x| x.parse().expect("number"));
    let (seed, cases) = (num(1, 1), num(2, 100));
    if a.get(3).map(String::as_str) == Some("show") {
        let g = gen(seed, num(4, 0));
        println!("roots {} {}", g.a, g.b);
        for (i, v) in g.v.iter().enumerate().take(200) {
            println!("{i}: value {} edges {:?}", v.val, v.to);
        }
        return;
    }
    let only = a.get(3).cloned();
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let mut s = Slots { digests: BTreeMap::new(), only, case: 0, bad: Vec::new() };
        for c in 0 .. cases {
            workload(&mut s, seed, c);
        }
        draws(&mut s, seed);
        s
    });
    let s = t.expect("thread").join().expect("no panic");
    if s.only.is_none() {
        for (k, (d, n, c)) in &s.digests {
            if !k.starts_with('(') {
                println!("{k}\t{d:016x}\t{n}\t{c}");
            }
        }
        for b in &s.bad {
            println!("BAD\t{b}");
        }
    }
}
