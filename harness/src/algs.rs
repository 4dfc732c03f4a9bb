//! The functions under test, premade and generic instantiations.
use graph_safe_compare::generic::equiv::{self, Equiv};
use graph_safe_compare::generic::equiv_classes::premade::hash_map;
use graph_safe_compare::generic::precheck_interleave;
use graph_safe_compare::{basic, basic::modes::limited::LimitReached, basic::recursion::callstack::CallStack};
use graph_safe_compare::{cycle_safe, deep_safe, robust, wide_safe, Node};
use graph_safe_compare::cycle_safe::modes::interleave::{self, random::NumberGenerator, Interleave};
use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};
use std::cell::{Cell, RefCell};
use std::convert::Infallible;
use std::marker::PhantomData;
use std::num::NonZeroU16;
use crate::util::{Rng, Suspend};
use crate::graph::Order;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum T {
    U8,
    U16,
    U32,
    U64,
    U128,
    Us,
}
pub const TS: [T; 6] = [T::U8, T::U16, T::U32, T::U64, T::U128, T::Us];
impl T {
    pub fn max(self) -> u128 {
        match self {
            T::U8 => u8::MAX.into(),
            T::U16 => u16::MAX.into(),
            T::U32 => u32::MAX.into(),
            T::U64 => u64::MAX.into(),
            T::U128 => u128::MAX,
            T::Us => usize::MAX as u128,
        }
    }
}
/// Recursion mode(s).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rm {
    C,
    Q,
    S,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Pm {
    CC,
    QQ,
    SS,
    CQ,
    CS,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Alg {
    Basic,
    Deep,
    Wide,
    BasicL(T, u128),
    DeepL(T, u128),
    WideL(T, u128),
    Cyc,
    CycPre,
    Rob,
    RobPre,
    /// Interleave only, with `CONSTS[.1]`.
    GI(Rm, u8),
    /// Precheck then interleave, with `CONSTS[.1]`.
    GP(Pm, u8),
}
pub const STD_SAFE: [Alg; 4] = [Alg::Cyc, Alg::CycPre, Alg::Rob, Alg::RobPre];
pub const STD_PLAIN: [Alg; 3] = [Alg::Basic, Alg::Deep, Alg::Wide];

/// The greatest constant, and the greatest FAST_LIMIT_MAX.
pub const TOP: u16 = if cfg!(feature = "extremes") { 65535 } else { 32000 };
pub const TOP_F: u16 = if cfg!(feature = "extremes") { 65534 } else { 31000 };
/// (PRECHECK_LIMIT, FAST_LIMIT_MAX, SLOW_LIMIT)
pub const CONSTS: [(u16, u16, u16); 16] = [
    (400, 800, 40),
    (0, 0, 1),
    (1, 0, 1),
    (1, 2, 1),
    (2, 3, 2),
    (3, 5, 1),
    (5, 0, 3),
    (7, 14, 2),
    (10, 20, 1),
    (16, 1, 4),
    (64, 128, 6),
    (20, TOP_F, 1),
    (0, 1, TOP),
    (TOP, 7, 300),
    (30, 4, 1),
    (9, 18, 0),
];

impl Alg {
    pub fn consts(self) -> Option<(u16, u16, u16)> {
        match self {
            Alg::Cyc | Alg::CycPre | Alg::Rob | Alg::RobPre => Some(CONSTS[0]),
            Alg::GI(_, c) | Alg::GP(_, c) => Some(CONSTS[c as usize]),
            _ => None,
        }
    }
    /// Limit of the precheck, when there is one.
    pub fn pre(self) -> Option<u16> {
        match self {
            Alg::CycPre | Alg::RobPre => Some(400),
            Alg::GP(_, c) => Some(CONSTS[c as usize].0),
            _ => None,
        }
    }
    pub fn limit(self) -> Option<u128> {
        match self {
            Alg::BasicL(_, l) | Alg::DeepL(_, l) | Alg::WideL(_, l) => Some(l),
            _ => None,
        }
    }
    pub fn safe(self) -> bool {
        self.consts().is_some()
    }
    /// Order of the precheck and of the main traversal.
    pub fn orders(self) -> (Order, Order) {
        use Order::{Bfs, Dfs};
        match self {
            Alg::Basic | Alg::Wide | Alg::BasicL(..) | Alg::WideL(..) | Alg::Cyc | Alg::CycPre => (Dfs, Dfs),
            Alg::Deep | Alg::DeepL(..) | Alg::Rob | Alg::RobPre => (Bfs, Bfs),
            Alg::GI(m, _) => {
                let o = if m == Rm::Q { Bfs } else { Dfs };
                (o, o)
            },
            Alg::GP(m, _) => match m {
                Pm::CC | Pm::SS | Pm::CS => (Dfs, Dfs),
                Pm::QQ => (Bfs, Bfs),
                Pm::CQ => (Dfs, Bfs),
            },
        }
    }
    /// Whether its recursion uses the call-stack at some point without a small limit.
    pub fn callstack(self) -> bool {
        match self {
            Alg::Basic | Alg::BasicL(..) | Alg::Cyc | Alg::CycPre => true,
            Alg::GI(m, _) => m == Rm::C,
            Alg::GP(m, _) => m == Pm::CC,
            _ => false,
        }
    }
    pub fn name(self) -> String {
        match self {
            Alg::GI(m, c) => format!("generic interleave {m:?} {:?}", CONSTS[c as usize]),
            Alg::GP(m, c) => format!("generic precheck_interleave {m:?} {:?}", CONSTS[c as usize]),
            Alg::Basic => "basic::equiv".into(),
            Alg::Deep => "deep_safe::equiv".into(),
            Alg::Wide => "wide_safe::equiv".into(),
            Alg::Cyc => "cycle_safe::equiv".into(),
            Alg::CycPre => "cycle_safe::precheck_equiv".into(),
            Alg::Rob => "robust::equiv".into(),
            Alg::RobPre => "robust::precheck_equiv".into(),
            Alg::BasicL(t, l) => format!("basic::limited_equiv {t:?} {l}"),
            Alg::DeepL(t, l) => format!("deep_safe::limited_equiv {t:?} {l}"),
            Alg::WideL(t, l) => format!("wide_safe::limited_equiv {t:?} {l}"),
        }
    }
}

// -- random number generator, configured per case through the thread ------------------------------

#[derive(Clone, Debug)]
pub enum RngCfg {
    Wy,
    Oo,
    Fast,
    Zero,
    Max,
    Split(u64),
    Script(Vec<u16>),
    /// Breaks the contract: numbers out of the range, too.
    Wild(u64),
}
thread_local! {
    static RNGCFG: RefCell<(RngCfg, usize)> = const { RefCell::new((RngCfg::Zero, 0)) };
    /// (exclusive end asked, value given)
    pub static DRAWS: RefCell<Vec<(u16, u16)>> = const { RefCell::new(Vec::new()) };
    pub static RNG_MADE: Cell<u64> = const { Cell::new(0) };
}
pub fn set_rng(c: RngCfg) {
    RNGCFG.with(|x| *x.borrow_mut() = (c, 0));
    DRAWS.with(|d| d.borrow_mut().clear());
    RNG_MADE.with(|d| d.set(0));
}
pub fn take_draws() -> Vec<(u16, u16)> {
    DRAWS.with(|d| std::mem::take(&mut *d.borrow_mut()))
}
/// Runs `f` with generators of its own, whatever was going on (nested comparisons).
pub fn with_own_rng<R>(f: impl FnOnce() -> R) -> R {
    struct Back(Option<(RngCfg, usize)>, Vec<(u16, u16)>, u64);
    impl Drop for Back {
        fn drop(&mut self) {
            RNGCFG.with(|c| *c.borrow_mut() = self.0.take().expect("saved"));
            DRAWS.with(|d| *d.borrow_mut() = std::mem::take(&mut self.1));
            RNG_MADE.with(|d| d.set(self.2));
        }
    }
    let _b = Back(
        Some(RNGCFG.with(|c| std::mem::replace(&mut *c.borrow_mut(), (RngCfg::Zero, 0)))),
        take_draws(),
        RNG_MADE.with(Cell::get),
    );
    f()
}
#[cfg(feature = "all_rngs")]
pub struct TlRng {
    wy: interleave::random::wyrng::RandomNumberGenerator,
    oo: interleave::random::oorandom::RandomNumberGenerator,
    fa: interleave::random::fastrand::RandomNumberGenerator,
    sp: Option<Rng>,
}
#[cfg(feature = "all_rngs")]
impl Default for TlRng {
    fn default() -> Self {
        RNG_MADE.with(|d| d.set(d.get() + 1));
        TlRng { wy: Default::default(), oo: Default::default(), fa: Default::default(), sp: None }
    }
}
#[cfg(feature = "all_rngs")]
impl NumberGenerator for TlRng {
    fn rand_upto(&mut self, end: NonZeroU16) -> u16 {
        let _s = Suspend::new();
        RNGCFG.with(|c| {
            let (c, i) = &mut *c.borrow_mut();
            let e = end.get();
            let v = match c {
                RngCfg::Wy => self.wy.rand_upto(end),
                RngCfg::Oo => self.oo.rand_upto(end),
                RngCfg::Fast => self.fa.rand_upto(end),
                RngCfg::Zero => 0,
                RngCfg::Max => e - 1,
                RngCfg::Split(s) => self.sp.get_or_insert_with(|| Rng::new(*s)).below(u64::from(e)) as u16,
                RngCfg::Wild(s) => {
                    let x = self.sp.get_or_insert_with(|| Rng::new(*s)).next();
                    match x % 4 {
                        0 => u16::MAX,
                        1 => e,
                        _ => (x >> 8) as u16,
                    }
                },
                RngCfg::Script(v) => {
                    let r = v[*i % v.len()] % e;
                    *i += 1;
                    r
                },
            };
            DRAWS.with(|d| {
                let mut d = d.borrow_mut();
                if d.len() < 100_000 {
                    d.push((e, v));
                }
            });
            v
        })
    }
}

// -- generic instantiations -----------------------------------------------------------------------

/// Interleave parameters.
pub struct IP<N, const P: u16, const F: u16, const S: u16>(PhantomData<N>);
impl<N: Node, const P: u16, const F: u16, const S: u16> interleave::Params for IP<N, P, F, S> {
    const PRECHECK_LIMIT: u16 = P;
    const FAST_LIMIT_MAX: u16 = F;
    const SLOW_LIMIT: u16 = S;
    type Node = N;
    type Table = hash_map::Table<Self>;
    type RNG = TlRng;
}
impl<N: Node, const P: u16, const F: u16, const S: u16> hash_map::Params for IP<N, P, F, S> {
    const INITIAL_CAPACITY: usize = 0;
    type Node = N;
}
impl<N: Node, const P: u16, const F: u16, const S: u16> queue::Params for IP<N, P, F, S> {
    const INITIAL_CAPACITY: usize = 0;
    type Node = N;
}
impl<N: Node, const P: u16, const F: u16, const S: u16> stack::Params for IP<N, P, F, S> {
    const INITIAL_CAPACITY: usize = 1;
    type Node = N;
}
/// Only `PRECHECK_LIMIT` given, the others derived from it.
pub struct DP<N, const P: u16>(PhantomData<N>);
impl<N: Node, const P: u16> interleave::Params for DP<N, P> {
    const PRECHECK_LIMIT: u16 = P;
    type Node = N;
    type Table = hash_map::Table<Self>;
    type RNG = TlRng;
}
impl<N: Node, const P: u16> hash_map::Params for DP<N, P> {
    const INITIAL_CAPACITY: usize = 3;
    type Node = N;
}
impl<N: Node, const P: u16> queue::Params for DP<N, P> {
    type Node = N;
}

macro_rules! im {
    ($name:ident, $r:ty) => {
        pub struct $name<N, const P: u16, const F: u16, const S: u16>(PhantomData<N>);
        impl<N: Node, const P: u16, const F: u16, const S: u16> equiv::Params for $name<N, P, F, S> {
            type Node = N;
            type DescendMode = Interleave<IP<N, P, F, S>>;
            type RecurMode = $r;
            type Error = Infallible;
        }
    };
}
im!(IC, CallStack);
im!(IQ, RecurQueue<IP<N, P, F, S>>);
im!(IS, RecurStack<IP<N, P, F, S>>);

macro_rules! pm {
    ($name:ident, $p:ty, $i:ty) => {
        pub struct $name<N, const P: u16, const F: u16, const S: u16>(PhantomData<N>);
        impl<N: Node, const P: u16, const F: u16, const S: u16> precheck_interleave::Params<N> for $name<N, P, F, S> {
            type PrecheckRecurMode = $p;
            type InterleaveRecurMode = $i;
            type InterleaveParams = IP<N, P, F, S>;
            type Error = Infallible;
        }
    };
}
pm!(PCC, CallStack, CallStack);
pm!(PQQ, RecurQueue<IP<N, P, F, S>>, RecurQueue<IP<N, P, F, S>>);
pm!(PSS, RecurStack<IP<N, P, F, S>>, RecurStack<IP<N, P, F, S>>);
pm!(PCQ, CallStack, RecurQueue<IP<N, P, F, S>>);
pm!(PCS, CallStack, RecurStack<IP<N, P, F, S>>);

pub struct DQ<N, const P: u16>(PhantomData<N>);
impl<N: Node, const P: u16> precheck_interleave::Params<N> for DQ<N, P> {
    type PrecheckRecurMode = RecurQueue<DP<N, P>>;
    type InterleaveRecurMode = RecurQueue<DP<N, P>>;
    type InterleaveParams = DP<N, P>;
    type Error = Infallible;
}
pub struct DC<N, const P: u16>(PhantomData<N>);
impl<N: Node, const P: u16> precheck_interleave::Params<N> for DC<N, P> {
    type PrecheckRecurMode = CallStack;
    type InterleaveRecurMode = CallStack;
    type InterleaveParams = DP<N, P>;
    type Error = Infallible;
}

fn ok<T>(r: Result<T, Infallible>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => match e {},
    }
}

#[inline(never)]
fn gi_c<N: Node + Clone, const P: u16, const F: u16, const S: u16>(a: N, b: N) -> N::Cmp {
    ok(Equiv::<IC<N, P, F, S>>::default().equiv(a, b))
}
#[inline(never)]
fn gi_q<N: Node + Clone, const P: u16, const F: u16, const S: u16>(a: N, b: N) -> N::Cmp {
    ok(Equiv::<IQ<N, P, F, S>>::default().equiv(a, b))
}
#[inline(never)]
fn gi_s<N: Node + Clone, const P: u16, const F: u16, const S: u16>(a: N, b: N) -> N::Cmp {
    ok(Equiv::<IS<N, P, F, S>>::default().equiv(a, b))
}
#[inline(never)]
fn gp_cc<N: Node + Clone, const P: u16, const F: u16, const S: u16>(a: N, b: N) -> N::Cmp {
    ok(precheck_interleave::equiv::<N, PCC<N, P, F, S>>(a, b))
}
#[inline(never)]
fn gp_qq<N: Node + Clone, const P: u16, const F: u16, const S: u16>(a: N, b: N) -> N::Cmp {
    ok(precheck_interleave::equiv::<N, PQQ<N, P, F, S>>(a, b))
}
#[inline(never)]
fn gp_ss<N: Node + Clone, const P: u16, const F: u16, const S: u16>(a: N, b: N) -> N::Cmp {
    ok(precheck_interleave::equiv::<N, PSS<N, P, F, S>>(a, b))
}
#[inline(never)]
fn gp_cq<N: Node + Clone, const P: u16, const F: u16, const S: u16>(a: N, b: N) -> N::Cmp {
    ok(precheck_interleave::equiv::<N, PCQ<N, P, F, S>>(a, b))
}
#[inline(never)]
fn gp_cs<N: Node + Clone, const P: u16, const F: u16, const S: u16>(a: N, b: N) -> N::Cmp {
    ok(precheck_interleave::equiv::<N, PCS<N, P, F, S>>(a, b))
}
fn gi<N: Node + Clone, const P: u16, const F: u16, const S: u16>(m: Rm, a: N, b: N) -> N::Cmp {
    match m {
        Rm::C => gi_c::<N, P, F, S>(a, b),
        Rm::Q => gi_q::<N, P, F, S>(a, b),
        Rm::S => gi_s::<N, P, F, S>(a, b),
    }
}
fn gp<N: Node + Clone, const P: u16, const F: u16, const S: u16>(m: Pm, a: N, b: N) -> N::Cmp {
    match m {
        Pm::CC => gp_cc::<N, P, F, S>(a, b),
        Pm::QQ => gp_qq::<N, P, F, S>(a, b),
        Pm::SS => gp_ss::<N, P, F, S>(a, b),
        Pm::CQ => gp_cq::<N, P, F, S>(a, b),
        Pm::CS => gp_cs::<N, P, F, S>(a, b),
    }
}
macro_rules! bycs {
    ($f:ident, $c:expr, $m:expr, $a:expr, $b:expr) => {
        match $c {
            0 => $f::<N, 400, 800, 40>($m, $a, $b),
            1 => $f::<N, 0, 0, 1>($m, $a, $b),
            2 => $f::<N, 1, 0, 1>($m, $a, $b),
            3 => $f::<N, 1, 2, 1>($m, $a, $b),
            4 => $f::<N, 2, 3, 2>($m, $a, $b),
            5 => $f::<N, 3, 5, 1>($m, $a, $b),
            6 => $f::<N, 5, 0, 3>($m, $a, $b),
            7 => $f::<N, 7, 14, 2>($m, $a, $b),
            8 => $f::<N, 10, 20, 1>($m, $a, $b),
            9 => $f::<N, 16, 1, 4>($m, $a, $b),
            10 => $f::<N, 64, 128, 6>($m, $a, $b),
            11 => $f::<N, 20, TOP_F, 1>($m, $a, $b),
            12 => $f::<N, 0, 1, TOP>($m, $a, $b),
            13 => $f::<N, TOP, 7, 300>($m, $a, $b),
            14 => $f::<N, 30, 4, 1>($m, $a, $b),
            _ => $f::<N, 9, 18, 0>($m, $a, $b),
        }
    };
}
pub struct Limit;

pub fn call_std<N: Node + Clone>(alg: Alg, a: N, b: N) -> Result<N::Cmp, Limit> {
    macro_rules! lim {
        ($f:path, $t:expr, $l:expr) => {
            match $t {
                T::U8 => $f($l as u8, a, b),
                T::U16 => $f($l as u16, a, b),
                T::U32 => $f($l as u32, a, b),
                T::U64 => $f($l as u64, a, b),
                T::U128 => $f($l, a, b),
                T::Us => $f($l as usize, a, b),
            }
            .map_err(|LimitReached| Limit)
        };
    }
    Ok(match alg {
        Alg::Basic => basic::equiv(a, b),
        Alg::Deep => deep_safe::equiv(a, b),
        Alg::Wide => wide_safe::equiv(a, b),
        Alg::BasicL(t, l) => return lim!(basic::limited_equiv, t, l),
        Alg::DeepL(t, l) => return lim!(deep_safe::limited_equiv, t, l),
        Alg::WideL(t, l) => return lim!(wide_safe::limited_equiv, t, l),
        Alg::Cyc => cycle_safe::equiv(a, b),
        Alg::CycPre => cycle_safe::precheck_equiv(a, b),
        Alg::Rob => robust::equiv(a, b),
        Alg::RobPre => robust::precheck_equiv(a, b),
        _ => unreachable!(),
    })
}
/// Like `call_std`, and the generic instantiations too (bigger to compile).
pub fn call_all<N: Node + Clone>(alg: Alg, a: N, b: N) -> Result<N::Cmp, Limit> {
    match alg {
        Alg::GI(m, c) => Ok(bycs!(gi, c, m, a, b)),
        Alg::GP(m, c) => Ok(bycs!(gp, c, m, a, b)),
        x => call_std(x, a, b),
    }
}
/// Premade functions and a few generic instantiations (quicker to compile, for many node types).
pub const FEW: [Alg; 9] = [
    Alg::GI(Rm::C, 4),
    Alg::GI(Rm::Q, 4),
    Alg::GI(Rm::S, 4),
    Alg::GI(Rm::Q, 8),
    Alg::GI(Rm::S, 8),
    Alg::GP(Pm::CS, 4),
    Alg::GP(Pm::QQ, 4),
    Alg::GP(Pm::CQ, 8),
    Alg::GP(Pm::CC, 8),
];
pub fn call_few<N: Node + Clone>(alg: Alg, a: N, b: N) -> Result<N::Cmp, Limit> {
    Ok(match alg {
        Alg::GI(Rm::C, 4) => gi_c::<N, 2, 3, 2>(a, b),
        Alg::GI(Rm::Q, 4) => gi_q::<N, 2, 3, 2>(a, b),
        Alg::GI(Rm::S, 4) => gi_s::<N, 2, 3, 2>(a, b),
        Alg::GI(Rm::Q, 8) => gi_q::<N, 10, 20, 1>(a, b),
        Alg::GI(Rm::S, 8) => gi_s::<N, 10, 20, 1>(a, b),
        Alg::GP(Pm::CS, 4) => gp_cs::<N, 2, 3, 2>(a, b),
        Alg::GP(Pm::QQ, 4) => gp_qq::<N, 2, 3, 2>(a, b),
        Alg::GP(Pm::CQ, 8) => gp_cq::<N, 10, 20, 1>(a, b),
        Alg::GP(Pm::CC, 8) => gp_cc::<N, 10, 20, 1>(a, b),
        x => return call_std(x, a, b),
    })
}
pub fn call_derived<N: Node + Clone>(p: u16, q: bool, a: N, b: N) -> N::Cmp {
    macro_rules! d {
        ($($p:literal)*) => { match (p, q) {
            $( ($p, true) => ok(precheck_interleave::equiv::<N, DQ<N, $p>>(a, b)),
               ($p, false) => ok(precheck_interleave::equiv::<N, DC<N, $p>>(a, b)), )*
            _ => unreachable!(),
        } }
    }
    #[cfg(feature = "extremes")]
    {
        d!(0 1 5 9 10 11 19 20 400 32767)
    }
    #[cfg(not(feature = "extremes"))]
    {
        d!(0 1 5 9 10 11 19 20 400)
    }
}
pub const DERIVED: &[u16] = if cfg!(feature = "extremes") { &[0, 1, 5, 9, 10, 11, 19, 20, 400, 32767] } else { &[0, 1, 5, 9, 10, 11, 19, 20, 400] };

