//! C16: the schedule of the slow and the fast phases, as an automaton over the observed look-ups and
//! draws.
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
use graph_safe_compare::generic::equiv::{self, DescendMode, Equiv};
use graph_safe_compare::generic::equiv_classes::premade::hash_map;
use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};
use graph_safe_compare::{cycle_safe, robust, Node};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::convert::Infallible;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use vmon::algs::*;
use vmon::drive::{self, DC};
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::util::*;

/// The specification.
enum Phase {
    /// So many consecutive unknown pairs so far.
    Slow(u64),
    /// So many more pairs without looking up.
    Fast(u64),
}
struct Automaton {
    ph: Phase,
    fast_max: u16,
    slow: u64,
    clo: Closure,
    k: u64,
    bad: Option<String>,
    looked: u64,
    unlooked: u64,
    draws: u64,
    restarts: u64,
}
impl Automaton {
    fn new(fast_max: u16, slow: u16) -> Self {
        Automaton { ph: Phase::Slow(0), fast_max, slow: u64::from(slow.max(1)), clo: Closure::new(), k: 0, bad: None, looked: 0, unlooked: 0, draws: 0, restarts: 0 }
    }
    fn step(&mut self, a: u32, b: u32, descend: bool, looked: bool, draws: &[(u16, u16)]) {
        if self.bad.is_some() {
            return;
        }
        let k = self.k;
        self.k += 1;
        let mut bad = |s: String| self.bad = Some(format!("pair {k} with edges ({a},{b}): {s}"));
        match self.ph {
            Phase::Slow(n) if n == self.slow => {
                if draws.len() != 1 {
                    return bad(format!("{} random numbers drawn after {n} consecutive unknown pairs in the slow phase, one is due", draws.len()));
                }
                let (end, r) = draws[0];
                if u32::from(end) != u32::from(self.fast_max) + 1 {
                    return bad(format!("a random number below {end} drawn, below {} is due", u32::from(self.fast_max) + 1));
                }
                if looked || !descend {
                    return bad(format!("not descended unconditionally although the fast phase was due (looked up: {looked}, descended: {descend})"));
                }
                self.draws += 1;
                self.unlooked += 1;
                self.ph = if r == 0 { Phase::Slow(0) } else { Phase::Fast(u64::from(r)) };
            },
            Phase::Slow(n) => {
                if !draws.is_empty() {
                    return bad(format!("a random number drawn after {n} consecutive unknown pairs in the slow phase, its limit is {}", self.slow));
                }
                if !looked {
                    return bad(format!("not looked up although in the slow phase (unknown so far: {n})"));
                }
                self.looked += 1;
                let known = self.clo.relate(a, b);
                if known == descend {
                    return bad(format!("known: {known}, descended: {descend}"));
                }
                if known {
                    self.restarts += u64::from(n > 0);
                }
                self.ph = Phase::Slow(if known { 0 } else { n + 1 });
            },
            Phase::Fast(n) => {
                if looked || !descend || !draws.is_empty() {
                    return bad(format!("{n} more pairs of the fast phase were due (looked up: {looked}, descended: {descend}, draws: {})", draws.len()));
                }
                self.unlooked += 1;
                self.ph = if n == 1 { Phase::Slow(0) } else { Phase::Fast(n - 1) };
            },
        }
    }
    fn done(self, what: String, sig: u64, cov: &mut Cov) {
        cov.add("looked_up", self.looked);
        cov.add("not_looked_up", self.unlooked);
        cov.add("draws", self.draws);
        cov.add("restarts_of_the_slow_count", self.restarts);
        cov.eval((self.draws > 0).then_some(sig));
        if let Some(b) = self.bad {
            cov.vio(format!("{what}: {b}"));
        }
    }
}

/// Direct histories of pairs.
fn direct(r: &mut Rng, cov: &mut Cov) {
    let cfg = match r.below(4) {
        0 => RngCfg::Script((0..r.range(1, 12)).map(|_| r.next() as u16).collect()),
        1 => RngCfg::Script((0..r.range(1, 12)).map(|_| r.below(6) as u16).collect()),
        _ => rng_cfg(r),
    };
    let what = format!("{cfg:?}");
    set_rng(cfg);
    let c = r.us(DC.len());
    let (_, f, s) = DC[c];
    let premade = r.chance(1, 4);
    let mut m = drive::make(c, premade);
    let mut au = Automaton::new(f, s);
    let n = r.range(2, 600);
    let len = match r.below(4) {
        0 => r.range(1, 300),
        1 => r.range(300, 3_000),
        _ => r.range(300, 1_000),
    };
    // Some need very many pairs to leave a phase.
    let len = if f >= 32_767 || s > 1000 { len + if r.chance(1, 4) { 150_000 } else { 0 } } else { len };
    let known_rate = *r.pick(&[0, 5, 30, 60, 95]);
    let mut fresh = n as u32;
    let mut last = (0, 1);
    let mut sig = mix2(c as u64, r.0);
    for _ in 0..len {
        let (a, b) = if r.chance(known_rate, 100) {
            if r.chance(1, 2) {
                last
            } else {
                (r.below(n) as u32, r.below(n) as u32)
            }
        } else {
            fresh += 2;
            (fresh, if r.chance(1, 4) { r.below(n) as u32 } else { fresh + 1 })
        };
        if a == b {
            continue;
        }
        last = (a, b);
        sig = mix2(sig, u64::from(a) << 32 | u64::from(b));
        let x = m.ask(a, b);
        au.step(a, b, x.descend, if premade { x.hashes > 0 } else { x.gets > 0 }, &x.draws);
    }
    let what = format!("direct history, constants {:?}, numbers {what}, {n} ids, seed state {:x}", DC[c], r.0);
    cov.sample(|| what.clone());
    au.done(what, sig, cov);
    drop(m);
    drive::LIVE.with(|l| l.set(0));
}

// -- whole comparisons ----------------------------------------------------------------------------

struct XP<N, const P: u16, const F: u16, const S: u16>(PhantomData<N>);
impl<N: Node, const P: u16, const F: u16, const S: u16> hash_map::Params for XP<N, P, F, S> {
    const INITIAL_CAPACITY: usize = 70_000;
    type Node = N;
}
impl<N: Node, const P: u16, const F: u16, const S: u16> interleave::Params for XP<N, P, F, S> {
    const PRECHECK_LIMIT: u16 = P;
    const FAST_LIMIT_MAX: u16 = F;
    const SLOW_LIMIT: u16 = S;
    type Node = N;
    type Table = hash_map::Table<Self>;
    type RNG = TlRng;
}
impl<N: Node, const P: u16, const F: u16, const S: u16> queue::Params for XP<N, P, F, S> {
    type Node = N;
}
impl<N: Node, const P: u16, const F: u16, const S: u16> stack::Params for XP<N, P, F, S> {
    type Node = N;
}
/// The real mode, observed.
struct Watched<X: interleave::Params>(Interleave<X>);
impl<X: interleave::Params> Default for Watched<X> {
    fn default() -> Self {
        Watched(Interleave::default())
    }
}
struct Inner<X>(PhantomData<X>);
impl<X: interleave::Params> equiv::Params for Inner<X> {
    type Node = X::Node;
    type DescendMode = Interleave<X>;
    type RecurMode = CallStack;
    type Error = Infallible;
}
thread_local! {
    static AU: RefCell<Option<Automaton>> = const { RefCell::new(None) };
}
impl<'a, K: Kind, X, E> DescendMode<E> for Watched<X>
where
    X: interleave::Params<Node = MN<'a, K>>,
    E: equiv::Params<Node = MN<'a, K>, DescendMode = Self>,
    Infallible: Into<E::Error>,
{
    type Error = Infallible;
    fn do_edges(&mut self, a: &MN<'a, K>, b: &MN<'a, K>) -> Result<bool, Infallible> {
        let cx = a.cx;
        let h = cx.n_hash.get();
        let _ = take_draws();
        let r = <Interleave<X> as DescendMode<Inner<X>>>::do_edges(&mut self.0, a, b);
        let draws = take_draws();
        let (x, y) = (cx.g.id[a.x as usize], cx.g.id[b.x as usize]);
        if let Ok(d) = r {
            AU.with(|au| au.borrow_mut().as_mut().unwrap().step(x, y, d, cx.n_hash.get() > h, &draws));
        }
        r
    }
    fn do_traverse(&mut self) -> Result<bool, Infallible> {
        <Interleave<X> as DescendMode<Inner<X>>>::do_traverse(&mut self.0)
    }
}
struct WA<X, R>(PhantomData<(X, R)>);
struct Rc0;
struct Rc1;
struct Rc2;
macro_rules! wa {
    ($m:ty, $r:ty) => {
        impl<'a, K: Kind, const P: u16, const F: u16, const S: u16> equiv::Params for WA<XP<MN<'a, K>, P, F, S>, $m> {
            type Node = MN<'a, K>;
            type DescendMode = Watched<XP<MN<'a, K>, P, F, S>>;
            type RecurMode = $r;
            type Error = Infallible;
        }
    };
}
wa!(Rc0, CallStack);
wa!(Rc1, RecurQueue<XP<MN<'a, K>, P, F, S>>);
wa!(Rc2, RecurStack<XP<MN<'a, K>, P, F, S>>);
const WC: [(u16, u16, u16); 6] = [(400, 800, 40), (0, 0, 0), (1, 1, 1), (2, 3, 2), (9, 1, 33), (10, 20, 1)];
fn whole(r: &mut Rng, n: u64, cov: &mut Cov) {
    type K = KRich;
    let case = if r.chance(1, 3) { acyc_case(r, n, 4_000).0 } else { cyc_case(r, n) };
    set_rng(rng_cfg(r));
    let c = r.us(WC.len());
    let m = r.below(3);
    let (_, f, s) = WC[c];
    let (br, d) = case.branch_stats();
    let bound = visit_bound(br, d, f, s);
    if bound > 2_000_000 {
        return;
    }
    AU.with(|a| *a.borrow_mut() = Some(Automaton::new(f, s)));
    let call = |a: MN<'_, K>, b: MN<'_, K>| {
        macro_rules! go {
            ($($i:literal => ($p:literal, $f:literal, $s:literal)),*) => {
                match (c, m) {
                    $( ($i, 0) => Equiv::<WA<XP<_, $p, $f, $s>, Rc0>>::default().equiv(a, b),
                       ($i, 1) => Equiv::<WA<XP<_, $p, $f, $s>, Rc1>>::default().equiv(a, b),
                       ($i, _) => Equiv::<WA<XP<_, $p, $f, $s>, Rc2>>::default().equiv(a, b), )*
                    _ => unreachable!(),
                }
            };
        }
        go!(0 => (400, 800, 40), 1 => (0, 0, 0), 2 => (1, 1, 1), 3 => (2, 3, 2), 4 => (9, 1, 33), 5 => (10, 20, 1)).map_err(|e: Infallible| match e {})
    };
    let rep = run_with::<K>(&case, &call, &Opt { budget: budget_for(bound), ..Opt::default() });
    let mut au = AU.with(|a| a.borrow_mut().take().unwrap());
    if !matches!(rep.end, End1::Ok(_)) && au.bad.is_none() {
        au.bad = Some(end_text(&rep.end));
    }
    cov.add("whole_comparisons", 1);
    let sig = mix2(case.hash(), mix2(c as u64, m));
    au.done(format!("comparison with constants {:?}, recursion mode {m}: {}", WC[c], case.dump(60)), sig, cov);
}

// -- the premade functions ------------------------------------------------------------------------

thread_local! {
    static LOOKED: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
    static VISITS: Cell<u64> = const { Cell::new(0) };
}
#[derive(Clone)]
struct LId(u8, u32);
impl PartialEq for LId {
    fn eq(&self, o: &Self) -> bool {
        (self.0, self.1) == (o.0, o.1)
    }
}
impl Eq for LId {}
impl Hash for LId {
    fn hash<H: Hasher>(&self, h: &mut H) {
        LOOKED.with(|l| l.borrow_mut().insert(self.1));
        h.write_u64(u64::from(self.0) << 32 | u64::from(self.1));
    }
}
/// A list of so many more nodes, with a leaf at each.
#[derive(Clone)]
struct LN {
    side: u8,
    at: u32,
    len: u32,
    leaf: bool,
}
impl Node for LN {
    type Cmp = bool;
    type Id = LId;
    type Index = u8;
    fn id(&self) -> LId {
        LId(self.side, if self.leaf { u32::MAX - self.at } else { self.at })
    }
    fn get_edge(&self, i: &u8) -> Option<LN> {
        if self.leaf || self.at == self.len {
            return None;
        }
        match i {
            0 => Some(LN { leaf: true, ..self.clone() }),
            1 => Some(LN { at: self.at + 1, ..self.clone() }),
            _ => None,
        }
    }
    fn equiv_modulo_edges(&self, _: &LN) -> bool {
        VISITS.with(|v| v.set(v.get() + 1));
        true
    }
}
/// Lists without sharing: with the default constants, runs of exactly 40 pairs looked up, with between
/// 1 and 801 others between them.
fn premade(k: u64, r: &mut Rng, cov: &mut Cov) {
    let len = 3_500 + r.below(20_000) as u32;
    let f: fn(LN, LN) -> bool = [cycle_safe::equiv, cycle_safe::precheck_equiv, robust::equiv, robust::precheck_equiv][k as usize % 4];
    LOOKED.with(|l| l.borrow_mut().clear());
    let l = |side| LN { side, at: 0, len, leaf: false };
    let res = f(l(0), l(1));
    let looked = LOOKED.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let mut runs: Vec<(bool, u32)> = Vec::new();
    for i in 0..len {
        let x = looked.contains(&i);
        match runs.last_mut() {
            Some((y, n)) if *y == x => *n += 1,
            _ => runs.push((x, 1)),
        }
    }
    let mut bad = Vec::new();
    if !res {
        bad.push("gave inequivalent for equal lists".to_string());
    }
    if looked.iter().any(|x| *x >= len) {
        bad.push("an id of a node without edges was looked up".into());
    }
    let mut lens = HashSet::new();
    for (i, (x, n)) in runs.iter().enumerate() {
        let last = i + 1 == runs.len();
        if i == 0 && !x {
            bad.push(format!("did not start in the slow phase: {n} pairs not looked up"));
        }
        if *x && (*n != 40 && !(last && *n < 40)) {
            bad.push(format!("{n} consecutive pairs looked up, 40 are due (run {i})"));
        }
        if !*x {
            if *n > 801 {
                bad.push(format!("{n} consecutive pairs not looked up, at most 801 are due (run {i})"));
            }
            if !last {
                lens.insert(*n);
            }
        }
    }
    let fasts = runs.iter().filter(|x| !x.0).count();
    if fasts > 8 && lens.len() < 4 {
        bad.push(format!("the lengths of {fasts} fast phases are only {lens:?}: not varied at random"));
    }
    cov.add("premade_phases", runs.len() as u64);
    cov.eval(Some(mix2(k, u64::from(len))));
    cov.sample(|| format!("premade function {} on lists of {len}: {} runs", k % 4, runs.len()));
    bad.truncate(3);
    for b in bad {
        cov.vio(format!("premade function {} of cycle_safe::{{equiv, precheck_equiv}}, robust::{{equiv, precheck_equiv}} on lists of {len} nodes: {b}", k % 4));
    }
}

// -- the constants --------------------------------------------------------------------------------

struct D0<const P: u16>;
macro_rules! dflt {
    ($t:ty) => {
        type Node = drive::DN;
        type Table = drive::CTab;
        type RNG = $t;
    };
}
impl<const P: u16> interleave::Params for D0<P> {
    const PRECHECK_LIMIT: u16 = P;
    dflt!(TlRng);
}
struct D1;
impl interleave::Params for D1 {
    dflt!(TlRng);
}
fn constants(cov: &mut Cov) {
    use interleave::Params as P;
    let mut chk = |p: u16, got: (u16, u16, u16)| {
        let exp = (p, 2 * p, p / 10);
        cov.eval(Some(mix2(u64::from(p), 5)));
        if got != exp {
            cov.vio(format!("PRECHECK_LIMIT {p}: the constants are {got:?}, documented is {exp:?}"));
        }
    };
    macro_rules! t { ($($p:literal)*) => { $( chk($p, (<D0<$p> as P>::PRECHECK_LIMIT, <D0<$p> as P>::FAST_LIMIT_MAX, <D0<$p> as P>::SLOW_LIMIT)); )* } }
    t!(0 1 5 9 10 11 19 20 99 400 1000);
    #[cfg(feature = "extremes")]
    t!(32767);
    chk(400, (D1::PRECHECK_LIMIT, D1::FAST_LIMIT_MAX, D1::SLOW_LIMIT));
}

fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    match j.part {
        0 => {
            if j.k == 0 {
                constants(cov);
            }
            for _ in 0..60 {
                direct(r, cov);
            }
        },
        1 => {
            for _ in 0..60 {
                whole(r, 200, cov);
            }
        },
        2 => {
            for _ in 0..4 {
                whole(r, 3_000, cov);
            }
        },
        _ => premade(j.k, r, cov),
    }
}
static PLAN: Plan = Plan {
    prop: "C16",
    rule: "a distinct history of pairs with edges (direct, or in a whole comparison) that reached a fast phase, every pair of which was judged by the automaton; or a comparison by a premade function, judged by its runs of look-ups; or a set of derived constants",
    parts: &[(60, 4_000), (60, 4_000), (30, 2_000), (16, 200)],
    stack: 1 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
