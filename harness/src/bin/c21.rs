//! C21: hostile but finite use never makes the crate itself panic, overflow or loop.
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
use graph_safe_compare::generic::equiv::{self, Equiv};
use graph_safe_compare::generic::equiv_classes::{self, premade::rc::Rc, Class, Rc as _};
use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};
use graph_safe_compare::{Cmp, Node, Step};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::convert::Infallible;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::util::*;

/// Which callbacks lie.
const ID: u32 = 1;
const EQ: u32 = 2;
const HASH: u32 = 4;
const EDGE: u32 = 8;
const COUNT: u32 = 16;
const VAL: u32 = 32;
const CMP: u32 = 64;
const INDEX: u32 = 128;
const ZERO: u32 = 256;
const TABLE: u32 = 512;
const FRESH: u32 = 1024;

thread_local! {
    static LIE: RefCell<Rng> = RefCell::new(Rng(1));
    static LIES: Cell<u32> = const { Cell::new(0) };
    /// How likely a lie is: one in so many.
    static ODDS: Cell<u64> = const { Cell::new(2) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    /// After so many callbacks the data has no more edges; after so many more it is given up.
    static ENOUGH: Cell<u64> = const { Cell::new(0) };
    static TOLD: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn lies(k: u32) -> bool {
    let y = LIES.with(Cell::get) & k != 0 && LIE.with(|r| r.borrow_mut().chance(1, ODDS.with(Cell::get)));
    if y {
        TOLD.with(|t| t.set(t.get() + 1));
    }
    y
}
fn rnd(n: u64) -> u64 {
    LIE.with(|r| r.borrow_mut().below(n))
}
fn tick() -> bool {
    let c = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let e = ENOUGH.with(Cell::get);
    if c > e.saturating_mul(60) + 100_000 {
        std::panic::panic_any(Budget);
    }
    c > e
}

struct LId(u32);
impl LId {
    fn new(v: u32) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        LId(v)
    }
}
impl Drop for LId {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Clone for LId {
    fn clone(&self) -> Self {
        LId::new(if lies(ID) { rnd(9) as u32 } else { self.0 })
    }
}
impl PartialEq for LId {
    fn eq(&self, o: &Self) -> bool {
        (self.0 == o.0) != lies(EQ)
    }
}
impl Eq for LId {}
impl Hash for LId {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(if lies(HASH) { rnd(1 << 32) as u32 } else { self.0 });
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct LIx(u32);
impl Default for LIx {
    fn default() -> Self {
        LIx(if lies(ZERO) { rnd(4) as u32 } else { 0 })
    }
}
impl Step for LIx {
    fn increment(&self) -> Option<Self> {
        if lies(INDEX) {
            (rnd(3) > 0).then(|| LIx(rnd(6) as u32))
        } else {
            self.0.increment().map(LIx)
        }
    }
}
#[derive(Debug)]
struct LCmp(i8);
impl Cmp for LCmp {
    fn new_equiv() -> Self {
        LCmp(i8::from(lies(CMP)))
    }
    fn is_equiv(&self) -> bool {
        (self.0 == 0) != lies(CMP)
    }
    fn from_ord(o: Ordering) -> Self {
        LCmp(if lies(CMP) { 0 } else { o as i8 })
    }
}
struct LN<'g> {
    g: &'g Graph,
    x: u32,
}
impl<'g> LN<'g> {
    fn new(g: &'g Graph, x: u32) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        LN { g, x }
    }
}
impl Clone for LN<'_> {
    fn clone(&self) -> Self {
        LN::new(self.g, self.x)
    }
}
impl Drop for LN<'_> {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Node for LN<'_> {
    type Cmp = LCmp;
    type Id = LId;
    type Index = LIx;
    fn id(&self) -> LId {
        tick();
        LId::new(if lies(ID) {
            rnd(self.g.n() as u64) as u32
        } else if lies(FRESH) {
            rnd(1 << 32) as u32
        } else {
            self.g.id[self.x as usize]
        })
    }
    fn get_edge(&self, i: &LIx) -> Option<Self> {
        if tick() {
            return None;
        }
        if lies(COUNT) {
            return (rnd(2) > 0).then(|| LN::new(self.g, rnd(self.g.n() as u64) as u32));
        }
        let y = self.g.edge(self.x, i.0 as usize)?;
        Some(LN::new(self.g, if lies(EDGE) { rnd(self.g.n() as u64) as u32 } else { y }))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> LCmp {
        tick();
        let c = if lies(VAL) { rnd(3) as i8 - 1 } else { cmpval(self.g.val[self.x as usize], o.g.val[o.x as usize]) };
        LCmp(c)
    }
}

/// A table that forgets, and takes one for another.
struct LTab<N>(Vec<(LId, Rc)>, PhantomData<N>);
impl<N> Default for LTab<N> {
    fn default() -> Self {
        LTab(Vec::new(), PhantomData)
    }
}
impl<'g> equiv_classes::Table for LTab<LN<'g>> {
    type Node = LN<'g>;
    type Rc = Rc;
    fn get(&self, k: &LId) -> Option<&Rc> {
        if lies(TABLE) {
            return if self.0.is_empty() || rnd(3) == 0 { None } else { Some(&self.0[rnd(self.0.len() as u64) as usize].1) };
        }
        self.0.iter().find(|e| e.0 .0 == k.0).map(|e| &e.1)
    }
    fn insert(&mut self, k: LId, v: Rc) {
        if lies(TABLE) {
            match rnd(3) {
                0 => return,
                1 => {
                    self.0.push((k, Rc::new(Cell::new(Class::default()))));
                    return;
                },
                _ => self.0.push((LId::new(k.0), v.clone())),
            }
        }
        self.0.push((k, v));
    }
}
struct TP<N, const F: u16, const S: u16>(PhantomData<N>);
impl<'g, const F: u16, const S: u16> interleave::Params for TP<LN<'g>, F, S> {
    const FAST_LIMIT_MAX: u16 = F;
    const SLOW_LIMIT: u16 = S;
    type Node = LN<'g>;
    type Table = LTab<LN<'g>>;
    type RNG = TlRng;
}
impl<N: Node, const F: u16, const S: u16> queue::Params for TP<N, F, S> {
    const INITIAL_CAPACITY: usize = 0;
    type Node = N;
}
impl<N: Node, const F: u16, const S: u16> stack::Params for TP<N, F, S> {
    const INITIAL_CAPACITY: usize = 0;
    type Node = N;
}
macro_rules! tm {
    ($name:ident, $r:ty) => {
        struct $name<N, const F: u16, const S: u16>(PhantomData<N>);
        impl<'g, const F: u16, const S: u16> equiv::Params for $name<LN<'g>, F, S> {
            type Node = LN<'g>;
            type DescendMode = Interleave<TP<LN<'g>, F, S>>;
            type RecurMode = $r;
            type Error = Infallible;
        }
    };
}
tm!(TC, CallStack);
tm!(TQ, RecurQueue<TP<LN<'g>, F, S>>);
tm!(TS3, RecurStack<TP<LN<'g>, F, S>>);
fn by_table<'g, const F: u16, const S: u16>(m: u64, a: LN<'g>, b: LN<'g>) {
    let _ = match m {
        0 => Equiv::<TC<LN<'g>, F, S>>::default().equiv(a, b).is_ok(),
        1 => Equiv::<TQ<LN<'g>, F, S>>::default().equiv(a, b).is_ok(),
        _ => Equiv::<TS3<LN<'g>, F, S>>::default().equiv(a, b).is_ok(),
    };
}

fn one(r: &mut Rng, cov: &mut Cov) {
    let n = size(r, 40);
    let fam = r.us(FAMILIES);
    let case = gen_case(r, n, Cyc::Yes, fam, true);
    let mut mask = 0;
    for _ in 0..r.range(0, 4) {
        mask |= 1 << r.below(11);
    }
    // Values that always agree, so that it goes on for long.
    let lenient = r.chance(1, 2);
    let mut case = case;
    if lenient {
        for v in &mut case.g.val {
            *v = 0;
        }
    }
    let odds = *r.pick(&[1, 2, 3, 5, 20, 100]);
    let enough = match r.below(4) {
        0 => r.range(1, 40),
        1 => r.range(1, 600),
        _ => r.range(500, 12_000),
    };
    LIE.with(|l| *l.borrow_mut() = Rng::new(r.next()));
    LIES.with(|l| l.set(mask));
    ODDS.with(|l| l.set(odds));
    ENOUGH.with(|l| l.set(enough));
    CALLS.with(|l| l.set(0));
    TOLD.with(|l| l.set(0));
    LIVE.with(|l| l.set(0));
    set_rng(match r.below(3) {
        0 => RngCfg::Wild(r.next()),
        _ => rng_cfg(r),
    });
    let custom_table = mask & TABLE != 0;
    let alg = if r.chance(1, 6) { any_alg(r, &case) } else { safe_alg(r, true) };
    let name = if custom_table { "interleave with a lying table".to_string() } else { alg.name() };
    let m = r.below(3);
    let fs = r.below(6);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let (a, b) = (LN::new(&case.g, case.ra), LN::new(&case.g, case.rb));
        if custom_table {
            match fs {
                0 => by_table::<0, 0>(m, a, b),
                1 => by_table::<1, 1>(m, a, b),
                2 => by_table::<TOP_F, TOP>(m, a, b),
                3 => by_table::<7, 3>(m, a, b),
                4 => by_table::<TOP_F, 1>(m, a, b),
                _ => by_table::<0, TOP>(m, a, b),
            }
        } else {
            let _ = call_all(alg, a, b).map(|c| c.0);
        }
    }));
    let calls = CALLS.with(Cell::get);
    let told = TOLD.with(Cell::get);
    cov.add("callbacks", calls);
    cov.add("lies told", told);
    cov.add("comparisons whose data had to be cut off to be finite", u64::from(calls > enough));
    cov.eval((calls > 6 && told > 0).then(|| mix2(mix2(case.hash(), u64::from(mask) << 32 | odds), name.bytes().fold(m, |h, b| mix2(h, u64::from(b))))));
    cov.sample(|| format!("{name}, lies {mask:#x} one in {odds}: {told} lies in {calls} callbacks, {}", case.dump(6)));
    if let Err(p) = res {
        let e = classify(p);
        cov.vio(format!("{name}, lies {mask:#x} one in {odds}, no more edges after {enough} callbacks: {} after {calls} callbacks and {told} lies: {}", end_text(&e), case.dump(40)));
    } else {
        let left = LIVE.with(Cell::get);
        if left != 0 {
            cov.vio(format!("{name}, lies {mask:#x}: {left} nodes and ids not dropped exactly once: {}", case.dump(40)));
        }
    }
}
/// Well-behaved graphs with all the constants, in all sizes.
fn honest(r: &mut Rng, cov: &mut Cov) {
    let case = cyc_case(r, 120);
    let alg = if r.chance(1, 4) { any_alg(r, &case) } else { safe_alg(r, true) };
    let wild = r.chance(1, 3);
    let budget = if let Some((_, f, s)) = alg.consts() {
        // (Numbers out of the range make fast phases longer than FAST_LIMIT_MAX.)
        let (b, d) = case.branch_stats();
        let b = visit_bound(b, d, if wild { u16::MAX } else { f }, s) + alg.pre().map_or(0, u64::from);
        if b > if alg.callstack() { 150_000 } else if wild { 4_000_000 } else { 400_000 } {
            return;
        }
        budget_for(b)
    } else {
        let s = naive(&case, alg.orders().1, usize::MAX, 100_000);
        if s.stop == Stop::Cap && alg.limit().map_or(true, |l| l > 100_000) {
            return;
        }
        budget_for(s.visits.len() as u64)
    };
    set_rng(if wild { RngCfg::Wild(r.next()) } else { rng_cfg(r) });
    let o = Opt { rec: false, budget: budget.saturating_mul(2), badhash: r.below(3) as u8, ..Opt::default() };
    let rep = run::<KRich>(&case, alg, all_fns, &o);
    cov.eval((rep.nvis > 2).then(|| alg_sig(&case, alg)));
    cov.add("callbacks", rep.calls);
    if let End1::Panic(_) | End1::Budget = rep.end {
        cov.vio(format!("{}: {}: {}", alg.name(), end_text(&rep.end), case.dump(60)));
    }
}
fn alg_sig(case: &Case, alg: Alg) -> u64 {
    vmon::trace::alg_sig(case, alg, 9)
}
fn any_alg(r: &mut Rng, case: &Case) -> Alg {
    vmon::trace::any_alg(r, case)
}
/// Limits at their extremes.
fn limits(r: &mut Rng, cov: &mut Cov) {
    let (case, n) = acyc_case(r, 30, 3000);
    for t in TS {
        let m = t.max();
        for l in [0, 1, 2, m, m - 1, m / 2, m / 2 + 1, (n as u128).min(m), (n as u128 + 1).min(m), (n as u128).saturating_sub(1).min(m)] {
            let alg = match r.below(3) {
                0 => Alg::BasicL(t, l),
                1 => Alg::DeepL(t, l),
                _ => Alg::WideL(t, l),
            };
            let o = Opt { rec: false, budget: budget_for(n as u64), ..Opt::default() };
            let rep = run::<KRich>(&case, alg, std_fns, &o);
            cov.eval(Some(alg_sig(&case, alg)));
            cov.add("extreme limits", 1);
            if let End1::Panic(_) | End1::Budget = rep.end {
                cov.vio(format!("{}: {}: {}", alg.name(), end_text(&rep.end), case.dump(60)));
            }
        }
    }
}
/// Classes of very many nodes.
fn merges(k: usize, r: &mut Rng, cov: &mut Cov) {
    let w = *r.pick(&[300usize, 40_000, 70_000, 140_000]);
    let case = merge_case(r, if k < 5 { 70_000 } else { w }, k);
    for alg in [Alg::GI(Rm::C, 12), Alg::GI(Rm::Q, 12), Alg::GI(Rm::S, 12), Alg::Rob] {
        set_rng(RngCfg::Zero);
        let o = Opt { rec: false, budget: 100_000_000, ..Opt::default() };
        let rep = run::<KRich>(&case, alg, all_fns, &o);
        cov.eval(Some(alg_sig(&case, alg)));
        cov.add("callbacks", rep.calls);
        cov.add("merges into classes of up to 140000 pairs", w as u64);
        if let End1::Panic(_) | End1::Budget = rep.end {
            cov.vio(format!("{}: {}: {} pairs made one class: {}", alg.name(), end_text(&rep.end), w, case.dump(8)));
        }
    }
}
fn go(job: &mut Job, cov: &mut Cov) {
    let r = &mut job.rng;
    match job.part {
        0 => (0..60).for_each(|_| one(r, cov)),
        1 => (0..40).for_each(|_| honest(r, cov)),
        2 => (0..20).for_each(|_| limits(r, cov)),
        _ => merges(job.k as usize, r, cov),
    }
}
fn main() {
    static PLAN: Plan = Plan {
        prop: "C21",
        rule: "a comparison with lying callbacks during which lies were told, or with extreme constants or limits; panics and endlessness are watched for",
        parts: &[(3000, 60_000), (800, 20_000), (60, 3000), (10, 200)],
        stack: 512 << 20,
        run: go,
    };
    vmon::driver::main(&PLAN);
}
