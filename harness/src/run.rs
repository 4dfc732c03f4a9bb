//! Runs one comparison of the real code under the monitors.
use crate::algs::*;
use crate::graph::*;
use crate::node::*;
use crate::util::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, Debug)]
pub enum End1 {
    Ok(Outcome),
    Limit,
    Budget,
    Injected,
    Panic(String),
}
#[derive(Clone)]
pub struct Opt {
    pub rec: bool,
    pub maxrec: usize,
    pub budget: u64,
    pub badhash: u8,
    pub fault_at: u64,
    pub stack_cap: usize,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { rec: true, maxrec: 1_000_000, budget: 200_000_000, badhash: 0, fault_at: u64::MAX, stack_cap: usize::MAX }
    }
}
pub struct Rep {
    pub end: End1,
    pub visits: Vec<PV>,
    pub roots: Vec<usize>,
    pub overflow: bool,
    pub nvis: u64,
    pub calls: u64,
    pub n_hash: u64,
    pub n_edge: u64,
    pub n_emo: u64,
    pub live_peak: i64,
    pub live_left: i64,
    pub ids_left: i64,
    pub ids_peak: i64,
    pub heap_left: i64,
    pub blocks_left: i64,
    pub heap_peak: i64,
    pub allocs: u64,
    pub stack: usize,
    pub errs: Vec<String>,
    pub draws: Vec<(u16, u16)>,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _s = Suspend::new();
        let p = i.payload();
        if p.is::<Budget>() || p.is::<Injected>() {
            return;
        }
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{m}{at}"));
    }));
}
pub fn classify(p: Box<dyn std::any::Any + Send>) -> End1 {
    if p.is::<Budget>() {
        End1::Budget
    } else if p.is::<Injected>() {
        End1::Injected
    } else {
        End1::Panic(LAST_PANIC.with(|l| l.borrow().clone()))
    }
}

#[inline(never)]
fn measured<R>(cx: &Cx<'_>, f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    cx.sp_base.set(sp());
    catch_unwind(AssertUnwindSafe(f))
}

pub type Call<K> = for<'a> fn(Alg, MN<'a, K>, MN<'a, K>) -> Result<<K as Kind>::C, Limit>;

pub fn run<K: Kind>(case: &Case, alg: Alg, call: Call<K>, o: &Opt) -> Rep {
    let f = |a: MN<'_, K>, b: MN<'_, K>| call(alg, a, b);
    run_with::<K>(case, &f, o)
}

pub fn run_with<K: Kind>(
    case: &Case,
    call: &dyn for<'a> Fn(MN<'a, K>, MN<'a, K>) -> Result<K::C, Limit>,
    o: &Opt,
) -> Rep {
    run_hooked(case, call, o, None)
}
pub fn run_hooked<K: Kind>(
    case: &Case,
    call: &dyn for<'a> Fn(MN<'a, K>, MN<'a, K>) -> Result<K::C, Limit>,
    o: &Opt,
    hook: Option<&dyn Fn(u64)>,
) -> Rep {
    let mut cx = Cx::new(&case.g);
    cx.hook = hook;
    cx.rec = o.rec;
    cx.maxrec = o.maxrec;
    cx.badhash = o.badhash;
    cx.fault_at = o.fault_at;
    cx.budget = o.budget;
    cx.stack_cap = o.stack_cap;
    {
        let cx = &cx;
        if cx.rec {
            cx.visits.borrow_mut().reserve(256);
            cx.roots.borrow_mut().reserve(8);
        }
        // Initialise whatever the standard library keeps per thread.
        let _ = std::collections::hash_map::RandomState::new();
        let before = alloc_snap();
        alloc_peak_reset();
        let a = MN::<K>::new(cx, case.ra, 0, ROOTPOS);
        let b = MN::<K>::new(cx, case.rb, 1, ROOTPOS);
        let r = measured(cx, || call(a, b).map(|c| c.out()));
        let end = match r {
            Ok(Ok(o)) => End1::Ok(o),
            Ok(Err(Limit)) => End1::Limit,
            Err(p) => classify(p),
        };
        let heap_peak = alloc_peak() - before.cur;
        let after = alloc_snap();
        let panicked = matches!(end, End1::Panic(_));
        let stack = cx.sp_base.get().saturating_sub(cx.sp_min.get().min(cx.sp_base.get()));
        let visits = std::mem::take(&mut *cx.visits.borrow_mut());
        let roots = std::mem::take(&mut *cx.roots.borrow_mut());
        let errs = std::mem::take(&mut *cx.errs.borrow_mut());
        Rep {
            end,
            visits,
            roots,
            overflow: cx.overflow.get(),
            nvis: cx.nvis.get(),
            calls: cx.calls.get(),
            n_hash: cx.n_hash.get(),
            n_edge: cx.n_edge.get(),
            n_emo: cx.n_emo.get(),
            live_peak: cx.live_peak.get(),
            live_left: cx.live.get(),
            ids_left: cx.live_ids.get(),
            ids_peak: cx.ids_peak.get(),
            // (The panic machinery's own box was allocated while counting: not judged then.)
            heap_left: if panicked { 0 } else { after.cur - before.cur },
            blocks_left: if panicked { 0 } else { after.blocks - before.blocks },
            heap_peak,
            allocs: after.allocs - before.allocs,
            stack,
            errs,
            draws: take_draws(),
        }
    }
}

/// Upper bound on the pairs whose edges are descended, by the documented interleaving.
pub fn expansion_bound(branches: usize, fast: u16, slow: u16) -> u64 {
    let m = (branches as u64).saturating_sub(1);
    m + (u64::from(fast) + 1) * (m / u64::from(slow.max(1)))
}
pub fn visit_bound(branches: usize, dmax: usize, fast: u16, slow: u16) -> u64 {
    1u64.saturating_add((dmax as u64).saturating_mul(expansion_bound(branches, fast, slow)))
}
/// Generous budget of callbacks for so many visits.
pub fn budget_for(visits: u64) -> u64 {
    visits.saturating_mul(64).saturating_add(20_000).min(2_000_000_000)
}
/// Visit bound for a sharing-aware algorithm.
pub fn safe_bound(case: &Case, alg: Alg) -> u64 {
    let (b, d) = case.branch_stats();
    let (_, f, s) = alg.consts().expect("safe");
    visit_bound(b, d, f, s).saturating_add(alg.pre().map_or(0, u64::from))
}
pub fn end_text(e: &End1) -> String {
    match e {
        End1::Ok(o) => format!("{o:?}"),
        End1::Limit => "LimitReached".into(),
        End1::Budget => "no result (did more work than the algorithm can ever need, or overran the call stack)".into(),
        End1::Injected => "injected panic".into(),
        End1::Panic(m) => format!("panic: {m}"),
    }
}
pub fn std_fns<'a, K: Kind>(alg: Alg, a: MN<'a, K>, b: MN<'a, K>) -> Result<K::C, Limit> {
    call_std(alg, a, b)
}
pub fn all_fns<'a, K: Kind>(alg: Alg, a: MN<'a, K>, b: MN<'a, K>) -> Result<K::C, Limit> {
    call_all(alg, a, b)
}
pub fn few_fns<'a, K: Kind>(alg: Alg, a: MN<'a, K>, b: MN<'a, K>) -> Result<K::C, Limit> {
    call_few(alg, a, b)
}
