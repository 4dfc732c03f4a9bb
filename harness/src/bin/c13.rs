//! C13: custom descend modes: every answer and every error of theirs is obeyed.
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
use graph_safe_compare::generic::equiv::{self, DescendMode, Equiv};
use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};
use graph_safe_compare::Node;
use std::cell::{Cell, RefCell};
use std::convert::Infallible;
use std::marker::PhantomData;
use vmon::algs::Limit;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::util::*;

#[derive(Clone, Copy, Debug, PartialEq)]
struct Script {
    seed: u64,
    skip_tr: u64,
    skip_de: u64,
    err_tr: u64,
    err_de: u64,
    one_skip_tr: u64,
    one_skip_de: u64,
}
const NEVER: u64 = u64::MAX;
impl Script {
    fn go() -> Self {
        Script { seed: 0, skip_tr: 0, skip_de: 0, err_tr: NEVER, err_de: NEVER, one_skip_tr: NEVER, one_skip_de: NEVER }
    }
    fn tr(&self, k: u64) -> Act {
        if k == self.err_tr {
            Act::Err(k as u32)
        } else if k == self.one_skip_tr || mix2(self.seed, k) % 1000 < self.skip_tr {
            Act::Skip
        } else {
            Act::Go
        }
    }
    fn de(&self, k: u64) -> Act {
        if k == self.err_de {
            Act::Err(0x8000_0000 | k as u32)
        } else if k == self.one_skip_de || mix2(self.seed ^ 77, k) % 1000 < self.skip_de {
            Act::Skip
        } else {
            Act::Go
        }
    }
}
#[derive(Default)]
struct St {
    tr: u64,
    de: u64,
    /// Callbacks of nodes that had happened when the error was given.
    at_err: Option<u64>,
    bad: Vec<String>,
}
thread_local! {
    static SCRIPT: Cell<Script> = const { Cell::new(Script { seed: 0, skip_tr: 0, skip_de: 0, err_tr: NEVER, err_de: NEVER, one_skip_tr: NEVER, one_skip_de: NEVER }) };
    static ST: RefCell<St> = RefCell::new(St::default());
    static CALLS: Cell<usize> = const { Cell::new(0) };
}
/// The node callbacks made so far are read through this, as `do_traverse` is not given any node.
fn calls() -> u64 {
    let p = CALLS.with(Cell::get);
    if p == 0 {
        return 0;
    }
    // SAFETY: set by `run_mode` to a counter that outlives the comparison.
    unsafe { (*(p as *const Cell<u64>)).get() }
}

struct Dm;
struct DErr(u32);
#[derive(Debug, PartialEq, Clone, Copy)]
struct MyErr(u32);
impl From<DErr> for MyErr {
    fn from(e: DErr) -> Self {
        MyErr(e.0)
    }
}
impl From<Infallible> for MyErr {
    fn from(e: Infallible) -> Self {
        match e {}
    }
}
impl<'a, K: Kind, P> DescendMode<P> for Dm
where
    P: equiv::Params<Node = MN<'a, K>, DescendMode = Dm>,
    DErr: Into<P::Error>,
{
    type Error = DErr;
    fn do_edges(&mut self, a: &MN<'a, K>, b: &MN<'a, K>) -> Result<bool, DErr> {
        let _s = Suspend::new();
        let sc = SCRIPT.with(Cell::get);
        ST.with(|s| {
            let s = &mut *s.borrow_mut();
            let k = s.de;
            s.de += 1;
            if s.at_err.is_some() && s.bad.len() < 3 {
                s.bad.push(format!("do_edges called after an error was returned (call {k})"));
            }
            let last = a.cx.visits.borrow().last().copied();
            if (a.side, b.side) != (0, 1) || a.pos != b.pos || last.is_none_or(|l| (l.pos, l.a, l.b) != (a.pos, a.x, b.x)) {
                if s.bad.len() < 3 {
                    s.bad.push(format!("do_edges given objects {} and {} that are not the counterparts being compared", a.x, b.x));
                }
            }
            match sc.de(k) {
                Act::Go => Ok(true),
                Act::Skip => Ok(false),
                Act::Err(c) => {
                    s.at_err = Some(calls());
                    Err(DErr(c))
                },
            }
        })
    }
    fn do_traverse(&mut self) -> Result<bool, DErr> {
        let _s = Suspend::new();
        let sc = SCRIPT.with(Cell::get);
        ST.with(|s| {
            let s = &mut *s.borrow_mut();
            let k = s.tr;
            s.tr += 1;
            if s.at_err.is_some() && s.bad.len() < 3 {
                s.bad.push(format!("do_traverse called after an error was returned (call {k})"));
            }
            match sc.tr(k) {
                Act::Go => Ok(true),
                Act::Skip => Ok(false),
                Act::Err(c) => {
                    s.at_err = Some(calls());
                    Err(DErr(c))
                },
            }
        })
    }
}
struct A0<N>(PhantomData<N>);
struct A1<N>(PhantomData<N>);
struct A2<N>(PhantomData<N>);
macro_rules! params {
    ($t:ident, $r:ty) => {
        impl<'a, K: Kind> equiv::Params for $t<MN<'a, K>> {
            type Node = MN<'a, K>;
            type DescendMode = Dm;
            type RecurMode = $r;
            type Error = MyErr;
        }
    };
}
params!(A0, CallStack);
params!(A1, RecurQueue<Self>);
params!(A2, RecurStack<Self>);
impl<'a, K: Kind> queue::Params for A1<MN<'a, K>> {
    const INITIAL_CAPACITY: usize = 1;
    type Node = MN<'a, K>;
}
impl<'a, K: Kind> stack::Params for A2<MN<'a, K>> {
    const INITIAL_CAPACITY: usize = 0;
    type Node = MN<'a, K>;
}
fn run_mode<K: Kind>(case: &Case, m: usize, sc: Script, budget: u64) -> (Rep, Option<MyErr>, St, u64) {
    SCRIPT.with(|s| s.set(sc));
    ST.with(|s| *s.borrow_mut() = St::default());
    let err = Cell::new(None);
    let total = Cell::new(0u64);
    let call = |a: MN<'_, K>, b: MN<'_, K>| {
        fn go<'a, K: Kind, P>(a: MN<'a, K>, b: MN<'a, K>) -> Result<<MN<'a, K> as Node>::Cmp, MyErr>
        where
            P: equiv::Params<Node = MN<'a, K>, DescendMode = Dm, Error = MyErr>,
        {
            Equiv::<P>::new(Dm).equiv(a, b)
        }
        let cx = a.cx;
        CALLS.with(|c| c.set(&cx.calls as *const Cell<u64> as usize));
        let r = match m {
            0 => go::<K, A0<MN<'_, K>>>(a, b),
            1 => go::<K, A1<MN<'_, K>>>(a, b),
            _ => go::<K, A2<MN<'_, K>>>(a, b),
        };
        total.set(cx.calls.get());
        CALLS.with(|c| c.set(0));
        r.map_err(|e| {
            err.set(Some(e));
            Limit
        })
    };
    let rep = run_with::<K>(case, &call, &Opt { budget, ..Opt::default() });
    CALLS.with(|c| c.set(0));
    let st = ST.with(|s| std::mem::take(&mut *s.borrow_mut()));
    (rep, err.get(), st, total.get())
}
const NAMES: [&str; 3] = ["CallStack", "RecurQueue", "RecurStack"];
fn one<K: Kind>(case: &Case, m: usize, sc: Script, cap: usize, cov: &mut Cov) -> Option<Sim> {
    let order = if m == 1 { Order::Bfs } else { Order::Dfs };
    let s = simulate(&case.g, case.ra, case.rb, order, <K::I as Ix>::cap(), false, cap, &mut |k| sc.tr(k), &mut |k| sc.de(k));
    if s.stop == Stop::Cap {
        return None;
    }
    let (rep, err, st, total) = run_mode::<K>(case, m, sc, budget_for(s.traverses));
    let exp = match s.stop {
        Stop::Done(o) => End1::Ok(o),
        _ => End1::Limit,
    };
    let mut bad = st.bad.clone();
    let ok = match (&rep.end, &exp, s.stop) {
        (End1::Ok(g), End1::Ok(e), _) => agree(K::C::LV, *g, *e),
        (End1::Limit, End1::Limit, Stop::Err(c)) => {
            if err != Some(MyErr(c)) {
                bad.push(format!("the error returned is {err:?}, the one given was {c}"));
            }
            true
        },
        _ => false,
    };
    if !ok {
        bad.push(format!("gave {} where {:?} was due", end_text(&rep.end), s.stop));
    } else {
        if rep.visits != s.visits {
            let i = rep.visits.iter().zip(&s.visits).take_while(|(x, y)| x == y).count();
            bad.push(format!("visited {:?} where {:?} was due (visit {i})", rep.visits.get(i), s.visits.get(i)));
        }
        if (st.tr, st.de) != (s.traverses, s.edges_calls) {
            bad.push(format!("do_traverse asked {} times, do_edges {} times, where {} and {} were due", st.tr, st.de, s.traverses, s.edges_calls));
        }
        if let (Some(c), Stop::Err(_)) = (st.at_err, s.stop) {
            if total != c {
                bad.push(format!("{} callbacks of nodes after the error was given", total - c));
            }
        }
        if rep.live_left != 0 || rep.blocks_left != 0 {
            bad.push(format!("{} node objects and {} allocations left", rep.live_left, rep.blocks_left));
        }
        bad.extend(rep.errs.iter().cloned());
    }
    match s.stop {
        Stop::Err(_) => cov.add("errors_given", 1),
        _ => cov.add("no_error_given", 1),
    }
    cov.add("pairs_visited", rep.nvis);
    cov.add("do_traverse_answers", st.tr);
    cov.add("do_edges_answers", st.de);
    let sig = [m as u64, sc.seed, sc.skip_tr, sc.skip_de, sc.err_tr, sc.err_de, sc.one_skip_tr, sc.one_skip_de, u64::from(K::C::LV)].iter().fold(case.hash(), |h, x| mix2(h, *x));
    cov.eval((sc != Script::go()).then_some(sig));
    cov.sample(|| format!("{} {sc:?} on {} -> {:?}", NAMES[m], case.dump(5), s.stop));
    for b in bad {
        cov.vio(format!("custom descend mode with {}, {sc:?}: {b}: {}", NAMES[m], case.dump(60)));
    }
    Some(s)
}
fn all_points<K: Kind>(case: &Case, r: &mut Rng, most: u64, cov: &mut Cov) {
    for m in 0..3 {
        // A script without errors first: its calls are the points to fail at.
        let mut base = Script::go();
        if case.cyclic || r.chance(1, 2) {
            base.seed = r.next();
            base.skip_tr = *r.pick(&[0, 20, 100, 300, 600]);
            base.skip_de = *r.pick(&[0, 50, 200, 500, 800]);
        }
        let (t, e) = match one::<K>(case, m, base, 3_000, cov) {
            Some(s) => (s.traverses, s.edges_calls),
            // Does not end by itself.
            None => (400, 150),
        };
        let pick = |n: u64, r: &mut Rng| -> Vec<u64> {
            if n <= most {
                (0..n).collect()
            } else {
                (0..most).map(|_| r.below(n)).chain([0, n - 1]).collect()
            }
        };
        for k in pick(t, r) {
            one::<K>(case, m, Script { err_tr: k, ..base }, 3_000, cov);
            one::<K>(case, m, Script { one_skip_tr: k, ..base }, 3_000, cov);
        }
        for k in pick(e, r) {
            one::<K>(case, m, Script { err_de: k, ..base }, 3_000, cov);
            one::<K>(case, m, Script { one_skip_de: k, ..base }, 3_000, cov);
        }
    }
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    let n = match j.part {
        0 => 10,
        _ => 60,
    };
    let reps = if j.part == 0 { 40 } else { 8 };
    for _ in 0..reps {
        let case = cyc_case(r, n);
        let most = if j.part == 0 { 200 } else { 25 };
        match r.below(3) {
            0 => all_points::<KOrd>(&case, r, most, cov),
            1 => all_points::<KBool>(&case, r, most, cov),
            _ => all_points::<KRich>(&case, r, most, cov),
        }
    }
}
static PLAN: Plan = Plan {
    prop: "C13",
    rule: "a distinct (pair of graphs, recursion mode, comparison type, script of the descend mode with at least one answer that is not to go on), fully judged; for small executions, an error and a skip at every single answer",
    parts: &[(90, 6_000), (60, 4_000)],
    stack: 1 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
