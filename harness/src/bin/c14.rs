//! C14: custom recursion modes, the edges iterator, conversions, custom tables and pointers.
use graph_safe_compare::basic::modes::limited::{LimitReached, Limited};
use graph_safe_compare::basic::modes::unlimited::Unlimited;
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::{self, random::NumberGenerator, Interleave};
use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
use graph_safe_compare::generic::equiv::{self, CounterpartsResult, EdgesIter, Equiv, RecurMode};
use graph_safe_compare::generic::equiv_classes::{self, Class};
use graph_safe_compare::generic::precheck_interleave::{self, InterleaveError, PrecheckError};
use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};
use graph_safe_compare::{Cmp, Node};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::convert::Infallible;
use std::marker::PhantomData;
use std::num::NonZeroU16;
use std::ops::Deref;
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::util::*;

// -- the scripted recursion mode ------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Style {
    Fifo,
    Lifo,
    Random,
    /// Keeps the iterators, pulls from the oldest / newest / a random one.
    KeepOld,
    KeepNew,
    KeepRandom,
    /// Some children at once on the call stack, the others later.
    Hybrid,
    /// All at once, in reverse order.
    Reverse,
    /// All at once, in order.
    Now,
}
const STYLES: [Style; 9] = [Style::Fifo, Style::Lifo, Style::Random, Style::KeepOld, Style::KeepNew, Style::KeepRandom, Style::Hybrid, Style::Reverse, Style::Now];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    No,
    /// `recur` errors at its call k.
    RecurErr(u64),
    /// `recur` gives an inequivalent value at its call k.
    RecurCmp(u64, i8),
    /// `next` gives an inequivalent value at its call k.
    NextCmp(u64, i8),
}
#[derive(Clone, Copy, Debug)]
struct Cfg {
    style: Style,
    seed: u64,
    fault: Fault,
}
#[derive(Default, Clone)]
struct St {
    recurs: u64,
    nexts: u64,
    items: u64,
    edge_errs: u64,
    resets: u64,
    made: u64,
    last_next_none: bool,
    /// Node callbacks so far when the fault was given.
    failed: Option<u64>,
    bad: Vec<String>,
}
thread_local! {
    static CFG: Cell<Cfg> = const { Cell::new(Cfg { style: Style::Fifo, seed: 0, fault: Fault::No }) };
    static ST: RefCell<St> = RefCell::new(St::default());
    static CALLS: Cell<usize> = const { Cell::new(0) };
}
fn calls() -> u64 {
    let p = CALLS.with(Cell::get);
    if p == 0 {
        return 0;
    }
    // SAFETY: set by the runners to a counter that outlives the comparison.
    unsafe { (*(p as *const Cell<u64>)).get() }
}
fn st<R>(f: impl FnOnce(&mut St) -> R) -> R {
    let _s = Suspend::new();
    ST.with(|s| f(&mut s.borrow_mut()))
}
fn complain(m: String) {
    st(|s| {
        if s.bad.len() < 3 {
            s.bad.push(m);
        }
    });
}

#[derive(Debug, Clone, Copy, PartialEq)]
struct RErr(u64);
#[derive(Debug, Clone, Copy, PartialEq)]
enum Fin {
    Recur(u64),
    Limit,
}
impl From<RErr> for Fin {
    fn from(e: RErr) -> Self {
        Fin::Recur(e.0)
    }
}
impl From<LimitReached> for Fin {
    fn from(_: LimitReached) -> Self {
        Fin::Limit
    }
}
impl From<Infallible> for Fin {
    fn from(e: Infallible) -> Self {
        match e {}
    }
}
impl From<RErr> for PrecheckError<Fin> {
    fn from(e: RErr) -> Self {
        PrecheckError::RecurError(e.into())
    }
}
impl From<RErr> for InterleaveError<Fin> {
    fn from(e: RErr) -> Self {
        InterleaveError(e.into())
    }
}

type It<'a, K> = CounterpartsResult<MN<'a, K>>;
/// `H`: its error type is that of the comparison (so it can recur on the call stack).
struct Rx<'a, K: Kind, const H: bool> {
    pend: Vec<It<'a, K>>,
    iters: Vec<(Watch, EdgesIter<MN<'a, K>>)>,
    serial: u64,
}
/// What an edges iterator must give.
#[derive(Clone)]
struct Watch {
    pos: u64,
    a: u32,
    b: u32,
    i: usize,
    done: bool,
    nth: bool,
}
impl<'a, K: Kind, const H: bool> Default for Rx<'a, K, H> {
    fn default() -> Self {
        let serial = st(|s| {
            s.made += 1;
            s.made
        });
        Rx { pend: Vec::new(), iters: Vec::new(), serial }
    }
}
/// Pulls one item and checks it.
fn pull<'a, K: Kind>(w: &mut Watch, it: &mut EdgesIter<MN<'a, K>>, cx: &Cx<'_>) -> Option<It<'a, K>> {
    let cap = <K::I as Ix>::cap();
    let (da, db) = (cx.g.deg(w.a).min(cap), cx.g.deg(w.b).min(cap));
    let left = if w.done { 0 } else { da.min(db).saturating_sub(w.i) + usize::from(da != db) };
    let (lo, hi) = it.size_hint();
    if lo > left || hi.is_some_and(|h| h < left) {
        complain(format!("edges iterator of objects {} and {}: size_hint gives {lo} to {hi:?} with {left} items left", w.a, w.b));
    }
    let before = cx.n_edge.get();
    let x = if w.nth { it.nth(0) } else { it.next() };
    let asked = cx.n_edge.get() - before;
    if asked > 2 {
        complain(format!("one next() of the edges iterator called get_edge {asked} times"));
    }
    judge_item::<K>(w, x, cx)
}
fn judge_item<'a, K: Kind>(w: &mut Watch, x: Option<It<'a, K>>, cx: &Cx<'_>) -> Option<It<'a, K>> {
    let cap = <K::I as Ix>::cap();
    let (da, db) = (cx.g.deg(w.a).min(cap), cx.g.deg(w.b).min(cap));
    st(|s| s.items += 1);
    let at = format_args!("edges iterator of objects {} and {} at item {}", w.a, w.b, w.i).to_string();
    if w.done {
        if x.is_some() {
            complain(format!("{at}: an item after its end"));
        }
        return None;
    }
    match &x {
        Some(Ok([a, b])) => {
            if w.i >= da.min(db) {
                complain(format!("{at}: a pair where one side has no more edges"));
            } else {
                let (ea, eb) = (cx.g.edge(w.a, w.i).unwrap(), cx.g.edge(w.b, w.i).unwrap());
                let p = childpos(w.pos, w.i as u64);
                if (a.side, a.x, a.pos) != (0, ea, p) || (b.side, b.x, b.pos) != (1, eb, p) {
                    complain(format!("{at}: gave objects {} (side {}) and {} (side {}) instead of {ea} and {eb}", a.x, a.side, b.x, b.side));
                }
            }
            w.i += 1;
        },
        Some(Err(c)) => {
            st(|s| s.edge_errs += 1);
            w.done = true;
            let exp = K::C::from_ord(da.cmp(&db));
            if w.i != da.min(db) || da == db || c.out() != exp.out() {
                complain(format!("{at}: gave Err({c:?}), the amounts of edges are {da} and {db}"));
            }
        },
        None => {
            w.done = true;
            if da != db || w.i != da {
                complain(format!("{at}: ended, the amounts of edges are {da} and {db}"));
            }
        },
    }
    x
}
/// All the items, and that it stays at its end.
fn drain<'a, K: Kind>(w: &mut Watch, mut it: EdgesIter<MN<'a, K>>, cx: &Cx<'_>) -> Vec<It<'a, K>> {
    // Also by other means of iterators than next, which must be consistent with it.
    match mix2(w.pos, u64::from(w.a)) % 8 {
        0 => {
            let v: Vec<_> = it.collect();
            let n = v.len();
            let v: Vec<_> = v.into_iter().filter_map(|x| judge_item::<K>(w, Some(x), cx)).collect();
            if v.len() == n {
                judge_item::<K>(w, None, cx);
            }
            return v;
        },
        1 => {
            let mut v = Vec::new();
            it.for_each(|x| v.extend(judge_item::<K>(w, Some(x), cx)));
            judge_item::<K>(w, None, cx);
            return v;
        },
        2 => w.nth = true,
        _ => (),
    }
    let mut v = Vec::new();
    while let Some(x) = pull(w, &mut it, cx) {
        v.push(x);
        if v.len() > cx.g.deg(w.a).max(cx.g.deg(w.b)) + 3 {
            complain("an edges iterator goes on for ever".into());
            break;
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            complain(format!("edges iterator of objects {} and {}: an item after its end", w.a, w.b));
        }
    }
    v
}
fn cmp_of<C: Cmp>(o: i8) -> C {
    C::from_ord(o.cmp(&0))
}
enum Begun<C> {
    Go(u64),
    Cmp(C),
    Err(RErr),
}
fn begin<C: Cmp>() -> Begun<C> {
    let f = CFG.with(Cell::get).fault;
    let c = calls();
    st(|s| {
        let k = s.recurs;
        s.recurs += 1;
        if s.failed.is_some() && s.bad.len() < 3 {
            s.bad.push("recur called after the end was given".into());
        }
        match f {
            Fault::RecurErr(n) if n == k => {
                s.failed = Some(c);
                Begun::Err(RErr(k))
            },
            Fault::RecurCmp(n, o) if n == k => {
                s.failed = Some(c);
                Begun::Cmp(cmp_of(o))
            },
            _ => Begun::Go(k),
        }
    })
}
fn watch_of<'a, K: Kind>(cx: &Cx<'a>) -> Watch {
    // The pair whose edges are to be recurred on is the one visited last.
    let l = *cx.visits.borrow().last().expect("a pair was visited");
    let _ = PhantomData::<K>;
    Watch { pos: l.pos, a: l.a, b: l.b, i: 0, done: false, nth: false }
}
thread_local! { static CX: Cell<usize> = const { Cell::new(0) }; }
fn the_cx<'a>() -> &'a Cx<'a> {
    // SAFETY: set by the runners for the duration of a comparison.
    unsafe { &*(CX.with(Cell::get) as *const Cx<'a>) }
}
impl<'a, K: Kind, const H: bool> Rx<'a, K, H> {
    fn save(&mut self, it: EdgesIter<MN<'a, K>>) {
        let _s = Suspend::new();
        let cx = the_cx();
        let mut w = watch_of::<K>(cx);
        let style = CFG.with(Cell::get).style;
        match style {
            Style::KeepOld | Style::KeepNew | Style::KeepRandom => self.iters.push((w, it)),
            _ => {
                let mut v = drain(&mut w, it, cx);
                if style == Style::Lifo {
                    v.reverse();
                }
                self.pend.extend(v);
            },
        }
    }
    fn supply(&mut self) -> Option<It<'a, K>> {
        let _s = Suspend::new();
        let cfg = CFG.with(Cell::get);
        let c = calls();
        let k = st(|s| {
            let k = s.nexts;
            s.nexts += 1;
            s.last_next_none = false;
            if s.failed.is_some() && s.bad.len() < 3 {
                s.bad.push("next called after the end was given".into());
            }
            k
        });
        if let Fault::NextCmp(n, o) = cfg.fault {
            if n == k {
                st(|s| s.failed = Some(c));
                return Some(Err(cmp_of(o)));
            }
        }
        let r = mix2(cfg.seed, k) as usize;
        while !self.iters.is_empty() {
            let n = self.iters.len();
            let i = match cfg.style {
                Style::KeepOld => 0,
                Style::KeepNew => n - 1,
                _ => r % n,
            };
            let (w, it) = &mut self.iters[i];
            match pull(w, it, the_cx()) {
                Some(x) => return Some(x),
                None => drop(self.iters.remove(i)),
            }
        }
        if self.pend.is_empty() {
            st(|s| s.last_next_none = true);
            return None;
        }
        let n = self.pend.len();
        Some(match cfg.style {
            Style::Lifo => self.pend.pop().unwrap(),
            Style::Random | Style::Hybrid => self.pend.swap_remove(r % n),
            _ => self.pend.remove(0),
        })
    }
    fn reset_it(mut self) -> Self {
        let _s = Suspend::new();
        st(|s| s.resets += 1);
        self.pend.clear();
        self.iters.clear();
        self
    }
}
impl<'a, K: Kind, E> RecurMode<E> for Rx<'a, K, false>
where
    E: equiv::Params<Node = MN<'a, K>, RecurMode = Self>,
    RErr: Into<E::Error>,
{
    type Error = RErr;
    fn recur(it: &mut Equiv<E>, edges_iter: EdgesIter<E::Node>) -> Result<K::C, RErr> {
        match begin() {
            Begun::Err(e) => return Err(e),
            Begun::Cmp(c) => return Ok(c),
            Begun::Go(_) => (),
        }
        it.recur_mode.save(edges_iter);
        Ok(Cmp::new_equiv())
    }
    fn next(&mut self) -> Option<CounterpartsResult<E::Node>> {
        self.supply()
    }
    fn reset(self) -> Self {
        self.reset_it()
    }
}
impl<'a, K: Kind, E> RecurMode<E> for Rx<'a, K, true>
where
    E: equiv::Params<Node = MN<'a, K>, RecurMode = Self>,
    RErr: Into<E::Error>,
{
    type Error = E::Error;
    fn recur(it: &mut Equiv<E>, mut edges_iter: EdgesIter<E::Node>) -> Result<K::C, E::Error> {
        let k = match begin() {
            Begun::Err(e) => return Err(e.into()),
            Begun::Cmp(c) => return Ok(c),
            Begun::Go(k) => k,
        };
        let cfg = CFG.with(Cell::get);
        let cx = the_cx();
        match cfg.style {
            Style::Now => {
                let mut w = watch_of::<K>(cx);
                while let Some(x) = pull(&mut w, &mut edges_iter, cx) {
                    match x {
                        Err(c) => return Ok(c),
                        Ok([a, b]) => {
                            let c = it.equiv_main(a, b)?;
                            if !c.is_equiv() {
                                return Ok(c);
                            }
                        },
                    }
                }
            },
            Style::Reverse | Style::Hybrid => {
                let mut w = watch_of::<K>(cx);
                let v = {
                    let _s = Suspend::new();
                    let mut v = drain(&mut w, edges_iter, cx);
                    v.reverse();
                    v
                };
                for (i, x) in v.into_iter().enumerate() {
                    if cfg.style == Style::Hybrid && mix2(cfg.seed ^ k, i as u64) % 2 == 0 {
                        let _s = Suspend::new();
                        it.recur_mode.pend.push(x);
                        continue;
                    }
                    match x {
                        Err(c) => return Ok(c),
                        Ok([a, b]) => {
                            let c = it.equiv_main(a, b)?;
                            if !c.is_equiv() {
                                return Ok(c);
                            }
                        },
                    }
                }
            },
            _ => it.recur_mode.save(edges_iter),
        }
        Ok(Cmp::new_equiv())
    }
    fn next(&mut self) -> Option<CounterpartsResult<E::Node>> {
        self.supply()
    }
    fn reset(self) -> Self {
        self.reset_it()
    }
}

// -- instantiations -------------------------------------------------------------------------------

struct AU<N, const H: bool>(PhantomData<N>);
struct AL<N, const H: bool>(PhantomData<N>);
struct AI<N, const H: bool, const P: u16, const F: u16, const S: u16>(PhantomData<N>);
struct AP<N, const H: bool, const P: u16, const F: u16, const S: u16>(PhantomData<N>);
macro_rules! inst {
    ($h:literal) => {
        impl<'a, K: Kind> equiv::Params for AU<MN<'a, K>, $h> {
            type Node = MN<'a, K>;
            type DescendMode = Unlimited;
            type RecurMode = Rx<'a, K, $h>;
            type Error = Fin;
        }
        impl<'a, K: Kind> equiv::Params for AL<MN<'a, K>, $h> {
            type Node = MN<'a, K>;
            type DescendMode = Limited<u32>;
            type RecurMode = Rx<'a, K, $h>;
            type Error = Fin;
        }
        impl<'a, K: Kind, const P: u16, const F: u16, const S: u16> equiv::Params for AI<MN<'a, K>, $h, P, F, S> {
            type Node = MN<'a, K>;
            type DescendMode = Interleave<IP<MN<'a, K>, P, F, S>>;
            type RecurMode = Rx<'a, K, $h>;
            type Error = Fin;
        }
        impl<'a, K: Kind, const P: u16, const F: u16, const S: u16> precheck_interleave::Params<MN<'a, K>> for AP<MN<'a, K>, $h, P, F, S> {
            type PrecheckRecurMode = Rx<'a, K, $h>;
            type InterleaveRecurMode = Rx<'a, K, $h>;
            type InterleaveParams = IP<MN<'a, K>, P, F, S>;
            type Error = Fin;
        }
    };
}
inst!(false);
inst!(true);

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Unlimited,
    Limited(u32),
    Interleave(u8),
    Precheck(u8),
    /// A limited comparison first, then its recursion mode is converted for an interleave.
    Convert(u32, u8),
}
/// Of `CONSTS`.
const CS: [u8; 4] = [2, 4, 7, 10];

fn go<'a, K: Kind>(how: How, h: bool, a: MN<'a, K>, b: MN<'a, K>) -> Result<K::C, Fin> {
    macro_rules! c {
        ($c:expr, $t:ident, $h:literal, |$p:ident| $e:expr) => {
            match $c {
                2 => { type $p<'a, K> = $t<MN<'a, K>, $h, 1, 0, 1>; $e },
                4 => { type $p<'a, K> = $t<MN<'a, K>, $h, 2, 3, 2>; $e },
                7 => { type $p<'a, K> = $t<MN<'a, K>, $h, 7, 14, 2>; $e },
                _ => { type $p<'a, K> = $t<MN<'a, K>, $h, 64, 128, 6>; $e },
            }
        };
    }
    macro_rules! conv {
        ($l:expr, $p:ty, $h:literal) => {{
            let mut e = Equiv::<AL<MN<'a, K>, $h>>::new(Limited($l));
            let r = e.equiv(a.clone(), b.clone());
            if let Err(Fin::Limit) = r {
                let serial = e.recur_mode.serial;
                let n0 = st(|s| s.resets);
                let mut f: Equiv<$p> = if $l % 2 == 0 { e.into() } else { Equiv::<$p>::from(e) };
                if st(|s| s.resets) <= n0 {
                    complain("the recursion mode was not reset by the conversion".into());
                }
                if f.recur_mode.serial != serial || !f.recur_mode.pend.is_empty() || !f.recur_mode.iters.is_empty() {
                    complain("the conversion did not carry over what reset() returned".into());
                }
                f.equiv(a, b)
            } else {
                r
            }
        }};
    }
    if h {
        match how {
            How::Unlimited => Equiv::<AU<MN<'a, K>, true>>::default().equiv(a, b),
            How::Limited(l) => Equiv::<AL<MN<'a, K>, true>>::new(Limited(l)).equiv(a, b),
            How::Interleave(c) => c!(c, AI, true, |X| Equiv::<X<'a, K>>::default().equiv(a, b)),
            How::Precheck(c) => c!(c, AP, true, |X| precheck_interleave::equiv::<_, X<'a, K>>(a, b)),
            How::Convert(l, c) => c!(c, AI, true, |X| conv!(l, X<'a, K>, true)),
        }
    } else {
        match how {
            How::Unlimited => Equiv::<AU<MN<'a, K>, false>>::default().equiv(a, b),
            How::Limited(l) => Equiv::<AL<MN<'a, K>, false>>::new(Limited(l)).equiv(a, b),
            How::Interleave(c) => c!(c, AI, false, |X| Equiv::<X<'a, K>>::default().equiv(a, b)),
            How::Precheck(c) => c!(c, AP, false, |X| precheck_interleave::equiv::<_, X<'a, K>>(a, b)),
            How::Convert(l, c) => c!(c, AI, false, |X| conv!(l, X<'a, K>, false)),
        }
    }
}

/// Judges one comparison with the scripted mode; gives the numbers of calls of recur and next.
fn one<K: Kind>(case: &Case, how: How, h: bool, cfg: Cfg, equal: bool, budget: u64, cov: &mut Cov) -> (u64, u64) {
    CFG.with(|c| c.set(cfg));
    ST.with(|s| *s.borrow_mut() = St::default());
    let err = Cell::new(None);
    let total = Cell::new(0u64);
    let call = |a: MN<'_, K>, b: MN<'_, K>| {
        let cx = a.cx;
        CALLS.with(|c| c.set(&cx.calls as *const Cell<u64> as usize));
        CX.with(|c| c.set(cx as *const Cx<'_> as usize));
        let r = go::<K>(how, h, a, b);
        total.set(cx.calls.get());
        CALLS.with(|c| c.set(0));
        r.map_err(|e| {
            err.set(Some(e));
            Limit
        })
    };
    let rep = run_with::<K>(case, &call, &Opt { budget, maxrec: 4_000_000, ..Opt::default() });
    CALLS.with(|c| c.set(0));
    let s = ST.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let mut bad = s.bad.clone();
    let lv = K::C::LV;
    match (&rep.end, s.failed, cfg.fault) {
        (End1::Limit, Some(c), Fault::RecurErr(k)) => {
            if err.get() != Some(Fin::Recur(k)) {
                bad.push(format!("the error returned is {:?}, the one given was {k}", err.get()));
            }
            if total.get() != c {
                bad.push(format!("{} callbacks of nodes after recur gave an error", total.get() - c));
            }
        },
        (End1::Ok(o), Some(c), Fault::RecurCmp(_, x) | Fault::NextCmp(_, x)) => {
            if !agree(lv, *o, Outcome::Edges { ord: x }) {
                bad.push(format!("gave {o:?}, the recursion mode had given ordering {x}"));
            }
            if total.get() != c {
                bad.push(format!("{} callbacks of nodes after the recursion mode gave an inequivalent value", total.get() - c));
            }
        },
        (End1::Ok(o), None, _) => {
            if (*o == Outcome::Equal) != equal {
                bad.push(format!("gave {o:?}, the graphs are {}", if equal { "equal" } else { "different" }));
            } else if equal {
                if !s.last_next_none {
                    bad.push("returned equivalence although next had not given None".into());
                }
            } else if !rep.overflow {
                let cap = <K::I as Ix>::cap();
                let ok = match *o {
                    Outcome::Val { ord, a, b } => rep.visits.last().is_some_and(|v| (v.a, v.b) == (a, b)) && cmpval(case.g.val[a as usize], case.g.val[b as usize]) == ord,
                    Outcome::Edges { ord } if lv == 2 => rep.visits.iter().any(|v| case.g.deg(v.a).min(cap).cmp(&case.g.deg(v.b).min(cap)) as i8 == ord),
                    _ => true,
                };
                if !ok {
                    bad.push(format!("gave {o:?}, which is not the value of a difference it met"));
                }
            }
        },
        (End1::Limit, None, _) => {
            let ok = err.get() == Some(Fin::Limit) && matches!(how, How::Limited(_));
            if !ok {
                bad.push(format!("gave the error {:?} without one being due", err.get()));
            } else if let How::Limited(l) = how {
                if rep.nvis != u64::from(l) {
                    bad.push(format!("limit {l} reached after {} pairs", rep.nvis));
                }
            }
        },
        (e, f, _) => bad.push(format!("gave {} (fault given: {})", end_text(e), f.is_some())),
    }
    if let How::Precheck(_) = how {
        if rep.roots.len() > 1 && s.resets == 0 {
            bad.push("the recursion mode was not reset before the interleave".into());
        }
    }
    bad.extend(rep.errs.iter().cloned());
    if rep.live_left != 0 {
        bad.push(format!("{} node objects left", rep.live_left));
    }
    cov.add("recur_calls", s.recurs);
    cov.add("next_calls", s.nexts);
    cov.add("edges_iterator_items", s.items);
    cov.add("edges_iterator_errs", s.edge_errs);
    cov.add("resets", s.resets);
    cov.add("pairs_visited", rep.nvis);
    if s.failed.is_some() {
        cov.add("faults_given", 1);
    }
    let sig = mix2(case.hash(), mix2(format!("{how:?}{h}{cfg:?}").bytes().fold(3, |h, b| mix2(h, u64::from(b))), u64::from(lv)));
    cov.eval((s.recurs > 0).then_some(sig));
    cov.sample(|| format!("{how:?} {cfg:?} on {} -> {}", case.dump(5), end_text(&rep.end)));
    for b in bad {
        cov.vio(format!("custom recursion mode {cfg:?} own-error={} {how:?}: {b}: {}", !h, case.dump(60)));
    }
    (s.recurs, s.nexts)
}
fn family<K: Kind>(r: &mut Rng, n: u64, most: u64, cov: &mut Cov) {
    let cap = <K::I as Ix>::cap();
    let how;
    let case;
    let bound;
    set_rng(rng_cfg(r));
    match r.below(5) {
        0 | 1 => {
            let (c, v) = acyc_case(r, n, 3000);
            case = c;
            if r.chance(1, 2) {
                how = How::Unlimited;
                // (In another order it may visit more before the first difference.)
                bound = None;
                if hk_equal(&case, cap) {
                    let _ = v;
                } else {
                    // Only bounded by the whole unfolding: keep it small.
                    let s = unfold_size(&case, 200_000);
                    if s.is_none() {
                        return;
                    }
                }
            } else {
                how = How::Limited(r.below(60) as u32);
                bound = Some(100);
            }
        },
        k => {
            case = cyc_case(r, n);
            let c = *r.pick(&CS);
            how = match k {
                2 => How::Interleave(c),
                3 => How::Precheck(c),
                _ => How::Convert(r.below(40) as u32, c),
            };
            bound = Some(safe_bound(&case, Alg::GI(Rm::Q, c)) + 500);
        },
    }
    let equal = hk_equal(&case, cap);
    let budget = budget_for(bound.unwrap_or(400_000)).saturating_mul(2);
    if bound.is_some_and(|b| b > 400_000) {
        return;
    }
    let h = r.chance(1, 2);
    let style = loop {
        let s = *r.pick(&STYLES);
        if h || !matches!(s, Style::Hybrid | Style::Reverse | Style::Now) {
            break s;
        }
    };
    let base = Cfg { style, seed: r.next(), fault: Fault::No };
    let (nr, nn) = one::<K>(&case, how, h, base, equal, budget, cov);
    if nr + nn > 5_000 {
        return;
    }
    let pts = |n: u64, r: &mut Rng| -> Vec<u64> {
        if n <= most {
            (0..n).collect()
        } else {
            (0..most).map(|_| r.below(n)).chain([n - 1]).collect()
        }
    };
    for k in pts(nr, r) {
        one::<K>(&case, how, h, Cfg { fault: Fault::RecurErr(k), ..base }, equal, budget, cov);
        let o = if r.chance(1, 2) { 1 } else { -1 };
        one::<K>(&case, how, h, Cfg { fault: Fault::RecurCmp(k, o), ..base }, equal, budget, cov);
    }
    for k in pts(nn, r) {
        let o = if r.chance(1, 2) { 1 } else { -1 };
        one::<K>(&case, how, h, Cfg { fault: Fault::NextCmp(k, o), ..base }, equal, budget, cov);
    }
}
fn unfold_size(case: &Case, cap: usize) -> Option<usize> {
    let mut n = 0;
    let mut st = vec![case.ra];
    while let Some(x) = st.pop() {
        n += 1;
        if n > cap {
            return None;
        }
        st.extend_from_slice(case.g.edges(x));
    }
    Some(n)
}

// -- the premade modes through the public conversion ----------------------------------------------

struct CvF<N, R>(PhantomData<(N, R)>);
struct CvT<N, R>(PhantomData<(N, R)>);
struct Cap<N>(PhantomData<N>);
impl<N: Node> queue::Params for Cap<N> {
    type Node = N;
}
impl<N: Node> stack::Params for Cap<N> {
    type Node = N;
}
macro_rules! cv {
    ($f:ty, $t:ty) => {
        impl<'a, K: Kind> equiv::Params for CvF<MN<'a, K>, ($f, $t)> {
            type Node = MN<'a, K>;
            type DescendMode = Limited<u64>;
            type RecurMode = $f;
            type Error = Fin;
        }
        impl<'a, K: Kind> equiv::Params for CvT<MN<'a, K>, ($f, $t)> {
            type Node = MN<'a, K>;
            type DescendMode = Interleave<IP<MN<'a, K>, 7, 14, 2>>;
            type RecurMode = $t;
            type Error = Fin;
        }
    };
}
type Qu<'a, K> = RecurQueue<Cap<MN<'a, K>>>;
type Sk<'a, K> = RecurStack<Cap<MN<'a, K>>>;
cv!(CallStack, CallStack);
cv!(Qu<'a, K>, Qu<'a, K>);
cv!(Sk<'a, K>, Sk<'a, K>);
cv!(CallStack, Qu<'a, K>);
cv!(CallStack, Sk<'a, K>);

fn converted<K: Kind>(r: &mut Rng, n: u64, cov: &mut Cov) {
    let case = cyc_case(r, n);
    let which = r.below(5);
    let limit = r.below(50);
    set_rng(rng_cfg(r));
    let bound = safe_bound(&case, Alg::GI(Rm::Q, 7)) + limit;
    if bound > 400_000 {
        return;
    }
    let bad: RefCell<Vec<String>> = RefCell::default();
    let roots = Cell::new(0);
    let call = |a: MN<'_, K>, b: MN<'_, K>| {
        fn f<'a, K: Kind, X, Y>(limit: u64, a: MN<'a, K>, b: MN<'a, K>, bad: &RefCell<Vec<String>>, roots: &Cell<u32>) -> Result<K::C, Fin>
        where
            X: equiv::Params<Node = MN<'a, K>, DescendMode = Limited<u64>, Error = Fin>,
            Y: equiv::Params<Node = MN<'a, K>, DescendMode = Interleave<IP<MN<'a, K>, 7, 14, 2>>, Error = Fin>,
            X::RecurMode: Into<Y::RecurMode>,
        {
            let mut e = Equiv::<X>::new(Limited(limit));
            match e.equiv(a.clone(), b.clone()) {
                Err(Fin::Limit) => {
                    roots.set(1);
                    let mut t: Equiv<Y> = if limit % 2 == 0 { e.into() } else { Equiv::from(e) };
                    if <Y::RecurMode as RecurMode<Y>>::next(&mut t.recur_mode).is_some() {
                        bad.borrow_mut().push("something was left in the recursion mode after the conversion".into());
                    }
                    t.equiv(a, b)
                },
                x => x,
            }
        }
        (match which {
            0 => f::<K, CvF<_, (CallStack, CallStack)>, CvT<_, (CallStack, CallStack)>>(limit, a, b, &bad, &roots),
            1 => f::<K, CvF<_, (Qu<'_, K>, Qu<'_, K>)>, CvT<_, (Qu<'_, K>, Qu<'_, K>)>>(limit, a, b, &bad, &roots),
            2 => f::<K, CvF<_, (Sk<'_, K>, Sk<'_, K>)>, CvT<_, (Sk<'_, K>, Sk<'_, K>)>>(limit, a, b, &bad, &roots),
            3 => f::<K, CvF<_, (CallStack, Qu<'_, K>)>, CvT<_, (CallStack, Qu<'_, K>)>>(limit, a, b, &bad, &roots),
            _ => f::<K, CvF<_, (CallStack, Sk<'_, K>)>, CvT<_, (CallStack, Sk<'_, K>)>>(limit, a, b, &bad, &roots),
        })
        .map_err(|_| Limit)
    };
    let rep = run_with::<K>(&case, &call, &Opt { budget: budget_for(bound), ..Opt::default() });
    let equal = hk_equal(&case, <K::I as Ix>::cap());
    let mut bad = bad.into_inner();
    match &rep.end {
        End1::Ok(o) if (*o == Outcome::Equal) == equal => (),
        e => bad.push(format!("gave {}, the graphs are {}", end_text(e), if equal { "equal" } else { "different" })),
    }
    bad.extend(rep.errs.iter().cloned());
    cov.add("conversions", u64::from(roots.get()));
    cov.eval((roots.get() == 1).then_some(mix2(case.hash(), mix2(which, limit))));
    for b in bad {
        cov.vio(format!("conversion {which} after limit {limit}: {b}: {}", case.dump(60)));
    }
}

// -- custom tables, pointers and generators -------------------------------------------------------

/// Shared ownership by index into nothing: a box that is never freed while any clone lives.
struct MyRc(*mut (Cell<u32>, Cell<Class<MyRc>>));
impl Clone for MyRc {
    fn clone(&self) -> Self {
        let c = unsafe { &(*self.0).0 };
        c.set(c.get() + 1);
        MyRc(self.0)
    }
}
impl Drop for MyRc {
    fn drop(&mut self) {
        unsafe {
            let c = &(*self.0).0;
            c.set(c.get() - 1);
            if c.get() == 0 {
                drop(Box::from_raw(self.0));
                LIVE_RC.with(|l| l.set(l.get() - 1));
            }
        }
    }
}
thread_local! { static LIVE_RC: Cell<i64> = const { Cell::new(0) }; }
impl Deref for MyRc {
    type Target = Cell<Class<MyRc>>;
    fn deref(&self) -> &Self::Target {
        unsafe { &(*self.0).1 }
    }
}
impl equiv_classes::Rc for MyRc {
    fn new(v: Cell<Class<Self>>) -> Self {
        LIVE_RC.with(|l| l.set(l.get() + 1));
        MyRc(Box::into_raw(Box::new((Cell::new(1), v))))
    }
}
/// A table without hashing: a list.
struct ListTable<N: Node>(Vec<(N::Id, MyRc)>);
impl<N: Node> Default for ListTable<N> {
    fn default() -> Self {
        ListTable(Vec::new())
    }
}
impl<N: Node> equiv_classes::Table for ListTable<N> {
    type Node = N;
    type Rc = MyRc;
    fn get(&self, k: &N::Id) -> Option<&MyRc> {
        self.0.iter().find(|(x, _)| x == k).map(|(_, c)| c)
    }
    fn insert(&mut self, k: N::Id, v: MyRc) {
        self.0.push((k, v));
    }
}
/// A table that keys by a lossless number of the id.
struct TreeTable<N: Node>(BTreeMap<usize, MyRc>, Vec<N::Id>);
impl<N: Node> Default for TreeTable<N> {
    fn default() -> Self {
        TreeTable(BTreeMap::new(), Vec::new())
    }
}
impl<N: Node> TreeTable<N> {
    fn num(&self, k: &N::Id) -> Option<usize> {
        self.1.iter().position(|x| x == k)
    }
}
impl<N: Node> equiv_classes::Table for TreeTable<N> {
    type Node = N;
    type Rc = MyRc;
    fn get(&self, k: &N::Id) -> Option<&MyRc> {
        self.0.get(&self.num(k)?)
    }
    fn insert(&mut self, k: N::Id, v: MyRc) {
        let n = self.num(&k).unwrap_or_else(|| {
            self.1.push(k);
            self.1.len() - 1
        });
        self.0.insert(n, v);
    }
}
/// Ignores the bound's meaning except that it stays below it.
#[derive(Default)]
struct Saw(u16);
impl NumberGenerator for Saw {
    fn rand_upto(&mut self, e: NonZeroU16) -> u16 {
        self.0 = self.0.wrapping_add(7);
        self.0 % e
    }
}
struct CT<N, T>(PhantomData<(N, T)>);
impl<N: Node, T: equiv_classes::Table<Node = N>> interleave::Params for CT<N, T> {
    const PRECHECK_LIMIT: u16 = 12;
    const FAST_LIMIT_MAX: u16 = 5;
    const SLOW_LIMIT: u16 = 2;
    type Node = N;
    type Table = T;
    type RNG = Saw;
}
struct CE<N, T, R>(PhantomData<(N, T, R)>);
macro_rules! ce {
    ($t:ident, $r:ty) => {
        impl<'a, K: Kind> equiv::Params for CE<MN<'a, K>, $t<MN<'a, K>>, $r> {
            type Node = MN<'a, K>;
            type DescendMode = Interleave<CT<MN<'a, K>, $t<MN<'a, K>>>>;
            type RecurMode = $r;
            type Error = Infallible;
        }
    };
}
ce!(ListTable, CallStack);
ce!(ListTable, Qu<'a, K>);
ce!(TreeTable, Sk<'a, K>);
fn tables<K: Kind>(r: &mut Rng, n: u64, cov: &mut Cov) {
    let case = cyc_case(r, n);
    let which = r.below(3);
    let (b, d) = case.branch_stats();
    let bound = visit_bound(b, d, 5, 2);
    if bound > 400_000 {
        return;
    }
    LIVE_RC.with(|l| l.set(0));
    let call = |a: MN<'_, K>, b: MN<'_, K>| {
        (match which {
            0 => Equiv::<CE<_, ListTable<MN<'_, K>>, CallStack>>::default().equiv(a, b),
            1 => Equiv::<CE<_, ListTable<MN<'_, K>>, Qu<'_, K>>>::default().equiv(a, b),
            _ => Equiv::<CE<_, TreeTable<MN<'_, K>>, Sk<'_, K>>>::default().equiv(a, b),
        })
        .map_err(|e| match e {})
    };
    let rep = run_with::<K>(&case, &call, &Opt { budget: budget_for(bound), ..Opt::default() });
    let equal = hk_equal(&case, <K::I as Ix>::cap());
    let mut bad = rep.errs.clone();
    match &rep.end {
        End1::Ok(o) if (*o == Outcome::Equal) == equal => (),
        e => bad.push(format!("gave {}, the graphs are {}", end_text(e), if equal { "equal" } else { "different" })),
    }
    let left = LIVE_RC.with(Cell::get);
    if left != 0 {
        bad.push(format!("{left} equivalence-class objects left"));
    }
    if rep.n_hash != 0 {
        bad.push(format!("ids hashed {} times although the table does not hash", rep.n_hash));
    }
    cov.add("custom_table_comparisons", 1);
    cov.eval((b > 1).then_some(mix2(case.hash(), 99 + which)));
    for b in bad {
        cov.vio(format!("custom table {which}: {b}: {}", case.dump(60)));
    }
}

fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    let (n, reps, most) = match j.part {
        0 => (9, 120, 60),
        1 => (60, 25, 12),
        _ => (40, 300, 0),
    };
    for _ in 0..reps {
        if j.part == 2 {
            match r.below(2) {
                0 => converted::<KRich>(r, n, cov),
                _ => tables::<KBool>(r, n, cov),
            }
        } else {
            match r.below(3) {
                0 => family::<KOrd>(r, n, most, cov),
                1 => family::<KBool>(r, n, most, cov),
                _ => family::<KRich>(r, n, most, cov),
            }
        }
    }
}
static PLAN: Plan = Plan {
    prop: "C14",
    rule: "a distinct (pair of graphs, custom recursion mode style and seed, injected error or inequivalent value and its call number, descend mode, comparison type) in which the mode was recurred to; or a conversion of a premade mode after an aborted comparison; or a comparison of graphs with branches through a custom table",
    parts: &[(120, 8_000), (80, 6_000), (40, 2_000)],
    stack: 1 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
