//! The monitored node type: the real code under test runs on it, and every callback is observed.
use crate::graph::*;
use crate::util::{sp, Suspend};
use graph_safe_compare::{utils::RefId, Cmp, Node, Step};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

/// Panic payload: more callbacks happened than the documented algorithm can ever need.
pub struct Budget;
/// Panic payload: a fault injected on purpose.
pub struct Injected;

pub struct Cx<'g> {
    pub g: &'g Graph,
    pub rec: bool,
    pub maxrec: usize,
    pub badhash: u8,
    pub fault_at: u64,
    pub budget: u64,
    pub stack_cap: usize,
    pub visits: RefCell<Vec<PV>>,
    pub overflow: Cell<bool>,
    pub roots: RefCell<Vec<usize>>,
    pub nvis: Cell<u64>,
    pend: Cell<Option<(u8, u64, u32)>>,
    last: Cell<(u64, bool)>,
    pub calls: Cell<u64>,
    pub n_id: Cell<u64>,
    pub n_emo: Cell<u64>,
    pub n_edge: Cell<u64>,
    pub n_hash: Cell<u64>,
    pub live: Cell<i64>,
    pub live_peak: Cell<i64>,
    pub live_ids: Cell<i64>,
    pub ids_peak: Cell<i64>,
    pub sp_base: Cell<usize>,
    pub sp_min: Cell<usize>,
    pub errs: RefCell<Vec<String>>,
    pub touched: RefCell<Vec<u32>>,
    /// Called at each callback, with its number.
    pub hook: Option<&'g dyn Fn(u64)>,
}
impl<'g> Cx<'g> {
    pub fn new(g: &'g Graph) -> Self {
        Cx {
            g,
            rec: true,
            maxrec: 1_000_000,
            badhash: 0,
            fault_at: u64::MAX,
            budget: u64::MAX,
            stack_cap: usize::MAX,
            visits: RefCell::default(),
            overflow: Cell::new(false),
            roots: RefCell::default(),
            nvis: Cell::new(0),
            pend: Cell::new(None),
            last: Cell::new((0, false)),
            calls: Cell::new(0),
            n_id: Cell::new(0),
            n_emo: Cell::new(0),
            n_edge: Cell::new(0),
            n_hash: Cell::new(0),
            live: Cell::new(0),
            live_peak: Cell::new(0),
            live_ids: Cell::new(0),
            ids_peak: Cell::new(0),
            sp_base: Cell::new(0),
            sp_min: Cell::new(usize::MAX),
            errs: RefCell::default(),
            touched: RefCell::default(),
            hook: None,
        }
    }
    #[cold]
    pub fn err(&self, s: String) {
        let mut e = self.errs.borrow_mut();
        if e.len() < 5 {
            e.push(s);
        }
    }
    #[inline]
    fn tick(&self) {
        let c = self.calls.get();
        self.calls.set(c + 1);
        let s = sp();
        if s < self.sp_min.get() {
            self.sp_min.set(s);
        }
        if c >= self.budget {
            self.stop(c, true);
        }
        if let Some(h) = self.hook {
            h(c);
        }
        if c == self.fault_at {
            self.stop(c, false);
        }
        if self.sp_base.get().saturating_sub(s) > self.stack_cap {
            self.stop(c, true);
        }
    }
    #[cold]
    fn stop(&self, _c: u64, budget: bool) {
        if budget {
            std::panic::panic_any(Budget)
        } else {
            std::panic::panic_any(Injected)
        }
    }
    fn visit_half(&self, side: u8, pos: u64, x: u32) {
        match self.pend.get() {
            None => self.pend.set(Some((side, pos, x))),
            Some((s2, p2, x2)) => {
                if s2 == side || p2 != pos {
                    self.pend.set(Some((side, pos, x)));
                    self.err(format!(
                        "id() of object {x} (side {side}) paired with object {x2} (side {s2}) which is not its counterpart"
                    ));
                    return;
                }
                self.pend.set(None);
                let (a, b) = if side == 1 { (x2, x) } else { (x, x2) };
                self.last.set((pos, self.g.id[a as usize] == self.g.id[b as usize]));
                let k = self.nvis.get();
                self.nvis.set(k + 1);
                if self.rec {
                    let mut v = self.visits.borrow_mut();
                    if v.len() < self.maxrec {
                        if pos == ROOTPOS {
                            self.roots.borrow_mut().push(v.len());
                        }
                        v.push(PV { pos, a, b });
                    } else {
                        self.overflow.set(true);
                    }
                } else if pos == ROOTPOS {
                    self.roots.borrow_mut().push(k as usize);
                }
            },
        }
    }
}

/// Index types.
pub trait Ix: Step + Default + Ord + Clone {
    fn ix(&self) -> usize;
    fn cap() -> usize;
}
macro_rules! ix { ($($t:ty)*) => { $( impl Ix for $t {
    #[inline] fn ix(&self) -> usize { *self as usize }
    fn cap() -> usize { (<$t>::MAX as u128).saturating_add(1).min(usize::MAX as u128) as usize }
} )* } }
ix! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }

/// Comparison types.  `LV`: how much of an outcome the type can tell (0 equality only, 1 which is
/// less, 2 everything).
pub trait CmpK: Cmp + Sized + std::fmt::Debug {
    const LV: u8;
    fn make(ord: i8, a: u32, b: u32) -> Self;
    fn out(&self) -> Outcome;
}
impl CmpK for bool {
    const LV: u8 = 0;
    fn make(ord: i8, _: u32, _: u32) -> Self {
        ord == 0
    }
    fn out(&self) -> Outcome {
        if *self {
            Outcome::Equal
        } else {
            Outcome::Edges { ord: 1 }
        }
    }
}
impl CmpK for Ordering {
    const LV: u8 = 1;
    fn make(ord: i8, _: u32, _: u32) -> Self {
        ord.cmp(&0)
    }
    fn out(&self) -> Outcome {
        match self {
            Ordering::Less => Outcome::Edges { ord: -1 },
            Ordering::Equal => Outcome::Equal,
            Ordering::Greater => Outcome::Edges { ord: 1 },
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Rich(pub Outcome);
impl Cmp for Rich {
    fn new_equiv() -> Self {
        Rich(Outcome::Equal)
    }
    fn is_equiv(&self) -> bool {
        self.0 == Outcome::Equal
    }
    fn from_ord(o: Ordering) -> Self {
        match o {
            Ordering::Less => Rich(Outcome::Edges { ord: -1 }),
            Ordering::Equal => Rich(Outcome::Equal),
            Ordering::Greater => Rich(Outcome::Edges { ord: 1 }),
        }
    }
}
impl CmpK for Rich {
    const LV: u8 = 2;
    fn make(ord: i8, a: u32, b: u32) -> Self {
        Rich(if ord == 0 { Outcome::Equal } else { Outcome::Val { ord, a, b } })
    }
    fn out(&self) -> Outcome {
        self.0
    }
}
pub fn agree(lv: u8, got: Outcome, exp: Outcome) -> bool {
    match lv {
        0 => (got == Outcome::Equal) == (exp == Outcome::Equal),
        1 => got.ord() == exp.ord(),
        _ => got == exp,
    }
}

/// Identity types.
pub trait IdKind {
    type Id<'a>: Eq + Hash + Clone;
    fn mk<'a>(cx: &'a Cx<'a>, logical: u32) -> Self::Id<'a>;
}
pub struct DMon;
pub struct DRef;
pub struct MId<'a> {
    pub v: u32,
    cx: &'a Cx<'a>,
}
impl<'a> MId<'a> {
    pub fn new(cx: &'a Cx<'a>, v: u32) -> Self {
        let l = cx.live_ids.get() + 1;
        cx.live_ids.set(l);
        if l > cx.ids_peak.get() {
            cx.ids_peak.set(l);
        }
        MId { v, cx }
    }
}
impl Clone for MId<'_> {
    fn clone(&self) -> Self {
        MId::new(self.cx, self.v)
    }
}
impl Drop for MId<'_> {
    fn drop(&mut self) {
        self.cx.live_ids.set(self.cx.live_ids.get() - 1);
    }
}
impl PartialEq for MId<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl Eq for MId<'_> {}
impl Hash for MId<'_> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.cx.n_hash.set(self.cx.n_hash.get() + 1);
        match self.cx.badhash {
            0 => h.write_u32(self.v),
            1 => h.write_u32(self.v % 3),
            _ => h.write_u32(0),
        }
    }
}
impl IdKind for DMon {
    type Id<'a> = MId<'a>;
    #[inline]
    fn mk<'a>(cx: &'a Cx<'a>, l: u32) -> MId<'a> {
        MId::new(cx, l)
    }
}
impl IdKind for DRef {
    type Id<'a> = RefId<&'a u64>;
    #[inline]
    fn mk<'a>(cx: &'a Cx<'a>, l: u32) -> RefId<&'a u64> {
        RefId(&cx.g.anchor[l as usize])
    }
}

pub trait Kind: 'static {
    type C: CmpK;
    type I: Ix;
    type D: IdKind;
}
pub struct KK<C, I, D>(PhantomData<(C, I, D)>);
impl<C: CmpK + 'static, I: Ix + 'static, D: IdKind + 'static> Kind for KK<C, I, D> {
    type C = C;
    type I = I;
    type D = D;
}
pub type KRich = KK<Rich, u32, DMon>;
pub type KOrd = KK<Ordering, usize, DRef>;
pub type KBool = KK<bool, u16, DMon>;

pub struct MN<'a, K: Kind> {
    pub cx: &'a Cx<'a>,
    pub x: u32,
    pub side: u8,
    pub pos: u64,
    idc: Cell<bool>,
    hi: Cell<(u32, u8)>,
    none_at: Cell<u32>,
    k: PhantomData<K>,
}
impl<'a, K: Kind> MN<'a, K> {
    #[inline]
    pub fn new(cx: &'a Cx<'a>, x: u32, side: u8, pos: u64) -> Self {
        let l = cx.live.get() + 1;
        cx.live.set(l);
        if l > cx.live_peak.get() {
            cx.live_peak.set(l);
        }
        MN {
            cx,
            x,
            side,
            pos,
            idc: Cell::new(false),
            hi: Cell::new((0, 0)),
            none_at: Cell::new(u32::MAX),
            k: PhantomData,
        }
    }
}
impl<K: Kind> Clone for MN<'_, K> {
    fn clone(&self) -> Self {
        MN::new(self.cx, self.x, self.side, self.pos)
    }
}
impl<K: Kind> Drop for MN<'_, K> {
    #[inline]
    fn drop(&mut self) {
        self.cx.live.set(self.cx.live.get() - 1);
    }
}
impl<'a, K: Kind> Node for MN<'a, K> {
    type Cmp = K::C;
    type Id = <K::D as IdKind>::Id<'a>;
    type Index = K::I;

    fn id(&self) -> Self::Id {
        let cx = self.cx;
        cx.tick();
        let _s = Suspend::new();
        cx.n_id.set(cx.n_id.get() + 1);
        if !self.idc.replace(true) {
            cx.visit_half(self.side, self.pos, self.x);
        }
        K::D::mk(cx, cx.g.id[self.x as usize])
    }
    fn get_edge(&self, index: &K::I) -> Option<Self> {
        let cx = self.cx;
        cx.tick();
        let _s = Suspend::new();
        cx.n_edge.set(cx.n_edge.get() + 1);
        let i = index.ix();
        let (hi, n) = self.hi.get();
        let h = hi as usize;
        if i == h {
            if n >= 2 {
                cx.err(format!("get_edge({i}) called {} times on object {}", n + 1, self.x));
            }
            self.hi.set((hi, n.saturating_add(1)));
        } else if i == h + 1 && n > 0 {
            self.hi.set((i as u32, 1));
        } else {
            cx.err(format!("get_edge({i}) on object {} after index {h} ({n} calls): not incrementing from zero", self.x));
            self.hi.set((i as u32, 1));
        }
        if i > self.none_at.get() as usize {
            cx.err(format!("get_edge({i}) on object {} after it returned None for index {}", self.x, self.none_at.get()));
        }
        let (lp, lid) = cx.last.get();
        if lid && lp == self.pos {
            cx.err(format!("get_edge({i}) on object {} although it and its counterpart are identical", self.x));
        }
        match cx.g.edge(self.x, i) {
            Some(y) => Some(MN::new(cx, y, self.side, childpos(self.pos, i as u64))),
            None => {
                self.none_at.set(self.none_at.get().min(i as u32));
                None
            },
        }
    }
    fn equiv_modulo_edges(&self, other: &Self) -> K::C {
        let cx = self.cx;
        cx.tick();
        let _s = Suspend::new();
        cx.n_emo.set(cx.n_emo.get() + 1);
        if self.side != 0 || other.side != 1 {
            cx.err(format!(
                "equiv_modulo_edges called with self from side {} and other from side {} (objects {}, {})",
                self.side, other.side, self.x, other.x
            ));
        }
        if self.pos != other.pos {
            cx.err(format!("equiv_modulo_edges on objects {} and {} which are not counterparts", self.x, other.x));
        }
        if cx.g.id[self.x as usize] == cx.g.id[other.x as usize] {
            cx.err(format!("equiv_modulo_edges on identical nodes (objects {} and {})", self.x, other.x));
        }
        K::C::make(cmpval(cx.g.val[self.x as usize], cx.g.val[other.x as usize]), self.x, other.x)
    }
}
