//! Driving the interleave mode directly through its public trait, with a counting table and counting
//! shared pointers.
use crate::algs::{TlRng, DRAWS, TOP, TOP_F};
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
use graph_safe_compare::generic::equiv::{self, DescendMode};
use graph_safe_compare::generic::equiv_classes::premade::hash_map;
use graph_safe_compare::generic::equiv_classes::{self, Class};
use graph_safe_compare::Node;
use std::cell::Cell;
use std::collections::HashMap;
use std::convert::Infallible;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::Deref;

thread_local! {
    pub static DEREFS: Cell<u64> = const { Cell::new(0) };
    pub static GETS: Cell<u64> = const { Cell::new(0) };
    pub static INSERTS: Cell<u64> = const { Cell::new(0) };
    pub static HASHES: Cell<u64> = const { Cell::new(0) };
    pub static MADE: Cell<u64> = const { Cell::new(0) };
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    pub static BAD: Cell<u32> = const { Cell::new(0) };
}
fn inc(c: &'static std::thread::LocalKey<Cell<u64>>) {
    c.with(|c| c.set(c.get() + 1));
}
pub fn get(c: &'static std::thread::LocalKey<Cell<u64>>) -> u64 {
    c.with(Cell::get)
}

#[derive(Clone)]
pub struct HId(pub u32);
impl PartialEq for HId {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for HId {}
impl Hash for HId {
    fn hash<H: Hasher>(&self, h: &mut H) {
        inc(&HASHES);
        match BAD.with(Cell::get) {
            0 => h.write_u32(self.0),
            n => h.write_u32(self.0 % n),
        }
    }
}
/// A node that is only an id.
pub struct DN(pub u32);
impl Node for DN {
    type Cmp = bool;
    type Id = HId;
    type Index = u8;
    fn id(&self) -> HId {
        HId(self.0)
    }
    fn get_edge(&self, _: &u8) -> Option<DN> {
        None
    }
    fn equiv_modulo_edges(&self, _: &DN) -> bool {
        true
    }
}
struct Token;
impl Token {
    fn new() -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        inc(&MADE);
        Token
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
pub struct CRc(std::rc::Rc<(Cell<Class<CRc>>, Token)>);
impl Clone for CRc {
    fn clone(&self) -> Self {
        CRc(std::rc::Rc::clone(&self.0))
    }
}
impl Deref for CRc {
    type Target = Cell<Class<CRc>>;
    fn deref(&self) -> &Self::Target {
        inc(&DEREFS);
        &self.0 .0
    }
}
impl equiv_classes::Rc for CRc {
    fn new(v: Cell<Class<Self>>) -> Self {
        CRc(std::rc::Rc::new((v, Token::new())))
    }
}
#[derive(Default)]
pub struct CTab(HashMap<u32, CRc>);
impl equiv_classes::Table for CTab {
    type Node = DN;
    type Rc = CRc;
    fn get(&self, k: &HId) -> Option<&CRc> {
        inc(&GETS);
        self.0.get(&k.0)
    }
    fn insert(&mut self, k: HId, v: CRc) {
        inc(&INSERTS);
        self.0.insert(k.0, v);
    }
}
pub struct HP;
impl hash_map::Params for HP {
    const INITIAL_CAPACITY: usize = 0;
    type Node = DN;
}
pub type PTab = hash_map::Table<HP>;

pub struct Par<T, const P: u16, const F: u16, const S: u16>(PhantomData<T>);
impl<T: equiv_classes::Table<Node = DN>, const P: u16, const F: u16, const S: u16> interleave::Params for Par<T, P, F, S> {
    const PRECHECK_LIMIT: u16 = P;
    const FAST_LIMIT_MAX: u16 = F;
    const SLOW_LIMIT: u16 = S;
    type Node = DN;
    type Table = T;
    type RNG = TlRng;
}
pub struct Args<X>(PhantomData<X>);
impl<X: interleave::Params<Node = DN>> equiv::Params for Args<X> {
    type Node = DN;
    type DescendMode = Interleave<X>;
    type RecurMode = CallStack;
    type Error = Infallible;
}
pub struct Seen {
    pub descend: bool,
    pub gets: u64,
    pub hashes: u64,
    pub derefs: u64,
    pub draws: Vec<(u16, u16)>,
}
/// The mode under test, whatever its parameters.
pub trait Drive {
    fn ask(&mut self, a: u32, b: u32) -> Seen;
}
impl<X: interleave::Params<Node = DN>> Drive for Interleave<X> {
    fn ask(&mut self, a: u32, b: u32) -> Seen {
        let (g, h, d) = (get(&GETS), get(&HASHES), get(&DEREFS));
        DRAWS.with(|d| d.borrow_mut().clear());
        let r = <Interleave<X> as DescendMode<Args<X>>>::do_edges(self, &DN(a), &DN(b));
        let descend = match r {
            Ok(x) => x,
            Err(e) => match e {},
        };
        let draws = DRAWS.with(|d| std::mem::take(&mut *d.borrow_mut()));
        Seen { descend, gets: get(&GETS) - g, hashes: get(&HASHES) - h, derefs: get(&DEREFS) - d, draws }
    }
}
fn reset() {
    for c in [&DEREFS, &GETS, &INSERTS, &HASHES, &MADE] {
        c.with(|c| c.set(0));
    }
}
macro_rules! consts {
    ($($k:literal: ($p:expr, $f:expr, $s:expr),)*) => {
        pub const DC: &[(u16, u16, u16)] = &[$(($p, $f, $s)),*];
        fn make_of<T: equiv_classes::Table<Node = DN> + 'static>(c: usize) -> Box<dyn Drive> {
            match c {
                $( $k => Box::new(Interleave::<Par<T, { $p }, { $f }, { $s }>>::default()) as Box<dyn Drive>, )*
                _ => unreachable!(),
            }
        }
    };
}
consts! {
    0: (400, 800, 40),
    1: (0, 0, 0),
    2: (0, 0, 1),
    3: (1, 1, 1),
    4: (2, 3, 2),
    5: (3, 0, 7),
    6: (7, 100, 1),
    7: (9, 1, 33),
    8: (10, 20, 1),
    9: (5, TOP_F, 3),
    10: (5, TOP_F - 1, 1),
    11: (5, TOP_F / 2, 2),
    12: (5, TOP_F / 2 + 1, 5),
    13: (0, 0, TOP),
}
/// A new one; `premade`: with the premade hash table, else with the counting one.
pub fn make(c: usize, premade: bool) -> Box<dyn Drive> {
    reset();
    if premade {
        make_of::<PTab>(c)
    } else {
        make_of::<CTab>(c)
    }
}
