//! Every type a user can supply, each value of it a token that is counted, each call of it a point
//! where a panic can be injected.
use crate::graph::*;
use crate::util::*;
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::{self, random::NumberGenerator, Interleave};
use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
use graph_safe_compare::generic::equiv::{self, CounterpartsResult, DescendMode, EdgesIter, Equiv, RecurMode};
use graph_safe_compare::generic::equiv_classes::{self, Class};
use graph_safe_compare::generic::precheck_interleave::{self, InterleaveError, PrecheckError};
use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};
use graph_safe_compare::{Cmp, Node, Step};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::convert::Infallible;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::num::NonZeroU16;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const KINDS: [&str; 10] = ["nodes", "ids", "indexes", "results", "generators", "tables", "class handles", "descend modes", "recursion modes", "errors"];

#[derive(Default)]
struct State {
    alive: Vec<bool>,
    live: [i64; 10],
    twice: u64,
    calls: u64,
    fault: u64,
    rng: u64,
    /// After so many calls everything is skipped.
    enough: u64,
}
thread_local! {
    /// Whether values own an allocation each.
    pub static OWNING: Cell<bool> = const { Cell::new(false) };
    static ST: RefCell<State> = RefCell::new(State::default());
}
/// What is thrown, with the number of the call it was thrown in.
pub struct Thrown(u64, &'static str, #[allow(dead_code)] Token<9>);

#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Token<const K: usize>(usize, Option<Box<u32>>);
impl<const K: usize> Token<K> {
    fn new() -> Self {
        let own = OWNING.with(Cell::get).then(|| Box::new(0));
        let _s = Suspend::new();
        ST.with(|s| {
            let s = &mut *s.borrow_mut();
            s.alive.push(true);
            s.live[K] += 1;
            Token(s.alive.len() - 1, own)
        })
    }
}
impl<const K: usize> Drop for Token<K> {
    fn drop(&mut self) {
        let _ = ST.try_with(|s| {
            let s = &mut *s.borrow_mut();
            match s.alive.get_mut(self.0) {
                Some(a) if *a => {
                    *a = false;
                    s.live[K] -= 1;
                },
                _ => s.twice += 1,
            }
        });
    }
}
fn tick(what: &'static str) -> u64 {
    let (c, f) = ST.with(|s| {
        let s = &mut *s.borrow_mut();
        s.calls += 1;
        (s.calls, s.fault)
    });
    if c == f {
        std::panic::resume_unwind(Box::new(Thrown(c, what, Token::new())));
    }
    c
}
fn enough() -> bool {
    ST.with(|s| {
        let s = s.borrow();
        s.calls > s.enough
    })
}
fn rnd(n: u64) -> u64 {
    ST.with(|s| {
        let s = &mut *s.borrow_mut();
        s.rng = s.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(s.rng) % n
    })
}

pub struct Id(u32, Token<1>);
impl Clone for Id {
    fn clone(&self) -> Self {
        tick("Id::clone");
        Id(self.0, Token::new())
    }
}
impl PartialEq for Id {
    fn eq(&self, o: &Self) -> bool {
        tick("Id::eq");
        self.0 == o.0
    }
}
impl Eq for Id {}
impl Hash for Id {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick("Id::hash");
        h.write_u32(self.0 % 5);
    }
}
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Index(u32, Token<2>);
impl Clone for Index {
    fn clone(&self) -> Self {
        tick("Index::clone");
        Index(self.0, Token::new())
    }
}
impl Default for Index {
    fn default() -> Self {
        tick("Index::default");
        Index(0, Token::new())
    }
}
impl Step for Index {
    fn increment(&self) -> Option<Self> {
        tick("Index::increment");
        Some(Index(self.0 + 1, Token::new()))
    }
}
pub struct Res(i8, #[allow(dead_code)] Token<3>);
impl Cmp for Res {
    fn new_equiv() -> Self {
        tick("Cmp::new_equiv");
        Res(0, Token::new())
    }
    fn is_equiv(&self) -> bool {
        tick("Cmp::is_equiv");
        self.0 == 0
    }
    fn from_ord(o: Ordering) -> Self {
        tick("Cmp::from_ord");
        Res(o as i8, Token::new())
    }
}
pub struct N<'g>(&'g Graph, u32, #[allow(dead_code)] Token<0>);
impl Clone for N<'_> {
    fn clone(&self) -> Self {
        tick("Node::clone");
        N(self.0, self.1, Token::new())
    }
}
impl Node for N<'_> {
    type Cmp = Res;
    type Id = Id;
    type Index = Index;
    fn id(&self) -> Id {
        tick("Node::id");
        Id(self.0.id[self.1 as usize], Token::new())
    }
    fn get_edge(&self, i: &Index) -> Option<Self> {
        tick("Node::get_edge");
        self.0.edge(self.1, i.0 as usize).map(|y| N(self.0, y, Token::new()))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> Res {
        tick("Node::equiv_modulo_edges");
        Res(cmpval(self.0.val[self.1 as usize], o.0.val[o.1 as usize]), Token::new())
    }
}
pub struct Gen(#[allow(dead_code)] Token<4>);
impl Default for Gen {
    fn default() -> Self {
        tick("Gen::default");
        Gen(Token::new())
    }
}
impl NumberGenerator for Gen {
    fn rand_upto(&mut self, e: NonZeroU16) -> u16 {
        tick("Gen::rand_upto");
        rnd(u64::from(e.get())) as u16
    }
}
/// Shared ownership, counted.
pub struct Share(std::rc::Rc<Cell<Class<Share>>>, #[allow(dead_code)] Token<6>);
impl Clone for Share {
    fn clone(&self) -> Self {
        tick("Rc::clone");
        Share(self.0.clone(), Token::new())
    }
}
impl std::ops::Deref for Share {
    type Target = Cell<Class<Share>>;
    fn deref(&self) -> &Self::Target {
        tick("Rc::deref");
        &self.0
    }
}
impl equiv_classes::Rc for Share {
    fn new(v: Cell<Class<Self>>) -> Self {
        tick("Rc::new");
        Share(std::rc::Rc::new(v), Token::new())
    }
}
pub struct Table<'g>(Vec<(Id, Share)>, #[allow(dead_code)] Token<5>, PhantomData<&'g ()>);
impl Default for Table<'_> {
    fn default() -> Self {
        tick("Table::default");
        Table(Vec::new(), Token::new(), PhantomData)
    }
}
impl<'g> equiv_classes::Table for Table<'g> {
    type Node = N<'g>;
    type Rc = Share;
    fn get(&self, k: &Id) -> Option<&Share> {
        tick("Table::get");
        self.0.iter().find(|e| e.0 == *k).map(|e| &e.1)
    }
    fn insert(&mut self, k: Id, v: Share) {
        tick("Table::insert");
        self.0.push((k, v));
        tick("Table::insert, afterwards");
    }
}
/// Errors, and what they are converted to.
pub struct Er(Token<9>);
pub struct Fin(#[allow(dead_code)] Option<Token<9>>);
impl From<Er> for Fin {
    fn from(e: Er) -> Self {
        tick("Error::into");
        Fin(Some(e.0))
    }
}
impl From<Er> for PrecheckError<Fin> {
    fn from(e: Er) -> Self {
        tick("Error::into");
        PrecheckError::RecurError(e.into())
    }
}
impl From<Er> for InterleaveError<Fin> {
    fn from(e: Er) -> Self {
        tick("Error::into");
        InterleaveError(e.into())
    }
}
impl From<Infallible> for Fin {
    fn from(e: Infallible) -> Self {
        match e {}
    }
}
/// Skips at random, errs at random.
pub struct Skip(#[allow(dead_code)] Token<7>);
impl Default for Skip {
    fn default() -> Self {
        tick("DescendMode::default");
        Skip(Token::new())
    }
}
impl<'g, P: equiv::Params<Node = N<'g>>> DescendMode<P> for Skip
where
    Er: Into<P::Error>,
{
    type Error = Er;
    fn do_edges(&mut self, _: &N<'g>, _: &N<'g>) -> Result<bool, Er> {
        tick("DescendMode::do_edges");
        if rnd(60) == 0 {
            return Err(Er(Token::new()));
        }
        Ok(!enough() && rnd(6) > 0)
    }
    fn do_traverse(&mut self) -> Result<bool, Er> {
        tick("DescendMode::do_traverse");
        if rnd(60) == 0 {
            return Err(Er(Token::new()));
        }
        Ok(!enough() && rnd(10) > 0)
    }
}
/// Recurs now or later, drops half-done iterators, errs at random.
pub struct Mode<'g, const SECOND: bool>(Vec<EdgesIter<N<'g>>>, #[allow(dead_code)] Token<8>, u32);
impl<const SECOND: bool> Default for Mode<'_, SECOND> {
    fn default() -> Self {
        tick("RecurMode::default");
        Mode(Vec::new(), Token::new(), 0)
    }
}
impl<'g, const SECOND: bool, P> RecurMode<P> for Mode<'g, SECOND>
where
    P: equiv::Params<Node = N<'g>, RecurMode = Self>,
    Er: Into<P::Error>,
{
    type Error = P::Error;
    fn recur(it: &mut Equiv<P>, mut e: EdgesIter<N<'g>>) -> Result<Res, P::Error> {
        tick("RecurMode::recur");
        match rnd(40) {
            0 => return Err(Er(Token::new()).into()),
            1 => return Ok(Res(1, Token::new())),
            2..=9 if it.recur_mode.2 < 40 => {
                it.recur_mode.2 += 1;
                while let Some(x) = e.next() {
                    let [a, b] = match x {
                        Ok(x) => x,
                        Err(c) => return Ok(c),
                    };
                    let c = it.equiv_main(a, b)?;
                    if c.0 != 0 {
                        return Ok(c);
                    }
                    if rnd(20) == 0 {
                        break;
                    }
                }
                it.recur_mode.2 -= 1;
            },
            _ => it.recur_mode.0.push(e),
        }
        Ok(Res(0, Token::new()))
    }
    fn next(&mut self) -> Option<CounterpartsResult<N<'g>>> {
        tick("RecurMode::next");
        loop {
            let k = self.0.len().checked_sub(1)?;
            let k = if rnd(3) == 0 { 0 } else { k };
            match self.0[k].next() {
                None => drop(self.0.remove(k)),
                x => return x,
            }
        }
    }
    fn reset(mut self) -> Self {
        tick("RecurMode::reset");
        if rnd(2) == 0 {
            self.0.clear();
            self
        } else {
            Self::default()
        }
    }
}
impl<'g> From<Mode<'g, false>> for Mode<'g, true> {
    fn from(m: Mode<'g, false>) -> Self {
        tick("RecurMode::into");
        Mode(m.0, m.1, 0)
    }
}

pub struct Ip<'g, const HASHED: bool>(PhantomData<&'g ()>);
macro_rules! ip {
    ($h:literal, $t:ty) => {
        impl<'g> interleave::Params for Ip<'g, $h> {
            const PRECHECK_LIMIT: u16 = 5;
            const FAST_LIMIT_MAX: u16 = 3;
            const SLOW_LIMIT: u16 = 2;
            type Node = N<'g>;
            type Table = $t;
            type RNG = Gen;
        }
    };
}
ip!(false, Table<'g>);
ip!(true, equiv_classes::premade::hash_map::Table<Ip<'g, true>>);
impl<'g, const HASHED: bool> equiv_classes::premade::hash_map::Params for Ip<'g, HASHED> {
    type Node = N<'g>;
}
impl<'g, const HASHED: bool> queue::Params for Ip<'g, HASHED> {
    type Node = N<'g>;
}
impl<'g, const HASHED: bool> stack::Params for Ip<'g, HASHED> {
    const INITIAL_CAPACITY: usize = 0;
    type Node = N<'g>;
}
/// Always slow.
pub struct Slow<'g, const HASHED: bool>(PhantomData<&'g ()>);
impl<'g> interleave::Params for Slow<'g, false> {
    const FAST_LIMIT_MAX: u16 = 0;
    const SLOW_LIMIT: u16 = 30_000;
    type Node = N<'g>;
    type Table = Table<'g>;
    type RNG = Gen;
}
impl<'g> interleave::Params for Slow<'g, true> {
    const FAST_LIMIT_MAX: u16 = 0;
    const SLOW_LIMIT: u16 = 30_000;
    type Node = N<'g>;
    type Table = equiv_classes::premade::hash_map::Table<Slow<'g, true>>;
    type RNG = Gen;
}
impl<'g> equiv_classes::premade::hash_map::Params for Slow<'g, true> {
    type Node = N<'g>;
}
macro_rules! plain {
    ($m:ident, $d:ty, $r:ty) => {
        struct $m<'g>(PhantomData<&'g ()>);
        impl<'g> equiv::Params for $m<'g> {
            type Node = N<'g>;
            type DescendMode = $d;
            type RecurMode = $r;
            type Error = Fin;
        }
    };
}
type Tabled<'g> = Interleave<Ip<'g, false>>;
type Hashed<'g> = Interleave<Ip<'g, true>>;
type Q<'g, const HASHED: bool> = RecurQueue<Ip<'g, HASHED>>;
type S<'g, const HASHED: bool> = RecurStack<Ip<'g, HASHED>>;
plain!(M0, Skip, CallStack);
plain!(M1, Skip, Q<'g, false>);
plain!(M2, Skip, S<'g, false>);
plain!(M3, Skip, Mode<'g, true>);
plain!(M4, Tabled<'g>, CallStack);
plain!(M5, Tabled<'g>, Q<'g, false>);
plain!(M6, Tabled<'g>, S<'g, false>);
plain!(M7, Tabled<'g>, Mode<'g, true>);
plain!(M8, Hashed<'g>, CallStack);
plain!(M9, Hashed<'g>, Q<'g, true>);
plain!(M10, Hashed<'g>, S<'g, true>);
plain!(M11, Interleave<Slow<'g, false>>, CallStack);
plain!(M12, Interleave<Slow<'g, true>>, Q<'g, true>);
plain!(M13, Interleave<Slow<'g, true>>, CallStack);
pub struct P<'g, const HASHED: bool, R, S>(PhantomData<(&'g (), R, S)>);
macro_rules! pre {
    ($h:literal, $r:ty, $s:ty) => {
        impl<'g> precheck_interleave::Params<N<'g>> for P<'g, $h, $r, $s> {
            type PrecheckRecurMode = $r;
            type InterleaveRecurMode = $s;
            type InterleaveParams = Ip<'g, $h>;
            type Error = Fin;
        }
    };
}
pre!(false, Mode<'g, false>, Mode<'g, true>);
pre!(true, Mode<'g, false>, Mode<'g, true>);
pre!(false, Q<'g, false>, Q<'g, false>);
pre!(true, S<'g, true>, S<'g, true>);
pre!(true, CallStack, CallStack);
pre!(false, CallStack, S<'g, false>);

pub const WAYS: usize = 20;
pub const WHAT: [&str; WAYS] = [
    "custom descend mode, CallStack",
    "custom descend mode, RecurQueue",
    "custom descend mode, RecurStack",
    "custom descend and recursion modes",
    "Interleave, custom table and pointer, CallStack",
    "Interleave, custom table and pointer, RecurQueue",
    "Interleave, custom table and pointer, RecurStack",
    "Interleave, custom table and pointer, custom recursion mode",
    "Interleave, CallStack",
    "Interleave, RecurQueue",
    "Interleave, RecurStack",
    "precheck and interleave, custom table and pointer, custom recursion modes",
    "precheck and interleave, custom recursion modes",
    "precheck and interleave, custom table and pointer, RecurQueue",
    "precheck and interleave, RecurStack",
    "precheck and interleave, CallStack",
    "precheck and interleave, custom table and pointer, CallStack and RecurStack",
    "Interleave always slow, custom table and pointer, CallStack",
    "Interleave always slow, RecurQueue",
    "Interleave always slow, CallStack",
];
fn go<'g>(way: usize, a: N<'g>, b: N<'g>) -> Result<Res, Fin> {
    match way {
        0 => Equiv::<M0<'g>>::default().equiv(a, b),
        1 => Equiv::<M1<'g>>::default().equiv(a, b),
        2 => Equiv::<M2<'g>>::default().equiv(a, b),
        3 => Equiv::<M3<'g>>::default().equiv(a, b),
        4 => Equiv::<M4<'g>>::default().equiv(a, b),
        5 => Equiv::<M5<'g>>::default().equiv(a, b),
        6 => Equiv::<M6<'g>>::default().equiv(a, b),
        7 => Equiv::<M7<'g>>::default().equiv(a, b),
        8 => Equiv::<M8<'g>>::default().equiv(a, b),
        9 => Equiv::<M9<'g>>::default().equiv(a, b),
        10 => Equiv::<M10<'g>>::default().equiv(a, b),
        11 => precheck_interleave::equiv::<_, P<'g, false, Mode<'g, false>, Mode<'g, true>>>(a, b),
        12 => precheck_interleave::equiv::<_, P<'g, true, Mode<'g, false>, Mode<'g, true>>>(a, b),
        13 => precheck_interleave::equiv::<_, P<'g, false, Q<'g, false>, Q<'g, false>>>(a, b),
        14 => precheck_interleave::equiv::<_, P<'g, true, S<'g, true>, S<'g, true>>>(a, b),
        15 => precheck_interleave::equiv::<_, P<'g, true, CallStack, CallStack>>(a, b),
        16 => precheck_interleave::equiv::<_, P<'g, false, CallStack, S<'g, false>>>(a, b),
        17 => Equiv::<M11<'g>>::default().equiv(a, b),
        18 => Equiv::<M12<'g>>::default().equiv(a, b),
        _ => Equiv::<M13<'g>>::default().equiv(a, b),
    }
}
/// What was seen of one comparison.
pub struct Seen {
    pub calls: u64,
    pub tokens: u64,
    /// The call that panicked.
    pub thrown: Option<&'static str>,
    pub erred: bool,
    pub bad: Option<String>,
}
/// Compare, with a panic in call number `fault` (0: none).
pub fn watch(way: usize, case: &Case, rng: u64, fault: u64, enough: u64) -> Seen {
    {
        let _s = Suspend::new();
        ST.with(|s| {
            let s = &mut *s.borrow_mut();
            let mut alive = std::mem::take(&mut s.alive);
            alive.clear();
            *s = State { alive, fault, rng, enough, ..State::default() };
        });
    }
    let m0 = alloc_snap();
    let r = {
        let (a, b) = (N(&case.g, case.ra, Token::new()), N(&case.g, case.rb, Token::new()));
        catch_unwind(AssertUnwindSafe(|| go(way, a, b)))
    };
    let mut bad: Option<String> = None;
    let (mut thrown, mut erred) = (None, false);
    match r {
        Ok(r) => {
            erred = r.is_err();
            if fault > 0 && ST.with(|s| s.borrow().calls >= fault) {
                bad = Some(format!("the panic in call {fault} did not get out"));
            }
        },
        Err(p) => match p.downcast::<Thrown>() {
            Ok(t) => {
                thrown = Some(t.1);
                if t.0 != fault {
                    bad = Some("another panic got out".into());
                }
            },
            Err(_) => bad = Some(format!("a panic of something else: {}", crate::run::LAST_PANIC.with(|l| l.borrow().clone()))),
        },
    }
    let m1 = alloc_snap();
    let _s = Suspend::new();
    ST.with(|s| {
        let s = &*s.borrow();
        let left: Vec<String> = s.live.iter().zip(KINDS).filter(|(n, _)| **n != 0).map(|(n, k)| format!("{n} {k}")).collect();
        if !left.is_empty() {
            bad = Some(format!("not dropped: {}", left.join(", ")));
        } else if s.twice > 0 {
            bad = Some(format!("{} values dropped twice", s.twice));
        } else if bad.is_none() && (m1.blocks, m1.cur) != (m0.blocks, m0.cur) {
            bad = Some(format!("{} allocations, {} bytes not freed", m1.blocks - m0.blocks, m1.cur - m0.cur));
        }
        Seen { calls: s.calls, tokens: s.alive.len() as u64, thrown, erred, bad }
    })
}
