//! C19: the index types, up to their very ends.
use graph_safe_compare::Step;
use std::cell::Cell;
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::*;
use vmon::util::*;

// -- custom index types ---------------------------------------------------------------------------

/// Starts a little below the end of an integer type, and lets the crate increment.
macro_rules! near {
    ($($name:ident $t:ty, $k:literal;)*) => { $(
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
        struct $name($t);
        impl Default for $name {
            fn default() -> Self { $name(<$t>::MAX - $k) }
        }
        impl Step for $name {
            fn increment(&self) -> Option<Self> { self.0.increment().map($name) }
        }
        impl Ix for $name {
            fn ix(&self) -> usize { (self.0 - (<$t>::MAX - $k)) as usize }
            fn cap() -> usize { $k + 1 }
        }
    )* }
}
near! {
    NU8 u8, 3; NI8 i8, 2; NU16 u16, 4; NI16 i16, 1; NU32 u32, 3; NI32 i32, 3; NU64 u64, 2; NI64 i64, 5; NU128 u128, 3; NI128 i128, 4;
    NUs usize, 2; NIs isize, 3;
}
/// From the very least value of a signed type.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Low(i8);
impl Default for Low {
    fn default() -> Self {
        Low(i8::MIN)
    }
}
impl Step for Low {
    fn increment(&self) -> Option<Self> {
        self.0.increment().map(Low)
    }
}
impl Ix for Low {
    fn ix(&self) -> usize {
        (i32::from(self.0) + 128) as usize
    }
    fn cap() -> usize {
        256
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Default)]
enum Dir {
    #[default]
    Left,
    Middle,
    Right,
}
impl Step for Dir {
    fn increment(&self) -> Option<Self> {
        match self {
            Dir::Left => Some(Dir::Middle),
            Dir::Middle => Some(Dir::Right),
            Dir::Right => None,
        }
    }
}
impl Ix for Dir {
    fn ix(&self) -> usize {
        match self {
            Dir::Left => 0,
            Dir::Middle => 1,
            Dir::Right => 2,
        }
    }
    fn cap() -> usize {
        3
    }
}
/// Only one edge can be indexed.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Default)]
struct Unit;
impl Step for Unit {
    fn increment(&self) -> Option<Self> {
        None
    }
}
impl Ix for Unit {
    fn ix(&self) -> usize {
        0
    }
    fn cap() -> usize {
        1
    }
}
/// Not a number, owns memory, and its order is opposite to that of the edges.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Word(String);
impl Default for Word {
    fn default() -> Self {
        Word("zzzzz".into())
    }
}
impl Step for Word {
    fn increment(&self) -> Option<Self> {
        let _s = Suspend::new();
        let mut s = self.0.clone();
        s.pop().map(|_| Word(s))
    }
}
impl Ix for Word {
    fn ix(&self) -> usize {
        5 - self.0.len()
    }
    fn cap() -> usize {
        6
    }
}
/// Steps by three, descending.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Down(i32);
impl Default for Down {
    fn default() -> Self {
        Down(12)
    }
}
impl Step for Down {
    fn increment(&self) -> Option<Self> {
        (self.0 > 0).then(|| Down(self.0 - 3))
    }
}
impl Ix for Down {
    fn ix(&self) -> usize {
        ((12 - self.0) / 3) as usize
    }
    fn cap() -> usize {
        5
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Default)]
struct Grid(u8, u8);
impl Step for Grid {
    fn increment(&self) -> Option<Self> {
        match *self {
            Grid(2, 2) => None,
            Grid(r, 2) => Some(Grid(r + 1, 0)),
            Grid(r, c) => Some(Grid(r, c + 1)),
        }
    }
}
impl Ix for Grid {
    fn ix(&self) -> usize {
        usize::from(self.0) * 3 + usize::from(self.1)
    }
    fn cap() -> usize {
        9
    }
}
thread_local!(static DROPS: Cell<i64> = const { Cell::new(0) });
/// Counts itself.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Counted(u16);
impl Counted {
    fn new(x: u16) -> Self {
        DROPS.with(|d| d.set(d.get() + 1));
        Counted(x)
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        Counted::new(self.0)
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        DROPS.with(|d| d.set(d.get() - 1));
    }
}
impl Default for Counted {
    fn default() -> Self {
        Counted::new(100)
    }
}
impl Step for Counted {
    fn increment(&self) -> Option<Self> {
        self.0.checked_add(1).map(Counted::new)
    }
}
impl Ix for Counted {
    fn ix(&self) -> usize {
        usize::from(self.0 - 100)
    }
    fn cap() -> usize {
        65436
    }
}

// -- cases ------------------------------------------------------------------------------------------

fn leaf(b: &mut B, v: u32) -> u32 {
    b.node(v, vec![])
}
/// An edge list of `n`, with a difference at `d`.
fn wide(b: &mut B, n: usize, d: Option<usize>, shared: bool, tail: Option<(usize, u32)>) -> u32 {
    let common = leaf(b, 0);
    let mut e = Vec::with_capacity(n);
    for i in 0..n {
        let x = if let (Some((t, x)), true) = (tail, tail.map(|t| t.0) == Some(i)) {
            let _ = t;
            x
        } else if d == Some(i) {
            leaf(b, 1)
        } else if shared {
            common
        } else {
            leaf(b, 0)
        };
        e.push(x);
    }
    b.node(0, e)
}
fn around(r: &mut Rng, cap: usize) -> usize {
    match r.below(8) {
        0 => cap.saturating_sub(2),
        1 => cap - 1,
        2 | 3 => cap,
        4 => cap + 1,
        5 => cap + r.us(5),
        6 => r.us(3).min(cap),
        _ => r.us(cap + 2),
    }
}
fn full_case(r: &mut Rng, cap: usize, levels: usize) -> Case {
    let mut b = B::default();
    let (mut x, mut y) = (None, None);
    let differ_at = r.us(levels + 1);
    let shared = r.chance(1, 2);
    for l in 0..levels {
        let n = around(r, cap);
        let m = if l == differ_at && r.chance(1, 2) { around(r, cap) } else { n };
        let d = (l == differ_at && r.chance(1, 2)).then(|| match r.below(6) {
            0 => 0,
            1 => cap,
            2 => cap.saturating_sub(2),
            3 => cap + 1,
            _ => cap - 1,
        });
        // The next level below hangs at some edge, perhaps at the very last one, perhaps beyond.
        let t = match r.below(4) {
            0 => 0,
            1 | 2 => cap.min(n).saturating_sub(1),
            _ => r.us(n.max(1)),
        };
        let s2 = shared || r.chance(1, 3);
        x = Some(wide(&mut b, n, None, shared, x.map(|x| (t, x))));
        y = Some(wide(&mut b, m, d, s2, y.map(|y| (t, y))));
    }
    let (x, y) = (x.expect("levels"), y.expect("levels"));
    if r.chance(1, 8) {
        // And a cycle through the very last edge.
        if let Some(i) = b.e[x as usize].len().min(cap).checked_sub(1) {
            b.e[x as usize][i] = x;
            if b.e[y as usize].len() > i {
                b.e[y as usize][i] = y;
            }
        }
    }
    if r.chance(1, 2) {
        Case::new(&b, x, y, "full")
    } else {
        Case::new(&b, y, x, "full")
    }
}
fn judge<K: Kind>(name: &str, case: &Case, r: &mut Rng, f: (bool, Call<K>), maxv: u64, cov: &mut Cov) {
    let cap = <K::I as Ix>::cap();
    let alg = if f.0 { if r.chance(1, 2) { *r.pick(&STD_PLAIN) } else { *r.pick(&STD_SAFE) } } else if r.chance(1, 3) { *r.pick(&STD_PLAIN) } else { few_alg(r) };
    set_rng(rng_cfg(r));
    let drops = DROPS.with(Cell::get);
    let Some(t) = traced::<K>(case, alg, f.1, 0, maxv) else {
        return;
    };
    cov.add("callbacks monitored", t.rep.calls);
    cov.eval((t.rep.nvis > 1).then(|| mix2(alg_sig(case, alg, 0), name.bytes().fold(1, |h, b| mix2(h, u64::from(b))))));
    let d = case.g.reach(&[case.ra, case.rb]).iter().map(|x| case.g.deg(*x)).max().unwrap_or(0);
    if d >= cap {
        cov.add("comparisons of nodes with full or overfull amounts of edges", 1);
    }
    cov.sample(|| format!("{} with index type {name} (capacity {cap}): nodes with up to {d} edges, {} pairs visited, {}", alg.name(), t.rep.nvis, end_text(&t.rep.end)));
    let say = |s: &str| format!("{} with index type {name}: {s}: {}", alg.name(), case.dump(30));
    for e in t.rep.errs.iter().chain(&t.bad) {
        cov.vio(say(e));
    }
    if let End1::Ok(o) = t.rep.end {
        if (o == Outcome::Equal) != hk_equal(case, cap) {
            cov.vio(say(&format!("result {o:?} is wrong")));
        }
    }
    if DROPS.with(Cell::get) != drops {
        cov.vio(say("indexes not dropped"));
    }
}
fn many<K: Kind>(name: &str, r: &mut Rng, n: usize, f: (bool, Call<K>), cov: &mut Cov) {
    let cap = <K::I as Ix>::cap();
    for _ in 0..n {
        let case = if cap <= 16 && r.chance(2, 3) {
            // Any graph, most nodes of which have more edges than can be numbered, perhaps.
            let (n, fam) = (size(r, 30), r.us(FAMILIES));
            gen_case(r, n, Cyc::Yes, fam, true)
        } else {
            let levels = if cap > 1000 { 1 + r.us(2) } else { 1 + r.us(5) };
            full_case(r, cap, levels)
        };
        judge::<K>(name, &case, r, f, if cap > 1000 { 400_000 } else { 60_000 }, cov);
    }
}
type K<I> = KK<Rich, I, DMon>;
/// Greater amounts of edges than narrower types could number, with types that can.
fn beyond<K: Kind>(name: &str, r: &mut Rng, f: (bool, Call<K>), cov: &mut Cov) {
    for _ in 0..2 {
        let n = match r.below(4) {
            0 => 65_533 + r.us(8),
            1 => 131_070 + r.us(8),
            2 => 32_765 + r.us(8),
            _ => 66_000 + r.us(200_000),
        };
        let mut b = B::default();
        let x = wide(&mut b, n, None, r.chance(1, 2), None);
        let m = match r.below(4) {
            0 => n + 1,
            1 => n - 1,
            _ => n,
        };
        let d = match r.below(6) {
            0 => Some(65_535),
            1 => Some(65_536),
            2 => Some(32_768),
            3 => Some(n - 1),
            _ => None,
        };
        let y = wide(&mut b, m, d, r.chance(1, 2), None);
        let case = if r.chance(1, 2) { Case::new(&b, x, y, "beyond") } else { Case::new(&b, y, x, "beyond") };
        cov.max("greatest amount of edges of a node", n as u64);
        judge::<K>(name, &case, r, f, 1 << 40, cov);
    }
}

// -- increments ------------------------------------------------------------------------------------

macro_rules! inc_all {
    ($r:expr, $cov:expr, $($t:ty)*) => { $(
        let mut check = |x: $t| {
            let exp = if x == <$t>::MAX { None } else { Some(x + 1) };
            $cov.evals += 1;
            match std::panic::catch_unwind(|| Step::increment(&x)) {
                Ok(got) if got == exp => (),
                g => $cov.vio(format!("{}::increment({x}) gives {:?}, should be {exp:?}", stringify!($t), g.map_err(classify))),
            }
        };
        if std::mem::size_of::<$t>() <= 2 {
            for x in <$t>::MIN..=<$t>::MAX { check(x); }
        } else {
            for k in 0..=120 { check(<$t>::MAX - k); check(<$t>::MIN + k); }
            for s in 0..<$t>::BITS {
                let b = (1 as $t) << s;
                for d in 0..3 { check(b.wrapping_add(d)); check(b.wrapping_sub(d)); check((!b).wrapping_add(d)); check((!b).wrapping_sub(d)); }
            }
            for _ in 0..2000 { let v = (u128::from($r.next()) << 64 | u128::from($r.next())) >> $r.below(128); check(v as $t); }
        }
        $cov.sigs.insert(mix(stringify!($t).bytes().fold(9, |h, b| mix2(h, u64::from(b)))));
        $cov.add("integer types incremented throughout", 1);
    )* }
}

fn go(job: &mut Job, cov: &mut Cov) {
    let r = &mut job.rng;
    match job.part {
        0 => {
            inc_all!(r, cov, u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
        },
        1 => match job.k % 5 {
            0 => many::<K<u8>>("u8", r, 12, (false, few_fns), cov),
            1 => many::<K<i8>>("i8", r, 12, (false, few_fns), cov),
            2 => many::<K<Low>>("custom, all of i8 from its least", r, 12, (true, std_fns), cov),
            3 => many::<KK<bool, u8, DRef>>("u8", r, 12, (true, std_fns), cov),
            _ => many::<K<u8>>("u8", r, 12, (false, few_fns), cov),
        },
        2 => match job.k % 3 {
            0 => many::<K<u16>>("u16", r, 2, (true, std_fns), cov),
            1 => many::<K<i16>>("i16", r, 2, (true, std_fns), cov),
            _ => many::<K<Counted>>("custom counted", r, 2, (true, std_fns), cov),
        },
        3 => match job.k % 12 {
            0 => many::<K<NU8>>("near the end of u8", r, 40, (true, std_fns), cov),
            1 => many::<K<NI8>>("near the end of i8", r, 40, (true, std_fns), cov),
            2 => many::<K<NU16>>("near the end of u16", r, 40, (true, std_fns), cov),
            3 => many::<K<NI16>>("near the end of i16", r, 40, (true, std_fns), cov),
            4 => many::<K<NU32>>("near the end of u32", r, 40, (true, std_fns), cov),
            5 => many::<K<NI32>>("near the end of i32", r, 40, (true, std_fns), cov),
            6 => many::<K<NU64>>("near the end of u64", r, 40, (true, std_fns), cov),
            7 => many::<K<NI64>>("near the end of i64", r, 40, (true, std_fns), cov),
            8 => many::<K<NU128>>("near the end of u128", r, 40, (true, std_fns), cov),
            9 => many::<K<NI128>>("near the end of i128", r, 40, (true, std_fns), cov),
            10 => many::<K<NUs>>("near the end of usize", r, 40, (true, std_fns), cov),
            _ => many::<K<NIs>>("near the end of isize", r, 40, (true, std_fns), cov),
        },
        5 => match job.k % 8 {
            0 => beyond::<K<u32>>("u32", r, (true, std_fns), cov),
            1 => beyond::<K<i32>>("i32", r, (true, std_fns), cov),
            2 => beyond::<K<u64>>("u64", r, (true, std_fns), cov),
            3 => beyond::<K<i64>>("i64", r, (true, std_fns), cov),
            4 => beyond::<K<u128>>("u128", r, (true, std_fns), cov),
            5 => beyond::<K<i128>>("i128", r, (true, std_fns), cov),
            6 => beyond::<K<usize>>("usize", r, (true, std_fns), cov),
            _ => beyond::<K<isize>>("isize", r, (true, std_fns), cov),
        },
        _ => match job.k % 5 {
            0 => many::<K<Dir>>("custom enum", r, 40, (false, few_fns), cov),
            1 => many::<K<Unit>>("custom unit", r, 40, (false, few_fns), cov),
            2 => many::<K<Word>>("custom string", r, 40, (false, few_fns), cov),
            3 => many::<K<Down>>("custom descending", r, 40, (true, std_fns), cov),
            _ => many::<K<Grid>>("custom grid", r, 40, (true, std_fns), cov),
        },
    }
}
fn main() {
    static PLAN: Plan = Plan {
        prop: "C19",
        rule: "a comparison with an index type of known capacity of nodes with about as many edges (or more), traced completely; increments: each value is an evaluation, each type counts as one",
        parts: &[(2, 200), (300, 6000), (36, 1500), (360, 8000), (400, 8000), (64, 1200)],
        stack: 256 << 20,
        run: go,
    };
    vmon::driver::main(&PLAN);
}
