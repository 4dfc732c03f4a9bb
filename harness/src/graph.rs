//! Graphs the workloads compare, and the independent reference model ("oracle").
use crate::util::{mix2, Rng};
use std::collections::{HashMap, HashSet};

/// A value that is not equal to anything, itself included (like a floating-point NaN).
pub const NAN: u32 = u32::MAX;

/// Frozen graph, compressed rows.  `id[x]` is the logical identity of object `x`: objects with the
/// same `id` are the same node represented by several objects.
#[derive(Clone, Default)]
pub struct Graph {
    pub val: Vec<u32>,
    pub st: Vec<u32>,
    pub ed: Vec<u32>,
    pub id: Vec<u32>,
    pub anchor: Vec<u64>,
}
impl Graph {
    #[inline]
    pub fn deg(&self, x: u32) -> usize {
        (self.st[x as usize + 1] - self.st[x as usize]) as usize
    }
    #[inline]
    pub fn edge(&self, x: u32, i: usize) -> Option<u32> {
        if i < self.deg(x) {
            Some(self.ed[self.st[x as usize] as usize + i])
        } else {
            None
        }
    }
    pub fn edges(&self, x: u32) -> &[u32] {
        &self.ed[self.st[x as usize] as usize..self.st[x as usize + 1] as usize]
    }
    pub fn n(&self) -> usize {
        self.val.len()
    }
    pub fn reach(&self, roots: &[u32]) -> Vec<u32> {
        let mut seen = vec![false; self.n()];
        let mut out = Vec::new();
        for &r in roots {
            if !seen[r as usize] {
                seen[r as usize] = true;
                out.push(r);
            }
        }
        let mut i = 0;
        while i < out.len() {
            let x = out[i];
            i += 1;
            for &y in self.edges(x) {
                if !seen[y as usize] {
                    seen[y as usize] = true;
                    out.push(y);
                }
            }
        }
        out
    }
    pub fn is_cyclic(&self, roots: &[u32]) -> bool {
        let mut st = vec![0u8; self.n()];
        for &r in roots {
            if st[r as usize] != 0 {
                continue;
            }
            let mut stack = vec![(r, 0usize)];
            st[r as usize] = 1;
            while let Some((x, i)) = stack.pop() {
                match self.edge(x, i) {
                    Some(y) => {
                        stack.push((x, i + 1));
                        match st[y as usize] {
                            0 => {
                                st[y as usize] = 1;
                                stack.push((y, 0));
                            },
                            1 => return true,
                            _ => (),
                        }
                    },
                    None => st[x as usize] = 2,
                }
            }
        }
        false
    }
}

/// Builder.
#[derive(Clone, Default)]
pub struct B {
    pub val: Vec<u32>,
    pub e: Vec<Vec<u32>>,
    pub id: Vec<u32>,
}
impl B {
    pub fn node(&mut self, val: u32, e: Vec<u32>) -> u32 {
        let ix = self.val.len() as u32;
        self.val.push(val);
        self.e.push(e);
        self.id.push(ix);
        ix
    }
    pub fn freeze(&self) -> Graph {
        let mut st = Vec::with_capacity(self.e.len() + 1);
        let mut ed = Vec::with_capacity(self.e.iter().map(Vec::len).sum());
        st.push(0);
        for v in &self.e {
            ed.extend_from_slice(v);
            st.push(ed.len() as u32);
        }
        Graph { val: self.val.clone(), st, ed, id: self.id.clone(), anchor: vec![0; self.val.len()] }
    }
    pub fn reach(&self, r: u32) -> Vec<u32> {
        let mut seen = vec![false; self.val.len()];
        let mut out = vec![r];
        seen[r as usize] = true;
        let mut i = 0;
        while i < out.len() {
            let x = out[i];
            i += 1;
            for &y in &self.e[x as usize] {
                if !seen[y as usize] {
                    seen[y as usize] = true;
                    out.push(y);
                }
            }
        }
        out
    }
}

#[derive(Clone)]
pub struct Case {
    pub g: Graph,
    pub ra: u32,
    pub rb: u32,
    pub label: String,
    pub cyclic: bool,
}
impl Case {
    pub fn new(b: &B, ra: u32, rb: u32, label: &str) -> Case {
        let g = b.freeze();
        let cyclic = g.is_cyclic(&[ra, rb]);
        Case { g, ra, rb, label: label.to_string(), cyclic }
    }
    pub fn swapped(&self) -> Case {
        Case { g: self.g.clone(), ra: self.rb, rb: self.ra, label: self.label.clone(), cyclic: self.cyclic }
    }
    pub fn hash(&self) -> u64 {
        let r = self.g.reach(&[self.ra, self.rb]);
        let mut pos: HashMap<u32, u32> = HashMap::with_capacity(r.len());
        for (i, x) in r.iter().enumerate() {
            pos.insert(*x, i as u32);
        }
        let mut h = mix2(u64::from(pos[&self.ra]), u64::from(pos[&self.rb]));
        for x in &r {
            h = mix2(h, u64::from(self.g.val[*x as usize]));
            for y in self.g.edges(*x) {
                h = mix2(h, u64::from(pos[y]) + 7);
            }
        }
        h
    }
    /// (distinct ids of branch nodes, greatest number of edges)
    pub fn branch_stats(&self) -> (usize, usize) {
        let mut s = HashSet::new();
        let mut d = 0;
        for x in self.g.reach(&[self.ra, self.rb]) {
            let k = self.g.deg(x);
            if k > 0 {
                s.insert(self.g.id[x as usize]);
                d = d.max(k);
            }
        }
        (s.len(), d)
    }
    pub fn dump(&self, max: usize) -> String {
        let r = self.g.reach(&[self.ra, self.rb]);
        let mut o = format!("{} nodes={} a={} b={} cyclic={} ", self.label, r.len(), self.ra, self.rb, self.cyclic);
        for x in r.iter().take(max) {
            let v = self.g.val[*x as usize];
            let vs = if v == NAN { "nan".to_string() } else { v.to_string() };
            let es: Vec<String> = self.g.edges(*x).iter().take(12).map(u32::to_string).collect();
            let more = if self.g.deg(*x) > 12 { format!("..x{}", self.g.deg(*x)) } else { String::new() };
            o.push_str(&format!("{}:{}[{}{}] ", x, vs, es.join(","), more));
        }
        if r.len() > max {
            o.push_str("...");
        }
        o
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Outcome {
    Equal,
    Val { ord: i8, a: u32, b: u32 },
    Edges { ord: i8 },
}
impl Outcome {
    pub fn ord(&self) -> i8 {
        match self {
            Outcome::Equal => 0,
            Outcome::Val { ord, .. } | Outcome::Edges { ord } => *ord,
        }
    }
}

#[inline]
pub fn cmpval(a: u32, b: u32) -> i8 {
    if a == NAN || b == NAN {
        return -1;
    }
    match a.cmp(&b) {
        std::cmp::Ordering::Less => -1,
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => 1,
    }
}

pub const ROOTPOS: u64 = 0x0DDB_1A5E_5BAD_5EED;
#[inline]
pub fn childpos(p: u64, i: u64) -> u64 {
    let z = (p ^ (p >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    (z ^ (z >> 32)).wrapping_mul(0x94D0_49BB_1331_11EB)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    Dfs,
    Bfs,
    Any,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct PV {
    pub pos: u64,
    pub a: u32,
    pub b: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Go,
    Skip,
    Err(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stop {
    Done(Outcome),
    Err(u32),
    Cap,
}

struct It {
    a: u32,
    b: u32,
    pos: u64,
    next: usize,
    just: bool,
}

pub struct Sim {
    pub visits: Vec<PV>,
    pub stop: Stop,
    pub max_pending: usize,
    pub traverses: u64,
    pub edges_calls: u64,
}

/// What the plain algorithm is documented to do, with the given traversal order; `tr` and `de` are
/// the scripted answers of a descend-mode.  `memo`: do not enter again a pair already entered (for
/// the verdict this changes nothing, see DESIGN.md; the visits are then not those of the naive
/// traversal).
pub fn simulate(
    g: &Graph,
    ra: u32,
    rb: u32,
    order: Order,
    idxcap: usize,
    memo: bool,
    cap: usize,
    tr: &mut dyn FnMut(u64) -> Act,
    de: &mut dyn FnMut(u64) -> Act,
) -> Sim {
    let mut s = Sim { visits: Vec::new(), stop: Stop::Cap, max_pending: 0, traverses: 0, edges_calls: 0 };
    let mut fr: std::collections::VecDeque<It> = std::collections::VecDeque::new();
    let mut seen: HashSet<(u32, u32)> = HashSet::new();
    let mut cur = Some((ra, rb, ROOTPOS));
    loop {
        if let Some((a, b, pos)) = cur.take() {
            let t = s.traverses;
            s.traverses += 1;
            match tr(t) {
                Act::Err(c) => {
                    s.stop = Stop::Err(c);
                    return s;
                },
                Act::Skip => (),
                Act::Go => {
                    if s.visits.len() >= cap {
                        return s;
                    }
                    s.visits.push(PV { pos, a, b });
                    if g.id[a as usize] != g.id[b as usize]
                        && !(memo && seen.contains(&(g.id[a as usize], g.id[b as usize])))
                    {
                        let o = cmpval(g.val[a as usize], g.val[b as usize]);
                        if o != 0 {
                            s.stop = Stop::Done(Outcome::Val { ord: o, a, b });
                            return s;
                        }
                        let (da, db) = (g.deg(a).min(idxcap), g.deg(b).min(idxcap));
                        if (da == 0) != (db == 0) {
                            s.stop = Stop::Done(Outcome::Edges { ord: if da == 0 { -1 } else { 1 } });
                            return s;
                        }
                        if da > 0 {
                            let k = s.edges_calls;
                            s.edges_calls += 1;
                            match de(k) {
                                Act::Err(c) => {
                                    s.stop = Stop::Err(c);
                                    return s;
                                },
                                Act::Skip => (),
                                Act::Go => {
                                    if memo {
                                        seen.insert((g.id[a as usize], g.id[b as usize]));
                                    }
                                    fr.push_back(It { a, b, pos, next: 0, just: false });
                                    s.max_pending = s.max_pending.max(fr.len());
                                },
                            }
                        }
                    }
                },
            }
        }
        // next
        let it = match order {
            Order::Bfs => fr.front_mut(),
            _ => fr.back_mut(),
        };
        let Some(it) = it else {
            s.stop = Stop::Done(Outcome::Equal);
            return s;
        };
        let i = it.next;
        let (ea, eb) = if i < idxcap { (g.edge(it.a, i), g.edge(it.b, i)) } else { (None, None) };
        match (ea, eb) {
            (Some(x), Some(y)) => {
                cur = Some((x, y, childpos(it.pos, i as u64)));
                it.next += 1;
                let j = it.next;
                let gone = j >= idxcap || (g.edge(it.a, j).is_none() && g.edge(it.b, j).is_none());
                if gone {
                    match order {
                        Order::Bfs => drop(fr.pop_front()),
                        _ => drop(fr.pop_back()),
                    }
                }
            },
            (None, Some(_)) => {
                s.stop = Stop::Done(Outcome::Edges { ord: -1 });
                return s;
            },
            (Some(_), None) => {
                s.stop = Stop::Done(Outcome::Edges { ord: 1 });
                return s;
            },
            (None, None) => match order {
                Order::Bfs => drop(fr.pop_front()),
                _ => drop(fr.pop_back()),
            },
        }
    }
}

/// Exact first difference in the given order (exact for `Bfs` on every graph, for `Dfs` on acyclic
/// graphs; on cyclic graphs with `Dfs` only whether it is `Equal` is meaningful).
pub fn first_diff(case: &Case, order: Order, idxcap: usize, cap: usize) -> Option<Outcome> {
    let s = simulate(&case.g, case.ra, case.rb, order, idxcap, true, cap, &mut |_| Act::Go, &mut |_| Act::Go);
    match s.stop {
        Stop::Done(o) => Some(o),
        _ => None,
    }
}

/// The naive traversal (no detection of sharing), at most `cap` visits.
pub fn naive(case: &Case, order: Order, idxcap: usize, cap: usize) -> Sim {
    simulate(&case.g, case.ra, case.rb, order, idxcap, false, cap, &mut |_| Act::Go, &mut |_| Act::Go)
}

/// Naive reference for equivalence relations: labels, relabelled on every union.
pub struct Closure {
    pub lab: HashMap<u32, u32>,
    members: HashMap<u32, Vec<u32>>,
    fresh: u32,
}
impl Closure {
    pub fn new() -> Self {
        Closure { lab: HashMap::new(), members: HashMap::new(), fresh: 0 }
    }
    fn of(&mut self, x: u32) -> u32 {
        if let Some(l) = self.lab.get(&x) {
            return *l;
        }
        let l = self.fresh;
        self.fresh += 1;
        self.lab.insert(x, l);
        self.members.insert(l, vec![x]);
        l
    }
    /// Returns whether they already were related; relates them.
    pub fn relate(&mut self, x: u32, y: u32) -> bool {
        let (a, b) = (self.of(x), self.of(y));
        if a == b {
            return true;
        }
        let (keep, gone) = if self.members[&a].len() >= self.members[&b].len() { (a, b) } else { (b, a) };
        let m = self.members.remove(&gone).unwrap_or_default();
        for z in &m {
            self.lab.insert(*z, keep);
        }
        if let Some(v) = self.members.get_mut(&keep) {
            v.extend(m);
        }
        false
    }
}

/// Equality by a near-linear algorithm (Hopcroft and Karp), independent of the one under test: it
/// keeps a plain union-find of pairs still assumed equivalent, with a work list.
pub fn hk_equal(case: &Case, idxcap: usize) -> bool {
    let g = &case.g;
    let mut par: Vec<u32> = (0..g.n() as u32).collect();
    fn find(p: &mut [u32], mut x: u32) -> u32 {
        while p[x as usize] != x {
            p[x as usize] = p[p[x as usize] as usize];
            x = p[x as usize];
        }
        x
    }
    let mut work = vec![(case.ra, case.rb)];
    while let Some((a, b)) = work.pop() {
        let (ia, ib) = (g.id[a as usize], g.id[b as usize]);
        if ia == ib {
            continue;
        }
        if cmpval(g.val[a as usize], g.val[b as usize]) != 0 {
            return false;
        }
        let (da, db) = (g.deg(a).min(idxcap), g.deg(b).min(idxcap));
        if da != db {
            return false;
        }
        if da == 0 {
            continue;
        }
        let (x, y) = (find(&mut par, ia), find(&mut par, ib));
        if x == y {
            continue;
        }
        par[x as usize] = y;
        for i in 0..da {
            work.push((g.edges(a)[i], g.edges(b)[i]));
        }
    }
    true
}

#[derive(Default, Clone, Copy)]
pub struct TraceInfo {
    pub expanded: u64,
    pub skipped: u64,
    pub max_pending: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Done(Outcome),
    /// The limit was reported as reached.
    Limit,
    /// Any other end: the trace is a prefix.
    Prefix,
}

/// Offline trace checker: the visits must be those of the documented traversal order, of true
/// counterparts, with nothing left out except below pairs whose equivalence already followed (by
/// reflexivity, symmetry and transitivity) from pairs entered before (`skips`), and must end right
/// at what decided the result.
pub fn check_trace(
    g: &Graph,
    ra: u32,
    rb: u32,
    order: Order,
    idxcap: usize,
    visits: &[PV],
    skips: bool,
    end: End,
    lv: u8,
) -> Result<TraceInfo, String> {
    let mut info = TraceInfo::default();
    let mut clo = Closure::new();
    let mut fr: std::collections::VecDeque<It> = std::collections::VecDeque::new();
    let mut k = 0usize;
    let mut cur = Some((ra, rb, ROOTPOS));
    let decided = |k: usize, o: Outcome, at: &str| -> Result<(), String> {
        match end {
            End::Done(e) => {
                if k != visits.len() {
                    return Err(format!("traversal went on after the deciding difference {o:?} ({at}) at visit {k}"));
                }
                let same = crate::node::agree(lv, e, o);
                if !same {
                    return Err(format!("returned {e:?} but the trace was decided by {o:?} ({at})"));
                }
                Ok(())
            },
            End::Limit => Err(format!("limit reported although the result {o:?} was already decided ({at})")),
            End::Prefix => {
                if k == visits.len() {
                    Ok(())
                } else {
                    Err(format!("traversal went on after the deciding difference {o:?} ({at})"))
                }
            },
        }
    };
    loop {
        if let Some((a, b, pos)) = cur.take() {
            if k >= visits.len() {
                return match end {
                    End::Limit | End::Prefix => Ok(info),
                    End::Done(o) => Err(format!("returned {o:?} without visiting the required pair ({a},{b}) (visit {k})")),
                };
            }
            let v = visits[k];
            if v.pos != pos || v.a != a || v.b != b {
                return Err(format!("visit {k}: pair ({},{}) visited where counterparts ({a},{b}) were expected", v.a, v.b));
            }
            k += 1;
            if g.id[a as usize] != g.id[b as usize] {
                let o = cmpval(g.val[a as usize], g.val[b as usize]);
                if o != 0 {
                    decided(k, Outcome::Val { ord: o, a, b }, "values")?;
                    return Ok(info);
                }
                let (da, db) = (g.deg(a).min(idxcap), g.deg(b).min(idxcap));
                if (da == 0) != (db == 0) {
                    decided(k, Outcome::Edges { ord: if da == 0 { -1 } else { 1 } }, "leaf against branch")?;
                    return Ok(info);
                }
                if da > 0 {
                    let just = skips && clo.relate(g.id[a as usize], g.id[b as usize]);
                    fr.push_back(It { a, b, pos, next: 0, just });
                    info.max_pending = info.max_pending.max(fr.len());
                }
            }
        }
        let it = match order {
            Order::Bfs => fr.front_mut(),
            _ => fr.back_mut(),
        };
        let Some(it) = it else {
            if k != visits.len() {
                return Err(format!("visit {k}: pair ({},{}) visited although nothing was left to visit", visits[k].a, visits[k].b));
            }
            return match end {
                End::Done(Outcome::Equal) | End::Prefix => Ok(info),
                End::Done(o) => Err(format!("returned {o:?} but every visited pair was equivalent")),
                End::Limit => Err("limit reported although the traversal was complete".into()),
            };
        };
        let i = it.next;
        let (ea, eb) = if i < idxcap { (g.edge(it.a, i), g.edge(it.b, i)) } else { (None, None) };
        match (ea, eb) {
            (Some(x), Some(y)) => {
                let p = childpos(it.pos, i as u64);
                let hit = k < visits.len() && visits[k].pos == p;
                if !hit && i == 0 && it.just {
                    info.skipped += 1;
                    match order {
                        Order::Bfs => drop(fr.pop_front()),
                        _ => drop(fr.pop_back()),
                    }
                    continue;
                }
                if i == 0 {
                    info.expanded += 1;
                }
                cur = Some((x, y, p));
                it.next += 1;
                let j = it.next;
                if j >= idxcap || (g.edge(it.a, j).is_none() && g.edge(it.b, j).is_none()) {
                    match order {
                        Order::Bfs => drop(fr.pop_front()),
                        _ => drop(fr.pop_back()),
                    }
                }
            },
            (None, Some(_)) => {
                decided(k, Outcome::Edges { ord: -1 }, "amount of edges")?;
                return Ok(info);
            },
            (Some(_), None) => {
                decided(k, Outcome::Edges { ord: 1 }, "amount of edges")?;
                return Ok(info);
            },
            (None, None) => match order {
                Order::Bfs => drop(fr.pop_front()),
                _ => drop(fr.pop_back()),
            },
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Generators
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cyc {
    /// Acyclic only.
    No,
    /// Any shape.
    Yes,
}

fn rand_nodes(r: &mut Rng, b: &mut B, n: usize, maxdeg: usize, nv: u32, cyc: Cyc, leafp: u64, window: usize) -> u32 {
    let base = b.val.len() as u32;
    for _ in 0..n {
        let v = r.below(u64::from(nv)) as u32;
        b.node(v, vec![]);
    }
    for i in 0..n {
        let last = i + 1 >= n;
        if cyc == Cyc::No && last {
            continue;
        }
        if i > 0 && r.chance(leafp, 100) {
            continue;
        }
        let d = r.range(1, maxdeg as u64) as usize;
        for _ in 0..d {
            let t = match cyc {
                Cyc::No => {
                    let w = window.min(n - 1 - i).max(1);
                    i + 1 + r.us(w)
                },
                Cyc::Yes => {
                    if r.chance(1, 2) && i + 1 < n {
                        i + 1 + r.us(window.min(n - 1 - i).max(1))
                    } else {
                        r.us(n)
                    }
                },
            };
            b.e[base as usize + i].push(base + t as u32);
        }
    }
    base
}

/// A bisimilar graph with different sharing: every node gets 1..=c copies, every edge goes to a
/// random copy of its target (with probability `cross`% to the original itself).
pub fn reshare(r: &mut Rng, b: &mut B, root: u32, c: u64, cross: u64) -> u32 {
    let nodes = b.reach(root);
    let mut copies: HashMap<u32, Vec<u32>> = HashMap::new();
    for &x in &nodes {
        let k = r.range(1, c);
        let v: Vec<u32> = (0..k).map(|_| b.node(b.val[x as usize], vec![])).collect();
        copies.insert(x, v);
    }
    for &x in &nodes {
        let es = b.e[x as usize].clone();
        for cp in copies[&x].clone() {
            let ne: Vec<u32> =
                es.iter().map(|y| if r.chance(cross, 100) { *y } else { *r.pick(&copies[y]) }).collect();
            b.e[cp as usize] = ne;
        }
    }
    copies[&root][0]
}

/// Change something somewhere in the nodes with index >= `lo` reachable from `root`.
/// Never introduces a cycle.
pub fn mutate(r: &mut Rng, b: &mut B, root: u32, lo: u32, nv: u32) {
    let nodes: Vec<u32> = b.reach(root).into_iter().filter(|x| *x >= lo).collect();
    if nodes.is_empty() {
        return;
    }
    // Prefer late nodes, the differences of which take longest to be found.
    let i = if r.chance(1, 2) { r.us(nodes.len()) } else { nodes.len() - 1 - r.us(nodes.len().min(1 + nodes.len() / 4)) };
    let x = nodes[i] as usize;
    match r.below(8) {
        0..=3 => {
            let v = b.val[x];
            b.val[x] = if r.chance(1, 2) { v.wrapping_add(1 + r.below(u64::from(nv)) as u32) } else { v.saturating_sub(1) };
            if b.val[x] == NAN {
                b.val[x] = 0;
            }
        },
        4 => {
            let l = b.node(r.below(u64::from(nv)) as u32, vec![]);
            let at = r.us(b.e[x].len() + 1);
            b.e[x].insert(at, l);
        },
        5 => {
            if !b.e[x].is_empty() {
                let at = r.us(b.e[x].len());
                b.e[x].remove(at);
            }
        },
        6 => {
            let n = b.e[x].len();
            if n >= 2 {
                let (p, q) = (r.us(n), r.us(n));
                b.e[x].swap(p, q);
            }
        },
        _ => {
            if !b.e[x].is_empty() {
                let at = r.us(b.e[x].len());
                let l = b.node(r.below(u64::from(nv)) as u32, vec![]);
                b.e[x][at] = l;
            }
        },
    }
}

/// Replace some edge targets by an alias: a second object for the same logical node.
fn alias(r: &mut Rng, b: &mut B, root: u32, k: usize) {
    for _ in 0..k {
        let nodes = b.reach(root);
        let x = *r.pick(&nodes) as usize;
        if b.e[x].is_empty() {
            continue;
        }
        let at = r.us(b.e[x].len());
        let t = b.e[x][at] as usize;
        let al = b.node(b.val[t], b.e[t].clone());
        b.id[al as usize] = b.id[t];
        b.e[x][at] = al;
    }
}

pub fn list(b: &mut B, n: usize, inverted: bool, elem: u32) -> (u32, Vec<u32>) {
    let mut head = b.node(0, vec![]);
    let mut all = vec![head];
    for _ in 0..n {
        let l = b.node(elem, vec![]);
        head = b.node(0, if inverted { vec![head, l] } else { vec![l, head] });
        all.push(l);
        all.push(head);
    }
    (head, all)
}

pub fn degenerate(b: &mut B, n: usize, width: usize, cyclic: bool) -> u32 {
    let tail = b.node(0, vec![]);
    let mut head = tail;
    for _ in 0..n {
        head = b.node(0, vec![head; width]);
    }
    if cyclic && n > 0 {
        b.e[tail as usize] = vec![head; width];
    }
    head
}

/// Many nodes in few shapes, for what depends on how many pairs are pending or have been visited:
/// the stack and the queue are made to hold tens of thousands of lists of siblings at once.
pub const HUGE: usize = 8;
fn huge(b: &mut B, n: usize, shape: usize) -> u32 {
    match shape {
        // Left comb: every level of it stays pending on a stack.
        0 => {
            let mut head = b.node(0, vec![]);
            for i in 0..n / 2 {
                let l = b.node((i % 3) as u32, vec![]);
                head = b.node(0, vec![head, l]);
            }
            head
        },
        // Right comb.
        1 => {
            let mut head = b.node(0, vec![]);
            for i in 0..n / 2 {
                let l = b.node((i % 3) as u32, vec![]);
                head = b.node(0, vec![l, head]);
            }
            head
        },
        // Left comb with lists for elements, so that the stack grows again below every level.
        2 => {
            let mut head = b.node(0, vec![]);
            for i in 0..n / 5 {
                let l = b.node((i % 3) as u32, vec![]);
                let m = b.node(1, vec![l]);
                let k = b.node(0, vec![m, l]);
                head = b.node(0, vec![head, k, l]);
            }
            head
        },
        // Complete binary tree: the queue holds half of it.
        3 => {
            let mut level: Vec<u32> = (0..n / 2).map(|i| b.node((i % 5) as u32, vec![])).collect();
            while level.len() > 1 {
                level = level.chunks(2).map(|c| b.node(0, c.to_vec())).collect();
            }
            level[0]
        },
        // Few levels, very wide, of nodes with edges.
        4 => {
            let w = (n as f64 / 2.0).sqrt() as usize + 1;
            let mids: Vec<u32> = (0..w)
                .map(|i| {
                    let e = (0..w)
                        .map(|j| {
                            let l = b.node(((i + j) % 4) as u32, vec![]);
                            b.node(0, vec![l])
                        })
                        .collect();
                    b.node(1, e)
                })
                .collect();
            b.node(0, mids)
        },
        // A chain.
        5 => {
            let mut head = b.node(0, vec![]);
            for i in 0..n {
                head = b.node((i % 3) as u32, vec![head]);
            }
            head
        },
        // One node with very many edges, every other one to a node with an edge itself.
        6 => {
            let l = b.node(0, vec![]);
            let e = (0..n / 2).map(|i| if i % 2 == 0 { b.node((i % 3) as u32, vec![]) } else { b.node(1, vec![l]) }).collect();
            b.node(0, e)
        },
        // Combs side by side.
        _ => {
            let x = huge(b, n / 3, 0);
            let y = huge(b, n / 3, 3);
            let z = huge(b, n / 3, 1);
            b.node(0, vec![x, y, z, x])
        },
    }
}
/// Two huge graphs, alike but for one difference: none, in the node that is visited last depth
/// first, or breadth first, or anywhere.
pub fn huge_case(r: &mut Rng, n: usize, shape: usize, diff: usize, cyclic: bool) -> Case {
    let mut b = B::default();
    let ra = huge(&mut b, n, shape);
    let lo = b.val.len();
    let rb = huge(&mut b, n, shape);
    let hi = b.val.len();
    let last = |b: &B, bfs: bool| {
        if bfs {
            *b.reach(rb).last().expect("root") as usize
        } else {
            let mut x = rb as usize;
            while let Some(y) = b.e[x].last() {
                x = *y as usize;
            }
            x
        }
    };
    match diff % 4 {
        0 => (),
        d @ (1 | 2) => {
            let x = last(&b, d == 2);
            if r.chance(1, 2) {
                b.val[x] += 1;
            } else {
                let l = b.node(0, vec![]);
                b.e[x].push(l);
            }
        },
        _ => mutate(r, &mut b, rb, lo as u32, 3),
    }
    if cyclic {
        // The same back edges on both sides.
        for _ in 0..r.range(1, 20) {
            let x = r.us(lo);
            let y = if r.chance(1, 2) { lo - 1 } else { r.us(lo) };
            if lo + x < hi && lo + y < hi {
                b.e[x].push(y as u32);
                b.e[lo + x].push((lo + y) as u32);
            }
        }
    }
    Case::new(&b, ra, rb, "huge")
}

/// Two roots with `w` edges each to distinct nodes with an edge, then pairs of these that make one
/// class of them all, then some pairs again.
pub fn merge_case(r: &mut Rng, w: usize, style: usize) -> Case {
    let mut b = B::default();
    let l = b.node(0, vec![]);
    let xs: Vec<u32> = (0..w).map(|_| b.node(1, vec![l])).collect();
    let m = b.node(0, vec![]);
    let ys: Vec<u32> = (0..w).map(|_| b.node(1, vec![m])).collect();
    let mut pairs: Vec<(usize, usize)> = (0..w).map(|i| (i, i)).collect();
    match style % 5 {
        // To the first one.
        0 => pairs.extend((1..w).map(|i| (0, i))),
        // From the last one, the other way round.
        1 => pairs.extend((0..w - 1).rev().map(|i| (i, w - 1))),
        // In a row.
        2 => pairs.extend((1..w).map(|i| (i - 1, i))),
        // Equals with equals.
        3 => {
            let mut d = 1;
            while d < w {
                pairs.extend((0..w - d).step_by(2 * d).map(|i| (i, i + d)));
                d *= 2;
            }
        },
        // In any order.
        _ => {
            for i in 1..w {
                let j = r.us(i);
                pairs.push(if r.chance(1, 2) { (i, j) } else { (j, i) });
            }
        },
    }
    for _ in 0..w / 8 {
        pairs.push((r.us(w), r.us(w)));
    }
    let ra = b.node(2, pairs.iter().map(|p| xs[p.0]).collect());
    let rb = b.node(2, pairs.iter().map(|p| ys[p.1]).collect());
    Case::new(&b, ra, rb, "merges")
}

fn grid(b: &mut B, w: usize, h: usize) -> u32 {
    // Binomially shared acyclic grid: node (i,j) -> (i+1,j),(i,j+1)
    let mut ix = vec![vec![0u32; h]; w];
    for i in (0..w).rev() {
        for j in (0..h).rev() {
            let mut e = vec![];
            if i + 1 < w {
                e.push(ix[i + 1][j]);
            }
            if j + 1 < h {
                e.push(ix[i][j + 1]);
            }
            ix[i][j] = b.node(0, e);
        }
    }
    ix[0][0]
}

pub const FAMILIES: usize = 16;

/// `n` is roughly the number of nodes on each side.
pub fn gen_case(r: &mut Rng, n: usize, cyc: Cyc, fam: usize, nan_ok: bool) -> Case {
    let mut b = B::default();
    let n = n.max(1);
    let nv: u32 = *r.pick(&[1, 1, 2, 2, 3, 5]);
    let maxdeg = *r.pick(&[1usize, 2, 2, 2, 3, 3, 4, 6]);
    let leafp = *r.pick(&[0u64, 10, 20, 40, 60]);
    let window = *r.pick(&[1usize, 2, 3, 5, 20, 1000]);
    let mut label;
    let (ra, rb);
    match fam {
        0 => {
            label = "independent".to_string();
            ra = rand_nodes(r, &mut b, n, maxdeg, nv, cyc, leafp, window);
            rb = rand_nodes(r, &mut b, n, maxdeg, nv, cyc, leafp, window);
        },
        1..=4 => {
            ra = rand_nodes(r, &mut b, n, maxdeg, nv, cyc, leafp, window);
            let lo = b.val.len() as u32;
            let cross = *r.pick(&[0u64, 0, 0, 10, 40]);
            let c = *r.pick(&[1u64, 1, 2, 3]);
            rb = reshare(r, &mut b, ra, c, cross);
            let m = match fam {
                1 => 0,
                2 => 1,
                3 => r.range(2, 5),
                _ => r.range(1, 2),
            };
            let target = if fam == 4 { ra } else { rb };
            for _ in 0..m {
                mutate(r, &mut b, target, if fam == 4 { 0 } else { lo }, nv + 1);
            }
            label = format!("reshared+{m}");
        },
        5 => {
            // Lassos: tails and cycles of different lengths (on acyclic: plain chains).
            let w = r.range(1, 3) as usize;
            let mk = |r: &mut Rng, b: &mut B| {
                let t = r.us(n / 2 + 1);
                let c = r.range(1, n as u64) as usize;
                let cbase = b.val.len() as u32;
                for _ in 0..c {
                    b.node(0, vec![]);
                }
                for i in 0..c {
                    let nx = if i + 1 < c {
                        Some(cbase + i as u32 + 1)
                    } else if cyc == Cyc::Yes {
                        Some(cbase)
                    } else {
                        None
                    };
                    if let Some(nx) = nx {
                        b.e[cbase as usize + i] = vec![nx; w];
                    }
                }
                let mut h = cbase;
                for _ in 0..t {
                    h = b.node(0, vec![h; w]);
                }
                h
            };
            ra = mk(r, &mut b);
            let lo = b.val.len() as u32;
            rb = mk(r, &mut b);
            if r.chance(1, 2) {
                mutate(r, &mut b, rb, lo, 2);
            }
            label = "lasso".into();
        },
        6 => {
            // A wide root that drives a scripted sequence of counterpart pairs.
            let k = n.max(2);
            let m = r.range(1, 3 * k as u64) as usize;
            let leafs = [b.node(0, vec![]), b.node(1, vec![])];
            let diff = r.us(3);
            let pool: Vec<u32> = (0..k)
                .map(|_| {
                    let l = if diff > 0 && r.chance(1, k as u64) { leafs[1] } else { leafs[0] };
                    if r.chance(1, 5) {
                        let inner = b.node(0, vec![l]);
                        b.node(0, vec![inner])
                    } else {
                        b.node(0, vec![l])
                    }
                })
                .collect();
            let same = r.chance(1, 2); // make all of the pool the same depth
            if same {
                for &p in &pool {
                    let l = if diff == 2 && r.chance(1, 2 * k as u64) { leafs[1] } else { leafs[0] };
                    b.e[p as usize] = vec![l];
                }
            }
            let (mut ea, mut eb) = (vec![], vec![]);
            let style = r.below(4);
            for j in 0..m {
                match style {
                    0 => {
                        ea.push(*r.pick(&pool));
                        eb.push(*r.pick(&pool));
                    },
                    1 => {
                        ea.push(pool[j % k]);
                        eb.push(pool[(j + 1) % k]);
                    },
                    2 => {
                        ea.push(pool[0]);
                        eb.push(pool[j % k]);
                    },
                    _ => {
                        let s = 1usize << (r.below(6) as usize);
                        ea.push(pool[(j * s) % k]);
                        eb.push(pool[(j * s + s / 2) % k]);
                    },
                }
            }
            ra = b.node(0, ea);
            rb = b.node(0, eb);
            label = format!("pairscript{style}");
        },
        7 => {
            let w = r.range(2, 3) as usize;
            let c = cyc == Cyc::Yes && r.chance(1, 2);
            // Without sharing detection this is exponential: the callers guard on naive visits.
            let d = if cyc == Cyc::No { n.min(12) } else { n };
            let d = r.range((d / 2) as u64, d as u64) as usize;
            ra = degenerate(&mut b, d, w, c);
            let lo = b.val.len() as u32;
            let d2 = if r.chance(1, 4) && d > 0 { d - 1 } else { d };
            rb = degenerate(&mut b, if c && r.chance(1, 3) { d / 2 + 1 } else { d2 }, w, c);
            if r.chance(1, 2) {
                mutate(r, &mut b, rb, lo, 2);
            }
            label = "degenerate".into();
        },
        8 => {
            let inv = r.chance(1, 2);
            ra = list(&mut b, n, inv, 1).0;
            let lo = b.val.len() as u32;
            rb = list(&mut b, if r.chance(1, 4) { n + 1 } else { n }, inv, 1).0;
            for _ in 0..r.below(3) {
                mutate(r, &mut b, rb, lo, 2);
            }
            label = "list".into();
        },
        9 => {
            // Wide and shallow.
            let w = n.max(1);
            let kids: Vec<u32> = (0..w)
                .map(|_| {
                    if r.chance(1, 3) {
                        let l = b.node(0, vec![]);
                        b.node(0, vec![l])
                    } else {
                        b.node(0, vec![])
                    }
                })
                .collect();
            ra = b.node(0, kids);
            let lo = b.val.len() as u32;
            rb = reshare(r, &mut b, ra, 2, 20);
            for _ in 0..r.below(3) {
                mutate(r, &mut b, rb, lo, 2);
            }
            label = "wide".into();
        },
        10 => {
            // The second graph is a part of, or wraps, the first one.
            ra = rand_nodes(r, &mut b, n, maxdeg, nv, cyc, leafp, window);
            let nodes = b.reach(ra);
            rb = match r.below(3) {
                0 => ra,
                1 => *r.pick(&nodes),
                _ => {
                    let k = r.range(1, maxdeg as u64);
                    let e: Vec<u32> = (0..k).map(|_| *r.pick(&nodes)).collect();
                    b.node(b.val[ra as usize], e)
                },
            };
            label = "selfpart".into();
        },
        11 => {
            let w = ((n as f64).sqrt() as usize).clamp(1, 6);
            let h = (n / w).clamp(1, if cyc == Cyc::No { 7 } else { 60 });
            ra = grid(&mut b, w, h);
            let lo = b.val.len() as u32;
            rb = reshare(r, &mut b, ra, 2, 0);
            for _ in 0..r.below(3) {
                mutate(r, &mut b, rb, lo, 2);
            }
            label = "grid".into();
        },
        12 => {
            // Unfolded tree against its shared form.
            ra = rand_nodes(r, &mut b, n.min(10), maxdeg.min(3), nv, Cyc::No, leafp, window.min(3));
            let lo = b.val.len() as u32;
            fn unfold(b: &mut B, x: u32, budget: &mut usize) -> u32 {
                if *budget == 0 {
                    return x;
                }
                *budget -= 1;
                let es = b.e[x as usize].clone();
                let v = b.val[x as usize];
                let ne: Vec<u32> = es.iter().map(|y| unfold(b, *y, budget)).collect();
                b.node(v, ne)
            }
            let mut budget = 4 * n + 8;
            rb = unfold(&mut b, ra, &mut budget);
            for _ in 0..r.below(3) {
                mutate(r, &mut b, rb, lo, nv + 1);
            }
            label = "unfolded".into();
        },
        13 => {
            // Complete automaton, two start states.
            if cyc == Cyc::Yes {
                let k = r.range(1, 3) as usize;
                let base = b.val.len() as u32;
                for _ in 0..n + 1 {
                    b.node(0, vec![]);
                }
                for i in 0..=n {
                    b.e[base as usize + i] = (0..k).map(|_| base + r.us(n + 1) as u32).collect();
                }
                for _ in 0..r.below(3) {
                    let x = r.us(n + 1);
                    b.val[base as usize + x] = 1;
                }
                ra = base;
                rb = base + r.us(n + 1) as u32;
            } else {
                ra = rand_nodes(r, &mut b, n, maxdeg, 1, cyc, leafp, window);
                rb = ra + r.us(n) as u32;
            }
            label = "automaton".into();
        },
        14 => {
            // Several differences of opposite direction, in a layered graph where the two
            // traversal orders meet them in a different sequence.
            let layers = r.range(2, 5) as usize;
            let per = (n / layers).max(1);
            let mut prev: Vec<u32> = (0..per).map(|_| b.node(5, vec![])).collect();
            for _ in 0..layers {
                prev = (0..per)
                    .map(|_| {
                        let d = r.range(1, maxdeg as u64);
                        let e = (0..d).map(|_| *r.pick(&prev)).collect();
                        b.node(5, e)
                    })
                    .collect();
            }
            if cyc == Cyc::Yes && r.chance(1, 2) {
                let nodes = b.reach(prev[0]);
                let x = *r.pick(&nodes) as usize;
                let y = *r.pick(&nodes);
                b.e[x].push(y);
            }
            ra = b.node(5, prev);
            let lo = b.val.len() as u32;
            rb = reshare(r, &mut b, ra, 2, 0);
            for _ in 0..r.range(1, 6) {
                let nodes: Vec<u32> = b.reach(rb).into_iter().filter(|x| *x >= lo).collect();
                let x = *r.pick(&nodes) as usize;
                b.val[x] = if r.chance(1, 2) { 4 } else { 6 };
            }
            label = "layered".into();
        },
        _ => {
            // Vee: long on the left side and on the right side.
            let (l, _) = list(&mut b, n / 2, true, 1);
            let (rr, _) = list(&mut b, n / 2, false, 1);
            ra = b.node(0, vec![l, rr]);
            let lo = b.val.len() as u32;
            rb = reshare(r, &mut b, ra, 1, 0);
            for _ in 0..r.below(3) {
                mutate(r, &mut b, rb, lo, 2);
            }
            label = "vee".into();
        },
    }
    if nan_ok && r.chance(1, 12) {
        let nodes = b.reach(rb);
        let x = *r.pick(&nodes) as usize;
        b.val[x] = NAN;
        label.push_str("+nan");
    }
    if r.chance(1, 10) {
        alias(r, &mut b, rb, 2);
        alias(r, &mut b, ra, 1);
        label.push_str("+alias");
    }
    let (ra, rb) = if r.chance(1, 8) { (rb, ra) } else { (ra, rb) };
    Case::new(&b, ra, rb, &label)
}
