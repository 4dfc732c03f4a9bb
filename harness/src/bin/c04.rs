//! C04: the orderings given to graphs are orderings.
use std::cmp::Ordering::{self, *};
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::util::*;

/// Several related graphs in one arena.
fn family(r: &mut Rng, n: usize, cyc: Cyc, m: usize) -> (B, Vec<u32>) {
    let fam = r.us(FAMILIES);
    let c = gen_case(r, n, cyc, fam, false);
    let mut b = B {
        val: c.g.val.clone(),
        e: (0..c.g.n() as u32).map(|x| c.g.edges(x).to_vec()).collect(),
        id: c.g.id.clone(),
    };
    let mut roots = vec![c.ra, c.rb];
    while roots.len() < m {
        let from = *r.pick(&roots);
        match r.below(6) {
            0 => {
                let nodes = b.reach(from);
                roots.push(*r.pick(&nodes));
            },
            _ => {
                let lo = b.val.len() as u32;
                let cp = r.range(1, 2);
                let x = reshare(r, &mut b, from, cp, 0);
                for _ in 0..r.below(4) {
                    mutate(r, &mut b, x, lo, 3);
                }
                if cyc == Cyc::Yes && r.chance(1, 4) {
                    let nodes = b.reach(x);
                    let (p, q) = (*r.pick(&nodes), *r.pick(&nodes));
                    if p >= lo {
                        b.e[p as usize].push(q);
                    }
                }
                roots.push(x);
            },
        }
    }
    (b, roots)
}

/// Graphs that differ in every repetition of a cycle.
fn periodic(r: &mut Rng, m: usize) -> (B, Vec<u32>) {
    let mut b = B::default();
    let leaves: Vec<u32> = (0..3).map(|v| b.node(v, vec![])).collect();
    let mut roots = vec![];
    for _ in 0..m {
        let p = r.range(1, 4) as usize;
        let base = b.val.len() as u32;
        for _ in 0..p {
            b.node(0, vec![]);
        }
        for i in 0..p {
            let nx = base + ((i + 1) % p) as u32;
            let l = *r.pick(&leaves);
            b.e[base as usize + i] = vec![nx, l];
        }
        roots.push(base);
    }
    (b, roots)
}

fn laws(b: &B, roots: &[u32], alg: Alg, trans: bool, cov: &mut Cov) {
    let g = b.freeze();
    let m = roots.len();
    let mut mat = vec![vec![None; m]; m];
    for i in 0..m {
        for j in 0..m {
            let case = Case { g: g.clone(), ra: roots[i], rb: roots[j], label: "set".into(), cyclic: g.is_cyclic(&[roots[i], roots[j]]) };
            let bound = if alg.safe() {
                safe_bound(&case, alg)
            } else {
                let s = naive(&case, alg.orders().1, usize::MAX, 20_000);
                if s.stop == Stop::Cap {
                    return;
                }
                s.visits.len() as u64
            };
            if bound > 1_000_000 {
                return;
            }
            set_rng(RngCfg::Split(7));
            let rep = run::<KOrd>(&case, alg, all_fns, &Opt { rec: false, budget: budget_for(bound), ..Opt::default() });
            match rep.end {
                End1::Ok(o) => mat[i][j] = Some(o.ord()),
                ref e => {
                    cov.vio(format!("{} gave {}: {}", alg.name(), end_text(e), case.dump(60)));
                    return;
                },
            }
            cov.add("comparisons", 1);
        }
    }
    let o = |i: usize, j: usize| -> Ordering { mat[i][j].unwrap().cmp(&0) };
    let d = |i: usize| Case { g: g.clone(), ra: roots[i], rb: roots[i], label: format!("graph{i}"), cyclic: false }.dump(40);
    for i in 0..m {
        if o(i, i) != Equal {
            cov.vio(format!("{}: a graph compared with itself gave {:?}: {}", alg.name(), o(i, i), d(i)));
        }
        for j in 0..m {
            if o(i, j) != o(j, i).reverse() {
                cov.vio(format!("{}: cmp(x,y) = {:?} but cmp(y,x) = {:?}: {} / {}", alg.name(), o(i, j), o(j, i), d(i), d(j)));
            }
            cov.add("antisymmetry_checks", 1);
            if !trans {
                continue;
            }
            for k in 0..m {
                cov.add("transitivity_checks", 1);
                let bad = (o(i, j) != Greater && o(j, k) != Greater && o(i, k) == Greater)
                    || (o(i, j) == Equal && o(j, k) != o(i, k))
                    || (o(i, j) == Less && o(j, k) == Less && o(i, k) != Less);
                if bad {
                    cov.vio(format!(
                        "{}: not transitive: x,y {:?}; y,z {:?}; x,z {:?}: {} / {} / {}",
                        alg.name(), o(i, j), o(j, k), o(i, k), d(i), d(j), d(k)
                    ));
                    return;
                }
            }
        }
    }
    // Sorting with it leaves every element not greater than each later one.
    if trans {
        let mut ix: Vec<usize> = (0..m).collect();
        ix.sort_by(|x, y| o(*x, *y));
        for p in 0..m {
            for q in p..m {
                if o(ix[p], ix[q]) == Greater {
                    cov.vio(format!("{}: sorting left a greater graph first: {} / {}", alg.name(), d(ix[p]), d(ix[q])));
                    return;
                }
            }
        }
    }
    let distinct: std::collections::HashSet<Vec<i8>> = mat.iter().map(|v| v.iter().map(|x| x.unwrap()).collect()).collect();
    let h = roots.iter().fold(0, |h, x| mix2(h, Case { g: g.clone(), ra: *x, rb: *x, label: String::new(), cyclic: false }.hash()));
    let sig = mix2(h, alg.name().bytes().fold(3, |h, b| mix2(h, u64::from(b))));
    cov.eval((distinct.len() >= 3).then_some(sig));
    cov.sample(|| format!("{}: {m} graphs, {} distinct rows, first: {}", alg.name(), distinct.len(), d(0)));
}

/// The input of the known finding (see DESIGN.md): depth-first comparison of cyclic graphs is not
/// transitive.  Reported each time it is seen; the known-findings file lists exactly this input.
fn known_triple(cov: &mut Cov) {
    let mut b = B::default();
    let l: Vec<u32> = (0..3).map(|v| b.node(v, vec![])).collect();
    let mut ring = |vals: &[usize]| {
        let base = b.val.len() as u32;
        for _ in vals {
            b.node(0, vec![]);
        }
        for (i, v) in vals.iter().enumerate() {
            b.e[base as usize + i] = vec![base + ((i + 1) % vals.len()) as u32, l[*v]];
        }
        base
    };
    let roots = [ring(&[2, 1]), ring(&[2, 2, 0]), ring(&[1, 2, 0, 1])];
    for alg in [Alg::Cyc, Alg::CycPre] {
        let o = |i: usize, j: usize| {
            let case = Case::new(&b, roots[i], roots[j], "triple");
            let rep = run::<KOrd>(&case, alg, std_fns, &Opt { rec: false, budget: 1_000_000, ..Opt::default() });
            match rep.end {
                End1::Ok(o) => o.ord(),
                _ => 0,
            }
        };
        let (xy, yz, xz) = (o(0, 1), o(1, 2), o(0, 2));
        if xy < 0 && yz < 0 && xz > 0 {
            cov.vio(format!("{} is not transitive on the listed rings of (2,1) (2,2,0) (1,2,0,1): x<y, y<z, x>z", alg.name()));
        }
    }
}

fn job(j: &mut Job, cov: &mut Cov) {
    if j.part == 0 && j.k == 0 {
        known_triple(cov);
    }
    let r = &mut j.rng;
    let algs = [Alg::Rob, Alg::RobPre, Alg::Cyc, Alg::CycPre, Alg::Basic, Alg::Deep, Alg::Wide];
    for _ in 0..30 {
        let m = r.range(4, 7) as usize;
        let cyc = if r.chance(1, 2) { Cyc::Yes } else { Cyc::No };
        let (b, roots) = match (j.part, cyc) {
            (1, Cyc::Yes) => periodic(r, m),
            _ => {
                let n = if j.part == 0 { size(r, 20) } else { size(r, 150) };
                family(r, n, cyc, m)
            },
        };
        let g = b.freeze();
        let cyclic = g.is_cyclic(&roots);
        for i in 0..9 {
            let alg = if i < 7 { algs[i] } else { safe_alg(r, false) };
            // The precheck and the interleaving of one function may traverse in different orders,
            // a mixture that is documented to no one as an ordering.
            if alg.pre().is_some() && alg.orders().0 != alg.orders().1 {
                continue;
            }
            if cyclic && !alg.safe() {
                continue;
            }
            let dfs = alg.orders().1 == Order::Dfs;
            laws(&b, &roots, alg, !(cyclic && dfs), cov);
        }
    }
}
static PLAN: Plan = Plan {
    prop: "C04",
    rule: "a distinct (set of 4 to 7 graphs, function) whose full comparison matrix was judged and has at least 3 different rows",
    parts: &[(70, 6_000), (60, 4_000)],
    stack: 1 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
