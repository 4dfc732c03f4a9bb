//! C07: limited comparisons: exact limits, and nothing but the limit.
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::alg_sig;
use vmon::util::Rng;

fn mk(f: usize, t: T, l: u128) -> Alg {
    match f {
        0 => Alg::BasicL(t, l),
        1 => Alg::DeepL(t, l),
        _ => Alg::WideL(t, l),
    }
}
/// `v`: pairs the unlimited comparison visits; `None` when it never ends (or is far beyond `l`).
fn one<K: Kind>(case: &Case, alg: Alg, call: Call<K>, v: Option<(u64, Outcome)>, cov: &mut Cov) {
    let l = alg.limit().unwrap();
    let rec = case.g.n() < 5_000;
    let want = v.map_or(l, |(v, _)| u128::from(v).min(l)) as u64;
    let rep = run::<K>(case, alg, call, &Opt { rec, budget: budget_for(want), maxrec: 200_000, ..Opt::default() });
    cov.add("pairs_visited", rep.nvis);
    cov.max("max_pairs_in_one_comparison", rep.nvis);
    let exp = match v {
        Some((v, o)) if u128::from(v) <= l => End1::Ok(o),
        _ => End1::Limit,
    };
    cov.add(if exp == End1::Limit { "limit_reached" } else { "completed" }, 1);
    if v.is_some_and(|(v, _)| u128::from(v).abs_diff(l) <= 1) {
        cov.add("at_the_exact_boundary", 1);
    }
    cov.eval((rep.nvis >= 2).then(|| alg_sig(case, alg, K::C::LV)));
    cov.sample(|| format!("{} on {} -> {} after {}", alg.name(), case.dump(6), end_text(&rep.end), rep.nvis));
    let ok = match (&rep.end, &exp) {
        (End1::Ok(g), End1::Ok(e)) => agree(K::C::LV, *g, *e),
        (a, b) => a == b,
    };
    if !ok {
        cov.vio(format!(
            "{} gave {} where {} was due (the unlimited comparison visits {:?}): {}",
            alg.name(), end_text(&rep.end), end_text(&exp), v.map(|x| x.0), case.dump(40)
        ));
    } else if rep.nvis != want {
        cov.vio(format!("{} visited {} pairs where {want} were due: {}", alg.name(), rep.nvis, case.dump(40)));
    }
}
fn any(case: &Case, f: usize, t: T, l: u128, v: Option<(u64, Outcome)>, r: &mut Rng, cov: &mut Cov) {
    let alg = mk(f, t, l);
    match r.below(3) {
        0 => one::<KRich>(case, alg, std_fns, v, cov),
        1 => one::<KOrd>(case, alg, std_fns, v, cov),
        _ if (0..case.g.n()).all(|x| case.g.deg(x as u32) < 60_000) => one::<KBool>(case, alg, std_fns, v, cov),
        _ => one::<KRich>(case, alg, std_fns, v, cov),
    }
}
fn order(f: usize) -> Order {
    if f == 1 {
        Order::Bfs
    } else {
        Order::Dfs
    }
}
/// An equal pair for which the comparison visits exactly `v` pairs.
fn exact(r: &mut Rng, v: usize) -> Case {
    let mut b = B::default();
    let style = r.below(3);
    let mk = |b: &mut B, r: &mut Rng| match style {
        0 => {
            let kids: Vec<u32> = (0..v - 1).map(|_| b.node(0, vec![])).collect();
            b.node(0, kids)
        },
        1 => {
            let mut h = b.node(0, vec![]);
            for _ in 0..v - 1 {
                h = b.node(0, vec![h]);
            }
            h
        },
        _ => {
            // A tree of exactly `v` nodes.
            let base = b.val.len() as u32;
            let mut rr = Rng::new(v as u64);
            for i in 0..v {
                b.node(0, vec![]);
                if i > 0 {
                    let p = base + rr.us(i).saturating_sub(rr.us(4)) as u32;
                    b.e[p as usize].push(base + i as u32);
                }
            }
            let _ = r;
            base
        },
    };
    let x = mk(&mut b, r);
    let y = mk(&mut b, r);
    Case::new(&b, x, y, "exact")
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    match j.part {
        0 => {
            // Around the amount needed, every function, every type of limit.
            for _ in 0..80 {
                let (case, _) = acyc_case(r, 50, 20_000);
                for f in 0..3 {
                    let s = naive(&case, order(f), usize::MAX, 20_000);
                    let Stop::Done(o) = s.stop else { continue };
                    let v = s.visits.len() as u64;
                    let vv = u128::from(v);
                    for l in [0, 1, 2, vv / 2, vv.saturating_sub(2), vv - 1, vv, vv + 1, vv + 2] {
                        let t = *r.pick(&TS);
                        if l <= t.max() {
                            any(&case, f, t, l, Some((v, o)), r, cov);
                        }
                    }
                    for t in TS {
                        let l = *r.pick(&[t.max(), t.max() - 1, t.max() / 2, t.max() / 2 + 1, 255.min(t.max()), 256u128.min(t.max()), 65_535.min(t.max()), 65_536.min(t.max())]);
                        any(&case, f, t, l, Some((v, o)), r, cov);
                    }
                }
            }
        },
        1 => {
            // Cyclic graphs: always ends, by the limit unless a difference is met before.
            for _ in 0..60 {
                let n = size(r, 30);
                let fam = r.us(FAMILIES);
                let case = gen_case(r, n, Cyc::Yes, fam, true);
                for f in 0..3 {
                    let t = *r.pick(&TS);
                    let l = match r.below(5) {
                        0 => r.below(8),
                        1 => r.below(300),
                        2 => r.range(250, 260),
                        3 => r.range(2, 20) * case.g.n() as u64,
                        _ => r.below(5_000),
                    };
                    let l = u128::from(l).min(t.max());
                    let s = naive(&case, order(f), usize::MAX, l as usize + 1);
                    let v = match s.stop {
                        Stop::Done(o) => Some((s.visits.len() as u64, o)),
                        _ => None,
                    };
                    any(&case, f, t, l, v, r, cov);
                }
            }
        },
        _ => {
            // Exactly around the capacities of the limit types.
            let v = [255usize, 256, 257, 65_535, 65_536, 65_537, 131_072, 400, 401][(j.k % 9) as usize];
            let case = exact(r, v);
            for f in 0..3 {
                for t in TS {
                    for l in [v as u128 - 1, v as u128, v as u128 + 1, t.max()] {
                        if l <= t.max() {
                            any(&case, f, t, l, Some((v as u64, Outcome::Equal)), r, cov);
                        }
                    }
                }
                // A ring, so that exactly the limit is what ends it.
                let mut b = B::default();
                let x = b.node(0, vec![1]);
                b.node(0, vec![0]);
                let y = b.node(0, vec![2]);
                let ring = Case::new(&b, x, y, "ring");
                let t = *r.pick(&[T::U16, T::U32, T::U64, T::U128, T::Us]);
                any(&ring, f, t, (v as u128).min(t.max()), None, r, cov);
            }
        },
    }
}
static PLAN: Plan = Plan {
    prop: "C07",
    rule: "a distinct (pair of graphs, function, type and value of the limit, comparison type) whose comparison visited at least 2 pairs, judged for result and exact amount of pairs visited",
    parts: &[(100, 8_000), (80, 5_000), (18, 180)],
    stack: 2 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
