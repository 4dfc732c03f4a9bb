//! C08: the precheck: its limit, its result, and the fresh start after it.
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::*;
use vmon::util::Rng;

const PMS: [Pm; 5] = [Pm::CC, Pm::QQ, Pm::SS, Pm::CQ, Pm::CS];

fn one<K: Kind>(case: &Case, alg: Alg, call: Call<K>, r: &mut Rng, cov: &mut Cov) {
    set_rng(rng_cfg(r));
    let Some(t) = traced::<K>(case, alg, call, 0, 400_000) else {
        cov.add("skipped_for_cost", 1);
        return;
    };
    let p = alg.pre().unwrap();
    let dec = t.pre_decided == Some(true);
    cov.add(if dec { "decided_by_the_precheck" } else { "precheck_gave_up" }, 1);
    cov.add("pairs_visited", t.rep.nvis);
    cov.eval((t.rep.nvis >= 2).then(|| alg_sig(case, alg, K::C::LV)));
    cov.sample(|| format!("{} on {}: decided by precheck {dec}, {} pairs", alg.name(), case.dump(6), t.rep.nvis));
    for b in &t.bad {
        cov.vio(format!("{}: {b}: {}", alg.name(), case.dump(60)));
    }
    if !t.bad.is_empty() {
        return;
    }
    if dec && t.rep.n_hash > 0 {
        cov.vio(format!("{}: {} identities were hashed although the precheck decides: {}", alg.name(), t.rep.n_hash, case.dump(60)));
    }
    if dec && !t.rep.draws.is_empty() {
        cov.vio(format!("{}: random numbers were drawn although the precheck decides: {}", alg.name(), case.dump(60)));
    }
    if dec && u64::from(p) < t.rep.nvis {
        cov.vio(format!("{}: the precheck visited {} pairs, its limit is {p}: {}", alg.name(), t.rep.nvis, case.dump(60)));
    }
    // The same answer as without a precheck.
    if K::C::LV == 0 || !case.cyclic || alg.orders() == (Order::Bfs, Order::Bfs) {
        let (_, om) = alg.orders();
        if let (End1::Ok(o), true) = (&t.rep.end, alg.orders().0 == om) {
            let w = if om == Order::Dfs && case.cyclic {
                (hk_equal(case, usize::MAX)).then_some(Outcome::Equal)
            } else {
                first_diff(case, om, usize::MAX, 400_000)
            };
            if let Some(w) = w {
                cov.add("same_as_without_precheck", 1);
                if !agree(K::C::LV, *o, w) {
                    cov.vio(format!("{} returned {o:?}, without a precheck it is {w:?}: {}", alg.name(), case.dump(60)));
                }
            }
        }
    }
}
/// A pair of equal graphs of which the naive traversal is of about `v` pairs, then a difference or
/// not at the very end, or early.
fn around(r: &mut Rng, v: usize) -> Case {
    let mut b = B::default();
    let style = r.below(4);
    let cyc = r.chance(1, 4);
    let v = v.max(1);
    let mk = |b: &mut B| -> (u32, u32) {
        match style {
            0 => {
                let kids: Vec<u32> = (0..v - 1).map(|_| b.node(0, vec![])).collect();
                let l = kids.last().copied();
                let x = b.node(0, kids);
                (x, l.unwrap_or(x))
            },
            1 => {
                let l = b.node(0, vec![]);
                let mut h = l;
                for _ in 0..v - 1 {
                    h = b.node(0, vec![h]);
                }
                (h, l)
            },
            2 => {
                // Pairs left pending when the limit is reached.
                let l = b.node(0, vec![]);
                let mut h = l;
                for i in 0..(v - 1) / 2 {
                    let k = b.node(0, vec![]);
                    h = b.node(0, if i % 2 == 0 { vec![h, k] } else { vec![k, h] });
                }
                (h, l)
            },
            _ => {
                let w = 1 + v / 3;
                let l = b.node(0, vec![]);
                let inner = b.node(0, vec![l]);
                let e: Vec<u32> = (0..w).map(|i| if i % 2 == 0 { inner } else { b.node(0, vec![]) }).collect();
                (b.node(0, e), l)
            },
        }
    };
    let (x, lx) = mk(&mut b);
    let (y, ly) = mk(&mut b);
    if r.chance(1, 2) {
        b.val[ly as usize] = 1;
    }
    if cyc {
        b.e[lx as usize] = vec![x];
        b.e[ly as usize] = vec![y];
    }
    // Maybe share across.
    if r.chance(1, 4) {
        let e = b.e[x as usize].clone();
        if let (Some(f), true) = (e.first(), !b.e[y as usize].is_empty()) {
            b.e[y as usize][0] = *f;
        }
    }
    Case::new(&b, x, y, "around")
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    let algs = |r: &mut Rng| match r.below(8) {
        0 => Alg::CycPre,
        1 => Alg::RobPre,
        _ => Alg::GP(*r.pick(&PMS), cs(r, false)),
    };
    match j.part {
        0 => {
            for _ in 0..250 {
                let case = cyc_case(r, 60);
                for _ in 0..5 {
                    let a = algs(r);
                    one::<KRich>(&case, a, all_fns, r, cov);
                }
            }
        },
        1 => {
            for _ in 0..200 {
                let a = algs(r);
                let p = a.pre().unwrap() as usize;
                if p > 5_000 {
                    continue;
                }
                let v = (p + r.us(5)).saturating_sub(r.us(5));
                let case = around(r, v);
                match (a, r.below(3)) {
                    (Alg::GP(..), _) | (_, 0) => one::<KRich>(&case, a, all_fns, r, cov),
                    (_, 1) => one::<KOrd>(&case, a, std_fns, r, cov),
                    _ => one::<KBool>(&case, a, std_fns, r, cov),
                }
            }
        },
        _ => {
            // The greatest limit there is.
            for v in [65_534usize, 65_535, 65_536, 65_537] {
                let case = around(r, v);
                let a = Alg::GP(*r.pick(&PMS), 13);
                one::<KRich>(&case, a, all_fns, r, cov);
            }
        },
    }
}
static PLAN: Plan = Plan {
    prop: "C08",
    rule: "a distinct (pair of graphs, function with precheck, its parameters) with at least 2 visited pairs, whose trace was split at the fresh start and judged on both sides of it",
    parts: &[(120, 8_000), (220, 10_000), (12, 300)],
    stack: 2 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
