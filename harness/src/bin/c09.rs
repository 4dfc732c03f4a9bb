//! C09: sharing-aware comparisons end, within the amount of work the interleaving guarantees.
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::alg_sig;
use vmon::util::*;

fn judge(case: &Case, name: &str, sig: u64, bound: u64, rep: &Rep, cov: &mut Cov) {
    cov.add("pairs_visited", rep.nvis);
    cov.max("max_pairs_in_one_comparison", rep.nvis);
    cov.max("nearest_to_the_bound_percent", rep.nvis * 100 / bound.max(1));
    if case.cyclic {
        cov.add("on_cyclic", 1);
    }
    cov.eval((rep.nvis >= 3).then_some(sig));
    cov.sample(|| format!("{name} on {}: {} of at most {bound} pairs", case.dump(5), rep.nvis));
    match &rep.end {
        End1::Ok(_) => {
            if rep.nvis > bound {
                cov.vio(format!("{name} visited {} pairs, at most {bound} can be needed: {}", rep.nvis, case.dump(60)));
            }
        },
        e => cov.vio(format!("{name} gave {} after {} pairs (at most {bound} can be needed): {}", end_text(e), rep.nvis, case.dump(60))),
    }
}
fn one(case: &Case, alg: Alg, max: u64, cov: &mut Cov) {
    let bound = safe_bound(case, alg);
    if bound > max {
        cov.add("skipped_for_cost", 1);
        return;
    }
    let rep = run::<KRich>(case, alg, all_fns, &Opt { rec: false, budget: budget_for(bound), ..Opt::default() });
    judge(case, &alg.name(), alg_sig(case, alg, 2), bound, &rep, cov);
}
fn derived(case: &Case, p: u16, q: bool, max: u64, cov: &mut Cov) {
    let (br, d) = case.branch_stats();
    let (f, s) = (2 * p, (p / 10).max(1));
    let bound = visit_bound(br, d, f, s) + u64::from(p);
    if bound > max {
        cov.add("skipped_for_cost", 1);
        return;
    }
    let call = |a: MN<'_, KRich>, b: MN<'_, KRich>| Ok(call_derived(p, q, a, b));
    let rep = run_with::<KRich>(case, &call, &Opt { rec: false, budget: budget_for(bound), ..Opt::default() });
    let name = format!("generic precheck_interleave, PRECHECK_LIMIT {p}, others derived, queue {q}");
    judge(case, &name, mix2(case.hash(), u64::from(p) * 2 + u64::from(q) + 99), bound, &rep, cov);
}
/// Shapes on which re-visiting costs most.
fn hard(r: &mut Rng, n: usize) -> Case {
    let mut b = B::default();
    let w = r.range(2, 3) as usize;
    let x;
    let y;
    match r.below(5) {
        0 => {
            x = degenerate(&mut b, n, w, false);
            y = degenerate(&mut b, n, w, false);
        },
        1 => {
            x = degenerate(&mut b, n, w, true);
            let m = if r.chance(1, 2) { n } else { 1 + r.us(n) };
            y = degenerate(&mut b, m, w, true);
        },
        2 => {
            // Complete graph.
            let k = n.min(60);
            let mk = |b: &mut B| {
                let base = b.val.len() as u32;
                for _ in 0..k {
                    b.node(0, (0..k as u32).map(|i| base + i).collect());
                }
                base
            };
            x = mk(&mut b);
            y = mk(&mut b);
        },
        3 => {
            // Layers, completely connected.
            let k = 4;
            let mk = |b: &mut B| {
                let mut prev: Vec<u32> = (0..k).map(|_| b.node(0, vec![])).collect();
                for _ in 0..n / k + 1 {
                    prev = (0..k).map(|_| b.node(0, prev.clone())).collect();
                }
                b.node(0, prev)
            };
            x = mk(&mut b);
            y = mk(&mut b);
        },
        _ => {
            // Rings of coprime lengths, several tails each.
            let mk = |b: &mut B, k: usize| {
                let base = b.val.len() as u32;
                for i in 0..k {
                    b.node(0, vec![base + ((i + 1) % k) as u32; w]);
                }
                base
            };
            x = mk(&mut b, n);
            y = mk(&mut b, n + 1);
        },
    }
    if r.chance(1, 3) {
        let lo = y.min(x);
        mutate(r, &mut b, y, lo, 2);
    }
    Case::new(&b, x, y, "hard")
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    let rc = |r: &mut Rng| if r.chance(1, 2) { RngCfg::Max } else { rng_cfg(r) };
    match j.part {
        0 => {
            for _ in 0..120 {
                let case = cyc_case(r, 50);
                for _ in 0..6 {
                    set_rng(rc(r));
                    let alg = safe_alg(r, true);
                    one(&case, alg, 400_000, cov);
                }
                set_rng(rc(r));
                let (p, q) = (*r.pick(DERIVED), r.chance(1, 2));
                derived(&case, p, q, 400_000, cov);
            }
        },
        1 => {
            for _ in 0..30 {
                let n = size(r, 300).max(3);
                let case = hard(r, n);
                for _ in 0..6 {
                    set_rng(rc(r));
                    let alg = safe_alg(r, true);
                    one(&case, alg, 1_500_000, cov);
                }
                set_rng(rc(r));
                let (p, q) = (*r.pick(DERIVED), r.chance(1, 2));
                derived(&case, p, q, 1_500_000, cov);
            }
        },
        2 => {
            // Every set of constants, every recursion mode, on one hard shape.
            let case = hard(r, 12 + (j.k as usize * 7) % 90);
            for c in 0..CONSTS.len() as u8 {
                for m in [Rm::C, Rm::Q, Rm::S] {
                    set_rng(RngCfg::Max);
                    one(&case, Alg::GI(m, c), 6_000_000, cov);
                }
                for m in [Pm::CC, Pm::QQ, Pm::SS, Pm::CQ, Pm::CS] {
                    set_rng(rc(r));
                    one(&case, Alg::GP(m, c), 2_000_000, cov);
                }
            }
            for &p in DERIVED {
                for q in [true, false] {
                    set_rng(RngCfg::Max);
                    derived(&case, p, q, 2_000_000, cov);
                }
            }
        },
        _ => {
            let n = [20_000usize, 60_000, 100_000, 200_000][(j.k % 4) as usize];
            let case = hard(r, n);
            for alg in STD_SAFE {
                set_rng(RngCfg::Zero);
                one(&case, alg, 30_000_000, cov);
            }
            set_rng(rc(r));
            one(&case, Alg::GP(*r.pick(&[Pm::QQ, Pm::SS, Pm::CQ, Pm::CS]), cs(r, false)), 30_000_000, cov);
        },
    }
}
static PLAN: Plan = Plan {
    prop: "C09",
    rule: "a distinct (pair of graphs, function with its parameters) whose comparison visited at least 3 pairs, judged to have ended within the bound",
    parts: &[(120, 8_000), (60, 3_000), (32, 400), (16, 100)],
    stack: 2 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
