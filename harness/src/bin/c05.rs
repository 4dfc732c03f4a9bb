//! C05: what is traversed, in what order, and where the traversal stops.
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::*;
use vmon::util::Rng;

fn one<K: Kind>(case: &Case, alg: Alg, call: Call<K>, badhash: u8, maxv: u64, cov: &mut Cov) {
    let Some(t) = traced::<K>(case, alg, call, badhash, maxv) else {
        cov.add("skipped_for_cost", 1);
        return;
    };
    cov.add("pairs_visited", t.rep.nvis);
    cov.add("branch_pairs_descended", t.info.expanded);
    cov.add("branch_pairs_skipped_as_already_entered", t.info.skipped);
    cov.max("max_pairs_in_one_trace", t.rep.nvis);
    if t.pre_decided == Some(false) {
        cov.add("prechecks_that_gave_up", 1);
    }
    cov.add(if alg.orders().1 == Order::Bfs { "breadth_first_traces" } else { "depth_first_traces" }, 1);
    cov.eval((t.rep.nvis >= 3).then(|| alg_sig(case, alg, <K::C as CmpK>::LV)));
    cov.sample(|| format!("{} on {}: {} pairs, {} descended, {} skipped", alg.name(), case.dump(6), t.rep.nvis, t.info.expanded, t.info.skipped));
    for b in &t.bad {
        cov.vio(format!("{}: {b}: {}", alg.name(), case.dump(60)));
    }
}
fn any(case: &Case, r: &mut Rng, maxv: u64, cov: &mut Cov) {
    let alg = any_alg(r, case);
    set_rng(rng_cfg(r));
    let bh = if r.chance(1, 30) && case.g.n() < 100 { 1 } else { 0 };
    match (alg, r.below(4)) {
        (Alg::GI(..) | Alg::GP(..), _) | (_, 0 | 1) => one::<KRich>(case, alg, all_fns, bh, maxv, cov),
        (_, 2) => one::<KOrd>(case, alg, std_fns, bh, maxv, cov),
        _ => one::<KBool>(case, alg, std_fns, bh, maxv, cov),
    }
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    match j.part {
        0 => {
            for _ in 0..300 {
                let case = cyc_case(r, 60);
                for _ in 0..6 {
                    any(&case, r, 60_000, cov);
                }
            }
        },
        1 => {
            for _ in 0..60 {
                let (case, _) = acyc_case(r, 60, 20_000);
                for alg in STD_PLAIN.iter().chain(&STD_SAFE) {
                    set_rng(RngCfg::Zero);
                    one::<KRich>(&case, *alg, all_fns, 0, 60_000, cov);
                }
            }
        },
        3 => {
            let diff = 1 + j.k as usize / HUGE + r.us(2);
            let case = huge_case(r, 150_000, j.k as usize % HUGE, diff, false);
            for alg in STD_PLAIN.iter().chain(&STD_SAFE) {
                set_rng(rng_cfg(r));
                one::<KRich>(&case, *alg, all_fns, 0, 1 << 40, cov);
            }
        },
        _ => {
            for _ in 0..4 {
                let n = r.range(300, 2500) as usize;
                let fam = r.us(FAMILIES);
                let cy = if r.chance(3, 4) { Cyc::Yes } else { Cyc::No };
                let case = gen_case(r, n, cy, fam, true);
                for _ in 0..6 {
                    any(&case, r, 1_500_000, cov);
                }
            }
        },
    }
}
static PLAN: Plan = Plan {
    prop: "C05",
    rule: "a distinct (pair of graphs, function with its parameters, comparison type) whose whole trace of at least 3 visited pairs was checked against the documented traversal",
    parts: &[(260, 12_000), (150, 6_000), (80, 3_000), (8, 160)],
    stack: 2 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
