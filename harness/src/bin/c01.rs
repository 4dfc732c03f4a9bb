//! C01: the sharing-aware functions decide exactly equality, on every graph.
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::util::mix2;

fn one<K: Kind>(case: &Case, alg: Alg, call: Call<K>, eq: bool, badhash: u8, cov: &mut Cov) {
    let bound = safe_bound(case, alg);
    if bound > 3_000_000 {
        cov.add("skipped_for_cost", 1);
        return;
    }
    let o = Opt { rec: false, budget: budget_for(bound), badhash, ..Opt::default() };
    let rep = run::<K>(case, alg, call, &o);
    cov.add("pairs_visited", rep.nvis);
    cov.max("max_pairs_in_one_comparison", rep.nvis);
    cov.add(if eq { "equal" } else { "unequal" }, 1);
    if case.cyclic {
        cov.add("on_cyclic", 1);
    }
    let sig = mix2(case.hash(), mix2(alg.name().bytes().fold(7, |h, b| mix2(h, u64::from(b))), u64::from(K::C::LV)));
    cov.eval((rep.nvis >= 3).then_some(sig));
    cov.sample(|| format!("{} on {} -> {}", alg.name(), case.dump(6), end_text(&rep.end)));
    match &rep.end {
        End1::Ok(o) if (*o == Outcome::Equal) == eq => (),
        e => cov.vio(format!(
            "{} gave {} where the graphs are {}: {}",
            alg.name(),
            end_text(e),
            if eq { "equal" } else { "unequal" },
            case.dump(60)
        )),
    }
}

fn all(case: &Case, r: &mut vmon::util::Rng, gens: usize, heavy: bool, cov: &mut Cov) {
    let eq = hk_equal(case, usize::MAX);
    let bh = if r.chance(1, 20) && case.g.n() < 200 { 1 + r.below(2) as u8 } else { 0 };
    for alg in STD_SAFE {
        set_rng(RngCfg::Zero);
        match r.below(3) {
            0 => one::<KRich>(case, alg, all_fns, eq, bh, cov),
            1 => one::<KOrd>(case, alg, std_fns, eq, bh, cov),
            _ if case.g.n() < 60_000 && (0..case.g.n()).all(|x| case.g.deg(x as u32) < 60_000) => one::<KBool>(case, alg, std_fns, eq, bh, cov),
            _ => one::<KRich>(case, alg, all_fns, eq, bh, cov),
        }
    }
    for _ in 0..gens {
        let alg = safe_alg(r, heavy);
        set_rng(rng_cfg(r));
        one::<KRich>(case, alg, all_fns, eq, bh, cov);
    }
}

fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    match j.part {
        0 => {
            for _ in 0..150 {
                let case = cyc_case(r, 60);
                all(&case, r, 4, true, cov);
            }
        },
        1 => {
            for _ in 0..10 {
                let n = r.range(300, 3000) as usize;
                let fam = r.us(FAMILIES);
                let cy = if r.chance(3, 4) { Cyc::Yes } else { Cyc::No };
                let case = gen_case(r, n, cy, fam, true);
                all(&case, r, 3, false, cov);
            }
        },
        _ => {
            // Many more distinct branch nodes than any initial capacity or narrow counter.
            let n = match j.k % 4 {
                0 => 20_000,
                1 => 35_000,
                2 => 70_000,
                _ => 140_000,
            };
            let case = if j.part == 3 {
                // (Start with the longest one.)
                let n = if j.k == 0 { 2_200_000 } else { *r.pick(&[150_000usize, 300_000, 400_000]) };
                let (shape, diff) = if j.k == 0 { (4, 1 + r.us(2)) } else { (j.k as usize % HUGE, j.k as usize / HUGE + r.us(4) / 3) };
                let cyclic = j.k > 0 && r.chance(1, 2);
                huge_case(r, n, shape, diff, cyclic)
            } else {
                let fam = *r.pick(&[1usize, 2, 3, 5, 6, 8, 9, 13, 15]);
                gen_case(r, n, Cyc::Yes, fam, false)
            };
            let eq = hk_equal(&case, usize::MAX);
            for alg in STD_SAFE {
                set_rng(RngCfg::Zero);
                let o = Opt { rec: false, budget: 400_000_000, ..Opt::default() };
                let rep = run::<KRich>(&case, alg, all_fns, &o);
                cov.add("pairs_visited", rep.nvis);
                cov.max("max_pairs_in_one_comparison", rep.nvis);
                cov.eval((rep.nvis >= 3).then_some(mix2(case.hash(), alg.name().len() as u64)));
                match &rep.end {
                    End1::Ok(o) if (*o == Outcome::Equal) == eq => (),
                    e => cov.vio(format!("{} gave {} where the graphs are {}: {}", alg.name(), end_text(e), if eq { "equal" } else { "unequal" }, case.dump(20))),
                }
            }
        },
    }
}

static PLAN: Plan = Plan {
    prop: "C01",
    rule: "a distinct (pair of graphs, function with its parameters, comparison type) whose comparison visited at least 3 pairs of counterparts",
    parts: &[(250, 20_000), (48, 3_000), (16, 200), (33, 320)],
    stack: 2 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
