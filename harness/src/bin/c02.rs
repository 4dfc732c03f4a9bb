//! C02: the plain functions decide exactly equality whenever the traversal is finite.
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::alg_sig;

fn one<K: Kind>(case: &Case, alg: Alg, eq: bool, visits: u64, cov: &mut Cov) {
    let o = Opt { rec: false, budget: budget_for(visits), ..Opt::default() };
    let rep = run::<K>(case, alg, std_fns, &o);
    cov.add("pairs_visited", rep.nvis);
    cov.max("max_pairs_in_one_comparison", rep.nvis);
    cov.add(if eq { "equal" } else { "unequal" }, 1);
    cov.add(if case.cyclic { "on_cyclic_but_decided" } else { "on_acyclic" }, 1);
    cov.eval((rep.nvis >= 2).then(|| alg_sig(case, alg, K::C::LV)));
    cov.sample(|| format!("{} on {} -> {}", alg.name(), case.dump(6), end_text(&rep.end)));
    match &rep.end {
        End1::Ok(o) if (*o == Outcome::Equal) == eq => (),
        e => cov.vio(format!(
            "{} gave {} where the graphs are {}: {}",
            alg.name(),
            end_text(e),
            if eq { "equal" } else { "unequal" },
            case.dump(60)
        )),
    }
}
fn go(case: &Case, alg: Alg, r: &mut vmon::util::Rng, cap: usize, cov: &mut Cov) {
    let s = naive(case, alg.orders().1, usize::MAX, cap);
    let Stop::Done(_) = s.stop else { return };
    let eq = hk_equal(case, usize::MAX);
    let n = s.visits.len() as u64;
    let alg = match (alg, r.below(3)) {
        (a, 0 | 1) => a,
        (a, _) => {
            // A limit that suffices.
            let t = loop {
                let t = *r.pick(&TS);
                if t.max() >= u128::from(n) {
                    break t;
                }
            };
            let l = match r.below(3) {
                0 => u128::from(n),
                1 => t.max(),
                _ => (u128::from(n) + u128::from(r.below(1000))).min(t.max()),
            };
            match a {
                Alg::Basic => Alg::BasicL(t, l),
                Alg::Deep => Alg::DeepL(t, l),
                _ => Alg::WideL(t, l),
            }
        },
    };
    let wide = (0..case.g.n()).any(|x| case.g.deg(x as u32) > 60_000);
    match r.below(if wide { 2 } else { 3 }) {
        0 => one::<KRich>(case, alg, eq, n, cov),
        1 => one::<KOrd>(case, alg, eq, n, cov),
        _ => one::<KBool>(case, alg, eq, n, cov),
    }
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    match j.part {
        0 => {
            for _ in 0..400 {
                let n = size(r, 60);
                let fam = r.us(FAMILIES);
                let c = if r.chance(1, 6) { Cyc::Yes } else { Cyc::No };
                let case = gen_case(r, n, c, fam, true);
                for alg in STD_PLAIN {
                    go(&case, alg, r, 20_000, cov);
                }
            }
        },
        1 => {
            // Long, or wide, or large trees.
            let n = *r.pick(&[1_000u64, 5_000, 20_000, 60_000]);
            let n = r.range(n / 2, n) as usize;
            let fam = *r.pick(&[8usize, 8, 9, 15, 5, 1, 3]);
            let case = gen_case(r, n, Cyc::No, fam, false);
            if (0..case.g.n()).any(|x| case.g.deg(x as u32) > 65_000) {
                return;
            }
            for alg in STD_PLAIN {
                go(&case, alg, r, 2_000_000, cov);
            }
        },
        3 => {
            let n = if j.k == 0 { 1_300_000 } else { *r.pick(&[150_000usize, 300_000, 600_000]) };
            let case = huge_case(r, n, j.k as usize % HUGE, j.k as usize / HUGE, false);
            for alg in STD_PLAIN {
                go(&case, alg, r, 4_000_000, cov);
            }
        },
        _ => {
            // Exponential unfolding, up to what is affordable.
            let d = r.range(14, 18) as usize;
            let mut b = B::default();
            let ra = degenerate(&mut b, d, 2, false);
            let lo = b.val.len() as u32;
            let rb = degenerate(&mut b, d, 2, false);
            if r.chance(1, 2) {
                mutate(r, &mut b, rb, lo, 2);
            }
            let case = Case::new(&b, ra, rb, "degenerate");
            for alg in STD_PLAIN {
                go(&case, alg, r, 2_000_000, cov);
            }
        },
    }
}
static PLAN: Plan = Plan {
    prop: "C02",
    rule: "a distinct (pair of graphs, plain function with its limit, comparison type) whose comparison visited at least 2 pairs of counterparts",
    parts: &[(300, 12_000), (60, 2_000), (40, 400), (32, 320)],
    stack: 2 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
