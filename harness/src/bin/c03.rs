//! C03: the value returned is exactly that of the first difference in the documented order.
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::{alg_sig, any_alg};
use vmon::util::Rng;

/// What must be returned, when it is determined.
fn expect(case: &Case, alg: Alg, cap: usize) -> Option<Outcome> {
    let (op, om) = alg.orders();
    if !alg.safe() {
        let cap = alg.limit().map_or(cap as u128, |l| l.min(cap as u128)) as usize;
        return match naive(case, om, usize::MAX, cap).stop {
            Stop::Done(o) => Some(o),
            _ => None,
        };
    }
    if let Some(p) = alg.pre() {
        if let Stop::Done(o) = naive(case, op, usize::MAX, p as usize).stop {
            return Some(o);
        }
    }
    if om == Order::Dfs && case.cyclic {
        return if hk_equal(case, usize::MAX) { Some(Outcome::Equal) } else { None };
    }
    first_diff(case, om, usize::MAX, cap)
}
fn one<K: Kind>(case: &Case, alg: Alg, call: Call<K>, exp: Option<Outcome>, bound: u64, cov: &mut Cov) {
    let o = Opt { budget: budget_for(bound), ..Opt::default() };
    let rep = run::<K>(case, alg, call, &o);
    cov.eval((rep.nvis >= 3).then(|| alg_sig(case, alg, K::C::LV)));
    cov.sample(|| format!("{} on {} -> {}", alg.name(), case.dump(8), end_text(&rep.end)));
    cov.add("pairs_visited", rep.nvis);
    match exp {
        Some(Outcome::Equal) => cov.add("expected_equal", 1),
        Some(Outcome::Val { .. }) => cov.add("expected_value_difference", 1),
        Some(Outcome::Edges { .. }) => cov.add("expected_edge_amount_difference", 1),
        None => cov.add("only_provenance_judged", 1),
    }
    match (&rep.end, exp) {
        (End1::Ok(o), Some(x)) if agree(K::C::LV, *o, x) => (),
        (End1::Ok(o), None) => {
            // Depth-first on a cyclic graph: whichever of the differences is met first must be
            // reported truthfully.
            let last = rep.visits.last().copied();
            let fine = match (o, last) {
                (Outcome::Equal, _) | (_, None) => false,
                (Outcome::Val { ord, a, b }, Some(p)) => {
                    p.a == *a && p.b == *b && cmpval(case.g.val[*a as usize], case.g.val[*b as usize]) == *ord && *ord != 0
                },
                (Outcome::Edges { .. }, Some(_)) if K::C::LV < 2 => true,
                (Outcome::Edges { ord }, Some(_)) => rep.visits.iter().any(|p| {
                    let (x, y) = (case.g.deg(p.a), case.g.deg(p.b));
                    x != y && *ord == if x < y { -1 } else { 1 }
                }),
            };
            if !fine && !rep.overflow {
                cov.vio(format!("{} returned {o:?}, which is not the comparison of the last pair visited: {}", alg.name(), case.dump(60)));
            }
        },
        (e, x) => cov.vio(format!("{} gave {} where the first difference is {x:?}: {}", alg.name(), end_text(e), case.dump(60))),
    }
}
fn all(case: &Case, r: &mut Rng, k: usize, maxv: u64, cov: &mut Cov) {
    for i in 0..k {
        let alg = if i < 7 {
            [Alg::Cyc, Alg::CycPre, Alg::Rob, Alg::RobPre, Alg::Basic, Alg::Deep, Alg::Wide][i]
        } else {
            any_alg(r, case)
        };
        let exp = expect(case, alg, 300_000);
        if exp.is_none() && (!alg.safe() || alg.orders().1 == Order::Bfs) {
            continue;
        }
        let bound = if alg.safe() { safe_bound(case, alg) } else { 300_000 };
        if bound > maxv {
            continue;
        }
        set_rng(rng_cfg(r));
        match r.below(4) {
            0 if i < 7 => one::<KOrd>(case, alg, std_fns, exp, bound, cov),
            1 if i < 7 => one::<KBool>(case, alg, std_fns, exp, bound, cov),
            _ => one::<KRich>(case, alg, all_fns, exp, bound, cov),
        }
    }
}
/// Many differences of every kind at once.
fn multi(r: &mut Rng, n: usize) -> Case {
    let cyc = if r.chance(1, 2) { Cyc::Yes } else { Cyc::No };
    let fam = *r.pick(&[1usize, 3, 9, 14, 14, 12, 15, 11, 13]);
    let c = gen_case(r, n, cyc, fam, true);
    let mut b = B { val: c.g.val.clone(), e: (0..c.g.n() as u32).map(|x| c.g.edges(x).to_vec()).collect(), id: (0..c.g.n() as u32).collect() };
    let own: Vec<u32> = {
        let ra: std::collections::HashSet<u32> = b.reach(c.ra).into_iter().collect();
        b.reach(c.rb).into_iter().filter(|x| !ra.contains(x) && *x != c.rb).collect()
    };
    if own.is_empty() {
        return Case::new(&b, c.ra, c.rb, "multi");
    }
    for _ in 0..r.range(1, 6) {
        let x = own[own.len() - 1 - r.us(own.len().min(1 + own.len() / 2))] as usize;
        match r.below(4) {
            0 => b.val[x] = b.val[x].wrapping_add(1) % 7,
            1 => b.val[x] = b.val[x].saturating_sub(1),
            2 => {
                let _ = b.e[x].pop();
            },
            _ => {
                let y = *r.pick(&own);
                if cyc == Cyc::Yes {
                    b.e[x].push(y);
                } else {
                    let l = b.node(0, vec![]);
                    b.e[x].push(l);
                }
            },
        }
    }
    Case::new(&b, c.ra, c.rb, "multi")
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    match j.part {
        0 => {
            for _ in 0..120 {
                let case = if r.chance(1, 2) {
                    let n = size(r, 60);
                    multi(r, n)
                } else {
                    cyc_case(r, 60)
                };
                all(&case, r, 11, 400_000, cov);
            }
        },
        2 => {
            let n = *r.pick(&[150_000usize, 250_000]);
            let diff = 1 + j.k as usize / HUGE + r.us(2);
            let case = huge_case(r, n, j.k as usize % HUGE, diff, false);
            for alg in STD_PLAIN.iter().chain(&STD_SAFE) {
                let exp = expect(&case, *alg, 4_000_000);
                one::<KRich>(&case, *alg, std_fns, exp, 1 << 40, cov);
            }
        },
        _ => {
            for _ in 0..4 {
                let n = r.range(300, 3000) as usize;
                let case = multi(r, n);
                all(&case, r, 10, 1_500_000, cov);
            }
        },
    }
}
static PLAN: Plan = Plan {
    prop: "C03",
    rule: "a distinct (pair of graphs, function with its parameters, comparison type) whose comparison visited at least 3 pairs of counterparts and whose returned value was judged against an independently computed first difference",
    parts: &[(220, 12_000), (40, 2_000), (8, 160)],
    stack: 2 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
