//! C06: the contract of the callbacks a node type implements.
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::*;
use vmon::util::Rng;

fn one<K: Kind>(case: &Case, alg: Alg, call: Call<K>, cov: &mut Cov) {
    let Some(t) = traced::<K>(case, alg, call, 0, 300_000) else {
        cov.add("skipped_for_cost", 1);
        return;
    };
    let rep = &t.rep;
    cov.add("callbacks_observed", rep.calls);
    cov.add("get_edge_calls", rep.n_edge);
    cov.add("equiv_modulo_edges_calls", rep.n_emo);
    cov.add("pairs_visited", rep.nvis);
    cov.eval((rep.n_edge >= 4 && rep.n_emo >= 1).then(|| alg_sig(case, alg, <K::C as CmpK>::LV)));
    cov.sample(|| format!("{} on {}: {} callbacks", alg.name(), case.dump(6), rep.calls));
    for e in &rep.errs {
        cov.vio(format!("{}: {e}: {}", alg.name(), case.dump(60)));
    }
    // The values of two nodes are compared at most once each time they are met as counterparts.
    if rep.n_emo > rep.nvis {
        cov.vio(format!("{}: {} calls of equiv_modulo_edges for {} pairs of counterparts: {}", alg.name(), rep.n_emo, rep.nvis, case.dump(60)));
    }
}
fn any(case: &Case, r: &mut Rng, cov: &mut Cov) {
    let alg = any_alg(r, case);
    set_rng(rng_cfg(r));
    match (alg, r.below(4)) {
        (Alg::GI(..) | Alg::GP(..), _) | (_, 0 | 1) => one::<KRich>(case, alg, all_fns, cov),
        (_, 2) => one::<KOrd>(case, alg, std_fns, cov),
        _ => one::<KBool>(case, alg, std_fns, cov),
    }
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    match j.part {
        0 => {
            for _ in 0..300 {
                let case = cyc_case(r, 40);
                for _ in 0..6 {
                    any(&case, r, cov);
                }
            }
        },
        1 => {
            // Many edges, and amounts of edges that differ anywhere.
            for _ in 0..40 {
                let n = r.range(1, 6) as usize;
                let mut b = B::default();
                let w = r.range(1, 300) as usize;
                let w2 = if r.chance(1, 2) { w } else { r.range(1, 300) as usize };
                let fam = r.us(FAMILIES);
                let c = gen_case(r, n, Cyc::No, fam, false);
                b.val = c.g.val.clone();
                b.e = (0..c.g.n() as u32).map(|x| c.g.edges(x).to_vec()).collect();
                b.id = (0..c.g.n() as u32).collect();
                let nodes = b.reach(c.ra);
                let mut ea: Vec<u32> = (0..w).map(|_| *r.pick(&nodes)).collect();
                let eb: Vec<u32> = (0..w2).map(|i| if i < w { ea[i] } else { *r.pick(&nodes) }).collect();
                if r.chance(1, 3) {
                    let x = r.us(ea.len());
                    ea[x] = *r.pick(&nodes);
                }
                let (mut ra, mut rb) = (b.node(0, ea), b.node(0, eb));
                for _ in 0..r.below(3) {
                    let k = b.node(0, vec![]);
                    let (mut x, mut y) = (vec![ra, k], vec![rb, k]);
                    if r.chance(1, 2) {
                        x.swap(0, 1);
                        y.swap(0, 1);
                    }
                    (ra, rb) = (b.node(0, x), b.node(0, y));
                }
                let case = Case::new(&b, ra, rb, "broad");
                for _ in 0..6 {
                    any(&case, r, cov);
                }
            }
        },
        _ => {
            for _ in 0..4 {
                let n = r.range(200, 1500) as usize;
                let fam = r.us(FAMILIES);
                let case = gen_case(r, n, Cyc::Yes, fam, true);
                for _ in 0..6 {
                    any(&case, r, cov);
                }
            }
        },
    }
}
static PLAN: Plan = Plan {
    prop: "C06",
    rule: "a distinct (pair of graphs, function with its parameters, comparison type) with at least 4 get_edge and 1 equiv_modulo_edges calls observed, every one of them judged",
    parts: &[(90, 10_000), (60, 5_000), (40, 3_000)],
    stack: 2 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
