//! C12: everything a comparison took is given back, however it ends.
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::owned;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::*;
use vmon::util::*;

fn judge(case: &Case, alg: Alg, what: &str, rep: &Rep, cov: &mut Cov) {
    let end = end_text(&rep.end);
    if rep.live_left != 0 {
        cov.vio(format!("{}: {} node objects not dropped (or dropped twice) after {what} ({end}): {}", alg.name(), rep.live_left, case.dump(60)));
    }
    if rep.ids_left != 0 {
        cov.vio(format!("{}: {} identities not dropped (or dropped twice) after {what} ({end}): {}", alg.name(), rep.ids_left, case.dump(60)));
    }
    if rep.blocks_left != 0 || rep.heap_left != 0 {
        cov.vio(format!("{}: {} allocations, {} bytes not freed after {what} ({end}): {}", alg.name(), rep.blocks_left, rep.heap_left, case.dump(60)));
    }
}
fn opts(budget: u64, fault_at: u64) -> Opt {
    Opt { rec: false, budget, fault_at, ..Opt::default() }
}
fn one<K: Kind>(case: &Case, alg: Alg, call: Call<K>, r: &mut Rng, faults: usize, cov: &mut Cov) {
    let budget = if alg.safe() {
        let b = safe_bound(case, alg);
        if b > 200_000 {
            return;
        }
        budget_for(b)
    } else {
        let cap = alg.limit().map_or(20_000, |l| l.min(20_000)) as usize;
        let s = naive(case, alg.orders().1, usize::MAX, cap);
        if s.stop == Stop::Cap && alg.limit().is_none() {
            return;
        }
        if s.stop == Stop::Cap && alg.limit().unwrap() > 20_000 {
            return;
        }
        budget_for(s.visits.len() as u64)
    };
    let cfg = rng_cfg(r);
    set_rng(cfg.clone());
    let rep = run::<K>(case, alg, call, &opts(budget, u64::MAX));
    cov.eval((rep.live_peak > 4).then(|| alg_sig(case, alg, <K::C as CmpK>::LV)));
    cov.add("objects_tracked_peak_sum", rep.live_peak as u64);
    cov.add("allocations_tracked", rep.allocs);
    cov.sample(|| format!("{} on {}: {} allocations, peak {} objects, {}", alg.name(), case.dump(5), rep.allocs, rep.live_peak, end_text(&rep.end)));
    match rep.end {
        End1::Ok(_) => cov.add("completed", 1),
        End1::Limit => cov.add("limit_reached", 1),
        _ => return,
    }
    judge(case, alg, "it returned", &rep, cov);
    // Unwind out of a callback, at chosen points of the very same execution.
    for _ in 0..faults {
        let at = if r.chance(1, 3) { rep.calls.saturating_sub(1 + r.below(rep.calls.min(6) + 1)) } else { r.below(rep.calls.max(1)) };
        set_rng(cfg.clone());
        let f = run::<K>(case, alg, call, &opts(budget, at));
        if f.end == End1::Injected {
            cov.add("unwound_out_of_a_callback", 1);
            cov.eval((f.live_peak > 2).then(|| mix2(alg_sig(case, alg, <K::C as CmpK>::LV), at + 1)));
            judge(case, alg, &format!("a panic in callback {at}"), &f, cov);
        }
    }
}
fn any(case: &Case, r: &mut Rng, faults: usize, cov: &mut Cov) {
    let alg = any_alg(r, case);
    match (alg, r.below(3)) {
        (Alg::GI(..) | Alg::GP(..), _) | (_, 0 | 1) => one::<KRich>(case, alg, all_fns, r, faults, cov),
        _ => one::<KBool>(case, alg, std_fns, r, faults, cov),
    }
}
/// Everything a user can supply, with a panic in every call of an execution in turn.
fn owned(r: &mut Rng, way: usize, cov: &mut Cov) {
    let n = r.range(2, 14) as usize;
    let case = match r.below(4) {
        0 => {
            let w = r.range(2, 9) as usize;
            let k = r.us(5);
            merge_case(r, w, k)
        },
        _ => {
            let fam = r.us(FAMILIES);
            gen_case(r, n, Cyc::Yes, fam, true)
        },
    };
    let (b, d) = case.branch_stats();
    if visit_bound(b, d, 3, 2) > 600 {
        return;
    }
    let rng = r.next();
    let whole = owned::watch(way, &case, rng, 0, 400);
    let what = |f: &str| format!("{} {f}: {}", owned::WHAT[way], case.dump(40));
    let mut seen = |s: &owned::Seen, fault: u64| {
        cov.eval((s.tokens > 6).then(|| mix2(mix2(case.hash(), rng), mix2(way as u64, fault))));
        cov.add("values of users' types tracked", s.tokens);
        cov.add("ended by an error of a custom mode", u64::from(s.erred));
        if let Some(t) = s.thrown {
            cov.add("unwound_out_of_a_callback", 1);
            cov.add(t, 1);
        }
        if let Some(b) = &s.bad {
            cov.vio(what(&format!("with a panic in call {fault} ({}): {b}", s.thrown.unwrap_or("none"))));
        }
    };
    seen(&whole, 0);
    for fault in 1 ..= whole.calls.min(1_500) {
        let s = owned::watch(way, &case, rng, fault, 400);
        seen(&s, fault);
    }
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    match j.part {
        0 => {
            for _ in 0..80 {
                let case = cyc_case(r, 40);
                for _ in 0..4 {
                    any(&case, r, 6, cov);
                }
            }
        },
        1 => {
            // Every callback of an execution, one after the other.
            let n = r.range(3, 8) as usize;
            let fam = r.us(FAMILIES);
            let cy = if r.chance(1, 2) { Cyc::Yes } else { Cyc::No };
            let case = gen_case(r, n, cy, fam, true);
            for _ in 0..4 {
                let alg = any_alg(r, &case);
                if alg.safe() && safe_bound(&case, alg) > 3_000 {
                    continue;
                }
                if !alg.safe() && naive(&case, alg.orders().1, usize::MAX, 300).stop == Stop::Cap {
                    continue;
                }
                let b = 40_000;
                let cfg = rng_cfg(r);
                set_rng(cfg.clone());
                let whole = run::<KRich>(&case, alg, all_fns, &opts(b, u64::MAX));
                for at in 0..whole.calls.min(600) {
                    set_rng(cfg.clone());
                    let f = run::<KRich>(&case, alg, all_fns, &opts(b, at));
                    cov.eval(Some(mix2(alg_sig(&case, alg, 9), at)));
                    cov.add("unwound_out_of_a_callback", 1);
                    judge(&case, alg, &format!("a panic in callback {at}"), &f, cov);
                }
            }
        },
        3 => (0..owned::WAYS).for_each(|w| owned(r, w, cov)),
        _ => {
            for _ in 0..3 {
                let n = r.range(300, 4_000) as usize;
                let fam = r.us(FAMILIES);
                let case = gen_case(r, n, Cyc::Yes, fam, true);
                for _ in 0..4 {
                    any(&case, r, 2, cov);
                }
            }
        },
    }
}
static PLAN: Plan = Plan {
    prop: "C12",
    rule: "a distinct (pair of graphs, function with its parameters, point of the injected panic if any) during which more than a handful of objects were alive, with all objects, identities and heap blocks accounted for afterwards",
    parts: &[(100, 8_000), (150, 8_000), (60, 3_000), (200, 12_000)],
    stack: 1 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
