//! C11: what a comparison holds in memory.
use graph_safe_compare::generic::equiv::EdgesIter;
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::*;
use vmon::util::*;

fn judge<K: Kind>(case: &Case, alg: Alg, pending: usize, rep: &Rep, cov: &mut Cov) {
    let (br, _) = case.branch_stats();
    let it = std::mem::size_of::<EdgesIter<MN<'static, K>>>();
    let id = std::mem::size_of::<<K::D as IdKind>::Id<'static>>();
    cov.add("pairs_visited", rep.nvis);
    cov.max("max_pairs_in_one_comparison", rep.nvis);
    cov.max("max_pending_iterators", pending as u64);
    cov.max("max_live_node_objects", rep.live_peak as u64);
    cov.max("max_heap_bytes", rep.heap_peak as u64);
    cov.eval((rep.nvis >= 5).then(|| alg_sig(case, alg, <K::C as CmpK>::LV)));
    cov.sample(|| {
        format!("{} on {}: {} pairs, pending {pending}, live objects {}, heap {}", alg.name(), case.dump(4), rep.nvis, rep.live_peak, rep.heap_peak)
    });
    // Two objects per pending iterator (two more if it looked ahead), the pair being compared, the
    // next ones being looked up, and the two kept aside for after a precheck.
    let most = 4 * pending as i64 + 16;
    if rep.live_peak > most {
        cov.vio(format!(
            "{} held {} node objects at once, where {pending} pending pairs of parents explain at most {most}: {}",
            alg.name(), rep.live_peak, case.dump(40)
        ));
    }
    let ids = if alg.safe() { br as i64 + 8 } else { 4 };
    if rep.ids_peak > ids {
        cov.vio(format!("{} held {} identities at once, for {br} distinct branch nodes: {}", alg.name(), rep.ids_peak, case.dump(40)));
    }
    let entry = id + 9;
    let table = if alg.safe() { 8192 * entry + br * (8 * entry + 64) } else { 0 };
    let heap = 4096 + 64 * it + 8 * pending * it + table;
    if rep.heap_peak > heap as i64 {
        cov.vio(format!(
            "{} allocated {} bytes at once, where {pending} pending pairs and {br} branch nodes explain at most {heap}: {}",
            alg.name(), rep.heap_peak, case.dump(40)
        ));
    }
}
fn one<K: Kind>(case: &Case, alg: Alg, call: Call<K>, maxv: u64, cov: &mut Cov) {
    let Some(t) = traced::<K>(case, alg, call, 0, maxv) else {
        cov.add("skipped_for_cost", 1);
        return;
    };
    if !t.bad.is_empty() {
        // Some other property is broken; the trace cannot tell what was pending.
        cov.add("traces_not_understood", 1);
        return;
    }
    judge::<K>(case, alg, t.info.max_pending, &t.rep, cov);
}
fn heapy(r: &mut Rng) -> Alg {
    match r.below(10) {
        0 => Alg::Deep,
        1 => Alg::Wide,
        2 => Alg::DeepL(T::U32, u128::from(r.below(3_000))),
        3 => Alg::WideL(T::U64, u128::from(r.below(3_000))),
        4 => Alg::Rob,
        5 => Alg::RobPre,
        6 | 7 => Alg::GI(*r.pick(&[Rm::Q, Rm::S]), cs(r, false)),
        _ => Alg::GP(*r.pick(&[Pm::QQ, Pm::SS]), cs(r, false)),
    }
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    match j.part {
        0 => {
            for _ in 0..150 {
                let case = cyc_case(r, 60);
                for _ in 0..5 {
                    let alg = heapy(r);
                    set_rng(rng_cfg(r));
                    if matches!(alg, Alg::GI(..) | Alg::GP(..)) || r.chance(1, 2) {
                        one::<KRich>(&case, alg, all_fns, 60_000, cov);
                    } else {
                        one::<KOrd>(&case, alg, std_fns, 60_000, cov);
                    }
                }
            }
        },
        1 => {
            for _ in 0..5 {
                let n = r.range(300, 3_000) as usize;
                let fam = r.us(FAMILIES);
                let cy = if r.chance(1, 2) { Cyc::Yes } else { Cyc::No };
                let case = gen_case(r, n, cy, fam, true);
                for _ in 0..5 {
                    let alg = heapy(r);
                    set_rng(rng_cfg(r));
                    one::<KRich>(&case, alg, all_fns, 1_500_000, cov);
                }
            }
        },
        2 => {
            // The shapes that the documentation promises limited memory for.
            let n = if j.tier == Tier::Quick { 60_000 } else { 200_000 };
            let mut b = B::default();
            let mk = |b: &mut B| match j.k % 5 {
                0 => list(b, n, false, 1).0,
                1 => list(b, n, true, 1).0,
                2 => {
                    let kids: Vec<u32> = (0..n).map(|_| b.node(0, vec![])).collect();
                    b.node(0, kids)
                },
                3 => degenerate(b, n, 1, false),
                _ => {
                    // A wide node per level, the deeper edge last.
                    let mut h = b.node(0, vec![]);
                    for _ in 0..n / 10 {
                        let mut e: Vec<u32> = (0..9).map(|_| b.node(0, vec![])).collect();
                        e.push(h);
                        h = b.node(0, e);
                    }
                    h
                },
            };
            let x = mk(&mut b);
            let y = mk(&mut b);
            let case = Case::new(&b, x, y, "documented shape");
            for (alg, stack) in [
                (Alg::Deep, false),
                (Alg::Wide, true),
                (Alg::DeepL(T::U64, u128::from(u32::MAX)), false),
                (Alg::WideL(T::U64, u128::from(u32::MAX)), true),
            ] {
                // The deeper edge given first leaves the others pending, with a stack.
                let pending = if stack && j.k % 5 == 1 { n + 1 } else { 2 };
                let rep = run::<KRich>(&case, alg, all_fns, &Opt { rec: false, ..Opt::default() });
                judge::<KRich>(&case, alg, pending, &rep, cov);
                cov.add("documented_shapes", 1);
            }
        },
        _ => {
            // Unlike trees, where a queue or stack of iterators is small.
            for _ in 0..20 {
                let (case, _) = acyc_case(r, 60, 50_000);
                for alg in [Alg::Deep, Alg::Wide] {
                    one::<KRich>(&case, alg, all_fns, 50_000, cov);
                }
            }
        },
    }
}
static PLAN: Plan = Plan {
    prop: "C11",
    rule: "a distinct (pair of graphs, function with its parameters) whose comparison visited at least 5 pairs, with the peaks of live node objects, of identities and of heap bytes judged against what its trace has pending",
    parts: &[(100, 8_000), (60, 3_000), (10, 60), (60, 3_000)],
    stack: 1 << 30,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
