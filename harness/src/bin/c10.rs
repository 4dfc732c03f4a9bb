//! C10: call-stack usage does not grow with the graphs.
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::alg_sig;
use vmon::util::*;

// The jobs run on threads with a stack of this size: whatever the crate does outside of the
// callbacks (e.g. freeing its own structures) overruns it when it recurs per node.
const STACK: usize = 192 << 10;
/// What a comparison may use, as seen from the callbacks.
const CAP: usize = 24 << 10;
const FRAME: usize = 2 << 10;

/// `depth`: allowed levels of true recursion.
fn one<K: Kind>(case: &Case, alg: Alg, call: Call<K>, depth: usize, budget: u64, cov: &mut Cov) {
    let cap = CAP + depth * FRAME;
    let o = Opt { rec: false, budget, stack_cap: 160 << 10, ..Opt::default() };
    let rep = run::<K>(case, alg, call, &o);
    cov.add("pairs_visited", rep.nvis);
    cov.max("max_pairs_in_one_comparison", rep.nvis);
    if depth == 0 {
        cov.max("max_stack_bytes", rep.stack as u64);
    } else {
        cov.max("max_stack_bytes_where_recursion_is_limited", rep.stack as u64);
    }
    cov.eval((rep.nvis >= 1_000).then(|| alg_sig(case, alg, <K::C as CmpK>::LV)));
    cov.sample(|| format!("{} on {}: {} pairs, {} bytes of stack", alg.name(), case.dump(4), rep.nvis, rep.stack));
    if rep.stack > cap {
        cov.vio(format!("{} used {} bytes of stack (at most {cap} expected): {}", alg.name(), rep.stack, case.dump(20)));
    }
    match rep.end {
        End1::Ok(_) | End1::Limit => (),
        ref e => cov.vio(format!("{} gave {}: {}", alg.name(), end_text(e), case.dump(20))),
    }
}
fn shape(r: &mut Rng, n: usize, kind: u64, acyclic: bool) -> Case {
    let mut b = B::default();
    let w = r.range(1, 3) as usize;
    let mk = |r: &mut Rng, b: &mut B, w: usize| match kind {
        0 => {
            let inv = r.chance(1, 2);
            list(b, n / 2, inv, 1).0
        },
        1 => degenerate(b, n, if acyclic { 1 } else { w }, !acyclic),
        2 => {
            let kids: Vec<u32> = (0..n).map(|_| b.node(0, vec![])).collect();
            b.node(0, kids)
        },
        3 => {
            // Deep on the left, wide at every level.
            let mut h = b.node(0, vec![]);
            for _ in 0..n / 8 {
                let mut e: Vec<u32> = (0..7).map(|_| b.node(0, vec![])).collect();
                e.insert(r.us(8), h);
                h = b.node(0, e);
            }
            h
        },
        _ => {
            // Many chains below a wide root.
            let m = (n as f64).sqrt() as usize;
            let kids: Vec<u32> = (0..m)
                .map(|_| {
                    let mut h = b.node(0, vec![]);
                    for _ in 0..m {
                        h = b.node(0, vec![h]);
                    }
                    h
                })
                .collect();
            b.node(0, kids)
        },
    };
    // Both sides with the same choices.
    let mut r2 = r.clone();
    let x = mk(r, &mut b, w);
    let y = mk(&mut r2, &mut b, w);
    if r.chance(1, 4) {
        let nodes = b.reach(y);
        let k = nodes[nodes.len() - 1 - r.us(nodes.len().min(4))];
        b.val[k as usize] += 1;
    }
    Case::new(&b, x, y, "deep")
}
/// A wide root whose edges have the counterparts (given as indexes of a pool of equal nodes) met in
/// the given sequence, each one twice: being met again keeps the detecting phase going.
fn script(pairs: &[(u32, u32)], k: usize) -> Case {
    let mut b = B::default();
    let leaf = b.node(0, vec![]);
    let pool: Vec<u32> = (0..k).map(|_| b.node(0, vec![leaf])).collect();
    let (mut ea, mut eb) = (vec![], vec![]);
    for (p, q) in pairs {
        for _ in 0..2 {
            ea.push(pool[*p as usize]);
            eb.push(pool[*q as usize]);
        }
    }
    let x = b.node(0, ea);
    let y = b.node(0, eb);
    Case::new(&b, x, y, "union chain")
}
/// Sequences that build long chains of merged classes, wherever the merging rule allows any.
pub fn chains(kind: u64, n: u32) -> (Vec<(u32, u32)>, usize) {
    let mut v = vec![];
    match kind % 6 {
        0 | 1 => {
            for i in 0..n / 2 {
                v.push((2 * i, 2 * i + 1));
            }
            for i in 0..n / 2 - 1 {
                v.push(if kind % 6 == 0 { (2 * i, 2 * i + 2) } else { (2 * i + 2, 2 * i) });
            }
        },
        2 | 3 => {
            for i in 0..n / 2 {
                v.push((2 * i, 2 * i + 1));
            }
            for i in (0..n / 2 - 1).rev() {
                v.push(if kind % 6 == 2 { (2 * i, 2 * i + 2) } else { (2 * i + 2, 2 * i) });
            }
        },
        4 => {
            // Always by the first member.
            for i in 0..n / 2 {
                v.push((2 * i, 2 * i + 1));
            }
            for i in 1..n / 2 {
                v.push(if i % 2 == 0 { (0, 2 * i) } else { (2 * i, 0) });
            }
        },
        _ => {
            // Balanced.
            for i in 0..n / 2 {
                v.push((2 * i, 2 * i + 1));
            }
            let mut s = 2;
            while s < n {
                let mut i = 0;
                while i + s < n {
                    v.push((i, i + s));
                    i += 2 * s;
                }
                s *= 2;
            }
        },
    }
    (v, n as usize)
}
fn deep_algs(r: &mut Rng) -> Vec<Alg> {
    let m = *r.pick(&[Rm::Q, Rm::S]);
    let p = *r.pick(&[Pm::QQ, Pm::SS]);
    vec![Alg::Rob, Alg::RobPre, Alg::GI(m, cs(r, false)), Alg::GP(p, cs(r, false))]
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    let big = match (j.tier, j.part) {
        (Tier::Quick, _) => 120_000,
        _ => 600_000,
    };
    match j.part {
        0 => {
            // Deep or wide, acyclic: every function without recursion.
            let n = r.range(10_000, big) as usize;
            let case = shape(r, n, j.k % 5, true);
            let mut v = deep_algs(r);
            v.extend([Alg::Deep, Alg::Wide, Alg::DeepL(T::U64, u128::from(r.below(n as u64))), Alg::WideL(T::Us, u128::from(r.below(n as u64)))]);
            for alg in v {
                set_rng(rng_cfg(r));
                one::<KRich>(&case, alg, all_fns, 0, 200_000_000, cov);
            }
        },
        1 => {
            // Cyclic and shared.
            let n = r.range(5_000, big / 2) as usize;
            let case = if r.chance(1, 2) {
                shape(r, n, 1, false)
            } else {
                let fam = *r.pick(&[1usize, 2, 3, 5, 8, 9, 13, 15]);
                gen_case(r, n, Cyc::Yes, fam, false)
            };
            for alg in deep_algs(r) {
                set_rng(rng_cfg(r));
                one::<KRich>(&case, alg, all_fns, 0, 400_000_000, cov);
            }
        },
        2 => {
            // Chains of merged classes.
            let n = if j.tier == Tier::Quick { 60_000 } else { 20_000 + 4_000 * (j.k as u32 % 50) };
            let (p, k) = chains(j.k, n);
            let case = script(&p, k);
            for alg in [Alg::Rob, Alg::RobPre, Alg::GI(Rm::Q, 0), Alg::GI(Rm::S, 13), Alg::GI(Rm::C, 0), Alg::Cyc, Alg::CycPre] {
                set_rng(RngCfg::Zero);
                one::<KRich>(&case, alg, all_fns, 4, 200_000_000, cov);
            }
        },
        _ => {
            // The recursion by the call-stack is as deep as the graphs only: broad ones are fine,
            // and a precheck that recurs is ended by its limit.
            let n = r.range(10_000, big) as usize;
            let case = shape(r, n, 2, true);
            for alg in [Alg::Basic, Alg::Cyc, Alg::CycPre, Alg::BasicL(T::U32, n as u128 / 2), Alg::GI(Rm::C, cs(r, false))] {
                set_rng(rng_cfg(r));
                one::<KOrd>(&case, alg, all_fns, 2, 200_000_000, cov);
            }
            let kind = *r.pick(&[0, 1, 3]);
            let case = shape(r, n, kind, kind != 1);
            for c in [1u8, 2, 3, 4, 5, 6, 7, 8, 14] {
                set_rng(rng_cfg(r));
                let m = *r.pick(&[Pm::CQ, Pm::CS]);
                let p = CONSTS[c as usize].0 as usize;
                one::<KRich>(&case, Alg::GP(m, c), all_fns, p + 1, 400_000_000, cov);
            }
            one::<KRich>(&case, Alg::BasicL(T::U8, 50), all_fns, 51, 400_000_000, cov);
        },
    }
}
static PLAN: Plan = Plan {
    prop: "C10",
    rule: "a distinct (pair of graphs, function with its parameters) whose comparison visited at least 1000 pairs on a thread with 192 KiB of stack, with the depth of the stack observed at every callback",
    parts: &[(60, 800), (60, 800), (12, 150), (40, 500)],
    stack: STACK,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
