//! Choosing cases and algorithms, shared by the workloads.
use crate::algs::*;
use crate::graph::*;
use crate::util::Rng;

pub fn rng_cfg(r: &mut Rng) -> RngCfg {
    match r.below(8) {
        0 => RngCfg::Wy,
        1 => RngCfg::Oo,
        2 => RngCfg::Fast,
        3 => RngCfg::Zero,
        4 => RngCfg::Max,
        5 => RngCfg::Script((0..r.range(1, 9)).map(|_| r.below(20) as u16).collect()),
        _ => RngCfg::Split(r.next()),
    }
}
/// A sharing-aware algorithm, with generic instantiations.  `heavy`: allow those whose documented
/// bounds permit a great many repeated visits.
pub fn safe_alg(r: &mut Rng, heavy: bool) -> Alg {
    match r.below(10) {
        0..=3 => *r.pick(&STD_SAFE),
        4..=6 => Alg::GI(*r.pick(&[Rm::C, Rm::Q, Rm::S]), cs(r, heavy)),
        _ => Alg::GP(*r.pick(&[Pm::CC, Pm::QQ, Pm::SS, Pm::CQ, Pm::CS]), cs(r, heavy)),
    }
}
/// One of those that `call_few` supports.
pub fn few_alg(r: &mut Rng) -> Alg {
    if r.chance(2, 5) {
        *r.pick(&STD_SAFE)
    } else {
        *r.pick(&FEW)
    }
}
pub fn cs(r: &mut Rng, heavy: bool) -> u8 {
    loop {
        let c = r.us(CONSTS.len()) as u8;
        if c == 11 && !heavy {
            continue;
        }
        return c;
    }
}
pub fn size(r: &mut Rng, max: u64) -> usize {
    // Skewed to small.
    let m = match r.below(4) {
        0 => 4,
        1 => 12,
        2 => 30,
        _ => max,
    }
    .min(max)
    .max(1);
    r.range(1, m) as usize
}
pub fn cyc_case(r: &mut Rng, max: u64) -> Case {
    let n = size(r, max);
    let fam = r.us(FAMILIES);
    let c = if r.chance(3, 4) { Cyc::Yes } else { Cyc::No };
    gen_case(r, n, c, fam, true)
}
pub fn acyc_case(r: &mut Rng, max: u64, cap: usize) -> (Case, usize) {
    // Plain functions may take exponential time on shared structure: only cases with a naive
    // traversal of at most `cap` pairs.
    loop {
        let n = size(r, max);
        let fam = r.us(FAMILIES);
        let c = gen_case(r, n, Cyc::No, fam, true);
        if c.cyclic {
            continue;
        }
        let s = naive(&c, Order::Dfs, usize::MAX, cap);
        let t = naive(&c, Order::Bfs, usize::MAX, cap);
        if s.stop == Stop::Cap || t.stop == Stop::Cap {
            continue;
        }
        return (c, s.visits.len().max(t.visits.len()));
    }
}
