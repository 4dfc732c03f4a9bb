//! Runs a case with recording, and checks the whole trace offline against the documented traversal.
use crate::algs::*;
use crate::graph::*;
use crate::node::*;
use crate::pick::*;
use crate::run::*;
use crate::util::*;

pub struct Traced {
    pub rep: Rep,
    pub alg: Alg,
    /// Trace conformance errors.
    pub bad: Vec<String>,
    pub info: TraceInfo,
    /// Decided by the precheck (when there is one).
    pub pre_decided: Option<bool>,
    pub naive_visits: Option<usize>,
}

/// `None`: too costly, or the function does not support the case.
pub fn traced<K: Kind>(case: &Case, alg: Alg, call: Call<K>, badhash: u8, maxv: u64) -> Option<Traced> {
    let cap = <K::I as Ix>::cap();
    let (op, om) = alg.orders();
    let mut naive_visits = None;
    let bound = match (alg.limit(), alg.safe()) {
        (_, true) => safe_bound(case, alg),
        (Some(l), _) => {
            let s = naive(case, op, cap, (l.min(u128::from(maxv)) as usize).saturating_add(1).min(maxv as usize));
            let dec = matches!(s.stop, Stop::Done(_));
            if !dec && l > u128::from(maxv) {
                return None;
            }
            naive_visits = dec.then_some(s.visits.len());
            (s.visits.len() as u64).max(1)
        },
        _ => {
            let s = naive(case, op, cap, maxv as usize);
            if s.stop == Stop::Cap {
                return None;
            }
            naive_visits = Some(s.visits.len());
            s.visits.len() as u64
        },
    };
    if bound > maxv {
        return None;
    }
    let o = Opt { budget: budget_for(bound), badhash, maxrec: (4 * maxv as usize).max(10_000), ..Opt::default() };
    let rep = run::<K>(case, alg, call, &o);
    let mut t = Traced { rep, alg, bad: Vec::new(), info: TraceInfo::default(), pre_decided: None, naive_visits };
    let v = &t.rep.visits;
    let end = match &t.rep.end {
        End1::Ok(o) => End::Done(*o),
        End1::Limit => End::Limit,
        e => {
            t.bad.push(end_text(e));
            return Some(t);
        },
    };
    if t.rep.overflow {
        t.bad.push(format!("more than {} pairs visited", v.len()));
        return Some(t);
    }
    let lv = <K::C as CmpK>::LV;
    let mut chk = |vs: &[PV], order, skips, end| match check_trace(&case.g, case.ra, case.rb, order, cap, vs, skips, end, lv) {
        Ok(i) => {
            t.info.expanded += i.expanded;
            t.info.skipped += i.skipped;
            t.info.max_pending = t.info.max_pending.max(i.max_pending);
        },
        Err(e) => t.bad.push(e),
    };
    if let Some(p) = alg.pre() {
        let s = naive(case, op, cap, p as usize);
        let decided = s.stop != Stop::Cap;
        t.pre_decided = Some(decided);
        if decided {
            chk(v, op, false, end);
        } else if p == 0 {
            chk(v, om, true, end);
        } else {
            let cut = t.rep.roots.get(1).copied().unwrap_or(v.len());
            if cut != p as usize {
                t.bad.push(format!("the precheck visited {cut} pairs before giving up, its limit is {p}"));
            } else {
                chk(&v[..cut], op, false, End::Limit);
                chk(&v[cut..], om, true, end);
            }
        }
    } else {
        if let Some(l) = alg.limit() {
            if v.len() as u128 > l {
                t.bad.push(format!("{} pairs visited, the limit is {l}", v.len()));
                return Some(t);
            }
            if end == End::Limit && v.len() as u128 != l {
                t.bad.push(format!("limit {l} reported as reached after {} pairs", v.len()));
                return Some(t);
            }
        }
        chk(v, om, alg.safe(), end);
    }
    Some(t)
}

/// Any algorithm that supports the case.
pub fn any_alg(r: &mut Rng, case: &Case) -> Alg {
    match r.below(8) {
        0 => *r.pick(&STD_PLAIN),
        1 => {
            let t = *r.pick(&TS);
            let l = match r.below(4) {
                0 => r.below(6),
                1 => r.below(40),
                2 => r.below(2000),
                _ => case.g.n() as u64 * 2,
            };
            let l = u128::from(l).min(t.max());
            match r.below(3) {
                0 => Alg::BasicL(t, l),
                1 => Alg::DeepL(t, l),
                _ => Alg::WideL(t, l),
            }
        },
        _ => safe_alg(r, false),
    }
}
pub fn alg_sig(case: &Case, alg: Alg, lv: u8) -> u64 {
    mix2(case.hash(), mix2(alg.name().bytes().fold(7, |h, b| mix2(h, u64::from(b))), u64::from(lv)))
}
