//! C15: the bookkeeping of the slow phase against an explicit equivalence closure, and its costs.
use vmon::algs::*;
use vmon::drive::*;
use vmon::driver::*;
use vmon::graph::Closure;
use vmon::pick::*;
use vmon::util::*;

const SLOW_ONLY: usize = 13;

/// What one query is expected to cost at worst, in dereferences of the shared pointers, for classes
/// of `n` members merged smaller into larger: both chains have at most log2(n) links.
fn worst(n: u64) -> u64 {
    let l = 64 - n.max(2).leading_zeros() as u64;
    12 * 2 * (l + 2) + 40
}
struct Hist {
    m: Box<dyn Drive>,
    clo: Closure,
    premade: bool,
    n: u64,
    slow: u64,
    known: u64,
    derefs: u64,
    dmax: u64,
    bad: Vec<String>,
    tail: Vec<(u32, u32)>,
}
impl Hist {
    fn new(c: usize, premade: bool, n: u64) -> Self {
        Hist { m: make(c, premade), clo: Closure::new(), premade, n, slow: 0, known: 0, derefs: 0, dmax: 0, bad: Vec::new(), tail: Vec::new() }
    }
    /// Returns the dereferences, when it was a query of the slow phase.
    fn ask(&mut self, a: u32, b: u32) -> Option<u64> {
        let s = self.m.ask(a, b);
        let slow = if self.premade { s.hashes > 0 } else { s.gets > 0 };
        if self.tail.len() < 40 {
            self.tail.push((a, b));
        }
        if !slow {
            if !s.descend && self.bad.len() < 3 {
                self.bad.push(format!("({a},{b}) answered as already known without looking it up"));
            }
            return None;
        }
        self.slow += 1;
        let known = self.clo.relate(a, b);
        self.known += u64::from(known);
        if known == s.descend && self.bad.len() < 3 {
            self.bad.push(format!("query {} ({a},{b}): answered {}, they are {}related by the pairs asked before", self.slow, if s.descend { "unknown" } else { "known" }, if known { "" } else { "not " }));
        }
        self.derefs += s.derefs;
        self.dmax = self.dmax.max(s.derefs);
        if !self.premade && s.derefs > worst(self.n) && self.bad.len() < 3 {
            self.bad.push(format!("query {} ({a},{b}) needed {} steps over shared pointers, {} are enough for classes of {} ids", self.slow, s.derefs, worst(self.n), self.n));
        }
        Some(s.derefs)
    }
    /// Asks until it was answered by the slow phase.
    fn must(&mut self, a: u32, b: u32) -> u64 {
        for _ in 0..4 {
            if let Some(d) = self.ask(a, b) {
                return d;
            }
        }
        self.bad.push(format!("({a},{b}) was never looked up"));
        0
    }
    fn done(mut self, what: &str, sig: u64, cov: &mut Cov) {
        let made = get(&MADE);
        if made > self.n && self.bad.len() < 3 {
            self.bad.push(format!("{made} class objects made for {} ids", self.n));
        }
        drop(self.m);
        let live = LIVE.with(|l| l.get());
        if live != 0 {
            self.bad.push(format!("{live} class objects left after dropping"));
            LIVE.with(|l| l.set(0));
        }
        cov.add("slow_queries", self.slow);
        cov.add("known_answers", self.known);
        cov.add("pointer_steps", self.derefs);
        cov.max("most_steps_of_a_query", self.dmax);
        cov.eval((self.slow > 2).then_some(sig));
        let t = &self.tail;
        cov.sample(|| format!("{what}: {:?}...", &t[..t.len().min(8)]));
        for b in self.bad {
            cov.vio(format!("{what}: {b}; first queries {:?}", self.tail));
        }
    }
}

/// Random histories, answers only.
fn random(r: &mut Rng, big: bool, cov: &mut Cov) {
    set_rng(rng_cfg(r));
    let c = r.us(DC.len());
    let premade = r.chance(1, 3);
    let n = if big { r.range(50, 4000) } else { r.range(2, 30) };
    BAD.with(|b| b.set(if premade { *r.pick(&[0, 1, 3]) } else { 0 }));
    if premade && n > 500 {
        BAD.with(|b| b.set(0));
    }
    let mut h = Hist::new(c, premade, n);
    let m = if big { n * 3 } else { r.range(1, 4 * n) };
    let style = r.below(6);
    let seed = r.next();
    let mut prev = 0u32;
    let mut sig = mix2(seed, mix2(c as u64, n));
    for k in 0..m {
        let x = |r: &mut Rng| r.below(n) as u32;
        let (a, b) = match style {
            // Locality: neighbours.
            0 => {
                let a = x(r);
                (a, (a + 1) % n as u32)
            },
            // A walk.
            1 => {
                let b = x(r);
                (std::mem::replace(&mut prev, b), b)
            },
            // Blocks.
            2 => {
                let a = x(r);
                (a, (a / 8 * 8 + r.below(8) as u32) % n as u32)
            },
            // Always the same left one.
            3 => (0, x(r)),
            4 => (x(r), (k % n) as u32),
            _ => (x(r), x(r)),
        };
        if a == b {
            continue;
        }
        sig = mix2(sig, u64::from(a) << 32 | u64::from(b));
        h.ask(a, b);
    }
    // Then everything about everything, for small ones.
    if n <= 30 {
        for a in 0..n as u32 {
            for b in 0..n as u32 {
                if a != b {
                    h.ask(a, b);
                }
            }
        }
    }
    h.done(&format!("random history, constants {:?}, {}table", DC[c], if premade { "premade " } else { "" }), sig, cov);
    BAD.with(|b| b.set(0));
}

/// Pairs first, then unions in an order that makes long chains without the weighted rule.
fn chains(r: &mut Rng, n: u64, cov: &mut Cov) {
    set_rng(RngCfg::Zero);
    let mut h = Hist::new(SLOW_ONLY, false, 2 * n);
    let pairs: Vec<(u32, u32)> = (0..n as u32).map(|k| (2 * k, 2 * k + 1)).collect();
    for &(a, b) in &pairs {
        h.must(a, b);
    }
    let style = r.below(8);
    let mut newest = pairs[0].0;
    for (k, &(a, _)) in pairs.iter().enumerate().skip(1) {
        let flip = match style & 3 {
            0 => false,
            1 => true,
            2 => k % 2 == 0,
            _ => r.chance(1, 2),
        };
        // Through the newest member, or through the oldest one.
        let old = if style < 4 { newest } else { pairs[0].0 };
        if flip {
            h.must(a, old);
        } else {
            h.must(old, a);
        }
        newest = a;
    }
    // The oldest and the newest members, and random ones.
    let firsts = [(pairs[0].0, pairs[n as usize - 1].1), (pairs[1].0, pairs[0].1), (pairs[n as usize - 1].0, pairs[n as usize - 2].1)];
    for (a, b) in firsts {
        h.must(a, b);
        h.must(b, a);
    }
    for _ in 0..n {
        let (a, b) = (r.below(2 * n) as u32, r.below(2 * n) as u32);
        if a != b {
            h.must(a, b);
        }
    }
    h.done(&format!("chain of {n} classes, style {style}"), mix2(n, style + 1000), cov);
}

/// Binomial trees of classes: the deepest that the weighted rule permits.  Repeated queries must then
/// become as cheap as those of two ids that were related directly.
fn binomial(r: &mut Rng, lg: u32, cov: &mut Cov) {
    set_rng(RngCfg::Zero);
    let n = 1u32 << lg;
    let mut h = Hist::new(SLOW_ONLY, false, 2 * u64::from(n) + 8);
    for k in 0..n {
        h.must(2 * k, 2 * k + 1);
    }
    // A direct pair, for the baseline.
    let (x, y) = (2 * n, 2 * n + 1);
    h.must(x, y);
    h.must(x, y);
    let mut base = h.must(x, y);
    // Three classes made one, so that at least two are a link away, for the baseline too.
    for k in [2, 4, 6] {
        h.must(x + k, y + k);
    }
    h.must(x + 2, x + 4);
    h.must(x + 2, x + 6);
    for (a, b) in [(2, 4), (2, 6), (4, 6), (4, 2), (6, 2), (6, 4)] {
        h.must(x + a, y + b);
        base = base.max(h.must(x + a, y + b));
    }
    // Which of two representatives stays is the crate's choice: any choice is fine, so both kinds of
    // pattern are tried.
    let style = r.below(4);
    let mut step = 1;
    while step < n {
        let mut k = 0;
        while k < n {
            let (a, b) = (k, k + step);
            match style {
                0 => h.must(2 * a, 2 * b),
                1 => h.must(2 * b, 2 * a),
                2 => h.must(2 * (a + step - 1), 2 * (b + step - 1)),
                _ => h.must(2 * (b + step - 1), 2 * (a + step - 1)),
            };
            k += 2 * step;
        }
        step *= 2;
    }
    let mut most = 0;
    let mut first = 0;
    for _ in 0..300 {
        let (a, b) = match r.below(4) {
            0 => (r.below(u64::from(n)) as u32, r.below(u64::from(n)) as u32),
            1 => (n - 1 - r.below(3) as u32, r.below(3) as u32),
            // Those the most merges away from the roots.
            2 => (n - 1, n / 2 - 1),
            _ => (0, n / 2),
        };
        if a == b {
            continue;
        }
        let (a, b) = (2 * a + r.below(2) as u32, 2 * b + r.below(2) as u32);
        first = first.max(h.must(a, b));
        for _ in 0..8 {
            h.must(a, b);
        }
        most = most.max(h.must(a, b));
    }
    cov.max("binomial_first_query_steps", first);
    cov.max("binomial_repeated_query_steps", most);
    cov.max("direct_query_steps", base);
    // One link each at most is left after the paths were shortened.
    if most > base * 2 + 10 {
        h.bad.push(format!("queries repeated ten times still need {most} steps (first {first}), directly related ids {base}: paths are not shortened"));
    }
    h.done(&format!("binomial tree of 2^{lg} classes, style {style}"), mix2(u64::from(lg), style + 2000), cov);
}
/// Total cost of random unions and queries: near-constant each.
fn amortised(r: &mut Rng, n: u64, cov: &mut Cov) {
    set_rng(RngCfg::Zero);
    let mut h = Hist::new(SLOW_ONLY, false, n);
    let m = 4 * n;
    for _ in 0..m {
        let (a, b) = (r.below(n) as u32, r.below(n) as u32);
        if a != b {
            h.must(a, b);
        }
    }
    cov.max("amortised_steps_per_query_x100", h.derefs * 100 / m);
    if h.derefs > 40 * m {
        h.bad.push(format!("{} steps for {m} queries", h.derefs));
    }
    let sig = mix2(r.next(), n);
    h.done(&format!("random unions of {n} ids"), sig, cov);
}
fn job(j: &mut Job, cov: &mut Cov) {
    let r = &mut j.rng;
    let th = j.tier == Tier::Thorough;
    match j.part {
        0 => {
            for _ in 0..200 {
                random(r, false, cov);
            }
        },
        1 => random(r, true, cov),
        2 => {
            let n = *r.pick(if th { &[3, 10, 100, 1_000, 30_000, 100_000, 600_000] } else { &[3, 10, 100, 1_000, 6_000, 60_000, 60_000] });
            chains(r, n, cov)
        },
        3 => {
            let lg = r.range(2, if th { 17 } else { 14 }) as u32;
            binomial(r, lg, cov)
        },
        _ => amortised(r, if th { 200_000 } else { 20_000 }, cov),
    }
}
static PLAN: Plan = Plan {
    prop: "C15",
    rule: "a distinct history of queries with more than two answered by the slow phase, every one of which was compared with the explicit closure, with its pointer steps counted",
    parts: &[(60, 6_000), (60, 4_000), (40, 400), (24, 300), (4, 40)],
    stack: 1 << 26,
    run: job,
};
fn main() {
    vmon::driver::main(&PLAN);
}
