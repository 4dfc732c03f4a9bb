//! C17: the provided random-number generators.
use graph_safe_compare::cycle_safe::modes::interleave::random::{self, NumberGenerator};
use std::any::TypeId;
use std::num::NonZeroU16;
use vmon::driver::*;
use vmon::run::classify;
use vmon::util::*;

const NAMES: [&str; 4] = ["wyrng", "oorandom", "fastrand", "the default one"];

struct G<R>(R, &'static str);
impl<R: NumberGenerator> G<R> {
    fn draw(&mut self, e: u16) -> Result<u16, String> {
        let r = &mut self.0;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.rand_upto(NonZeroU16::new(e).expect("nz")))) {
            Ok(v) if v < e => Ok(v),
            Ok(v) => Err(format!("{} gave {v} for the exclusive end {e}", self.1)),
            Err(p) => Err(format!("{} for the exclusive end {e}: {:?}", self.1, classify(p))),
        }
    }
    /// Draws `n` numbers below `e`, which must cover it all, without gross bias.
    fn cover(&mut self, e: u16, n: u64, whole: bool, cov: &mut Cov) -> Result<(), String> {
        let eu = usize::from(e);
        let mut hits = vec![0u32; eu];
        for _ in 0..n {
            hits[usize::from(self.draw(e)?)] += 1;
        }
        cov.add("numbers drawn", n);
        if whole {
            cov.add("ranges covered completely", 1);
            if let Some(m) = hits.iter().position(|h| *h == 0) {
                return Err(format!("{}: {m} did not occur in {n} draws below {e}", self.1));
            }
        }
        // Each value's probability is at least 1/65536 * floor(65536/e) and at most
        // 1/65536 * ceil(65536/e) even for the most naive reduction of 16 bits, i.e. between a half
        // and twice the uniform one.
        let b = eu.min(16);
        let mut bk = vec![(0u64, 0u64); b];
        for (v, h) in hits.iter().enumerate() {
            let i = v * b / eu;
            bk[i].0 += u64::from(*h);
            bk[i].1 += 1;
        }
        if n / b as u64 >= 2000 {
            cov.add("uniformity buckets judged", b as u64);
            for (i, (h, w)) in bk.iter().enumerate() {
                let exp = n as f64 * *w as f64 / eu as f64;
                let r = *h as f64 / exp;
                if !(0.4..=2.2).contains(&r) {
                    return Err(format!("{}: {h} of {n} draws below {e} were in part {i} of {b}, {r:.2} times the uniform amount", self.1));
                }
            }
        }
        Ok(())
    }
    fn history(&mut self, r: &mut Rng, cov: &mut Cov) -> Result<(), String> {
        // Mixed bounds.
        for _ in 0..4000 {
            let e = match r.below(5) {
                0 => 1,
                1 => r.range(1, 9) as u16,
                2 => r.range(1, 1001) as u16,
                3 => 65535 - r.below(5) as u16,
                _ => r.range(1, 65535) as u16,
            };
            self.draw(e)?;
        }
        cov.add("numbers drawn", 4000);
        // No short period, all pairs of successive numbers, not constant between mixed draws.
        let n = 20_000usize;
        let e = *r.pick(&[65535u16, 801, 1000, 4096, 32768, 40000]);
        let mut s = Vec::with_capacity(n);
        for _ in 0..n {
            s.push(self.draw(e)?);
        }
        cov.add("numbers drawn", n as u64);
        for p in 1..=2000usize {
            if (0..n - p).rev().take(4000).all(|i| s[i] == s[i + p]) {
                return Err(format!("{}: draws below {e} repeat with period {p}", self.1));
            }
        }
        cov.add("periods excluded", 2000);
        let e = r.range(2, 24) as u16;
        let eu = usize::from(e);
        let mut seen = vec![false; eu * eu];
        let mut prev = usize::from(self.draw(e)?);
        let m = 60 * eu * eu;
        for _ in 0..m {
            let v = usize::from(self.draw(e)?);
            seen[prev * eu + v] = true;
            prev = v;
        }
        cov.add("numbers drawn", m as u64);
        if let Some(i) = seen.iter().position(|x| !x) {
            return Err(format!("{}: below {e}, {} was never followed by {} in {m} draws", self.1, i / eu, i % eu));
        }
        cov.add("pairs of successive numbers all seen", (eu * eu) as u64);
        Ok(())
    }
}

fn part<R: NumberGenerator>(which: usize, job: &mut Job, cov: &mut Cov) {
    let name = NAMES[which];
    let mut g = G(R::default(), name);
    let r = &mut job.rng;
    let res = match job.part {
        // Every bound: blocks of 256 of them.
        0 => {
            for _ in 0..r.below(50) {
                let _ = g.draw(7);
            }
            (|| {
                for e in (job.k / 4 * 256).max(1)..=(job.k / 4 * 256 + 255).min(65535) {
                    let mut f = G(R::default(), name);
                    for _ in 0..4 {
                        f.draw(e as u16)?;
                    }
                    for _ in 0..40 {
                        g.draw(e as u16)?;
                    }
                    cov.add("numbers drawn", 44);
                    cov.eval(Some(mix2(e, which as u64)));
                }
                Ok(())
            })()
        },
        // Small and medium bounds: completely covered, from a new generator.
        1 => (|| {
            for e in job.k / 4 * 8 + 1..=job.k / 4 * 8 + 8 {
                let mut f = G(R::default(), name);
                f.cover(e as u16, (40 * e).max(2000 * e.min(16)), true, cov)?;
                cov.eval(Some(mix2(e, which as u64 + 10)));
            }
            Ok(())
        })(),
        // Great bounds: completely covered.
        2 => {
            let any = r.range(2000, 65535);
            let e = *r.pick(&[any, 65535, 65534, 32767, 32768, 32769, 801, 60000]) as u16;
            cov.eval(Some(mix2(u64::from(e), which as u64 + 20)));
            cov.sample(|| format!("{name}: all of 0..{e} within {} draws", 30 * 65536));
            g.cover(e, 30 * 65536, true, cov)
        },
        _ => {
            cov.eval(Some(mix2(r.next(), which as u64 + 30)));
            g.history(r, cov)
        },
    };
    if let Err(e) = res {
        cov.vio(e);
    }
}

fn go(job: &mut Job, cov: &mut Cov) {
    if TypeId::of::<random::default::RandomNumberGenerator>() != TypeId::of::<random::wyrng::RandomNumberGenerator>() {
        cov.vio("with all generators enabled, the default one is not wyrng's".into());
    }
    match job.k % 4 {
        0 => part::<random::wyrng::RandomNumberGenerator>(0, job, cov),
        1 => part::<random::oorandom::RandomNumberGenerator>(1, job, cov),
        2 => part::<random::fastrand::RandomNumberGenerator>(2, job, cov),
        _ => part::<random::default::RandomNumberGenerator>(3, job, cov),
    }
}
fn main() {
    static PLAN: Plan = Plan {
        prop: "C17",
        rule: "an exclusive end (all 65535 of them), or a history of mixed ends, with a generator; every number drawn is judged against the range, complete coverage, buckets and repetition",
        parts: &[(1024, 1024), (1000, 4000), (120, 1200), (160, 4000)],
        stack: 4 << 20,
        run: go,
    };
    vmon::driver::main(&PLAN);
}
