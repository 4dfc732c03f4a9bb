//! Job scheduling, watchdog, coverage and reports.
use crate::run::install_hook;
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// What one job saw.
#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    pub vios: Vec<String>,
    want_samples: bool,
}
impl Cov {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxes.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// One evaluation of the oracle; `sig` identifies it when it is a non-trivial one.
    pub fn eval(&mut self, sig: Option<u64>) {
        self.evals += 1;
        if let Some(s) = sig {
            self.sigs.insert(s);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_samples && self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
    pub fn vio(&mut self, s: String) {
        if self.vios.len() < 3 {
            self.vios.push(s);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Job {
    pub index: u64,
    pub rng: Rng,
    pub tier: Tier,
    /// Kind of the job (which part of the plan).
    pub part: usize,
    /// Index within its part.
    pub k: u64,
}
pub struct Plan {
    pub prop: &'static str,
    /// What makes an evaluation count as distinct and non-trivial.
    pub rule: &'static str,
    /// Number of jobs of each part, for quick and for thorough.
    pub parts: &'static [(u64, u64)],
    pub stack: usize,
    pub run: fn(&mut Job, &mut Cov),
}

fn cpu_of(clock: libc_clock) -> f64 {
    let mut ts = Timespec { s: 0, n: 0 };
    if unsafe { clock_gettime(clock, &mut ts) } != 0 {
        return 0.0;
    }
    ts.s as f64 + ts.n as f64 * 1e-9
}
#[allow(non_camel_case_types)]
type libc_clock = i32;
#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
}

const STUCK_CPU: f64 = 90.0;

struct Slot {
    job: AtomicU64,
    clock: AtomicU64,
    cpu0: Mutex<f64>,
}

pub fn main(plan: &'static Plan) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let wall: f64 = get("--wall").and_then(|s| s.parse().ok()).unwrap_or(600.0);
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let only: Option<u64> = get("--only").and_then(|s| s.parse().ok());
    let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let rem: u64 = get("--rem").and_then(|s| s.parse().ok()).unwrap_or(0);
    let out = get("--out");
    let status = get("--status").map(|p| {
        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).expect("status file")
    });
    let status = Arc::new(status);

    // The jobs of the parts, interleaved so that a cut short run still covers every part.
    let mut order: Vec<(f64, usize, u64, u64)> = Vec::new();
    let mut base = 0u64;
    for (p, (q, t)) in plan.parts.iter().enumerate() {
        let full = if tier == Tier::Quick { *q } else { *t };
        let n = ((full as f64 * scale).ceil() as u64).min(full);
        for k in 0..n {
            order.push(((k as f64 + 0.5) / n as f64, p, k, base + k));
        }
        base += 10_000_000;
    }
    order.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
    if let Some(o) = only {
        order.retain(|x| x.3 == o);
        if order.is_empty() {
            let p = (o / 10_000_000) as usize;
            order.push((0.0, p, o % 10_000_000, o));
        }
    }
    let total = order.len();
    let order = Arc::new(order);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let t0 = Instant::now();
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..threads)
            .map(|_| Slot { job: AtomicU64::new(u64::MAX), clock: AtomicU64::new(0), cpu0: Mutex::new(0.0) })
            .collect(),
    );
    let merged: Arc<Mutex<(Cov, Vec<(u64, String)>, u64)>> = Arc::new(Mutex::new((Cov::default(), Vec::new(), 0)));
    let mut hs = Vec::new();
    for w in 0..threads.min(total.max(1)) {
        let (order, next, stop, slots, merged, status) =
            (order.clone(), next.clone(), stop.clone(), slots.clone(), merged.clone(), status.clone());
        let h = std::thread::Builder::new()
            .stack_size(plan.stack)
            .spawn(move || {
                let mut cid = 0i32;
                unsafe { pthread_getcpuclockid(pthread_self(), &mut cid) };
                slots[w].clock.store(cid as u32 as u64, SeqCst);
                loop {
                    if stop.load(SeqCst) || t0.elapsed().as_secs_f64() > wall {
                        break;
                    }
                    let i = next.fetch_add(1, SeqCst) as usize;
                    if i >= order.len() {
                        break;
                    }
                    let (_, part, k, index) = order[i];
                    *slots[w].cpu0.lock().unwrap() = cpu_of(cid);
                    slots[w].job.store(index, SeqCst);
                    if let Some(f) = &*status {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(format!("{index:>19}\n").as_bytes(), (w * 20) as u64);
                    }
                    let mut job =
                        Job { index, rng: Rng::new(mix2(mix2(seed, index ^ (rem << 60)), plan.prop.len() as u64 ^ mix(plan.prop.bytes().fold(0, |h, b| h * 31 + u64::from(b))))), tier, part, k };
                    let mut cov = Cov { want_samples: i % 97 == 0, ..Default::default() };
                    #[cfg(feature = "all_rngs")]
                    fastrand::seed(job.rng.next());
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (plan.run)(&mut job, &mut cov)));
                    if r.is_err() {
                        let m = crate::run::LAST_PANIC.with(|l| l.borrow().clone());
                        // A panic of the harness itself is not a verdict.
                        eprintln!("HARNESS-ERROR job {index}: {m}");
                        std::process::exit(3);
                    }
                    slots[w].job.store(u64::MAX, SeqCst);
                    if let Some(f) = &*status {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(format!("{:>19}\n", "-").as_bytes(), (w * 20) as u64);
                    }
                    let mut m = merged.lock().unwrap();
                    m.2 += 1;
                    m.0.evals += cov.evals;
                    for (k, v) in cov.counters {
                        m.0.add(k, v);
                    }
                    for (k, v) in cov.maxes {
                        m.0.max(k, v);
                    }
                    if m.0.sigs.len() < 3_000_000 {
                        m.0.sigs.extend(cov.sigs);
                    }
                    if m.0.samples.len() < 12 {
                        m.0.samples.extend(cov.samples);
                    }
                    if !cov.vios.is_empty() {
                        for v in cov.vios {
                            m.1.push((index, v));
                        }
                        if m.1.len() >= 5 {
                            stop.store(true, SeqCst);
                        }
                    }
                }
            })
            .expect("spawn");
        hs.push(h);
    }
    // Watchdog: a job that used an absurd amount of its own CPU time without any callback bound
    // being exceeded is stuck inside the code under test.
    let mut stuck: Option<u64> = None;
    loop {
        std::thread::sleep(std::time::Duration::from_millis(if total < 50 { 5 } else { 50 }));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        for s in slots.iter() {
            let j = s.job.load(SeqCst);
            if j != u64::MAX {
                let c = s.clock.load(SeqCst) as u32 as i32;
                let used = cpu_of(c) - *s.cpu0.lock().unwrap();
                if used > STUCK_CPU && s.job.load(SeqCst) == j {
                    stuck = Some(j);
                }
            }
        }
        if stuck.is_some() {
            break;
        }
    }
    let mut m = merged.lock().unwrap();
    if let Some(j) = stuck {
        m.1.push((j, format!("no result after {STUCK_CPU} s of CPU time in the comparison(s) of this job (normally well below 10 s)")));
    }
    m.1.sort();
    let mut o = String::from("{");
    o.push_str(&format!(
        "\"prop\":{},\"rule\":{},\"seed\":{seed},\"jobs\":{},\"jobs_planned\":{total},\"evals\":{},\"distinct\":{},\"wall_s\":{:.2},",
        jstr(plan.prop),
        jstr(plan.rule),
        m.2,
        m.0.evals,
        m.0.sigs.len(),
        t0.elapsed().as_secs_f64()
    ));
    let c: Vec<String> = m.0.counters.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect();
    o.push_str(&format!("\"counters\":{{{}}},", c.join(",")));
    let c: Vec<String> = m.0.maxes.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect();
    o.push_str(&format!("\"maxes\":{{{}}},", c.join(",")));
    let c: Vec<String> = m.0.samples.iter().take(12).map(|s| jstr(s)).collect();
    o.push_str(&format!("\"samples\":[{}],", c.join(",")));
    let c: Vec<String> = m.1.iter().take(8).map(|(j, s)| format!("{{\"job\":{j},\"what\":{}}}", jstr(s))).collect();
    o.push_str(&format!("\"violations\":[{}]}}", c.join(",")));
    match out {
        Some(p) => std::fs::write(p, &o).expect("write out"),
        None => println!("{o}"),
    }
    let code = i32::from(!m.1.is_empty());
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
