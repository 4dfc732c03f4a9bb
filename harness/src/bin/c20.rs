//! C20: comparisons do not influence one another.
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use vmon::algs::*;
use vmon::driver::*;
use vmon::graph::*;
use vmon::node::*;
use vmon::pick::*;
use vmon::run::*;
use vmon::trace::*;
use vmon::util::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kd {
    Rich,
    Ord,
}
/// One comparison that can be repeated exactly.
#[derive(Clone)]
struct Item {
    case: Arc<Case>,
    alg: Alg,
    kd: Kd,
    rng: RngCfg,
    budget: u64,
}
#[derive(Clone, PartialEq, Debug)]
struct Got {
    end: End1,
    nvis: u64,
    hash: u64,
    errs: Vec<String>,
}
fn got(r: Rep) -> Got {
    let mut h = 5;
    for v in &r.visits {
        h = mix2(h, mix2(v.pos, u64::from(v.a) << 32 | u64::from(v.b)));
    }
    for d in &r.draws {
        h = mix2(h, u64::from(d.0) << 16 | u64::from(d.1));
    }
    Got { end: r.end, nvis: r.nvis, hash: h, errs: r.errs }
}
impl Item {
    fn gen(r: &mut Rng, max: u64, maxv: u64) -> Item {
        loop {
            let n = size(r, max);
            let fam = r.us(FAMILIES);
            let case = gen_case(r, n, Cyc::Yes, fam, true);
            if let Some(i) = Item::on(r, Arc::new(case), maxv) {
                return i;
            }
        }
    }
    fn on(r: &mut Rng, case: Arc<Case>, maxv: u64) -> Option<Item> {
        let alg = match r.below(4) {
            0 => any_alg(r, &case),
            1 => *r.pick(&STD_SAFE),
            _ => few_alg(r),
        };
        if matches!(alg, Alg::GI(..) | Alg::GP(..)) && !FEW.contains(&alg) {
            return None;
        }
        let budget = if alg.safe() {
            let b = safe_bound(&case, alg);
            if b > maxv {
                return None;
            }
            budget_for(b)
        } else {
            let s = naive(&case, alg.orders().1, usize::MAX, maxv as usize);
            if s.stop == Stop::Cap && alg.limit().map_or(true, |l| l > u128::from(maxv)) {
                return None;
            }
            budget_for(s.visits.len() as u64)
        };
        // (One generator of the crate's is shared by everything on the thread, by design.)
        let rng = loop {
            let c = rng_cfg(r);
            if !matches!(c, RngCfg::Fast) {
                break c;
            }
        };
        Some(Item { case, alg, kd: if r.chance(1, 2) { Kd::Rich } else { Kd::Ord }, rng, budget })
    }
    fn opt(&self, fault_at: u64) -> Opt {
        Opt { budget: self.budget, fault_at, ..Opt::default() }
    }
    fn run_at(&self, fault_at: u64, hook: Option<&dyn Fn(u64)>) -> Rep {
        with_own_rng(|| {
            set_rng(self.rng.clone());
            let alg = self.alg;
            match self.kd {
                Kd::Rich => run_hooked::<KRich>(&self.case, &|a, b| few_fns::<KRich>(alg, a, b), &self.opt(fault_at), hook),
                Kd::Ord => run_hooked::<KOrd>(&self.case, &|a, b| few_fns::<KOrd>(alg, a, b), &self.opt(fault_at), hook),
            }
        })
    }
    fn run(&self) -> Got {
        got(self.run_at(u64::MAX, None))
    }
    fn say(&self) -> String {
        format!("{} ({:?}) with numbers {:?} on {}", self.alg.name(), self.kd, self.rng, self.case.dump(30))
    }
    fn sig(&self) -> u64 {
        alg_sig(&self.case, self.alg, self.kd as u8)
    }
    fn expected_equal(&self) -> bool {
        hk_equal(&self.case, usize::MAX)
    }
}
/// What it gives on a thread that did nothing else.
fn isolated(items: &[Item]) -> Vec<Got> {
    items
        .iter()
        .map(|i| {
            std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || i.run()).expect("spawn").join().expect("join")
            })
        })
        .collect()
}
fn same(i: &Item, exp: &Got, g: &Got, how: &str, cov: &mut Cov) {
    cov.eval(Some(mix2(i.sig(), how.bytes().take(10).fold(1, |h, b| mix2(h, u64::from(b))))));
    if exp != g {
        cov.vio(format!("{how}: {}: in isolation {} after {} pairs, now {} after {} pairs (visits the same: {}) {:?}", i.say(), end_text(&exp.end), exp.nvis, end_text(&g.end), g.nvis, exp.hash == g.hash, g.errs));
    }
}
fn history(r: &mut Rng, cov: &mut Cov) {
    let items: Vec<Item> = (0..6).map(|_| Item::gen(r, 60, 20_000)).collect();
    let exp = isolated(&items);
    let before: Vec<u64> = items.iter().map(|i| i.case.hash()).collect();
    for _ in 0..30 {
        let k = r.us(items.len());
        let i = &items[k];
        if r.chance(1, 4) {
            // One that ends by a panic of a callback.
            let f = i.run_at(r.below(60), None);
            if f.end == End1::Injected {
                cov.add("comparisons unwound in between", 1);
            }
        } else {
            if matches!(exp[k].end, End1::Limit) {
                cov.add("comparisons ended by a limit in between", 1);
            }
            same(i, &exp[k], &i.run(), "in a history of others", cov);
        }
    }
    for (i, h) in items.iter().zip(before) {
        if i.case.hash() != h {
            cov.vio(format!("the graph was modified by {}", i.say()));
        }
    }
    cov.sample(|| format!("history of 30 over {}", items.iter().map(|i| i.alg.name()).collect::<Vec<_>>().join(", ")));
}
/// The same memory, and so the same identities, with other data from one comparison to the next.
fn changed(r: &mut Rng, cov: &mut Cov) {
    let n = size(r, 30);
    let fam = r.us(FAMILIES);
    let mut case = gen_case(r, n, Cyc::Yes, fam, false);
    let alg0 = few_alg(r);
    for step in 0..12 {
        let alg = if r.chance(1, 2) { alg0 } else { few_alg(r) };
        if safe_bound(&case, alg) > 50_000 {
            continue;
        }
        let rng = RngCfg::Split(r.next());
        let exp = hk_equal(&case, usize::MAX);
        let o = Opt { budget: budget_for(safe_bound(&case, alg)), ..Opt::default() };
        set_rng(rng);
        let a = run::<KOrd>(&case, alg, few_fns, &o);
        cov.eval(Some(mix2(alg_sig(&case, alg, 1), 77)));
        cov.add("comparisons after a change of the same nodes", 1);
        let ok = match &a.end {
            End1::Ok(o) => (*o == Outcome::Equal) == exp,
            _ => false,
        };
        if !ok {
            cov.vio(format!("after {step} changes of the data of the same nodes, {} gives {} on {}", alg.name(), end_text(&a.end), case.dump(40)));
        }
        // Change it, in place.
        let xs = case.g.reach(&[case.ra, case.rb]);
        let x = *r.pick(&xs);
        // (Objects with the same identity keep the same data.)
        let peers: Vec<u32> = (0..case.g.n() as u32).filter(|y| case.g.id[*y as usize] == case.g.id[x as usize]).collect();
        if r.chance(1, 2) && case.g.deg(x) > 0 {
            let k = r.us(case.g.deg(x));
            let t = *r.pick(&xs);
            for y in peers {
                if case.g.deg(y) == case.g.deg(x) {
                    let at = case.g.st[y as usize] as usize + k;
                    case.g.ed[at] = t;
                }
            }
        } else {
            let v = if r.chance(1, 2) { case.g.val[case.ra as usize] } else { r.below(3) as u32 };
            for y in peers {
                case.g.val[y as usize] = v;
            }
        }
        case.cyclic = case.g.is_cyclic(&[case.ra, case.rb]);
    }
}
thread_local!(static DEPTH: Cell<u32> = const { Cell::new(0) });
/// Comparisons made by the callbacks of comparisons, three levels deep.
fn nested(r: &mut Rng, cov: &mut Cov) {
    let items: Vec<Item> = (0..4).map(|_| Item::gen(r, 24, 3_000)).collect();
    let exp = isolated(&items);
    let rr = RefCell::new(Rng::new(r.next()));
    let cc = RefCell::new(&mut *cov);
    let left = Cell::new(60u32);
    fn level(items: &[Item], exp: &[Got], rr: &RefCell<Rng>, cc: &RefCell<&mut Cov>, left: &Cell<u32>, depth: u32) {
        let k = rr.borrow_mut().us(items.len());
        let i = &items[k];
        let p = rr.borrow_mut().range(3, 12);
        let hook = |_c: u64| {
            if depth < 3 && left.get() > 0 && rr.borrow_mut().chance(1, p) {
                left.set(left.get() - 1);
                level(items, exp, rr, cc, left, depth + 1);
            }
        };
        let fault = if depth > 0 && rr.borrow_mut().chance(1, 5) { rr.borrow_mut().below(40) } else { u64::MAX };
        let g = i.run_at(fault, Some(&hook));
        let mut c = cc.borrow_mut();
        c.max("depth of nesting", u64::from(depth) + 1);
        if g.end == End1::Injected {
            c.add("nested comparisons unwound", 1);
        } else {
            c.add("nested comparisons", u64::from(depth > 0));
            same(i, &exp[k], &got(g), "nested in, or around, others", &mut c);
        }
    }
    for _ in 0..4 {
        level(&items, &exp, &rr, &cc, &left, 0);
        left.set(60);
    }
    let _ = DEPTH;
}
/// On several threads at once, on the same graphs.
fn concurrent(r: &mut Rng, cov: &mut Cov) {
    let shared: Vec<Arc<Case>> = (0..2).map(|_| Item::gen(r, 60, 8_000).case).collect();
    let mut items = Vec::new();
    while items.len() < 5 {
        let c = r.pick(&shared).clone();
        if let Some(i) = Item::on(r, c, 30_000) {
            items.push(i);
        }
        if r.chance(1, 8) {
            items.push(Item::gen(r, 40, 10_000));
        }
    }
    let exp = isolated(&items);
    let nt = 4;
    let bar = Barrier::new(nt);
    let running = AtomicUsize::new(0);
    let most = AtomicUsize::new(0);
    let covs: Vec<Cov> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|_| {
                let mut r = Rng::new(r.next());
                let (items, exp, bar, running, most) = (&items, &exp, &bar, &running, &most);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut cov = Cov::default();
                        bar.wait();
                        for _ in 0..10 {
                            let k = r.us(items.len());
                            let y = r.range(5, 60);
                            let jitter = RefCell::new(Rng::new(r.next()));
                            let hook = |_c: u64| {
                                if jitter.borrow_mut().chance(1, y) {
                                    std::thread::yield_now();
                                }
                            };
                            most.fetch_max(running.fetch_add(1, SeqCst) + 1, SeqCst);
                            let g = items[k].run_at(u64::MAX, Some(&hook));
                            running.fetch_sub(1, SeqCst);
                            same(&items[k], &exp[k], &got(g), "concurrently with others", &mut cov);
                        }
                        cov
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("join")).collect()
    });
    for c in covs {
        cov.evals += c.evals;
        cov.sigs.extend(c.sigs);
        cov.add("concurrent comparisons", c.evals);
        for v in c.vios {
            cov.vio(v);
        }
    }
    cov.max("comparisons running at once in a job", most.load(SeqCst) as u64);
}
/// Every result is also right on its own, whatever happened on this long-lived thread before.
fn right(r: &mut Rng, cov: &mut Cov) {
    for _ in 0..20 {
        let i = Item::gen(r, 40, 10_000);
        let g = i.run();
        cov.eval(Some(i.sig()));
        if let End1::Ok(o) = g.end {
            if (o == Outcome::Equal) != i.expected_equal() {
                cov.vio(format!("after others on this thread: {}: {}", i.say(), end_text(&g.end)));
            }
        }
    }
}
fn go(job: &mut Job, cov: &mut Cov) {
    let r = &mut job.rng;
    match job.part {
        0 => history(r, cov),
        1 => (0..4).for_each(|_| changed(r, cov)),
        2 => nested(r, cov),
        3 => concurrent(r, cov),
        _ => right(r, cov),
    }
}
fn main() {
    static PLAN: Plan = Plan {
        prop: "C20",
        rule: "a comparison made in a history, after changes of the same nodes, nested in a callback, or concurrently, whose result, visits and draws are judged against those in isolation",
        parts: &[(2500, 40_000), (2500, 40_000), (2000, 40_000), (1500, 20_000), (400, 8000)],
        stack: 256 << 20,
        run: go,
    };
    vmon::driver::main(&PLAN);
}
