//! Small utilities: PRNG, counting allocator, JSON output.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93))
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0xA5A5_5A5A_1234_5678))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n` (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
}

/// Allocator that keeps per-thread live-bytes/peak/count, except while suspended (i.e. while the
/// harness' own callbacks run), so that what is measured is what the crate under test holds.
pub struct CountingAlloc;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static SUSP: Cell<u32> = const { Cell::new(0) };
}

fn add(n: i64, b: i64) {
    let _ = SUSP.try_with(|s| {
        if s.get() == 0 {
            let _ = CUR.try_with(|c| {
                let v = c.get() + n;
                c.set(v);
                let _ = PEAK.try_with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                });
            });
            let _ = BLOCKS.try_with(|c| c.set(c.get() + b));
            if n > 0 {
                let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
            }
        }
    });
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct AllocSnap {
    pub cur: i64,
    pub blocks: i64,
    pub allocs: u64,
}
pub fn alloc_snap() -> AllocSnap {
    AllocSnap { cur: CUR.with(Cell::get), blocks: BLOCKS.with(Cell::get), allocs: ALLOCS.with(Cell::get) }
}
pub fn alloc_peak_reset() {
    PEAK.with(|p| p.set(CUR.with(Cell::get)));
}
pub fn alloc_peak() -> i64 {
    PEAK.with(Cell::get)
}

/// While alive, allocations of this thread are not counted.
pub struct Suspend;
impl Suspend {
    #[inline]
    pub fn new() -> Self {
        SUSP.with(|s| s.set(s.get() + 1));
        Suspend
    }
}
impl Drop for Suspend {
    #[inline]
    fn drop(&mut self) {
        SUSP.with(|s| s.set(s.get() - 1));
    }
}
/// Run with counting on even inside a suspended callback (nested comparisons).
pub fn suspend_depth() -> u32 {
    SUSP.with(Cell::get)
}

/// Approximate current stack pointer.
#[inline(never)]
pub fn sp() -> usize {
    let x = 0u8;
    std::hint::black_box(&x as *const u8 as usize)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
