//! Compares small random graphs without std, against a naive oracle of its own; exit code 0 when
//! everything agrees, 1 when not.  Prints the amount of comparisons.
#![no_std]
#![no_main]
use core::cell::Cell;
use core::convert::Infallible;
use core::num::NonZeroU16;
use core::ops::Deref;
use graph_safe_compare::basic;
use graph_safe_compare::basic::modes::limited::LimitReached;
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::random::NumberGenerator;
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
use graph_safe_compare::generic::equiv::{self, Equiv};
use graph_safe_compare::generic::equiv_classes::{self, Class};
use graph_safe_compare::generic::precheck_interleave;
use graph_safe_compare::utils::RefId;
use graph_safe_compare::Node;

#[link(name = "c")]
extern "C" {
    fn printf(f: *const u8, ...) -> i32;
    fn fflush(f: *mut u8) -> i32;
    fn abort() -> !;
    #[cfg(feature = "alloc")]
    fn malloc(n: usize) -> *mut u8;
    #[cfg(feature = "alloc")]
    fn free(p: *mut u8);
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    unsafe { abort() }
}
#[no_mangle]
extern "C" fn rust_eh_personality() {}
#[cfg(feature = "alloc")]
struct Malloc;
#[cfg(feature = "alloc")]
unsafe impl core::alloc::GlobalAlloc for Malloc {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
        malloc(l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, _: core::alloc::Layout) {
        free(p)
    }
}
#[cfg(feature = "alloc")]
#[global_allocator]
static A: Malloc = Malloc;

const N: usize = 12;
struct Vx {
    val: u8,
    n: u8,
    to: [u8; 3],
}
struct G([Vx; N]);

#[derive(Clone, Copy)]
struct Nd<'g>(&'g G, u8);
impl<'g> Node for Nd<'g> {
    type Cmp = bool;
    type Id = RefId<&'g Vx>;
    type Index = u8;
    fn id(&self) -> Self::Id {
        RefId(&self.0 .0[usize::from(self.1)])
    }
    fn get_edge(&self, i: &u8) -> Option<Self> {
        let v = &self.0 .0[usize::from(self.1)];
        (*i < v.n).then(|| Nd(self.0, v.to[usize::from(*i)]))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> bool {
        self.0 .0[usize::from(self.1)].val == o.0 .0[usize::from(o.1)].val
    }
}

// Classes of nodes in a fixed array; pointers are leaked into a fixed pool, which is enough here.
const POOL: usize = 64;
#[derive(Clone)]
struct P(&'static Cell<Class<P>>);
impl Deref for P {
    type Target = Cell<Class<P>>;
    fn deref(&self) -> &Self::Target {
        self.0
    }
}
struct Slots(core::cell::UnsafeCell<[core::mem::MaybeUninit<Cell<Class<P>>>; POOL]>, Cell<usize>);
unsafe impl Sync for Slots {}
static SLOTS: Slots = Slots(core::cell::UnsafeCell::new([const { core::mem::MaybeUninit::uninit() }; POOL]), Cell::new(0));
impl equiv_classes::Rc for P {
    fn new(v: Cell<Class<Self>>) -> Self {
        let i = SLOTS.1.get();
        assert!(i < POOL);
        SLOTS.1.set(i + 1);
        unsafe {
            let p = SLOTS.0.get().cast::<Cell<Class<P>>>().add(i);
            p.write(v);
            P(&*p)
        }
    }
}
struct Tab<'g>([Option<(RefId<&'g Vx>, P)>; 2 * N]);
impl Default for Tab<'_> {
    fn default() -> Self {
        Tab([const { None }; 2 * N])
    }
}
impl<'g> equiv_classes::Table for Tab<'g> {
    type Node = Nd<'g>;
    type Rc = P;
    fn get(&self, k: &RefId<&'g Vx>) -> Option<&P> {
        self.0.iter().flatten().find(|e| e.0 == *k).map(|e| &e.1)
    }
    fn insert(&mut self, k: RefId<&'g Vx>, v: P) {
        let i = self.0.iter().position(|e| e.as_ref().map_or(true, |e| e.0 == k)).unwrap();
        self.0[i] = Some((k, v));
    }
}

#[cfg(feature = "wyrng")]
use graph_safe_compare::cycle_safe::modes::interleave::random::default::RandomNumberGenerator as X;
#[cfg(all(feature = "oorandom", not(feature = "wyrng")))]
use graph_safe_compare::cycle_safe::modes::interleave::random::oorandom::RandomNumberGenerator as X;
#[cfg(not(any(feature = "oorandom", feature = "wyrng")))]
use Own as X;
#[derive(Default)]
#[allow(dead_code)]
struct Own(u16);
impl NumberGenerator for Own {
    fn rand_upto(&mut self, e: NonZeroU16) -> u16 {
        self.0 = self.0.wrapping_mul(31).wrapping_add(7);
        self.0 % e.get()
    }
}
struct I<'g>(&'g ());
impl<'g> interleave::Params for I<'g> {
    const PRECHECK_LIMIT: u16 = 5;
    const FAST_LIMIT_MAX: u16 = 3;
    const SLOW_LIMIT: u16 = 2;
    type Node = Nd<'g>;
    type Table = Tab<'g>;
    type RNG = X;
}
impl<'g> equiv::Params for I<'g> {
    type Node = Nd<'g>;
    type DescendMode = Interleave<Self>;
    type RecurMode = CallStack;
    type Error = Infallible;
}
impl<'g> precheck_interleave::Params<Nd<'g>> for I<'g> {
    type PrecheckRecurMode = CallStack;
    type InterleaveRecurMode = CallStack;
    type InterleaveParams = Self;
    type Error = Infallible;
}

/// Greatest bisimulation by refinement.
fn oracle(g: &G, a: u8, b: u8) -> bool {
    let mut eq = [[true; N]; N];
    loop {
        let mut changed = false;
        for x in 0 .. N {
            for y in 0 .. N {
                let (p, q) = (&g.0[x], &g.0[y]);
                let same = x == y
                    || (p.val == q.val && p.n == q.n && (0 .. usize::from(p.n)).all(|i| eq[usize::from(p.to[i])][usize::from(q.to[i])]));
                if eq[x][y] && !same {
                    eq[x][y] = false;
                    changed = true;
                }
            }
        }
        if !changed {
            return eq[usize::from(a)][usize::from(b)];
        }
    }
}

#[no_mangle]
extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let mut s = 1_u32;
    let mut r = move |n: u32| {
        s = s.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        (s >> 8) % n
    };
    let (mut bad, mut yes, mut count) = (0, 0, 0);
    for round in 0 .. 4000 {
        let cyclic = round % 2 == 0;
        let mut g = G([const { Vx { val: 0, n: 0, to: [0; 3] } }; N]);
        for i in 0 .. N {
            g.0[i].val = u8::from(r(20) == 0);
            g.0[i].n = if cyclic { 2 + u8::from(r(20) == 0) } else { r(4) as u8 };
            for e in 0 .. 3 {
                if !cyclic && i == 0 {
                    g.0[i].n = 0;
                } else {
                    g.0[i].to[e] = r(if cyclic { N as u32 } else { i as u32 }) as u8;
                }
            }
        }
        let (a, b) = (r(N as u32) as u8, r(N as u32) as u8);
        let (x, y) = (Nd(&g, a), Nd(&g, b));
        let want = oracle(&g, a, b);
        yes += i32::from(want);
        let mut see = |v: bool| {
            count += 1;
            bad += i32::from(v != want);
        };
        SLOTS.1.set(0);
        match Equiv::<I<'_>>::default().equiv(x, y) {
            Ok(v) => see(v),
            Err(e) => match e {},
        }
        SLOTS.1.set(0);
        match precheck_interleave::equiv::<_, I<'_>>(x, y) {
            Ok(v) => see(v),
            Err(e) => match e {},
        }
        match basic::limited_equiv(1000_u32, x, y) {
            Ok(v) => see(v),
            Err(LimitReached) => (),
        }
        if !cyclic {
            see(basic::equiv(x, y));
        }
        #[cfg(feature = "alloc")]
        {
            use graph_safe_compare::{deep_safe, wide_safe};
            if !cyclic {
                see(deep_safe::equiv(x, y));
                see(wide_safe::equiv(x, y));
            }
            if let Ok(v) = deep_safe::limited_equiv(1000_u16, x, y) {
                see(v);
            }
            if let Ok(v) = wide_safe::limited_equiv(1000_u16, x, y) {
                see(v);
            }
        }
    }
    unsafe {
        let _ = printf(b"comparisons %d equivalent %d wrong %d\n\0".as_ptr(), count, yes, bad);
        let _ = fflush(core::ptr::null_mut());
    }
    i32::from(bad != 0)
}
