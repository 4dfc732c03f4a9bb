pub mod algs;
pub mod drive;
pub mod driver;
pub mod graph;
pub mod node;
#[cfg(feature = "std")]
pub mod owned;
pub mod pick;
pub mod run;
pub mod trace;
pub mod util;

#[global_allocator]
static ALLOC: util::CountingAlloc = util::CountingAlloc;
