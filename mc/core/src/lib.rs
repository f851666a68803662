//! Machinery shared by all checks: explorer, fault injection, guarded memory, evidence.
pub mod explore;
pub mod falloc;
pub mod guard;
pub mod inflight;
pub mod interpose;
pub mod json;
pub mod panics;
pub mod run;
pub mod scratch;

pub use explore::{hash_of, Ch};
pub use panics::catch;
pub use run::{main, Level, Run};

#[global_allocator]
static ALLOC: falloc::FAlloc = falloc::FAlloc;

pub(crate) fn after_execution() {
    falloc::recycle();
}
