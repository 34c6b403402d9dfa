pub mod alloc;
pub mod csvtime;
pub mod engine;
pub mod graph;
pub mod kit;
pub mod pack;
pub mod time;

pub use engine::{hash_of, main, show, Check, Ctx, Level, Res};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

/// Fail the case with a message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
