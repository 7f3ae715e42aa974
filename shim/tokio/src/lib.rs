//! Stand-in for the tokio crate: everything is real tokio except what schedules (tasks, timers, blocking
//! calls), what talks to the network, and the scheduling points around channel operations. Those are
//! driven by `sim`, a deterministic scheduler whose every decision is enumerable.
pub use real::*;
#[doc(hidden)]
pub use real as real_tokio;

pub mod net;
pub mod sim;
pub mod sync;
pub mod task;
pub mod time;

pub use task::spawn;

/// Branches are tried in the order they are written (one of the orders the real macro takes).
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::real_tokio::select!{ biased; $($t)* } };
    ($($t:tt)*) => { $crate::real_tokio::select!{ biased; $($t)* } };
}
