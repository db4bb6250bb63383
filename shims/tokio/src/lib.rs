//! Stands in for tokio when kdl-lsp is simulated: the same crate, except that running tasks, time,
//! standard input and standard output belong to the simulator in [`sim`].
pub use real::*;

pub mod sim;
mod sys;

pub mod io {
    pub use crate::sim::{stdin, stdout, Stdin, Stdout};
    pub use real::io::*;
}
pub mod runtime {
    pub use crate::sim::{Builder, Handle, Runtime};
    pub use real::runtime::*;
}
pub mod task {
    pub use crate::sim::{block_in_place, spawn, spawn_blocking, spawn_local, yield_now, JoinError, JoinHandle};
    pub use real::task::{coop, futures, id, try_id, AbortHandle, Id, LocalKey, LocalSet, Unconstrained};
}
pub use crate::sim::spawn;
pub mod time {
    pub use crate::sim::time::*;
    pub use std::time::Duration;
}
