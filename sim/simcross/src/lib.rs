//! Drop-in stand-in for the `crossbeam` facade crate: the same types and
//! queues (the real crossbeam crates underneath), with every channel
//! operation a scheduling point of the simulator, blocking decided by the
//! simulator, and every message traceable to the control call that sent it.

pub use crossbeam_deque as deque;
pub use crossbeam_epoch as epoch;
pub use crossbeam_queue as queue;
pub use crossbeam_utils as utils;
pub use crossbeam_utils::atomic;
pub use crossbeam_utils::sync;
pub use crossbeam_utils::thread;
pub use crossbeam_utils::thread::scope;

pub mod channel;
