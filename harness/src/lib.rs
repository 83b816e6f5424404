//! Monitors and workload engine for the EASTL-rs runtime checks.
pub mod ctx;
pub mod elem;
pub mod engine;
pub mod mem;
pub mod raw;
pub mod rng;
pub mod tok;
pub mod tree;
pub mod util;

pub use ctx::{Ctx, Kind};
pub use elem::*;
pub use engine::{Rig, Scale};
pub use mem::MonAlloc;
pub use raw::WriteWord;
pub use tok::*;
pub use util::*;
