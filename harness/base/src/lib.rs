//! What the monitors and the instances of the operations share.
pub mod core;
pub mod exec;
pub mod util;
pub use crate::core::*;
pub use crate::exec::*;
pub use crate::util::*;
