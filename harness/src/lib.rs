//! Runtime-monitoring harness: deterministic case generation, oracles, three-valued verdicts,
//! an instrumented scalar and a double-double reference arithmetic.
#![allow(clippy::all)]
pub mod alloc_mon;
pub mod api;
pub mod ctx;
pub mod dd;
pub mod expr;
pub mod fl;
pub mod kf;
pub mod model;
pub mod probe;
pub mod rm;
pub mod rot;
pub mod robot;
pub mod ser;
pub use ctx::*;
pub use dd::{DD, dd};
pub use fl::*;
pub use probe::Probe;
pub use rm::RM;
