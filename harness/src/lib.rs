//! Property-based checks of fuel-merkle.

pub mod engine;
#[cfg(feature = "fuzz")]
pub mod fuzz;
pub mod gen;
pub mod oracle;
pub mod props;
pub mod store;
