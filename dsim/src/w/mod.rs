//! The workloads, one per property.
#[macro_use]
pub mod range;
#[cfg(feature = "small")]
mod small;
#[cfg(feature = "small")]
pub use small::TABLE;
#[cfg(feature = "small")]
pub fn warm_up() {}
#[cfg(not(feature = "small"))]
pub mod common;
#[cfg(not(feature = "small"))]
pub mod handles;
#[cfg(not(feature = "small"))]
mod builder;
#[cfg(not(feature = "small"))]
mod c01;
#[cfg(not(feature = "small"))]
mod intern;
#[cfg(not(feature = "small"))]
mod lent;
#[cfg(not(feature = "small"))]
mod machines;
#[cfg(not(feature = "small"))]
mod queue;
#[cfg(not(feature = "small"))]
mod read;
#[cfg(not(feature = "small"))]
mod serde;
#[cfg(not(feature = "small"))]
mod parse;
#[cfg(not(feature = "small"))]
mod frames;
#[cfg(not(feature = "small"))]
mod gen;
#[cfg(not(feature = "small"))]
mod keys;
#[cfg(not(feature = "small"))]
mod render;
#[cfg(not(feature = "small"))]
mod squeue;
#[cfg(not(feature = "small"))]
mod table;
#[cfg(not(feature = "small"))]
pub use table::{warm_up, TABLE};
