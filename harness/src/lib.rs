pub mod engine;
#[cfg(feature = "bound")]
pub mod bound;
pub use engine::*;
#[cfg(feature = "base")]
pub mod circ;
#[cfg(feature = "pairing")]
pub mod tree;
#[cfg(feature = "merlin")]
pub mod fs;
#[cfg(feature = "gadgets")]
pub mod wit;
#[cfg(feature = "pairing")]
pub mod schemes;
#[cfg(feature = "base")]
pub mod gkr;
#[cfg(feature = "plonk")]
pub mod plonk;
#[cfg(feature = "pairing")]
pub mod sigma;
#[cfg(feature = "asvc")]
pub mod asvc;
#[cfg(feature = "all")]
pub mod all;
#[cfg(feature = "curve")]
pub mod clear;
#[cfg(all(feature = "bound", feature = "pairing"))]
pub mod transcripts;
