//! Models and oracles, written independently of the code under test (this crate does not depend on it).
pub mod engine;
pub mod json;
pub mod wire;
pub mod crypto;
pub mod zone;
pub use engine::{bad, Bad, Chooser, Mc, Res};
