//! Kani harnesses over the compiler crate's real source, with the encrypted machine replaced by its contract.
#[macro_use]
#[path = "../../kani/src/harness.rs"]
mod harness;
#[path = "../../kani/src/front/mod.rs"]
pub mod front;
#[path = "../../kani/src/isa.rs"]
pub mod isa;
#[path = "../../kani/src/mext.rs"]
pub mod mext;
#[path = "../../kani/src/nd.rs"]
pub mod nd;
#[cfg(kani)]
pub mod stubs;
