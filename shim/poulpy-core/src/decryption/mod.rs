mod glwe;
mod lwe;

pub use glwe::*;
pub use lwe::*;
