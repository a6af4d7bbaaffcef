mod gglwe;
mod ggsw;
mod glwe;
mod lwe;

pub use gglwe::*;
pub use ggsw::*;
pub use glwe::*;
pub use lwe::*;
