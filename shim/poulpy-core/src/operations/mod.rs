mod ggsw;
mod glwe;

pub use ggsw::*;
pub use glwe::*;
