mod gglwe;
mod ggsw;
mod glwe;

pub use gglwe::*;
pub use ggsw::*;
pub use glwe::*;
