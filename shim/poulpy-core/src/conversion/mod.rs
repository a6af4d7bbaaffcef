mod gglwe_to_ggsw;
mod glwe_to_lwe;
mod lwe_to_glwe;

pub use gglwe_to_ggsw::*;
pub use glwe_to_lwe::*;
pub use lwe_to_glwe::*;
