mod gglwe_atk;
mod ggsw_ct;
mod glwe_ct;

pub use gglwe_atk::*;
pub use ggsw_ct::*;
pub use glwe_ct::*;
