mod automorphism;
mod conversion;
mod decryption;
mod dist;
mod encryption;
mod external_product;
mod glwe_packer;
mod glwe_packing;
mod glwe_trace;
mod keyswitching;
mod noise;
mod operations;
mod scratch;
mod utils;

pub use operations::*;
pub mod layouts;
pub use automorphism::*;
pub use conversion::*;
pub use decryption::*;
pub use dist::*;
pub use encryption::*;
pub use external_product::*;
pub use glwe_packer::*;
pub use glwe_packing::*;
pub use glwe_trace::*;
pub use keyswitching::*;
pub use noise::*;
pub use scratch::*;

pub use encryption::SIGMA;

