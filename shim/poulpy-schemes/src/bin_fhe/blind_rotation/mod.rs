mod algorithms;
mod encryption;
mod layouts;
mod lut;
mod utils;

pub use algorithms::*;
pub use encryption::*;
pub use layouts::*;
pub use lut::*;
