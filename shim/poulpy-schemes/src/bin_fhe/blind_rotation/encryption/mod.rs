mod key;
mod key_compressed;

pub use key::*;
pub use key_compressed::*;
