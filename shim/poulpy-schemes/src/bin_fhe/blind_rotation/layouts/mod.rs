mod key;
mod key_compressed;
mod key_prepared;
pub use key::*;
pub use key_compressed::*;
pub use key_prepared::*;
