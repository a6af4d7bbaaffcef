mod fhe_uint;
mod fhe_uint_prepared;

mod fhe_uint_prepared_debug;

pub use fhe_uint_prepared_debug::*;

pub use fhe_uint::*;
pub use fhe_uint_prepared::*;
