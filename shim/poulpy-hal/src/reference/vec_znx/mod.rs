mod add;
mod add_scalar;
mod automorphism;
mod copy;
mod merge_rings;
mod mul_xp_minus_one;
mod negate;
mod normalize;
mod rotate;
mod sampling;
mod shift;
mod split_ring;
mod sub;
mod sub_scalar;
mod switch_ring;
mod zero;

pub use add::*;
pub use add_scalar::*;
pub use automorphism::*;
pub use copy::*;
pub use merge_rings::*;
pub use mul_xp_minus_one::*;
pub use negate::*;
pub use normalize::*;
pub use rotate::*;
pub use sampling::*;
pub use shift::*;
pub use split_ring::*;
pub use sub::*;
pub use sub_scalar::*;
pub use switch_ring::*;
pub use zero::*;
