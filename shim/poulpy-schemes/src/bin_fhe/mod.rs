pub mod bdd_arithmetic;
pub mod blind_rotation;
pub mod circuit_bootstrapping;
