pub mod fft64;
pub mod vec_znx;
pub mod znx;
