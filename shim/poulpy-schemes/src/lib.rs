pub mod bin_fhe;
