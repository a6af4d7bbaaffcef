pub mod u32;
