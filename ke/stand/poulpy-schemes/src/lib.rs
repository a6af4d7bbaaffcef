pub mod bin_fhe { pub mod blind_rotation { pub struct CGGI; } }
