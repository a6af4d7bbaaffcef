pub fn get_physical() -> usize { 4 }
pub fn get() -> usize { 4 }
