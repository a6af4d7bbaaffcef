use std::env::VarError;
use std::ffi::OsStr;
pub fn env_var<K: AsRef<OsStr>>(_key: K) -> Result<String, VarError> {
    if unsafe { crate::nd::ENV } { Ok(String::from("1")) } else { Err(VarError::NotPresent) }
}
