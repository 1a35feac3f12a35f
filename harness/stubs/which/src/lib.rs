#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("not found") } }
impl std::error::Error for Error {}
pub fn which<T: AsRef<std::ffi::OsStr>>(_: T) -> Result<std::path::PathBuf, Error> { Err(Error) }
