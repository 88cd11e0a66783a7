//! Type-level stand-in for `xflags` (not available offline).  The real macro generates `from_env_` & co;
//! here they come from a blanket trait, so that the committed "generated" block type-checks.
#[derive(Clone)] pub struct Error { msg: String }
pub type Result<T, E = Error> = std::result::Result<T, E>;
impl std::fmt::Debug for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.msg) } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.msg) } }
impl std::error::Error for Error {}
impl Error { pub fn new(m: impl Into<String>) -> Error { Error { msg: m.into() } } pub fn exit(self) -> ! { std::process::exit(2) } }
pub trait Generated: Sized {
    fn from_env_or_exit_() -> Self { std::process::exit(2) }
    fn from_env_() -> Result<Self> { Err(Error::new("")) }
    fn from_vec_(_a: Vec<std::ffi::OsString>) -> Result<Self> { Err(Error::new("")) }
}
impl<T> Generated for T {}
#[macro_export] macro_rules! xflags { ($($t:tt)*) => { #[allow(unused_imports)] use $crate::Generated as _; }; }
