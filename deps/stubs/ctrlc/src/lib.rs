//! Type-level stand-in for the `ctrlc` crate (not available offline).
#[derive(Debug)] pub enum Error { NoSuchSignal, MultipleHandlers, System(std::io::Error) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("ctrlc") } }
impl std::error::Error for Error {}
pub fn set_handler<F>(user_handler: F) -> Result<(), Error> where F: FnMut() + 'static + Send { let _ = user_handler; Ok(()) }
