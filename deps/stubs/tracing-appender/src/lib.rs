//! Type-level stand-in for the `tracing-appender` crate (not available offline).
use std::io::{self, Write};
pub mod rolling {
    use std::path::Path;
    #[derive(Clone, Eq, PartialEq, Debug)] pub struct Rotation(());
    impl Rotation { pub const NEVER: Self = Self(()); pub const DAILY: Self = Self(()); pub const HOURLY: Self = Self(()); pub const MINUTELY: Self = Self(()); }
    #[derive(Debug)] pub struct RollingFileAppender(());
    impl RollingFileAppender { pub fn new(_r: Rotation, _d: impl AsRef<Path>, _p: impl AsRef<Path>) -> Self { Self(()) } }
    impl std::io::Write for RollingFileAppender { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
    pub fn never(_d: impl AsRef<Path>, _p: impl AsRef<Path>) -> RollingFileAppender { RollingFileAppender(()) }
}
pub mod non_blocking {
    #[derive(Debug)] pub struct WorkerGuard(pub(crate) ());
    impl Drop for WorkerGuard { fn drop(&mut self) {} }
    #[derive(Clone, Debug)] pub struct NonBlocking(pub(crate) ());
}
impl Write for non_blocking::NonBlocking { fn write(&mut self, b: &[u8]) -> io::Result<usize> { Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl<'a> tracing_subscriber::fmt::MakeWriter<'a> for non_blocking::NonBlocking { type Writer = non_blocking::NonBlocking; fn make_writer(&'a self) -> Self::Writer { self.clone() } }
pub fn non_blocking<T: Write + Send + Sync + 'static>(_w: T) -> (non_blocking::NonBlocking, non_blocking::WorkerGuard) { (non_blocking::NonBlocking(()), non_blocking::WorkerGuard(())) }
