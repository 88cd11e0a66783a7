//! Type-level stand-in (not available offline).
pub fn set_once() {}
