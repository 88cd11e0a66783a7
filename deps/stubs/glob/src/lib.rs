//! Type-level stand-in for the `glob` crate (not available offline): signatures only.
use std::path::{Path, PathBuf};
#[derive(Debug)] pub struct PatternError { pub pos: usize, pub msg: &'static str }
impl std::fmt::Display for PatternError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.msg) } }
impl std::error::Error for PatternError {}
#[derive(Debug)] pub struct GlobError { path: PathBuf, error: std::io::Error }
impl GlobError { pub fn path(&self) -> &Path { &self.path } pub fn error(&self) -> &std::io::Error { &self.error } }
impl std::fmt::Display for GlobError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("glob") } }
impl std::error::Error for GlobError {}
pub type GlobResult = Result<PathBuf, GlobError>;
#[derive(Debug)] pub struct Paths(());
impl Iterator for Paths { type Item = GlobResult; fn next(&mut self) -> Option<GlobResult> { None } }
#[derive(Debug, Clone, PartialEq, Eq)] pub struct Pattern(String);
impl Pattern {
    pub fn new(p: &str) -> Result<Self, PatternError> { Ok(Pattern(p.to_string())) }
    pub fn escape(p: &str) -> String { p.to_string() }
    pub fn matches(&self, s: &str) -> bool { s == self.0 }
    pub fn matches_path(&self, p: &Path) -> bool { p.to_str() == Some(&self.0) }
    pub fn as_str(&self) -> &str { &self.0 }
}
#[derive(Clone, Copy, Debug, Default)] pub struct MatchOptions { pub case_sensitive: bool, pub require_literal_separator: bool, pub require_literal_leading_dot: bool }
pub fn glob(pattern: &str) -> Result<Paths, PatternError> { let _ = pattern; Ok(Paths(())) }
pub fn glob_with(pattern: &str, _o: MatchOptions) -> Result<Paths, PatternError> { let _ = pattern; Ok(Paths(())) }
