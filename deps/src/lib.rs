//! see Cargo.toml
