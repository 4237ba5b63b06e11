//! Drives the real `air` binary: language server sessions, and the command line.
pub mod client;
