//! The modules of /repo's `workspace` crate that need nothing unavailable, with their workloads.
#![allow(dead_code, unused_imports, unexpected_cfgs)]
#[path = "/repo/crates/workspace/src/file_patterns.rs"]
pub mod file_patterns;
#[path = "/repo/crates/workspace/src/resolve.rs"]
pub mod resolve;
pub mod settings {
    #[path = "/repo/crates/workspace/src/settings/default_exclude_patterns.rs"]
    mod default_exclude_patterns;
    #[path = "/repo/crates/workspace/src/settings/default_include_patterns.rs"]
    mod default_include_patterns;
    #[path = "/repo/crates/workspace/src/settings/default_table.rs"]
    mod default_table;
    #[path = "/repo/crates/workspace/src/settings/exclude_patterns.rs"]
    mod exclude_patterns;
    #[path = "/repo/crates/workspace/src/settings/line_ending.rs"]
    mod line_ending;
    pub use default_exclude_patterns::DefaultExcludePatterns;
    pub use default_include_patterns::DefaultIncludePatterns;
    pub use default_table::*;
    pub use exclude_patterns::ExcludePatterns;
    pub(crate) use line_ending::LineEnding;
}

pub mod w01;
pub mod w02;
pub mod w03;
