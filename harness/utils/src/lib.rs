//! Texts, an editor's buffer, and positions in it as the protocol defines them: independent of air
//! and of its line index.

pub mod text;
pub mod buffer;
