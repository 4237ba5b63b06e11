//! Stand-in for `tower-lsp` (0.20, with air's patch that the server ends on `exit`): the part that
//! air uses, with the same order of events. Messages are read in order; the handlers of up to four
//! are in flight at a time, and each is first polled in the order in which it was read; responses
//! are written as handlers finish; messages to the client go through a channel of length 1.

pub mod jsonrpc;
pub mod lsp_types;

mod client;
mod server;
mod service;

pub use client::Client;
pub use server::Server;
pub use service::{ClientSocket, LanguageServer, LspService, LspServiceBuilder, Method};
pub use tower_lsp_standin_macros::async_trait;
