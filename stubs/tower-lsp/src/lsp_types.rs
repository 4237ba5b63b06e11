//! The part of `lsp-types` (0.94) that air uses, with the protocol's JSON.
use std::borrow::Cow;
use std::collections::HashMap;

use serde::{Deserialize, Serialize};
use serde_json::Value;

pub use url::Url;

macro_rules! plain {
    ($($(#[$meta:meta])* pub struct $name:ident { $($(#[$fmeta:meta])* pub $field:ident : $ty:ty),* $(,)? })*) => {$(
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        #[serde(rename_all = "camelCase")]
        $(#[$meta])*
        pub struct $name { $($(#[$fmeta])* pub $field: $ty),* }
    )*};
}

#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Copy, Clone, Default, Deserialize, Serialize, Hash)]
pub struct Position {
    pub line: u32,
    pub character: u32,
}

impl Position {
    pub fn new(line: u32, character: u32) -> Self {
        Self { line, character }
    }
}

#[derive(Debug, Eq, PartialEq, Copy, Clone, Default, Deserialize, Serialize, Hash)]
pub struct Range {
    pub start: Position,
    pub end: Position,
}

impl Range {
    pub fn new(start: Position, end: Position) -> Self {
        Self { start, end }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum NumberOrString {
    Number(i32),
    String(String),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum OneOf<A, B> {
    Left(A),
    Right(B),
}

plain! {
    #[derive(Eq)]
    pub struct TextDocumentIdentifier { pub uri: Url }
    #[derive(Eq)]
    pub struct VersionedTextDocumentIdentifier { pub uri: Url, pub version: i32 }
    #[derive(Eq)]
    pub struct TextDocumentPositionParams { pub text_document: TextDocumentIdentifier, pub position: Position }
    #[derive(Eq)]
    pub struct TextDocumentItem { pub uri: Url, pub language_id: String, pub version: i32, pub text: String }
    #[derive(Eq)]
    pub struct TextDocumentContentChangeEvent {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub range: Option<Range>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub range_length: Option<u32>,
        pub text: String,
    }
    #[derive(Eq)]
    pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
    #[derive(Eq)]
    pub struct DidChangeTextDocumentParams {
        pub text_document: VersionedTextDocumentIdentifier,
        pub content_changes: Vec<TextDocumentContentChangeEvent>,
    }
    #[derive(Eq)]
    pub struct DidSaveTextDocumentParams {
        pub text_document: TextDocumentIdentifier,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub text: Option<String>,
    }
    #[derive(Eq)]
    pub struct DidCloseTextDocumentParams { pub text_document: TextDocumentIdentifier }
    #[derive(Eq)]
    pub struct TextEdit { pub range: Range, pub new_text: String }
    #[derive(Eq, Default)]
    pub struct WorkDoneProgressParams {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub work_done_token: Option<NumberOrString>,
    }
    #[derive(Default)]
    pub struct FormattingOptions {
        pub tab_size: u32,
        pub insert_spaces: bool,
        #[serde(flatten)]
        pub properties: HashMap<String, FormattingProperty>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub trim_trailing_whitespace: Option<bool>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub insert_final_newline: Option<bool>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub trim_final_newlines: Option<bool>,
    }
    pub struct DocumentFormattingParams {
        pub text_document: TextDocumentIdentifier,
        pub options: FormattingOptions,
        #[serde(flatten)]
        pub work_done_progress_params: WorkDoneProgressParams,
    }
    pub struct DocumentRangeFormattingParams {
        pub text_document: TextDocumentIdentifier,
        pub range: Range,
        pub options: FormattingOptions,
        #[serde(flatten)]
        pub work_done_progress_params: WorkDoneProgressParams,
    }
    #[derive(Eq)]
    pub struct WorkspaceFolder { pub uri: Url, pub name: String }
    #[derive(Eq, Default)]
    pub struct ClientInfo {
        pub name: String,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub version: Option<String>,
    }
    #[derive(Eq, Default)]
    pub struct ServerInfo {
        pub name: String,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub version: Option<String>,
    }
    #[derive(Default)]
    pub struct InitializeParams {
        pub process_id: Option<u32>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub root_path: Option<String>,
        #[serde(default)]
        pub root_uri: Option<Url>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub initialization_options: Option<Value>,
        pub capabilities: ClientCapabilities,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        pub trace: Option<String>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub workspace_folders: Option<Vec<WorkspaceFolder>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub client_info: Option<ClientInfo>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub locale: Option<String>,
    }
    #[derive(Eq)]
    pub struct InitializedParams {}
    #[derive(Default)]
    pub struct ClientCapabilities {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub workspace: Option<WorkspaceClientCapabilities>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub text_document: Option<Value>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub window: Option<Value>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub general: Option<GeneralClientCapabilities>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub experimental: Option<Value>,
    }
    #[derive(Default)]
    pub struct GeneralClientCapabilities {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub position_encodings: Option<Vec<PositionEncodingKind>>,
    }
    #[derive(Default)]
    pub struct WorkspaceClientCapabilities {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub apply_edit: Option<bool>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub did_change_configuration: Option<DynamicRegistrationClientCapabilities>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub did_change_watched_files: Option<DidChangeWatchedFilesClientCapabilities>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub workspace_folders: Option<bool>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub configuration: Option<bool>,
    }
    #[derive(Eq, Copy, Default)]
    pub struct DynamicRegistrationClientCapabilities {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub dynamic_registration: Option<bool>,
    }
    #[derive(Eq, Copy, Default)]
    pub struct DidChangeWatchedFilesClientCapabilities {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub dynamic_registration: Option<bool>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub relative_pattern_support: Option<bool>,
    }
    #[derive(Default)]
    pub struct InitializeResult {
        pub capabilities: ServerCapabilities,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub server_info: Option<ServerInfo>,
    }
    #[derive(Default)]
    pub struct ServerCapabilities {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub position_encoding: Option<PositionEncodingKind>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub text_document_sync: Option<TextDocumentSyncCapability>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub workspace: Option<WorkspaceServerCapabilities>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub document_formatting_provider: Option<OneOf<bool, WorkDoneProgressOptions>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub document_range_formatting_provider: Option<OneOf<bool, WorkDoneProgressOptions>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub experimental: Option<Value>,
    }
    #[derive(Eq, Default)]
    pub struct WorkDoneProgressOptions {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub work_done_progress: Option<bool>,
    }
    #[derive(Default)]
    pub struct WorkspaceServerCapabilities {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub workspace_folders: Option<WorkspaceFoldersServerCapabilities>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub file_operations: Option<Value>,
    }
    #[derive(Eq, Default)]
    pub struct WorkspaceFoldersServerCapabilities {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub supported: Option<bool>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub change_notifications: Option<OneOf<bool, String>>,
    }
    #[derive(Default)]
    pub struct TextDocumentSyncOptions {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub open_close: Option<bool>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub change: Option<TextDocumentSyncKind>,
    }
    #[derive(Eq, Default)]
    pub struct WorkspaceFoldersChangeEvent { pub added: Vec<WorkspaceFolder>, pub removed: Vec<WorkspaceFolder> }
    #[derive(Eq, Default)]
    pub struct DidChangeWorkspaceFoldersParams { pub event: WorkspaceFoldersChangeEvent }
    pub struct DidChangeConfigurationParams { pub settings: Value }
    #[derive(Eq)]
    pub struct DidChangeWatchedFilesParams { pub changes: Vec<FileEvent> }
    #[derive(Eq)]
    pub struct FileEvent {
        pub uri: Url,
        #[serde(rename = "type")]
        pub typ: FileChangeType,
    }
    #[derive(Eq, Default)]
    pub struct ConfigurationItem {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub scope_uri: Option<Url>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub section: Option<String>,
    }
    #[derive(Eq)]
    pub struct ConfigurationParams { pub items: Vec<ConfigurationItem> }
    pub struct Registration {
        pub id: String,
        pub method: String,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub register_options: Option<Value>,
    }
    pub struct RegistrationParams { pub registrations: Vec<Registration> }
    pub struct DidChangeWatchedFilesRegistrationOptions { pub watchers: Vec<FileSystemWatcher> }
    pub struct FileSystemWatcher {
        pub glob_pattern: GlobPattern,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub kind: Option<u8>,
    }
    #[derive(Eq, Default)]
    pub struct Diagnostic { pub range: Range, pub message: String }
    #[derive(Eq)]
    pub struct PublishDiagnosticsParams {
        pub uri: Url,
        pub diagnostics: Vec<Diagnostic>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub version: Option<i32>,
    }
    #[derive(Eq)]
    pub struct LogMessageParams {
        #[serde(rename = "type")]
        pub typ: MessageType,
        pub message: String,
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum FormattingProperty {
    Bool(bool),
    Number(i32),
    String(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum GlobPattern {
    String(String),
    Relative(Value),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum TextDocumentSyncCapability {
    Kind(TextDocumentSyncKind),
    Options(TextDocumentSyncOptions),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct TextDocumentSyncKind(i32);

impl TextDocumentSyncKind {
    pub const NONE: Self = Self(0);
    pub const FULL: Self = Self(1);
    pub const INCREMENTAL: Self = Self(2);
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct FileChangeType(i32);

impl FileChangeType {
    pub const CREATED: Self = Self(1);
    pub const CHANGED: Self = Self(2);
    pub const DELETED: Self = Self(3);
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct MessageType(i32);

impl MessageType {
    pub const ERROR: Self = Self(1);
    pub const WARNING: Self = Self(2);
    pub const INFO: Self = Self(3);
    pub const LOG: Self = Self(4);
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(transparent)]
pub struct PositionEncodingKind(Cow<'static, str>);

impl PositionEncodingKind {
    pub const UTF8: Self = Self(Cow::Borrowed("utf-8"));
    pub const UTF16: Self = Self(Cow::Borrowed("utf-16"));
    pub const UTF32: Self = Self(Cow::Borrowed("utf-32"));

    pub fn as_str(&self) -> &str {
        &self.0
    }
}

pub mod notification {
    use serde::{Serialize, de::DeserializeOwned};

    pub trait Notification {
        type Params: DeserializeOwned + Serialize + Send + Sync + 'static;
        const METHOD: &'static str;
    }

    macro_rules! notifications {
        ($($name:ident $params:ty = $method:literal;)*) => {$(
            #[derive(Debug)]
            pub enum $name {}
            impl Notification for $name {
                type Params = $params;
                const METHOD: &'static str = $method;
            }
        )*};
    }

    notifications! {
        Initialized super::InitializedParams = "initialized";
        Exit () = "exit";
        DidOpenTextDocument super::DidOpenTextDocumentParams = "textDocument/didOpen";
        DidChangeTextDocument super::DidChangeTextDocumentParams = "textDocument/didChange";
        DidSaveTextDocument super::DidSaveTextDocumentParams = "textDocument/didSave";
        DidCloseTextDocument super::DidCloseTextDocumentParams = "textDocument/didClose";
        DidChangeWorkspaceFolders super::DidChangeWorkspaceFoldersParams = "workspace/didChangeWorkspaceFolders";
        DidChangeConfiguration super::DidChangeConfigurationParams = "workspace/didChangeConfiguration";
        DidChangeWatchedFiles super::DidChangeWatchedFilesParams = "workspace/didChangeWatchedFiles";
        PublishDiagnostics super::PublishDiagnosticsParams = "textDocument/publishDiagnostics";
        LogMessage super::LogMessageParams = "window/logMessage";
    }
}

pub mod request {
    use serde::{Serialize, de::DeserializeOwned};

    pub trait Request {
        type Params: DeserializeOwned + Serialize + Send + Sync + 'static;
        type Result: DeserializeOwned + Serialize + Send + Sync + 'static;
        const METHOD: &'static str;
    }

    macro_rules! requests {
        ($($name:ident $params:ty => $result:ty = $method:literal;)*) => {$(
            #[derive(Debug)]
            pub enum $name {}
            impl Request for $name {
                type Params = $params;
                type Result = $result;
                const METHOD: &'static str = $method;
            }
        )*};
    }

    requests! {
        Initialize super::InitializeParams => super::InitializeResult = "initialize";
        Shutdown () => () = "shutdown";
        Formatting super::DocumentFormattingParams => Option<Vec<super::TextEdit>> = "textDocument/formatting";
        RangeFormatting super::DocumentRangeFormattingParams => Option<Vec<super::TextEdit>> = "textDocument/rangeFormatting";
        WorkspaceConfiguration super::ConfigurationParams => Vec<serde_json::Value> = "workspace/configuration";
        RegisterCapability super::RegistrationParams => () = "client/registerCapability";
    }
}
