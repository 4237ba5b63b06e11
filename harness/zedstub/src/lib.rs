//! A host for Zed extensions that runs natively: the API of zed_extension_api 0.2.0 as far as an
//! extension for a language server uses it, every host call recorded and answered by a script.
//! (The real crate's host functions exist only inside Zed's wasm runtime.)
use std::cell::RefCell;
use std::fmt;
pub use serde_json;

pub type Result<T, E = String> = core::result::Result<T, E>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Os { Mac, Linux, Windows }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Architecture { Aarch64, X86, X8664 }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum DownloadedFileType { Gzip, GzipTar, Zip, Uncompressed }
#[derive(Debug, Clone)]
pub enum LanguageServerInstallationStatus { None, Downloading, CheckingForUpdate, Failed(String) }
#[derive(Debug, Clone, Copy)]
pub struct GithubReleaseOptions { pub require_assets: bool, pub pre_release: bool }
#[derive(Debug, Clone)]
pub struct GithubReleaseAsset { pub name: String, pub download_url: String }
#[derive(Debug, Clone)]
pub struct GithubRelease { pub version: String, pub assets: Vec<GithubReleaseAsset> }
pub type EnvVars = Vec<(String, String)>;
#[derive(Debug, Clone)]
pub struct Command { pub command: String, pub args: Vec<String>, pub env: EnvVars }

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct LanguageServerId(String);
impl LanguageServerId { pub fn for_test(s: &str) -> Self { Self(s.into()) } }
impl AsRef<str> for LanguageServerId { fn as_ref(&self) -> &str { &self.0 } }
impl fmt::Display for LanguageServerId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) }
}

#[derive(Debug)]
pub struct Worktree { pub path_air: Option<String>, pub lsp_settings: Option<String> }
impl Worktree {
    pub fn id(&self) -> u64 { 1 }
    pub fn root_path(&self) -> String { "/worktree".into() }
    pub fn read_text_file(&self, path: &str) -> Result<String> { Err(format!("no {path}")) }
    pub fn which(&self, name: &str) -> Option<String> {
        host(|h| h.events.push(Event::Which(name.into())));
        if name == "air" { self.path_air.clone() } else { None }
    }
    pub fn shell_env(&self) -> EnvVars { vec![] }
}

pub mod settings {
    use serde::{Deserialize, Serialize};
    use std::collections::HashMap;
    #[derive(Default, Debug, Serialize, Deserialize)]
    pub struct LspSettings {
        pub binary: Option<CommandSettings>,
        pub initialization_options: Option<serde_json::Value>,
        pub settings: Option<serde_json::Value>,
    }
    #[derive(Debug, Serialize, Deserialize, PartialEq, Eq)]
    pub struct CommandSettings {
        pub path: Option<String>,
        pub arguments: Option<Vec<String>>,
        pub env: Option<HashMap<String, String>>,
    }
    impl LspSettings {
        pub fn for_worktree(name: &str, worktree: &crate::Worktree) -> crate::Result<Self> {
            match (&worktree.lsp_settings, name) {
                (Some(json), "air") => serde_json::from_str(json).map_err(|e| e.to_string()),
                (None, "air") => Ok(Self::default()),
                _ => Err(format!("no settings for {name}")),
            }
        }
    }
}

// ---------------------------------------------------------------- the scripted host

#[derive(Debug, Clone)]
pub enum Event {
    Which(String),
    Latest { repo: String, require_assets: bool, pre_release: bool },
    ByTag { repo: String, tag: String },
    Download { url: String, path: String, kind: DownloadedFileType },
    Executable(String),
    Status(LanguageServerInstallationStatus),
}

pub struct Host {
    pub events: Vec<Event>,
    pub platform: (Os, Architecture),
    pub release: Result<GithubRelease>,
    /// Does what Zed would to the working directory.
    pub download: Box<dyn FnMut(&str, &str, DownloadedFileType) -> Result<()>>,
}

thread_local! {
    static HOST: RefCell<Host> = RefCell::new(Host {
        events: vec![], platform: (Os::Linux, Architecture::X8664), release: Err("offline".into()),
        download: Box::new(|_, _, _| Err("offline".into())),
    });
}

pub fn host<T>(f: impl FnOnce(&mut Host) -> T) -> T { HOST.with(|h| f(&mut h.borrow_mut())) }

pub fn current_platform() -> (Os, Architecture) { host(|h| h.platform) }
pub fn latest_github_release(repo: &str, o: GithubReleaseOptions) -> Result<GithubRelease> {
    host(|h| {
        h.events.push(Event::Latest { repo: repo.into(), require_assets: o.require_assets, pre_release: o.pre_release });
        h.release.clone()
    })
}
pub fn github_release_by_tag_name(repo: &str, tag: &str) -> Result<GithubRelease> {
    host(|h| {
        h.events.push(Event::ByTag { repo: repo.into(), tag: tag.into() });
        match &h.release { Ok(r) if r.version == tag => Ok(r.clone()), _ => Err("no such release".into()) }
    })
}
pub fn download_file(url: &str, path: &str, kind: DownloadedFileType) -> Result<()> {
    let mut f = host(|h| {
        h.events.push(Event::Download { url: url.into(), path: path.into(), kind });
        std::mem::replace(&mut h.download, Box::new(|_, _, _| Err("busy".into())))
    });
    let r = f(url, path, kind);
    host(|h| h.download = f);
    r
}
pub fn make_file_executable(path: &str) -> Result<()> {
    host(|h| h.events.push(Event::Executable(path.into())));
    if std::path::Path::new(path).is_file() { Ok(()) } else { Err(format!("no {path}")) }
}
pub fn set_language_server_installation_status(_: &LanguageServerId, s: &LanguageServerInstallationStatus) {
    host(|h| h.events.push(Event::Status(s.clone())));
}
pub fn node_binary_path() -> Result<String> { Err("no node".into()) }
pub fn npm_install_package(_: &str, _: &str) -> Result<()> { Err("no npm".into()) }
pub fn npm_package_installed_version(_: &str) -> Result<Option<String>> { Ok(None) }
pub fn npm_package_latest_version(_: &str) -> Result<String> { Err("no npm".into()) }

pub trait Extension: Send + Sync {
    fn new() -> Self where Self: Sized;
    fn language_server_command(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Command> {
        Err("`language_server_command` not implemented".to_string())
    }
    fn language_server_initialization_options(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Option<serde_json::Value>> { Ok(None) }
    fn language_server_workspace_configuration(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Option<serde_json::Value>> { Ok(None) }
}

#[macro_export]
macro_rules! register_extension {
    ($t:ty) => {
        pub fn __registered() -> Box<dyn $crate::Extension> { Box::new(<$t as $crate::Extension>::new()) }
    };
}
