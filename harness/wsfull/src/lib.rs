//! Directory trees on disk, shared by the workloads.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

/// A file tree: what is at each path relative to the tree's root.
#[derive(Clone, Debug, Default)]
pub struct Tree {
    pub dirs: BTreeSet<String>,
    /// path, contents
    pub files: Vec<(String, String)>,
    /// symbolic links: path, target
    pub links: Vec<(String, String)>,
}

impl Tree {
    pub fn dir(&mut self, d: &str) {
        let mut at = String::new();
        for c in d.split('/').filter(|c| !c.is_empty()) {
            if !at.is_empty() { at.push('/') }
            at.push_str(c);
            self.dirs.insert(at.clone());
        }
    }
    pub fn taken(&self, f: &str) -> bool {
        self.dirs.contains(f) || self.files.iter().any(|(p, _)| p == f) || self.links.iter().any(|(p, _)| p == f)
    }
    /// Unless something is there.
    pub fn file(&mut self, f: &str, text: &str) -> bool {
        if self.taken(f) || self.files.iter().any(|(p, _)| f.strip_prefix(p.as_str()).is_some_and(|rest| rest.starts_with('/'))) { return false }
        if let Some((d, _)) = f.rsplit_once('/') { self.dir(d) }
        self.files.push((f.into(), text.into()));
        true
    }
    pub fn build(&self, root: &Path) -> std::io::Result<()> {
        for d in &self.dirs { std::fs::create_dir_all(root.join(d))? }
        for (f, text) in &self.files { std::fs::write(root.join(f), text)? }
        for (l, to) in &self.links { std::os::unix::fs::symlink(to, root.join(l))? }
        Ok(())
    }
    pub fn text(&self, f: &str) -> Option<&str> {
        self.files.iter().find(|(p, _)| p == f).map(|(_, t)| t.as_str())
    }
}

/// `a`, `a/b`, `a/b/c` for `a/b/c`, the root first as "".
pub fn prefixes(p: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    for c in p.split('/').filter(|c| !c.is_empty()) {
        let l = out.last().unwrap();
        out.push(if l.is_empty() { c.into() } else { format!("{l}/{c}") });
    }
    out
}

pub fn below(root: &Path, rel: &str) -> PathBuf {
    if rel.is_empty() { root.to_path_buf() } else { root.join(rel) }
}
