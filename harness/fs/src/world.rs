//! A scratch directory on the real file system and a VFS over it.
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use vfs::*;

pub struct H {
    inner: SimpleLocalFS,
    pub log: Arc<Mutex<Vec<String>>>,
}

impl H {
    pub fn new(log: Arc<Mutex<Vec<String>>>) -> Self {
        H { inner: SimpleLocalFS::without_watcher(), log }
    }
}

impl VfsHandler for H {
    fn read_and_watch_file(&self, path: &PathWithScheme) -> Option<String> {
        self.inner.read_and_watch_file(path)
    }
    fn notify_receiver(&self) -> Option<&crossbeam_channel::Receiver<NotifyEvent>> {
        None
    }
    fn on_invalidated_in_memory_file(&self, path: PathWithScheme) {
        self.log.lock().unwrap().push(path.path().to_string());
    }
    fn read_and_watch_dir(&self, workspaces: &[Arc<Workspace>], path: &str, parent: Parent) -> Entries {
        self.inner.read_and_watch_dir(workspaces, path, parent)
    }
    fn read_and_watch_entry(&self, workspaces: &[Arc<Workspace>], path: &str, parent: Parent, replace_name: &str) -> Option<DirectoryEntry> {
        self.inner.read_and_watch_entry(workspaces, path, parent, replace_name)
    }
    fn is_unnecessary_invalidation(&self, path: &AbsPath, current_entry: Option<&DirectoryEntry>) -> bool {
        self.inner.is_unnecessary_invalidation(path, current_entry)
    }
}

#[derive(Debug)]
pub struct F {
    pub code: Box<str>,
    /// The value that was computed from this file and everything it imports.
    pub cache: Mutex<Option<u64>>,
}

impl F {
    pub fn new(code: Box<str>) -> Self {
        F { code, cache: Mutex::new(None) }
    }
}

impl VfsFile for F {
    type Artifacts = Box<str>;
    fn code(&self) -> &str {
        &self.code
    }
    fn into_recoverable_artifacts(self) -> Box<str> {
        self.code
    }
    fn invalidate_references_to(&mut self, _: Option<FileIndex>) {
        *self.cache.lock().unwrap() = None;
    }
}

fn scratch_root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    if shm.is_dir() { shm.join("vpfs") } else { std::env::temp_dir().join("vpfs") }
}

pub struct Scratch {
    pub base: String,
}

impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        static ONCE: std::sync::Once = std::sync::Once::new();
        let root = scratch_root();
        std::fs::create_dir_all(&root).unwrap();
        ONCE.call_once(|| {
            // left over by processes that crashed
            if let Ok(d) = std::fs::read_dir(&root) {
                for e in d.flatten() {
                    let n = e.file_name().to_string_lossy().to_string();
                    let pid = n.split('-').next().unwrap_or("").to_string();
                    if pid.parse::<u32>().is_ok() && !Path::new("/proc").join(&pid).exists() {
                        let _ = std::fs::remove_dir_all(e.path());
                    }
                }
            }
        });
        let base = root.join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&base).unwrap();
        Scratch { base: base.to_str().unwrap().to_string() }
    }
    pub fn p(&self, rel: &str) -> String {
        format!("{}/{rel}", self.base)
    }
    pub fn write(&self, rel: &str, code: &str) {
        let p = self.p(rel);
        std::fs::create_dir_all(Path::new(&p).parent().unwrap()).unwrap();
        std::fs::write(p, code).unwrap();
    }
    pub fn read(&self, rel: &str) -> Option<String> {
        std::fs::read_to_string(self.p(rel)).ok()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.base);
    }
}

pub fn npath(h: &dyn VfsHandler, p: &str) -> Arc<NormalizedPath> {
    h.normalize_unchecked_abs_path(p)
}
pub fn pws(h: &dyn VfsHandler, p: &str) -> PathWithScheme {
    PathWithScheme::with_file_scheme(npath(h, p))
}

pub struct Config {
    pub roots: Vec<(String, WorkspaceKind)>,
    pub fallback: bool,
}

pub fn build(sc: &Scratch, cfg: &Config, log: &Arc<Mutex<Vec<String>>>) -> Vfs<F> {
    let h: Box<dyn VfsHandler> = Box::new(H::new(log.clone()));
    let mut b = WorkspacesBuilder::new(&*h);
    for (r, k) in &cfg.roots {
        b.add(npath(&*h, &sc.p(r)), *k);
    }
    if cfg.fallback {
        b.add(h.unchecked_normalized_path(h.unchecked_abs_path("")), WorkspaceKind::Fallback);
    }
    let w = b.into();
    Vfs::new(h, w)
}
