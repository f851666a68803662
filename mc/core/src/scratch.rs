//! A scratch directory per worker; removed when the worker ends.
use std::cell::Cell;
use std::path::{Path, PathBuf};

pub struct Scratch {
    base: PathBuf,
    counter: Cell<u64>,
    created: Cell<bool>,
}

pub fn root() -> PathBuf {
    let p = match std::env::var("MC_SCRATCH") {
        Ok(p) => PathBuf::from(p),
        Err(_) => default_root(std::process::id()),
    };
    p
}

pub fn default_root(pid: u32) -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() && writable(Path::new("/dev/shm")) {
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    base.join(format!("mc-flatdata-{}", pid))
}

fn writable(p: &Path) -> bool {
    let t = p.join(format!("mc-probe-{}", std::process::id()));
    match std::fs::create_dir(&t) {
        Ok(()) => {
            let _ = std::fs::remove_dir(&t);
            true
        }
        Err(_) => false,
    }
}

impl Scratch {
    pub fn new(worker: usize) -> Scratch {
        Scratch {
            base: root().join(format!("w{}", worker)),
            counter: Cell::new(0),
            created: Cell::new(false),
        }
    }
    /// A path in the scratch directory, whose parent exists, that does not exist itself.
    pub fn fresh(&self) -> TempDir {
        if !self.created.get() {
            std::fs::create_dir_all(&self.base).expect("scratch directory");
            self.created.set(true);
        }
        let n = self.counter.get();
        self.counter.set(n + 1);
        let path = self.base.join(format!("d{}", n));
        TempDir { path }
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        if self.created.get() {
            let _ = std::fs::remove_dir_all(&self.base);
        }
    }
}

pub struct TempDir {
    pub path: PathBuf,
}
impl Drop for TempDir {
    fn drop(&mut self) {
        // only ever below the scratch root
        if self.path.starts_with(root()) {
            crate::interpose::suspended(|| {
                let _ = std::fs::remove_dir_all(&self.path);
            });
        }
    }
}

/// All files and directories below `dir`, with contents.
pub fn snapshot(dir: &Path) -> std::collections::BTreeMap<String, Option<Vec<u8>>> {
    fn rec(base: &Path, dir: &Path, out: &mut std::collections::BTreeMap<String, Option<Vec<u8>>>) {
        if let Ok(rd) = std::fs::read_dir(dir) {
            for e in rd.flatten() {
                let p = e.path();
                let name = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
                if p.is_dir() {
                    out.insert(name, None);
                    rec(base, &p, out);
                } else {
                    out.insert(name, Some(std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
    }
    let mut out = Default::default();
    crate::interpose::suspended(|| rec(dir, dir, &mut out));
    out
}
