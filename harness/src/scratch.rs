//! Scratch directories below the one check.py made for this run, removed with it or when dropped.

use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Dir { pub path: PathBuf }

static NEXT: AtomicU64 = AtomicU64::new(0);

impl Dir {
    pub fn new(what: &str) -> Dir {
        let base = std::env::var_os("HARNESS_TMP").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let path = base.join(format!("fall-{}-{}-{}", what, std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&path).expect("scratch directory");
        Dir { path: std::fs::canonicalize(&path).unwrap_or(path) }
    }
    pub fn join<P: AsRef<Path>>(&self, p: P) -> PathBuf { self.path.join(p) }
}

impl Drop for Dir {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.path); }
}
