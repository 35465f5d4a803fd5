//! Compiles small sources against the built `treeldr` crate.
use serde_json::Value as J;
use std::{
    io::Write,
    path::PathBuf,
    process::*,
    sync::atomic::{AtomicUsize, Ordering},
};

pub struct Rustc {
    lib: PathBuf,
    deps: PathBuf,
    /// Where the compiler writes: it removes and replaces its output.
    out: PathBuf,
    count: AtomicUsize,
}

impl Drop for Rustc {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.out);
    }
}

impl Rustc {
    /// `check` leaves the messages of the last build of `treeldr` there.
    pub fn new(krate: &str) -> Rustc {
        let root = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| ".".into()));
        let text = std::fs::read_to_string(root.join(format!("target/artifacts-{krate}.json"))).expect("artifacts of the build");
        let lib = text
            .lines()
            .filter_map(|l| serde_json::from_str::<J>(l).ok())
            .filter(|m| m["reason"] == "compiler-artifact" && m["target"]["name"] == "treeldr")
            .filter_map(|m| m["filenames"].as_array()?.iter().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib")).map(PathBuf::from))
            .next_back()
            .expect("the treeldr library among the artifacts");
        let out = root.join(format!("target/rustc-{}-{}", krate, std::process::id()));
        std::fs::create_dir_all(&out).expect("a scratch folder");
        Rustc { deps: root.join("target/debug/deps"), lib, out, count: AtomicUsize::new(0) }
    }

    /// Whether the source compiles, and what the compiler says.
    pub fn compile(&self, source: &str) -> (bool, String) {
        let dir = self.out.join(self.count.fetch_add(1, Ordering::Relaxed).to_string());
        std::fs::create_dir(&dir).expect("a scratch folder");
        let mut c = Command::new("rustc")
            .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "probe", "--emit", "metadata", "--cap-lints", "allow", "-"])
            .arg("--out-dir")
            .arg(&dir)
            .arg("--extern")
            .arg(format!("treeldr={}", self.lib.display()))
            .arg("-L")
            .arg(format!("dependency={}", self.deps.display()))
            .stdin(Stdio::piped())
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .expect("run rustc");
        c.stdin.take().unwrap().write_all(source.as_bytes()).expect("write to rustc");
        let out = c.wait_with_output().expect("wait for rustc");
        let _ = std::fs::remove_dir_all(&dir);
        (out.status.success(), String::from_utf8_lossy(&out.stderr).into_owned())
    }
}
