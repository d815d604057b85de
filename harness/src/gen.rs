//! Generated Rust: crates are written out, compiled with the same dependencies as this program, and run.
use crate::engine::*;
use crate::infra;
use proptest::strategy::{BoxedStrategy, NewTree, Strategy, ValueTree};
use proptest::test_runner::{RngAlgorithm, RngSeed, TestRunner};
use std::collections::BTreeSet;
use std::fmt::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

pub struct Built {
    pub root: PathBuf,
    /// What the compiler says of a crate that does not compile.
    pub failed: Vec<Option<String>>,
    bin: PathBuf,
}
impl Built {
    /// The directory of a crate.
    pub fn dir(&self, k: usize) -> PathBuf {
        self.root.join(format!("g{k}"))
    }
    /// Runs `g<k>::run(args)`; how it ended and what it returned.
    pub fn run(&self, k: usize, args: &[String]) -> Result<String, String> {
        let out = Command::new(&self.bin)
            .arg(k.to_string())
            .args(args)
            .current_dir(&self.root)
            .stdin(Stdio::null())
            .output()
            .unwrap_or_else(|e| infra!("{e}"));
        if !out.status.success() {
            let err = String::from_utf8_lossy(&out.stderr);
            return Err(format!("{}: {}", out.status, err.chars().take(3000).collect::<String>()));
        }
        Ok(String::from_utf8_lossy(&out.stdout).into_owned())
    }
}

/// Compiles the crates (their `lib.rs`), each with a function `pub fn run(args: &[String]) -> String`.
pub fn build(tag: &str, libs: &[String]) -> Built {
    let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| infra!("CARGO_TARGET_DIR is not set"));
    let root = PathBuf::from(target).join(format!("gen-{tag}"));
    let _ = std::fs::remove_dir_all(&root);
    // Cargo takes crates of the same name in different workspaces for the same.
    let id = tag.replace('-', "_");
    let put = |p: PathBuf, s: &str| {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap_or_else(|e| infra!("{e}"));
        std::fs::write(&p, s).unwrap_or_else(|e| infra!("{e}"));
    };
    let own = include_str!("../Cargo.toml");
    let deps = &own[own.find("[dependencies]").unwrap()..own.find("[profile.dev]").unwrap()];
    let profile = &own[own.find("[profile.dev]").unwrap()..];
    let manifest = |name: &str, extra: &str| {
        format!("[package]\nname = \"{name}\"\nversion = \"0.1.0\"\nedition = \"2021\"\npublish = false\n\n{deps}{extra}\n")
    };
    for (k, src) in libs.iter().enumerate() {
        put(root.join(format!("g{k}/Cargo.toml")), &manifest(&format!("{id}_{k}"), ""));
        put(root.join(format!("g{k}/src/lib.rs")), src);
    }
    put(root.join("Cargo.lock"), include_str!("../Cargo.lock"));
    let mut bad: BTreeSet<usize> = BTreeSet::new();
    let mut failed: Vec<Option<String>> = vec![None; libs.len()];
    for round in 0..3 {
        let good: Vec<usize> = (0..libs.len()).filter(|k| !bad.contains(k)).collect();
        let mut main = String::from("fn main() {\n    let args: Vec<String> = std::env::args().skip(2).collect();\n    let out = match std::env::args().nth(1).as_deref() {\n");
        let mut extra = String::new();
        for k in &good {
            let _ = writeln!(main, "        Some(\"{k}\") => {id}_{k}::run(&args),");
            let _ = writeln!(extra, "{id}_{k} = {{ path = \"../g{k}\" }}");
        }
        main.push_str("        _ => String::new(),\n    };\n    print!(\"{out}\");\n}\n");
        put(root.join("all/Cargo.toml"), &manifest(&format!("{id}_all"), &extra));
        put(root.join("all/src/main.rs"), &main);
        let members: Vec<String> = good.iter().map(|k| format!("\"g{k}\"")).chain(["\"all\"".to_string()]).collect();
        put(root.join("Cargo.toml"), &format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n\n{profile}", members.join(", ")));
        let out = Command::new("cargo")
            .args(["build", "--offline", "--keep-going", "--message-format=short"])
            .current_dir(&root)
            .env("CARGO_INCREMENTAL", "0")
            .env("RUSTFLAGS", "")
            .stdin(Stdio::null())
            .output()
            .unwrap_or_else(|e| infra!("cargo: {e}"));
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        if out.status.success() {
            let bin = root.join("bin");
            let from = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap()).join(format!("debug/{id}_all"));
            let _ = std::fs::remove_file(&bin);
            std::fs::copy(&from, &bin).unwrap_or_else(|e| infra!("{}: {e}", from.display()));
            return Built { root, failed, bin };
        }
        let mut any = false;
        for k in good {
            if err.contains(&format!("could not compile `{id}_{k}`")) {
                let lines: Vec<&str> = err.lines().filter(|l| l.starts_with(&format!("g{k}/")) && l.contains("error")).take(6).collect();
                failed[k] = Some(lines.join("\n"));
                bad.insert(k);
                any = true;
            }
        }
        if !any || round == 2 {
            let tail: Vec<&str> = err.lines().filter(|l| !l.contains("warning")).rev().take(30).collect();
            infra!("the generated crates do not build: {}", tail.into_iter().rev().collect::<Vec<_>>().join("\n"));
        }
    }
    unreachable!()
}

/// Values of the strategy, drawn beforehand.
pub fn draw<T: std::fmt::Debug>(seed: u64, s: &BoxedStrategy<T>, n: usize) -> Vec<T> {
    let cfg = proptest::test_runner::Config {
        rng_seed: RngSeed::Fixed(seed),
        rng_algorithm: RngAlgorithm::ChaCha,
        failure_persistence: None,
        ..Default::default()
    };
    let mut r = TestRunner::new(cfg);
    (0..n).map(|_| s.new_tree(&mut r).unwrap_or_else(|e| infra!("{e}")).current()).collect()
}
/// One after the other, by any number of workers.
#[derive(Clone, Debug)]
pub struct Drawn<T>(pub Arc<Vec<T>>, pub Arc<AtomicUsize>);
pub struct Fixed<T> {
    best: T,
    current: T,
    smaller: Vec<T>,
}
/// The value without one element of one of its lists.
fn smaller<T: Case>(x: &T) -> Vec<T> {
    fn without(v: &serde_json::Value) -> Vec<serde_json::Value> {
        let mut out = Vec::new();
        match v {
            serde_json::Value::Array(a) => {
                for k in 0..a.len() {
                    let mut b = a.clone();
                    b.remove(k);
                    out.push(b.into());
                }
                for (k, e) in a.iter().enumerate() {
                    for e in without(e) {
                        let mut b = a.clone();
                        b[k] = e;
                        out.push(b.into());
                    }
                }
            }
            serde_json::Value::Object(m) => {
                for k in m.keys() {
                    let mut b = m.clone();
                    b.remove(k);
                    out.push(b.into());
                }
                for (k, e) in m {
                    for e in without(e) {
                        let mut b = m.clone();
                        b.insert(k.clone(), e);
                        out.push(b.into());
                    }
                }
            }
            _ => {}
        }
        out
    }
    let me = serde_json::to_value(x).unwrap();
    let mut out: Vec<T> = without(&me)
        .into_iter()
        .filter_map(|v| serde_json::from_value::<T>(v).ok())
        .filter(|y| serde_json::to_value(y).unwrap() != me)
        .collect();
    out.reverse();
    out
}
impl<T: Case> ValueTree for Fixed<T> {
    type Value = T;
    fn current(&self) -> T {
        self.current.clone()
    }
    fn simplify(&mut self) -> bool {
        self.best = self.current.clone();
        self.smaller = smaller(&self.best);
        self.complicate()
    }
    fn complicate(&mut self) -> bool {
        let next = self.smaller.pop();
        self.current = next.clone().unwrap_or_else(|| self.best.clone());
        next.is_some()
    }
}
impl<T: Case> Strategy for Drawn<T> {
    type Tree = Fixed<T>;
    type Value = T;
    fn new_tree(&self, _: &mut TestRunner) -> NewTree<Self> {
        let n = self.1.fetch_add(1, Ordering::SeqCst);
        let x = self.0[n % self.0.len()].clone();
        Ok(Fixed { best: x.clone(), current: x, smaller: Vec::new() })
    }
}
