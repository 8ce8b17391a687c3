//! Programs of mc/miri executed by the Miri interpreter, which checks every memory access of the code
//! under test (bounds, use after free, uninitialised data, alignment, leaks, data races) and runs them for
//! other targets (32 bit, big endian).  One case is one shard of the enumeration of a mode.
use crate::engine::*;
use std::path::PathBuf;
use std::process::{Command, Output, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MC_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub const HOST: &str = "x86_64-unknown-linux-gnu";

fn cargo(target: &str) -> Command {
    let t = verif().join("target/miri");
    let mut c = Command::new("cargo");
    c.env("MIRI_SYSROOT", t.join(format!("sysroot-{target}")))
        .env("CARGO_TARGET_DIR", t.join("build"))
        .env("CARGO_NET_OFFLINE", "true")
        // floating-point functions as they are; two references to one object are no corruption
        .env("MIRIFLAGS", "-Zmiri-deterministic-floats -Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0")
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_ENCODED_RUSTFLAGS")
        .env_remove("RUSTUP_TOOLCHAIN")
        .env_remove("RUSTC")
        .env_remove("CARGO")
        .stdin(Stdio::null());
    c
}
/// Seconds one shard may take; the native spaces decide whether the code under test ends at all.
const LIMIT: u64 = 400;
static TOO_SLOW: AtomicBool = AtomicBool::new(false);
/// None: did not end in time.
fn run(target: &str, args: &[String]) -> Option<Output> {
    let mut c = cargo(target);
    c.args(["+nightly", "miri", "run", "--release", "--offline", "--locked", "-q", "--target", target, "--manifest-path"]).arg(verif().join("mc/miri/Cargo.toml")).arg("--").args(args);
    output_within(&mut c, LIMIT).expect("cargo miri")
}
/// Sysroot of the interpreter and build of the program, once per process and target.  Err: not available.
fn ready(target: &'static str) -> Result<(), String> {
    static DONE: OnceLock<Mutex<std::collections::HashMap<&'static str, Result<(), String>>>> = OnceLock::new();
    let mut g = DONE.get_or_init(Default::default).lock().unwrap();
    if let Some(r) = g.get(target) {
        return r.clone();
    }
    let dir = verif().join("target/miri");
    std::fs::create_dir_all(&dir).unwrap();
    // other checks may be doing the same
    let lock = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(dir.join(".lock")).unwrap();
    let _ = lock.lock();
    let mut c = cargo(target);
    c.args(["+nightly", "miri", "setup", "--target", target]);
    let r = match c.output() {
        Err(e) => Err(format!("{e}")),
        Ok(o) if !o.status.success() => Err(tail(&o)),
        // mode "none": builds and does nothing
        Ok(_) => {
            let o = run(target, &["none".into(), "0".into(), "1".into(), "0".into()]);
            match o {
                Some(o) if o.status.success() => Ok(()),
                Some(o) => Err(tail(&o)),
                None => Err("building takes too long".into()),
            }
        }
    };
    g.insert(target, r.clone());
    r
}
fn must(target: &'static str) {
    if let Err(e) = ready(target) {
        panic!("harness: Miri for {target} is not usable: {e}");
    }
}
fn tail(o: &Output) -> String {
    let e = String::from_utf8_lossy(&o.stderr).into_owned();
    e.lines().filter(|l| l.starts_with("error") || l.contains("error:")).take(5).collect::<Vec<_>>().join("; ")
}

/// Before the first check: what the quick checks need.
pub fn prepare() -> i32 {
    must(HOST);
    QUICK.iter().for_each(|t| must(t));
    0
}
pub const QUICK: &[&str] = &["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "x86_64-pc-windows-gnu"];
pub const ALL: &[&str] = &["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "x86_64-pc-windows-gnu", "aarch64-apple-darwin", "aarch64-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "riscv64gc-unknown-linux-gnu"];
/// Runs one shard; the result lines of the program, None if a failure was reported.
fn shard(target: &'static str, mode: &str, i: u64, of: u64, depth: usize, c: &mut Ctx) -> Option<String> {
    let o = if TOO_SLOW.load(SeqCst) { None } else { run(target, &[mode.to_string(), i.to_string(), of.to_string(), depth.to_string()]) };
    let Some(o) = o else {
        // nothing more is tried
        TOO_SLOW.store(true, SeqCst);
        c.outcome("not interpreted in time");
        c.partial = true;
        return None;
    };
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let cases: Vec<&str> = out.lines().filter(|l| l.starts_with("case ")).collect();
    for l in &cases {
        c.trace();
        let n: u64 = l.split(' ').nth(1).and_then(|n| n.parse().ok()).unwrap_or(0);
        c.state_h(mix64(n ^ (mode.len() as u64) << 40 ^ (target.len() as u64) << 48 ^ (mode.as_bytes()[0] as u64) << 52));
    }
    c.op(cases.len() as u64 * 10);
    let last = cases.last().copied().unwrap_or("before the first case");
    let at = || {
        let e: Vec<&str> = err.lines().filter(|l| l.trim_start().starts_with("error") || l.contains("-->") || l.contains("panicked at")).take(3).collect();
        e.iter().map(|l| l.trim()).collect::<Vec<_>>().join(" ")
    };
    if err.contains("unsupported operation") {
        c.outcome("not executable by the interpreter");
        c.partial = true;
        return None;
    }
    if err.contains("Undefined Behavior") {
        c.fail("undefined behaviour", format!("{mode} ({target}), {last}: {}", at()));
        return None;
    }
    if err.contains("memory leaked") {
        c.fail("leak", format!("{mode} ({target}), shard {i} of {of}: {}", at()));
        return None;
    }
    if err.contains("panicked at") || err.contains("abnormal termination") {
        c.fail("panic", format!("{mode} ({target}), {last}: {}", at()));
        return None;
    }
    if !o.status.success() || !out.lines().any(|l| l.starts_with("ran ")) {
        panic!("harness: Miri ended with {}: {}", o.status, err.lines().take(12).collect::<Vec<_>>().join(" / "));
    }
    c.outcome("in order");
    c.sample(|| format!("{target}: {last}"));
    Some(out)
}

/// A mode on the host target, in shards.
pub fn space_of(mode: &'static str, what: &str, shards: u64, depth: usize) -> Space {
    must(HOST);
    Space { patient: true, ..space(&format!("{what}, interpreted with every memory access checked"), shards as usize, move |i, c| {
        shard(HOST, mode, i, shards, depth, c);
    })}
}

/// The same programs for other targets: results against those of the host, also interpreted.
pub fn targets(list: &'static [&'static str], shards: u64) -> Space {
    let base: Arc<Vec<OnceLock<Option<String>>>> = Arc::new((0..shards).map(|_| OnceLock::new()).collect());
    must(HOST);
    list.iter().for_each(|t| must(t));
    Space { patient: true, ..space("other targets (interpreted) x one workload", list.len() * shards as usize, move |i, c| {
        let (t, s) = (list[i as usize / shards as usize], i % shards);
        let Some(b) = base[s as usize].get_or_init(|| shard(HOST, "values", s, shards, 0, c)) else {
            return;
        };
        let Some(o) = shard(t, "values", s, shards, 0, c) else {
            return;
        };
        let val = |l: &str| l.split_once(' ').and_then(|(a, n)| u64::from_str_radix(a, 16).ok().filter(|_| a.len() == 16).map(|v| (f64::from_bits(v), n.to_string())));
        let a: Vec<(f64, String)> = b.lines().filter_map(val).collect();
        let z: Vec<(f64, String)> = o.lines().filter_map(val).collect();
        if a.len() != z.len() || a.is_empty() {
            panic!("harness: {} and {} results", a.len(), z.len());
        }
        for ((v, n), (w, m)) in a.iter().zip(&z) {
            assert!(n == m, "harness: order of results");
            // internal energy, enthalpy, entropy and Gibbs energy may cancel
            if !(v == w || v.is_nan() && w.is_nan() || (v - w).abs() <= 1e-10 * v.abs().max(w.abs()).max(1e-2)) {
                c.fail("value", format!("{t}: {n} = {w:?}, on {HOST} {v:?}"));
                return;
            }
        }
    })}
}
