//! Stages which run under sanitizers: the harness built with ThreadSanitizer, and small pipelines
//! in Miri.

use std::io::{BufRead, BufReader, Read, Seek, SeekFrom};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::json;

use crate::report::{Fnv, Res};
use crate::runner::Acc;

/// Which build this process is: "" or "tsan".
pub fn stage() -> &'static str {
    if std::env::var_os("VH_TSAN_LOG").is_some() { "tsan" } else { "" }
}

/// A build of the harness under a sanitizer.
pub struct Place {
    pub exe: PathBuf,
    log: PathBuf,
}

fn build(root: &Path, what: &str) -> Result<(), String> {
    // the lock of the build script keeps this from running twice at once
    let out = Command::new(root.join("build.sh"))
        .arg(what)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("build.sh {what}: {e}"))?;
    if out.status.success() {
        Ok(())
    } else {
        Err(format!("build.sh {what}: {}", String::from_utf8_lossy(&out.stdout)))
    }
}

impl Place {
    pub fn tsan(root: &Path) -> Result<Self, String> {
        build(root, "tsan")?;
        let dir = root.join("target/tsan");
        let log = dir.join("reports");
        let _ = std::fs::remove_dir_all(&log);
        std::fs::create_dir_all(&log).map_err(|e| e.to_string())?;
        Ok(Self {
            exe: dir.join("x86_64-unknown-linux-gnu/debug/vh"),
            log: log.join("r"),
        })
    }

    pub fn environment(&self, cmd: &mut Command) {
        let log = self.log.display();
        cmd.env("VH_TSAN_LOG", &self.log);
        cmd.env(
            "TSAN_OPTIONS",
            format!(
                "halt_on_error=0 exitcode=0 report_signal_unsafe=0 allocator_may_return_null=1 report_thread_leaks=0 log_path={log}"
            ),
        );
    }
}

/// The reports ThreadSanitizer has written about this process.
pub struct Reports {
    path: PathBuf,
    read: u64,
}

impl Reports {
    pub fn of_this_process() -> Option<Self> {
        let base = std::env::var("VH_TSAN_LOG").ok()?;
        Some(Self {
            path: PathBuf::from(format!("{base}.{}", std::process::id())),
            read: 0,
        })
    }

    pub fn collect(&mut self, res: &mut Res) {
        res.add("tsan_executions", 1);
        let Ok(mut f) = std::fs::File::open(&self.path) else {
            return;
        };
        let mut s = String::new();
        if f.seek(SeekFrom::Start(self.read)).is_err() || f.read_to_string(&mut s).is_err() {
            return;
        }
        self.read += s.len() as u64;
        for r in s.split("==================").filter(|r| r.contains("WARNING: ThreadSanitizer")) {
            match blame(r) {
                Some(place) => {
                    res.viol("data_race", &["C21"], format!("data race reported by ThreadSanitizer at {place}"));
                    res.log = format!("{r}\n{}", res.log);
                }
                None => res.add("tsan_reports_outside_the_library", 1),
            }
        }
    }
}

/// Frames of the standard library and of locks, which act on behalf of their caller.
fn transparent(frame: &str) -> bool {
    const INNER: &[&str] = &[
        "/library/", "/rustc/", "parking_lot", "lock_api", "compiler-rt", "interceptors", "/bytes-", "<null>",
    ];
    INNER.iter().any(|p| frame.contains(p))
}

/// Where in the library the race is, if it is there. The accesses are the first two stacks.
fn blame(report: &str) -> Option<String> {
    if !report.contains("data race") {
        return None;
    }
    let mut stack = vec![];
    let mut stacks: Vec<Vec<&str>> = vec![];
    for l in report.lines() {
        let l = l.trim();
        if l.starts_with('#') {
            stack.push(l);
        } else if l.is_empty() && !stack.is_empty() {
            stacks.push(std::mem::take(&mut stack));
        }
    }
    if !stack.is_empty() {
        stacks.push(stack);
    }
    for s in stacks.iter().take(2) {
        if let Some(f) = s.iter().find(|f| !transparent(f))
            && f.contains("/repo/crates/")
        {
            return Some((*f).to_string());
        }
    }
    None
}

const MIRI_FLAGS: &str = "-Zmiri-preemption-rate=0.03 -Zmiri-permissive-provenance -Zmiri-backtrace=0";

fn miri_command(root: &Path, flags: &str) -> Command {
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--offline", "--quiet"])
        .current_dir(root.join("miri"))
        .env_remove("RUSTUP_TOOLCHAIN")
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TARGET_DIR", root.join("target/miri"))
        .env("MIRI_SYSROOT", root.join("target/miri-sysroot"))
        .env("MIRIFLAGS", format!("{MIRI_FLAGS} {flags}"))
        .stdin(Stdio::null());
    c
}

/// Runs programs of Miri's seeds in batches until enough ran or time is over.
pub fn miri(prop: &'static str, root: &Path, seed: u64, runs: u64, secs: u64, acc: &mut Acc) {
    if let Err(e) = build(root, "miri") {
        acc.errors.push(e);
        return;
    }
    let start = Instant::now();
    let first = (seed % 1_000_000) * 100_000;
    let mut done = 0;
    // half of the batches without the aliasing and validity checks, which are expensive
    while done < runs && start.elapsed() < Duration::from_secs(secs) {
        let n = 24.min(runs - done);
        let fast = (done / 24) % 2 == 1;
        let (a, b) = (first + done, first + done + n);
        if let Err(e) = batch(prop, root, a, b, fast, acc) {
            acc.errors.push(e);
            return;
        }
        done += n;
        if !acc.viols.is_empty() {
            return;
        }
    }
}

fn batch(prop: &'static str, root: &Path, a: u64, b: u64, fast: bool, acc: &mut Acc) -> Result<(), String> {
    let (lines, ended) = output(root, a, b, fast)?;
    let mut viol = |msg: String, class: &str| {
        // Which of the seeds it was is found out again if there was more than one
        acc.viols.push(json!({
            "t": "viol", "idx": 0, "seed": a, "stage": "miri", "class": class, "msg": msg,
            "sample": format!("Miri, seeds {a}..{b}"), "log": lines.join("\n"),
        }));
    };
    let mut completed = 0;
    let mut bad = false;
    for (i, l) in lines.iter().enumerate() {
        if let Some(r) = l.strip_prefix("VM-VIOLATION [") {
            let (props, what) = r.split_once(']').unwrap_or(("", r));
            if props.split([',', ' ']).any(|p| p == prop) {
                viol(format!("in Miri: {}", what.trim()), "miri_violation");
            }
            bad = true;
        } else if l.starts_with("error: ") || l.starts_with("error[") {
            bad = true;
            // undefined behaviour, races, deadlocks, leaks; or what Miri can not do
            if l.contains("unsupported operation") || l.contains("resource exhausted") || l.contains("aborting due") {
                continue;
            }
            if l.contains("deadlock") {
                if prop == "C04" || prop == "C21" {
                    viol(format!("in Miri: {l}"), "miri_deadlock");
                }
            } else if (l.contains("Undefined Behavior") || l.contains("data race") || l.contains("memory leaked")) && prop == "C21" {
                let place = lines.iter().skip(i).take(3).map(|l| l.trim()).collect::<Vec<_>>().join(" ");
                viol(format!("in Miri: {place}"), "miri_error");
            }
        }
    }
    for l in &lines {
        let Some(r) = l.strip_prefix("VM-STATS ") else { continue };
        completed += 1;
        for kv in r.split(' ') {
            if let Some((k, v)) = kv.split_once('=') {
                *acc.stats.entry(format!("miri_{k}")).or_insert(0) += v.parse::<u64>().unwrap_or(0);
            }
        }
        let mut f = Fnv::default();
        f.bytes(l.as_bytes());
        acc.prints.insert(f.0);
    }
    *acc.stats.entry("miri_executions".into()).or_insert(0) += completed;
    acc.evals += completed;
    acc.nontrivial += completed;
    if !ended || (completed == 0 && !bad) {
        return Err(format!("Miri gave no result: {}", lines.last().map_or("", String::as_str)));
    }
    Ok(())
}

fn output(root: &Path, a: u64, b: u64, fast: bool) -> Result<(Vec<String>, bool), String> {
    let aliasing = if fast { "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation" } else { "" };
    let flags = format!("-Zmiri-many-seeds={a}..{b} -Zmiri-many-seeds-keep-going {aliasing}");
    let log = root.join("target/miri.log");
    let err = std::fs::File::create(&log).map_err(|e| e.to_string())?;
    let mut child = miri_command(root, &flags)
        .stdout(Stdio::piped())
        .stderr(err)
        .spawn()
        .map_err(|e| format!("cargo miri: {e}"))?;
    let out = child.stdout.take().ok_or("no output")?;
    let reader = std::thread::spawn(move || BufReader::new(out).lines().map_while(Result::ok).collect::<Vec<_>>());
    let began = Instant::now();
    let mut ended = true;
    while child.try_wait().map_err(|e| e.to_string())?.is_none() {
        std::thread::sleep(Duration::from_millis(50));
        if began.elapsed() > Duration::from_secs(240) {
            // the interpreter itself is a grandchild
            let _ = Command::new("pkill").args(["-9", "-P", &child.id().to_string()]).status();
            let _ = child.kill();
            let _ = child.wait();
            ended = false;
            break;
        }
    }
    let mut lines = if ended { reader.join().unwrap_or_default() } else { vec![] };
    let s = std::fs::read(&log).unwrap_or_default();
    lines.extend(String::from_utf8_lossy(&s).lines().map(ToString::to_string));
    Ok((lines, ended))
}

/// Runs the seeds of a batch one by one until one of them fails.
pub fn replay_miri(root: &Path, prop: &str, first: u64) -> i32 {
    if let Err(e) = build(root, "miri") {
        println!("{e}");
        return 2;
    }
    for seed in first..first + 24 {
        for fast in [false, true] {
            let Ok((lines, _)) = output(root, seed, seed + 1, fast) else {
                return 2;
            };
            if lines.iter().any(|l| l.contains("VM-VIOLATION") || l.starts_with("error: ")) {
                println!("{prop}: seed {seed}");
                println!("{}", lines.join("\n"));
                return 1;
            }
        }
    }
    println!("not reproduced");
    0
}
