//! Parent / worker processes, evidence, replay files, known findings.

use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

use serde_json::{Value, json};

use crate::report::Res;
use crate::rng::mix;

pub type Scenario = fn(prop: &str, seed: u64, dir: &Path) -> Res;

pub struct Check {
    pub prop: &'static str,
    pub run: Scenario,
    /// scenarios of the quick / thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// wall clock caps in seconds
    pub quick_secs: u64,
    pub thorough_secs: u64,
    pub workers: usize,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// statistics that have to be non-zero for the run to have observed anything
    pub needs: &'static [&'static str],
    /// a scenario is deterministic given its seed (no schedule involved)
    pub deterministic: bool,
    /// further stages, run after the workers are done
    pub sanitized: Option<Sanitized>,
}

/// Executions under sanitizers, in addition to the native ones.
#[derive(Clone, Copy)]
pub struct Sanitized {
    /// what runs in the ThreadSanitizer build, cases and seconds (quick, thorough)
    pub tsan: Option<(Scenario, [u64; 2], [u64; 2])>,
    /// executions in Miri and seconds (quick, thorough)
    pub miri: Option<([u64; 2], [u64; 2])>,
}

pub fn scenario_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(seed ^ 0x5EED);
    for b in prop.bytes() {
        h = mix(h ^ u64::from(b));
    }
    mix(h ^ idx.wrapping_mul(0x9E37_79B9)) & 0x7FFF_FFFF_FFFF_FFFF
}

pub fn scratch(tag: &str) -> PathBuf {
    let p = std::env::temp_dir().join(format!("vh-{tag}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&p);
    p
}

/// Temporary files of this process go to `s/tmp` in its scratch directory.
fn own_temp_dir(dir: &Path) {
    let t = dir.join("s").join("tmp");
    let _ = std::fs::create_dir_all(&t);
    // no other thread exists yet
    unsafe { std::env::set_var("TMPDIR", &t) }
}

/// A panic on the thread that drives the case ends it, but not the worker.
fn run_case(check: &Check, seed: u64, dir: &Path) -> Res {
    let run = match check.sanitized {
        Some(Sanitized { tsan: Some((f, ..)), .. }) if crate::sanitize::stage() == "tsan" => f,
        _ => check.run,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(check.prop, seed, dir)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let all = crate::panics::take();
            let mut res = Res {
                poisoned: true,
                sample: format!("seed={seed}"),
                log: all.join("\n"),
                ..Res::default()
            };
            match all.iter().find(|p| !crate::panics::own(p)) {
                Some(p) => res.viol("panic", &[check.prop, "C21"], p.clone()),
                None => res.inconclusive = true,
            }
            res
        }
    }
}

// ---------------------------------------------------------------- worker

/// Runs scenarios `from, from+step, ...` below `to` and prints one JSON line per event.
pub fn worker(check: &Check, seed: u64, from: u64, step: u64, to: u64, secs: u64) {
    crate::panics::install();
    crate::trace::install();
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let dir = scratch(check.prop);
    own_temp_dir(&dir);
    let start = Instant::now();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut prints: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut inconclusive = 0u64;
    let mut samples: Vec<String> = vec![];
    let out = std::io::stdout();
    let mut idx = from;
    let mut poisoned = false;
    let mut sent = Instant::now();
    let mut reports = crate::sanitize::Reports::of_this_process();
    let flush = |idx: u64,
                 evals: &mut u64,
                 nontrivial: &mut u64,
                 inconclusive: &mut u64,
                 stats: &mut BTreeMap<String, u64>,
                 prints: &mut HashSet<u64>,
                 samples: &mut Vec<String>| {
        let v = json!({
            "t": "stats", "next": idx, "evals": *evals, "nontrivial": *nontrivial,
            "inconclusive": *inconclusive,
            "stats": stats, "prints": prints.iter().collect::<Vec<_>>(), "samples": samples,
        });
        let mut o = out.lock();
        let _ = writeln!(o, "{v}");
        let _ = o.flush();
        *evals = 0;
        *nontrivial = 0;
        *inconclusive = 0;
        stats.clear();
        prints.clear();
        samples.clear();
    };
    while idx < to && start.elapsed() < Duration::from_secs(secs) {
        let s = scenario_seed(seed, check.prop, idx);
        {
            let mut o = out.lock();
            let _ = writeln!(o, "{{\"t\":\"start\",\"idx\":{idx}}}");
            let _ = o.flush();
        }
        let began = Instant::now();
        let sub = dir.join("s");
        let _ = std::fs::create_dir_all(&sub);
        let mut r = run_case(check, s, &sub);
        if let Some(t) = &mut reports {
            t.collect(&mut r);
        }
        evals += 1;
        let us = began.elapsed().as_micros() as u64;
        let e = stats.entry("max_scenario_us".into()).or_insert(0);
        *e = (*e).max(us);
        if r.inconclusive {
            inconclusive += 1;
        }
        if r.nontrivial && prints.len() < 200_000 {
            nontrivial += 1;
            prints.insert(r.fingerprint);
        }
        for (k, v) in &r.stats {
            let e = stats.entry((*k).to_string()).or_insert(0);
            if k.starts_with("max_") {
                *e = (*e).max(*v);
            } else {
                *e += v;
            }
        }
        if samples.len() < 2 && r.nontrivial && !r.sample.is_empty() {
            samples.push(r.sample.clone());
        }
        let mut other = 0;
        for v in &r.viols {
            let mine = v.props.contains(&check.prop);
            if !mine {
                other += 1;
                if std::env::var_os("VH_VERBOSE").is_some() {
                    eprintln!("other: seed {s} {:?} {} {}", v.props, v.class, v.msg);
                }
                continue;
            }
            let j = json!({
                "t": "viol", "idx": idx, "seed": s, "class": v.class, "msg": v.msg, "stage": crate::sanitize::stage(),
                "props": v.props, "sample": r.sample, "log": r.log,
            });
            let mut o = out.lock();
            let _ = writeln!(o, "{j}");
            let _ = o.flush();
        }
        if other > 0 {
            *stats.entry("observations_counted_for_other_properties".into()).or_insert(0) += other;
        }
        if r.inconclusive && std::env::var_os("VH_VERBOSE").is_some() {
            eprintln!("inconclusive: seed {s} {}\n{}", r.sample, r.log);
        }
        idx += step;
        if sent.elapsed() > Duration::from_secs(2) {
            sent = Instant::now();
            flush(idx, &mut evals, &mut nontrivial, &mut inconclusive, &mut stats, &mut prints, &mut samples);
        }
        if r.poisoned {
            poisoned = true;
            break;
        }
    }
    *stats.entry("perturbation_points".into()).or_insert(0) +=
        crate::trace::EVENTS.load(std::sync::atomic::Ordering::SeqCst);
    *stats.entry("injected_delays".into()).or_insert(0) +=
        crate::trace::DELAYS.load(std::sync::atomic::Ordering::SeqCst);
    flush(idx, &mut evals, &mut nontrivial, &mut inconclusive, &mut stats, &mut prints, &mut samples);
    let done = !poisoned;
    {
        let mut o = out.lock();
        let _ = writeln!(o, "{{\"t\":\"end\",\"next\":{idx},\"done\":{done}}}");
        let _ = o.flush();
    }
    let _ = std::fs::remove_dir_all(&dir);
    // leaked threads may still be waiting
    unsafe { libc::_exit(0) }
}

// ---------------------------------------------------------------- parent

#[derive(Default)]
pub struct Acc {
    pub evals: u64,
    pub nontrivial: u64,
    pub inconclusive: u64,
    pub stats: BTreeMap<String, u64>,
    pub prints: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Value>,
    pub deaths: u64,
    pub killed: u64,
    pub errors: Vec<String>,
}

enum Msg {
    Line(usize, Value),
    Exit(usize, Option<i32>, Option<i32>),
}

fn spawn_worker(
    check: &Check,
    seed: u64,
    w: usize,
    from: u64,
    to: u64,
    secs: u64,
    place: Option<&crate::sanitize::Place>,
    tx: &mpsc::Sender<Msg>,
) -> u32 {
    let mut cmd = Command::new(place.map_or_else(|| std::env::current_exe().expect("exe"), |p| p.exe.clone()));
    if let Some(p) = place {
        p.environment(&mut cmd);
    }
    let mut child = cmd
        .args([
            "worker",
            check.prop,
            &seed.to_string(),
            &from.to_string(),
            &check.workers.to_string(),
            &to.to_string(),
            &secs.to_string(),
        ])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(if std::env::var_os("VH_VERBOSE").is_some() {
            Stdio::inherit()
        } else {
            Stdio::null()
        })
        .spawn()
        .expect("spawn worker");
    let pid = child.id();
    let tx = tx.clone();
    let out = child.stdout.take().expect("stdout");
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            if let Ok(v) = serde_json::from_str(&l) {
                let _ = tx.send(Msg::Line(w, v));
            }
        }
        use std::os::unix::process::ExitStatusExt;
        let st = child.wait().ok();
        let _ = tx.send(Msg::Exit(
            w,
            st.and_then(|s| s.code()),
            st.and_then(|s| s.signal()),
        ));
    });
    pid
}

/// No case takes this long (seconds) unless it never ends.
const SCENARIO_LIMIT: u64 = 80;

fn kill_all(pids: &[u32]) {
    for p in pids {
        if *p != 0 {
            unsafe {
                libc::kill(*p as i32, libc::SIGKILL);
            }
        }
    }
}

/// Processor time of a worker so far.
fn cpu_secs(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) / 100
}

pub struct Known {
    pub entries: Vec<(String, String)>,
}

impl Known {
    /// lines "finding: property=<id> key=<class or substring> ..." suppress, "fixed:" lines do not
    pub fn load(root: &Path) -> Self {
        let mut entries = vec![];
        if let Ok(s) = std::fs::read_to_string(root.join("KNOWN_FINDINGS")) {
            for l in s.lines() {
                let Some(rest) = l.strip_prefix("finding: property=") else {
                    continue;
                };
                let Some((id, rest)) = rest.split_once(" key=\"") else {
                    continue;
                };
                let Some((key, _)) = rest.split_once('"') else {
                    continue;
                };
                entries.push((id.to_string(), key.to_string()));
            }
        }
        Self { entries }
    }
    fn matches(&self, prop: &str, v: &Value) -> Option<&str> {
        let text = format!(
            "{}: {}",
            v["class"].as_str().unwrap_or(""),
            v["msg"].as_str().unwrap_or("")
        );
        self.entries
            .iter()
            .find(|(p, k)| p == prop && text.contains(k.as_str()))
            .map(|(_, k)| k.as_str())
    }
}

pub fn check(check: &Check, root: &Path, tier: &str, seed: u64) -> i32 {
    let start = Instant::now();
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("VH_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let t = usize::from(thorough);
    let scaled = |n: u64| (n as f64 * scale).ceil() as u64;
    let mut acc = Acc::default();
    let to = [check.quick, check.thorough][t];
    let secs = [check.quick_secs, check.thorough_secs][t];
    collect(check, seed, scaled(to), scaled(secs), None, &mut acc);
    let took = |acc: &mut Acc, stage: &str| {
        acc.stats.insert(format!("seconds_until_end_of_{stage}"), start.elapsed().as_secs());
    };
    took(&mut acc, "native");
    if let Some(s) = check.sanitized {
        if let Some((_, cases, secs)) = s.tsan
            && acc.viols.is_empty()
        {
            match crate::sanitize::Place::tsan(root) {
                Ok(p) => collect(check, seed, scaled(cases[t]), scaled(secs[t]), Some(&p), &mut acc),
                Err(e) => acc.errors.push(e),
            }
            took(&mut acc, "tsan");
        }
        if let Some((runs, secs)) = s.miri
            && acc.viols.is_empty()
        {
            crate::sanitize::miri(check.prop, root, seed, scaled(runs[t]), scaled(secs[t]), &mut acc);
            took(&mut acc, "miri");
        }
    }
    finish(check, root, tier, seed, start, acc)
}

/// Lets workers run the cases below `to` and collects what they report.
#[allow(clippy::too_many_lines)]
fn collect(
    check: &Check,
    seed: u64,
    to: u64,
    secs: u64,
    place: Option<&crate::sanitize::Place>,
    acc: &mut Acc,
) {
    let start = Instant::now();
    let deadline = start + Duration::from_secs(secs);
    let (tx, rx) = mpsc::channel();
    let n = check.workers;
    let mut last_start = vec![0u64; n];
    let mut since = vec![(Instant::now(), 0u64); n];
    let mut next = (0..n as u64).collect::<Vec<_>>();
    let mut pids = vec![0u32; n];
    let mut ended = vec![false; n];
    let mut alive = 0;
    for w in 0..n {
        pids[w] = spawn_worker(check, seed, w, w as u64, to, secs, place, &tx);
        alive += 1;
    }
    let mut restarts = 0;
    while alive > 0 {
        // scenarios that spin forever
        for w in 0..n {
            if pids[w] == 0 || since[w].0.elapsed() < Duration::from_secs(SCENARIO_LIMIT) {
                continue;
            }
            let used = cpu_secs(pids[w]).saturating_sub(since[w].1);
            let idx = last_start[w];
            if used >= SCENARIO_LIMIT / 4 {
                acc.viols.push(json!({
                    "t": "viol", "idx": idx, "seed": scenario_seed(seed, check.prop, idx), "stage": place.map_or("", |_| "tsan"),
                    "class": "spin",
                    "msg": format!("a case ran for {SCENARIO_LIMIT} s and used {used} s of processor time without ending"),
                    "sample": "", "log": "",
                }));
            } else {
                acc.inconclusive += 1;
            }
            acc.evals += 1;
            unsafe {
                libc::kill(pids[w] as i32, libc::SIGKILL);
            }
            since[w].0 = Instant::now() + Duration::from_secs(3600);
        }
        let over = Instant::now() > deadline + Duration::from_secs(90);
        let msg = match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(m) => m,
            Err(_) if !over => continue,
            Err(_) => {
                // workers that do not come back give no verdict
                kill_all(&pids);
                acc.errors.push("workers had to be stopped".into());
                break;
            }
        };
        match msg {
            Msg::Line(w, v) => match v["t"].as_str() {
                Some("start") => {
                    last_start[w] = v["idx"].as_u64().unwrap_or(0);
                    since[w] = (Instant::now(), cpu_secs(pids[w]));
                }
                Some("stats") => {
                    acc.evals += v["evals"].as_u64().unwrap_or(0);
                    acc.nontrivial += v["nontrivial"].as_u64().unwrap_or(0);
                    acc.inconclusive += v["inconclusive"].as_u64().unwrap_or(0);
                    if let Some(o) = v["stats"].as_object() {
                        for (k, x) in o {
                            let x = x.as_u64().unwrap_or(0);
                            let e = acc.stats.entry(k.clone()).or_insert(0);
                            if k.starts_with("max_") {
                                *e = (*e).max(x);
                            } else {
                                *e += x;
                            }
                        }
                    }
                    if let Some(a) = v["prints"].as_array() {
                        for p in a {
                            if let Some(p) = p.as_u64() {
                                acc.prints.insert(p);
                            }
                        }
                    }
                    if let Some(a) = v["samples"].as_array() {
                        for p in a {
                            if acc.samples.len() < 6 {
                                acc.samples.push(p.as_str().unwrap_or("").to_string());
                            }
                        }
                    }
                }
                Some("viol") => {
                    if acc.viols.len() < 200 {
                        acc.viols.push(v);
                    }
                }
                Some("end") => {
                    next[w] = v["next"].as_u64().unwrap_or(to);
                    ended[w] = v["done"].as_bool().unwrap_or(true);
                }
                _ => {}
            },
            Msg::Exit(w, _code, signal) => {
                alive -= 1;
                pids[w] = 0;
                let finished = ended[w];
                ended[w] = false;
                if finished {
                    continue;
                }
                // either a poisoned worker that ended itself, or one that died
                if next[w] <= last_start[w] {
                    acc.deaths += 1;
                    let idx = last_start[w];
                    match signal {
                        Some(libc::SIGKILL) => acc.killed += 1,
                        _ => acc.viols.push(json!({
                            "t": "viol", "idx": idx, "seed": scenario_seed(seed, check.prop, idx), "stage": place.map_or("", |_| "tsan"),
                            "class": "process_died",
                            "msg": format!("the process died (signal {signal:?})"),
                            "sample": "", "log": "",
                        })),
                    }
                    next[w] = idx + n as u64;
                }
                restarts += 1;
                let left = deadline.saturating_duration_since(Instant::now()).as_secs();
                // enough is known after a few violations
                if next[w] < to && left > 1 && acc.viols.len() < 12 && restarts < 200 {
                    pids[w] = spawn_worker(check, seed, w, next[w], to, left, place, &tx);
                    since[w] = (Instant::now(), 0);
                    alive += 1;
                }
            }
        }
        if acc.viols.len() >= 40 {
            kill_all(&pids);
            break;
        }
    }
}

fn finish(
    check: &Check,
    root: &Path,
    tier: &str,
    seed: u64,
    start: Instant,
    mut acc: Acc,
) -> i32 {
    let known = Known::load(root);
    let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
    let mut viols = vec![];
    for v in std::mem::take(&mut acc.viols) {
        if let Some(k) = known.matches(check.prop, &v) {
            *seen_known.entry(k.to_string()).or_insert(0) += 1;
        } else {
            viols.push(v);
        }
    }
    for (p, k) in &known.entries {
        if p == check.prop {
            println!(
                "KNOWN-FINDING: property={p} {k} (seen {} times in this run)",
                seen_known.get(k).copied().unwrap_or(0)
            );
        }
    }
    let out = root.join("out");
    let _ = std::fs::create_dir_all(&out);
    let mut replay = None;
    if !viols.is_empty() {
        // group by class, shortest log first
        viols.sort_by_key(|v| v["log"].as_str().map_or(usize::MAX, str::len));
        let path = out.join(format!("{}-{}.json", check.prop, viols[0]["seed"]));
        let doc = json!({
            "property": check.prop,
            "seed": viols[0]["seed"],
            "class": viols[0]["class"],
            "stage": viols[0]["stage"],
            "message": viols[0]["msg"],
            "case": viols[0]["sample"],
            "how": format!("{} replay {}", "./check.sh", path.display()),
            "log": viols[0]["log"].as_str().unwrap_or("").lines().take(3000).collect::<Vec<_>>(),
            "others": viols.iter().skip(1).take(20).map(|v| json!({"seed": v["seed"], "class": v["class"], "message": v["msg"]})).collect::<Vec<_>>(),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap_or_default());
        replay = Some(path);
    }
    let missing: Vec<_> = check
        .needs
        .iter()
        .filter(|k| acc.stats.get(**k).copied().unwrap_or(0) == 0)
        .collect();
    let observed_enough = missing.is_empty() && acc.evals > 0 && !acc.prints.is_empty();
    let wall = start.elapsed().as_secs_f64();
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(acc.evals));
    cov.insert("distinct_nontrivial".into(), json!(acc.prints.len()));
    cov.insert("nontrivial_executions".into(), json!(acc.nontrivial));
    cov.insert("inconclusive".into(), json!(acc.inconclusive));
    cov.insert("workers_died".into(), json!(acc.deaths));
    cov.insert("rule".into(), json!(check.rule));
    cov.insert("samples".into(), json!(acc.samples));
    cov.insert("observed".into(), json!(acc.stats));
    if !seen_known.is_empty() {
        cov.insert("known_findings_seen".into(), json!(seen_known));
    }
    let doc = json!({
        "property": check.prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": wall,
        "violations": viols.len(),
    });
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let _ = std::fs::write(
        ev.join(format!("{}.json", check.prop)),
        serde_json::to_string_pretty(&doc).unwrap_or_default(),
    );
    println!(
        "{} {tier}: {} executions, {} distinct, {} inconclusive, {} violations, {wall:.1} s",
        check.prop,
        acc.evals,
        acc.prints.len(),
        acc.inconclusive,
        viols.len()
    );
    for v in viols.iter().take(8) {
        println!("  {}: {}", v["class"].as_str().unwrap_or(""), v["msg"].as_str().unwrap_or(""));
    }
    if let Some(p) = replay {
        println!("VIOLATION property={} replay={}", check.prop, p.display());
        return 1;
    }
    if !observed_enough || acc.inconclusive * 4 > acc.evals || !acc.errors.is_empty() {
        println!(
            "error: no verdict, not enough was observed (missing {missing:?}, {} killed, {:?})",
            acc.killed, acc.errors
        );
        return if acc.evals > 0 && observed_enough { 0 } else { 2 };
    }
    0
}

pub fn replay(checks: &[Check], root: &Path, file: &Path) -> i32 {
    let v: Value = match std::fs::read_to_string(file)
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
    {
        Some(v) => v,
        None => {
            println!("can not read {}", file.display());
            return 2;
        }
    };
    let prop = v["property"].as_str().unwrap_or("");
    let seed = v["seed"].as_u64().unwrap_or(0);
    let Some(c) = checks.iter().find(|c| c.prop == prop) else {
        println!("unknown property {prop}");
        return 2;
    };
    match v["stage"].as_str() {
        Some("miri") => crate::sanitize::replay_miri(root, prop, seed),
        Some("tsan") => match crate::sanitize::Place::tsan(root) {
            Ok(p) => {
                let mut cmd = Command::new(&p.exe);
                p.environment(&mut cmd);
                let st = cmd.args(["seed", prop, &seed.to_string(), "100"]).status();
                st.ok().and_then(|s| s.code()).unwrap_or(2)
            }
            Err(e) => {
                println!("{e}");
                2
            }
        },
        _ => replay_seed(c, seed, 300),
    }
}

pub fn replay_seed(c: &Check, seed: u64, tries: usize) -> i32 {
    crate::panics::install();
    crate::trace::install();
    let mut reports = crate::sanitize::Reports::of_this_process();
    let dir = scratch("replay");
    own_temp_dir(&dir);
    let dir = dir.join("s");
    let _ = std::fs::create_dir_all(&dir);
    for i in 0..tries {
        let mut r = run_case(c, seed, &dir);
        if let Some(t) = &mut reports {
            t.collect(&mut r);
        }
        let mine: Vec<_> = r.viols.iter().filter(|v| v.props.contains(&c.prop)).collect();
        if i == 0 {
            println!("case: {}", r.sample);
        }
        if !mine.is_empty() || (!r.viols.is_empty() && std::env::var_os("VH_VERBOSE").is_some()) {
            for v in &r.viols {
                println!("{:?} {}: {}", v.props, v.class, v.msg);
            }
            println!("{}", r.log);
            println!("reproduced at try {}", i + 1);
            let _ = std::fs::remove_dir_all(&dir);
            return 1;
        }
        if r.poisoned {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("not reproduced in {tries} tries (schedule dependent)");
    0
}
