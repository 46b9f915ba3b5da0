//! Process streams: real (harmless) child processes in a scratch directory. Output is compared with
//! what the pipeline computes, the process table and the temporary directory are watched.

use std::io::SeekFrom;
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::{Duration, Instant};

use stream_download::process::{
    Command, CommandBuilder, FfmpegConvertAudioCommand, ProcessStream, ProcessStreamParams, SpawnCommand, YtDlpCommand,
};
use stream_download::source::SourceStream;
use stream_download::{Settings, StreamDownload};

use crate::drive::{self, Content};
use crate::pipe::{FOREVER, Op, Ret, Store, provider};
use crate::quiesce::{self, Wait, wait_done};
use crate::report::{Fnv, Res};
use crate::rng::{Rng, fill};
use crate::storage::{StoreCfg, StoreCtl};
use crate::trace;

/// (pid, state) of the children of this process
pub fn children() -> Vec<(i32, char)> {
    let me = std::process::id();
    let mut v = vec![];
    let Ok(d) = std::fs::read_dir("/proc") else { return v };
    for e in d.flatten() {
        let Ok(pid) = e.file_name().to_string_lossy().parse::<i32>() else { continue };
        let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { continue };
        let Some(rest) = s.rsplit(')').next() else { continue };
        let f: Vec<&str> = rest.split_whitespace().collect();
        if f.get(1).and_then(|p| p.parse::<u32>().ok()) == Some(me) {
            v.push((pid, f[0].chars().next().unwrap_or('?')));
        }
    }
    v
}

#[derive(Clone, Debug)]
enum Stage {
    Cat,
    /// writes everything and fails
    Fail(u8),
    /// the first bytes, then nothing, but does not end
    Stall(u64),
    /// the first bytes only
    Head(u64),
    /// in small pieces
    Slow(u64),
    /// as many bytes of diagnostics before the content
    Noise(u64),
    Missing,
}

impl Stage {
    fn command(&self, file: Option<&Path>) -> Command {
        let f = file.map_or(String::new(), |p| p.display().to_string());
        let sh = |s: String| Command::new("/bin/sh").args(["-c".to_string(), s]);
        match self {
            Self::Cat => match file {
                Some(p) => Command::new("cat").arg(p),
                None => Command::new("cat"),
            },
            Self::Fail(c) => sh(format!("cat {f}; echo {} >&2; exit {c}", diag(*c))),
            Self::Stall(n) => sh(format!("head -c {n} {f}; exec sleep 1000")),
            Self::Head(n) => match file {
                Some(p) => Command::new("head").args(["-c", &n.to_string()]).arg(p),
                None => Command::new("head").args(["-c", &n.to_string()]),
            },
            Self::Slow(n) => match file {
                Some(_) => sh(format!("head -c {n} {f}; sleep 0.01; tail -c +{} {f}", n + 1)),
                None => sh(format!("dd bs=1 count={n} 2>/dev/null; sleep 0.01; exec cat")),
            },
            Self::Noise(n) => sh(format!("head -c {n} /dev/zero >&2; exec cat {f}")),
            Self::Missing => Command::new("/nonexistent/vh-no-such-program"),
        }
    }
    fn output(&self, n: u64) -> u64 {
        match self {
            Self::Head(k) | Self::Stall(k) => n.min(*k),
            Self::Missing => 0,
            _ => n,
        }
    }
}

/// What a command that exits with this code has to say.
fn diag(c: u8) -> String {
    format!("vh-diagnostics-of-{c}-end")
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    /// read everything
    Read,
    /// the token after some time
    Token(u64),
    /// the reader is dropped after its operations
    Drop,
    /// the runtime is shut down while the stream is in use
    Runtime(u64),
    /// the parameters are never used for a stream
    Unused,
}

fn files_in(dir: &Path) -> Vec<String> {
    std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect())
        .unwrap_or_default()
}

pub fn scenario(_prop: &str, seed: u64, dir: &Path) -> Res {
    crate::panics::take();
    quiesce::watch_children(true);
    let mut rng = Rng::new(seed ^ 0x9C);
    if rng.chance(1, 6) { helpers(seed, &mut rng, dir) } else { pipeline(seed, &mut rng, dir) }
}

/// Waits for a condition on the world outside; `false` if it never comes true.
fn eventually(mut f: impl FnMut() -> bool) -> bool {
    let start = Instant::now();
    let mut i = 0;
    while !f() {
        if start.elapsed() > Duration::from_secs(10) {
            return f();
        }
        i += 1;
        std::thread::sleep(Duration::from_micros(if i < 50 { 200 } else { 5_000 }));
    }
    true
}

fn runtime(threads: u64) -> tokio::runtime::Runtime {
    if threads == 0 {
        tokio::runtime::Builder::new_current_thread().enable_all().build()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(threads as usize).enable_all().build()
    }
    .expect("runtime")
}

#[allow(clippy::too_many_lines)]
fn pipeline(seed: u64, rng: &mut Rng, dir: &Path) -> Res {
    let mut res = Res::default();
    let total = match rng.below(8) {
        0 => rng.below(3),
        1..=4 => rng.range(1, 4_000),
        5 | 6 => rng.range(4_000, 70_000),
        _ => rng.range(70_000, 300_000),
    };
    let cseed = seed ^ 0x77;
    let data = dir.join("content.bin");
    let tmp = dir.join("tmp");
    let _ = std::fs::create_dir_all(&tmp);
    std::fs::write(&data, fill(cseed, 0, total as usize)).expect("write content");
    let n = *rng.pick(&[1, 1, 2, 2, 3, 4]);
    let end = match rng.below(10) {
        0..=3 => End::Read,
        4 | 5 => End::Token(rng.below(20_000)),
        6 | 7 => End::Drop,
        8 => End::Runtime(rng.below(10_000)),
        _ => End::Unused,
    };
    let stall = end != End::Read && rng.chance(2, 3);
    let stall_at = rng.below(n);
    let missing = rng.chance(1, 12).then(|| rng.below(n));
    let stages: Vec<Stage> = (0..n)
        .map(|i| {
            if Some(i) == missing {
                return Stage::Missing;
            }
            if stall && i == stall_at {
                return Stage::Stall(rng.below(total + 1));
            }
            match rng.below(9) {
                0 => Stage::Fail(rng.range(1, 200) as u8),
                1 => Stage::Head(rng.below(total + 2)),
                2 => Stage::Slow(rng.range(1, 200)),
                3 => Stage::Noise(rng.range(1, 150_000)),
                _ => Stage::Cat,
            }
        })
        .collect();
    let out = stages.iter().fold(total, |n, s| s.output(n));
    let known = end == End::Read && rng.chance(1, 3);
    let custom_stderr = rng.chance(1, 5);
    // ---- program
    let store = match rng.below(5) {
        0 => Store::Temp,
        1 => Store::BMem(rng.range(64, out.max(65)) as usize),
        _ => Store::Mem,
    };
    let cap = store.capacity(None);
    let mut ops = vec![];
    for _ in 0..rng.below(5) {
        match rng.below(4) {
            0 if cap.is_none() && out > 0 => ops.push(Op::Seek(SeekFrom::Start(rng.below(out)))),
            1 => ops.push(Op::Nap(rng.range(10, 3_000))),
            _ => {
                let k = rng.range(1, out / 2 + 2) as usize;
                ops.push(Op::Read(cap.map_or(k, |c| k.min(c))));
            }
        }
    }
    let k = rng.range(1, 9_000) as usize;
    let k = cap.map_or(k, |c| k.min(c));
    if end == End::Read || !stall && rng.chance(1, 2) {
        ops.push(Op::ToEnd(k));
        if cap.is_none() && end == End::Read {
            ops.push(Op::Seek(SeekFrom::Start(0)));
            ops.push(Op::ToEnd(k));
        }
    } else if matches!(end, End::Token(_) | End::Runtime(_)) {
        ops.push(Op::ToEnd(k));
    } else {
        // nothing that would wait for the command that stalls
        ops.retain(|o| !stall || matches!(o, Op::Nap(_)));
    }
    trace::configure(seed, rng.below(3));
    res.sample = format!("seed={seed} process {stages:?} total={total} output={out} known={known} {end:?} {} ops={ops:?}", store.name());
    let mut fp = Fnv::default();
    let threads = rng.below(3);
    let rt = runtime(threads);
    let guard = rt.enter();
    // ---- spawn
    let mut cmds = stages.iter().enumerate().map(|(i, s)| {
        let c = s.command((i == 0).then_some(&data));
        if custom_stderr { c.stderr_handle(Stdio::null()) } else { c }
    });
    let first = cmds.next().expect("one command");
    let params = if n == 1 && rng.chance(1, 2) {
        ProcessStreamParams::new(first)
    } else {
        let mut b = CommandBuilder::new(first);
        for c in cmds {
            b = b.pipe(c);
        }
        ProcessStreamParams::new(b)
    };
    drop(guard);
    res.add("process_pipelines", 1);
    res.add("process_commands", n);
    let params = match params {
        Err(e) => {
            if missing.is_none() {
                res.viol("spawn", &["C14"], format!("spawning failed: {e}"));
            }
            res.add("process_spawn_failures", 1);
            // whatever was started already has to go
            if !eventually(|| children().iter().all(|c| c.1 == 'Z')) {
                res.viol("left_running", &["C14"], format!("processes {:?} are left after a failed spawn", children()));
            }
            finish(rt, threads, &tmp, &mut res);
            fp.put(1);
            res.fingerprint = fp.0 ^ total;
            res.nontrivial = true;
            return res;
        }
        Ok(p) => {
            if missing.is_some() {
                res.viol("spawn", &["C14"], "spawning a command that does not exist succeeded");
            }
            p.content_length(known.then_some(out))
        }
    };
    if !custom_stderr {
        res.max("max_stderr_files", files_in(&tmp).len() as u64);
    }
    if end == End::Unused {
        if rng.chance(1, 2) {
            drop(params);
        } else {
            let s = rt.block_on(ProcessStream::create(params));
            drop(s);
        }
        if !eventually(|| children().iter().all(|c| c.1 == 'Z')) {
            res.viol("left_running", &["C14"], format!("processes {:?} are left although the stream was never used", children()));
        }
        res.add("process_unused", 1);
        finish(rt, threads, &tmp, &mut res);
        res.fingerprint = total ^ (n << 40);
        res.nontrivial = true;
        return res;
    }
    let outer = StoreCtl::new(StoreCfg { seed: cseed, check_content: true, ..StoreCfg::default() });
    let inner = StoreCtl::new(StoreCfg::default());
    let store_dir: PathBuf = dir.to_path_buf();
    let prov = provider(store, &outer, &inner, &inner, &store_dir);
    let settings = Settings::default()
        .prefetch_bytes(*rng.pick(&[0, 0, 10, 1000]).min(&(cap.unwrap_or(5000) as u64 / 2)))
        .retry_timeout(FOREVER);
    let sd = rt.block_on(async { StreamDownload::new_process(params, prov, settings).await });
    let sd = match sd {
        Ok(s) => s,
        Err(e) => {
            res.viol("create", &["C14", "C22"], e.to_string());
            return res;
        }
    };
    if sd.content_length() != known.then_some(out) {
        res.viol("content_length", &["C14", "C22"], format!("content length {:?}", sd.content_length()));
    }
    let token = sd.cancellation_token();
    let handle = sd.handle();
    let completed = Arc::new(AtomicBool::new(false));
    rt.spawn({
        let completed = completed.clone();
        async move {
            handle.wait_for_completion().await;
            completed.store(true, SeqCst);
            quiesce::tick();
        }
    });
    let (rt_tx, rt_rx) = tokio::sync::oneshot::channel::<()>();
    // the runtime is returned once it is told to stop
    let rt_thread = std::thread::spawn(move || {
        let _ = rt.block_on(rt_rx);
        rt
    });
    trace::capture();
    let mut d = drive::start(sd, Content { seed: cseed, total: out }, ops.clone(), || ());
    match end {
        End::Token(us) => {
            std::thread::sleep(Duration::from_micros(us));
            token.cancel();
        }
        End::Runtime(us) => {
            std::thread::sleep(Duration::from_micros(us));
            let _ = rt_tx.send(());
            let rt = rt_thread.join().expect("runtime thread");
            rt.shutdown_timeout(Duration::from_secs(5));
            let w = d.wait(Duration::from_secs(25));
            hang(w, "the runtime was shut down", &mut res);
            if !eventually(|| children().iter().all(|c| c.1 == 'Z')) {
                res.viol("left_running", &["C14"], format!("processes {:?} are left after the runtime was shut down", children()));
            }
            results(&d, out, end, stall, &mut res, &mut fp);
            res.add("process_runtime_shutdowns", 1);
            reap();
            tmp_empty(&tmp, &mut res);
            res.fingerprint = fp.0;
            res.nontrivial = true;
            return res;
        }
        _ => {}
    }
    let w = d.wait(Duration::from_secs(25));
    if !hang(w, "a reader operation", &mut res) {
        let w = wait_done(|| completed.load(SeqCst), Duration::from_secs(25));
        if !hang(w, "completion", &mut res) {
            results(&d, out, end, stall, &mut res, &mut fp);
            // ---- what is left?
            let done_reading = d.results().iter().any(|r| matches!(r.ret, Ret::All(_)));
            let left = children();
            // commands that end by themselves are reaped in the background after a regular end
            let regular = end == End::Read || done_reading;
            // commands in front of one that ended are left alone after a regular end: not required otherwise
            let stalled_upstream = stall && (done_reading || eventually_finished_regularly(&outer, out));
            if regular && !stalled_upstream {
                if !eventually(|| children().is_empty()) {
                    res.viol("not_reaped", &["C14"], format!("processes {:?} are left after the end", children()));
                }
            } else if !stalled_upstream && !left.is_empty() && !eventually_finished_regularly(&outer, out) {
                res.viol("left_running", &["C14", "C06"], format!("processes {left:?} are left after the stream was cancelled"));
            }
            if !eventually(|| children().is_empty()) && !stalled_upstream && res.viols.is_empty() && !regular {
                res.viol("left_running", &["C14", "C06"], format!("processes {:?} are left", children()));
            }
            let text = trace::captured();
            if end == End::Read
                && !custom_stderr
                && matches!(stages.last(), Some(Stage::Fail(_)))
            {
                // the first one may still be busy if a later one has left
                let heads = stages.iter().rposition(|s| matches!(s, Stage::Head(_))).map_or(0, |i| i + 1);
                for s in &stages[heads..] {
                    if let Stage::Fail(c) = s {
                        res.add("process_diagnostics", 1);
                        if !text.contains(&diag(*c)) {
                            res.viol("diagnostics", &["C14"], format!("nothing is said about what a command of {stages:?} wrote to standard error before it exited with {c}"));
                        }
                    }
                }
            }
            res.add("process_cancelled", u64::from(!regular));
            res.add("process_completed", u64::from(regular));
            if outer.st.lock().writer_dropped {
                tmp_empty(&tmp, &mut res);
            }
        }
    }
    let _ = rt_tx.send(());
    if !res.poisoned
        && let Ok(rt) = rt_thread.join()
    {
        rt.shutdown_timeout(Duration::from_secs(5));
    }
    for (pid, _) in children() {
        unsafe {
            libc::kill(pid, libc::SIGKILL);
        }
    }
    reap();
    for p in crate::panics::take() {
        if crate::panics::own(&p) {
            res.inconclusive = true;
        } else {
            res.viol("panic", &["C14", "C21"], p);
        }
    }
    for p in outer.st.lock().problems.iter().take(2) {
        res.viol("stored_wrong", &["C14", "C01"], p.clone());
    }
    res.fingerprint = fp.0;
    res.nontrivial = true;
    if !res.viols.is_empty() {
        res.log = format!("{}\n{}", res.sample, d.results().iter().map(|r| format!("{r:?}")).collect::<Vec<_>>().join("\n"));
    }
    res
}

/// The download was through before it was cancelled: then commands are only reaped in time.
fn eventually_finished_regularly(outer: &Arc<StoreCtl>, out: u64) -> bool {
    outer.st.lock().bytes_written >= out
}

fn hang(w: Wait, what: &str, res: &mut Res) -> bool {
    match w {
        Wait::Done => false,
        Wait::Timeout => {
            res.inconclusive = true;
            res.poisoned = true;
            true
        }
        w => {
            res.viol("hang", &["C14", "C04"], format!("{what} never returns ({w:?}); children {:?}", children()));
            res.poisoned = true;
            true
        }
    }
}

fn results(d: &drive::Driven, out: u64, end: End, stall: bool, res: &mut Res, fp: &mut Fnv) {
    for (i, r) in d.results().iter().enumerate() {
        fp.bytes(format!("{:?}", r.ret).as_bytes());
        if let Some(b) = r.bad {
            res.viol("wrong_bytes", &["C14", "C01"], format!("operation {i} {:?} at {}: wrong byte at {b}", r.op, r.pos));
        }
        match &r.ret {
            Ret::All(_) if r.after < out || r.after > out => {
                res.viol("premature_end", &["C14", "C02"], format!("operation {i}: end of stream at {} of {out}", r.after));
            }
            Ret::Err(k, m) | Ret::AllErr(_, k, m) if end == End::Read => {
                res.viol("unexpected_error", &["C14"], format!("operation {i} {:?}: {k:?} {m}", r.op));
            }
            Ret::Panic => res.viol("panic", &["C14", "C21"], format!("operation {i} panicked")),
            _ => {}
        }
        res.add("reader_operations", 1);
    }
    let _ = stall;
}

fn reap() {
    // orphans of a runtime that is gone
    for _ in 0..200 {
        if children().is_empty() {
            break;
        }
        unsafe {
            let mut st = 0;
            while libc::waitpid(-1, &mut st, libc::WNOHANG) > 0 {}
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

fn tmp_empty(tmp: &Path, res: &mut Res) {
    if !eventually(|| files_in(tmp).is_empty()) {
        res.viol("temp_files", &["C14", "C17"], format!("temporary files are left: {:?}", files_in(tmp)));
        for f in files_in(tmp) {
            let _ = std::fs::remove_file(tmp.join(f));
        }
    }
}

fn finish(rt: tokio::runtime::Runtime, _threads: u64, tmp: &Path, res: &mut Res) {
    rt.shutdown_timeout(Duration::from_secs(5));
    reap();
    tmp_empty(tmp, res);
    if !res.viols.is_empty() {
        res.log = res.sample.clone();
    }
    for p in crate::panics::take() {
        res.viol("panic", &["C14", "C21"], p);
    }
}

// ---------------------------------------------------------------- command lines

fn word(rng: &mut Rng) -> String {
    (*rng.pick(&[
        "", "-x", "a b", "--long=1", "ä€😀", "'quoted'", "\"q\"", "$HOME", "*", "\\", "-", "-ar", "44100", "new\nline", ";true",
    ]))
    .to_string()
}

/// Runs a command that prints its arguments, and compares.
fn helpers(seed: u64, rng: &mut Rng, dir: &Path) -> Res {
    let mut res = Res::default();
    let tmp = dir.join("tmp");
    let _ = std::fs::create_dir_all(&tmp);
    let script = dir.join("args.sh");
    if !script.exists() {
        std::fs::write(&script, "#!/bin/sh\nfor a in \"$@\"; do printf '%s\\0' \"$a\"; done\n").expect("script");
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).expect("chmod");
    }
    let extra: Vec<String> = (0..rng.below(5)).map(|_| word(rng)).collect();
    let format = (*rng.pick(&["mp3", "adts", "wav", "bestaudio[ext=m4a]/best"])).to_string();
    let url = format!("https://example.invalid/watch?v={}&x=a b", rng.below(1000));
    let extract = rng.chance(1, 2);
    let with_format = rng.chance(1, 2);
    let kind = rng.below(3);
    let rt = runtime(1);
    let g = rt.enter();
    let spawned = match kind {
        0 => {
            let mut c = FfmpegConvertAudioCommand::new(&format).ffmpeg_path(&script);
            c = if rng.chance(1, 2) {
                c.args(extra.clone())
            } else {
                extra.iter().fold(c, |c, a| c.arg(a))
            };
            ProcessStreamParams::new(Command::from(c))
        }
        1 => {
            let mut c = YtDlpCommand::new(&url).yt_dlp_path(&script).extract_audio(extract);
            if with_format {
                c = c.format(&format);
            }
            match rng.below(3) {
                0 => ProcessStreamParams::new(c),
                1 => ProcessStreamParams::new(c.into_command()),
                _ => ProcessStreamParams::new(CommandBuilder::new(c).pipe(Command::new("cat"))),
            }
        }
        _ => {
            let mut c = Command::new(&script);
            let split = rng.below(extra.len() as u64 + 1) as usize;
            // the first part is inserted in front of the rest
            c = c.args(extra[split..].to_vec());
            for (i, a) in extra[..split].iter().enumerate() {
                c = c.insert_arg(i, a);
            }
            let s = c.spawn();
            drop(s);
            let mut c = Command::new(&script);
            c = c.args(extra[split..].to_vec());
            for (i, a) in extra[..split].iter().enumerate() {
                c = c.insert_arg(i, a);
            }
            ProcessStreamParams::new(c)
        }
    };
    drop(g);
    res.sample = format!("seed={seed} command line kind={kind} extra={extra:?} format={format} extract={extract} with_format={with_format}");
    res.nontrivial = true;
    let mut fp = Fnv::default();
    fp.bytes(format!("{kind} {extra:?} {format} {extract} {with_format}").as_bytes());
    res.fingerprint = fp.0;
    res.add("process_command_lines", 1);
    let params = match spawned {
        Ok(p) => p,
        Err(e) => {
            res.viol("spawn", &["C14"], format!("spawning failed: {e}"));
            return res;
        }
    };
    let sd = rt
        .block_on(async {
            StreamDownload::new_process(
                params,
                stream_download::storage::memory::MemoryStorageProvider,
                Settings::default().prefetch_bytes(0).retry_timeout(FOREVER),
            )
            .await
        })
        .map_err(|e| e.to_string());
    let t = std::thread::spawn(move || {
        use std::io::Read;
        let mut v = vec![];
        let mut sd = sd?;
        sd.read_to_end(&mut v).map_err(|e| e.to_string())?;
        Ok::<_, String>(v)
    });
    let w = wait_done(|| t.is_finished(), Duration::from_secs(25));
    if hang(w, "reading the arguments", &mut res) {
        return res;
    }
    let got = match t.join().expect("reader") {
        Ok(v) => v,
        Err(e) => {
            res.viol("unexpected_error", &["C14"], e);
            return res;
        }
    };
    let got: Vec<String> = got.split(|b| *b == 0).map(|s| String::from_utf8_lossy(s).to_string()).collect();
    let got = &got[..got.len() - 1];
    let pair = |a: &str, b: &str| got.windows(2).any(|w| w[0] == a && w[1] == b);
    let count = |a: &str| got.iter().filter(|x| *x == a).count();
    let ok = match kind {
        0 => {
            // the user's options go before the output, after the input
            let n = got.len();
            got.last().map(String::as_str) == Some("-")
                && n > extra.len()
                && got[n - 1 - extra.len()..n - 1] == extra[..]
                && got[..n - 1 - extra.len()].windows(2).any(|w| w[0] == "-i" && w[1] == "pipe:")
                && pair("-f", &format)
                && pair("-map", "a")
        }
        1 => {
            count(&url) == 1
                && pair("-o", "-")
                && (count("-x") == 1) == extract
                && pair("-f", &format) == with_format
                && (count("-f") == 1) == with_format
                && count("--no-part") == 1
                && count("--no-continue") == 1
        }
        _ => got == extra,
    };
    if !ok {
        res.viol("arguments", &["C14"], format!("wrong arguments {got:?}"));
    }
    finish(rt, 1, &tmp, &mut res);
    res
}
