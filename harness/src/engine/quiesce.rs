//! Deadlock verdicts without deadlines. An operation that does not return is a hang only when the
//! whole process is quiescent: every thread but the watcher sleeps, none was scheduled over a run
//! of samples, and no event was recorded. Retry timeouts are either short (they would fire and be
//! seen) or hours long, so quiescent means that nothing will ever wake the operation up.

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// Bumped by every source poll, storage call and tracing event.
pub static TICKS: AtomicU64 = AtomicU64::new(0);

pub fn tick() {
    TICKS.fetch_add(1, SeqCst);
}

fn self_tid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

/// Threads that exist before the harness starts any belong to the sanitizer.
static FOREIGN: std::sync::OnceLock<Vec<i32>> = std::sync::OnceLock::new();

fn tasks() -> Vec<(i32, std::path::PathBuf)> {
    let Ok(dir) = std::fs::read_dir("/proc/self/task") else {
        return vec![];
    };
    dir.flatten()
        .map(|e| (e.file_name().to_string_lossy().parse().unwrap_or(0), e.path()))
        .collect()
}

/// To be called before any thread is started.
pub fn init() {
    let me = self_tid();
    // a sanitizer may wait for the first thread before it starts its own
    let _ = std::thread::spawn(|| {}).join();
    std::thread::sleep(Duration::from_millis(2));
    let _ = FOREIGN.set(tasks().into_iter().map(|t| t.0).filter(|t| *t != me).collect());
}

static CHILDREN: AtomicBool = AtomicBool::new(false);

/// Child processes count as part of this process from now on.
pub fn watch_children(on: bool) {
    CHILDREN.store(on, SeqCst);
}

/// (all other threads asleep, sum of their context switches)
fn sample(me: i32) -> (bool, u64) {
    let mut asleep = true;
    let mut sum = 0u64;
    let foreign = FOREIGN.get().map_or(&[][..], Vec::as_slice);
    for (tid, path) in tasks() {
        if tid == me || foreign.contains(&tid) {
            continue;
        }
        let Ok(s) = std::fs::read_to_string(path.join("status")) else {
            asleep = false;
            continue;
        };
        sum += tid as u64;
        for l in s.lines() {
            if let Some(st) = l.strip_prefix("State:") {
                if !st.trim().starts_with('S') {
                    asleep = false;
                }
            } else if let Some(v) = l
                .strip_prefix("voluntary_ctxt_switches:")
                .or_else(|| l.strip_prefix("nonvoluntary_ctxt_switches:"))
            {
                sum += v.trim().parse::<u64>().unwrap_or(0);
            }
        }
    }
    if CHILDREN.load(SeqCst) {
        for (pid, _) in crate::process::children() {
            let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/status")) else {
                continue;
            };
            sum += pid as u64;
            for l in s.lines() {
                if let Some(st) = l.strip_prefix("State:") {
                    if !st.trim().starts_with(['S', 'Z']) {
                        asleep = false;
                    }
                } else if let Some((_, v)) = l.split_once("voluntary_ctxt_switches:") {
                    sum += v.trim().parse::<u64>().unwrap_or(0);
                }
            }
        }
    }
    (asleep, sum)
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Wait {
    Done,
    /// nothing in the process can make progress any more
    Quiescent,
    /// the process kept working all the time without getting there
    Busy,
    /// not there when the wall clock limit ran out, without having had much processor time
    Timeout,
}

/// Processor time of this process.
pub fn cpu() -> Duration {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
    }
    Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
}

/// Waits until `done` reports true. Calls `done` from this thread only.
pub fn wait_done(mut done: impl FnMut() -> bool, limit: Duration) -> Wait {
    const SAMPLES: u32 = 40;
    let me = self_tid();
    let start = Instant::now();
    let cpu0 = cpu();
    let ticks0 = TICKS.load(SeqCst);
    let mut spin = 0u32;
    let mut last = (u64::MAX, u64::MAX);
    let mut stable = 0;
    loop {
        if done() {
            return Wait::Done;
        }
        if start.elapsed() > limit {
            let busy = cpu().saturating_sub(cpu0) > Duration::from_secs(6) || TICKS.load(SeqCst) - ticks0 > 20_000;
            return if busy { Wait::Busy } else { Wait::Timeout };
        }
        spin += 1;
        if spin < 200 {
            std::thread::sleep(Duration::from_micros(50));
            continue;
        }
        std::thread::sleep(Duration::from_millis(if spin < 260 { 1 } else { 25 }));
        if spin < 260 {
            continue;
        }
        let (asleep, sum) = sample(me);
        let now = (sum, TICKS.load(SeqCst));
        if asleep && now == last {
            stable += 1;
            if stable >= SAMPLES {
                return if done() { Wait::Done } else { Wait::Quiescent };
            }
        } else {
            stable = 0;
        }
        last = now;
    }
}
