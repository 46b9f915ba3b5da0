//! Small pipelines for Miri: every execution draws a plan from Miri's seed, runs it under Miri's
//! random scheduler with weak memory emulation and checks data, liveness and termination.
//!
//! Time is virtual under Miri and only jumps when every thread is blocked. The retry timeout is
//! days long, so a call to `reconnect` means that nothing could make progress: a hang.

use std::collections::hash_map::RandomState;
use std::hash::{BuildHasher, Hasher};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex, OnceLock, mpsc};
use std::task::{Context, Poll, Waker};
use std::thread;
use std::time::Duration;

use bytes::Bytes;
use futures_util::Stream;
use stream_download::source::{DecodeError, SourceStream, StreamOutcome};
use stream_download::storage::StorageProvider;
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::{Settings, StreamDownload, StreamHandle};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b + 1 - a)
    }
}

fn byte(p: u64) -> u8 {
    (p as u8).wrapping_mul(37) ^ 0x5A
}

/// The library's own events are where threads are held up. Sleeping takes no real time.
struct Perturb {
    state: AtomicU64,
    every: u64,
}
static PAUSES: AtomicUsize = AtomicUsize::new(0);

impl Perturb {
    fn point(&self) {
        if self.every == 0 {
            return;
        }
        let x = Rng(self.state.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed)).next();
        if x % self.every == 0 {
            PAUSES.fetch_add(1, Relaxed);
            match (x >> 20) % 4 {
                0 => thread::yield_now(),
                // a few dozen to a few thousand steps of the other threads
                1 => thread::sleep(Duration::from_micros(200 + (x >> 32) % 800)),
                2 => thread::sleep(Duration::from_micros((x >> 32) % 20_000)),
                _ => {
                    for _ in 0..(x >> 32) % 8 {
                        thread::yield_now();
                    }
                }
            }
        }
    }
}

impl tracing_core::Subscriber for Perturb {
    fn enabled(&self, _: &tracing_core::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing_core::span::Attributes<'_>) -> tracing_core::span::Id {
        tracing_core::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing_core::span::Id, _: &tracing_core::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing_core::span::Id, _: &tracing_core::span::Id) {}
    fn event(&self, e: &tracing_core::Event<'_>) {
        if e.metadata().target().starts_with("stream_download") {
            self.point();
        }
    }
    fn enter(&self, _: &tracing_core::span::Id) {}
    fn exit(&self, _: &tracing_core::span::Id) {}
}

static PERTURB: OnceLock<tracing_core::Dispatch> = OnceLock::new();
fn perturb() {
    if let Some(p) = PERTURB.get().and_then(|d| d.downcast_ref::<Perturb>()) {
        p.point();
    }
}

static FAILED: AtomicUsize = AtomicUsize::new(0);
fn bad(props: &str, what: String) {
    FAILED.fetch_add(1, Relaxed);
    println!("VM-VIOLATION [{props}] {what}");
}

// ---------------------------------------------------------------- source

#[derive(Default)]
struct St {
    pos: u64,
    end: Option<u64>,
    cov: Vec<bool>,
    since_seek: u64,
    eof_since_seek: bool,
    need: Option<(u64, u64)>,
    open: bool,
    waker: Option<Waker>,
    finished: usize,
    outcome: Option<StreamOutcome>,
    dropped: bool,
    late: usize,
    reconnects: usize,
    seeks: usize,
    chunks: usize,
    panic_at: Option<u64>,
}

#[derive(Clone, Copy, Debug)]
struct Cfg {
    total: u64,
    known: bool,
    seekable: bool,
    chunk: u64,
    prefetch: u64,
    batch: usize,
    /// 0 memory, 1 bounded, 2 adaptive
    storage: u64,
    cap: u64,
    multi: u64,
    gated: bool,
    cancel: bool,
    panics: bool,
}

type Shared = Arc<(Cfg, Mutex<St>)>;

fn satisfiable(cfg: &Cfg, s: &St) -> bool {
    let Some((from, to)) = s.need else {
        return true;
    };
    if cfg.prefetch > 0 && s.since_seek < cfg.prefetch && !s.eof_since_seek {
        return false;
    }
    if s.finished > 0 {
        return true;
    }
    if from >= cfg.total || to > cfg.total {
        return false;
    }
    (from..to).all(|p| s.cov[p as usize])
}

struct Src(Shared);

#[derive(Debug)]
struct NoErr;
impl std::fmt::Display for NoErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("none")
    }
}
impl std::error::Error for NoErr {}
impl DecodeError for NoErr {}

impl Stream for Src {
    type Item = Result<Bytes, NoErr>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        perturb();
        let cfg = self.0.0;
        let mut s = self.0.1.lock().unwrap();
        if s.finished > 0 {
            s.late += 1;
        }
        if cfg.gated && !s.open && satisfiable(&cfg, &s) {
            s.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if s.panic_at.is_some_and(|p| s.pos >= p) {
            drop(s);
            panic!("VM-INJECTED");
        }
        let end = s.end.unwrap_or(cfg.total).min(cfg.total);
        if s.pos >= end {
            s.eof_since_seek = true;
            return Poll::Ready(None);
        }
        let n = cfg.chunk.min(end - s.pos);
        let data: Vec<u8> = (s.pos..s.pos + n).map(byte).collect();
        for p in s.pos..s.pos + n {
            s.cov[p as usize] = true;
        }
        s.pos += n;
        s.since_seek += n;
        s.chunks += 1;
        Poll::Ready(Some(Ok(Bytes::from(data))))
    }
}

impl SourceStream for Src {
    type Params = ();
    type StreamCreationError = NoErr;
    async fn create(_: ()) -> Result<Self, NoErr> {
        Err(NoErr)
    }
    fn content_length(&self) -> Option<u64> {
        self.0.0.known.then_some(self.0.0.total)
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        perturb();
        tokio::task::yield_now().await;
        let mut s = self.0.1.lock().unwrap();
        s.seeks += 1;
        if s.finished > 0 {
            s.late += 1;
        }
        if start > self.0.0.total || end.is_some_and(|e| e < start || e > self.0.0.total) {
            bad("C10", format!("request {start}..{end:?}"));
        }
        s.pos = start;
        s.end = end;
        s.since_seek = 0;
        s.eof_since_seek = false;
        if self.0.0.storage != 0 {
            // what was kept is not known
            for p in start..end.unwrap_or(self.0.0.total) {
                s.cov[p as usize] = false;
            }
        }
        Ok(())
    }
    async fn reconnect(&mut self, _: u64) -> io::Result<()> {
        let mut s = self.0.1.lock().unwrap();
        s.reconnects += 1;
        s.open = true;
        if let Some(w) = s.waker.take() {
            w.wake();
        }
        Ok(())
    }
    fn supports_seek(&self) -> bool {
        self.0.0.seekable
    }
    async fn on_finish(&mut self, r: io::Result<()>, o: StreamOutcome) -> io::Result<()> {
        let mut s = self.0.1.lock().unwrap();
        s.finished += 1;
        s.outcome = Some(o);
        r
    }
}

impl Drop for Src {
    fn drop(&mut self) {
        self.0.1.lock().unwrap().dropped = true;
    }
}

fn need(sh: &Shared, n: Option<(u64, u64)>) {
    let mut s = sh.1.lock().unwrap();
    s.need = n;
    if let Some(w) = s.waker.take() {
        w.wake();
    }
}

fn open(sh: &Shared) {
    let mut s = sh.1.lock().unwrap();
    s.open = true;
    if let Some(w) = s.waker.take() {
        w.wake();
    }
}

fn stuck(sh: &Shared) -> bool {
    sh.1.lock().unwrap().reconnects > 0
}

// ---------------------------------------------------------------- storage

struct Slow<P>(P);
impl<P: StorageProvider> StorageProvider for Slow<P> {
    type Reader = Slow<P::Reader>;
    type Writer = Slow<P::Writer>;
    fn into_reader_writer(self, l: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        let (r, w) = self.0.into_reader_writer(l)?;
        Ok((Slow(r), Slow(w)))
    }
    fn max_capacity(&self) -> Option<usize> {
        self.0.max_capacity()
    }
    fn max_capacity_for(&self, l: Option<u64>) -> Option<usize> {
        self.0.max_capacity_for(l)
    }
}
impl<T: Read> Read for Slow<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let r = self.0.read(b);
        perturb();
        r
    }
}
impl<T: Write> Write for Slow<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let r = self.0.write(b);
        perturb();
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let r = self.0.flush();
        perturb();
        r
    }
}
impl<T: Seek> Seek for Slow<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let r = self.0.seek(p);
        perturb();
        r
    }
}

// ---------------------------------------------------------------- pipeline

fn pipeline(rng: &mut Rng) {
    let total = if rng.below(8) == 0 { rng.below(4) } else { rng.range(6, 30) };
    let storage = rng.below(4).saturating_sub(1);
    let cap = rng.range(2, 10);
    let cfg = Cfg {
        total,
        known: rng.below(3) > 0,
        seekable: rng.below(4) > 0,
        chunk: rng.range(1, 9),
        prefetch: if rng.below(2) == 0 { 0 } else { rng.range(1, 6) },
        batch: rng.range(1, 6) as usize,
        storage,
        cap,
        multi: if rng.below(4) == 0 { 1 } else { 0 },
        gated: rng.below(4) > 0,
        cancel: rng.below(8) == 0,
        panics: rng.below(16) == 0,
    };
    let cfg = Cfg { prefetch: if storage > 0 { cfg.prefetch.min(cap) } else { cfg.prefetch }, ..cfg };
    let sh: Shared = Arc::new((
        cfg,
        Mutex::new(St {
            cov: vec![false; total as usize],
            panic_at: cfg.panics.then(|| rng.below(total + 1)),
            ..St::default()
        }),
    ));
    println!("VM-PLAN {cfg:?}");
    match storage {
        0 => drive(MemoryStorageProvider, None, &sh, rng),
        1 => drive(
            BoundedStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(cap as usize).unwrap()),
            Some(cap),
            &sh,
            rng,
        ),
        _ => drive(
            AdaptiveStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(cap as usize).unwrap()),
            (!cfg.known).then_some(cap),
            &sh,
            rng,
        ),
    }
}

type RtThread = (tokio::runtime::Handle, mpsc::Sender<()>, thread::JoinHandle<()>);

fn start_rt(multi: u64) -> RtThread {
    let (tx, rx) = mpsc::channel::<()>();
    let (htx, hrx) = mpsc::channel();
    let t = thread::spawn(move || {
        let rt = if multi == 0 {
            tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
        } else {
            tokio::runtime::Builder::new_multi_thread().worker_threads(multi as usize).enable_time().build().unwrap()
        };
        htx.send(rt.handle().clone()).unwrap();
        if multi == 0 {
            let n = Arc::new(tokio::sync::Notify::new());
            let n2 = n.clone();
            // the channel wakes the runtime up from a thread of its own
            let t = thread::spawn(move || {
                let _ = rx.recv();
                n2.notify_one();
            });
            rt.block_on(n.notified());
            t.join().unwrap();
        } else {
            let _ = rx.recv();
        }
        rt.shutdown_timeout(Duration::from_secs(1));
    });
    (hrx.recv().unwrap(), tx, t)
}

fn drive<P: StorageProvider + 'static>(p: P, cap: Option<u64>, sh: &Shared, rng: &mut Rng)
where
    P::Reader: 'static,
    P::Writer: 'static,
{
    let cfg = sh.0;
    let rt = start_rt(cfg.multi);
    let settings = Settings::default()
        .prefetch_bytes(cfg.prefetch)
        .batch_write_size(NonZeroUsize::new(cfg.batch).unwrap())
        .on_progress(|_: &Src, _, _| perturb())
        .retry_timeout(Duration::from_secs(1_000_000));
    let (tx, rx) = mpsc::channel();
    let src = Src(sh.clone());
    rt.0.spawn(async move {
        let _ = tx.send(StreamDownload::from_stream(src, Slow(p), settings).await);
    });
    let Ok(Ok(mut sd)) = rx.recv() else {
        bad("C22,C21", "creation failed".into());
        return;
    };
    let handle: StreamHandle = sd.handle();
    let token = sd.cancellation_token();
    let (dtx, drx) = mpsc::channel();
    rt.0.spawn(async move {
        handle.wait_for_completion().await;
        let _ = dtx.send(());
    });
    let canceller = cfg.cancel.then(|| {
        let n = rng.below(40);
        let token = token.clone();
        thread::spawn(move || {
            for _ in 0..n {
                thread::yield_now();
            }
            token.cancel();
        })
    });
    let loose = cfg.cancel || cfg.panics;
    let mut pos = 0u64;
    let mut ops = 0;
    for _ in 0..if rng.below(8) == 0 { 0 } else { rng.range(2, 7) } {
        if stuck(sh) {
            break;
        }
        ops += 1;
        let kind = if rng.below(4) == 0 { 0 } else { 1 };
        let known_end = cfg.known.then_some(cfg.total);
        if kind == 0 {
            let t = match rng.below(3) {
                0 if cfg.known => SeekFrom::End(-(rng.below(cfg.total + 1) as i64)),
                1 => SeekFrom::Current(rng.below(5) as i64 - 2),
                _ => SeekFrom::Start(rng.below(cfg.total.max(1))),
            };
            let want = match t {
                SeekFrom::Start(x) => x as i64,
                SeekFrom::Current(d) => pos as i64 + d,
                SeekFrom::End(d) => cfg.total as i64 + d,
            };
            if want < 0 || want as u64 >= cfg.total {
                continue;
            }
            let want = want as u64;
            if cap.is_some_and(|c| want > pos + c || want < pos) || (!cfg.seekable && want < pos) {
                // what happens depends on what has been kept
                continue;
            }
            need(sh, Some((want, want + 1)));
            let r = catch_unwind(AssertUnwindSafe(|| sd.seek(t)));
            match r {
                Ok(Ok(p)) => {
                    if p != want {
                        bad("C03", format!("{t:?} at {pos} returned {p}"));
                    }
                    pos = p;
                }
                Ok(Err(_)) if loose => break,
                Ok(Err(e)) => {
                    bad("C03,C05", format!("{t:?} at {pos}: {e}"));
                    break;
                }
                Err(_) => {
                    bad("C21", format!("{t:?} at {pos} panicked"));
                    break;
                }
            }
        } else {
            let mut n = rng.range(1, 10);
            if let Some(c) = cap {
                n = n.min(c);
            }
            let to = pos + n;
            need(sh, Some((pos, known_end.map_or(to, |e| e.min(to)))));
            let mut buf = vec![0u8; n as usize];
            let r = catch_unwind(AssertUnwindSafe(|| sd.read(&mut buf)));
            match r {
                Ok(Ok(k)) => {
                    let want = n.min(cfg.total.saturating_sub(pos));
                    for (i, b) in buf[..k].iter().enumerate() {
                        let p = pos + i as u64;
                        if p >= cfg.total || *b != byte(p) {
                            bad("C01", format!("read of {n} at {pos}: wrong byte at {p}"));
                            break;
                        }
                    }
                    if k as u64 > want || (!loose && (k as u64) < want) {
                        bad("C02", format!("read of {n} at {pos} returned {k} of {want}"));
                    }
                    pos += k as u64;
                }
                Ok(Err(_)) if loose => break,
                Ok(Err(e)) => {
                    bad("C05", format!("read of {n} at {pos}: {e}"));
                    break;
                }
                Err(_) => {
                    bad("C21", format!("read of {n} at {pos} panicked"));
                    break;
                }
            }
        }
        if stuck(sh) {
            bad("C04,C21", format!("operation {ops} (kind {kind}, now at {pos}) was stuck: everything it needs had been delivered"));
        }
    }
    need(sh, None);
    let finish = rng.below(4);
    let was_stuck = stuck(sh);
    match finish {
        0 => {}
        1 => token.cancel(),
        _ => {
            open(sh);
            // everything until the end
            let mut buf = vec![0u8; cap.map_or(7, |c| c.min(7)) as usize];
            loop {
                match catch_unwind(AssertUnwindSafe(|| sd.read(&mut buf))) {
                    Ok(Ok(0)) => {
                        if !loose && pos < cfg.total {
                            bad("C02", format!("end of stream at {pos} of {}", cfg.total));
                        }
                        break;
                    }
                    Ok(Ok(k)) => {
                        for (i, b) in buf[..k].iter().enumerate() {
                            let p = pos + i as u64;
                            if p >= cfg.total || *b != byte(p) {
                                bad("C01", format!("reading to the end: wrong byte at {p}"));
                                break;
                            }
                        }
                        pos += k as u64;
                    }
                    Ok(Err(_)) if loose => break,
                    Ok(Err(e)) => {
                        bad("C05", format!("reading to the end at {pos}: {e}"));
                        break;
                    }
                    Err(_) => {
                        bad("C21", format!("reading to the end at {pos} panicked"));
                        break;
                    }
                }
            }
            if !was_stuck && stuck(sh) {
                bad("C04,C21", format!("reading to the end was stuck at {pos}"));
            }
        }
    }
    drop(sd);
    let _ = drx.recv();
    if let Some(t) = canceller {
        t.join().unwrap();
    }
    {
        let s = sh.1.lock().unwrap();
        if !was_stuck && finish < 2 && s.reconnects > 0 {
            bad("C06,C04", "the download did not stop after the reader was dropped".into());
        }
        if s.late > 0 || s.finished > 1 || (s.finished != 1 && !cfg.panics) {
            bad("C06", format!("{} finish calls, {} calls after the first", s.finished, s.late));
        }
        if !s.dropped {
            bad("C06", "completion was reported before the source was dropped".into());
        }
        println!(
            "VM-STATS pipelines=1 operations={ops} chunks={} range_requests={} gated={} multi_thread={} cancelled={} source_panics={} bounded={} pauses={}",
            s.chunks,
            s.seeks,
            u64::from(cfg.gated),
            cfg.multi,
            u64::from(cfg.cancel || finish == 1),
            u64::from(s.finished == 0),
            u64::from(cap.is_some()),
            PAUSES.load(Relaxed)
        );
    }
    drop(rt.1);
    rt.2.join().unwrap();
}

// ---------------------------------------------------------------- storages

fn storages(rng: &mut Rng) {
    let total = rng.range(1, 30);
    let cap = rng.range(1, 8);
    let kind = rng.below(3);
    println!("VM-PLAN storage {kind} total={total} cap={cap}");
    match kind {
        0 => pair(MemoryStorageProvider, if rng.below(2) == 0 { None } else { Some(total) }, total, 9, rng),
        1 => pair(BoundedStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(cap as usize).unwrap()), None, total, cap, rng),
        _ if total > cap => pair(AdaptiveStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(cap as usize).unwrap()), Some(total), total, 9, rng),
        _ => pair(AdaptiveStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(cap as usize).unwrap()), None, total, cap, rng),
    }
}

/// A writer and a reader without any other synchronisation: what is read is what was written, in
/// order, and all of it arrives.
fn pair<P: StorageProvider>(p: P, len: Option<u64>, total: u64, max: u64, rng: &mut Rng)
where
    P::Reader: 'static,
    P::Writer: 'static,
{
    let Ok((mut r, mut w)) = p.into_reader_writer(len) else {
        bad("C08", "no storage".into());
        return;
    };
    let batch = rng.range(1, 7) as usize;
    let size = rng.range(1, 7).min(max) as usize;
    let t = thread::spawn(move || {
        let mut pos = 0u64;
        let mut zero = 0;
        while pos < total && FAILED.load(Relaxed) == 0 {
            let data: Vec<u8> = (pos..total).take(batch).map(byte).collect();
            match w.write(&data) {
                Ok(0) => {
                    zero += 1;
                    thread::yield_now();
                }
                Ok(n) if n <= data.len() => pos += n as u64,
                r => {
                    bad("C08", format!("write of {} at {pos}: {r:?}", data.len()));
                    return zero;
                }
            }
        }
        zero
    });
    let mut pos = 0u64;
    let mut empty = 0;
    while pos < total && FAILED.load(Relaxed) == 0 {
        let mut buf = vec![0; size];
        match r.read(&mut buf) {
            Ok(0) => {
                empty += 1;
                thread::yield_now();
            }
            Ok(n) => {
                for b in &buf[..n] {
                    if pos >= total || *b != byte(pos) {
                        bad("C08,C21", format!("wrong byte at {pos}"));
                        break;
                    }
                    pos += 1;
                }
            }
            Err(e) => bad("C08", format!("read at {pos}: {e}")),
        }
        if rng.below(8) == 0 && pos > 0 && r.seek(SeekFrom::Start(pos)).ok() != Some(pos) {
            bad("C08", format!("seek to {pos}"));
        }
    }
    let full = t.join().unwrap_or(0);
    println!("VM-STATS storages=1 bytes={total} storage_full={full} storage_empty={empty}");
}

fn main() {
    if std::env::var_os("VM_NOTHING").is_some() {
        return;
    }
    let seed = RandomState::new().build_hasher().finish();
    let mut rng = Rng(seed);
    // injected panics are expected, others are not
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if !s.contains("VM-INJECTED") {
            bad("C21", format!("panic: {}", s.replace('\n', " ")));
        }
    }));
    let every = [0, 2, 5, 12][rng.below(4) as usize];
    if every > 0 {
        let d = tracing_core::Dispatch::new(Perturb { state: AtomicU64::new(seed), every });
        let _ = PERTURB.set(d.clone());
        let _ = tracing_core::dispatcher::set_global_default(d);
    }
    if rng.below(10) == 0 {
        storages(&mut rng);
    } else {
        pipeline(&mut rng);
    }
    if FAILED.load(Relaxed) > 0 {
        std::process::exit(1);
    }
}
