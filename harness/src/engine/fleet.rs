//! Several streams at once on one runtime: temporary files (C17), independence (C20) and creation
//! (C22).

use std::collections::BTreeSet;
use std::io::{self, Read, SeekFrom};
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::Bytes;
use futures_util::Stream;
use parking_lot::Mutex;
use stream_download::source::{DecodeError, SourceStream, StreamOutcome};
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::{TempStorageProvider, tempfile};
use stream_download::storage::{StorageProvider, StorageReader, StorageWriter};
use stream_download::{Settings, StreamDownload, StreamHandle, StreamInitializationError};
use tokio_util::sync::CancellationToken;

use crate::drive::{self, Content, Driven};
use crate::pipe::{FOREVER, Op, Ret};
use crate::quiesce::{Wait, tick, wait_done};
use crate::report::{Fnv, Res};
use crate::rng::Rng;
use crate::source::{Chunking, Ev, Fault, FaultKind, ScriptErr, ScriptedSource, SrcCfg, SrcCtl, source};
use crate::storage::{DynProvider, MonProvider, StoreCfg, StoreCtl};
use crate::trace;

const LIMIT: Duration = Duration::from_secs(25);

pub fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n.max(1)).expect("nonzero")
}

fn runtime(threads: u64) -> tokio::runtime::Runtime {
    if threads == 0 {
        tokio::runtime::Builder::new_current_thread().enable_all().build()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(threads as usize).enable_all().build()
    }
    .expect("runtime")
}

/// Runs a runtime in a thread until told to stop.
pub struct Rt {
    handle: tokio::runtime::Handle,
    stop: Option<tokio::sync::oneshot::Sender<()>>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Rt {
    pub fn start(threads: u64) -> Self {
        let rt = runtime(threads);
        let handle = rt.handle().clone();
        let (stop, rx) = tokio::sync::oneshot::channel();
        let thread = std::thread::spawn(move || {
            let _ = rt.block_on(rx);
            rt.shutdown_timeout(Duration::from_secs(5));
            tick();
        });
        Self { handle, stop: Some(stop), thread: Some(thread) }
    }
    /// Runs a future on the runtime and waits for it.
    pub fn run<T: Send + 'static>(&self, f: impl Future<Output = T> + Send + 'static) -> Option<T> {
        let slot: Arc<Mutex<Option<T>>> = Arc::default();
        let s2 = slot.clone();
        self.handle.spawn(async move {
            let v = f.await;
            *s2.lock() = Some(v);
            tick();
        });
        wait_done(|| slot.lock().is_some(), LIMIT);
        slot.lock().take()
    }
    pub fn stop(&mut self) {
        if let Some(s) = self.stop.take() {
            let _ = s.send(());
        }
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

fn reader_ops(rng: &mut Rng, total: u64, known: bool, cap: Option<usize>) -> Vec<Op> {
    let mut ops = vec![];
    for _ in 0..rng.below(6) {
        if cap.is_none() && total > 0 && rng.chance(1, 2) {
            ops.push(Op::Seek(match rng.below(3) {
                0 if known => SeekFrom::End(-(rng.below(total + 1) as i64)),
                _ => SeekFrom::Start(rng.below(total)),
            }));
        } else {
            let n = rng.range(1, total / 3 + 2) as usize;
            ops.push(Op::Read(cap.map_or(n, |c| n.min(c))));
        }
        if rng.chance(1, 6) {
            ops.push(Op::Nap(rng.range(10, 2_000)));
        }
    }
    ops
}

fn to_end(rng: &mut Rng, cap: Option<usize>, ops: &mut Vec<Op>) {
    let n = rng.range(1, 20_000) as usize;
    let n = cap.map_or(n, |c| n.min(c));
    ops.push(Op::ToEnd(n));
    if cap.is_none() {
        ops.push(Op::Seek(SeekFrom::Start(0)));
        ops.push(Op::ToEnd(n));
    }
}

/// Nothing may go wrong in a stream that nobody interferes with.
fn judge_sound(who: &str, results: &[drive::Done], total: u64, prop: &'static str, res: &mut Res) {
    for (i, d) in results.iter().enumerate() {
        if let Some(b) = d.bad {
            res.viol("wrong_bytes", &[prop, "C01"], format!("{who} operation {i} {:?} at {}: wrong byte at {b}", d.op, d.pos));
        }
        match &d.ret {
            Ret::Panic => res.viol("panic", &[prop, "C21"], format!("{who} operation {i} {:?} panicked", d.op)),
            Ret::Err(k, m) | Ret::AllErr(_, k, m) => {
                res.viol("unexpected_error", &[prop], format!("{who} operation {i} {:?} at {}: {k:?} {m}", d.op, d.pos));
            }
            Ret::All(_) if d.after != total => {
                res.viol("premature_end", &[prop, "C02"], format!("{who} operation {i}: end of stream at {} of {total}", d.after));
            }
            Ret::Read(k) => {
                let Op::Read(n) = d.op else { continue };
                let want = (n as u64).min(total.saturating_sub(d.pos));
                if (*k as u64) != want {
                    res.viol("short_read", &[prop, "C02"], format!("{who} operation {i}: read of {n} at {} returned {k} of {want}", d.pos));
                }
            }
            Ret::Pos(p) => {
                let Op::Seek(s) = d.op else { continue };
                let want = match s {
                    SeekFrom::Start(x) => x,
                    SeekFrom::End(x) => total.saturating_add_signed(x),
                    SeekFrom::Current(x) => d.pos.saturating_add_signed(x),
                };
                if *p != want {
                    res.viol("seek", &[prop, "C03"], format!("{who} operation {i}: seek to {want} returned {p}"));
                }
            }
            _ => {}
        }
        res.add("reader_operations", 1);
    }
}

fn bytes_only(who: &str, results: &[drive::Done], prop: &'static str, res: &mut Res) {
    for (i, d) in results.iter().enumerate() {
        if let Some(b) = d.bad {
            res.viol("wrong_bytes", &[prop, "C01"], format!("{who} operation {i} {:?} at {}: wrong byte at {b}", d.op, d.pos));
        }
        if matches!(d.ret, Ret::Panic) {
            res.viol("panic", &[prop, "C21"], format!("{who} operation {i} {:?} panicked", d.op));
        }
    }
}

fn no_panics(prop: &'static str, res: &mut Res) {
    for p in crate::panics::take() {
        if crate::panics::own(&p) {
            res.inconclusive = true;
        } else {
            res.viol("panic", &[prop, "C21"], p);
        }
    }
}

fn hang(w: Wait, what: String, prop: &'static str, res: &mut Res) -> bool {
    match w {
        Wait::Done => return false,
        Wait::Timeout => res.inconclusive = true,
        w => res.viol("hang", &[prop, "C04"], format!("{what} ({w:?})")),
    }
    res.poisoned = true;
    true
}

fn some_source(seed: u64, rng: &mut Rng, max: u64) -> SrcCfg {
    let total = match rng.below(6) {
        0 => rng.below(4),
        1..=3 => rng.range(1, 5_000),
        _ => rng.range(1_000, max.max(1_001)),
    };
    let mut c = SrcCfg::simple(seed, total);
    c.declared = (!rng.chance(1, 4)).then_some(total);
    c.seekable = rng.chance(3, 4);
    c.chunking = match rng.below(3) {
        0 => Chunking::Fixed(rng.range(1.max(total / 2_000), 9_000)),
        1 => Chunking::Rand(1.max(total / 2_000), rng.range(2, 9_000)),
        _ => Chunking::Fixed(1_000),
    };
    c.pending = rng.below(8);
    c
}

fn finish_events(ctl: &SrcCtl) -> Vec<(bool, Option<io::ErrorKind>, StreamOutcome)> {
    ctl.log()
        .iter()
        .filter_map(|e| match e {
            Ev::Finish { ok, kind, outcome } => Some((*ok, *kind, *outcome)),
            _ => None,
        })
        .collect()
}

fn watch(handle: StreamHandle, rt: &tokio::runtime::Handle) -> Arc<AtomicBool> {
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    rt.spawn(async move {
        handle.wait_for_completion().await;
        d2.store(true, SeqCst);
        tick();
    });
    done
}

// ================================================================ C17

#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    Default,
    In,
    Prefix,
    PrefixIn,
    Builder,
    /// a directory that does not exist, or is none
    Missing,
    NotADir,
    BuilderFails,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Around {
    Plain,
    Bounded(usize),
    Adaptive(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
    /// reads everything, then drops
    Complete,
    /// dropped after a few operations
    Drop,
    /// dropped, the download goes on
    DropKeep,
    Token(u64),
    SourceFails,
    SourcePanics,
    WritePanics,
    WriteFails,
    ReaderPanics,
    /// creation of the source fails: there is never a file
    NoSource,
    /// the future that creates the stream is dropped on the way
    Abandoned,
}

fn list(dir: &Path) -> BTreeSet<String> {
    std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect())
        .unwrap_or_default()
}

fn open_files(dirs: &[&Path]) -> Vec<String> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        for e in d.flatten() {
            if let Ok(t) = std::fs::read_link(e.path())
                && dirs.iter().any(|d| t.starts_with(d))
            {
                v.push(t.display().to_string());
            }
        }
    }
    v
}

/// A source whose creation can be scripted.
struct Late {
    inner: ScriptedSource,
}

struct LateParams {
    inner: Option<ScriptedSource>,
    naps: u64,
    /// never gets anywhere
    forever: bool,
    fail: bool,
    created: Arc<AtomicU64>,
}

#[derive(Debug, thiserror::Error)]
#[error("VH scripted creation error")]
struct LateErr {
    #[source]
    cause: ScriptErr,
}
impl DecodeError for LateErr {
    async fn decode_error(self) -> String {
        tokio::task::yield_now().await;
        format!("decoded {}", self.cause)
    }
}

impl Stream for Late {
    type Item = Result<Bytes, ScriptErr>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Pin::new(&mut self.inner).poll_next(cx)
    }
}

impl SourceStream for Late {
    type Params = LateParams;
    type StreamCreationError = LateErr;
    async fn create(mut p: LateParams) -> Result<Self, LateErr> {
        tick();
        p.created.fetch_add(1, SeqCst);
        for _ in 0..p.naps {
            tokio::task::yield_now().await;
        }
        if p.naps > 3 {
            tokio::time::sleep(Duration::from_micros(p.naps * 20)).await;
        }
        if p.forever {
            std::future::pending::<()>().await;
        }
        let inner = p.inner.take().expect("source");
        if p.fail {
            return Err(LateErr { cause: ScriptErr });
        }
        Ok(Self { inner })
    }
    fn content_length(&self) -> Option<u64> {
        self.inner.content_length()
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        self.inner.seek_range(start, end).await
    }
    async fn reconnect(&mut self, p: u64) -> io::Result<()> {
        self.inner.reconnect(p).await
    }
    fn supports_seek(&self) -> bool {
        self.inner.supports_seek()
    }
    async fn on_finish(&mut self, r: io::Result<()>, o: StreamOutcome) -> io::Result<()> {
        self.inner.on_finish(r, o).await
    }
}

struct Boat {
    fate: Fate,
    cfg: SrcCfg,
    ctl: Arc<SrcCtl>,
    store: Arc<StoreCtl>,
    driven: Option<Driven>,
    token: Option<CancellationToken>,
    done: Option<Arc<AtomicBool>>,
    file: Option<PathBuf>,
    cap: Option<usize>,
    thread: Option<std::thread::JoinHandle<()>>,
}

#[allow(clippy::too_many_lines)]
pub fn temp_files(_prop: &str, seed: u64, dir: &Path) -> Res {
    crate::panics::take();
    let mut res = Res::default();
    let mut rng = Rng::new(seed ^ 0x17);
    let rng = &mut rng;
    trace::configure(seed, rng.below(3));
    let wh = *rng.pick(&[
        Where::Default,
        Where::In,
        Where::In,
        Where::Prefix,
        Where::PrefixIn,
        Where::Builder,
        Where::Missing,
        Where::NotADir,
        Where::BuilderFails,
    ]);
    let around = match rng.below(4) {
        0 => Around::Bounded(rng.range(64, 4_000) as usize),
        1 => Around::Adaptive(rng.range(64, 4_000) as usize),
        _ => Around::Plain,
    };
    let own = dir.join("own");
    let other = dir.join("other");
    let _ = std::fs::create_dir_all(&own);
    let _ = std::fs::create_dir_all(&other);
    let default = std::env::temp_dir();
    let plain_file = dir.join("plain");
    let _ = std::fs::write(&plain_file, b"x");
    let prefix = *rng.pick(&["vh-", "ä b ", "x", ".hidden"]);
    let built = Arc::new(AtomicU64::new(0));
    let base = match wh {
        Where::Default => {
            if rng.chance(1, 2) {
                TempStorageProvider::new()
            } else {
                TempStorageProvider::default()
            }
        }
        Where::In => TempStorageProvider::new_in(&own),
        Where::Prefix => TempStorageProvider::with_prefix(prefix),
        Where::PrefixIn => TempStorageProvider::with_prefix_in(prefix, &own),
        Where::Builder => {
            let own = own.clone();
            let built = built.clone();
            TempStorageProvider::with_tempfile_builder(move || {
                built.fetch_add(1, SeqCst);
                tempfile::Builder::new().prefix("built").suffix(".vh").tempfile_in(&own)
            })
        }
        Where::Missing => TempStorageProvider::new_in(own.join("no such directory")),
        Where::NotADir => TempStorageProvider::with_prefix_in(prefix, &plain_file),
        Where::BuilderFails => TempStorageProvider::with_tempfile_builder(|| Err(io::Error::new(io::ErrorKind::QuotaExceeded, "VH no file for you"))),
    };
    let fails = matches!(wh, Where::Missing | Where::NotADir | Where::BuilderFails);
    let dirs: Vec<&Path> = vec![&own, &other, &default];
    let expected_dir: &Path = match wh {
        Where::Default | Where::Prefix => &default,
        _ => &own,
    };
    let snapshot = |skip: &[&Path]| -> Vec<(PathBuf, BTreeSet<String>)> { skip.iter().map(|d| (d.to_path_buf(), list(d))).collect() };
    let before = snapshot(&dirs);
    let n = rng.range(1, 5);
    let mut rt = Rt::start(rng.below(3));
    let early_shutdown = !fails && rng.chance(1, 10);
    let mut boats = vec![];
    let mut fp = Fnv::default();
    let mut desc = vec![];
    for i in 0..n {
        let mut cfg = some_source(seed ^ (i << 20), rng, 30_000);
        let cap = match around {
            Around::Plain => None,
            Around::Bounded(c) => Some(c),
            Around::Adaptive(c) => cfg.declared.is_none().then_some(c),
        };
        let mut fate = *rng.pick(&[
            Fate::Complete,
            Fate::Complete,
            Fate::Drop,
            Fate::DropKeep,
            Fate::Token(0),
            Fate::SourceFails,
            Fate::SourcePanics,
            Fate::WritePanics,
            Fate::WriteFails,
            Fate::ReaderPanics,
            Fate::NoSource,
            Fate::Abandoned,
        ]);
        // nobody makes room in a bounded storage after the reader is gone
        if fate == Fate::DropKeep && cap.is_some() {
            fate = Fate::Drop;
        }
        let mut scfg = StoreCfg { seed: cfg.seed, check_content: true, ..StoreCfg::default() };
        match &mut fate {
            Fate::Token(us) => *us = rng.below(2_000),
            Fate::SourceFails => {
                cfg.declared = None;
                cfg.faults.push(Fault { at: rng.below(cfg.total + 1), kind: FaultKind::ErrorThenEof });
            }
            Fate::SourcePanics => cfg.faults.push(Fault { at: rng.below(cfg.total), kind: FaultKind::Panic }),
            Fate::WritePanics => scfg.panic_write_at = Some(rng.below(4) as usize),
            Fate::WriteFails => scfg.write_error_at = Some(rng.below(4) as usize),
            _ => {}
        }
        let cap = match around {
            Around::Adaptive(c) => cfg.declared.is_none().then_some(c),
            _ => cap,
        };
        cfg.bounded = cap.is_some();
        let (src, ctl) = source(cfg.clone());
        let store = StoreCtl::new(scfg);
        let prov = match around {
            Around::Plain => DynProvider::new(MonProvider { inner: base.clone(), ctl: store.clone() }),
            Around::Bounded(c) => DynProvider::new(MonProvider { inner: BoundedStorageProvider::new(base.clone(), nz(c)), ctl: store.clone() }),
            Around::Adaptive(c) => DynProvider::new(MonProvider { inner: AdaptiveStorageProvider::new(base.clone(), nz(c)), ctl: store.clone() }),
        };
        let settings = Settings::<Late>::default()
            .prefetch_bytes((*rng.pick(&[0u64, 10, 1_000])).min(cap.map_or(u64::MAX, |c| c as u64 / 2)))
            .retry_timeout(FOREVER)
            .cancel_on_drop(fate != Fate::DropKeep);
        let params = LateParams {
            inner: Some(src),
            naps: rng.below(6),
            forever: fate == Fate::Abandoned && rng.chance(1, 2),
            fail: fate == Fate::NoSource,
            created: Arc::default(),
        };
        desc.push(format!("{fate:?} total={} declared={:?}", cfg.total, cfg.declared));
        let pre = snapshot(&dirs);
        let mut boat = Boat { fate, cfg: cfg.clone(), ctl, store, driven: None, token: None, done: None, file: None, cap, thread: None };
        if fate == Fate::Abandoned {
            let us = rng.below(400);
            rt.run(async move {
                let f = StreamDownload::new::<Late>(params, prov, settings);
                let _ = tokio::time::timeout(Duration::from_micros(us), f).await;
            });
            boats.push(boat);
            continue;
        }
        let made = rt.run(async move { StreamDownload::new::<Late>(params, prov, settings).await });
        let Some(made) = made else {
            res.inconclusive = true;
            res.poisoned = true;
            return res;
        };
        // other streams may go away meanwhile, but nothing else appears
        let fresh: Vec<PathBuf> = dirs
            .iter()
            .zip(&pre)
            .flat_map(|(d, (_, old))| list(d).difference(old).map(|f| d.join(f)).collect::<Vec<_>>())
            .collect();
        match made {
            Err(e) => {
                let storage = matches!(e, StreamInitializationError::StorageCreationFailure(_));
                if fate == Fate::NoSource && storage || fate != Fate::NoSource && (!fails || !storage) {
                    res.viol("creation_error", &["C17", "C22"], format!("{fate:?} {wh:?}: {e}"));
                }
                if !fresh.is_empty() {
                    res.viol("leftover", &["C17"], format!("creation failed, but there is {fresh:?}"));
                }
                res.add("temp_creation_errors", 1);
            }
            Ok(sd) => {
                if fails || fate == Fate::NoSource {
                    res.viol("creation", &["C17", "C22"], format!("{fate:?} {wh:?}: creation succeeded"));
                    continue;
                }
                let good = fresh.len() == 1 && fresh[0].parent() == Some(expected_dir) && {
                    let name = fresh[0].file_name().map(|f| f.to_string_lossy().to_string()).unwrap_or_default();
                    match wh {
                        Where::Prefix | Where::PrefixIn => name.starts_with(prefix) && name.len() > prefix.len(),
                        Where::Builder => name.starts_with("built") && name.ends_with(".vh"),
                        _ => true,
                    }
                };
                if !good {
                    res.viol("placement", &["C17"], format!("{wh:?} {around:?} prefix {prefix:?}: files {fresh:?}, expected one in {}", expected_dir.display()));
                }
                res.add("temp_files", fresh.len() as u64);
                boat.file = fresh.first().cloned();
                boat.token = Some(sd.cancellation_token());
                boat.done = Some(watch(sd.handle(), &rt.handle));
                let content = Content { seed: cfg.seed, total: cfg.total };
                let mut ops = reader_ops(rng, cfg.total, cfg.declared.is_some(), cap);
                match fate {
                    Fate::Complete | Fate::Token(_) | Fate::SourceFails | Fate::SourcePanics | Fate::WriteFails | Fate::WritePanics => {
                        to_end(rng, cap, &mut ops);
                        boat.driven = Some(drive::start(sd, content, ops, || ()));
                    }
                    Fate::Drop | Fate::DropKeep => boat.driven = Some(drive::start(sd, content, ops, || ())),
                    Fate::ReaderPanics => {
                        boat.thread = Some(std::thread::spawn(move || {
                            let mut sd = sd;
                            let mut b = [0u8; 10];
                            let _ = sd.read(&mut b);
                            tick();
                            panic!("VH-INJECTED reader panic");
                        }));
                    }
                    _ => {}
                }
            }
        }
        boats.push(boat);
    }
    res.sample = format!("seed={seed} temp {wh:?} {around:?} prefix={prefix:?} shutdown={early_shutdown} {desc:?}");
    if wh == Where::Builder && built.load(SeqCst) > boats.len() as u64 {
        res.viol("builder", &["C17"], format!("builder called {} times for {} streams", built.load(SeqCst), boats.len()));
    }
    for b in &boats {
        if let (Fate::Token(us), Some(t)) = (b.fate, &b.token) {
            std::thread::sleep(Duration::from_micros(us));
            t.cancel();
        }
    }
    if early_shutdown {
        std::thread::sleep(Duration::from_micros(rng.below(2_000)));
        rt.stop();
    }
    let names: BTreeSet<_> = boats.iter().filter_map(|b| b.file.clone()).collect();
    // a name can only be used again once its file is gone
    res.add("temp_distinct_files", names.len() as u64);
    for (i, b) in boats.iter_mut().enumerate() {
        let who = format!("stream {i} ({:?})", b.fate);
        if let Some(d) = &mut b.driven {
            let w = d.wait(LIMIT);
            if hang(w, format!("{who}: operation {} never returns", d.results().len()), "C17", &mut res) {
                break;
            }
            let r = d.results();
            for d in &r {
                fp.bytes(format!("{:?}", d.ret).as_bytes());
            }
            if b.fate == Fate::Complete && !early_shutdown {
                judge_sound(&who, &r, b.cfg.total, "C17", &mut res);
            } else {
                bytes_only(&who, &r, "C17", &mut res);
            }
        }
        if let Some(t) = b.thread.take() {
            let w = wait_done(|| t.is_finished(), LIMIT);
            if hang(w, format!("{who}: the reader never panics"), "C17", &mut res) {
                break;
            }
            let _ = t.join();
        }
        let ctl = b.ctl.clone();
        let w = wait_done(|| ctl.st.lock().dropped, LIMIT);
        if hang(w, format!("{who}: the source is never dropped"), "C17", &mut res) {
            break;
        }
        if let Some(done) = &b.done {
            // runs on the same runtime
            if !early_shutdown {
                let w = wait_done(|| done.load(SeqCst), LIMIT);
                if hang(w, format!("{who}: completion is never signalled"), "C17", &mut res) {
                    break;
                }
            }
        }
        for p in b.store.st.lock().problems.iter().take(2) {
            res.viol("stored_wrong", &["C17", "C01"], p.clone());
        }
        let _ = b.cap;
    }
    if !res.poisoned {
        // readers and sources are gone, the writers go right after the sources
        let w = wait_done(|| dirs.iter().zip(&before).all(|(d, (_, old))| list(d) == *old), LIMIT);
        if w != Wait::Done {
            let left: Vec<_> = dirs.iter().zip(&before).map(|(d, (_, old))| (d.display().to_string(), list(d).symmetric_difference(old).cloned().collect::<Vec<_>>())).collect();
            res.viol("leftover", &["C17"], format!("temporary files are left (or lost): {left:?}"));
            for (d, (_, old)) in dirs.iter().zip(&before) {
                for f in list(d).difference(old) {
                    let _ = std::fs::remove_file(d.join(f));
                }
            }
        }
        let w = wait_done(|| open_files(&dirs).is_empty(), LIMIT);
        if w != Wait::Done {
            res.viol("open_files", &["C17"], format!("files are still open: {:?}", open_files(&dirs)));
        }
        rt.stop();
    }
    if std::fs::read(&plain_file).ok().as_deref() != Some(b"x") {
        res.viol("foreign", &["C17"], "another file was modified");
    }
    no_panics("C17", &mut res);
    res.add("temp_streams", boats.len() as u64);
    res.add("temp_shutdowns", u64::from(early_shutdown));
    res.add("temp_panics", boats.iter().filter(|b| matches!(b.fate, Fate::SourcePanics | Fate::WritePanics | Fate::ReaderPanics)).count() as u64);
    res.add("temp_cancelled", boats.iter().filter(|b| matches!(b.fate, Fate::Token(_) | Fate::Drop)).count() as u64);
    fp.bytes(res.sample.split_once(' ').map_or("", |x| x.1).as_bytes());
    res.fingerprint = fp.0;
    res.nontrivial = true;
    if !res.viols.is_empty() || res.inconclusive {
        res.log = res.sample.clone();
    }
    res
}

// ================================================================ C20

#[derive(Clone, Copy, Debug, PartialEq)]
enum Role {
    Healthy,
    /// the source stalls for good, a reader waits for it
    Stalled,
    /// nobody reads, the storage is full
    Idle,
    SourceFails,
    SourcePanics,
    WritePanics,
    WriteFails,
    Token(u64),
    Drop,
    /// content without end, read for as long as it takes
    Endless,
}

#[derive(Clone)]
enum Shared {
    Mem(MemoryStorageProvider),
    Temp(TempStorageProvider),
    Bounded(BoundedStorageProvider<MemoryStorageProvider>),
    BTemp(BoundedStorageProvider<TempStorageProvider>),
    Adaptive(AdaptiveStorageProvider<TempStorageProvider, MemoryStorageProvider>),
}

impl Shared {
    fn wrap(&self, ctl: &Arc<StoreCtl>) -> DynProvider {
        macro_rules! w {
            ($p:expr) => {
                DynProvider::new(MonProvider { inner: $p.clone(), ctl: ctl.clone() })
            };
        }
        match self {
            Self::Mem(p) => w!(p),
            Self::Temp(p) => w!(p),
            Self::Bounded(p) => w!(p),
            Self::BTemp(p) => w!(p),
            Self::Adaptive(p) => w!(p),
        }
    }
    fn cap(&self, len: Option<u64>) -> Option<usize> {
        match self {
            Self::Mem(_) | Self::Temp(_) => None,
            Self::Bounded(p) => p.max_capacity_for(len),
            Self::BTemp(p) => p.max_capacity_for(len),
            Self::Adaptive(p) => p.max_capacity_for(len),
        }
    }
}

struct Ship {
    role: Role,
    cfg: SrcCfg,
    ctl: Arc<SrcCtl>,
    store: Arc<StoreCtl>,
    driven: Option<Driven>,
    token: CancellationToken,
    done: Arc<AtomicBool>,
    stop: Arc<AtomicBool>,
    keep: Option<StreamDownload<DynProvider>>,
    threads: Vec<std::thread::JoinHandle<Option<u64>>>,
    progress: Arc<AtomicU64>,
}

#[allow(clippy::too_many_lines)]
pub fn independence(_prop: &str, seed: u64, dir: &Path) -> Res {
    crate::panics::take();
    let mut res = Res::default();
    let mut rng = Rng::new(seed ^ 0x20);
    let rng = &mut rng;
    if Rng::new(seed ^ 0x20c).chance(1, 12) {
        return crate::http::crowd(seed);
    }
    trace::configure(seed, rng.below(3));
    let n = match rng.below(80) {
        0 => rng.range(33, 150),
        1 | 2 => rng.range(10, 40),
        _ => rng.range(2, 9),
    };
    let threads = rng.below(3);
    let cap = rng.range(64, 6_000) as usize;
    let shared = match rng.below(5) {
        0 => Shared::Mem(MemoryStorageProvider),
        1 => Shared::Temp(TempStorageProvider::new_in(dir)),
        2 => Shared::Bounded(BoundedStorageProvider::new(MemoryStorageProvider, nz(cap))),
        3 => Shared::BTemp(BoundedStorageProvider::new(TempStorageProvider::new_in(dir), nz(cap))),
        _ => Shared::Adaptive(AdaptiveStorageProvider::with_fixed_and_variable(TempStorageProvider::new_in(dir), MemoryStorageProvider, nz(cap))),
    };
    let mut rt = Rt::start(threads);
    let mut ships: Vec<Ship> = vec![];
    let mut desc = vec![];
    for i in 0..n {
        let role = if i == 0 {
            Role::Healthy
        } else {
            *rng.pick(&[
                Role::Healthy,
                Role::Healthy,
                Role::Stalled,
                Role::Stalled,
                Role::Idle,
                Role::Idle,
                Role::SourceFails,
                Role::SourcePanics,
                Role::WritePanics,
                Role::WriteFails,
                Role::Token(rng.clone().below(1_500)),
                Role::Drop,
                Role::Endless,
            ])
        };
        let mut cfg = some_source(seed ^ (i << 20), rng, if n > 9 { 3_000 } else { 60_000 });
        let mut scfg = StoreCfg { seed: cfg.seed, check_content: true, ..StoreCfg::default() };
        let mut mine = shared.clone();
        match role {
            Role::Stalled => cfg.faults.push(Fault { at: rng.below(cfg.total + 1), kind: FaultKind::Stall }),
            Role::SourceFails => {
                cfg.declared = None;
                cfg.faults.push(Fault { at: rng.below(cfg.total + 1), kind: FaultKind::ErrorThenEof });
            }
            Role::SourcePanics => cfg.faults.push(Fault { at: rng.below(cfg.total + 1), kind: FaultKind::Panic }),
            Role::WritePanics => scfg.panic_write_at = Some(rng.below(6) as usize),
            Role::WriteFails => scfg.write_error_at = Some(rng.below(6) as usize),
            Role::Idle => {
                cfg.total = rng.range(10_000, 60_000);
                cfg.declared = cfg.declared.map(|_| cfg.total);
                if shared.cap(cfg.declared).is_none() {
                    mine = Shared::Bounded(BoundedStorageProvider::new(MemoryStorageProvider, nz(cap)));
                }
            }
            Role::Endless => {
                cfg.total = u64::MAX;
                cfg.declared = None;
                cfg.chunking = Chunking::Fixed(rng.range(100, 4_000));
                if shared.cap(None).is_none() {
                    mine = Shared::Bounded(BoundedStorageProvider::new(MemoryStorageProvider, nz(cap)));
                }
            }
            _ => {}
        }
        let cap = mine.cap(cfg.declared);
        cfg.bounded = cap.is_some();
        if cfg.chunking == Chunking::Whole {
            cfg.chunking = Chunking::Fixed(1_000);
        }
        let (src, ctl) = source(cfg.clone());
        let store = StoreCtl::new(scfg);
        let prov = mine.wrap(&store);
        let progress = Arc::new(AtomicU64::new(0));
        let settings = Settings::<ScriptedSource>::default()
            .prefetch_bytes((*rng.pick(&[0u64, 10, 1_000])).min(cap.map_or(u64::MAX, |c| c as u64 / 2)))
            .batch_write_size(nz(*rng.pick(&[64usize, 4096])))
            .retry_timeout(FOREVER)
            .on_progress({
                let progress = progress.clone();
                move |_, st, _| {
                    if matches!(st.phase, stream_download::StreamPhase::Complete) {
                        progress.fetch_add(1, SeqCst);
                    }
                }
            });
        let made = rt.run(async move { StreamDownload::from_stream(src, prov, settings).await.map_err(|e| e.to_string()) });
        let sd = match made {
            Some(Ok(sd)) => sd,
            Some(Err(e)) => {
                res.viol("create", &["C20", "C22"], format!("stream {i} {role:?}: {e}"));
                continue;
            }
            None => {
                // nothing but other streams could keep it from being created
                res.viol("create", &["C20"], format!("stream {i} can't be created next to {desc:?}"));
                res.poisoned = true;
                return res;
            }
        };
        desc.push(format!("{role:?} total={} declared={:?} cap={cap:?}", cfg.total, cfg.declared));
        let mut ship = Ship {
            role,
            cfg: cfg.clone(),
            ctl,
            store,
            driven: None,
            token: sd.cancellation_token(),
            done: watch(sd.handle(), &rt.handle),
            stop: Arc::default(),
            keep: None,
            threads: vec![],
            progress,
        };
        let content = Content { seed: cfg.seed, total: cfg.total };
        match role {
            Role::Idle => ship.keep = Some(sd),
            Role::Drop => {
                let mut ops = reader_ops(rng, cfg.total, cfg.declared.is_some(), cap);
                ops.truncate(rng.below(4) as usize);
                ship.driven = Some(drive::start(sd, content, ops, || ()));
            }
            Role::Endless => {
                let stop = ship.stop.clone();
                let cseed = cfg.seed;
                let k = cap.unwrap_or(100).min(900);
                ship.threads.push(std::thread::spawn(move || {
                    let mut sd = sd;
                    let mut pos = 0u64;
                    let mut buf = vec![0u8; k];
                    while !stop.load(SeqCst) {
                        match sd.read(&mut buf) {
                            Ok(n) if n > 0 => {
                                if let Some(d) = crate::rng::first_diff(cseed, pos, &buf[..n]) {
                                    return Some(pos + d as u64);
                                }
                                pos += n as u64;
                            }
                            _ => return Some(pos),
                        }
                        std::thread::sleep(Duration::from_micros(100));
                    }
                    None
                }));
            }
            _ => {
                let mut ops = reader_ops(rng, cfg.total, cfg.declared.is_some(), cap);
                to_end(rng, cap, &mut ops);
                ship.driven = Some(drive::start(sd, content, ops, || ()));
            }
        }
        ships.push(ship);
    }
    res.sample = format!("seed={seed} fleet threads={threads} cap={cap} {desc:?}");
    for s in &ships {
        if let Role::Token(us) = s.role {
            std::thread::sleep(Duration::from_micros(us));
            s.token.cancel();
        }
    }
    let mut fp = Fnv::default();
    // ---- the healthy ones get through while the others are in whatever state
    for (i, s) in ships.iter_mut().enumerate() {
        if s.role != Role::Healthy {
            continue;
        }
        let who = format!("stream {i}");
        let Some(d) = &mut s.driven else { continue };
        let w = d.wait(LIMIT);
        if hang(w, format!("{who}: operation {} never returns", d.results().len()), "C20", &mut res) {
            break;
        }
        let r = d.results();
        for d in &r {
            fp.bytes(format!("{:?}", d.ret).as_bytes());
        }
        judge_sound(&who, &r, s.cfg.total, "C20", &mut res);
        let ctl = s.ctl.clone();
        let done = s.done.clone();
        let w = wait_done(|| ctl.st.lock().dropped && done.load(SeqCst), LIMIT);
        if hang(w, format!("{who}: the download never ends"), "C20", &mut res) {
            break;
        }
        let fin = finish_events(&s.ctl);
        // the reader may be gone before the download has noticed that everything is there
        let ok = fin.len() == 1 && (fin[0].0 && fin[0].2 == StreamOutcome::Completed || fin[0].1 == Some(io::ErrorKind::Interrupted));
        if !ok {
            res.viol("outcome", &["C20", "C06"], format!("{who}: outcome {fin:?}"));
        }
        if fin.len() == 1 && fin[0].0 && s.progress.load(SeqCst) != 1 {
            res.viol("complete", &["C20", "C13"], format!("{who}: completion reported {} times", s.progress.load(SeqCst)));
        }
        res.add("fleet_healthy", 1);
    }
    // ---- those that were left alone are as they were
    if !res.poisoned {
        for (i, s) in ships.iter().enumerate() {
            let untouched = matches!(s.role, Role::Stalled | Role::Idle | Role::Endless);
            let stalled = s.role == Role::Stalled && s.ctl.log().iter().any(|e| matches!(e, Ev::Stalled(_)));
            if untouched && s.token.is_cancelled() && s.role != Role::Stalled {
                res.viol("cancelled", &["C20", "C06"], format!("stream {i} {:?} was cancelled by nobody", s.role));
            }
            let fin = finish_events(&s.ctl);
            if (matches!(s.role, Role::Idle | Role::Endless) || stalled && s.driven.as_ref().is_some_and(|d| !d.is_finished())) && !fin.is_empty() && s.role != Role::Stalled {
                res.viol("finished", &["C20", "C06"], format!("stream {i} {:?} has ended: {fin:?}", s.role));
            }
            res.add("fleet_stalled", u64::from(stalled));
            res.add("fleet_idle", u64::from(s.role == Role::Idle));
        }
    }
    // ---- idle ones still work
    if !res.poisoned {
        for (i, s) in ships.iter_mut().enumerate() {
            let Some(sd) = s.keep.take() else { continue };
            let k = 1 + cap / 2;
            s.driven = Some(drive::start(sd, Content { seed: s.cfg.seed, total: s.cfg.total }, vec![Op::ToEnd(k)], || ()));
            let d = s.driven.as_mut().expect("driven");
            let w = d.wait(LIMIT);
            if hang(w, format!("idle stream {i}: reading never ends"), "C20", &mut res) {
                break;
            }
            judge_sound(&format!("idle stream {i}"), &d.results(), s.cfg.total, "C20", &mut res);
        }
    }
    // ---- the end of the others
    if !res.poisoned {
        for s in &mut ships {
            s.stop.store(true, SeqCst);
            if s.role == Role::Stalled {
                s.token.cancel();
            }
        }
        for (i, s) in ships.iter_mut().enumerate() {
            if let Some(d) = &mut s.driven
                && s.role != Role::Healthy
            {
                let w = d.wait(LIMIT);
                if hang(w, format!("stream {i} {:?}: operation {} never returns", s.role, d.results().len()), "C20", &mut res) {
                    break;
                }
                bytes_only(&format!("stream {i} {:?}", s.role), &d.results(), "C20", &mut res);
            }
            for t in s.threads.drain(..) {
                let w = wait_done(|| t.is_finished(), LIMIT);
                if hang(w, format!("stream {i} {:?}: reading never ends", s.role), "C20", &mut res) {
                    break;
                }
                if let Ok(Some(at)) = t.join() {
                    res.viol("endless", &["C20", "C07"], format!("stream {i}: wrong content or an error at {at}"));
                }
            }
            if res.poisoned {
                break;
            }
            let ctl = s.ctl.clone();
            let done = s.done.clone();
            let w = wait_done(|| ctl.st.lock().dropped && done.load(SeqCst), LIMIT);
            if hang(w, format!("stream {i} {:?}: the download never ends", s.role), "C20", &mut res) {
                break;
            }
            for p in s.store.st.lock().problems.iter().take(1) {
                res.viol("stored_wrong", &["C20", "C01"], format!("stream {i}: {p}"));
            }
        }
    }
    if !res.poisoned {
        rt.stop();
    }
    no_panics("C20", &mut res);
    res.add("fleet_streams", ships.len() as u64);
    res.add("fleet_large", u64::from(n > 16));
    res.add("fleet_single_thread", u64::from(threads < 2));
    fp.bytes(format!("{desc:?}").as_bytes());
    res.fingerprint = fp.0;
    res.nontrivial = ships.len() > 1;
    if !res.viols.is_empty() || res.inconclusive {
        res.log = format!(
            "{}\n{}",
            res.sample,
            ships
                .iter()
                .enumerate()
                .map(|(i, s)| format!(
                    "{i} {:?} results {:?}\n   finish {:?}",
                    s.role,
                    s.driven.as_ref().map(|d| d.results().iter().map(|r| format!("{:?}->{:?}", r.op, r.ret)).collect::<Vec<_>>()),
                    finish_events(&s.ctl)
                ))
                .collect::<Vec<_>>()
                .join("\n")
        );
    }
    res
}

// ================================================================ C22

/// Records how the library uses a storage provider.
#[derive(Default)]
struct ProvLog {
    made: Vec<Option<u64>>,
    caps: Vec<Option<u64>>,
    /// whether the source was there already
    source_first: bool,
    dropped: u64,
}

struct LogProvider<P> {
    inner: P,
    log: Arc<Mutex<ProvLog>>,
    created: Arc<AtomicU64>,
    fail: Option<io::ErrorKind>,
}

struct Half<T> {
    inner: T,
    log: Arc<Mutex<ProvLog>>,
}

impl<T> Drop for Half<T> {
    fn drop(&mut self) {
        self.log.lock().dropped += 1;
        tick();
    }
}
impl<T: io::Read> io::Read for Half<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.inner.read(b)
    }
}
impl<T: io::Write> io::Write for Half<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.inner.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.inner.flush()
    }
}
impl<T: io::Seek> io::Seek for Half<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.inner.seek(p)
    }
}

impl<P: StorageProvider> StorageProvider for LogProvider<P>
where
    P::Reader: StorageReader,
    P::Writer: StorageWriter,
{
    type Reader = Half<P::Reader>;
    type Writer = Half<P::Writer>;
    fn into_reader_writer(self, l: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        {
            let mut g = self.log.lock();
            g.made.push(l);
            g.source_first = self.created.load(SeqCst) > 0;
        }
        if let Some(k) = self.fail {
            return Err(io::Error::new(k, "VH scripted storage error"));
        }
        let (r, w) = self.inner.into_reader_writer(l)?;
        Ok((Half { inner: r, log: self.log.clone() }, Half { inner: w, log: self.log }))
    }
    fn max_capacity(&self) -> Option<usize> {
        self.inner.max_capacity()
    }
    fn max_capacity_for(&self, l: Option<u64>) -> Option<usize> {
        self.log.lock().caps.push(l);
        self.inner.max_capacity_for(l)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Birth {
    Fine,
    SourceFails,
    StorageFails,
    Abandoned,
}

static LATE_RT: std::sync::LazyLock<tokio::runtime::Runtime> = std::sync::LazyLock::new(|| runtime(2));

#[allow(clippy::too_many_lines)]
pub fn creation(_prop: &str, seed: u64, dir: &Path) -> Res {
    crate::panics::take();
    std::sync::LazyLock::force(&LATE_RT);
    let mut res = Res::default();
    let mut rng = Rng::new(seed ^ 0x22);
    let rng = &mut rng;
    trace::configure(seed, rng.below(3));
    let birth = *rng.pick(&[Birth::Fine, Birth::Fine, Birth::Fine, Birth::SourceFails, Birth::StorageFails, Birth::Abandoned]);
    let mut cfg = some_source(seed, rng, 20_000);
    // a source which never delivers must not get in the way of creation
    let mute = birth == Birth::Fine && rng.chance(1, 3);
    if mute {
        cfg.faults.push(Fault { at: 0, kind: FaultKind::Stall });
    }
    if birth != Birth::Fine || mute {
        cfg.declared = match rng.below(5) {
            0 => None,
            1 => Some(0),
            2 => Some(u64::MAX),
            3 => Some(rng.below(1 << 40)),
            _ => Some(cfg.total),
        };
    }
    let (src, ctl) = source(cfg.clone());
    let created = Arc::new(AtomicU64::new(0));
    let plog: Arc<Mutex<ProvLog>> = Arc::default();
    let kind = *rng.pick(&[io::ErrorKind::StorageFull, io::ErrorKind::PermissionDenied, io::ErrorKind::Other, io::ErrorKind::Interrupted]);
    let fail = (birth == Birth::StorageFails).then_some(kind);
    let c = rng.range(1, 5_000) as usize;
    let direct = birth != Birth::SourceFails && birth != Birth::Abandoned && rng.chance(1, 3);
    if direct {
        created.fetch_add(1, SeqCst);
    }
    let params = LateParams { inner: Some(src), naps: rng.below(8), forever: birth == Birth::Abandoned, fail: birth == Birth::SourceFails, created: created.clone() };
    let settings = Settings::<Late>::default().retry_timeout(FOREVER);
    let dflt = Settings::<Late>::default();
    if dflt.get_prefetch_bytes() != 256 * 1024 || dflt.get_write_batch_size() != 4096 {
        res.viol("defaults", &["C22"], "the settings do not have their documented defaults");
    }
    let prefetch = *rng.pick(&[0, 1, 77, 5_000]);
    let settings = settings.prefetch_bytes(prefetch.min(c as u64 / 2)).batch_write_size(nz(1 + c / 3));
    if settings.get_prefetch_bytes() != prefetch.min(c as u64 / 2) || settings.get_write_batch_size() != 1 + c / 3 {
        res.viol("settings", &["C22"], "the settings are not those that were given");
    }
    let storage = rng.below(4);
    let dirp = dir.to_path_buf();
    res.sample = format!("seed={seed} creation {birth:?} mute={mute} declared={:?} total={} storage={storage} cap={c} direct={direct} error={kind:?}", cfg.declared, cfg.total);
    type Made = Result<(StreamDownload<DynReady>, Option<u64>), (String, String, String, bool, Option<io::ErrorKind>, String)>;
    type DynReady = DynProvider;
    let l2 = plog.clone();
    let c2 = created.clone();
    let slot: Arc<Mutex<Option<Option<Made>>>> = Arc::default();
    let s2 = slot.clone();
    let us = rng.below(500);
    LATE_RT.spawn(async move {
        macro_rules! with {
            ($p:expr) => {
                with_dyn(LogProvider { inner: $p, log: l2, created: c2, fail })
            };
        }
        let prov = match storage {
            0 => with!(MemoryStorageProvider),
            1 => with!(TempStorageProvider::new_in(&dirp)),
            2 => with!(BoundedStorageProvider::new(MemoryStorageProvider, nz(c))),
            _ => with!(AdaptiveStorageProvider::with_fixed_and_variable(MemoryStorageProvider, TempStorageProvider::new_in(&dirp), nz(c))),
        };
        let f = async {
            let made = if direct {
                StreamDownload::from_stream(Late { inner: params.inner.expect("source") }, prov, settings).await
            } else {
                StreamDownload::new::<Late>(params, prov, settings).await
            };
            match made {
                Ok(sd) => {
                    let l = sd.content_length();
                    Ok((sd, l))
                }
                Err(e) => {
                    let (text, debug) = (e.to_string(), format!("{e:?}"));
                    let (storage, kind, cause) = match &e {
                        StreamInitializationError::StorageCreationFailure(e) => (true, Some(e.kind()), e.to_string()),
                        StreamInitializationError::StreamCreationFailure(e) => (false, None, e.to_string()),
                    };
                    Err((text, debug, cause, storage, kind, e.decode_error().await))
                }
            }
        };
        let v = if birth == Birth::Abandoned {
            tokio::time::timeout(Duration::from_micros(us), f).await.ok()
        } else {
            Some(f.await)
        };
        *s2.lock() = Some(v);
        tick();
    });
    let w = wait_done(|| slot.lock().is_some(), LIMIT);
    if hang(w, "creation never returns".into(), "C22", &mut res) {
        res.log = res.sample.clone();
        return res;
    }
    let made = slot.lock().take().expect("made");
    let gone = || {
        let s = ctl.st.lock();
        s.dropped
    };
    // an absurd content length that memory can not be found for is an error like any other
    let absurd = birth == Birth::Fine && storage == 0 && cfg.declared.is_some_and(|d| d > 1 << 30);
    let mut refused = false;
    match (birth, made) {
        (Birth::Abandoned, None) => {
            res.add("creations_abandoned", 1);
        }
        (Birth::Fine, Some(Err((text, debug, _, true, Some(k), _)))) if absurd => {
            res.add("absurd_lengths_refused", 1);
            refused = true;
            if !matches!(k, io::ErrorKind::InvalidInput | io::ErrorKind::OutOfMemory) {
                res.viol("cause", &["C22"], format!("error {text:?} {debug:?}"));
            }
        }
        (Birth::Fine, Some(Ok((sd, l)))) => {
            res.add("creations", 1);
            if l != cfg.declared {
                res.viol("content_length", &["C22"], format!("content length {l:?}, the source said {:?}", cfg.declared));
            }
            {
                let g = plog.lock();
                if g.made != vec![cfg.declared] {
                    res.viol("storage", &["C22"], format!("the storage was created with {:?}, the content length is {:?}", g.made, cfg.declared));
                }
                if !g.source_first {
                    res.viol("order", &["C22"], "the storage was created before the source");
                }
            }
            if !direct && created.load(SeqCst) != 1 {
                res.viol("source", &["C22"], format!("the source was created {} times", created.load(SeqCst)));
            }
            // the download starts by itself
            let w = wait_done(|| ctl.st.lock().polls > 0, LIMIT);
            hang(w, "the download does not start".into(), "C22", &mut res);
            if !mute && !res.poisoned {
                let cap = match storage {
                    2 => Some(c),
                    3 => cfg.declared.is_none().then_some(c),
                    _ => None,
                };
                let mut ops = reader_ops(rng, cfg.total, cfg.declared.is_some(), cap);
                to_end(rng, cap, &mut ops);
                let mut d = drive::start(sd, Content { seed: cfg.seed, total: cfg.total }, ops, || ());
                let w = d.wait(LIMIT);
                if !hang(w, format!("operation {} never returns", d.results().len()), "C22", &mut res) {
                    judge_sound("stream", &d.results(), cfg.total, "C22", &mut res);
                }
            } else {
                drop(sd);
            }
        }
        (Birth::SourceFails | Birth::StorageFails, Some(Err((text, debug, cause, storage, k, decoded)))) => {
            res.add("creation_errors", 1);
            let want_storage = birth == Birth::StorageFails;
            if storage != want_storage {
                res.viol("variant", &["C22"], format!("{birth:?} was reported as {debug}"));
            }
            if want_storage {
                if k != Some(kind) || !cause.contains("VH scripted storage error") || !text.contains(&cause) || decoded != text {
                    res.viol("cause", &["C22"], format!("error {text:?} {cause:?} {k:?} {decoded:?}"));
                }
            } else if cause != "VH scripted creation error" || !text.contains(&cause) || decoded != "decoded scripted error" {
                res.viol("cause", &["C22"], format!("error {text:?} {cause:?} {decoded:?}"));
            }
            let g = plog.lock();
            let want: Vec<Option<u64>> = if want_storage { vec![cfg.declared] } else { vec![] };
            if g.made != want {
                res.viol("storage", &["C22"], format!("{birth:?}: the storage was created with {:?}", g.made));
            }
        }
        (b, made) => {
            res.viol("creation", &["C22"], format!("{b:?}, but creation returned {:?}", made.map(|m| m.map(|_| "a stream").map_err(|e| e.0))));
        }
    }
    if !res.poisoned {
        let w = wait_done(&gone, LIMIT);
        if !hang(w, format!("{birth:?}: the source is never dropped"), "C22", &mut res) && (birth != Birth::Fine || refused) {
            let s = ctl.st.lock();
            if s.polls > 0 || s.seeks > 0 || s.reconnects > 0 || s.finished > 0 {
                res.viol("used", &["C22"], format!("{birth:?}: the source was used ({} polls, {} requests, {} finish calls)", s.polls, s.seeks, s.finished));
            }
        }
        let want = if birth == Birth::Fine && !refused { 2 } else { 0 };
        let w = wait_done(|| plog.lock().dropped == want, LIMIT);
        hang(w, format!("{birth:?}: the storage is never dropped ({} of {want} halves)", plog.lock().dropped), "C22", &mut res);
    }
    no_panics("C22", &mut res);
    let mut fp = Fnv::default();
    fp.bytes(res.sample.split_once(' ').map_or("", |x| x.1).as_bytes());
    res.fingerprint = fp.0;
    res.nontrivial = true;
    if !res.viols.is_empty() || res.inconclusive {
        res.log = res.sample.clone();
    }
    res
}

/// Type erasure for a provider that can not be cloned.
fn with_dyn<P>(p: LogProvider<P>) -> DynProvider
where
    P: StorageProvider + Clone + 'static,
    P::Reader: 'static,
    P::Writer: 'static,
{
    DynProvider::new(Again(Arc::new(Mutex::new(Some(p)))))
}

struct Again<P>(Arc<Mutex<Option<LogProvider<P>>>>);
impl<P> Clone for Again<P> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<P> StorageProvider for Again<P>
where
    P: StorageProvider + Clone + 'static,
    P::Reader: 'static,
    P::Writer: 'static,
{
    type Reader = Half<P::Reader>;
    type Writer = Half<P::Writer>;
    fn into_reader_writer(self, l: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        let p = self.0.lock().take().ok_or_else(|| io::Error::other("VH the provider was used twice"))?;
        p.into_reader_writer(l)
    }
    fn max_capacity(&self) -> Option<usize> {
        self.0.lock().as_ref().and_then(StorageProvider::max_capacity)
    }
    fn max_capacity_for(&self, l: Option<u64>) -> Option<usize> {
        self.0.lock().as_ref().and_then(|p| p.max_capacity_for(l))
    }
}
