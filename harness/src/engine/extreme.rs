//! Everything the public interface allows, taken to extremes (C21): hostile sources and storages,
//! absurd settings and positions. The oracle is the panic hook (with overflow checks on) and the
//! survival of the process; what is returned does not matter, only that it is returned.

use std::io::{self, Read, Seek, SeekFrom, Write};
use std::net::{Shutdown, TcpListener};
use std::path::Path;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::Bytes;
use futures_util::Stream;
use parking_lot::Mutex;
use stream_download::http::HttpStream;
use stream_download::source::{SourceStream, StreamOutcome};
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::storage::StorageProvider;
use stream_download::{Settings, StreamDownload, StreamPhase, StreamState};
use tokio_util::sync::CancellationToken;

use crate::fleet::{Rt, nz};
use crate::quiesce::{Wait, tick, wait_done};
use crate::report::{Fnv, Res};
use crate::rng::Rng;
use crate::source::ScriptErr;
use crate::storage::DynProvider;
use crate::trace;

const LIMIT: Duration = Duration::from_secs(25);

/// Sizes and positions of every magnitude, and around the edges.
fn size(rng: &mut Rng) -> u64 {
    let e = rng.below(64);
    match rng.below(8) {
        0 => 0,
        1 => u64::MAX - rng.below(3),
        2 => (1u64 << 63) - 2 + rng.below(4),
        3 => (1u64 << e).saturating_sub(rng.below(2)),
        4 => rng.next() >> e,
        _ => rng.below(5_000),
    }
}

// ---------------------------------------------------------------- source

#[derive(Clone, Debug)]
struct Habits {
    declared: Option<u64>,
    seekable: bool,
    /// chances in 16
    err: u64,
    empty: u64,
    pend: u64,
    eof: u64,
    seek_err: u64,
    big: bool,
    panics: bool,
    finish_err: bool,
    budget: u64,
    max_chunk: u64,
}

struct Wild {
    h: Habits,
    rng: Rng,
    left: u64,
    end: Arc<Ends>,
    pended: bool,
    wait: Option<Arc<AtomicBool>>,
}

#[derive(Default)]
struct Ends {
    polls: AtomicU64,
    bytes: AtomicU64,
    seeks: AtomicU64,
    finished: AtomicU64,
    dropped: AtomicBool,
    stop: AtomicBool,
    waker: Mutex<Option<std::task::Waker>>,
}

impl Drop for Wild {
    fn drop(&mut self) {
        self.end.dropped.store(true, SeqCst);
        tick();
    }
}

impl Stream for Wild {
    type Item = Result<Bytes, ScriptErr>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        tick();
        let n = self.end.polls.fetch_add(1, SeqCst);
        if self.end.stop.load(SeqCst) || self.left == 0 || n > 20_000 {
            return Poll::Ready(None);
        }
        if let Some(r) = &self.wait
            && !r.load(SeqCst)
        {
            *self.end.waker.lock() = Some(cx.waker().clone());
            return Poll::Pending;
        }
        self.wait = None;
        self.left -= 1;
        let h = self.h.clone();
        if !self.pended && self.rng.below(16) < h.pend {
            self.pended = true;
            if self.rng.chance(1, 2) {
                cx.waker().wake_by_ref();
            } else {
                *self.end.waker.lock() = Some(cx.waker().clone());
                let end = self.end.clone();
                let us = self.rng.below(6_000);
                let ready = Arc::new(AtomicBool::new(false));
                self.wait = Some(ready.clone());
                tokio::spawn(async move {
                    tokio::time::sleep(Duration::from_micros(us)).await;
                    ready.store(true, SeqCst);
                    if let Some(w) = end.waker.lock().take() {
                        w.wake();
                    }
                });
            }
            return Poll::Pending;
        }
        self.pended = false;
        if self.rng.below(16) < h.err {
            return Poll::Ready(Some(Err(ScriptErr)));
        }
        if self.rng.below(16) < h.empty {
            return Poll::Ready(Some(Ok(Bytes::new())));
        }
        if self.rng.below(64) < h.eof {
            return Poll::Ready(None);
        }
        assert!(!(h.panics && self.rng.chance(1, 20)), "VH-INJECTED panic");
        let k = if h.big && self.rng.chance(1, 20) { 1 << 20 } else { self.rng.range(1, h.max_chunk) };
        self.end.bytes.fetch_add(k, SeqCst);
        Poll::Ready(Some(Ok(Bytes::from(vec![0xAB; k as usize]))))
    }
}

impl SourceStream for Wild {
    type Params = ();
    type StreamCreationError = ScriptErr;
    async fn create((): ()) -> Result<Self, ScriptErr> {
        Err(ScriptErr)
    }
    fn content_length(&self) -> Option<u64> {
        self.h.declared
    }
    async fn seek_range(&mut self, _: u64, _: Option<u64>) -> io::Result<()> {
        tick();
        self.end.seeks.fetch_add(1, SeqCst);
        if self.rng.chance(1, 4) {
            tokio::task::yield_now().await;
        }
        if self.rng.below(16) < self.h.seek_err {
            return Err(io::Error::other("VH scripted"));
        }
        if self.rng.chance(1, 2) {
            self.left = self.left.max(self.rng.below(20));
        }
        Ok(())
    }
    async fn reconnect(&mut self, _: u64) -> io::Result<()> {
        tick();
        if self.rng.chance(1, 3) {
            return Err(io::Error::other("VH scripted"));
        }
        Ok(())
    }
    fn supports_seek(&self) -> bool {
        self.h.seekable
    }
    async fn on_finish(&mut self, r: io::Result<()>, _: StreamOutcome) -> io::Result<()> {
        self.end.finished.fetch_add(1, SeqCst);
        if self.h.finish_err {
            return Err(io::Error::other("VH scripted"));
        }
        r
    }
}

// ---------------------------------------------------------------- storage

/// Fails, or does less than asked for, as the standard traits allow.
#[derive(Clone)]
struct Bad<P> {
    inner: P,
    rng: Arc<Mutex<Rng>>,
    /// chances in 64
    fail: u64,
    short: u64,
}

struct BadHalf<T> {
    inner: T,
    rng: Arc<Mutex<Rng>>,
    fail: u64,
    short: u64,
}

impl<T> BadHalf<T> {
    fn fail(&self) -> io::Result<()> {
        tick();
        let mut r = self.rng.lock();
        if r.below(64) < self.fail {
            let kind = *r.pick(&[io::ErrorKind::Other, io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof, io::ErrorKind::StorageFull]);
            return Err(io::Error::new(kind, "VH scripted"));
        }
        Ok(())
    }
    fn cut(&self, n: usize) -> usize {
        let mut r = self.rng.lock();
        if n > 1 && r.below(64) < self.short { 1 + r.below(n as u64 - 1) as usize } else { n }
    }
}
impl<T: Read> Read for BadHalf<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.fail()?;
        let n = self.cut(b.len());
        self.inner.read(&mut b[..n])
    }
}
impl<T: Write> Write for BadHalf<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.fail()?;
        let n = self.cut(b.len());
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.fail()?;
        self.inner.flush()
    }
}
impl<T: Seek> Seek for BadHalf<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.fail()?;
        self.inner.seek(p)
    }
}
impl<P: StorageProvider> StorageProvider for Bad<P> {
    type Reader = BadHalf<P::Reader>;
    type Writer = BadHalf<P::Writer>;
    fn into_reader_writer(self, l: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        let (r, w) = self.inner.into_reader_writer(l)?;
        let (fail, short, rng) = (self.fail, self.short, self.rng);
        Ok((BadHalf { inner: r, rng: rng.clone(), fail, short }, BadHalf { inner: w, rng, fail, short }))
    }
    fn max_capacity(&self) -> Option<usize> {
        self.inner.max_capacity()
    }
    fn max_capacity_for(&self, l: Option<u64>) -> Option<usize> {
        self.inner.max_capacity_for(l)
    }
}

fn storage(rng: &mut Rng, dir: &Path, text: &mut String) -> (DynProvider, bool) {
    let shared = Arc::new(Mutex::new(Rng::new(rng.next())));
    let fail = if rng.chance(1, 3) { rng.below(8) } else { 0 };
    let short = if rng.chance(1, 2) { rng.below(40) } else { 0 };
    macro_rules! bad {
        ($p:expr) => {
            DynProvider::new(Bad { inner: $p, rng: shared, fail, short })
        };
    }
    let cap = nz(match rng.below(4) {
        0 => 1,
        1 => rng.range(1, 20) as usize,
        2 => rng.range(1, 5_000) as usize,
        _ => 1 << 20,
    });
    let k = rng.below(6);
    *text = format!("storage={k} cap={cap} fail={fail} short={short}");
    match k {
        0 => (bad!(MemoryStorageProvider), true),
        1 => (bad!(TempStorageProvider::new_in(dir)), false),
        2 => (bad!(BoundedStorageProvider::new(MemoryStorageProvider, cap)), false),
        3 => (bad!(BoundedStorageProvider::new(TempStorageProvider::new_in(dir), cap)), false),
        4 => (bad!(AdaptiveStorageProvider::new(TempStorageProvider::new_in(dir), cap)), false),
        _ => (bad!(AdaptiveStorageProvider::with_fixed_and_variable(TempStorageProvider::new_in(dir), MemoryStorageProvider, cap)), true),
    }
}

// ---------------------------------------------------------------- reader

#[derive(Default)]
struct Count {
    ops: AtomicU64,
    errors: AtomicU64,
    panics: AtomicU64,
    finished: AtomicBool,
}

fn exercise<P: StorageProvider>(sd: StreamDownload<P>, seed: u64, tame: bool, c: &Count)
where
    StreamDownload<P>: Send,
{
    let mut rng = Rng::new(seed ^ 0xE0);
    let mut sd = sd;
    for _ in 0..rng.range(1, 16) {
        let kind = rng.below(12);
        let s = match rng.below(3) {
            0 => SeekFrom::Start(size(&mut rng)),
            1 => SeekFrom::Current((size(&mut rng) as i64).wrapping_mul(if rng.chance(1, 2) { -1 } else { 1 })),
            _ => SeekFrom::End((size(&mut rng) as i64).wrapping_mul(if rng.chance(2, 3) { -1 } else { 1 })),
        };
        // memory can only be had up to a point
        let s = match s {
            SeekFrom::Start(x) if tame && x < 1 << 46 => SeekFrom::Start(x % 100_000),
            SeekFrom::Current(x) if tame && x.unsigned_abs() < 1 << 46 => SeekFrom::Current(x % 100_000),
            s => s,
        };
        let n = match rng.below(6) {
            0 => 0,
            1 => 1,
            2 => 1 << 18,
            _ => rng.below(3_000),
        } as usize;
        c.ops.fetch_add(1, SeqCst);
        tick();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
            0..=3 => sd.seek(s).map(|_| ()),
            4 => sd.stream_position().map(|_| ()),
            5 => sd.rewind(),
            6 => sd.seek_relative((size(&mut rng) >> rng.below(60)) as i64 % 100_000),
            7 => {
                let _ = (sd.content_length(), sd.cancellation_token(), sd.handle());
                Ok(())
            }
            _ => {
                let mut b = vec![0; n];
                sd.read(&mut b).map(|k| assert!(k <= n, "read returned {k} of {n}"))
            }
        }));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(_)) => {
                c.errors.fetch_add(1, SeqCst);
            }
            Err(_) => {
                c.panics.fetch_add(1, SeqCst);
            }
        }
        if rng.chance(1, 12) {
            std::thread::sleep(Duration::from_micros(rng.below(3_000)));
        }
    }
    drop(sd);
    c.finished.store(true, SeqCst);
    tick();
}

fn check_state(s: &StreamState, bad: &AtomicU64) {
    // everything in it may be formatted and computed with
    let c = &s.current_chunk;
    if c.start > c.end {
        bad.fetch_add(1, SeqCst);
    }
    if let StreamPhase::Prefetching { target, chunk_size, .. } = s.phase {
        let _ = (target, chunk_size);
    }
    let _ = format!("{s:?}");
}

fn panics_seen(res: &mut Res, c: &Count, what: &str) {
    let seen = crate::panics::take();
    let mut ours = false;
    for p in seen {
        if crate::panics::own(&p) {
            ours = true;
        } else {
            res.viol("panic", &["C21"], format!("{what}: {p}"));
        }
    }
    if ours {
        res.inconclusive = true;
    } else if c.panics.load(SeqCst) > 0 && res.viols.is_empty() {
        res.viol("panic", &["C21"], format!("{what}: an operation of the reader panicked"));
    }
}

pub fn scenario(_prop: &str, seed: u64, dir: &Path) -> Res {
    let mut rng = Rng::new(seed ^ 0x21);
    if rng.chance(1, 8) { hostile_server(seed, &mut rng, dir) } else { hostile_parts(seed, &mut rng, dir) }
}

#[allow(clippy::too_many_lines)]
fn hostile_parts(seed: u64, rng: &mut Rng, dir: &Path) -> Res {
    crate::panics::take();
    let mut res = Res::default();
    trace::configure(seed, rng.below(3));
    let h = Habits {
        declared: match rng.below(4) {
            0 => None,
            1 => Some(size(rng)),
            _ => Some(rng.below(20_000)),
        },
        seekable: rng.chance(3, 4),
        err: if rng.chance(1, 3) { rng.below(6) } else { 0 },
        empty: if rng.chance(1, 3) { rng.below(6) } else { 0 },
        pend: rng.below(6),
        eof: if rng.chance(1, 3) { rng.below(16) } else { 0 },
        seek_err: if rng.chance(1, 4) { rng.below(6) } else { 0 },
        big: rng.chance(1, 10),
        panics: rng.chance(1, 16),
        finish_err: rng.chance(1, 10),
        budget: rng.range(1, 200),
        max_chunk: 1 + (1 << rng.below(14)),
    };
    let end = Arc::new(Ends::default());
    let mut storage_text = String::new();
    let (prov, memory) = storage(rng, dir, &mut storage_text);
    let prefetch = size(rng);
    let batch = match rng.below(4) {
        0 => 1,
        1 => usize::MAX,
        _ => rng.range(1, 70_000) as usize,
    };
    // one byte at a time takes its time
    let batch = if h.big { batch.max(500) } else { batch };
    let retry = match rng.below(6) {
        0 => Duration::ZERO,
        1 => Duration::MAX,
        2 => Duration::from_millis(1),
        _ => Duration::from_secs(100_000),
    };
    let tame = memory && h.declared.is_none();
    let threads = rng.below(3);
    let cancel = rng.chance(1, 4).then(|| rng.below(3_000));
    let bad_state = Arc::new(AtomicU64::new(0));
    let (b1, b2) = (bad_state.clone(), Arc::new(AtomicU64::new(0)));
    let reconnects = b2.clone();
    let cancel_in = rng.chance(1, 12);
    let settings = Settings::<Wild>::default()
        .prefetch_bytes(prefetch)
        .batch_write_size(nz(batch))
        .retry_timeout(retry)
        .cancel_on_drop(rng.chance(3, 4))
        .on_progress(move |_: &Wild, s, t: &CancellationToken| {
            tick();
            check_state(&s, &b1);
            if cancel_in {
                t.cancel();
            }
        })
        .on_reconnect(move |_: &Wild, _| {
            b2.fetch_add(1, SeqCst);
        });
    res.sample = format!("seed={seed} extreme {h:?} {storage_text} prefetch={prefetch} batch={batch} retry={retry:?} threads={threads} cancel={cancel:?}");
    let mut rt = Rt::start(threads);
    let src = Wild { rng: Rng::new(seed ^ 0x57), left: h.budget, end: end.clone(), pended: false, wait: None, h };
    let made = rt.run(async move { StreamDownload::from_stream(src, prov, settings).await.map_err(|e| e.to_string()) });
    let count = Arc::new(Count::default());
    match made {
        Some(Ok(sd)) => {
            res.add("extreme_streams", 1);
            let token = sd.cancellation_token();
            let c2 = count.clone();
            let t = std::thread::spawn(move || exercise(sd, seed, tame, &c2));
            if let Some(us) = cancel {
                std::thread::sleep(Duration::from_micros(us));
                token.cancel();
                res.add("extreme_cancelled", 1);
            }
            // whatever it is waiting for, this ends it
            let mut w = wait_done(|| count.finished.load(SeqCst), Duration::from_millis(400));
            if w != Wait::Done {
                end.stop.store(true, SeqCst);
                token.cancel();
                w = wait_done(|| count.finished.load(SeqCst), LIMIT);
                res.add("extreme_unblocked", 1);
            }
            if w == Wait::Done {
                let _ = t.join();
                token.cancel();
                let w = wait_done(|| end.dropped.load(SeqCst), LIMIT);
                if w != Wait::Done {
                    res.inconclusive = true;
                    res.poisoned = true;
                }
            } else {
                res.viol("hang", &["C04"], format!("the reader is stuck ({w:?}) after cancellation"));
                res.poisoned = true;
            }
        }
        Some(Err(_)) => res.add("extreme_creation_errors", 1),
        None => {
            res.inconclusive = true;
            res.poisoned = true;
        }
    }
    if !res.poisoned {
        rt.stop();
    }
    if bad_state.load(SeqCst) > 0 {
        res.viol("state", &["C13"], "inverted range in a progress report");
    }
    panics_seen(&mut res, &count, "extreme");
    res.add("extreme_operations", count.ops.load(SeqCst));
    res.add("extreme_errors", count.errors.load(SeqCst));
    res.add("extreme_source_polls", end.polls.load(SeqCst));
    res.add("extreme_seeks", end.seeks.load(SeqCst));
    res.add("extreme_reconnects", reconnects.load(SeqCst));
    done(&mut res);
    res
}

fn done(res: &mut Res) {
    let mut fp = Fnv::default();
    fp.bytes(res.sample.split_once(' ').map_or("", |x| x.1).as_bytes());
    res.fingerprint = fp.0;
    res.nontrivial = true;
    if !res.viols.is_empty() || res.inconclusive {
        res.log = res.sample.clone();
    }
}

// ---------------------------------------------------------------- server

fn junk_header(rng: &mut Rng, out: &mut String) {
    let num = |rng: &mut Rng| match rng.below(6) {
        0 => u64::MAX.to_string(),
        1 => "18446744073709551616".to_string(),
        2 => format!("-{}", rng.below(100)),
        3 => String::new(),
        4 => format!(" {} ", rng.below(100)),
        _ => size(rng).to_string(),
    };
    let text = |rng: &mut Rng| {
        (0..rng.below(12))
            .map(|_| *rng.pick(&['a', '/', ';', '=', '"', '*', '-', ',', '.', '+', ' ', '9', 'é', '\t', '\u{7f}']))
            .collect::<String>()
    };
    let (a, b, c, t) = (num(rng), num(rng), num(rng), text(rng));
    let line = match rng.below(14) {
        0 => format!("Content-Range: bytes {a}-{b}/{c}"),
        1 => format!("Content-Range: bytes {a}-{b}/*"),
        2 => format!("Content-Range: bytes */{c}"),
        3 => format!("Content-Range: {t}"),
        4 => format!("Accept-Ranges: {}", rng.pick(&["bytes", "none", "", "BYTES", "bytes, other"])),
        5 => format!("Content-Type: {t}"),
        6 => format!("Content-Type: {}", rng.pick(&["audio/mpeg", "audio/", "/", ";", "a/b;c", "audio/mpeg; charset=\"", "application/vnd.apple.mpegurl; a=b; c", "AUDIO/OGG", "a/b+c+d"])),
        7 => format!("Content-Length: {a}"),
        8 => format!("Content-Disposition: {t}"),
        9 => format!("Etag: {t}"),
        10 => format!("Last-Modified: {t}"),
        11 => format!("Location: {t}"),
        12 => format!("X-Junk: {t}"),
        _ => format!("Content-Encoding: {}", rng.pick(&["identity", "gzip", "x"])),
    };
    out.push_str(&line);
    out.push_str("\r\n");
}

#[allow(clippy::too_many_lines)]
fn hostile_server(seed: u64, rng: &mut Rng, dir: &Path) -> Res {
    crate::panics::take();
    let mut res = Res::default();
    trace::configure(seed, rng.below(2));
    let mut rt = Rt::start(1);
    let Ok(listener) = TcpListener::bind("127.0.0.1:0") else {
        res.inconclusive = true;
        return res;
    };
    let Ok(addr) = listener.local_addr() else {
        res.inconclusive = true;
        return res;
    };
    let stop = Arc::new(AtomicBool::new(false));
    let responses = Arc::new(AtomicU64::new(0));
    let (s2, r2) = (stop.clone(), responses.clone());
    let server = std::thread::spawn(move || {
        let mut rng = Rng::new(seed ^ 0x5E);
        let sane = rng.chance(2, 3);
        while let Ok((mut s, _)) = listener.accept() {
            if s2.load(SeqCst) {
                break;
            }
            let _ = s.set_read_timeout(Some(Duration::from_millis(200)));
            let mut buf = [0u8; 4096];
            let _ = s.read(&mut buf);
            if r2.fetch_add(1, SeqCst) > 60 {
                let _ = s.shutdown(Shutdown::Both);
                continue;
            }
            let status = if sane { *rng.pick(&[200, 206]) } else { *rng.pick(&[200, 206, 204, 304, 404, 416, 500, 302, 299, 199]) };
            let mut head = format!("HTTP/1.1 {status} X\r\nConnection: close\r\n");
            for _ in 0..rng.below(5) {
                junk_header(&mut rng, &mut head);
            }
            let body = vec![b'x'; if rng.chance(1, 3) { 0 } else { rng.below(9_000) as usize }];
            if sane && rng.chance(2, 3) && !head.contains("Content-Length") {
                head.push_str(&format!("Content-Length: {}\r\n", body.len()));
            }
            head.push_str("\r\n");
            let _ = s.write_all(head.as_bytes());
            let cut = if rng.chance(1, 3) { rng.below(body.len() as u64 + 1) as usize } else { body.len() };
            let _ = s.write_all(&body[..cut]);
            let _ = s.shutdown(Shutdown::Both);
        }
    });
    let mut storage_text = String::new();
    let (prov, memory) = storage(rng, dir, &mut storage_text);
    let prefetch = size(rng);
    let retry = *rng.pick(&[Duration::from_millis(1), Duration::from_millis(200), Duration::from_secs(100_000)]);
    res.sample = format!("seed={seed} extreme http {storage_text} prefetch={prefetch} retry={retry:?}");
    let settings = Settings::<HttpStream<reqwest::Client>>::default().prefetch_bytes(prefetch).retry_timeout(retry);
    let made = rt.run(async move {
        let url = format!("http://{addr}/a.mp3").parse().expect("url");
        let client = reqwest::Client::builder().no_proxy().pool_max_idle_per_host(0).build().expect("client");
        let stream = HttpStream::new(client, url).await;
        match stream {
            Ok(s) => {
                let _ = format!("{:?} {:?} {:?}", s.content_type(), s.content_length(), s.supports_seek());
                let _ = (s.header("Content-Type"), s.header("x-junk"), s.headers().len());
                Some(StreamDownload::from_stream(s, prov, settings).await.map_err(|e| e.to_string()))
            }
            Err(e) => {
                let _ = e.to_string();
                None
            }
        }
    });
    let count = Arc::new(Count::default());
    match made {
        Some(Some(Ok(sd))) => {
            res.add("extreme_http_streams", 1);
            let token = sd.cancellation_token();
            let handle = sd.handle();
            let c2 = count.clone();
            let tame = memory && sd.content_length().is_none();
            let t = std::thread::spawn(move || exercise(sd, seed, tame, &c2));
            let mut w = wait_done(|| count.finished.load(SeqCst), Duration::from_millis(600));
            if w != Wait::Done {
                token.cancel();
                w = wait_done(|| count.finished.load(SeqCst), LIMIT);
            }
            if w == Wait::Done {
                let _ = t.join();
                token.cancel();
                if rt.run(async move { handle.wait_for_completion().await }).is_none() {
                    res.inconclusive = true;
                    res.poisoned = true;
                }
            } else {
                res.viol("hang", &["C04"], format!("the reader is stuck ({w:?}) after cancellation"));
                res.poisoned = true;
            }
        }
        Some(_) => res.add("extreme_http_refused", 1),
        None => {
            res.inconclusive = true;
            res.poisoned = true;
        }
    }
    if !res.poisoned {
        rt.stop();
        stop.store(true, SeqCst);
        let _ = std::net::TcpStream::connect(addr);
        let _ = server.join();
    }
    panics_seen(&mut res, &count, "extreme http");
    res.add("extreme_http_responses", responses.load(SeqCst));
    res.add("extreme_operations", count.ops.load(SeqCst));
    done(&mut res);
    res
}
