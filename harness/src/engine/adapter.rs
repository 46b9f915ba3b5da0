//! The adapters: streams over asynchronous readers and over object stores. The reader and the object
//! store service underneath are scripted and record what they are asked for.

use std::collections::VecDeque;
use std::io::{self, SeekFrom};
use std::num::NonZeroUsize;
use std::path::Path;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::LazyLock;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::Bytes;
use futures_util::{Stream, StreamExt};
use opendal::raw::{
    OpCopier, OpCopy, OpCreateDir, OpList, OpPresign, OpRead, OpRename, OpStat, OpWrite, RpCreateDir,
    RpPresign, RpRead, RpRename, RpStat, oio,
};
use opendal::raw::{Service, ServiceInfo};
use opendal::{Buffer, BytesRange, Capability, EntryMode, ErrorKind, Metadata, OperationContext, Operator};
use parking_lot::Mutex;
use stream_download::async_read::{AsyncReadStream, AsyncReadStreamParams};
use stream_download::source::{DecodeError, SourceStream, StreamOutcome};
use stream_download::{Settings, StreamDownload};
use stream_download_opendal::{OpendalStream, OpendalStreamParams, StreamDownloadExt};
use tokio::io::{AsyncRead, ReadBuf};

use crate::drive::{self, Content};
use crate::pipe::{FOREVER, Op, Ret, Store, provider};
use crate::quiesce::{Wait, tick};
use crate::report::{Fnv, Res};
use crate::rng::{Rng, fill, first_diff};
use crate::storage::{DynProvider, StoreCfg, StoreCtl};
use crate::trace;

static RT: LazyLock<tokio::runtime::Runtime> =
    LazyLock::new(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime"));

// ---------------------------------------------------------------- asynchronous reader

#[derive(Clone, Debug)]
struct ReaderScript {
    seed: u64,
    total: u64,
    piece: u64,
    /// chance in 8 of pending first
    pending: u64,
    error: Option<(u64, io::ErrorKind)>,
    /// nothing for a while
    pause: Option<(u64, u64)>,
}

struct ScriptReader {
    s: ReaderScript,
    pos: u64,
    rng: Rng,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    failed: bool,
}

impl ScriptReader {
    fn new(s: &ReaderScript) -> Self {
        Self { s: s.clone(), pos: 0, rng: Rng::new(s.seed ^ 9), sleep: None, failed: false }
    }
}

fn wake_soon(cx: &Context<'_>) {
    let w = cx.waker().clone();
    tokio::spawn(async move {
        tokio::task::yield_now().await;
        w.wake();
    });
}

impl AsyncRead for ScriptReader {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = self.get_mut();
        tick();
        if let Some(s) = &mut me.sleep {
            match s.as_mut().poll(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(()) => me.sleep = None,
            }
        }
        if let Some((at, ms)) = me.s.pause
            && me.pos >= at
        {
            me.s.pause = None;
            let mut s = Box::pin(tokio::time::sleep(Duration::from_millis(ms)));
            if s.as_mut().poll(cx).is_pending() {
                me.sleep = Some(s);
                return Poll::Pending;
            }
        }
        if me.rng.chance(me.s.pending, 8) {
            wake_soon(cx);
            return Poll::Pending;
        }
        let mut end = me.s.total;
        if let Some((at, kind)) = me.s.error
            && !me.failed
        {
            if me.pos >= at {
                me.failed = true;
                return Poll::Ready(Err(io::Error::new(kind, "scripted reader error")));
            }
            end = at;
        }
        let n = me.rng.range(1, me.s.piece).min(buf.remaining() as u64).min(end.saturating_sub(me.pos));
        let data = fill(me.s.seed, me.pos, n as usize);
        buf.put_slice(&data);
        me.pos += n;
        Poll::Ready(Ok(()))
    }
}

// ---------------------------------------------------------------- object store

#[derive(Clone, Copy, Debug, PartialEq)]
enum OFault {
    /// an error after so many bytes, and then the rest
    Error(u64),
    /// an error after so many bytes, and then nothing more
    Broken(u64),
    /// the end after so many bytes
    Early(u64),
    /// nothing more after so many bytes
    Stall(u64),
    /// can not be opened
    Open,
}

#[derive(Clone, Debug)]
struct ObjScript {
    seed: u64,
    total: u64,
    piece: u64,
    pending: u64,
    faults: Vec<(usize, OFault)>,
    ctype: Option<&'static str>,
    stat_error: Option<ErrorKind>,
}

#[derive(Default, Debug)]
struct ObjLog {
    stats: usize,
    opens: Vec<(u64, Option<u64>)>,
    /// calls on the adapter: what it is expected to open next
    calls: Vec<(u64, Option<u64>)>,
    problems: Vec<String>,
    served: u64,
    stalled: u64,
    wrong_path: bool,
}

#[derive(Clone)]
struct Obj {
    s: Arc<ObjScript>,
    log: Arc<Mutex<ObjLog>>,
}

impl std::fmt::Debug for Obj {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Obj")
    }
}

const OBJ_PATH: &str = "dir/some object ä.bin";

impl Service for Obj {
    type Reader = ObjReader;
    type Writer = ();
    type Lister = ();
    type Deleter = ();
    type Copier = ();

    fn info(&self) -> ServiceInfo {
        ServiceInfo::with_scheme("vh")
    }
    fn capability(&self) -> Capability {
        Capability { read: true, stat: true, ..Default::default() }
    }
    async fn create_dir(&self, _: &OperationContext, _: &str, _: OpCreateDir) -> opendal::Result<RpCreateDir> {
        Err(opendal::Error::new(ErrorKind::Unsupported, "no"))
    }
    async fn stat(&self, _: &OperationContext, path: &str, _: OpStat) -> opendal::Result<RpStat> {
        tick();
        {
            let mut l = self.log.lock();
            l.stats += 1;
            l.wrong_path |= path != OBJ_PATH;
        }
        if let Some(k) = self.s.stat_error {
            return Err(opendal::Error::new(k, "scripted stat error"));
        }
        Ok(RpStat::new(self.meta()))
    }
    fn read(&self, _: &OperationContext, path: &str, _: OpRead) -> opendal::Result<Self::Reader> {
        self.log.lock().wrong_path |= path != OBJ_PATH;
        Ok(ObjReader { o: self.clone() })
    }
    fn write(&self, _: &OperationContext, _: &str, _: OpWrite) -> opendal::Result<Self::Writer> {
        self.bad("write")
    }
    fn delete(&self, _: &OperationContext) -> opendal::Result<Self::Deleter> {
        self.bad("delete")
    }
    fn list(&self, _: &OperationContext, _: &str, _: OpList) -> opendal::Result<Self::Lister> {
        self.bad("list")
    }
    fn copy(&self, _: &OperationContext, _: &str, _: &str, _: OpCopy, _: OpCopier) -> opendal::Result<Self::Copier> {
        self.bad("copy")
    }
    async fn rename(&self, _: &OperationContext, _: &str, _: &str, _: OpRename) -> opendal::Result<RpRename> {
        Err(opendal::Error::new(ErrorKind::Unsupported, "no"))
    }
    async fn presign(&self, _: &OperationContext, _: &str, _: OpPresign) -> opendal::Result<RpPresign> {
        Err(opendal::Error::new(ErrorKind::Unsupported, "no"))
    }
}

impl Obj {
    fn meta(&self) -> Metadata {
        let m = Metadata::new(EntryMode::FILE).with_content_length(self.s.total);
        match self.s.ctype {
            Some(c) => m.with_content_type(c.to_string()),
            None => m,
        }
    }
    fn bad<T>(&self, what: &str) -> opendal::Result<T> {
        self.log.lock().problems.push(format!("unexpected operation {what}"));
        Err(opendal::Error::new(ErrorKind::Unsupported, "no"))
    }
}

struct ObjReader {
    o: Obj,
}

impl oio::Read for ObjReader {
    async fn open(&self, range: BytesRange) -> opendal::Result<(RpRead, Box<dyn oio::ReadStreamDyn>)> {
        tick();
        let o = &self.o;
        let (start, size) = (range.offset(), range.size());
        let end = size.map_or(o.s.total, |n| start.saturating_add(n));
        let idx = {
            let mut l = o.log.lock();
            if start > o.s.total || end > o.s.total {
                l.problems.push(format!("{start}..{end} opened, the length is {}", o.s.total));
            }
            if let Some(&(a, b)) = l.calls.last()
                && (start, end) != (a, b.unwrap_or(o.s.total))
            {
                l.problems.push(format!("{start}..{end} opened, asked for was {a}..{b:?}"));
            }
            l.opens.push((start, size));
            l.opens.len() - 1
        };
        let fault = o.s.faults.iter().find(|f| f.0 == idx).map(|f| f.1);
        if fault == Some(OFault::Open) {
            return Err(opendal::Error::new(ErrorKind::Unexpected, "scripted open error"));
        }
        let s = ObjStream {
            o: o.clone(),
            start,
            pos: start,
            end: end.min(o.s.total),
            fault,
            rng: Rng::new(o.s.seed ^ idx as u64),
        };
        Ok((RpRead::new(o.meta()), Box::new(s)))
    }

    async fn read(&self, range: BytesRange) -> opendal::Result<(RpRead, Buffer)> {
        let (rp, mut s) = self.open(range).await?;
        let mut v = vec![];
        loop {
            let b = s.read_dyn().await?;
            if b.is_empty() {
                return Ok((rp, Buffer::from(v)));
            }
            v.extend_from_slice(&b.to_vec());
        }
    }
}

struct ObjStream {
    o: Obj,
    start: u64,
    pos: u64,
    end: u64,
    fault: Option<OFault>,
    rng: Rng,
}

impl oio::ReadStream for ObjStream {
    async fn read(&mut self) -> opendal::Result<Buffer> {
        tick();
        let s = self.o.s.clone();
        while self.rng.chance(s.pending, 8) {
            tokio::task::yield_now().await;
        }
        let mut end = self.end;
        if let Some(f) = self.fault {
            let (OFault::Error(k) | OFault::Broken(k) | OFault::Early(k) | OFault::Stall(k)) = f else {
                unreachable!()
            };
            if self.pos - self.start >= k {
                match f {
                    OFault::Error(_) => {
                        self.fault = None;
                        return Err(opendal::Error::new(ErrorKind::Unexpected, "scripted error").set_temporary());
                    }
                    OFault::Broken(_) => {
                        self.fault = None;
                        self.end = self.pos;
                        return Err(opendal::Error::new(ErrorKind::Unexpected, "scripted error"));
                    }
                    OFault::Early(_) => return Ok(Buffer::new()),
                    _ => {
                        self.o.log.lock().stalled += 1;
                        std::future::pending::<()>().await;
                    }
                }
            }
            end = end.min(self.start + k);
            if self.fault.is_none() {
                end = self.end;
            }
        }
        let n = self.rng.range(1.max(s.piece / 2), s.piece).min(end - self.pos);
        let data = fill(s.seed, self.pos, n as usize);
        self.pos += n;
        self.o.log.lock().served += n;
        if n > 3 && self.rng.chance(1, 4) {
            // not contiguous
            let data = Bytes::from(data);
            let k = self.rng.range(1, n - 1) as usize;
            return Ok(Buffer::from(VecDeque::from([data.slice(..k), data.slice(k..)]).into_iter().collect::<Vec<_>>()));
        }
        Ok(Buffer::from(data))
    }
}

/// Records what the library asks of the adapter.
struct Wrap {
    inner: OpendalStream,
    log: Arc<Mutex<ObjLog>>,
}

impl Stream for Wrap {
    type Item = io::Result<Bytes>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Pin::new(&mut self.inner).poll_next(cx)
    }
}

#[derive(Debug, thiserror::Error)]
#[error("never")]
struct Never;
impl DecodeError for Never {}

impl SourceStream for Wrap {
    type Params = Self;
    type StreamCreationError = Never;
    async fn create(params: Self) -> Result<Self, Never> {
        Ok(params)
    }
    fn content_length(&self) -> Option<u64> {
        self.inner.content_length()
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        self.log.lock().calls.push((start, end));
        self.inner.seek_range(start, end).await
    }
    async fn reconnect(&mut self, current_position: u64) -> io::Result<()> {
        self.log.lock().calls.push((current_position, None));
        self.inner.reconnect(current_position).await
    }
    fn supports_seek(&self) -> bool {
        self.inner.supports_seek()
    }
    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        self.inner.on_finish(result, outcome).await
    }
}

// ---------------------------------------------------------------- scenarios

pub fn scenario(_prop: &str, seed: u64, dir: &Path) -> Res {
    LazyLock::force(&RT);
    crate::panics::take();
    let mut rng = Rng::new(seed ^ 0xC15);
    trace::configure(seed, rng.below(3));
    let mut res = match rng.below(20) {
        0..=6 => reader_pipe(seed, &mut rng, dir),
        7..=9 => reader_direct(seed, &mut rng),
        10..=16 => object_pipe(seed, &mut rng, dir),
        _ => object_direct(seed, &mut rng),
    };
    for p in crate::panics::take() {
        if crate::panics::own(&p) {
            res.inconclusive = true;
        } else {
            res.viol("panic", &["C15", "C21"], p);
        }
    }
    res.nontrivial = true;
    if !res.viols.is_empty() || res.inconclusive {
        res.log = format!("{}\n{}", res.sample, res.log);
    }
    res
}

fn some_total(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => rng.below(3),
        1..=4 => rng.range(1, 6_000),
        5 | 6 => rng.range(4_000, 40_000),
        _ => rng.range(40_000, 200_000),
    }
}

fn reader_script(seed: u64, rng: &mut Rng) -> ReaderScript {
    let total = some_total(rng);
    ReaderScript {
        seed: seed ^ 0x15,
        total,
        piece: match rng.below(4) {
            0 => rng.range(1, 20),
            1 => 100_000,
            _ => rng.range(1, 9_000),
        }
        .max(total / 3_000),
        pending: rng.below(4),
        error: rng.chance(1, 3).then(|| {
            (
                rng.below(total + 1),
                *rng.pick(&[
                    io::ErrorKind::Other,
                    io::ErrorKind::UnexpectedEof,
                    io::ErrorKind::ConnectionReset,
                    io::ErrorKind::Interrupted,
                    io::ErrorKind::WouldBlock,
                ]),
            )
        }),
        pause: rng.chance(1, 8).then(|| (rng.below(total + 1), rng.range(30, 120))),
    }
}

/// (operations, storage, capacity)
fn program(rng: &mut Rng, total: u64, known: bool, seeks: bool) -> (Vec<Op>, Store, Option<usize>) {
    let store = match rng.below(6) {
        0 => Store::Temp,
        1 => Store::BMem(rng.range(64, total.max(65)) as usize),
        2 => Store::AMem(rng.range(64, total.max(65)) as usize),
        _ => Store::Mem,
    };
    let cap = store.capacity(known.then_some(total));
    let mut ops = vec![];
    for _ in 0..rng.below(7) {
        if seeks && cap.is_none() && total > 0 && rng.chance(1, 2) {
            ops.push(Op::Seek(match rng.below(3) {
                0 if known => SeekFrom::End(-(rng.below(total + 1) as i64)),
                _ => SeekFrom::Start(rng.below(total)),
            }));
        } else {
            let n = rng.range(1, total / 3 + 2) as usize;
            ops.push(Op::Read(cap.map_or(n, |c| n.min(c))));
        }
        if rng.chance(1, 8) {
            ops.push(Op::Nap(rng.range(10, 2_000)));
        }
    }
    let n = rng.range(1, 20_000) as usize;
    let n = cap.map_or(n, |c| n.min(c));
    ops.push(Op::ToEnd(n));
    if cap.is_none() {
        ops.push(Op::Seek(SeekFrom::Start(0)));
        ops.push(Op::ToEnd(n));
    }
    (ops, store, cap)
}

struct Made<P> {
    prov: P,
    outer: Arc<StoreCtl>,
}

fn make(store: Store, seed: u64, dir: &Path) -> Made<DynProvider> {
    let outer = StoreCtl::new(StoreCfg { seed, check_content: true, ..StoreCfg::default() });
    let inner = StoreCtl::new(StoreCfg::default());
    Made { prov: provider(store, &outer, &inner, &inner, &dir.to_path_buf()), outer }
}

struct Expect {
    total: u64,
    /// nothing may fail
    sound: bool,
    known: bool,
}

fn run_ops(sd: StreamDownload<DynProvider>, seed: u64, e: &Expect, ops: Vec<Op>, outer: &StoreCtl, res: &mut Res) {
    let mut d = drive::start(sd, Content { seed, total: e.total }, ops, || ());
    let w = d.wait(Duration::from_secs(25));
    let results = d.results();
    match w {
        Wait::Done => {}
        Wait::Timeout => res.inconclusive = true,
        w => {
            res.viol("hang", &["C15", "C04"], format!("operation {} never returns ({w:?})", results.len()));
            res.poisoned = true;
        }
    }
    let mut fp = Fnv::default();
    for (i, d) in results.iter().enumerate() {
        fp.bytes(format!("{:?}{:?}", d.op, d.ret).as_bytes());
        if let Some(b) = d.bad {
            res.viol("wrong_bytes", &["C15", "C01"], format!("operation {i} {:?} at {}: wrong byte at {b}", d.op, d.pos));
        }
        match &d.ret {
            Ret::Panic => res.viol("panic", &["C15", "C21"], format!("operation {i} {:?} panicked", d.op)),
            Ret::Err(k, m) | Ret::AllErr(_, k, m) => {
                if e.sound {
                    res.viol("unexpected_error", &["C15"], format!("operation {i} {:?} at {}: {k:?} {m}", d.op, d.pos));
                }
                res.add("errors_seen", 1);
            }
            Ret::All(_) => {
                // an error at the very end of content of known length changes nothing
                if d.after < e.total || !e.sound && !e.known {
                    res.viol("premature_end", &["C15", "C02", "C05"], format!("operation {i}: end of stream at {} of {}", d.after, e.total));
                }
            }
            Ret::Read(k) => {
                let Op::Read(n) = d.op else { continue };
                let want = (n as u64).min(e.total.saturating_sub(d.pos));
                if (*k as u64) < want {
                    res.viol("short_read", &["C15", "C02"], format!("operation {i}: read of {n} at {} returned {k} of {want}", d.pos));
                }
            }
            Ret::Pos(p) => {
                let Op::Seek(s) = d.op else { continue };
                let want = match s {
                    SeekFrom::Start(x) => x,
                    SeekFrom::End(x) => e.total.saturating_add_signed(x),
                    SeekFrom::Current(x) => d.pos.saturating_add_signed(x),
                };
                if *p != want {
                    res.viol("seek", &["C15", "C03"], format!("operation {i}: seek to {want} returned {p}"));
                }
            }
            Ret::Unit | Ret::Fill(..) => {}
        }
        res.log.push_str(&format!("{:?} at {} -> {:?}\n", d.op, d.pos, d.ret));
    }
    for p in outer.st.lock().problems.iter().take(2) {
        res.viol("stored_wrong", &["C15", "C01"], p.clone());
    }
    res.add("reader_operations", results.len() as u64);
    res.fingerprint = fp.0;
}

fn reader_pipe(seed: u64, rng: &mut Rng, dir: &Path) -> Res {
    let mut res = Res::default();
    let s = reader_script(seed, rng);
    let known = rng.chance(1, 2);
    let (ops, store, cap) = program(rng, s.total, known, true);
    let m = make(store, s.seed, dir);
    let retry = if s.pause.is_some() && rng.chance(2, 3) { Duration::from_millis(rng.range(10, 40)) } else { FOREVER };
    let prefetch = *rng.pick(&[0, 0, 1, 500, 10_000]);
    let prefetch = cap.map_or(prefetch, |c| prefetch.min(c as u64 / 2));
    let reconnects = Arc::new(AtomicU64::new(0));
    let r2 = reconnects.clone();
    let settings = Settings::default()
        .prefetch_bytes(prefetch)
        .batch_write_size(NonZeroUsize::new(*rng.pick(&[1usize << 16, 4096, 100])).expect("nonzero"))
        .retry_timeout(retry)
        .on_reconnect(move |_, _| {
            r2.fetch_add(1, SeqCst);
        });
    res.sample = format!("seed={seed} reader {s:?} known={known} {} retry={retry:?} prefetch={prefetch} ops={ops:?}", store.name());
    let len = known.then_some(s.total);
    let direct = rng.chance(1, 3);
    let sd = RT.block_on(async {
        let r = ScriptReader::new(&s);
        if direct {
            StreamDownload::from_stream(AsyncReadStream::new(r, len), m.prov, settings).await.map_err(|e| e.to_string())
        } else {
            let p = AsyncReadStreamParams::new(r);
            let p = match len {
                Some(n) if n % 2 == 0 => p.content_length(n),
                Some(n) => p.content_length(Some(n)),
                None => p,
            };
            StreamDownload::new_async_read(p, m.prov, settings).await.map_err(|e| e.to_string())
        }
    });
    res.add("async_reader_streams", 1);
    match sd {
        Err(e) => res.viol("create", &["C15", "C22"], e),
        Ok(sd) => {
            if sd.content_length() != len {
                res.viol("content_length", &["C15", "C22"], format!("content length {:?}", sd.content_length()));
            }
            let e = Expect { total: s.total, sound: s.error.is_none() || known && s.error.is_some_and(|e| e.0 >= s.total), known };
            run_ops(sd, s.seed, &e, ops, &m.outer, &mut res);
        }
    }
    res.add("async_reader_errors", u64::from(s.error.is_some()));
    if reconnects.load(SeqCst) > 0 {
        res.viol("reconnect", &["C15", "C11"], "a reconnection of an asynchronous reader was reported as successful");
    }
    res
}

fn reader_direct(seed: u64, rng: &mut Rng) -> Res {
    let mut res = Res::default();
    let s = reader_script(seed, rng);
    let len = rng.chance(1, 2).then(|| rng.below(1 << 40));
    let meddle = rng.chance(1, 3);
    res.sample = format!("seed={seed} reader direct {s:?} meddle={meddle}");
    res.add("async_reader_direct", 1);
    let mut problems = vec![];
    let mut fp = Fnv::default();
    RT.block_on(async {
        let made = AsyncReadStream::create(AsyncReadStreamParams::new(ScriptReader::new(&s)).content_length(len)).await;
        let Ok(mut st) = made;
        if st.content_length() != len {
            problems.push(format!("content length {:?} instead of {len:?}", st.content_length()));
        }
        if st.supports_seek() {
            problems.push("claims to be seekable".to_string());
        }
        let mut pos = 0u64;
        let stop = s.error.map_or(s.total, |e| e.0);
        let mut error = None;
        loop {
            if meddle && rng.chance(1, 6) {
                let r = if rng.chance(1, 2) { st.seek_range(rng.below(s.total + 1), None).await } else { st.reconnect(pos).await };
                if r.is_ok() {
                    problems.push("seek or reconnect of a plain reader succeeded".to_string());
                }
            }
            match st.next().await {
                Some(Ok(b)) => {
                    fp.put(b.len() as u64);
                    if let Some(d) = first_diff(s.seed, pos, &b) {
                        problems.push(format!("wrong byte at {}", pos + d as u64));
                        break;
                    }
                    pos += b.len() as u64;
                    if error.is_some() {
                        problems.push("content after an error".to_string());
                        break;
                    }
                    if pos > s.total {
                        break;
                    }
                }
                Some(Err(e)) => {
                    if error.is_some() || s.error.is_none_or(|x| x.1 != e.kind()) || pos != stop {
                        problems.push(format!("unexpected error {e:?} at {pos}"));
                        break;
                    }
                    error = Some(e.kind());
                }
                None => break,
            }
        }
        if pos != stop || error != s.error.map(|e| e.1) {
            problems.push(format!("ended at {pos} of {stop} with {error:?}"));
        }
    });
    fp.put(s.total);
    res.fingerprint = fp.0;
    for p in problems.into_iter().take(3) {
        res.viol("reader", &["C15"], p);
    }
    res
}

fn obj_script(seed: u64, rng: &mut Rng) -> ObjScript {
    let total = some_total(rng);
    ObjScript {
        seed: seed ^ 0x51,
        total,
        piece: match rng.below(4) {
            0 => rng.range(1, 50),
            1 => 1 << 20,
            _ => rng.range(1, 9_000),
        }
        .max(total / 3_000),
        pending: rng.below(4),
        faults: vec![],
        ctype: *rng.pick(&[None, Some("audio/mpeg"), Some("x/y; z=1")]),
        stat_error: None,
    }
}

fn object(s: &ObjScript) -> (Operator, Arc<Mutex<ObjLog>>) {
    let log = Arc::new(Mutex::new(ObjLog::default()));
    let o = Obj { s: Arc::new(s.clone()), log: log.clone() };
    (Operator::from_parts(OperationContext::default(), Arc::new(o)), log)
}

fn object_pipe(seed: u64, rng: &mut Rng, dir: &Path) -> Res {
    let mut res = Res::default();
    let mut s = obj_script(seed, rng);
    let total = s.total;
    let mut retry = FOREVER;
    let mut sound = true;
    match rng.below(8) {
        0 | 1 => {
            retry = Duration::from_millis(rng.range(30, 100));
            for i in 0..rng.range(1, 3) as usize {
                s.faults.push((i, OFault::Stall(rng.below(total + 1))));
            }
        }
        2 | 3 => {
            for i in 0..rng.range(1, 3) as usize {
                let k = rng.range(1, total + 1);
                s.faults.push((i, *rng.pick(&[OFault::Error(k), OFault::Broken(k), OFault::Early(k)])));
            }
        }
        4 => {
            // an empty object is never opened
            sound = total == 0;
            s.faults.push((rng.below(3) as usize, OFault::Open));
        }
        5 if rng.chance(1, 3) => s.stat_error = Some(*rng.pick(&[ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::Unexpected])),
        _ => {}
    }
    let known = total > 0;
    let (ops, store, cap) = program(rng, total, known, true);
    let m = make(store, s.seed, dir);
    let chunk = rng.chance(3, 4).then(|| rng.range(1.max(total / 3_000), *rng.clone().pick(&[10, 5_000, 70_000])) as usize);
    let prefetch = *rng.pick(&[0, 0, 1, 500, 10_000]);
    let prefetch = cap.map_or(prefetch, |c| prefetch.min(c as u64 / 2));
    res.sample = format!("seed={seed} object {s:?} {} chunk={chunk:?} retry={retry:?} prefetch={prefetch} ops={ops:?}", store.name());
    let (op, log) = object(&s);
    let mut p = OpendalStreamParams::new(op, OBJ_PATH);
    if let Some(c) = chunk {
        p = p.chunk_size(NonZeroUsize::new(c).expect("nonzero"));
    }
    let wrapped = rng.chance(2, 3);
    macro_rules! settings {
        () => {
            Settings::default().prefetch_bytes(prefetch).retry_timeout(retry)
        };
    }
    let sd = RT.block_on(async {
        if wrapped {
            match OpendalStream::new(p).await {
                Ok(st) => {
                    if st.content_type() != s.ctype {
                        return Err((format!("content type {:?}", st.content_type()), String::new()));
                    }
                    StreamDownload::from_stream(Wrap { inner: st, log: log.clone() }, m.prov, settings!())
                        .await
                        .map_err(|e| (e.to_string(), String::new()))
                }
                Err(e) => {
                    let t = e.to_string();
                    Err((t, e.decode_error().await))
                }
            }
        } else {
            match StreamDownload::new_opendal(p, m.prov, settings!()).await {
                Ok(s) => Ok(s),
                Err(e) => {
                    let t = e.to_string();
                    Err((t, e.decode_error().await))
                }
            }
        }
    });
    res.add("object_streams", 1);
    match (sd, s.stat_error) {
        (Err((e, d)), Some(_)) => {
            if !e.contains("scripted stat error") && !d.contains("scripted stat error") {
                res.viol("create", &["C15", "C22"], format!("the error of the store is lost: {e} {d}"));
            }
            if !log.lock().opens.is_empty() {
                res.viol("create", &["C15", "C22"], "content was requested although creation failed");
            }
            res.add("object_creation_errors", 1);
        }
        (Err((e, _)), None) => res.viol("create", &["C15", "C22"], e),
        (Ok(_), Some(_)) => res.viol("create", &["C15", "C22"], "creation succeeded although the store reported an error"),
        (Ok(sd), None) => {
            if sd.content_length() != known.then_some(total) {
                res.viol("content_length", &["C15", "C22"], format!("content length {:?}", sd.content_length()));
            }
            run_ops(sd, s.seed, &Expect { total, sound, known }, ops, &m.outer, &mut res);
            if total > 0 && log.lock().opens.is_empty() {
                res.viol("create", &["C15"], "nothing was requested");
            }
        }
    }
    log_checks(&log, &mut res);
    res
}

fn log_checks(log: &Mutex<ObjLog>, res: &mut Res) {
    let l = log.lock();
    for p in l.problems.iter().take(3) {
        res.viol("range", &["C15", "C10"], p.clone());
    }
    if l.wrong_path {
        res.viol("path", &["C15"], "another object was accessed");
    }
    res.add("object_opens", l.opens.len() as u64);
    res.add("object_range_opens", l.calls.len() as u64);
    res.add("object_stalls", l.stalled);
    res.add("object_bytes_served", l.served);
    res.log.push_str(&format!("{l:?}\n"));
}

fn object_direct(seed: u64, rng: &mut Rng) -> Res {
    let mut res = Res::default();
    let mut s = obj_script(seed, rng);
    let total = s.total;
    if rng.chance(1, 3) {
        let k = rng.below(total + 1);
        s.faults.push((rng.below(4) as usize, *rng.pick(&[OFault::Error(k), OFault::Broken(k), OFault::Early(k), OFault::Open])));
    }
    let clean = s.faults.is_empty();
    let (op, log) = object(&s);
    let chunk = rng.range(1.max(total / 3_000), *rng.clone().pick(&[10, 5_000, 70_000])) as usize;
    // what is documented, if none is set
    let default = Rng::new(seed ^ 0xDEF).chance(1, 6);
    let chunk = if default { 4096 } else { chunk };
    let rounds = rng.range(1, 6);
    res.sample = format!("seed={seed} object direct {s:?} chunk={chunk} rounds={rounds}");
    res.add("object_direct", 1);
    let mut problems = vec![];
    let mut fp = Fnv::default();
    RT.block_on(async {
        let p = OpendalStreamParams::new(op, OBJ_PATH);
        let p = if default { p } else { p.chunk_size(NonZeroUsize::new(chunk).expect("nonzero")) };
        let mut st = match OpendalStream::create(p).await {
            Ok(st) => st,
            Err(e) => {
                problems.push(format!("creation failed: {e}"));
                return;
            }
        };
        if st.content_length() != (total > 0).then_some(total) {
            problems.push(format!("content length {:?}", st.content_length()));
        }
        if !st.supports_seek() {
            problems.push("claims not to be seekable".to_string());
        }
        let (mut start, mut end) = (0, total);
        for round in 0..rounds {
            if round > 0 {
                let r = if rng.chance(1, 3) {
                    start = rng.below(total + 1);
                    end = total;
                    log.lock().calls.push((start, None));
                    st.reconnect(start).await
                } else {
                    let (a, b) = (rng.below(total + 1), rng.below(total + 1));
                    start = a.min(b);
                    let e = rng.chance(2, 3).then_some(a.max(b));
                    end = e.unwrap_or(total);
                    log.lock().calls.push((start, e));
                    st.seek_range(start, e).await
                };
                if let Err(e) = r {
                    if clean {
                        problems.push(format!("seek to {start}..{end}: {e}"));
                    }
                    return;
                }
            }
            let stop = if rng.chance(1, 3) { rng.below(8) } else { u64::MAX };
            let mut pos = start;
            let mut n = 0;
            let mut items = vec![];
            let mut failed = false;
            while n < stop {
                n += 1;
                match st.next().await {
                    Some(Ok(b)) => {
                        if b.is_empty() {
                            problems.push(format!("empty chunk at {pos}"));
                        }
                        if b.len() > chunk {
                            problems.push(format!("chunk of {} bytes, the chunk size is {chunk}", b.len()));
                        }
                        if let Some(d) = first_diff(s.seed, pos, &b) {
                            problems.push(format!("wrong byte at {} of {start}..{end}", pos + d as u64));
                            return;
                        }
                        pos += b.len() as u64;
                        items.push(b.len());
                        fp.put(b.len() as u64);
                        if pos > end {
                            problems.push(format!("content up to {pos}, requested was {start}..{end}"));
                            return;
                        }
                    }
                    Some(Err(e)) => {
                        failed = true;
                        if clean {
                            problems.push(format!("unexpected error {e} at {pos}"));
                            return;
                        }
                        res.log.push_str(&format!("error at {pos}: {e}\n"));
                        if n > 500_000 {
                            return;
                        }
                    }
                    None => {
                        if pos != end && clean {
                            problems.push(format!("end at {pos} of {start}..{end}"));
                            return;
                        }
                        // early end without an error is what the store did
                        let early = s.faults.iter().any(|f| matches!(f.1, OFault::Early(_)));
                        if pos != end && !failed && !early {
                            problems.push(format!("the error of the store did not surface, end at {pos} of {start}..{end}"));
                        }
                        break;
                    }
                }
            }
            // plenty of data at any time: chunks are full, apart from where buffers of the store end
            let big = items.iter().filter(|n| **n == chunk).count();
            if clean && s.piece >= 2 * chunk as u64 && pos - start > 4 * s.piece && big == 0 {
                problems.push(format!("chunk size {chunk} is never reached: {:?}", &items[..items.len().min(20)]));
            }
            if failed {
                return;
            }
        }
    });
    res.fingerprint = fp.0 ^ total;
    for p in problems.into_iter().take(3) {
        res.viol("object", &["C15"], p);
    }
    log_checks(&log, &mut res);
    res
}
