//! The pipeline engine: one reader, one scripted source, one monitored storage, a program of reader
//! operations, optional faults and cancellation. Executes a `Plan` against the real library and
//! records everything that can be observed from outside.

use std::io::{self, Read, Seek, SeekFrom};
use std::num::NonZeroUsize;
use std::path::PathBuf;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc;
use std::time::Duration;

use parking_lot::Mutex;
use stream_download::source::SourceStream;
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::{Settings, StreamDownload, StreamPhase, StreamState};

use crate::clock::Clock;
use crate::quiesce::{Wait, tick, wait_done};
use crate::rng::{Rng, first_diff};
use crate::source::{Ev, ScriptedSource, SrcCfg, SrcCtl, timed_source};
use crate::storage::{Beat, DynProvider, MonProvider, StoreCfg, StoreCtl};
use crate::trace;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Store {
    Mem,
    Temp,
    BMem(usize),
    BTemp(usize),
    /// adaptive: memory when fixed, memory when variable
    AMem(usize),
    /// adaptive: memory when fixed, temporary file when variable
    ATemp(usize),
}

impl Store {
    /// The capacity a user has asked for, if the storage is limited for this content length.
    pub fn capacity(self, len: Option<u64>) -> Option<usize> {
        match self {
            Self::Mem | Self::Temp => None,
            Self::BMem(n) | Self::BTemp(n) => Some(n),
            Self::AMem(n) | Self::ATemp(n) => len.is_none().then_some(n),
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Self::Mem => "memory",
            Self::Temp => "tempfile",
            Self::BMem(_) => "bounded-memory",
            Self::BTemp(_) => "bounded-tempfile",
            Self::AMem(_) => "adaptive-memory",
            Self::ATemp(_) => "adaptive-tempfile",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Read(usize),
    /// reads with buffers of this size until the end of stream or an error
    ToEnd(usize),
    Seek(SeekFrom),
    /// reader pauses for some microseconds
    Nap(u64),
    /// `cancel_download` from the reading thread
    Cancel,
    /// waits until the download has finished
    AwaitFinish,
    /// waits until the storage is full or everything is stored, without asking for anything
    AwaitFill,
    /// waits until a request hangs or the download has finished
    AwaitHang,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CancelAt {
    /// while this operation runs, after a delay in microseconds
    Op(usize, u64),
    /// from the n-th progress callback
    Progress(u64),
    /// from the on_reconnect callback
    Reconnect,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub seed: u64,
    pub src: SrcCfg,
    pub store: Store,
    pub outer: StoreCfg,
    pub prefetch: u64,
    pub batch: usize,
    pub retry: Duration,
    /// 0: current thread runtime
    pub threads: usize,
    pub perturb: u64,
    pub ops: Vec<Op>,
    pub cancel: Option<CancelAt>,
    pub cancel_on_drop: bool,
    /// drop the reader right after its operations
    pub early_drop: bool,
    /// after the operations, wait for the download to finish and read everything again
    pub finish: bool,
    /// every operation waits for the driver
    pub lockstep: bool,
    /// the runtime's clock is paused
    pub virt: bool,
    /// `retry` is the documented default, which nobody has set
    pub retry_default: bool,
    /// a task on the same (current thread) runtime counts its turns between writes
    pub beat: bool,
    pub dir: PathBuf,
    /// poll limits against livelock
    pub max_polls: u64,
}

pub const FOREVER: Duration = Duration::from_secs(36_000);

impl Plan {
    pub fn simple(seed: u64, total: u64) -> Self {
        Self {
            seed,
            src: SrcCfg::simple(seed, total),
            store: Store::Mem,
            outer: StoreCfg {
                seed,
                check_content: true,
                ..StoreCfg::default()
            },
            prefetch: 0,
            batch: 4096,
            retry: FOREVER,
            threads: 1,
            perturb: 0,
            ops: vec![],
            cancel: None,
            cancel_on_drop: true,
            early_drop: false,
            finish: true,
            lockstep: false,
            virt: false,
            retry_default: false,
            beat: false,
            dir: std::env::temp_dir(),
            max_polls: 2_000_000,
        }
    }
    pub fn capacity(&self) -> Option<usize> {
        self.store.capacity(self.src.declared)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Read(usize),
    Pos(u64),
    /// bytes read until the end
    All(u64),
    Err(io::ErrorKind, String),
    /// `ToEnd` failed after this many bytes
    AllErr(u64, io::ErrorKind, String),
    Unit,
    /// whether it is full, where the writer is, where it should be
    Fill(bool, u64, u64),
    Panic,
}

#[derive(Clone, Debug)]
pub struct OpRes {
    pub op: Op,
    /// reader position before, by the model
    pub pos: u64,
    pub ret: Ret,
    /// position of a wrong byte
    pub bad: Option<u64>,
    /// source state when the operation returned
    pub since_seek: u64,
    pub eof_since_seek: bool,
    pub requests: usize,
    pub wpos: u64,
    /// the download had finished when the operation started / ended
    pub fin_before: bool,
    pub fin_after: bool,
    /// the source was gone, so that the download task is over
    pub gone_before: bool,
    pub section: u64,
    /// cancellation had been requested before the operation started / ended
    pub can_before: bool,
    pub can_after: bool,
    /// an op of the verification phase
    pub verify: bool,
    /// a read of `ToEnd` was shorter than its buffer although it was not the last one
    pub short: Option<(u64, usize, usize)>,
    /// the buffer beyond the returned length was changed
    pub us: u64,
}

#[derive(Default)]
pub struct Cur {
    pub started: usize,
    pub done: usize,
    /// what the running operation needs: [from, to)
    pub need: Option<(u64, u64)>,
    pub results: Vec<OpRes>,
    pub pos: u64,
    pub dropped: bool,
    /// `AwaitFill` waits until this position has been written, `AwaitHang` is without one
    pub fill: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub st: StreamState,
    pub wpos: u64,
    pub bytes_written: u64,
    /// the reported range is completely written
    pub covered: bool,
    /// what the elapsed time has to lie in between
    pub at_least: Duration,
    pub at_most: Duration,
}

pub struct Run {
    pub results: Vec<OpRes>,
    pub log: Vec<Ev>,
    pub progress: Vec<Prog>,
    pub reconnect_calls: u64,
    pub wait: Wait,
    /// what the driver was waiting for when it gave up
    pub stuck_in: Option<String>,
    pub livelock: Option<String>,
    pub outer: Arc<StoreCtl>,
    pub inner_fixed: Arc<StoreCtl>,
    pub inner_var: Arc<StoreCtl>,
    pub ctl: Arc<SrcCtl>,
    pub init_error: Option<String>,
    pub content_length: Option<u64>,
    pub panics: Vec<String>,
    pub waited: bool,
    pub early: Vec<String>,
    pub reader_dropped: bool,
    pub satisfiable_waits: u64,
    pub permits: u64,
    pub finish_waited: bool,
    pub injected_writer: usize,
}

pub fn provider(
    store: Store,
    outer: &Arc<StoreCtl>,
    fixed: &Arc<StoreCtl>,
    var: &Arc<StoreCtl>,
    dir: &PathBuf,
) -> DynProvider {
    let nz = |n: usize| NonZeroUsize::new(n.max(1)).expect("nonzero");
    let mem = |c: &Arc<StoreCtl>| MonProvider {
        inner: MemoryStorageProvider,
        ctl: c.clone(),
    };
    let tmp = |c: &Arc<StoreCtl>| MonProvider {
        inner: TempStorageProvider::new_in(dir),
        ctl: c.clone(),
    };
    macro_rules! wrap {
        ($p:expr) => {
            DynProvider::new(MonProvider {
                inner: $p,
                ctl: outer.clone(),
            })
        };
    }
    match store {
        Store::Mem => wrap!(mem(fixed)),
        Store::Temp => wrap!(tmp(fixed)),
        Store::BMem(n) => wrap!(BoundedStorageProvider::new(mem(fixed), nz(n))),
        Store::BTemp(n) => wrap!(BoundedStorageProvider::new(tmp(fixed), nz(n))),
        Store::AMem(n) => wrap!(AdaptiveStorageProvider::with_fixed_and_variable(
            mem(fixed),
            mem(var),
            nz(n)
        )),
        Store::ATemp(n) => wrap!(AdaptiveStorageProvider::with_fixed_and_variable(
            mem(fixed),
            tmp(var),
            nz(n)
        )),
    }
}

pub struct Shared {
    pub cur: Mutex<Cur>,
    pub cancelled: AtomicBool,
    pub filled: Mutex<Option<(bool, u64)>>,
    pub filled_cv: parking_lot::Condvar,
}

impl Shared {
    /// Ends `AwaitFill`.
    fn fill_over(&self, full: bool, wpos: u64) {
        self.cur.lock().fill = None;
        *self.filled.lock() = Some((full, wpos));
        self.filled_cv.notify_all();
    }
}

fn need_of(plan: &Plan, pos: u64, op: Op) -> Option<(u64, u64)> {
    let len = plan.src.declared;
    let clamp = |x: u64| len.map_or(x, |l| x.min(l));
    match op {
        Op::Read(n) => Some((pos, clamp(pos.saturating_add(n as u64)))),
        Op::ToEnd(_) => Some((pos, u64::MAX)),
        Op::AwaitFinish => Some((0, u64::MAX)),
        Op::Seek(s) => target(plan, pos, s).ok().map(|t| (t, t.saturating_add(1))),
        _ => None,
    }
}

/// The position a seek should end up at, or the kind of the error.
pub fn target(plan: &Plan, pos: u64, s: SeekFrom) -> Result<u64, io::ErrorKind> {
    let len = plan.src.declared;
    let t = match s {
        SeekFrom::Start(x) => x,
        SeekFrom::Current(d) => pos
            .checked_add_signed(d)
            .ok_or(io::ErrorKind::InvalidInput)?,
        SeekFrom::End(d) => len
            .ok_or(io::ErrorKind::Unsupported)?
            .checked_add_signed(d)
            .ok_or(io::ErrorKind::InvalidInput)?,
    };
    let t = len.map_or(t, |l| t.min(l));
    if let Some(c) = plan.capacity()
        && t > pos.saturating_add(c as u64)
    {
        return Err(io::ErrorKind::InvalidInput);
    }
    Ok(t)
}

#[allow(clippy::too_many_lines)]
pub fn execute(plan: &Plan) -> Run {
    crate::panics::take();
    trace::configure(plan.seed, plan.perturb);
    let mut scfg = plan.src.clone();
    scfg.bounded = plan.capacity().is_some();
    let clock = plan.virt.then(Clock::new);
    let (src, ctl) = timed_source(scfg, clock.clone());
    let beat = plan.beat.then(Arc::<Beat>::default);
    let outer = StoreCtl::watched(plan.outer.clone(), beat.clone(), clock.clone());
    let inner_fixed = StoreCtl::new(StoreCfg::default());
    let inner_var = StoreCtl::new(StoreCfg::default());
    *ctl.store.lock() = Some(outer.clone());
    let prov = provider(plan.store, &outer, &inner_fixed, &inner_var, &plan.dir);
    let progress: Arc<Mutex<Vec<Prog>>> = Arc::default();
    let reconnect_calls = Arc::new(AtomicU64::new(0));
    let shared = Arc::new(Shared {
        cur: Mutex::new(Cur::default()),
        cancelled: AtomicBool::new(false),
        filled: Mutex::default(),
        filled_cv: parking_lot::Condvar::new(),
    });
    let created = std::time::Instant::now();
    let mut settings = Settings::<ScriptedSource>::default()
        .prefetch_bytes(plan.prefetch)
        .batch_write_size(NonZeroUsize::new(plan.batch.max(1)).expect("nonzero"))
        .cancel_on_drop(plan.cancel_on_drop)
        .on_progress({
            let progress = progress.clone();
            let outer = outer.clone();
            let cancel = plan.cancel.clone();
            let shared = shared.clone();
            let ctl = ctl.clone();
            let mut n = 0u64;
            move |s: &ScriptedSource, st: StreamState, tok| {
                tick();
                trace::perturb();
                let (wpos, bytes_written, covered) = {
                    let o = outer.st.lock();
                    let c = &st.current_chunk;
                    (
                        o.wpos,
                        o.bytes_written,
                        c.start >= c.end || o.written.gaps(c).next().is_none(),
                    )
                };
                let _ = s.content_length();
                let at_least = {
                    let s = ctl.st.lock();
                    s.last_ready.zip(s.first_poll).map_or(Duration::ZERO, |(b, a)| b - a)
                };
                let at_most = created.elapsed();
                let mut p = progress.lock();
                if p.len() < 100_000 {
                    p.push(Prog {
                        st,
                        wpos,
                        bytes_written,
                        covered,
                        at_least,
                        at_most,
                    });
                }
                n += 1;
                if cancel == Some(CancelAt::Progress(n)) {
                    shared.cancelled.store(true, SeqCst);
                    ctl.note(Ev::Mark("cancel"));
                    tok.cancel();
                    ctl.note(Ev::Mark("cancelled"));
                }
            }
        })
        .on_reconnect({
            let rc = reconnect_calls.clone();
            let cancel = plan.cancel.clone();
            let shared = shared.clone();
            let ctl = ctl.clone();
            move |_s: &ScriptedSource, tok| {
                tick();
                rc.fetch_add(1, SeqCst);
                ctl.note(Ev::Mark("on_reconnect"));
                if cancel == Some(CancelAt::Reconnect) {
                    shared.cancelled.store(true, SeqCst);
                    ctl.note(Ev::Mark("cancel"));
                    tok.cancel();
                    ctl.note(Ev::Mark("cancelled"));
                }
            }
        });

    if !plan.retry_default {
        settings = settings.retry_timeout(plan.retry);
    }
    let rt = if plan.virt {
        tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .start_paused(true)
            .build()
    } else if plan.threads == 0 {
        tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .build()
    } else {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(plan.threads)
            .enable_all()
            .build()
    }
    .expect("runtime");
    let mut run = Run {
        results: vec![],
        log: vec![],
        progress: vec![],
        reconnect_calls: 0,
        wait: Wait::Done,
        stuck_in: None,
        livelock: None,
        outer: outer.clone(),
        inner_fixed,
        inner_var,
        ctl: ctl.clone(),
        init_error: None,
        content_length: None,
        panics: vec![],
        waited: false,
        early: vec![],
        reader_dropped: false,
        satisfiable_waits: 0,
        permits: 0,
        finish_waited: false,
        injected_writer: 0,
    };
    if let Some(b) = beat {
        rt.spawn(async move {
            loop {
                b.wake.notified().await;
                b.turns.fetch_add(1, SeqCst);
            }
        });
    }
    let sd = rt.block_on(async {
        StreamDownload::from_stream(src, prov, settings)
            .await
            .map_err(|e| e.to_string())
    });
    let sd = match sd {
        Ok(s) => s,
        Err(e) => {
            run.init_error = Some(e);
            run.log = ctl.log();
            run.panics = crate::panics::take();
            return run;
        }
    };
    run.content_length = sd.content_length();
    let token = sd.cancellation_token();
    let handle = sd.handle();
    rt.spawn({
        let ctl = ctl.clone();
        async move {
            handle.wait_for_completion().await;
            tick();
            ctl.note(Ev::Mark("waited"));
        }
    });
    // the runtime needs a thread of its own
    let stop = Arc::new(tokio::sync::Notify::new());
    let rt_thread = std::thread::spawn({
        let stop = stop.clone();
        move || {
            rt.block_on(stop.notified());
            rt.shutdown_background();
        }
    });

    let (tx, rx) = mpsc::channel::<(Op, bool)>();
    let drop_now = Arc::new(AtomicBool::new(false));
    let reader_gone = Arc::new(AtomicBool::new(false));
    let reader = std::thread::spawn({
        let shared = shared.clone();
        let ctl = ctl.clone();
        let outer = outer.clone();
        let plan = plan.clone();
        let reader_gone = reader_gone.clone();
        move || {
            let mut rd = Reader {
                sd,
                pos: 0,
                plan,
                ctl: ctl.clone(),
                outer,
                shared,
            };
            while let Ok((op, verify)) = rx.recv() {
                rd.step(op, verify);
            }
            ctl.note(Ev::Mark("drop"));
            drop(rd);
            ctl.note(Ev::Mark("dropped"));
            reader_gone.store(true, SeqCst);
            tick();
        }
    });

    let limit = Duration::from_secs(25);
    let total_ops = plan.ops.len();
    let mut sent = 0;
    if !plan.lockstep {
        for op in &plan.ops {
            let _ = tx.send((*op, false));
        }
        sent = total_ops;
    }
    let mut cancel_rng = Rng::new(plan.seed ^ 0xCACE);
    let mut cancel_done = false;
    let fail = |run: &mut Run, w: Wait, what: String| {
        run.wait = w;
        run.stuck_in = Some(what);
    };
    // ---- operations
    'drive: loop {
        let (started, done, need) = {
            let c = shared.cur.lock();
            (c.started, c.done, c.need)
        };
        if let Some(CancelAt::Op(at, us)) = plan.cancel
            && !cancel_done
            && started > at
        {
            cancel_done = true;
            if us > 0 {
                std::thread::sleep(Duration::from_micros(us));
            }
            shared.cancelled.store(true, SeqCst);
            ctl.note(Ev::Mark("cancel"));
            token.cancel();
            ctl.note(Ev::Mark("cancelled"));
        }
        if done == total_ops {
            break;
        }
        if plan.lockstep && sent == done {
            let _ = tx.send((plan.ops[sent], false));
            sent += 1;
        }
        let polls = ctl.st.lock().polls;
        if polls > plan.max_polls {
            run.livelock = Some(format!("{polls} source polls without finishing"));
            break;
        }
        if plan.src.gated && !ctl.is_open() {
            // decide whether the source has to deliver more for the running operation
            let (sat, waiting, seeks) = {
                let s = ctl.st.lock();
                (satisfiable(plan, &s, need), s.waiting_permit, s.seeks)
            };
            let busy = started > done;
            if busy && !sat && waiting {
                let before = ctl.st.lock().polls;
                ctl.release(1);
                run.permits += 1;
                // let the download task take it
                let w = wait_done(
                    || {
                        let s = ctl.st.lock();
                        (s.polls > before && s.waiting_permit) || shared.cur.lock().done != done || s.finished > 0
                    },
                    limit,
                );
                if matches!(w, Wait::Timeout | Wait::Busy) {
                    fail(&mut run, w, format!("operation {started}"));
                    break;
                }
                continue;
            }
            if busy && sat {
                run.satisfiable_waits += 1;
            }
            let w = wait_done(
                || {
                    let c = shared.cur.lock();
                    if c.done != done || c.started != started {
                        return true;
                    }
                    drop(c);
                    if busy && !sat {
                        let s = ctl.st.lock();
                        s.waiting_permit || s.polls != polls
                    } else {
                        // a new request changes what is needed
                        ctl.st.lock().seeks != seeks
                    }
                },
                limit,
            );
            if w == Wait::Quiescent && !sat && matches!(plan.cancel, Some(CancelAt::Op(..))) && !cancel_done {
                cancel_done = true;
                shared.cancelled.store(true, SeqCst);
                ctl.note(Ev::Mark("cancel"));
                token.cancel();
                ctl.note(Ev::Mark("cancelled"));
                continue;
            }
            if w != Wait::Done {
                fail(
                    &mut run,
                    w,
                    format!(
                        "operation {} needs {need:?}, everything it needs was delivered: {sat}",
                        done
                    ),
                );
                break 'drive;
            }
            continue;
        }
        let cancel_pending =
            matches!(plan.cancel, Some(CancelAt::Op(at, _)) if !cancel_done && started <= at);
        let w = wait_done(
            || {
                let c = shared.cur.lock();
                if let Some(f) = c.fill {
                    drop(c);
                    let wpos = outer.st.lock().wpos;
                    let s = ctl.st.lock();
                    if wpos >= f || s.hung || s.finished > 0 || s.dropped {
                        drop(s);
                        shared.fill_over(true, wpos);
                    }
                    return false;
                }
                if c.done == total_ops || (plan.lockstep && c.done != done) {
                    return true;
                }
                if cancel_pending
                    && let Some(CancelAt::Op(at, _)) = plan.cancel
                    && c.started > at
                {
                    return true;
                }
                drop(c);
                ctl.st.lock().polls > plan.max_polls
            },
            limit,
        );
        if w == Wait::Quiescent && matches!(plan.cancel, Some(CancelAt::Op(..))) && !cancel_done {
            // blocked by a fault for good, which only the cancellation can resolve
            cancel_done = true;
            shared.cancelled.store(true, SeqCst);
            ctl.note(Ev::Mark("cancel"));
            token.cancel();
            ctl.note(Ev::Mark("cancelled"));
            continue;
        }
        if w == Wait::Quiescent && shared.cur.lock().fill.is_some() {
            let wpos = outer.st.lock().wpos;
            shared.fill_over(false, wpos);
            continue;
        }
        if w != Wait::Done {
            let c = shared.cur.lock();
            let what = format!("operation {} needs {:?}", c.done, c.need);
            drop(c);
            fail(&mut run, w, what);
            break;
        }
    }
    ctl.open();
    let _ = cancel_rng.next();
    // ---- finish
    let stuck = |run: &Run| run.wait != Wait::Done || run.livelock.is_some();
    let mut tx = Some(tx);
    let last_all = matches!(
        shared.cur.lock().results.last().map(|r| r.ret.clone()),
        Some(Ret::All(_))
    );
    if !stuck(&run) && plan.finish && (plan.capacity().is_none() || last_all) {
        run.finish_waited = true;
        let w = wait_done(
            || {
                let s = ctl.st.lock();
                (s.dropped && outer.st.lock().writer_dropped) || s.polls > plan.max_polls
            },
            limit,
        );
        if w != Wait::Done {
            fail(&mut run, w, "end of the download".into());
        } else if ctl.st.lock().polls > plan.max_polls {
            run.livelock = Some("the download never ends".into());
        }
        if !stuck(&run) && plan.capacity().is_none() {
            let base = shared.cur.lock().done;
            let mut n = 1;
            let t = tx.as_ref().expect("tx");
            let _ = t.send((Op::Seek(SeekFrom::Start(0)), true));
            if plan.outer.read_errors.is_empty() {
                let _ = t.send((Op::ToEnd(1 + (plan.seed % 5000) as usize), true));
                n += 1;
            }
            let w = wait_done(|| shared.cur.lock().done >= base + n, limit);
            if w != Wait::Done {
                fail(&mut run, w, "reading everything again after the end".into());
            }
        }
    }
    // ---- drop
    if !stuck(&run) {
        if plan.early_drop && plan.cancel_on_drop {
            shared.cancelled.store(true, SeqCst);
        }
        tx = None;
        let w = wait_done(
            || {
                let s = ctl.st.lock();
                (s.dropped
                    && reader_gone.load(SeqCst)
                    && s.log.contains(&Ev::Mark("waited"))
                    && outer.st.lock().writer_dropped)
                    || s.polls > plan.max_polls
            },
            limit,
        );
        run.reader_dropped = true;
        if w != Wait::Done {
            let s = ctl.st.lock();
            let what = format!(
                "end of the download task after the reader was dropped (source dropped: {}, \
                 completion signalled: {})",
                s.dropped,
                s.log.contains(&Ev::Mark("waited"))
            );
            drop(s);
            fail(&mut run, w, what);
        }
    }
    drop(drop_now);
    run.waited = ctl.st.lock().log.contains(&Ev::Mark("waited"));
    stop.notify_one();
    if !stuck(&run) {
        drop(tx);
        let _ = reader.join();
        let _ = rt_thread.join();
    } else {
        std::mem::forget(tx);
        token.cancel();
    }
    run.injected_writer = outer.st.lock().injected_writer;
    run.results = shared.cur.lock().results.clone();
    run.log = ctl.log();
    run.progress = progress.lock().clone();
    run.reconnect_calls = reconnect_calls.load(SeqCst);
    run.panics = crate::panics::take();
    run
}

/// Whether the source has already handed over all that the running operation needs. Only claims
/// so if the prefetch phase, if any, is over for certain.
fn satisfiable(plan: &Plan, s: &crate::source::St, need: Option<(u64, u64)>) -> bool {
    let Some((from, to)) = need else {
        return true;
    };
    let total = plan.src.total;
    if plan.prefetch > 0 && s.since_seek < plan.prefetch && !s.eof_since_seek {
        return false;
    }
    if s.finished > 0 {
        return true;
    }
    // at or past the end the reader has to wait for the end of the stream
    if plan.src.declared.is_some_and(|l| from >= l) || from >= total || to > total {
        return false;
    }
    s.cov.gaps(&(from..to)).next().is_none()
}

struct Reader {
    sd: StreamDownload<DynProvider>,
    pos: u64,
    plan: Plan,
    ctl: Arc<SrcCtl>,
    outer: Arc<StoreCtl>,
    shared: Arc<Shared>,
}

impl Reader {
    fn step(&mut self, op: Op, verify: bool) {
        let idx = {
            let mut c = self.shared.cur.lock();
            c.need = need_of(&self.plan, self.pos, op);
            c.started += 1;
            c.started - 1
        };
        let (fin_before, can_before, gone_before) = {
            let s = self.ctl.st.lock();
            (
                s.finished > 0,
                self.shared.cancelled.load(SeqCst),
                s.dropped && self.outer.st.lock().writer_dropped,
            )
        };
        tick();
        let seeks = matches!(op, Op::Seek(_)) || verify;
        if let Some(c) = &self.ctl.clock
            && seeks
        {
            c.reader();
        }
        self.ctl.note(Ev::Op(idx));
        trace::perturb();
        let start = std::time::Instant::now();
        let pos = self.pos;
        let mut bad = None;
        let mut short = None;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            self.exec(op, &mut bad, &mut short)
        }));
        let ret = r.unwrap_or(Ret::Panic);
        let us = start.elapsed().as_micros() as u64;
        if let Some(c) = &self.ctl.clock
            && seeks
        {
            c.reader();
        }
        let res = {
            let wpos = {
                let o = self.outer.st.lock();
                o.wpos.max(o.wintent)
            };
            let mut s = self.ctl.st.lock();
            let res = OpRes {
                op,
                pos,
                ret,
                bad,
                since_seek: s.since_seek,
                eof_since_seek: s.eof_since_seek,
                requests: s.seeks,
                wpos,
                fin_before,
                fin_after: s.finished > 0,
                gone_before,
                section: s.section,
                can_before,
                can_after: self.shared.cancelled.load(SeqCst),
                verify,
                short,
                us,
            };
            s.push(Ev::Ret(idx));
            res
        };
        tick();
        let mut c = self.shared.cur.lock();
        c.results.push(res);
        c.need = None;
        c.pos = self.pos;
        c.done += 1;
    }

    fn read_once(&mut self, n: usize, bad: &mut Option<u64>) -> Result<usize, io::Error> {
        let mut buf = vec![0u8; n];
        match self.sd.read(&mut buf) {
            Ok(k) => {
                let k2 = k.min(n);
                if let Some(d) = first_diff(self.plan.src.seed, self.pos, &buf[..k2]) {
                    bad.get_or_insert(self.pos + d as u64);
                }
                if k > n || (k2 > 0 && self.pos + k2 as u64 > self.plan.src.total) {
                    bad.get_or_insert(self.plan.src.total.min(self.pos + k2 as u64));
                }
                self.pos += k2 as u64;
                Ok(k)
            }
            Err(e) => Err(e),
        }
    }

    fn exec(&mut self, op: Op, bad: &mut Option<u64>, short: &mut Option<(u64, usize, usize)>) -> Ret {
        match op {
            Op::Read(n) => match self.read_once(n, bad) {
                Ok(k) => Ret::Read(k),
                Err(e) => Ret::Err(e.kind(), e.to_string()),
            },
            Op::ToEnd(n) => {
                let n = n.max(1);
                let n = self.plan.capacity().map_or(n, |c| n.min(c));
                let mut sum = 0u64;
                loop {
                    let at = self.pos;
                    match self.read_once(n, bad) {
                        Ok(0) => return Ret::All(sum),
                        Ok(k) => {
                            sum += k as u64;
                            if k < n && self.pos < self.plan.src.total {
                                short.get_or_insert((at, n, k));
                            }
                            if sum > self.plan.src.total.saturating_add(1 << 20) {
                                return Ret::All(sum);
                            }
                        }
                        Err(e) => return Ret::AllErr(sum, e.kind(), e.to_string()),
                    }
                }
            }
            Op::Seek(s) => match self.sd.seek(s) {
                Ok(p) => {
                    self.pos = p;
                    Ret::Pos(p)
                }
                Err(e) => {
                    // a rejected seek must leave the position alone, a failed one may not
                    Ret::Err(e.kind(), e.to_string())
                }
            },
            Op::Nap(us) => {
                std::thread::sleep(Duration::from_micros(us));
                Ret::Unit
            }
            Op::Cancel => {
                self.shared.cancelled.store(true, SeqCst);
                self.ctl.note(Ev::Mark("cancel"));
                self.sd.cancel_download();
                self.ctl.note(Ev::Mark("cancelled"));
                Ret::Unit
            }
            Op::AwaitHang => {
                *self.shared.filled.lock() = None;
                self.shared.cur.lock().fill = Some(u64::MAX);
                tick();
                let mut f = self.shared.filled.lock();
                while f.is_none() {
                    self.shared.filled_cv.wait(&mut f);
                }
                Ret::Unit
            }
            Op::AwaitFill => {
                let cap = self.plan.capacity().map_or(u64::MAX, |c| c as u64);
                let to = self.pos.saturating_add(cap).min(self.plan.src.total);
                *self.shared.filled.lock() = None;
                self.shared.cur.lock().fill = Some(to);
                tick();
                let mut f = self.shared.filled.lock();
                while f.is_none() {
                    self.shared.filled_cv.wait(&mut f);
                }
                let (full, at) = f.expect("some");
                Ret::Fill(full, at, to)
            }
            Op::AwaitFinish => {
                let mut s = self.ctl.st.lock();
                while !s.dropped {
                    self.ctl.dropped_cv.wait(&mut s);
                }
                drop(s);
                let start = std::time::Instant::now();
                while !self.outer.st.lock().writer_dropped && start.elapsed() < Duration::from_secs(5) {
                    std::thread::sleep(Duration::from_micros(30));
                }
                Ret::Unit
            }
        }
    }
}

pub fn phase_name(p: &StreamPhase) -> &'static str {
    match p {
        StreamPhase::Prefetching { .. } => "prefetching",
        StreamPhase::Downloading { .. } => "downloading",
        StreamPhase::Complete => "complete",
        _ => "other",
    }
}

#[allow(dead_code)]
static COUNTER: AtomicUsize = AtomicUsize::new(0);
