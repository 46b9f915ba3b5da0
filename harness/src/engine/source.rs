//! Scripted source: a `SourceStream` whose content, chunking, pacing and faults are decided by the
//! scenario, and which records every call the library makes on it.

use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use bytes::Bytes;
use futures_util::Stream;
use parking_lot::{Condvar, Mutex};
use rangemap::RangeSet;
use stream_download::source::{DecodeError, SourceStream, StreamOutcome};

use crate::clock::{Clock, Tk};
use crate::quiesce::tick;
use crate::rng::{Rng, fill};
use crate::storage::StoreCtl;
use crate::trace::perturb;

#[derive(Clone, Debug, PartialEq)]
pub enum Chunking {
    Fixed(u64),
    Rand(u64, u64),
    Whole,
}

/// A fault that fires when the source is polled at or after a given content offset.
#[derive(Clone, Debug, PartialEq)]
pub enum FaultKind {
    /// Pending until `reconnect` is called
    StallUntilReconnect,
    /// Pending for a few milliseconds
    Pause(u64),
    /// yields `Err` and then goes on
    Error,
    /// yields `Err`, then end of stream, like a broken HTTP body
    ErrorThenEof,
    /// ends the current response early
    EarlyEof,
    /// yields an empty chunk
    Empty,
    Panic,
    /// Pending for ever (until seek or reconnect)
    Stall,
    /// Pending for ever until the first request for another position
    StallUntilSeek,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub at: u64,
    pub kind: FaultKind,
}

#[derive(Clone, Debug)]
pub struct SrcCfg {
    pub seed: u64,
    /// bytes the source really has (u64::MAX: endless)
    pub total: u64,
    pub declared: Option<u64>,
    pub seekable: bool,
    pub chunking: Chunking,
    /// chance in 16 that a poll is Pending first (woken at once from another task)
    pub pending: u64,
    pub faults: Vec<Fault>,
    /// every chunk needs a permit released by the driver
    pub gated: bool,
    /// n-th (0-based) seek_range / reconnect calls that fail
    pub seek_errors: Vec<usize>,
    /// n-th request that is never answered
    pub seek_hang: Option<usize>,
    pub reconnect_errors: Vec<usize>,
    /// n-th reconnect call that never completes
    pub reconnect_hangs: Vec<usize>,
    /// seek_range takes this many microseconds
    pub seek_delay_us: u64,
    pub finish: FinishPolicy,
    /// a seek beyond the end fails (like a 416)
    pub strict_range: bool,
    /// the end of a requested range is ignored, everything up to the end of the content is sent
    pub ignore_end: bool,
    /// the storage keeps only the section since the last request (affects bookkeeping only)
    pub bounded: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FinishPolicy {
    Pass,
    AlwaysErr,
}

impl SrcCfg {
    pub fn simple(seed: u64, total: u64) -> Self {
        Self {
            seed,
            total,
            declared: Some(total),
            seekable: true,
            chunking: Chunking::Fixed(1000),
            pending: 0,
            faults: vec![],
            gated: false,
            seek_errors: vec![],
            seek_hang: None,
            reconnect_errors: vec![],
            reconnect_hangs: vec![],
            seek_delay_us: 0,
            finish: FinishPolicy::Pass,
            strict_range: true,
            ignore_end: false,
            bounded: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Chunk(u64, u64),
    Eof(u64),
    Err(u64),
    Stalled(u64),
    Seek(u64, Option<u64>),
    SeekErr(u64),
    /// asked for, next byte this source would have delivered
    Reconnect(u64, u64),
    ReconnectOk(u64),
    ReconnectErr(u64),
    Finish { ok: bool, kind: Option<io::ErrorKind>, outcome: StreamOutcome },
    Dropped,
    /// reader operation n starts / ends
    Op(usize),
    Ret(usize),
    /// driver actions
    Mark(&'static str),
}

#[derive(Default)]
pub struct St {
    pub log: Vec<Ev>,
    waker: Option<Waker>,
    permits: u64,
    /// total polls, total chunk bytes delivered
    pub polls: u64,
    pub delivered: u64,
    pub pos: u64,
    pub end: Option<u64>,
    stalled: bool,
    eof_now: bool,
    pub seeks: usize,
    pub reconnects: usize,
    pub waiting_permit: bool,
    pub dropped: bool,
    faults: VecDeque<Fault>,
    open: bool,
    pause_armed: bool,
    cap_log: bool,
    /// content ranges handed to the library
    pub cov: RangeSet<u64>,
    /// bytes handed over since the start or the last reposition, and whether that response ended
    pub since_seek: u64,
    pub eof_since_seek: bool,
    pub finished: usize,
    pub calls_after_finish: usize,
    /// seek_range calls that asked for bytes already in storage, see `written_probe`
    pub redundant: Vec<String>,
    /// start of the section being delivered
    pub section: u64,
    /// when the source was polled first, and when it last gave an answer
    pub first_poll: Option<std::time::Instant>,
    pub last_ready: Option<std::time::Instant>,
    /// a request is never going to be answered
    pub hung: bool,
    /// storage writes when the first cancellation had been requested
    pub writes_at_cancel: Option<usize>,
}

pub struct SrcCtl {
    pub st: Mutex<St>,
    pub cfg: SrcCfg,
    pub dropped_cv: Condvar,
    /// what has been written to the storage, to judge requests
    pub store: Mutex<Option<Arc<StoreCtl>>>,
    /// with the runtime's clock paused
    pub clock: Option<Arc<Clock>>,
}

impl SrcCtl {
    pub fn release(&self, n: u64) {
        let w = {
            let mut s = self.st.lock();
            s.permits += n;
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    /// no more gating
    pub fn open(&self) {
        let w = {
            let mut s = self.st.lock();
            s.open = true;
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn is_open(&self) -> bool {
        self.st.lock().open
    }
    pub fn wake(&self) {
        let w = self.st.lock().waker.take();
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn note(&self, e: Ev) {
        let writes = matches!(e, Ev::Mark("cancelled" | "dropped")).then(|| {
            let store = self.store.lock().clone();
            store.map_or(0, |s| s.st.lock().writes)
        });
        let mut s = self.st.lock();
        if s.writes_at_cancel.is_none() {
            s.writes_at_cancel = writes;
        }
        s.push(e);
    }
    pub fn log(&self) -> Vec<Ev> {
        self.st.lock().log.clone()
    }
}

impl St {
    pub fn push(&mut self, e: Ev) {
        match &e {
            Ev::Chunk(a, b) => {
                if b > a {
                    self.cov.insert(*a..*b);
                }
                self.since_seek += b - a;
            }
            Ev::Eof(_) => self.eof_since_seek = true,
            Ev::Finish { .. } => self.finished += 1,
            Ev::Op(_) | Ev::Ret(_) | Ev::Mark(_) | Ev::Dropped => {}
            _ => {}
        }
        if self.finished > 0
            && !matches!(
                e,
                Ev::Finish { .. } | Ev::Op(_) | Ev::Ret(_) | Ev::Mark(_) | Ev::Dropped
            )
        {
            self.calls_after_finish += 1;
        }
        if self.log.len() < 200_000 {
            self.log.push(e);
        } else {
            self.cap_log = true;
        }
    }
}

pub struct ScriptedSource {
    pub ctl: Arc<SrcCtl>,
    rng: Rng,
    pend_done: bool,
}

#[derive(Debug, thiserror::Error)]
#[error("scripted error")]
pub struct ScriptErr;
impl DecodeError for ScriptErr {}

pub fn source(cfg: SrcCfg) -> (ScriptedSource, Arc<SrcCtl>) {
    timed_source(cfg, None)
}

pub fn timed_source(cfg: SrcCfg, clock: Option<Arc<Clock>>) -> (ScriptedSource, Arc<SrcCtl>) {
    let st = St {
        faults: cfg.faults.clone().into(),
        ..St::default()
    };
    let ctl = Arc::new(SrcCtl {
        st: Mutex::new(st),
        cfg: cfg.clone(),
        store: Mutex::new(None),
        dropped_cv: Condvar::new(),
        clock,
    });
    (
        ScriptedSource {
            ctl: ctl.clone(),
            rng: Rng::new(cfg.seed ^ 0x5151),
            pend_done: false,
        },
        ctl,
    )
}

impl Drop for ScriptedSource {
    fn drop(&mut self) {
        tick();
        let mut s = self.ctl.st.lock();
        s.push(Ev::Dropped);
        s.dropped = true;
        self.ctl.dropped_cv.notify_all();
    }
}

impl Stream for ScriptedSource {
    type Item = Result<Bytes, ScriptErr>;

    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let clock = self.ctl.clock.clone();
        if let Some(c) = &clock {
            c.first();
        }
        let ctl = self.ctl.clone();
        ctl.st.lock().first_poll.get_or_insert_with(std::time::Instant::now);
        let r = self.poll_script(cx);
        if r.is_ready() {
            ctl.st.lock().last_ready = Some(std::time::Instant::now());
        }
        if let Some(c) = &clock
            && r.is_ready()
        {
            c.note(Tk::Deliver);
        }
        r
    }
}

/// Notes the end of a call, whichever way it ends.
struct Ends(Option<Arc<Clock>>, Tk);

impl Drop for Ends {
    fn drop(&mut self) {
        if let Some(c) = &self.0
            && tokio::runtime::Handle::try_current().is_ok()
        {
            c.note(self.1);
        }
    }
}

impl ScriptedSource {
    fn poll_script(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<<Self as Stream>::Item>> {
        tick();
        perturb();
        let ctl = self.ctl.clone();
        let cfg = &ctl.cfg;
        let mut s = ctl.st.lock();
        s.polls += 1;
        if s.stalled {
            s.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if cfg.gated && !s.open && s.permits == 0 {
            s.waiting_permit = true;
            s.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        s.waiting_permit = false;
        if cfg.pending > 0 && !self.pend_done && self.rng.below(16) < cfg.pending {
            self.pend_done = true;
            let w = cx.waker().clone();
            let us = self.rng.below(200);
            tokio::spawn(async move {
                if us > 100 {
                    tokio::time::sleep(Duration::from_micros(us * 5)).await;
                }
                w.wake();
            });
            return Poll::Pending;
        }
        self.pend_done = false;
        let pos = s.pos;
        if s.eof_now {
            if cfg.gated && !s.open {
                s.permits -= 1;
            }
            s.push(Ev::Eof(pos));
            return Poll::Ready(None);
        }
        if s.faults.front().is_some_and(|f| f.at <= pos) {
            let f = s.faults.front().cloned().map(|f| f.kind);
            match f {
                Some(FaultKind::Pause(us)) if !s.pause_armed => {
                    s.pause_armed = true;
                    let w = cx.waker().clone();
                    tokio::spawn(async move {
                        tokio::time::sleep(Duration::from_micros(us)).await;
                        w.wake();
                    });
                    return Poll::Pending;
                }
                _ => {}
            }
            s.pause_armed = false;
            s.faults.pop_front();
            match f {
                Some(FaultKind::StallUntilReconnect | FaultKind::Stall | FaultKind::StallUntilSeek) => {
                    s.stalled = true;
                    s.push(Ev::Stalled(pos));
                    s.waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                Some(FaultKind::Error) => {
                    s.push(Ev::Err(pos));
                    return Poll::Ready(Some(Err(ScriptErr)));
                }
                Some(FaultKind::ErrorThenEof) => {
                    s.push(Ev::Err(pos));
                    s.eof_now = true;
                    return Poll::Ready(Some(Err(ScriptErr)));
                }
                Some(FaultKind::EarlyEof) => {
                    s.eof_now = true;
                    s.push(Ev::Eof(pos));
                    return Poll::Ready(None);
                }
                Some(FaultKind::Empty) => {
                    s.push(Ev::Chunk(pos, pos));
                    return Poll::Ready(Some(Ok(Bytes::new())));
                }
                Some(FaultKind::Panic) => {
                    drop(s);
                    panic!("VH-INJECTED source panic");
                }
                _ => {}
            }
        }
        if cfg.gated && !s.open {
            s.permits -= 1;
        }
        let end = s.end.unwrap_or(u64::MAX).min(cfg.total);
        if pos >= end {
            s.push(Ev::Eof(pos));
            return Poll::Ready(None);
        }
        let len = match cfg.chunking {
            Chunking::Fixed(n) => n.max(1),
            Chunking::Rand(a, b) => self.rng.range(a.max(1), b),
            Chunking::Whole => u64::MAX,
        };
        let mut len = len.min(end - pos);
        // do not jump over a fault position
        if let Some(f) = s.faults.front()
            && f.at > pos
        {
            len = len.min(f.at - pos);
        }
        let data = fill(cfg.seed, pos, len as usize);
        s.pos += len;
        s.delivered += len;
        s.push(Ev::Chunk(pos, pos + len));
        Poll::Ready(Some(Ok(Bytes::from(data))))
    }
}

impl SourceStream for ScriptedSource {
    type Params = SrcCfg;
    type StreamCreationError = ScriptErr;

    async fn create(params: Self::Params) -> Result<Self, Self::StreamCreationError> {
        Ok(source(params).0)
    }

    fn content_length(&self) -> Option<u64> {
        self.ctl.cfg.declared
    }

    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        let _ends = Ends(self.ctl.clock.clone(), Tk::SeekEnd);
        tick();
        perturb();
        let n = {
            let probe = self.ctl.store.lock().clone();
            let overlap = probe.and_then(|p| {
                let to = end.unwrap_or(self.ctl.cfg.total.min(1 << 40)).max(start);
                let st = p.st.lock();
                if to > start && st.written.overlaps(&(start..to)) {
                    Some(format!(
                        "requested {start}..{end:?} although {:?} is already stored",
                        st.written.iter().cloned().collect::<Vec<_>>()
                    ))
                } else {
                    None
                }
            });
            let mut s = self.ctl.st.lock();
            s.push(Ev::Seek(start, end));
            if let Some(o) = overlap {
                s.redundant.push(o);
            }
            s.seeks += 1;
            s.seeks - 1
        };
        if self.ctl.cfg.seek_delay_us > 0 {
            tokio::time::sleep(Duration::from_micros(self.ctl.cfg.seek_delay_us)).await;
        }
        if self.ctl.cfg.seek_hang == Some(n) {
            self.ctl.st.lock().hung = true;
            tick();
            std::future::pending::<()>().await;
        }
        let mut s = self.ctl.st.lock();
        if self.ctl.cfg.seek_errors.contains(&n) {
            s.push(Ev::SeekErr(start));
            return Err(io::Error::other("scripted seek error"));
        }
        if !self.ctl.cfg.seekable {
            s.push(Ev::SeekErr(start));
            return Err(io::Error::new(io::ErrorKind::Unsupported, "not seekable"));
        }
        if self.ctl.cfg.strict_range && start > self.ctl.cfg.total {
            s.push(Ev::SeekErr(start));
            return Err(io::Error::other("416"));
        }
        if self.ctl.cfg.bounded {
            s.cov.clear();
        }
        s.faults.retain(|f| f.kind != FaultKind::StallUntilSeek);
        s.section = start;
        s.pos = start;
        s.end = if self.ctl.cfg.ignore_end { None } else { end };
        s.since_seek = 0;
        s.eof_since_seek = false;
        s.stalled = false;
        s.eof_now = false;
        Ok(())
    }

    async fn reconnect(&mut self, p: u64) -> io::Result<()> {
        if let Some(c) = &self.ctl.clock {
            c.note(Tk::Reconnect);
        }
        let _ends = Ends(self.ctl.clock.clone(), Tk::ReconnectEnd);
        tick();
        perturb();
        let n = {
            let mut s = self.ctl.st.lock();
            let at = s.pos;
            s.push(Ev::Reconnect(p, at));
            s.reconnects += 1;
            s.reconnects - 1
        };
        if self.ctl.cfg.reconnect_hangs.contains(&n) {
            std::future::pending::<()>().await;
        }
        let mut s = self.ctl.st.lock();
        if self.ctl.cfg.reconnect_errors.contains(&n) {
            s.push(Ev::ReconnectErr(p));
            return Err(io::Error::other("scripted reconnect error"));
        }
        if !self.ctl.cfg.seekable {
            // like AsyncRead: can not be repositioned
            return Err(io::Error::new(io::ErrorKind::Unsupported, "reconnect"));
        }
        s.pos = p;
        s.end = None;
        s.stalled = false;
        s.eof_now = false;
        s.push(Ev::ReconnectOk(p));
        Ok(())
    }

    fn supports_seek(&self) -> bool {
        self.ctl.cfg.seekable
    }

    async fn on_finish(
        &mut self,
        result: io::Result<()>,
        outcome: StreamOutcome,
    ) -> io::Result<()> {
        tick();
        perturb();
        self.ctl.st.lock().push(Ev::Finish {
            ok: result.is_ok(),
            kind: result.as_ref().err().map(io::Error::kind),
            outcome,
        });
        match self.ctl.cfg.finish {
            FinishPolicy::Pass => result,
            FinishPolicy::AlwaysErr => Err(io::Error::other("scripted finish error")),
        }
    }
}
