//! Storage wrapper that observes (and perturbs, and injects faults into) any provider.

use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

use parking_lot::Mutex;
use rangemap::RangeSet;
use stream_download::storage::{StorageProvider, StorageReader, StorageWriter};

use crate::clock::{Clock, Tk};
use crate::quiesce::tick;
use crate::rng::{Rng, first_diff};
use crate::trace::perturb;

#[derive(Clone, Debug, Default)]
pub struct StoreCfg {
    pub seed: u64,
    /// check every written byte against the content at the writer's own position
    pub check_content: bool,
    /// chance in 16 of a short write
    pub short_writes: u64,
    /// chance in 16 of a short read
    pub short_reads: u64,
    /// n-th write call that fails
    pub write_error_at: Option<usize>,
    pub flush_error_at: Option<usize>,
    pub writer_seek_error_at: Option<usize>,
    /// read calls that fail
    pub read_errors: Vec<usize>,
    pub panic_write_at: Option<usize>,
    /// what was written is held back until this many bytes have come together or a flush
    pub buffered: usize,
}

impl StoreCfg {
    /// The kind of error depends on the case. Interrupted is not among them: writing again is as
    /// good an answer to that as failing is.
    pub fn error(&self, what: &str) -> io::Error {
        use io::ErrorKind::{BrokenPipe, InvalidInput, Other, PermissionDenied, QuotaExceeded, StorageFull, TimedOut, UnexpectedEof, WouldBlock, WriteZero};
        let kinds = [Other, StorageFull, Other, PermissionDenied, TimedOut, WouldBlock, UnexpectedEof, WriteZero, InvalidInput, BrokenPipe, QuotaExceeded];
        io::Error::new(*Rng::new(self.seed ^ 0xe44).pick(&kinds), format!("VH-INJECTED {what} error"))
    }
}

#[derive(Default)]
pub struct StoreSt {
    pub writes: usize,
    pub flushes: usize,
    pub reads: usize,
    pub wseeks: usize,
    pub max_write: usize,
    pub max_end: u64,
    pub bytes_written: u64,
    pub written: RangeSet<u64>,
    pub problems: Vec<String>,
    pub writer_dropped: bool,
    pub reader_dropped: bool,
    pub created_with: Vec<Option<u64>>,
    pub injected: usize,
    pub injected_writer: usize,
    /// current position of the writer
    pub wpos: u64,
    /// end of the write that is under way
    pub wintent: u64,
    /// bytes written again to a position that already had been written
    pub rewritten: u64,
    /// calls in progress from more than one thread at a time on the same half
    pub zero_writes: usize,
    /// consecutive accepted writes, and those between which no other task had a turn
    pub beat_pairs: u64,
    pub beat_missed: u64,
    beat_last: Option<u64>,
}

/// A task on the download's runtime which gets woken by every write.
#[derive(Default)]
pub struct Beat {
    pub wake: tokio::sync::Notify,
    pub turns: AtomicU64,
}

#[derive(Default)]
pub struct StoreCtl {
    pub st: Mutex<StoreSt>,
    pub cfg: StoreCfg,
    pub beat: Option<Arc<Beat>>,
    pub clock: Option<Arc<Clock>>,
}

impl StoreCtl {
    fn note_writer(&self) {
        let mut s = self.st.lock();
        s.injected += 1;
        s.injected_writer += 1;
    }
    pub fn new(cfg: StoreCfg) -> Arc<Self> {
        Self::watched(cfg, None, None)
    }
    pub fn watched(cfg: StoreCfg, beat: Option<Arc<Beat>>, clock: Option<Arc<Clock>>) -> Arc<Self> {
        Arc::new(Self {
            st: Mutex::default(),
            cfg,
            beat,
            clock,
        })
    }
}

pub struct MonProvider<P> {
    pub inner: P,
    pub ctl: Arc<StoreCtl>,
}

impl<P: Clone> Clone for MonProvider<P> {
    fn clone(&self) -> Self {
        Self {
            inner: self.inner.clone(),
            ctl: self.ctl.clone(),
        }
    }
}

pub struct MonReader<R> {
    inner: R,
    ctl: Arc<StoreCtl>,
    rng: Rng,
}

pub struct MonWriter<W> {
    inner: W,
    ctl: Arc<StoreCtl>,
    rng: Rng,
    pos: u64,
    held: Vec<u8>,
}

impl<W: StorageWriter> MonWriter<W> {
    fn put(&mut self, buf: &[u8]) -> io::Result<usize> {
        let limit = self.ctl.cfg.buffered;
        if limit == 0 {
            return self.inner.write(buf);
        }
        self.held.extend_from_slice(buf);
        if self.held.len() >= limit {
            self.release()?;
        }
        Ok(buf.len())
    }
    fn release(&mut self) -> io::Result<()> {
        if !self.held.is_empty() {
            self.inner.write_all(&std::mem::take(&mut self.held))?;
        }
        Ok(())
    }
}

impl<P: StorageProvider> StorageProvider for MonProvider<P> {
    type Reader = MonReader<P::Reader>;
    type Writer = MonWriter<P::Writer>;

    fn into_reader_writer(
        self,
        content_length: Option<u64>,
    ) -> io::Result<(Self::Reader, Self::Writer)> {
        self.ctl.st.lock().created_with.push(content_length);
        let (r, w) = self.inner.into_reader_writer(content_length)?;
        Ok((
            MonReader {
                inner: r,
                ctl: self.ctl.clone(),
                rng: Rng::new(self.ctl.cfg.seed ^ 1),
            },
            MonWriter {
                inner: w,
                rng: Rng::new(self.ctl.cfg.seed ^ 2),
                ctl: self.ctl,
                pos: 0,
                held: vec![],
            },
        ))
    }

    fn max_capacity(&self) -> Option<usize> {
        self.inner.max_capacity()
    }

    fn max_capacity_for(&self, content_length: Option<u64>) -> Option<usize> {
        self.inner.max_capacity_for(content_length)
    }
}

impl<R: StorageReader> Read for MonReader<R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        tick();
        perturb();
        let n = {
            let mut s = self.ctl.st.lock();
            s.reads += 1;
            s.reads - 1
        };
        if self.ctl.cfg.read_errors.contains(&n) {
            self.ctl.st.lock().injected += 1;
            return Err(self.ctl.cfg.error("read"));
        }
        if self.ctl.cfg.short_reads > 0
            && buf.len() > 1
            && self.rng.below(16) < self.ctl.cfg.short_reads
        {
            let k = self.rng.range(1, buf.len() as u64 - 1) as usize;
            return self.inner.read(&mut buf[..k]);
        }
        self.inner.read(buf)
    }
}

impl<R: StorageReader> Seek for MonReader<R> {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        tick();
        perturb();
        self.inner.seek(pos)
    }
}

impl<R> Drop for MonReader<R> {
    fn drop(&mut self) {
        self.ctl.st.lock().reader_dropped = true;
    }
}

impl<W: StorageWriter> Write for MonWriter<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        tick();
        perturb();
        let ctl = self.ctl.clone();
        let cfg = &ctl.cfg;
        let n = {
            let mut s = self.ctl.st.lock();
            s.writes += 1;
            s.max_write = s.max_write.max(buf.len());
            if let (Some(b), Some(t)) = (&self.ctl.beat, s.beat_last.take()) {
                s.beat_pairs += 1;
                s.beat_missed += u64::from(b.turns.load(SeqCst) == t);
            }
            s.writes - 1
        };
        if cfg.write_error_at == Some(n) {
            self.ctl.note_writer();
            return Err(self.ctl.cfg.error("write"));
        }
        if cfg.panic_write_at == Some(n) {
            self.ctl.note_writer();
            panic!("VH-INJECTED write panic");
        }
        let mut buf = buf;
        if cfg.short_writes > 0 && buf.len() > 1 && self.rng.below(16) < cfg.short_writes {
            buf = &buf[..self.rng.range(1, buf.len() as u64 - 1) as usize];
        }
        self.ctl.st.lock().wintent = self.pos + buf.len() as u64;
        let k = self.put(buf);
        let mut s = self.ctl.st.lock();
        s.wintent = 0;
        let k = k?;
        if cfg.check_content
            && let Some(d) = first_diff(cfg.seed, self.pos, &buf[..k])
        {
            let msg = format!(
                "storage received wrong content at position {} (write of {} at {})",
                self.pos + d as u64,
                k,
                self.pos
            );
            if s.problems.len() < 20 {
                s.problems.push(msg);
            }
        }
        if let Some(b) = &self.ctl.beat
            && k > 0
        {
            s.beat_last = Some(b.turns.load(SeqCst));
            b.wake.notify_one();
        }
        if k > 0 {
            let r = self.pos..self.pos + k as u64;
            let dup: u64 = s
                .written
                .overlapping(&r)
                .map(|o| o.end.min(r.end) - o.start.max(r.start))
                .sum();
            s.rewritten += dup;
            s.written.insert(r);
        } else {
            s.zero_writes += 1;
        }
        s.bytes_written += k as u64;
        self.pos += k as u64;
        s.wpos = self.pos;
        s.max_end = s.max_end.max(self.pos);
        drop(s);
        if let Some(c) = &self.ctl.clock {
            c.note(Tk::Write);
        }
        Ok(k)
    }

    fn flush(&mut self) -> io::Result<()> {
        tick();
        perturb();
        let n = {
            let mut s = self.ctl.st.lock();
            s.flushes += 1;
            s.flushes - 1
        };
        if self.ctl.cfg.flush_error_at == Some(n) {
            self.ctl.note_writer();
            return Err(self.ctl.cfg.error("flush"));
        }
        self.release()?;
        self.inner.flush()
    }
}

impl<W: StorageWriter> Seek for MonWriter<W> {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        tick();
        perturb();
        // stream_position() comes through here as Current(0)
        if !matches!(pos, SeekFrom::Current(0)) {
            let n = {
                let mut s = self.ctl.st.lock();
                s.wseeks += 1;
                s.wseeks - 1
            };
            if self.ctl.cfg.writer_seek_error_at == Some(n) {
                self.ctl.note_writer();
                return Err(self.ctl.cfg.error("seek"));
            }
        }
        if pos != SeekFrom::Current(0) {
            self.release()?;
        }
        let p = self.inner.seek(pos)? + self.held.len() as u64;
        self.pos = p;
        self.ctl.st.lock().wpos = p;
        Ok(p)
    }
}

impl<W> Drop for MonWriter<W> {
    fn drop(&mut self) {
        self.ctl.st.lock().writer_dropped = true;
    }
}

/// Type-erased provider, so that every storage can be used by the same scenario code.
pub struct DynProvider {
    make: Box<dyn FnOnce(Option<u64>) -> io::Result<(DynReader, DynWriter)> + Send>,
    cap: Box<dyn Fn(Option<Option<u64>>) -> Option<usize> + Send>,
}
pub type DynReader = Box<dyn StorageReader>;
pub type DynWriter = Box<dyn StorageWriter>;

impl DynProvider {
    pub fn new<P>(p: P) -> Self
    where
        P: StorageProvider + Clone + 'static,
        P::Reader: 'static,
    {
        let q = p.clone();
        // a clone answers the capacity queries; providers hold no state before they are used
        let q = Mutex::new(q);
        Self {
            make: Box::new(move |l| {
                let (r, w) = p.into_reader_writer(l)?;
                Ok((Box::new(r) as DynReader, Box::new(w) as DynWriter))
            }),
            cap: Box::new(move |l| match l {
                None => q.lock().max_capacity(),
                Some(l) => q.lock().max_capacity_for(l),
            }),
        }
    }
}

impl StorageProvider for DynProvider {
    type Reader = DynReader;
    type Writer = DynWriter;
    fn into_reader_writer(self, l: Option<u64>) -> io::Result<(DynReader, DynWriter)> {
        (self.make)(l)
    }
    fn max_capacity(&self) -> Option<usize> {
        (self.cap)(None)
    }
    fn max_capacity_for(&self, l: Option<u64>) -> Option<usize> {
        (self.cap)(Some(l))
    }
}
