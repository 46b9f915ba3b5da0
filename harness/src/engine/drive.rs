//! Runs a program of reader operations on any stream in a thread of its own and records what each
//! operation returned. Used by the engines that do not script the source themselves.

use std::io::{self, Read, Seek};
use std::sync::Arc;
use std::time::Duration;

use parking_lot::Mutex;
use stream_download::StreamDownload;
use stream_download::storage::StorageProvider;

use crate::pipe::{Op, Ret};
use crate::quiesce::{Wait, tick, wait_done};
use crate::rng::first_diff;

#[derive(Clone, Debug)]
pub struct Done {
    pub op: Op,
    /// position before and after, by the model
    pub pos: u64,
    pub after: u64,
    pub ret: Ret,
    pub bad: Option<u64>,
}

#[derive(Default)]
pub struct St {
    pub results: Vec<Done>,
    pub finished: bool,
    pub started: usize,
}

pub struct Driven {
    pub st: Arc<Mutex<St>>,
    thread: Option<std::thread::JoinHandle<()>>,
}

/// Content that a stream should deliver.
#[derive(Clone, Copy, Debug)]
pub struct Content {
    pub seed: u64,
    pub total: u64,
}

pub fn start<P>(sd: StreamDownload<P>, content: Content, ops: Vec<Op>, then: impl FnOnce() + Send + 'static) -> Driven
where
    P: StorageProvider + 'static,
    StreamDownload<P>: Send,
{
    let st = Arc::new(Mutex::new(St::default()));
    let st2 = st.clone();
    let thread = std::thread::spawn(move || {
        let mut sd = sd;
        let mut pos = 0u64;
        for op in ops {
            st2.lock().started += 1;
            let before = pos;
            let mut bad = None;
            let ret = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(&mut sd, content, op, &mut pos, &mut bad)))
                .unwrap_or(Ret::Panic);
            tick();
            st2.lock().results.push(Done { op, pos: before, after: pos, ret, bad });
        }
        drop(sd);
        then();
        st2.lock().finished = true;
        tick();
    });
    Driven { st, thread: Some(thread) }
}

impl Driven {
    /// Waits for all operations. Anything but `Done` leaves the thread behind.
    pub fn wait(&mut self, limit: Duration) -> Wait {
        let w = wait_done(|| self.st.lock().finished, limit);
        if w == Wait::Done
            && let Some(t) = self.thread.take()
        {
            let _ = t.join();
        }
        w
    }
    pub fn results(&self) -> Vec<Done> {
        self.st.lock().results.clone()
    }
    pub fn is_finished(&self) -> bool {
        self.st.lock().finished
    }
}

fn read_once<P: StorageProvider>(
    sd: &mut StreamDownload<P>,
    c: Content,
    n: usize,
    pos: &mut u64,
    bad: &mut Option<u64>,
) -> io::Result<usize> {
    let mut buf = vec![0u8; n];
    let k = sd.read(&mut buf)?;
    let k2 = k.min(n);
    if let Some(d) = first_diff(c.seed, *pos, &buf[..k2]) {
        bad.get_or_insert(*pos + d as u64);
    }
    if k > n || (k2 > 0 && *pos + k2 as u64 > c.total) {
        bad.get_or_insert(c.total.min(*pos + k2 as u64));
    }
    *pos += k2 as u64;
    Ok(k)
}

fn exec<P: StorageProvider>(
    sd: &mut StreamDownload<P>,
    c: Content,
    op: Op,
    pos: &mut u64,
    bad: &mut Option<u64>,
) -> Ret {
    match op {
        Op::Read(n) => match read_once(sd, c, n, pos, bad) {
            Ok(k) => Ret::Read(k),
            Err(e) => Ret::Err(e.kind(), e.to_string()),
        },
        Op::ToEnd(n) => {
            let mut sum = 0u64;
            loop {
                match read_once(sd, c, n.max(1), pos, bad) {
                    Ok(0) => return Ret::All(sum),
                    Ok(k) => {
                        sum += k as u64;
                        if sum > c.total.saturating_add(1 << 20) {
                            return Ret::All(sum);
                        }
                    }
                    Err(e) => return Ret::AllErr(sum, e.kind(), e.to_string()),
                }
            }
        }
        Op::Seek(s) => match sd.seek(s) {
            Ok(p) => {
                *pos = p;
                Ret::Pos(p)
            }
            Err(e) => Ret::Err(e.kind(), e.to_string()),
        },
        Op::Nap(us) => {
            std::thread::sleep(Duration::from_micros(us));
            Ret::Unit
        }
        Op::Cancel => {
            sd.cancel_download();
            Ret::Unit
        }
        Op::AwaitFinish | Op::AwaitFill | Op::AwaitHang => Ret::Unit,
    }
}
