//! What happened when, on the runtime's own clock. With the clock paused, time passes only while
//! every task waits for it, so that the moment of a reconnection can be judged to the millisecond
//! on a machine of any load, and hours of stalls take no time.

use std::sync::Arc;
use std::time::Duration;

use parking_lot::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tk {
    /// the source has been polled for the first time
    Start,
    /// the source has answered
    Deliver,
    Write,
    SeekEnd,
    /// asked to reconnect
    Reconnect,
    /// answered, failed or given up
    ReconnectEnd,
    /// the reader has done something that could have been noticed, at no particular time
    Reader,
}

#[derive(Default)]
pub struct Clock {
    log: Mutex<(Option<tokio::time::Instant>, Vec<(Tk, Duration)>)>,
}

impl Clock {
    pub fn new() -> Arc<Self> {
        Arc::default()
    }
    /// Only from tasks of the runtime whose clock this is.
    pub fn note(&self, k: Tk) {
        let now = tokio::time::Instant::now();
        let mut l = self.log.lock();
        let t0 = *l.0.get_or_insert(now);
        if l.1.len() < 100_000 {
            l.1.push((k, now.saturating_duration_since(t0)));
        }
    }
    pub fn first(&self) {
        if self.log.lock().0.is_none() {
            self.note(Tk::Start);
        }
    }
    /// From any thread.
    pub fn reader(&self) {
        let mut l = self.log.lock();
        let t = l.1.last().map_or(Duration::ZERO, |e| e.1);
        l.1.push((Tk::Reader, t));
    }
    pub fn take(&self) -> Vec<(Tk, Duration)> {
        self.log.lock().1.clone()
    }
}

#[derive(Default, Debug)]
pub struct Timing {
    pub reconnects: u64,
    pub abandoned: u64,
    /// silence that was shorter than the timeout, but more than a tenth of it
    pub patient: u64,
    pub waited_ms: u64,
    pub problems: Vec<String>,
}

/// Every reconnection has to follow a silence of the retry timeout, and every such silence a
/// reconnection.
pub fn judge(log: &[(Tk, Duration)], retry: Duration) -> Timing {
    let mut t = Timing::default();
    let slack = Duration::from_millis(2);
    let late = retry + retry / 2 + Duration::from_millis(5);
    let mut last: Option<(Tk, Duration)> = None;
    let mut reader = false;
    for &(k, at) in log {
        if k == Tk::Reader {
            reader = true;
            continue;
        }
        if let Some((lk, lat)) = last {
            let gap = at - lat;
            let pending = lk == Tk::Reconnect;
            if k == Tk::Reconnect {
                t.reconnects += 1;
                t.waited_ms += gap.as_millis() as u64;
                if gap + slack < retry {
                    t.problems.push(format!("asked to reconnect after {gap:?} without data, the retry timeout is {retry:?}"));
                }
            } else if pending && k == Tk::ReconnectEnd && gap + slack >= retry {
                t.abandoned += 1;
            } else if gap > retry / 10 {
                t.patient += 1;
            }
            if gap > late && !reader {
                t.problems.push(format!(
                    "{} for {gap:?}, the retry timeout is {retry:?}",
                    if pending { "waited for a reconnection" } else { "no data and no reconnection" }
                ));
            }
        }
        last = Some((k, at));
        reader = false;
    }
    t.problems.truncate(3);
    t
}
