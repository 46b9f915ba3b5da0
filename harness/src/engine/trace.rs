//! A `tracing` subscriber used as the schedule perturbation hook: the library emits its events and
//! enters its spans exactly between its critical sections, so a subscriber that sometimes yields,
//! spins or sleeps there moves those sections relative to each other. It does not look at the text
//! of an event, only at its target crate, so it survives any rewording. (Only the diagnostics of
//! failed commands, which are to be passed on, are searched for in the text, see `capture`.)

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

use tracing::span;
use tracing_core::{Event, Interest, Metadata, Subscriber};

use crate::rng::mix;

pub static EVENTS: AtomicU64 = AtomicU64::new(0);
pub static DELAYS: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static LEVEL: AtomicU64 = AtomicU64::new(0);
static THREADS: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static STATE: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

/// Sets the perturbation for the scenario that starts now. `level` 0 = none.
pub fn configure(seed: u64, level: u64) {
    THREADS.store(0, SeqCst);
    LEVEL.store(level, SeqCst);
    SEED.store(mix(seed) | 1, SeqCst);
}

pub fn perturb() {
    EVENTS.fetch_add(1, SeqCst);
    let level = LEVEL.load(SeqCst);
    if level == 0 {
        return;
    }
    let seed = SEED.load(SeqCst);
    let r = STATE.with(|s| {
        let (sd, mut st) = s.get();
        if sd != seed {
            st = mix(seed ^ (THREADS.fetch_add(1, SeqCst) as u64).wrapping_mul(0x1234_5677));
        }
        st = mix(st);
        s.set((seed, st));
        st
    });
    let p = match level {
        1 => 32,
        2 => 8,
        _ => 3,
    };
    if r % p != 0 {
        return;
    }
    DELAYS.fetch_add(1, SeqCst);
    let q = r >> 16;
    match q % 4 {
        0 => std::thread::yield_now(),
        1 => {
            let until = Instant::now() + Duration::from_micros((q >> 8) % 30);
            while Instant::now() < until {
                std::hint::spin_loop();
            }
        }
        2 => std::thread::sleep(Duration::from_micros((q >> 8) % 80)),
        _ => std::thread::sleep(Duration::from_micros((q >> 8) % 400)),
    }
}

static CAPTURE: parking_lot::Mutex<Option<String>> = parking_lot::Mutex::new(None);

/// Collects the text of all events from now on, for those that have to pass on what somebody else
/// has said.
pub fn capture() {
    *CAPTURE.lock() = Some(String::new());
}

pub fn captured() -> String {
    CAPTURE.lock().take().unwrap_or_default()
}

struct Text(String);

impl tracing::field::Visit for Text {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0 += &format!(" {}={:?}", f.name(), v);
    }
}

pub struct Perturber;

impl Subscriber for Perturber {
    fn register_callsite(&self, meta: &'static Metadata<'static>) -> Interest {
        if meta.target().starts_with("stream_download") {
            Interest::always()
        } else {
            Interest::never()
        }
    }
    fn enabled(&self, meta: &Metadata<'_>) -> bool {
        meta.target().starts_with("stream_download")
    }
    fn new_span(&self, _: &span::Attributes<'_>) -> span::Id {
        perturb();
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        if std::env::var_os("VH_TRACE").is_some() {
            let mut v = Text(String::new());
            e.record(&mut v);
            eprintln!("[{:?}]{}", std::thread::current().id(), v.0);
        }
        if let Some(c) = CAPTURE.lock().as_mut()
            && c.len() < 4_000_000
        {
            let mut v = Text(String::new());
            e.record(&mut v);
            *c += &v.0;
        }
        perturb();
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

pub fn install() {
    let _ = tracing::subscriber::set_global_default(Perturber);
}
