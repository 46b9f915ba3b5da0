//! Storage halves driven directly and compared with a reference model (sequential mode), or used
//! from two threads at once (concurrent mode).

use std::collections::HashMap;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::path::Path;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

use stream_download::storage::StorageProvider;
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;

use crate::report::{Fnv, Res};
use crate::rng::{Rng, byte_at, fill, first_diff};
use crate::storage::{DynProvider, MonProvider, StoreCfg, StoreCtl};
use crate::trace;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Mem,
    Temp,
    BMem(usize),
    BTemp(usize),
    AMem(usize),
    ATemp(usize),
}

impl Kind {
    /// size of the circular buffer, if it is one
    fn ring(self, declared: Option<u64>) -> Option<u64> {
        match self {
            Self::Mem | Self::Temp => None,
            Self::BMem(n) | Self::BTemp(n) => Some(declared.map_or(n as u64, |d| d.min(n as u64))),
            Self::AMem(n) | Self::ATemp(n) => declared.is_none().then_some(n as u64),
        }
    }
}

fn build(k: Kind, dir: &Path, inner: &Arc<StoreCtl>) -> DynProvider {
    let nz = |n: usize| NonZeroUsize::new(n).expect("nonzero");
    let temp = || TempStorageProvider::new_in(dir);
    let m = || MonProvider { inner: MemoryStorageProvider, ctl: inner.clone() };
    let t = || MonProvider { inner: temp(), ctl: inner.clone() };
    match k {
        Kind::Mem => DynProvider::new(MemoryStorageProvider),
        Kind::Temp => DynProvider::new(temp()),
        Kind::BMem(n) => DynProvider::new(BoundedStorageProvider::new(m(), nz(n))),
        Kind::BTemp(n) => DynProvider::new(BoundedStorageProvider::new(t(), nz(n))),
        Kind::AMem(n) => DynProvider::new(AdaptiveStorageProvider::new(m(), nz(n))),
        Kind::ATemp(n) => DynProvider::new(AdaptiveStorageProvider::with_fixed_and_variable(m(), temp(), nz(n))),
    }
}

fn pick_kind(rng: &mut Rng) -> (Kind, Option<u64>) {
    let n = match rng.below(4) {
        0 => rng.range(1, 4),
        1 => rng.range(1, 16),
        2 => *rng.pick(&[64, 128, 4096]),
        _ => rng.range(16, 2_000),
    } as usize;
    let k = match rng.below(8) {
        0 => Kind::Mem,
        1 => Kind::Temp,
        2 | 3 => Kind::BMem(n),
        4 => Kind::BTemp(n),
        5 | 6 => Kind::AMem(n),
        _ => Kind::ATemp(n),
    };
    let declared = match rng.below(5) {
        0 | 1 => None,
        2 => Some((n as u64 + rng.below(5)).saturating_sub(2).max(1)),
        3 => Some(rng.range(1, n as u64)),
        _ => Some(rng.range(1, 3_000)),
    };
    (k, declared)
}

/// What each position holds: the generation that was written, none if it never was, or unknown.
#[derive(Default)]
struct Model {
    bytes: HashMap<u64, Option<u8>>,
    end: u64,
    /// start of the section a ring holds
    section: u64,
    r: u64,
    w: u64,
    ring: Option<u64>,
}

pub fn scenario(prop: &str, seed: u64, dir: &Path) -> Res {
    let mut rng = Rng::new(seed);
    if rng.chance(1, 6) {
        concurrent(seed, dir)
    } else {
        sequential(prop, seed, dir)
    }
}

#[allow(clippy::too_many_lines)]
fn sequential(_prop: &str, seed: u64, dir: &Path) -> Res {
    let mut rng = Rng::new(seed ^ 0x51);
    let mut res = Res::default();
    let (kind, declared) = pick_kind(&mut rng);
    let inner = StoreCtl::new(StoreCfg {
        seed,
        short_writes: if rng.chance(1, 3) { rng.below(12) } else { 0 },
        short_reads: if rng.chance(1, 3) { rng.below(12) } else { 0 },
        write_error_at: rng.chance(1, 8).then(|| rng.below(20) as usize),
        ..StoreCfg::default()
    });
    trace::configure(seed, 0);
    let prov = build(kind, dir, &inner);
    let ring = kind.ring(declared);
    let (mut rd, mut wr) = match prov.into_reader_writer(declared) {
        Ok(x) => x,
        Err(e) => {
            res.viol("create", &["C08"], format!("{kind:?} {declared:?}: {e}"));
            return res;
        }
    };
    let mut m = Model { ring, ..Model::default() };
    let mut log = vec![];
    let mut fp = Fnv::default();
    let scale = ring.unwrap_or(declared.unwrap_or(300)).max(4);
    let nops = rng.range(4, 90);
    let mut generation = 0u64;
    let mut tainted = false;
    for i in 0..nops {
        let before = inner.st.lock().injected;
        match rng.below(16) {
            0..=5 => {
                let n = match rng.below(5) {
                    0 => rng.below(3),
                    1 => scale,
                    2 => rng.range(1, scale + 3),
                    _ => rng.range(1, scale / 2 + 1),
                };
                // positions may be written again, with something else
                if rng.chance(1, 6) {
                    generation += 1;
                }
                let data = fill(seed ^ (generation << 32), m.w, n as usize);
                let r = wr.write(&data);
                let space = ring.map(|s| s.saturating_sub(m.w.saturating_sub(m.r)));
                log.push(format!("{i}: write({n}) at {} -> {r:?} (space {space:?})", m.w));
                let injected = inner.st.lock().injected > before;
                match r {
                    Ok(k) => {
                        fp.put(1 + (k as u64) << 4);
                        let k = k as u64;
                        if k > n {
                            res.viol("write_count", &["C08"], format!("op {i}: write of {n} returned {k}"));
                            break;
                        }
                        if let Some(s) = space {
                            if k > s {
                                res.viol("overrun", &["C08", "C07"], format!("op {i}: {k} bytes accepted, only {s} were free"));
                            }
                            if k == 0 && n > 0 && s > 0 {
                                res.viol("write_refused", &["C08", "C07"], format!("op {i}: nothing accepted although {s} bytes were free"));
                            }
                        } else if k == 0 && n > 0 {
                            res.viol("write_refused", &["C08"], format!("op {i}: nothing accepted by unlimited storage"));
                        }
                        if injected {
                            res.viol("error_swallowed", &["C08", "C05"], format!("op {i}: write returned {k} although the storage below failed"));
                        }
                        for (j, b) in data[..k as usize].iter().enumerate() {
                            m.bytes.insert(m.w + j as u64, Some(*b));
                        }
                        m.w += k;
                        if k > 0 {
                            m.end = m.end.max(m.w);
                        }
                    }
                    Err(e) => {
                        fp.put(2);
                        if !injected {
                            res.viol("write_error", &["C08"], format!("op {i}: {e}"));
                        }
                        // some of it may have been stored, in place of whatever was there before
                        tainted = true;
                        for j in 0..n {
                            m.bytes.insert(m.w + j, None);
                            if let Some(s) = ring {
                                // positions that share the slot
                                let mut p = m.w + j;
                                while p >= s {
                                    p -= s;
                                    m.bytes.insert(p, None);
                                }
                            }
                        }
                        if ring.is_none() {
                            break;
                        }
                    }
                }
            }
            6..=11 => {
                let n = match rng.below(5) {
                    0 => rng.below(3),
                    1 => scale,
                    2 => rng.range(1, scale + 2),
                    _ => rng.range(1, scale / 2 + 1),
                };
                let mut buf = vec![0u8; n as usize];
                let r = rd.read(&mut buf);
                log.push(format!("{i}: read({n}) at {} -> {r:?} (writer {})", m.r, m.w));
                match (ring, r) {
                    (None, Ok(k)) => {
                        fp.put(3 + (k as u64) << 4);
                        let k = k as u64;
                        let have = m.end.saturating_sub(m.r);
                        if k > n.min(have) {
                            res.viol("read_count", &["C08", "C01"], format!("op {i}: read of {n} at {} returned {k}, {have} bytes were stored", m.r));
                            break;
                        }
                        if k == 0 && n > 0 && have > 0 {
                            res.viol("read_nothing", &["C08"], format!("op {i}: read at {} returned nothing, {have} bytes are stored", m.r));
                        }
                        check_bytes(&m, &buf[..k as usize], i, &mut res);
                        m.r += k;
                    }
                    (None, Err(e)) => {
                        // inner faults are only injected below rings, or below a fixed storage
                        if m.r <= i64::MAX as u64 && !e.to_string().contains("VH-INJECTED") {
                            res.viol("read_error", &["C08"], format!("op {i}: {e}"));
                        }
                        fp.put(4);
                    }
                    (Some(s), Ok(k)) => {
                        fp.put(5 + (k as u64) << 4);
                        let k = k as u64;
                        if n > s {
                            res.viol("oversized_read", &["C08", "C07"], format!("op {i}: read of {n} accepted, capacity is {s}"));
                            break;
                        }
                        if m.w.saturating_sub(m.r) > s {
                            res.viol("overwritten_read", &["C08", "C07"], format!("op {i}: read at {} accepted, that was overwritten (writer at {})", m.r, m.w));
                            break;
                        }
                        let have = m.w.saturating_sub(m.r);
                        if k > n.min(have) {
                            res.viol("read_count", &["C08", "C07", "C01"], format!("op {i}: read of {n} at {} returned {k}, writer at {}", m.r, m.w));
                            break;
                        }
                        if k == 0 && n > 0 && have > 0 {
                            res.viol("read_nothing", &["C08"], format!("op {i}: read at {} returned nothing, writer at {}", m.r, m.w));
                        }
                        if m.r >= m.section {
                            check_bytes(&m, &buf[..k as usize], i, &mut res);
                        }
                        m.r += k;
                    }
                    (Some(s), Err(e)) => {
                        fp.put(6);
                        let lost = m.w.saturating_sub(m.r) > s;
                        // after a failed write there may be nothing to read where it went
                        if !(n > s || lost) && !tainted && m.r >= m.section {
                            res.viol("read_error", &["C08"], format!("op {i}: read of {n} at {} (writer {}): {e}", m.r, m.w));
                        }
                        if tainted {
                            break;
                        }
                    }
                }
            }
            12 | 13 => {
                let (to, want) = pick_target(&mut rng, m.r, &m, scale, declared, ring);
                let r = rd.seek(to);
                log.push(format!("{i}: reader seek {to:?} from {} -> {r:?}", m.r));
                seek_result(&mut res, "reader", i, want, &r);
                fp.put(7);
                if let Ok(p) = r {
                    m.r = p;
                }
                let p = rd.stream_position();
                if p.as_ref().ok() != Some(&m.r) {
                    res.viol("position", &["C08"], format!("op {i}: reader position {p:?}, expected {}", m.r));
                    break;
                }
            }
            14 => {
                // like the download does: reposition to download another section
                let to = match rng.below(4) {
                    0 => m.w,
                    1 => m.r,
                    _ => rng.below(scale * 3 + 2),
                };
                let r = wr.seek(SeekFrom::Start(to));
                log.push(format!("{i}: writer seek {to} from {} -> {r:?}", m.w));
                fp.put(8);
                seek_result(&mut res, "writer", i, Some(to), &r);
                if to != m.w || ring.is_none() {
                    m.section = to;
                    if ring.is_some() {
                        m.bytes.clear();
                    }
                }
                m.w = to;
            }
            _ => {
                let p = wr.stream_position();
                let q = rd.stream_position();
                if p.as_ref().ok() != Some(&m.w) || q.as_ref().ok() != Some(&m.r) {
                    res.viol("position", &["C08"], format!("op {i}: positions {p:?} {q:?}, expected writer {} reader {}", m.w, m.r));
                    break;
                }
                if let Err(e) = wr.flush() {
                    res.viol("flush", &["C08"], format!("op {i}: {e}"));
                }
            }
        }
    }
    let st = inner.st.lock();
    if let Some(s) = ring
        && st.max_end > s
    {
        res.viol("capacity", &["C08", "C07"], format!("{} bytes used below, capacity {s}", st.max_end));
    }
    res.add("unit_operations", nops);
    res.add("unit_ring_cases", u64::from(ring.is_some()));
    res.add("unit_wrapped", u64::from(ring.is_some_and(|s| m.end > s)));
    res.add("unit_inner_faults", st.injected as u64);
    res.fingerprint = fp.0;
    res.nontrivial = nops > 5 && m.end > 0;
    res.sample = format!("seed={seed} sequential {kind:?} declared={declared:?} operations={nops} stored={} reader={} writer={}", m.end, m.r, m.w);
    if !res.viols.is_empty() {
        res.log = format!("{kind:?} declared {declared:?} ring {ring:?}\n{}", log.join("\n"));
    }
    res
}

fn check_bytes(m: &Model, got: &[u8], i: u64, res: &mut Res) {
    for (j, b) in got.iter().enumerate() {
        let p = m.r + j as u64;
        if let Some(s) = m.ring
            && m.w - p.min(m.w) > s
        {
            continue;
        }
        if let Some(Some(want)) = m.bytes.get(&p)
            && want != b
        {
            res.viol("wrong_bytes", &["C08", "C01"], format!("op {i}: wrong byte at {p}"));
            return;
        }
    }
    res.add("unit_bytes_compared", got.len() as u64);
}

fn pick_target(rng: &mut Rng, at: u64, m: &Model, scale: u64, declared: Option<u64>, ring: Option<u64>) -> (SeekFrom, Option<u64>) {
    match rng.below(8) {
        0 => (SeekFrom::Current(0), Some(at)),
        1 => {
            let d = rng.below(at.min(scale) + 1) as i64;
            (SeekFrom::Current(-d), Some(at - d as u64))
        }
        2 => {
            let d = rng.below(scale + 1);
            (SeekFrom::Current(d as i64), Some(at + d))
        }
        3 => (SeekFrom::Current(-(at as i64) - 1 - rng.below(9) as i64), None),
        4 if ring.is_some() => (SeekFrom::End(0), None),
        4 if declared.is_none() => {
            let d = rng.below(m.end + 1);
            (SeekFrom::End(-(d as i64)), Some(m.end - d))
        }
        5 => (SeekFrom::Current(i64::MIN), None),
        6 => (SeekFrom::Start(m.w), Some(m.w)),
        _ => {
            let t = rng.below(m.end.max(scale) + 4);
            (SeekFrom::Start(t), Some(t))
        }
    }
}

fn seek_result(res: &mut Res, who: &str, i: u64, want: Option<u64>, r: &io::Result<u64>) {
    match (want, r) {
        (Some(w), Ok(p)) if w == *p => {}
        (Some(w), r) => res.viol("seek", &["C08", "C03"], format!("op {i}: {who} seek to {w}: {r:?}")),
        (None, Ok(p)) => res.viol("seek_accepted", &["C08", "C03"], format!("op {i}: invalid {who} seek ended up at {p}")),
        (None, Err(_)) => {}
    }
}

/// One thread writes, another reads behind it; the reader only asks for what the writer published.
fn concurrent(seed: u64, dir: &Path) -> Res {
    let mut rng = Rng::new(seed ^ 0xC0);
    let mut res = Res::default();
    let (kind, declared) = pick_kind(&mut rng);
    let inner = StoreCtl::new(StoreCfg { seed, ..StoreCfg::default() });
    trace::configure(seed, rng.below(3));
    let prov = build(kind, dir, &inner);
    let ring = kind.ring(declared);
    let total = match ring {
        Some(s) => s * rng.range(1, 6) + rng.below(s + 1),
        None => declared.unwrap_or(rng.range(1, 4_000)),
    };
    let (mut rd, mut wr) = match prov.into_reader_writer(declared) {
        Ok(x) => x,
        Err(e) => {
            res.viol("create", &["C08"], format!("{kind:?} {declared:?}: {e}"));
            return res;
        }
    };
    let published = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let wmax = rng.range(1, ring.unwrap_or(total).max(1)) as usize;
    let rmax = rng.range(1, ring.unwrap_or(total).max(1)) as usize;
    let writer = std::thread::spawn({
        let published = published.clone();
        let stop = stop.clone();
        let mut rng = Rng::new(seed ^ 0x77);
        move || -> Result<u64, String> {
            let mut pos = 0u64;
            let mut zero = 0u64;
            while pos < total && !stop.load(SeqCst) {
                let n = rng.range(1, wmax as u64).min(total - pos) as usize;
                let data = fill(seed, pos, n);
                match wr.write(&data) {
                    Ok(0) => {
                        zero += 1;
                        if zero > 50_000_000 {
                            return Err("writer never gets any space".into());
                        }
                        std::thread::yield_now();
                    }
                    Ok(k) => {
                        pos += k as u64;
                        let _ = wr.flush();
                        published.store(pos, SeqCst);
                        zero = 0;
                    }
                    Err(e) => return Err(format!("write at {pos}: {e}")),
                }
            }
            Ok(pos)
        }
    });
    let mut pos = 0u64;
    let mut empty = 0u64;
    let mut reads = 0u64;
    let mut backs = 0;
    let mut fp = Fnv::default();
    while pos < total {
        let seen = published.load(SeqCst);
        let n = rng.range(1, rmax as u64) as usize;
        let mut buf = vec![0u8; n];
        match rd.read(&mut buf) {
            Ok(k) => {
                reads += 1;
                fp.put(k as u64);
                if let Some(d) = first_diff(seed, pos, &buf[..k]) {
                    res.viol("wrong_bytes", &["C08", "C01"], format!("{kind:?}: wrong byte at {}", pos + d as u64));
                    break;
                }
                if k == 0 && seen > pos {
                    res.viol("read_nothing", &["C08"], format!("{kind:?}: nothing at {pos}, but {seen} bytes had been stored"));
                    break;
                }
                pos += k as u64;
                if k == 0 {
                    empty += 1;
                    if empty > 50_000_000 || writer.is_finished() && published.load(SeqCst) <= pos {
                        break;
                    }
                    std::thread::yield_now();
                } else {
                    empty = 0;
                }
                // reading again what is still there
                if k > 0 && ring.is_none() && backs < 12 && rng.chance(1, 10) {
                    backs += 1;
                    let back = rng.below(pos.min(200) + 1);
                    let _ = rd.seek(SeekFrom::Current(-(back as i64)));
                    pos -= back;
                }
            }
            Err(e) => {
                res.viol("read_error", &["C08"], format!("{kind:?}: read of {n} at {pos}: {e}"));
                break;
            }
        }
    }
    stop.store(true, SeqCst);
    match writer.join() {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => res.viol("write_error", &["C08"], e),
        Err(_) => res.viol("panic", &["C08", "C21"], "writer panicked"),
    }
    if res.viols.is_empty() && pos != total {
        res.viol("incomplete", &["C08"], format!("{kind:?}: read {pos} of {total} bytes"));
    }
    let _ = byte_at(seed, 0);
    res.add("unit_concurrent_reads", reads);
    res.add("unit_bytes_compared", pos);
    fp.put(reads);
    res.fingerprint = fp.0;
    res.nontrivial = reads > 1;
    res.sample = format!("seed={seed} concurrent {kind:?} declared={declared:?} total={total} reads={reads}");
    if !res.viols.is_empty() {
        res.log = res.sample.clone();
    }
    res
}
