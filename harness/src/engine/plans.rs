//! Scenario generation for the pipeline engine: one weight profile per property.

use std::io::SeekFrom;
use std::path::Path;
use std::time::Duration;

use crate::pipe::{CancelAt, FOREVER, Op, Plan, Store};
use crate::rng::Rng;
use crate::source::{Chunking, Fault, FaultKind, FinishPolicy, SrcCfg};
use crate::storage::StoreCfg;

/// All weights are chances in 16.
#[derive(Clone, Debug, Default)]
pub struct W {
    pub seeks: u64,
    pub bad_seeks: u64,
    pub gated: u64,
    pub bounded: u64,
    pub adaptive: u64,
    pub temp: u64,
    pub prefetch: u64,
    pub unknown: u64,
    pub nonseek: u64,
    pub short: u64,
    /// faults a stream recovers from
    pub soft: u64,
    /// faults that end the download
    pub hard: u64,
    pub stalls: u64,
    pub cancel: u64,
    pub small_batch: u64,
    pub big: u64,
    pub wide_read: u64,
}

pub fn profile(prop: &str, rng: &mut Rng) -> W {
    let base = W {
        seeks: 8,
        bad_seeks: 1,
        gated: 2,
        bounded: 3,
        adaptive: 2,
        temp: 4,
        prefetch: 5,
        unknown: 4,
        nonseek: 3,
        short: 2,
        soft: 2,
        hard: 0,
        stalls: 0,
        cancel: 0,
        small_batch: 6,
        big: 1,
        wide_read: 1,
    };
    match prop {
        "C01" => W {
            soft: 4,
            short: 4,
            hard: 2,
            cancel: 1,
            seeks: 10,
            stalls: 1,
            ..base
        },
        "C02" => W {
            soft: 4,
            seeks: 7,
            stalls: 2,
            ..base
        },
        "C03" => W {
            seeks: 16,
            bad_seeks: 6,
            nonseek: 2,
            gated: 4,
            stalls: 1,
            ..base
        },
        "C04" => W {
            gated: 9,
            seeks: 7,
            soft: 1,
            stalls: 1,
            ..base
        },
        "C05" => W {
            hard: 16,
            seeks: 6,
            gated: 2,
            stalls: 1,
            ..base
        },
        "C06" => W {
            cancel: 14,
            seeks: 6,
            gated: 0,
            hard: 1,
            big: 4,
            stalls: 1,
            ..base
        },
        "C07" => W {
            bounded: 16,
            adaptive: 0,
            seeks: 9,
            wide_read: 3,
            gated: 4,
            big: 3,
            stalls: 1,
            ..base
        },
        "C09" => W {
            bounded: 0,
            adaptive: 16,
            unknown: 7,
            wide_read: 3,
            stalls: 1,
            ..base
        },
        "C10" => W {
            seeks: 14,
            soft: 4,
            nonseek: 3,
            unknown: 3,
            bounded: 2,
            stalls: 2,
            ..base
        },
        "C11" => W {
            stalls: 16,
            seeks: 5,
            gated: 0,
            nonseek: 1,
            ..base
        },
        "C13" => W {
            prefetch: 8,
            soft: 3,
            stalls: 1,
            cancel: 1,
            hard: 1,
            ..base
        },
        "C18" => W {
            small_batch: 13,
            big: 4,
            ..base
        },
        "C19" => W {
            prefetch: 16,
            gated: 12,
            bounded: 2,
            adaptive: 2,
            stalls: 3,
            ..base
        },
        _ => {
            // everything at once
            W {
                soft: 4,
                hard: 3,
                cancel: 2,
                stalls: u64::from(rng.chance(1, 6)) * 8,
                ..base
            }
        }
    }
}

fn pick_total(rng: &mut Rng, w: &W) -> u64 {
    match rng.below(20) {
        0 => rng.below(3),
        1..=4 => rng.range(1, 64),
        5..=9 => rng.range(50, 2_000),
        10..=15 => rng.range(1_000, 20_000),
        _ if rng.chance(w.big + 1, 17) => rng.range(100_000, 400_000),
        _ => rng.range(10_000, 60_000),
    }
}

fn around(rng: &mut Rng, n: u64) -> u64 {
    match rng.below(4) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => n + 1,
        _ => rng.range(0, n * 2 + 1),
    }
}

#[allow(clippy::too_many_lines)]
pub fn plan(prop: &str, seed: u64, dir: &Path) -> Plan {
    let mut r = Rng::new(seed);
    let w = profile(prop, &mut r);
    let rng = &mut r;
    let total = pick_total(rng, &w);
    let unknown = rng.chance(w.unknown, 16);
    let seekable = !rng.chance(w.nonseek, 16);
    let chunk = match rng.below(6) {
        0 => Chunking::Fixed(1 + rng.below(8)),
        1 => Chunking::Fixed(rng.range(1, 512)),
        2 => Chunking::Fixed(rng.range(500, 9_000)),
        3 => Chunking::Whole,
        _ => Chunking::Rand(1, rng.range(2, 6_000)),
    };
    // keep the number of chunks in check
    let chunk = match chunk {
        Chunking::Fixed(n) => Chunking::Fixed(n.max(total / 2_000)),
        Chunking::Rand(a, b) => Chunking::Rand(a.max(total / 2_000), b.max(total / 1_000 + 1)),
        Chunking::Whole => Chunking::Whole,
    };
    let store = if rng.chance(w.bounded, 16) {
        let n = match rng.below(5) {
            0 => rng.range(1, 16),
            1 => around(rng, total).max(1),
            _ => rng.range(16, total.max(200)),
        } as usize;
        let n = n.max((total / 500) as usize).max(1);
        if rng.chance(w.temp, 16) {
            Store::BTemp(n)
        } else {
            Store::BMem(n)
        }
    } else if rng.chance(w.adaptive, 16) {
        let n = around(rng, total).max(total / 500).max(1) as usize;
        if rng.chance(w.temp, 16) {
            Store::ATemp(n)
        } else {
            Store::AMem(n)
        }
    } else if rng.chance(w.temp, 16) {
        Store::Temp
    } else {
        Store::Mem
    };
    let declared = (!unknown).then_some(total);
    let cap = store.capacity(declared);
    let gated = rng.chance(w.gated, 16);
    let chunk = if gated {
        // one permit per chunk
        match chunk {
            Chunking::Fixed(n) => Chunking::Fixed(n.max(total / 60 + 1)),
            Chunking::Rand(a, b) => Chunking::Rand(a.max(total / 80 + 1), b.max(total / 40 + 2)),
            Chunking::Whole => Chunking::Whole,
        }
    } else {
        chunk
    };
    let prefetch = if rng.chance(w.prefetch, 16) {
        match rng.below(4) {
            0 => rng.range(1, 16),
            1 => around(rng, total),
            _ => rng.range(1, total.max(2)),
        }
    } else {
        0
    };
    let batch = if rng.chance(w.small_batch, 16) {
        rng.range(1, 300).max(total / 3_000) as usize
    } else {
        *rng.pick(&[512, 4096, 4096, 65_536])
    };
    let mut plan = Plan {
        seed,
        src: SrcCfg {
            declared,
            seekable,
            chunking: chunk,
            pending: if rng.chance(1, 3) { rng.range(1, 12) } else { 0 },
            gated,
            strict_range: !unknown,
            ignore_end: rng.chance(1, 12),
            ..SrcCfg::simple(seed ^ 0xC0, total)
        },
        store,
        outer: StoreCfg {
            seed: seed ^ 0xC0,
            check_content: true,
            ..StoreCfg::default()
        },
        prefetch,
        batch,
        threads: *rng.pick(&[0, 1, 1, 2]),
        perturb: rng.below(4),
        beat: prop == "C18",
        lockstep: gated || rng.chance(1, 6),
        dir: dir.to_path_buf(),
        ..Plan::simple(seed, total)
    };
    if rng.chance(w.short, 16) {
        plan.outer.short_writes = rng.range(1, 14);
    }
    if rng.chance(w.short, 32) {
        plan.outer.short_reads = rng.range(1, 14);
    }
    if cap.is_none() && Rng::new(seed ^ 0xbf).chance(1, 5) {
        let mut r = Rng::new(seed ^ 0xbf0);
        plan.outer.buffered = if r.chance(1, 2) { 1 << 30 } else { r.range(2, 9_000) as usize };
    }
    // ---- reader program
    let with_seeks = rng.chance(w.seeks, 16);
    let nops = rng.range(1, 14);
    for _ in 0..nops {
        let op = if with_seeks && rng.chance(2, 5) {
            Op::Seek(pick_seek(rng, &plan, total, &w))
        } else {
            match rng.below(12) {
                0 => Op::Nap(rng.range(1, 600)),
                1 => Op::Read(0),
                _ => {
                    let n = match rng.below(5) {
                        0 => rng.range(1, 8),
                        1 => rng.range(1, 300),
                        2 => rng.range(1, total.max(2)),
                        3 => total / 7 + 1,
                        _ => rng.range(200, 5_000),
                    };
                    let n = if let Some(c) = cap {
                        let c = c as u64;
                        if rng.chance(w.wide_read, 48) {
                            c + rng.range(1, 10)
                        } else if rng.chance(1, 5) {
                            c
                        } else {
                            n.min(c).max(1)
                        }
                    } else {
                        n
                    };
                    Op::Read(n as usize)
                }
            }
        };
        plan.ops.push(op);
    }
    if rng.chance(3, 4) {
        plan.ops.push(Op::ToEnd(rng.range(1, 5_000).max(total / 500) as usize));
    }
    if rng.chance(1, 10) && cap.is_none() && !gated {
        plan.ops.push(Op::AwaitFinish);
        for _ in 0..rng.range(1, 4) {
            if with_seeks {
                plan.ops.push(Op::Seek(pick_seek(rng, &plan, total, &w)));
            }
            plan.ops.push(Op::Read(rng.range(1, total.max(2)) as usize));
        }
    }
    if cap.is_some() && plan.ops.last().is_none_or(|o| !matches!(o, Op::ToEnd(_))) {
        plan.finish = false;
    }
    // ---- faults
    if rng.chance(w.soft, 16) {
        for _ in 0..rng.range(1, 4) {
            let at = rng.range(0, total);
            let kind = match rng.below(7) {
                0 => FaultKind::Pause(rng.range(50, 3_000)),
                1 | 2 => FaultKind::Empty,
                3 if at < total => FaultKind::Error,
                4 | 5
                    if seekable
                        && declared.is_some()
                        && cap.is_none()
                        && !plan.src.faults.iter().any(|f| {
                            matches!(f.kind, FaultKind::EarlyEof | FaultKind::ErrorThenEof)
                        }) =>
                {
                    if rng.chance(1, 2) {
                        FaultKind::ErrorThenEof
                    } else {
                        FaultKind::EarlyEof
                    }
                }
                _ => FaultKind::Pause(200),
            };
            plan.src.faults.push(Fault { at, kind });
        }
    }
    if rng.chance(w.stalls, 16) {
        plan.retry = Duration::from_millis(rng.range(4, 25));
        for _ in 0..rng.range(1, 3) {
            plan.src.faults.push(Fault {
                at: rng.range(0, total),
                kind: FaultKind::StallUntilReconnect,
            });
        }
        if rng.chance(1, 3) {
            plan.src.reconnect_errors = (0..rng.range(1, 3)).map(|_| rng.below(4) as usize).collect();
        }
        if rng.chance(1, 4) {
            plan.src.reconnect_hangs = vec![rng.below(3) as usize];
        }
        plan.perturb = 0;
        if !seekable {
            // nothing can bring it back
            plan.cancel = Some(CancelAt::Op(rng.below(plan.ops.len() as u64) as usize, rng.below(60_000)));
        } else if rng.chance(1, 12) {
            plan.cancel = Some(CancelAt::Reconnect);
        }
    }
    if rng.chance(w.hard, 16) {
        let at = rng.range(0, total);
        match rng.below(9) {
            0 => plan.src.faults.push(Fault { at, kind: FaultKind::Panic }),
            1 => {
                plan.src.faults.push(Fault { at, kind: FaultKind::ErrorThenEof });
                if rng.chance(2, 3) {
                    if rng.chance(1, 2) {
                        plan.src.seekable = false;
                    } else {
                        plan.src.declared = None;
                        plan.src.strict_range = false;
                    }
                }
            }
            2 => plan.outer.write_error_at = Some(rng.below(20) as usize),
            3 => plan.outer.flush_error_at = Some(rng.below(12) as usize),
            4 => plan.outer.writer_seek_error_at = Some(rng.below(2) as usize),
            5 => plan.src.seek_errors = vec![rng.below(3) as usize],
            6 => plan.src.finish = FinishPolicy::AlwaysErr,
            7 => plan.outer.panic_write_at = Some(rng.below(12) as usize),
            _ => plan.outer.read_errors = vec![rng.below(4) as usize],
        }
        if rng.chance(1, 2) {
            plan.ops.push(Op::Read(rng.range(1, 500).min(cap.unwrap_or(500) as u64) as usize));
        }
        if plan.store.capacity(plan.src.declared) != cap {
            // the capacity depends on the length
            let c = plan.store.capacity(plan.src.declared);
            for o in &mut plan.ops {
                if let (Op::Read(n), Some(c)) = (o, c) {
                    *n = (*n).min(c);
                }
            }
        }
        if plan.capacity().is_some() {
            plan.finish = plan.finish && matches!(plan.ops.last(), Some(Op::ToEnd(_)));
        }
        plan.src.faults.sort_by_key(|f| f.at);
    }
    if rng.chance(w.cancel, 16) {
        // long enough to tell a cancellation from a completion
        match rng.below(6) {
            0 => {
                let at = rng.below(plan.ops.len() as u64 + 1) as usize;
                plan.ops.insert(at, Op::Cancel);
            }
            1 => plan.cancel = Some(CancelAt::Progress(rng.range(1, 30))),
            2 => {
                plan.early_drop = true;
                plan.finish = false;
                plan.ops.truncate(rng.below(4) as usize);
            }
            3 => {
                // no cancellation at all: the download has to go on
                plan.cancel_on_drop = false;
                plan.early_drop = true;
                plan.finish = false;
                plan.ops.truncate(rng.below(4) as usize);
                if plan.capacity().is_some() {
                    plan.store = Store::Mem;
                }
            }
            _ => {
                plan.cancel = Some(CancelAt::Op(
                    rng.below(plan.ops.len() as u64) as usize,
                    if rng.chance(1, 2) { 0 } else { rng.below(3_000) },
                ));
            }
        }
        // a source that is waiting for something when it is cancelled
        if rng.chance(1, 3) && plan.cancel.is_some() && !plan.ops.is_empty() {
            match rng.below(3) {
                0 => plan.src.faults.push(Fault {
                    at: rng.range(0, total),
                    kind: FaultKind::Stall,
                }),
                1 => plan.src.seek_delay_us = rng.range(100, 20_000),
                _ => plan.src.pending = 14,
            }
            if matches!(plan.cancel, Some(CancelAt::Progress(_)))
                && plan.src.faults.iter().any(|f| f.kind == FaultKind::Stall)
            {
                plan.cancel = Some(CancelAt::Op(0, rng.below(3_000)));
            }
        }
    }
    plan.src.faults.sort_by_key(|f| f.at);
    if plan.retry < FOREVER {
        plan.src.gated = false;
        plan.lockstep = false;
        if !plan.src.seekable
            && plan.src.faults.iter().any(|f| f.kind == FaultKind::StallUntilReconnect)
        {
            // nothing else would end it
            plan.cancel = Some(CancelAt::Op(0, rng.below(60_000)));
            plan.cancel_on_drop = true;
        }
    }
    if plan.beat {
        plan.threads = 0;
    }
    await_fill(&mut plan, Rng::new(seed ^ 0xF111));
    paused(&mut plan, Rng::new(seed ^ 0x71AE), total);
    jump(&mut plan, Rng::new(seed ^ 0x10AB), total);
    plan
}

/// Moves a plan with stalls to a runtime with a paused clock, where timeouts of any length cost
/// nothing and are kept to the millisecond.
fn paused(plan: &mut Plan, mut rng: Rng, total: u64) {
    if plan.retry >= FOREVER || !plan.src.seekable || plan.src.gated || !rng.chance(1, 2) {
        return;
    }
    plan.virt = true;
    plan.threads = 0;
    plan.retry_default = rng.chance(1, 4);
    let ms = if plan.retry_default {
        5_000
    } else {
        match rng.below(4) {
            0 => rng.range(10, 60),
            1 => rng.range(60, 4_000),
            2 => rng.range(4_000, 60_000),
            _ => rng.range(60_000, 7_200_000),
        }
    };
    plan.retry = Duration::from_millis(ms);
    // whether these count as data is nobody's business
    plan.src.faults.retain(|f| !matches!(f.kind, FaultKind::Error | FaultKind::Empty | FaultKind::Pause(_)));
    for _ in 0..rng.range(0, 12) {
        // a tenth of the timeout up to one and a half, but never close to it
        let us = match rng.below(4) {
            0 => rng.range(ms * 1_200, ms * 1_500),
            _ => rng.range(ms * 100, ms * 900),
        };
        plan.src.faults.push(Fault {
            at: rng.range(0, total),
            kind: FaultKind::Pause(us),
        });
    }
    plan.src.faults.sort_by_key(|f| f.at);
    if rng.chance(1, 4) {
        plan.src.reconnect_errors = (0..rng.range(1, 6)).map(|_| rng.below(8) as usize).collect();
    }
    if rng.chance(1, 4) {
        plan.src.reconnect_hangs = (0..rng.range(1, 3)).map(|_| rng.below(6) as usize).collect();
    }
}

/// The source stops for good in front of the position the reader wants to go to: only a request
/// for that position can help, and nothing in between may be waited for.
fn jump(plan: &mut Plan, mut rng: Rng, total: u64) {
    if total < 4 || total > 1 << 40 || !sound(plan) || !rng.chance(1, 6) {
        return;
    }
    let cap = plan.capacity().map_or(total, |c| (c as u64).min(total));
    let pos = if plan.prefetch == 0 { rng.below(total - 2) } else { 0 };
    let at = rng.range(pos, (pos + cap - 1).min(total - 2));
    let to = rng.range(at + 1, (pos + cap).min(total - 1));
    let mut ops = vec![];
    let mut p = 0;
    while p < pos {
        let n = (pos - p).min(cap).min(rng.range(1, 5_000).max(total / 20 + 1));
        ops.push(Op::Read(n as usize));
        p += n;
    }
    if rng.chance(1, 4) {
        ops.push(Op::Nap(rng.range(1, 600)));
    }
    ops.push(Op::Seek(SeekFrom::Start(to)));
    if plan.capacity().is_none() && plan.src.declared.is_some() && !plan.src.ignore_end && rng.chance(1, 3) {
        // what is left out is asked for in the end, and never comes: what is there has to do
        plan.src.seek_hang = Some(1);
        plan.finish = false;
        ops.push(Op::AwaitHang);
        for _ in 0..rng.range(2, 9) {
            let (a, b) = if pos > 0 && rng.chance(1, 2) { (0, pos) } else { (to, total) };
            let x = rng.range(a, b - 1);
            ops.push(Op::Seek(SeekFrom::Start(x)));
            if rng.chance(3, 4) {
                ops.push(Op::Read(rng.range(1, b - x) as usize));
            }
        }
        plan.ops.clear();
    }
    ops.append(&mut plan.ops);
    plan.ops = ops;
    plan.outer.short_reads = 0;
    plan.src.faults.clear();
    plan.src.faults.push(Fault {
        at,
        kind: FaultKind::StallUntilSeek,
    });
}

/// Nothing is injected or cancelled that could keep the download from going on.
fn sound(plan: &Plan) -> bool {
    let o = &plan.outer;
    plan.src.seekable
        && !plan.src.gated
        && plan.retry == FOREVER
        && plan.cancel.is_none()
        && !plan.early_drop
        && plan.src.finish == FinishPolicy::Pass
        && plan.src.seek_errors.is_empty()
        && plan.src.faults.iter().all(|f| matches!(f.kind, FaultKind::Pause(_) | FaultKind::Empty))
        && !plan.ops.contains(&Op::Cancel)
        && o.write_error_at.is_none()
        && o.flush_error_at.is_none()
        && o.writer_seek_error_at.is_none()
        && o.panic_write_at.is_none()
        && o.read_errors.is_empty()
}

/// Without faults, the download makes use of all the room there is.
fn await_fill(plan: &mut Plan, mut rng: Rng) {
    if plan.capacity().is_none() || !sound(plan) || !rng.chance(1, 2) {
        return;
    }
    let mut ops = vec![];
    for op in plan.ops.drain(..) {
        ops.push(op);
        if matches!(op, Op::Read(_) | Op::Seek(_)) && rng.chance(1, 2) {
            ops.push(Op::AwaitFill);
        }
    }
    plan.ops = ops;
}

fn pick_seek(rng: &mut Rng, plan: &Plan, total: u64, w: &W) -> SeekFrom {
    let known = plan.src.declared.is_some();
    if rng.chance(w.bad_seeks, 24) {
        return match rng.below(6) {
            0 => SeekFrom::Current(i64::MIN),
            1 => SeekFrom::Current(-(total as i64) - 5),
            2 => SeekFrom::End(-(total as i64) - 1 - rng.below(5) as i64),
            3 => SeekFrom::End(i64::MIN),
            4 if known => SeekFrom::Start(total + rng.range(1, 1000)),
            5 if known => SeekFrom::Start(u64::MAX),
            _ => SeekFrom::End(0),
        };
    }
    if plan.src.seekable && !known {
        // beyond the end of a stream with unknown length nothing can be requested
        return if total == 0 {
            SeekFrom::Current(0)
        } else if rng.chance(1, 5) {
            SeekFrom::Current(-(rng.below(total.min(50) + 1) as i64))
        } else {
            SeekFrom::Start(rng.below(total))
        };
    }
    let span = plan.capacity().map_or(total, |c| (c as u64).min(total));
    match rng.below(8) {
        0 => SeekFrom::Current(0),
        1 => SeekFrom::Current(-(rng.below(span + 1) as i64)),
        2 => SeekFrom::Current(rng.below(span + 2) as i64),
        3 => SeekFrom::End(-(rng.below(total + 1) as i64)),
        4 => SeekFrom::End(rng.below(3) as i64),
        _ => SeekFrom::Start(rng.range(0, total + u64::from(known))),
    }
}
