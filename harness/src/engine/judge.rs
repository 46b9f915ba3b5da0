//! Offline oracle over one recorded run of the pipeline engine.

use std::io;

use stream_download::StreamPhase;
use stream_download::source::StreamOutcome;

use crate::pipe::{Op, Plan, Ret, Run, Store, phase_name, target};
use crate::quiesce::Wait;
use crate::report::{Fnv, Res};
use crate::source::{Ev, FaultKind, FinishPolicy};

/// Chunks a source may still be asked for after a cancellation was requested.
const CANCEL_SLACK: usize = 64;
/// Writes of one batch each that may still be made then, however large the chunk at hand is.
const CANCEL_WRITES: usize = 100;

pub struct Ctx<'a> {
    pub plan: &'a Plan,
    pub run: &'a Run,
    pub bounded: bool,
    pub has_seeks: bool,
    pub adaptive: bool,
    pub stalls: bool,
    pub nonseek: bool,
    /// nothing was injected that could make the download fail or lose data
    pub healthy: bool,
    pub cancel_requested: bool,
    pub failed: bool,
}

impl Ctx<'_> {
    fn tags(&self, base: &[&'static str]) -> Vec<&'static str> {
        let mut v = base.to_vec();
        if self.has_seeks {
            v.push("C03");
        }
        if self.bounded {
            v.push("C07");
        }
        if self.adaptive {
            v.push("C09");
        }
        if self.stalls {
            v.push("C11");
        }
        v
    }
}

fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}

/// Faults after which complete content is still due, because the source can be asked again.
fn survivable(plan: &Plan, f: &FaultKind, at: u64) -> bool {
    match f {
        FaultKind::Pause(_) | FaultKind::Empty | FaultKind::StallUntilSeek => true,
        FaultKind::StallUntilReconnect => plan.src.seekable && plan.retry < crate::pipe::FOREVER,
        FaultKind::Error => {
            (plan.src.seekable && plan.src.declared.is_some())
                || (at < plan.src.total
                    && (!plan.src.seekable || !plan.ops.iter().any(|o| matches!(o, Op::Seek(_)))))
        }
        FaultKind::ErrorThenEof | FaultKind::EarlyEof => {
            plan.src.seekable && plan.src.declared.is_some()
        }
        FaultKind::Panic | FaultKind::Stall => false,
    }
}

/// A request was answered with nothing at all, which the library may take for an answer.
fn gave_nothing(plan: &Plan, run: &Run) -> bool {
    let mut end = plan.src.total;
    let mut seen = true;
    for e in &run.log {
        match e {
            Ev::Seek(_, b) => {
                end = b.unwrap_or(plan.src.total).min(plan.src.total);
                seen = false;
            }
            Ev::Chunk(a, b) if b > a => seen = true,
            Ev::Eof(p) if *p < end && !seen => return true,
            _ => {}
        }
    }
    false
}

pub fn judge(plan: &Plan, run: &Run) -> Res {
    let mut res = Res::default();
    let total = plan.src.total;
    let cap = plan.capacity();
    let st = run.ctl.st.lock();
    let outer = run.outer.st.lock();
    let healthy = plan
        .src
        .faults
        .iter()
        .all(|f| survivable(plan, &f.kind, f.at))
        && plan.src.seek_errors.is_empty()
        && plan.outer.write_error_at.is_none()
        && plan.outer.flush_error_at.is_none()
        && plan.outer.writer_seek_error_at.is_none()
        && plan.outer.panic_write_at.is_none()
        && plan.src.finish == FinishPolicy::Pass
        && plan.cancel.is_none()
        && !plan.ops.contains(&Op::Cancel)
        && plan.src.declared.is_none_or(|d| d == total)
        && !gave_nothing(plan, run)
        && !ended_by_error(plan, run);
    // an early end without an error can only be noticed by its length and mended by asking again
    let knowable = match plan.src.declared {
        Some(d) => d == total && (plan.src.seekable || !cut_short(plan, run)),
        None => !cut_short(plan, run),
    };
    let cancel_mark = run.log.iter().position(|e| *e == Ev::Mark("cancel"));
    let finish_at = run
        .log
        .iter()
        .position(|e| matches!(e, Ev::Finish { .. }));
    let drop_at = run.log.iter().position(|e| *e == Ev::Mark("drop"));
    let src_dropped_at = run.log.iter().position(|e| *e == Ev::Dropped);
    let drop_cancels = plan.cancel_on_drop
        && match (drop_at, finish_at) {
            (Some(d), Some(f)) => d < f,
            (Some(_), None) => true,
            _ => false,
        };
    let cancel_requested = cancel_mark.is_some() || drop_cancels;
    let failed = run.log.iter().any(|e| matches!(e, Ev::Finish { ok: false, outcome, .. } if *outcome == StreamOutcome::Completed));
    let c = Ctx {
        plan,
        run,
        bounded: cap.is_some(),
        has_seeks: plan.ops.iter().any(|o| matches!(o, Op::Seek(_))),
        adaptive: matches!(plan.store, Store::AMem(_) | Store::ATemp(_)),
        stalls: plan
            .src
            .faults
            .iter()
            .any(|f| matches!(f.kind, FaultKind::StallUntilReconnect)),
        nonseek: !plan.src.seekable,
        healthy,
        cancel_requested,
        failed,
    };
    res.add("jumps_past_stalls", u64::from(plan.src.faults.iter().any(|f| f.kind == FaultKind::StallUntilSeek)));
    res.add("hung_requests", u64::from(st.hung));
    res.add("reader_operations", run.results.len() as u64);
    res.add("source_events", run.log.len() as u64);
    res.add("bytes_written", outer.bytes_written);
    res.add("storage_writes", outer.writes as u64);
    res.add("seek_requests", st.seeks as u64);
    res.add("reconnects", st.reconnects as u64);
    res.add("progress_callbacks", run.progress.len() as u64);
    res.add("permits_released", run.permits);
    res.add("satisfiable_waits", run.satisfiable_waits);
    res.add("injected_storage_faults", outer.injected as u64);
    res.add("buffering_storage_runs", u64::from(plan.outer.buffered > 0));

    // ---- hangs
    if let Some(what) = &run.stuck_in {
        match run.wait {
            Wait::Quiescent | Wait::Busy => {
                let op = plan.ops.get(run.results.len());
                let mut t = c.tags(&["C04"]);
                if plan.cancel.is_some() || cancel_requested || what.contains("dropped") {
                    t.push("C06");
                }
                if !healthy {
                    t.push("C05");
                }
                if plan.prefetch > 0 {
                    t.push("C19");
                }
                if what.contains("end of the download") {
                    t.push("C10");
                    t.push("C02");
                }
                res.viol(
                    "hang",
                    &t,
                    format!(
                        "{} while waiting for: {what} (running: {op:?}, cancel requested: {cancel_requested})",
                        if run.wait == Wait::Busy { "the process is busy without getting anywhere" } else { "nothing can make progress any more" }
                    ),
                );
            }
            Wait::Timeout => res.inconclusive = true,
            Wait::Done => {}
        }
        res.poisoned = true;
    }
    if let Some(l) = &run.livelock {
        let t = c.tags(&["C04", "C10", "C05"]);
        res.viol("livelock", &t, l.clone());
        res.poisoned = true;
    }
    // ---- panics
    for p in &run.panics {
        if crate::panics::own(p) {
            // a defect of the harness itself
            res.inconclusive = true;
            res.add("harness_panics", 1);
            continue;
        }
        let mut t = c.tags(&["C21"]);
        t.extend(["C02", "C04", "C05"]);
        res.viol("panic", &t, clip(p));
    }
    if let Some(e) = &run.init_error {
        if healthy {
            res.viol("init", &["C22", "C02"], format!("creating the stream failed: {e}"));
        }
        return res;
    }
    if run.content_length != plan.src.declared {
        res.viol(
            "content_length",
            &["C22", "C03"],
            format!("content length {:?}, source says {:?}", run.content_length, plan.src.declared),
        );
    }

    // ---- operations
    let size = cap.map(|n| match plan.src.declared {
        Some(l) => l.min(n as u64),
        None => n as u64,
    });
    for (i, r) in run.results.iter().enumerate() {
        let at = |s: String| {
            format!(
                "operation {i} {:?} at position {}: {s}{}",
                r.op,
                r.pos,
                if r.verify { " (reading again after the end)" } else { "" }
            )
        };
        if let Some(b) = r.bad {
            let mut t = c.tags(&["C01"]);
            if !healthy {
                t.push("C05");
            }
            res.viol("wrong_bytes", &t, at(format!("wrong byte at {b}, result {:?}", r.ret)));
        }
        if r.ret == Ret::Panic {
            continue;
        }
        let strict = c.healthy && !(r.can_after && cancel_requested);
        let may_fail = |k: &io::ErrorKind, q: u64| -> bool {
            // only limited storage may refuse to read what it does not hold any more
            let Some(size) = size else { return false };
            match k {
                io::ErrorKind::InvalidInput => r.wpos.saturating_sub(q) > size,
                io::ErrorKind::UnexpectedEof => q < r.section,
                _ => false,
            }
        };
        if let (Some((p, n, k)), true, 0) = (r.short, strict, plan.outer.short_reads) {
            let t = c.tags(&["C04"]);
            res.viol("short_read", &t, at(format!("read of {n} at {p} returned {k} before the end")));
        }
        match (&r.op, &r.ret) {
            (Op::AwaitFill, Ret::Fill(full, w, to)) => {
                res.add("fills_awaited", 1);
                if !full && strict {
                    let t = c.tags(&["C07", "C04"]);
                    res.viol("not_filled", &t, at(format!("the download sleeps at {w}, although there is room up to {to}")));
                }
            }
            (Op::Read(n), Ret::Read(k)) => {
                if *k > *n {
                    res.viol("wrong_bytes", &["C01"], at(format!("returned {k}")));
                }
                if cap.is_some_and(|c| *n > c) {
                    res.viol("excess_read", &["C07", "C09"], at(format!("returned {k}, exceeds the capacity")));
                }
                let left = total.saturating_sub(r.pos);
                if *n > 0 && *k == 0 && left > 0 {
                    let mut t = c.tags(&["C02", "C05"]);
                    if cancel_requested {
                        t.push("C06");
                    }
                    if knowable {
                        res.viol("premature_eof", &t, at(format!("end of stream reported, content has {total} bytes")));
                    }
                } else if strict && (*k as u64) < (*n as u64).min(left) && plan.outer.short_reads == 0 {
                    let t = c.tags(&["C04"]);
                    res.viol("short_read", &t, at(format!("returned {k}")));
                }
                if r.gone_before && st.finished > 0 && (c.failed || plan.src.finish == FinishPolicy::AlwaysErr) && *n > 0 {
                    res.viol("read_after_failure", &["C05"], at(format!("returned {k} after the download failed")));
                }
            }
            (Op::Read(n), Ret::Err(k, m)) => {
                let excess = cap.is_some_and(|c| *n > c) && *k == io::ErrorKind::InvalidInput;
                if strict && !excess && !(*n > 0 && may_fail(k, r.pos)) && !injected(m) {
                    let t = c.tags(&["C02"]);
                    res.viol("unexpected_error", &t, at(format!("{k:?}: {}", clip(m))));
                }
            }
            (Op::ToEnd(_), Ret::All(n)) => {
                let left = total.saturating_sub(r.pos);
                if *n != left && knowable {
                    let mut t = c.tags(&["C02", "C05"]);
                    if cancel_requested {
                        t.push("C06");
                    }
                    res.viol("premature_eof", &t, at(format!("got {n} of the remaining {left} bytes")));
                }
                if r.gone_before && (c.failed || plan.src.finish == FinishPolicy::AlwaysErr) && st.finished > 0 {
                    res.viol("read_after_failure", &["C05"], at("succeeded after the download failed".into()));
                }
            }
            (Op::ToEnd(_), Ret::AllErr(n, k, m)) => {
                if strict && !may_fail(k, r.pos + n) && !injected(m) {
                    let t = c.tags(&["C02"]);
                    res.viol("unexpected_error", &t, at(format!("{k:?} after {n} bytes: {}", clip(m))));
                }
            }
            (Op::Seek(s), ret) => {
                let want = target(plan, r.pos, *s);
                match (want, ret) {
                    (Ok(t), Ret::Pos(p)) => {
                        if t != *p {
                            res.viol("seek_target", &["C03"], at(format!("reported {p}, expected {t}")));
                        }
                        if r.gone_before && st.finished > 0 && (c.failed || plan.src.finish == FinishPolicy::AlwaysErr) {
                            res.viol("seek_after_failure", &["C05"], at("succeeded after the download failed".into()));
                        }
                    }
                    (Ok(t), Ret::Err(k, m)) => {
                        if strict {
                            let tg = c.tags(&["C03"]);
                            res.viol("unexpected_error", &tg, at(format!("to {t} failed: {k:?} {}", clip(m))));
                        }
                    }
                    (Err(k), Ret::Pos(p)) => {
                        let t = c.tags(&["C03"]);
                        res.viol("seek_accepted", &t, at(format!("reported {p}, should be refused with {k:?}")));
                    }
                    (Err(want), Ret::Err(k, _)) => {
                        if strict && want != *k {
                            res.viol("seek_error_kind", &["C03"], at(format!("refused with {k:?}, expected {want:?}")));
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }

    let swallowed = outer.injected as u64 - run.injected_writer as u64;
    let surfaced = run
        .results
        .iter()
        .filter(|r| matches!(&r.ret, Ret::Err(_, m) | Ret::AllErr(_, _, m) if injected(m)))
        .count() as u64;
    res.add("storage_read_errors_surfaced", surfaced);
    if run.stuck_in.is_none() && swallowed != surfaced {
        res.viol("error_swallowed", &["C05"], format!("{swallowed} storage read errors, {surfaced} were reported to the reader"));
    }

    // ---- waiting and prefetch, see `satisfiable` in the driver for the opposite direction
    let roomy = cap.is_none_or(|c| c as u64 >= plan.prefetch.saturating_add(chunk_max(plan)));
    if plan.prefetch > 0 && roomy {
        let mut requests = 0;
        let mut seen_data = false;
        let mut seen_seek = false;
        for (i, r) in run.results.iter().enumerate() {
            let target = plan.prefetch;
            let met = r.since_seek >= target || r.eof_since_seek || r.fin_after || r.can_after;
            match (&r.op, &r.ret) {
                (Op::Read(_), Ret::Read(k)) if *k > 0 => {
                    // a seek ends the prefetch
                    if requests == 0 && r.requests == 0 && !seen_seek {
                        res.add("prefetch_gate_checks", 1);
                        if !met && c.healthy {
                            res.viol(
                                "prefetch",
                                &["C19"],
                                format!("operation {i} {:?} returned {k} bytes when only {} of {target} prefetch bytes had been delivered", r.op, r.since_seek),
                            );
                        }
                    }
                    seen_data = true;
                }
                (Op::Seek(_), Ret::Pos(p)) => {
                    seen_seek = true;
                    if r.requests == requests + 1 && seen_data && plan.src.declared.is_none_or(|l| *p < l) {
                        res.add("prefetch_restart_checks", 1);
                        // the request may also have been made to fill a gap
                        let fresh = r.section == *p;
                        if fresh && !met && c.healthy {
                            res.viol(
                                "prefetch",
                                &["C19"],
                                format!("operation {i} {:?} returned when only {} of {target} prefetch bytes had been delivered from the new position", r.op, r.since_seek),
                            );
                        }
                    }
                }
                _ => {}
            }
            requests = r.requests;
        }
    }

    // ---- end of the download
    let finishes: Vec<_> = run
        .log
        .iter()
        .filter_map(|e| match e {
            Ev::Finish { ok, kind, outcome } => Some((*ok, *kind, *outcome)),
            _ => None,
        })
        .collect();
    let panicked = plan.src.faults.iter().any(|f| f.kind == FaultKind::Panic)
        || plan.outer.panic_write_at.is_some();
    let ended = run.stuck_in.is_none() && run.livelock.is_none();
    if ended {
        if finishes.len() > 1 || (finishes.is_empty() && !panicked) {
            res.viol("finish_count", &["C06"], format!("finish hook called {} times", finishes.len()));
        }
        if let Some((ok, kind, outcome)) = finishes.first() {
            match outcome {
                StreamOutcome::CancelledByUser => {
                    if !cancel_requested {
                        res.viol("finish_outcome", &["C06", "C02"], "reported as cancelled, but nobody cancelled");
                    }
                    if *ok || *kind != Some(io::ErrorKind::Interrupted) {
                        res.viol("finish_outcome", &["C06"], format!("cancelled, but the result is ok={ok} {kind:?}"));
                    }
                }
                StreamOutcome::Completed => {
                    if *ok && finish_expected_to_fail(plan, run) {
                        res.viol("finish_outcome", &["C05"], "reported as completed although the download failed");
                    }
                    if !*ok && c.healthy {
                        let t = c.tags(&["C02", "C10"]);
                        res.viol("finish_outcome", &t, format!("download failed without a cause: {kind:?}"));
                    }
                    if *ok && c.healthy && cap.is_none() && !covered(&outer.written, total) {
                        let t = c.tags(&["C02", "C10"]);
                        res.viol(
                            "incomplete",
                            &t,
                            format!(
                                "download completed, but only {:?} of {total} bytes are stored",
                                outer.written.iter().cloned().collect::<Vec<_>>()
                            ),
                        );
                    }
                }
            }
            // promptness, in source chunks
            let mark = run
                .log
                .iter()
                .position(|e| *e == Ev::Mark("cancelled") || (*e == Ev::Mark("dropped") && drop_cancels));
            if let Some(m) = mark {
                let n = run.log[m..].iter().filter(|e| matches!(e, Ev::Chunk(..))).count();
                res.max("max_chunks_after_cancel", n as u64);
                res.add("cancellations_observed", 1);
                if n > CANCEL_SLACK {
                    res.viol("cancel_slow", &["C06"], format!("{n} more chunks were fetched after the cancellation"));
                }
                if let Some(w) = st.writes_at_cancel {
                    let w = outer.writes.saturating_sub(w);
                    res.max("max_writes_after_cancel", w as u64);
                    if w > CANCEL_WRITES {
                        res.viol("cancel_slow", &["C06"], format!("{w} more batches were written after the cancellation"));
                    }
                }
                if *outcome == StreamOutcome::CancelledByUser {
                    res.add("outcome_cancelled", 1);
                } else {
                    res.add("outcome_completed_anyway", 1);
                }
            }
        }
        if st.calls_after_finish > 0 {
            res.viol("calls_after_finish", &["C06", "C10"], format!("source called {} times after it was finished", st.calls_after_finish));
        }
        if !st.dropped {
            res.viol("source_leaked", &["C06"], "source was never dropped");
        }
        let waited = run.log.iter().position(|e| *e == Ev::Mark("waited"));
        match (waited, src_dropped_at) {
            (Some(w), Some(d)) if w < d => {
                res.viol("wait_too_early", &["C06"], "completion was signalled while the source was still in use");
            }
            _ => {}
        }
        if !outer.writer_dropped {
            res.viol("writer_leaked", &["C06"], "storage writer was never dropped");
        }
        if run.reader_dropped && !outer.reader_dropped {
            res.viol("reader_leaked", &["C06"], "storage reader was never dropped");
        }
        // reads after everything is over
        let must_err = finishes.first().is_some_and(|f| !f.0) || finishes.is_empty();
        for (i, r) in run.results.iter().enumerate() {
            if r.gone_before && must_err {
                res.add("operations_after_failure", 1);
                let ok = matches!(&r.ret, Ret::Read(k) if !matches!(r.op, Op::Read(0)) || *k > 0)
                    || matches!(&r.ret, Ret::Pos(_) | Ret::All(_));
                if ok {
                    res.viol(
                        "ok_after_end",
                        &["C05", "C06"],
                        format!("operation {i} {:?} returned {:?} after the download had failed or was cancelled", r.op, r.ret),
                    );
                }
            }
        }
    }

    // ---- storage
    for p in outer.problems.iter().take(3) {
        let t = c.tags(&["C01"]);
        res.viol("stored_wrong", &t, p.clone());
    }
    if outer.created_with != vec![plan.src.declared] {
        res.viol("storage_creation", &["C22"], format!("storage created with {:?}", outer.created_with));
    }
    res.add("batch_pairs", outer.beat_pairs);
    if outer.beat_pairs >= 4 && outer.beat_missed * 2 > outer.beat_pairs {
        res.viol("no_yield", &["C18"], format!("no other task ran between {} of {} consecutive writes", outer.beat_missed, outer.beat_pairs));
    }
    if outer.max_write > plan.batch {
        res.viol("batch", &["C18"], format!("write of {} bytes, batch size is {}", outer.max_write, plan.batch));
    }
    res.max("max_write", outer.max_write as u64);
    storage_rules(plan, run, &mut res);

    // ---- requests
    let mut user_seeks = 0usize;
    for e in &run.log {
        match e {
            Ev::Op(i) => {
                if run.results.get(*i).is_none_or(|r| matches!(r.op, Op::Seek(_))) {
                    user_seeks += 1;
                }
            }
            Ev::Seek(a, b) => {
                if !plan.src.seekable {
                    res.viol("request", &["C10"], format!("{a}..{b:?} requested, but the source can not seek"));
                }
                if b.is_some_and(|b| b < *a || b == *a && plan.src.declared != Some(b)) {
                    res.viol("request", &["C10"], format!("empty or inverted range {a}..{b:?} requested"));
                }
                if let Some(l) = plan.src.declared
                    && (*a > l || b.is_some_and(|b| b > l))
                {
                    res.viol("request", &["C10"], format!("range {a}..{b:?} requested, the length is {l}"));
                }
            }
            _ => {}
        }
    }
    let faults = plan.src.faults.len() + plan.src.reconnect_errors.len();
    let limit = 2 * user_seeks + 2 * faults + 3;
    if ended && st.seeks > limit {
        res.viol("request_count", &["C10"], format!("{} range requests for {user_seeks} seeks and {faults} faults", st.seeks));
    }
    if c.healthy && cap.is_none() && plan.src.declared.is_some() && !plan.src.ignore_end && st.reconnects == 0 {
        if let Some(o) = st.redundant.first() {
            res.viol("redundant_request", &["C10"], o.clone());
        }
        if outer.rewritten > 0 {
            res.viol("redundant_download", &["C10"], format!("{} bytes were downloaded and stored twice", outer.rewritten));
        }
    }
    // ---- reconnects
    let mut ok = 0u64;
    for e in &run.log {
        match e {
            Ev::Reconnect(p, at) => {
                if p != at {
                    res.viol("reconnect_position", &["C11"], format!("reconnect at {p}, but the next byte needed is {at}"));
                }
            }
            Ev::ReconnectOk(_) => ok += 1,
            _ => {}
        }
    }
    if ended && run.reconnect_calls > ok {
        res.viol("on_reconnect", &["C11"], format!("{} callbacks for {ok} successful reconnects", run.reconnect_calls));
    }
    if ended && run.reconnect_calls < ok && !cancel_requested {
        res.viol("on_reconnect", &["C11"], format!("{} callbacks for {ok} successful reconnects", run.reconnect_calls));
    }
    if st.reconnects > 0 && plan.retry >= crate::pipe::FOREVER {
        res.viol("reconnect_unprovoked", &["C11"], format!("{} reconnects within the retry timeout", st.reconnects));
    }
    if let Some(clock) = &run.ctl.clock {
        let t = crate::clock::judge(&clock.take(), plan.retry);
        res.add("timed_runs", 1);
        res.add("timed_reconnects", t.reconnects);
        res.add("timed_abandoned", t.abandoned);
        res.add("timed_short_silences", t.patient);
        res.add("timed_silence_s", t.waited_ms / 1000);
        for p in t.problems {
            res.viol("reconnect_time", &["C11"], p);
        }
    }
    progress_rules(&c, outer.bytes_written, &mut res);

    // ---- summary
    let mut h = Fnv::default();
    for e in &run.log {
        match e {
            Ev::Chunk(a, b) => {
                h.put(1);
                h.put(b - a);
            }
            Ev::Eof(_) => h.put(2),
            Ev::Err(_) => h.put(3),
            Ev::Stalled(_) => h.put(4),
            Ev::Seek(a, _) => {
                h.put(5);
                h.put(*a);
            }
            Ev::SeekErr(_) => h.put(6),
            Ev::Reconnect(a, _) => {
                h.put(7);
                h.put(*a);
            }
            Ev::ReconnectErr(_) | Ev::ReconnectOk(_) => h.put(8),
            Ev::Finish { ok, .. } => h.put(10 + u64::from(*ok)),
            Ev::Dropped => h.put(12),
            Ev::Op(i) => h.put(1000 + *i as u64),
            Ev::Ret(i) => h.put(2000 + *i as u64),
            Ev::Mark(m) => h.bytes(m.as_bytes()),
        }
    }
    res.fingerprint = h.0;
    res.sample = format!(
        "seed={} store={} total={} declared={:?} seekable={} chunks={:?} prefetch={} batch={} threads={} perturb={} gated={} faults={} ops={:?} cancel={:?} -> ops={} chunks={} requests={} reconnects={} finish={:?}",
        plan.seed,
        plan.store.name(),
        plan.src.total,
        plan.src.declared,
        plan.src.seekable,
        plan.src.chunking,
        plan.prefetch,
        plan.batch,
        plan.threads,
        plan.perturb,
        plan.src.gated,
        plan.src.faults.len(),
        plan.ops.iter().take(6).collect::<Vec<_>>(),
        plan.cancel,
        run.results.len(),
        run.log.iter().filter(|e| matches!(e, Ev::Chunk(..))).count(),
        st.seeks,
        st.reconnects,
        finishes.first(),
    );
    if !res.viols.is_empty() || res.inconclusive {
        use std::fmt::Write;
        let mut s = String::new();
        let _ = writeln!(s, "plan: {plan:#?}");
        for (i, r) in run.results.iter().enumerate().take(200) {
            let _ = writeln!(s, "result {i}: {r:?}");
        }
        for e in run.log.iter().take(2000) {
            let _ = writeln!(s, "event: {e:?}");
        }
        for p in run.progress.iter().take(200) {
            let _ = writeln!(s, "progress: {p:?}");
        }
        res.log = s;
    }
    res
}

fn injected(m: &str) -> bool {
    m.contains("VH-INJECTED")
}

fn covered(w: &rangemap::RangeSet<u64>, total: u64) -> bool {
    total == 0 || w.gaps(&(0..total)).next().is_none()
}

fn chunk_max(plan: &Plan) -> u64 {
    match plan.src.chunking {
        crate::source::Chunking::Fixed(n) => n,
        crate::source::Chunking::Rand(_, b) => b,
        crate::source::Chunking::Whole => plan.src.total,
    }
}

/// The run contains an event after which the download can not have completed.
fn finish_expected_to_fail(plan: &Plan, run: &Run) -> bool {
    let o = run.outer.cfg.clone();
    if run.log.iter().any(|e| matches!(e, Ev::SeekErr(_))) {
        return true;
    }
    let injected = o.write_error_at.is_some() || o.flush_error_at.is_some() || o.writer_seek_error_at.is_some();
    if injected && run.injected_writer > 0 {
        return true;
    }
    ended_by_error(plan, run)
}

/// The source ended a response early without an error.
fn cut_short(plan: &Plan, run: &Run) -> bool {
    let mut err = false;
    for e in &run.log {
        match e {
            Ev::Err(_) => err = true,
            Ev::Chunk(a, b) if b > a => err = false,
            Ev::Seek(..) => err = false,
            Ev::Eof(p) if *p < plan.src.total && !err => return true,
            _ => {}
        }
    }
    false
}

/// An error right before the end of a response that can not be asked for again.
fn ended_by_error(plan: &Plan, run: &Run) -> bool {
    if !plan.src.seekable || plan.src.declared.is_none() {
        let mut last_err = None;
        for e in &run.log {
            match e {
                Ev::Err(p) => last_err = Some(*p),
                Ev::Chunk(a, b) if b > a => last_err = None,
                Ev::Seek(..) => last_err = None,
                Ev::Eof(_) => {
                    if let Some(p) = last_err
                        && plan.src.declared.is_none_or(|l| p < l)
                    {
                        return true;
                    }
                }
                _ => {}
            }
        }
    }
    false
}

fn storage_rules(plan: &Plan, run: &Run, res: &mut Res) {
    let fixed = run.inner_fixed.st.lock();
    let var = run.inner_var.st.lock();
    let len = plan.src.declared;
    let expect = |res: &mut Res, props: &[&'static str], name: &str, st: &crate::storage::StoreSt, want: Vec<Option<u64>>| {
        if st.created_with != want {
            res.viol("storage_choice", props, format!("{name} storage created with {:?}, expected {want:?}", st.created_with));
        }
    };
    match plan.store {
        Store::Mem | Store::Temp => {}
        Store::BMem(n) | Store::BTemp(n) => {
            let size = len.map_or(n as u64, |l| l.min(n as u64));
            expect(res, &["C07"], "bounded", &fixed, vec![Some(size)]);
            if fixed.max_end > size {
                res.viol("capacity", &["C07"], format!("{} bytes of the underlying storage used, capacity is {size}", fixed.max_end));
            }
            res.max("max_bounded_fill", fixed.max_end);
            res.add("bounded_wraps", u64::from(fixed.bytes_written > size));
        }
        Store::AMem(n) | Store::ATemp(n) => match len {
            None => {
                expect(res, &["C09", "C07"], "fixed", &fixed, vec![Some(n as u64)]);
                expect(res, &["C09"], "variable", &var, vec![]);
                if fixed.max_end > n as u64 {
                    res.viol("capacity", &["C07", "C09"], format!("{} bytes of the underlying storage used, capacity is {n}", fixed.max_end));
                }
                res.add("adaptive_bounded", 1);
            }
            Some(l) if l <= n as u64 => {
                expect(res, &["C09"], "fixed", &fixed, vec![Some(l)]);
                expect(res, &["C09"], "variable", &var, vec![]);
                res.add("adaptive_fixed", 1);
            }
            Some(l) => {
                expect(res, &["C09"], "fixed", &fixed, vec![]);
                expect(res, &["C09"], "variable", &var, vec![Some(l)]);
                res.add("adaptive_variable", 1);
            }
        },
    }
}

fn progress_rules(c: &Ctx<'_>, stored: u64, res: &mut Res) {
    let run = c.run;
    let plan = c.plan;
    let mut sum = 0u64;
    let mut elapsed = std::time::Duration::ZERO;
    let mut complete = 0;
    let mut bad = |m: String| res.viols.push(crate::report::Viol { props: vec!["C13"], class: "progress", msg: m });
    let mut left_prefetch = false;
    for (i, p) in run.progress.iter().enumerate() {
        let st = &p.st;
        let what = format!("progress callback {i} ({})", phase_name(&st.phase));
        if complete > 0 {
            bad(format!("{what}: after the final one"));
        }
        if st.elapsed < elapsed {
            bad(format!("{what}: elapsed time went back"));
        }
        elapsed = st.elapsed;
        // measured by any clock
        if !plan.virt && (elapsed + std::time::Duration::from_millis(1) < p.at_least || elapsed > p.at_most + std::time::Duration::from_millis(1)) {
            bad(format!("{what}: {elapsed:?} since the start, which is between {:?} and {:?} ago", p.at_least, p.at_most));
        }
        if st.current_position != p.wpos {
            bad(format!("{what}: position {}, but the download is at {}", st.current_position, p.wpos));
        }
        let chunk = &st.current_chunk;
        if chunk.start > chunk.end {
            bad(format!("{what}: inverted chunk {chunk:?}"));
        }
        if !p.covered {
            bad(format!("{what}: chunk {chunk:?} has not been downloaded completely"));
        }
        match st.phase {
            StreamPhase::Prefetching { target, chunk_size, .. } => {
                if target != plan.prefetch {
                    bad(format!("{what}: target {target}, configured {}", plan.prefetch));
                }
                sum += chunk_size as u64;
                if chunk.end != st.current_position {
                    bad(format!("{what}: chunk {chunk:?} does not end at the position {}", st.current_position));
                }
                if plan.prefetch == 0 && !c.has_seeks {
                    bad(format!("{what}: nothing to prefetch"));
                }
                if left_prefetch && !c.has_seeks {
                    bad(format!("{what}: prefetching again without a seek"));
                }
                if p.bytes_written != sum {
                    bad(format!("{what}: sizes add up to {sum}, {} bytes were stored", p.bytes_written));
                }
            }
            StreamPhase::Downloading { chunk_size, .. } => {
                left_prefetch = true;
                sum += chunk_size as u64;
                // a request for another position does not interrupt the write of a chunk
                let last = st.current_position.wrapping_sub(1);
                if !(chunk.start <= last && last < chunk.end) {
                    bad(format!("{what}: chunk {chunk:?} does not contain the last byte before the position {}", st.current_position));
                }
                if p.bytes_written != sum {
                    bad(format!("{what}: sizes add up to {sum}, {} bytes were stored", p.bytes_written));
                }
            }
            StreamPhase::Complete => {
                complete += 1;
                if st.current_position > 0 && !chunk.contains(&(st.current_position - 1)) {
                    // a seek to the very end may leave the position behind an undownloaded section
                    if !c.has_seeks {
                        bad(format!("{what}: chunk {chunk:?} does not contain the last byte before {}", st.current_position));
                    }
                }
                if p.bytes_written != sum {
                    bad(format!("{what}: sizes add up to {sum}, {} bytes were stored", p.bytes_written));
                }
                if c.healthy && !c.has_seeks && chunk.end.max(st.current_position) != plan.src.total {
                    bad(format!("{what}: final position {}, content has {} bytes", st.current_position, plan.src.total));
                }
            }
            _ => bad(format!("{what}: unknown phase")),
        }
    }
    let ended = run.stuck_in.is_none() && run.livelock.is_none();
    if ended {
        let completed = run.log.iter().any(|e| matches!(e, Ev::Finish { ok: true, .. }));
        if completed && complete != 1 {
            bad(format!("download completed, but {complete} final callbacks"));
        }
        let cancelled = run.log.iter().any(|e| {
            matches!(e, Ev::Finish { outcome, .. } if *outcome == StreamOutcome::CancelledByUser)
        });
        if complete > 0 && c.failed && !cancelled && plan.src.finish == FinishPolicy::Pass {
            bad("final callback although the download failed".into());
        }
        if completed && c.healthy && !run.progress.is_empty() && sum != stored {
            bad(format!("sizes add up to {sum}, {} bytes were stored", stored));
        }
    }
}
