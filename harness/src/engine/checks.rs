//! The registry of checks.

use std::path::Path;

use crate::report::Res;
use crate::runner::{Check, Sanitized};
use crate::{adapter, extreme, fleet, http, judge, pipe, plans, process, registry, unit};

pub fn pipe_scenario(prop: &str, seed: u64, dir: &Path) -> Res {
    let plan = plans::plan(prop, seed, dir);
    let run = pipe::execute(&plan);
    let mut res = judge::judge(&plan, &run);
    res.nontrivial = run.results.len() + run.log.len() > 4;
    res
}

/// Every engine, for panics only.
pub fn everything(prop: &str, seed: u64, dir: &Path) -> Res {
    match seed % 16 {
        0..=4 => pipe_scenario(prop, seed, dir),
        5 => unit::scenario(prop, seed, dir),
        6 => http::scenario(prop, seed, dir),
        _ => extreme::scenario(prop, seed, dir),
    }
}

/// What runs in the ThreadSanitizer build: the engines in which reader and download share state.
pub fn synchronised(prop: &str, seed: u64, dir: &Path) -> Res {
    match seed % 8 {
        0 => unit::scenario(prop, seed, dir),
        1 => fleet::independence(prop, seed, dir),
        _ => pipe_scenario(prop, seed, dir),
    }
}

const EXTREME_RULE: &str = "a case is a hostile source, storage and configuration with a random reader program of extreme \
    positions and sizes, a server which answers with junk, or a case of the pipeline, storage or HTTP engines, with overflow \
    checks on; two cases are distinct if what was generated (or the order of events) differs";

const EXTREME_ASSUME: &[&str] = &["sources and storages follow the types and contracts of the standard library's traits"];

const PIPE_RULE: &str = "a case is a random plan (content length, declared length, chunking, storage, sizes, \
    reader program, faults, runtime flavour, delays) executed against the real library; it is non-trivial if the \
    reader and the source interacted; two cases are distinct if the recorded order of source, reader and control \
    events differs";

const PIPE_ASSUME: &[&str] = &[
    "the scripted source follows the contract of the source trait except for the faults listed in the case",
    "a hang is only reported once every thread of the process has stopped being scheduled",
];

const UNIT_RULE: &str = "a case is a random program of reads, writes, repositionings and seeks on the two halves of a \
    storage (six kinds), compared with a reference model step by step, or two threads using them at once; it is \
    non-trivial if bytes were stored; two cases are distinct if the sequence of outcomes differs";

const UNIT_ASSUME: &[&str] = &["the storage below fails and splits operations only where the case says so"];

const HTTP_RULE: &str = "a case is a scripted HTTP server (range handling, headers, faults by request and byte), one of four \
    client set-ups and a reader program, run over loopback TCP; it is non-trivial if the server got a request; two \
    cases are distinct if requests, answers or results of the reader differ";

const HTTP_ASSUME: &[&str] = &["a server that labels its bytes with the wrong range is not distinguishable from a correct one"];

const PROCESS_RULE: &str = "a case is a pipeline of one to four real commands (output sizes, write patterns, exit codes, \
    stalls, diagnostics, missing programs), a reader program and a way to end the stream, or a generated command line; \
    two cases are distinct if the results of the reader differ";

const PROCESS_ASSUME: &[&str] = &["sh, cat, head, tail, dd and sleep of the sandbox behave as usual"];

const ADAPTER_RULE: &str = "a case is a scripted asynchronous reader or object store service (splitting, pending, errors, \
    stalls, early ends), used through the adapter directly or through a whole stream with a reader program; two cases are \
    distinct if the results of the reader or the chunks of the adapter differ";

const ADAPTER_ASSUME: &[&str] = &["the object store library transports what a service returns"];

const REGISTRY_RULE: &str = "a case is a random registry (entries with priorities and rules) and forty inputs, raw and \
    parsed, looked up in it; it is non-trivial if there are entries; two cases are distinct if the sequence of chosen \
    entries differs";

const REGISTRY_ASSUME: &[&str] = &["what counts as a URL is up to the url crate"];

const TEMP_RULE: &str = "a case is one to five streams over temporary file storage (placement, wrapping, fate of each stream), \
    with directories and file descriptors watched; two cases are distinct if configuration or results differ";

const TEMP_ASSUME: &[&str] = &["nothing else writes to the scratch directories"];

const FLEET_RULE: &str = "a case is two to nine, sometimes up to 150, streams on one runtime, sharing a storage provider, some of them healthy and \
    the others stalled, idle, failing, panicking, cancelled, abandoned or endless; it is non-trivial if there are several \
    streams; two cases are distinct if configuration or results differ";

const FLEET_ASSUME: &[&str] = &["a hang is only reported once every thread of the process has stopped being scheduled"];

const BIRTH_RULE: &str = "a case is the creation of one stream with scripted source and storage (delays, failures, lengths, \
    abandoned creation); two cases are distinct if their configuration differs";

macro_rules! pipe_check {
    ($p:literal, $q:literal, $t:literal, [$($n:literal),*]) => {
        Check {
            prop: $p,
            run: pipe_scenario,
            quick: $q,
            thorough: $t,
            quick_secs: 45,
            thorough_secs: 900,
            workers: 24,
            rule: PIPE_RULE,
            assumptions: PIPE_ASSUME,
            needs: &[$($n),*],
            deterministic: false,
            sanitized: None,
        }
    };
}

pub fn all() -> Vec<Check> {
    vec![
        pipe_check!("C01", 12000, 600_000, ["reader_operations", "bytes_written", "seek_requests"]),
        pipe_check!("C02", 12000, 600_000, ["reader_operations", "bytes_written"]),
        pipe_check!("C03", 12000, 600_000, ["reader_operations", "seek_requests"]),
        pipe_check!("C04", 12000, 600_000, ["satisfiable_waits", "permits_released"]),
        pipe_check!("C05", 12000, 600_000, ["operations_after_failure", "injected_storage_faults"]),
        pipe_check!("C06", 12000, 600_000, ["cancellations_observed", "outcome_cancelled"]),
        pipe_check!("C07", 12000, 600_000, ["bounded_wraps"]),
        Check {
            prop: "C08",
            run: unit::scenario,
            quick: 300_000,
            thorough: 20_000_000,
            quick_secs: 30,
            thorough_secs: 900,
            workers: 8,
            rule: UNIT_RULE,
            assumptions: UNIT_ASSUME,
            needs: &["unit_operations", "unit_wrapped", "unit_bytes_compared", "unit_concurrent_reads"],
            deterministic: false,
            sanitized: None,
        },
        pipe_check!("C09", 12000, 600_000, ["adaptive_bounded", "adaptive_fixed", "adaptive_variable"]),
        pipe_check!("C10", 12000, 600_000, ["seek_requests"]),
        pipe_check!("C11", 6000, 200_000, ["reconnects"]),
        Check {
            prop: "C12",
            run: http::scenario,
            quick: 12_000,
            thorough: 500_000,
            quick_secs: 40,
            thorough_secs: 900,
            workers: 16,
            rule: HTTP_RULE,
            assumptions: HTTP_ASSUME,
            needs: &["http_range_requests", "http_stalls", "http_cuts", "http_error_responses", "http_dishonoured_ranges", "http_sound_cases", "http_creation_errors"],
            deterministic: false,
            sanitized: None,
        },
        pipe_check!("C13", 12000, 600_000, ["progress_callbacks"]),
        Check {
            prop: "C14",
            run: process::scenario,
            quick: 3_000,
            thorough: 200_000,
            quick_secs: 40,
            thorough_secs: 900,
            workers: 12,
            rule: PROCESS_RULE,
            assumptions: PROCESS_ASSUME,
            needs: &["process_completed", "process_cancelled", "process_spawn_failures", "process_command_lines", "process_unused", "process_runtime_shutdowns"],
            deterministic: false,
            sanitized: None,
        },
        Check {
            prop: "C15",
            run: adapter::scenario,
            quick: 9_000,
            thorough: 1_000_000,
            quick_secs: 40,
            thorough_secs: 900,
            workers: 16,
            rule: ADAPTER_RULE,
            assumptions: ADAPTER_ASSUME,
            needs: &["async_reader_streams", "async_reader_errors", "async_reader_direct", "object_streams", "object_direct", "object_stalls", "object_range_opens", "object_creation_errors"],
            deterministic: false,
            sanitized: None,
        },
        Check {
            prop: "C16",
            run: registry::scenario,
            quick: 300_000,
            thorough: 4_000_000,
            quick_secs: 30,
            thorough_secs: 900,
            workers: 8,
            rule: REGISTRY_RULE,
            assumptions: REGISTRY_ASSUME,
            needs: &["registry_hits", "registry_misses", "registry_prefix_hits", "registry_url_hits", "registry_parsed_hits", "registry_contested"],
            deterministic: true,
            sanitized: None,
        },
        Check {
            prop: "C17",
            run: fleet::temp_files,
            quick: 40_000,
            thorough: 2_000_000,
            quick_secs: 35,
            thorough_secs: 900,
            workers: 16,
            rule: TEMP_RULE,
            assumptions: TEMP_ASSUME,
            needs: &["temp_files", "temp_creation_errors", "temp_shutdowns", "temp_panics", "temp_cancelled"],
            deterministic: false,
            sanitized: None,
        },
        pipe_check!("C18", 12000, 600_000, ["storage_writes", "batch_pairs"]),
        pipe_check!("C19", 12000, 600_000, ["prefetch_gate_checks", "prefetch_restart_checks"]),
        Check {
            prop: "C20",
            run: fleet::independence,
            quick: 6_000,
            thorough: 300_000,
            quick_secs: 35,
            thorough_secs: 900,
            workers: 16,
            rule: FLEET_RULE,
            assumptions: FLEET_ASSUME,
            needs: &["fleet_healthy", "fleet_stalled", "fleet_idle", "fleet_single_thread"],
            deterministic: false,
            sanitized: None,
        },
        Check {
            prop: "C21",
            run: everything,
            quick: 8_000,
            thorough: 1_000_000,
            quick_secs: 20,
            thorough_secs: 600,
            workers: 16,
            rule: EXTREME_RULE,
            assumptions: EXTREME_ASSUME,
            needs: &["extreme_streams", "extreme_http_streams", "extreme_seeks", "extreme_reconnects", "tsan_executions", "miri_executions"],
            deterministic: false,
            sanitized: Some(Sanitized {
                tsan: Some((synchronised, [2_500, 400_000], [12, 400])),
                miri: Some(([96, 6_000], [15, 400])),
            }),
        },
        Check {
            prop: "C22",
            run: fleet::creation,
            quick: 60_000,
            thorough: 4_000_000,
            quick_secs: 35,
            thorough_secs: 900,
            workers: 16,
            rule: BIRTH_RULE,
            assumptions: FLEET_ASSUME,
            needs: &["creations", "creation_errors", "creations_abandoned"],
            deterministic: false,
            sanitized: None,
        },
    ]
}
