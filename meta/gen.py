#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The single place where properties are described."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = "crates/stream-download/src/"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note="", technique="", built=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=list(state), observe=list(observe), level_note=level_note, technique=technique, built=built))

PIPE = ("random plans run on the real library with a scripted source, monitored storage and delays injected at trace "
        "points; ")
MON = "runtime monitoring: "

prop("C01", "Readers only ever see the source's bytes at their positions",
     "Every byte a read returns is the byte the source serves at that position of the content, whatever order of reads and seeks "
     "the program performs and whichever storage is used. A read never returns more than was asked for, never returns bytes beyond the end of the "
     "content and never bytes that were not downloaded yet.",
     ["programs", "schedules", "configurations", "fault_sequences"],
     "all reader programs, interleavings of reader and download, chunkings, storage kinds and sizes, stalls, source errors and cancellations",
     "The tests read a handful of fixed files with fixed patterns; a race between reader and download, a chunk boundary next to a batch boundary or a wrap of a circular buffer is hit by chance at most.",
     [SD+"lib.rs", SD+"source/mod.rs", SD+"storage/bounded.rs"],
     [("reads are limited to downloaded ranges", SD+"lib.rs read, handle_available_read"), ("download loop writes at the writer's position", SD+"source/mod.rs write, write_batched"), ("repositioning after seeks and gaps", SD+"source/mod.rs handle_seek, finish_or_find_next_gap")],
     state=[("Downloaded.ranges", "what has been downloaded", SD+"source/handle.rs")],
     observe=["Read::read on the reader", "StorageWriter::write"],
     technique=MON+"every returned byte compared with the source's position-coded content",
     level_note=PIPE+"content is position coded so that a misplaced byte is seen at once. Exploration, no exhaustiveness; assumes the source follows its contract apart from listed faults.")

prop("C02", "Everything is delivered: no premature or missing end of stream",
     "If the source can deliver the content, a reader that reads to the end receives all of it, and reads report the end of the stream only at the end of the content. "
     "Once a download has completed (with a storage that keeps everything), every position can be read back in full, including parts skipped by earlier seeks.",
     ["programs", "schedules", "configurations", "inputs"],
     "all reader programs and interleavings, with known, unknown and wrongly declared content lengths, all chunkings, batch and prefetch sizes and storage kinds",
     "The tests use one or two file sizes and a few seek patterns; lost wakeups, gaps that are never filled and early ends depend on schedules and positions that are not tried.",
     [SD+"lib.rs", SD+"source/mod.rs", SD+"source/handle.rs"],
     [("gaps are found and downloaded before completing", SD+"source/mod.rs finish_or_find_next_gap"), ("end of stream wakes readers", SD+"source/handle.rs PositionReached"), ("short reads at the end", SD+"lib.rs read")],
     observe=["Read::read", "StorageReader after completion"],
     technique=MON+"end of stream positions and read-back of the whole content after completion",
     level_note=PIPE+"a complete read-back follows every completed download. Sources which end early without a known length can not be told from complete ones and are not judged.")

prop("C03", "Seeking follows the contract of std::io::Seek",
     "Seeking from the start, the current position or (with a known length) the end returns the resulting absolute position, limited to the content length, and the next read starts exactly there; if the source supports ranges, what lies in between need not be delivered first. "
     "Seeks before the start, overflowing offsets, seeks from the end without a known length and seeks further ahead than a bounded storage can hold are rejected with an error and change nothing.",
     ["inputs", "programs", "configurations", "schedules"],
     "all seek kinds and offsets including extreme ones, from every position, in every phase of the download, for all storages and for seekable and non-seekable sources",
     "The tests use a few fixed offsets of small size on idle streams; arithmetic corner cases and seeks that race with the download are not covered.",
     [SD+"lib.rs", SD+"source/mod.rs", SD+"storage/bounded.rs"],
     [("absolute position", SD+"lib.rs get_absolute_seek_position, add_seek_offset"), ("bounded seeks", SD+"lib.rs check_for_excessive_seek"), ("seek requests", SD+"source/mod.rs handle_seek")],
     observe=["Seek::seek, Seek::stream_position, Read::read"],
     technique=MON+"seek results compared with a reference computation, following reads compared with the content",
     level_note=PIPE+"seeks to and beyond the end of content of unknown length are only required not to corrupt data.")

prop("C04", "Blocked readers always wake up",
     "A read or seek that waits for data returns as soon as everything it needs has been delivered by the source, or the download has ended for whatever reason; it never sleeps forever and does not wait for data beyond what it needs. "
     "The download in turn never stops making progress while a reader waits for it and the source has data.",
     ["schedules", "programs", "configurations", "fault_sequences"],
     "all interleavings of reader and download (runtimes with one or more threads), read sizes relative to chunk, batch, prefetch and storage sizes, with stalls, errors and cancellation",
     "Lost wakeups need one particular interleaving of two threads; the tests run each scenario once, against a source which always delivers more data that papers over a missed wakeup.",
     [SD+"source/handle.rs", SD+"source/mod.rs", SD+"lib.rs"],
     [("waiting and notification", SD+"source/handle.rs wait_until, PositionReached, NotifyRead"), ("requested position", SD+"source/handle.rs RequestedPosition; source/mod.rs check_requested_position")],
     observe=["return of Read::read and Seek::seek", "polls of the source"],
     technique=MON+"gated source hands out the minimum; hang verdicts only from quiescence of the whole process",
     level_note=PIPE+"a gated source delivers chunk by chunk and stops once the monitor knows the pending operation to be satisfiable; a hang is reported when no thread of the process is scheduled any more, or when it burns processor time without getting anywhere. Retry timeouts can not hide hangs, they are disabled for that.")

prop("C05", "Failures surface as errors and are never disguised",
     "If the download fails (the source reports an error and cannot be recovered, storage fails, content ends early, or the download task is torn down), waiting and later operations of the reader fail with an error or return correct data which had been downloaded; they never hang, report a false end of stream, or return wrong data. "
     "A download that failed is never reported as completed by the progress callback or the source's completion hook.",
     ["fault_sequences", "crash_points", "schedules", "programs"],
     "source errors, seek and reconnect errors, truncated content, storage read, write, flush and seek errors and panics at any point of any program",
     "The tests inject a few errors at fixed points; the point of failure relative to what the reader waits for is what matters.",
     [SD+"source/mod.rs", SD+"lib.rs", SD+"source/handle.rs"],
     [("failure state", SD+"source/handle.rs DownloadStatus"), ("drop guard", SD+"source/mod.rs impl Drop for Source"), ("failure checks", SD+"lib.rs check_for_failure")],
     observe=["Read/Seek results", "on_finish", "on_progress"],
     technique=MON+"fault injection into source and storage; outcome of every later operation judged",
     level_note=PIPE+"faults are injected at random operations of source and storage; injected errors are counted and matched against the errors that surface.")

prop("C06", "Cancelling stops everything promptly, exactly once, with the right outcome",
     "After cancelling (by token, by the reader or by dropping it) the download ends whatever it was waiting for and however much of a chunk is left to write, the source is dropped, and its completion hook has run exactly once with the outcome that applies (completed, or cancelled by the user). "
     "Waiting for completion returns after that hook and not before; blocked readers return. With cancellation on drop disabled, dropping the reader lets the download complete.",
     ["schedules", "crash_points", "programs", "configurations"],
     "cancellation at any time: during creation, prefetch, stalls, seeks, back pressure, callbacks and after the end; any reader state and runtime flavour",
     "Cancellation races with every await of the download; tests cancel at one or two points.",
     [SD+"lib.rs", SD+"source/mod.rs"],
     [("cancellation token", SD+"lib.rs cancel_download, Drop; source/mod.rs download"), ("completion", SD+"lib.rs StreamHandle::wait_for_completion"), ("finish hook", SD+"source/mod.rs download")],
     observe=["SourceStream::on_finish", "drop of the source", "wait_for_completion"],
     technique=MON+"exactly-once and ordering monitors over the event log, cancellation injected everywhere",
     level_note=PIPE+"outcome and order of hook, completion and drop are checked on the recorded log.")

prop("C07", "Bounded storage never exceeds its capacity and never overwrites unread data",
     "With a bounded storage no more than its capacity is ever used, the download waits instead of overwriting data that the reader has not read yet, and resumes as soon as space is available (after every read and every seek that leaves data behind), so that sequential reading delivers everything. "
     "Data that has been dropped is never returned as something else: reading it is an error or triggers a new download.",
     ["configurations", "programs", "schedules", "inputs"],
     "all capacities (from one byte) relative to content, chunk, batch, prefetch and read sizes, with forward and backward seeks",
     "Tests use two or three capacities with chunk sizes that mostly divide evenly; wraparound arithmetic and the waiting protocol depend on all of them.",
     [SD+"storage/bounded.rs", SD+"source/mod.rs", SD+"lib.rs"],
     [("circular buffer", SD+"storage/bounded.rs"), ("back pressure", SD+"source/mod.rs write; source/handle.rs NotifyRead")],
     observe=["StorageWriter/StorageReader", "writes below the circular buffer"],
     technique=MON+"storage wrapped by monitors above and below the ring; writer/reader distance tracked",
     level_note=PIPE+"as documented, a backward seek to overwritten data is an error once read; that is the behaviour required here.")

prop("C08", "All storages obey one contract",
     "For every storage, what the writer stores at a position is what a reader reads at that position, until it is overwritten: reads return the stored bytes up to what has been stored, repositioning either half has the effect of the same operation on a plain file, and neither half moves the other. "
     "Writes report how much was accepted; a circular storage accepts exactly as much as fits without touching unread data, rejects reads larger than its capacity and of lost data, and failures below are reported.",
     ["programs", "configurations", "fault_sequences", "schedules"],
     "all sequences of reads, writes and seeks (valid and invalid) on both halves, for memory, temporary file, bounded and adaptive storage of any size, short operations and errors of the underlying storage, and both halves used concurrently",
     "The storage tests are example based; the wraparound cases combine reader position, writer position, capacity and partial writes.",
     [SD+"storage/mod.rs", SD+"storage/memory.rs", SD+"storage/temp.rs", SD+"storage/bounded.rs", SD+"storage/adaptive.rs"],
     [("memory", SD+"storage/memory.rs"), ("temporary file", SD+"storage/temp.rs"), ("ring", SD+"storage/bounded.rs")],
     observe=["StorageReader", "StorageWriter"],
     technique=MON+"lock-step comparison with a reference model on random operation sequences; two-thread runs",
     level_note="hundreds of thousands of random programs per run against an independent reference model, plus concurrent runs; exploration. Which part of a failed write was stored is unspecified and not judged.")

prop("C09", "Adaptive storage picks its mode by content length",
     "With an adaptive storage, content of known length is stored completely (nothing is dropped, and everything can be read again), and content of unknown length uses at most the given amount of storage. "
     "In both cases, reads and seeks behave as with the respective storage used directly.",
     ["configurations", "programs", "inputs"],
     "all content lengths (known and unknown), sizes of the bounded part, storages for either part, and reader programs",
     "Tests check one size for either mode.",
     [SD+"storage/adaptive.rs", SD+"lib.rs"],
     [("choice", SD+"storage/adaptive.rs into_reader_writer"), ("capacity", SD+"storage/adaptive.rs max_capacity")],
     observe=["which underlying storage is created and written"],
     technique=MON+"monitors on each underlying storage and the pipeline judge",
     level_note=PIPE+"the monitors see which storage was created with which size.")

prop("C10", "Requests to the source are well-formed and necessary",
     "Every range requested from the source lies inside the content and is neither inverted nor empty (except at the very end of the content), and no range is requested from a source that does not support it. "
     "Data that has been downloaded and kept is not downloaded again: seeking to it issues no request, and filling what earlier seeks have skipped requests only what is missing. "
     "The number of requests is bounded by the number of seeks and faults, and after the download is complete the source is not used any more.",
     ["programs", "schedules", "configurations"],
     "all reader programs, interleavings, chunkings, storages, with and without known length and seek support",
     "Tests count no requests; a redundant or inverted request yields the right bytes in a forgiving test server.",
     [SD+"source/mod.rs", SD+"source/handle.rs"],
     [("seek decisions", SD+"source/mod.rs should_seek, handle_seek"), ("gap search", SD+"source/handle.rs next_gap; source/mod.rs finish_or_find_next_gap")],
     observe=["SourceStream::seek_range, poll_next"],
     technique=MON+"every request to the scripted source checked against what was delivered before",
     level_note=PIPE+"requests are checked online by the source itself.")

prop("C11", "Stalls are recovered by reconnecting at the right position",
     "If the source does not deliver anything for the retry timeout, it is asked to reconnect at exactly the position the download has reached, and the content continues from there without loss or repetition; the callback for reconnections runs once for every successful reconnection and only then. "
     "A reconnection that fails or does not come to an end within the timeout is given up and tried again. No reconnection happens while the source delivers in time or while the download itself waits for the reader. Without a setting the timeout is five seconds.",
     ["fault_sequences", "schedules", "programs", "configurations"],
     "stalls of any number at any position in any phase, failing and stalling reconnections, combined with seeks, prefetch, back pressure and cancellation",
     "The tests stall at one position; the position bookkeeping of prefetch, gaps and seeks is not reached.",
     [SD+"source/mod.rs", SD+"settings.rs"],
     [("timeout and reconnect", SD+"source/mod.rs download_inner, handle_reconnect")],
     observe=["SourceStream::reconnect", "on_reconnect"],
     technique=MON+"stalling source checks position and timing of every reconnect call",
     level_note=PIPE+"half of the cases run on a runtime with a paused clock: time passes only while everything waits for it, timeouts of 10 ms to 2 h (and the default) are judged to the millisecond (not early by more than 2 ms, not late by more than half of it) on a machine of any load; silences of 0.1 to 0.9 timeouts in any number must not lead to a reconnection.")

prop("C12", "HTTP: content stays correct whatever the server does",
     "Over HTTP, requests for a part of the content carry exactly the range that is needed, and what is read is the content of the resource or an error: never the body of an error page, never bytes of another range, whether or not the server honours ranges, closes connections early or answers reconnections with errors (for resources of unknown length, as far as the answer says what it contains). "
     "Content length, content type and the headers given by the user are exposed and sent as received and configured.",
     ["fault_sequences", "inputs", "programs", "configurations"],
     "servers which ignore, honour or reject ranges, omit or misstate headers, fail or cut connections at any byte on any request, combined with reader programs",
     "The tests use one well-behaved file server.",
     [SD+"http/mod.rs", SD+"http/reqwest_client.rs", SD+"http/reqwest_middleware_client.rs"],
     [("range requests", SD+"http/mod.rs seek_range, reconnect"), ("status handling", SD+"http/mod.rs new")],
     observe=["requests received by an in-process server", "Read::read"],
     technique=MON+"hostile in-process HTTP server; requests and bytes checked against a reference resource",
     level_note="Real clients (four set-ups) over loopback TCP against a scripted server; what has to succeed and what may fail is worked out from the script. Exploration.")

prop("C13", "Progress reports are consistent with what has happened",
     "Progress callbacks report positions and ranges that have actually been written, phases in the order prefetching, downloading, complete with nothing after completion, chunk sizes which add up to what has been stored, and the time since the download has started. "
     "Completion is reported exactly once, if and only if the download has completed successfully.",
     ["schedules", "programs", "configurations", "fault_sequences"],
     "all programs, chunkings, batch and prefetch sizes, storages, seeks, stalls, faults and cancellations",
     "Tests look at the sequence for one download without seeks.",
     [SD+"source/mod.rs", SD+"settings.rs"],
     [("reports", SD+"source/mod.rs report_progress, report_prefetch_progress, report_downloading_progress, report_download_complete")],
     observe=["on_progress callback"],
     technique=MON+"trace monitor over callbacks, compared with the storage monitor's state",
     level_note=PIPE+"each callback is compared with the state of the storage monitor at that moment.")

prop("C14", "Process output arrives in full and no process outlives a cancelled stream",
     "What the last command of a pipeline writes is what the reader gets, byte for byte, whatever exit codes the commands have and however much they write to standard error. "
     "If a command can not be spawned, the others are terminated. When a stream is cancelled, dropped or loses its runtime before its end, or is never used, every command of the pipeline is killed and reaped, by the time completion is signalled; after a regular end commands are reaped once they exit. "
     "If the last command fails, what the commands wrote to standard error is passed on to the log. Temporary files for their diagnostics are removed. The helpers for ffmpeg and yt-dlp pass on exactly the options they were given.",
     ["schedules", "fault_sequences", "crash_points", "configurations"],
     "pipelines of any length, output sizes and write patterns, exit codes, commands failing at any position, and cancellation at any time",
     "Tests run a few fixed ffmpeg-like commands to their end.",
     [SD+"process/mod.rs", SD+"process/command_builder.rs", SD+"process/ffmpeg.rs", SD+"process/yt_dlp.rs"],
     [("spawn and cleanup", SD+"process/mod.rs")],
     observe=["Read::read", "process table", "temporary directory"],
     technique=MON+"real child processes; output compared, process table and scratch directory watched",
     level_note="Real child processes (shell commands in a scratch directory); process table and TMPDIR are read from outside. A command that fails is only logged by the library and not an error for the reader, and commands in front of one that has ended are left alone: neither is judged.")

prop("C15", "Adapters for async readers and object stores transport content faithfully",
     "Content read through the adapters for asynchronous readers and for object stores is exactly that of the underlying reader or object, however it splits its reads, and errors of it surface as errors. "
     "Object store adapters read exactly the requested ranges in pieces of the configured chunk size, report the object's length and resume at the requested position.",
     ["inputs", "programs", "fault_sequences", "schedules"],
     "all splittings, pending results and errors of the underlying reader, content lengths, reader programs and chunk sizes",
     "Tests read one file.",
     [SD+"async_read.rs", "crates/stream-download-opendal/src/lib.rs"],
     [("async reader", SD+"async_read.rs"), ("object store", "crates/stream-download-opendal/src/lib.rs")],
     observe=["Read::read", "operations on an instrumented object store"],
     technique=MON+"instrumented async reader and object store, bytes and requests compared",
     level_note="Scripted asynchronous readers and a scripted object store service below the real object store library, used directly and through whole streams. Exploration.")

prop("C16", "The registry routes every input to the right entry",
     "A registry hands an input to the first registered entry (in order of priority, then of registration) which matches it, and to no other; inputs that match nothing yield no result. "
     "Matchers accept exactly the inputs described by their rules, for URLs as well as for raw strings.",
     ["inputs", "configurations"],
     "all sets of entries and inputs",
     "Tests use a few entries and inputs.",
     [SD+"registry/mod.rs", SD+"registry/matcher.rs"],
     [("routing", SD+"registry/mod.rs"), ("rules", SD+"registry/matcher.rs")],
     observe=["which entry handles an input"],
     technique=MON+"differential execution against a reference router on generated rules and inputs",
     level_note="Random rules and inputs (raw and parsed) against an independent reference router. Exploration.")

prop("C17", "Temporary files are placed as configured and always removed",
     "Temporary file storage creates its file in the configured directory, with the configured name, and never shares it between streams; it is gone once the stream and its reader are gone, whether the download completed, failed, panicked or was cancelled. "
     "If the file cannot be created, creating the stream fails with an error instead.",
     ["crash_points", "fault_sequences", "configurations", "histories"],
     "all ways a stream can end, at any time; all ways to configure the location; any number of streams from one provider",
     "Tests check that a file is created, for one location.",
     [SD+"storage/temp.rs"],
     [("creation", SD+"storage/temp.rs")],
     observe=["scratch directory listings during and after streams"],
     technique=MON+"directory monitors around whole streams with injected failures",
     level_note="Directories and file descriptors are observed from outside, in one to five streams per case. Exploration.")

prop("C18", "Storage writes are limited to the batch size and yield in between",
     "No single write to the storage is larger than the configured batch size, whatever the source's chunk sizes, and between batches of one chunk other tasks on the same runtime get to run. "
     "Batching changes neither content nor order of what is stored.",
     ["inputs", "configurations", "schedules"],
     "all batch sizes and chunk sizes, in prefetch and normal download, after seeks and with short writes of the storage",
     "Tests cover one batch size and don't look at writes.",
     [SD+"source/mod.rs", SD+"settings.rs"],
     [("batches", SD+"source/mod.rs write_batched, handle_bytes")],
     observe=["StorageWriter::write", "a heartbeat task on the same runtime"],
     technique=MON+"storage monitor records every write; heartbeat task counts turns",
     level_note=PIPE+"write sizes are observed at the storage.")

prop("C19", "Reading starts only after the prefetch",
     "No read or seek that has to wait returns data before the configured amount has been prefetched (or the content has ended), and once it has, reading is not delayed further. "
     "After a seek to a place that has to be requested anew, the prefetch applies again from there.",
     ["schedules", "programs", "configurations", "inputs"],
     "all prefetch sizes relative to content, chunk, batch and storage sizes; all programs and interleavings",
     "Tests check one or two prefetch sizes at the start of the stream.",
     [SD+"source/mod.rs", SD+"lib.rs"],
     [("prefetch", SD+"source/mod.rs handle_prefetch, start_prefetch")],
     observe=["return of reads against bytes delivered by the source"],
     technique=MON+"reads returning early are seen by comparing with the bytes the source has handed out",
     level_note=PIPE+"what the source has handed out when a read returns is recorded atomically. A seek during the prefetch ends it early, which is what the code documents.")

prop("C20", "Streams are independent of each other",
     "Streams that share a runtime, a storage provider and a client do not influence each other: cancelling, failing, stalling or abandoning some of them changes neither the content nor the completion of the others. "
     "A reader that does not read for a long time blocks no thread of the runtime.",
     ["schedules", "histories", "configurations"],
     "any number of concurrent streams with different sources, storages and fates",
     "Tests run one stream at a time.",
     [SD+"lib.rs", SD+"source/mod.rs"],
     [("one task per stream", SD+"lib.rs from_create_stream"), ("asynchronous waiting", SD+"source/handle.rs NotifyRead")],
     observe=["content and completion of each stream"],
     technique=MON+"many streams at once on one runtime, with the single stream monitors on each",
     level_note="Two to nine (in one of forty cases up to 150) concurrent streams per case, one of twelve cases over HTTP with the shared clients; hang verdicts from quiescence of the process. Exploration.")

prop("C21", "No panics, undefined behaviour or data races",
     "Whatever a program does through the public interface, and whatever a source or storage reports, the library does not panic, does not exhibit undefined behaviour and has no data races; arithmetic on positions does not overflow. "
     "The operations of reader and download on shared state are properly synchronised, so that what was written before a notification is seen after it.",
     ["programs", "schedules", "inputs", "fault_sequences"],
     "all programs and interleavings including those with faults and extreme values",
     "Tests run without sanitizers, with one schedule each.",
     [SD+"lib.rs", SD+"source/mod.rs", SD+"source/handle.rs", SD+"storage/bounded.rs"],
     [("shared state", SD+"source/handle.rs")],
     observe=["panic hook", "sanitizer reports"],
     technique="sanitizers: ThreadSanitizer on random pipelines, Miri on small ones (undefined behaviour, races, weak memory); panic and overflow monitor on all engines",
     level_note="Three stages: hostile inputs with overflow checks and a panic monitor, the same pipelines in a ThreadSanitizer build, small pipelines in Miri under random schedules. Exploration; reports which do not come from the library's frames are not counted.")

prop("C22", "Creating a stream yields a usable stream or the right error",
     "A created stream exposes the content length the source reported, and its storage is created exactly once with that length. "
     "If creating the source or the storage fails (or the length can not be stored at all), the error says which, carries the cause, nothing is left running and nothing has been read from the source. "
     "Creation does not wait for content, and abandoning it leaves nothing behind.",
     ["fault_sequences", "configurations", "inputs"],
     "all failures of source and storage creation, all content lengths and storages",
     "Tests cover one failure of each kind at most.",
     [SD+"lib.rs", SD+"source/mod.rs"],
     [("creation", SD+"lib.rs from_create_stream, StreamInitializationError")],
     observe=["result of creation", "calls to source and storage"],
     technique=MON+"instrumented sources and storages with injected creation failures",
     level_note="Exploration over random combinations of lengths, delays, failures and abandoned creations.")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")

man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]} for p in P if p["built"]],
       "not_applicable": [{"property": p["id"], "reason": "the technique applies, its check is not built yet"} for p in P if not p["built"]],
       "notes": "No hooks in /repo: observation goes through the public traits, the progress and reconnect callbacks and the library's own tracing events."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
