import os
"""What each check runs.  quick / thorough: (worker processes, cases per worker, time budget per worker in s)"""
ASAN = ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
TSAN = "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1:detect_deadlocks=0:suppressions=" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "tsan.supp")
ATOM = ["-DFN_LOG_USING_ATOM_CFG"]

BUILDS = {
    "ring": dict(src="h_ring.cpp", flags=["-O1"]),
    "ring_asan": dict(src="h_ring.cpp", flags=ASAN),
    "fmt": dict(src="h_fmt.cpp", flags=ASAN),
    "fmt_plain": dict(src="h_fmt.cpp", flags=["-O2", "-DFN_LOG_MAX_LOG_SIZE=1000"]),
    "filter": dict(src="h_filter.cpp", flags=ASAN),
    "filter_plain": dict(src="h_filter.cpp", flags=["-O1"]),
    "cfg": dict(src="h_cfg.cpp", flags=ASAN),
    "cfg_plain": dict(src="h_cfg.cpp", flags=["-O1"]),
    "file": dict(src="h_file.cpp", flags=ASAN),
    "file_plain": dict(src="h_file.cpp", flags=["-O1"]),
    "hot": dict(src="h_hot.cpp", flags=ASAN),
    "hot_plain": dict(src="h_hot.cpp", flags=["-O1"]),
    "shm": dict(src="h_shm.cpp", flags=["-O1"]),
    "shm_asan": dict(src="h_shm.cpp", flags=ASAN),
    "dev": dict(src="h_dev.cpp", flags=ASAN),
    "dev_plain": dict(src="h_dev.cpp", flags=["-O1"]),
    "tsan": dict(src="h_tsan.cpp", flags=["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]),
    "tsan_asan": dict(src="h_tsan.cpp", flags=ASAN),
    "tsan_plain": dict(src="h_tsan.cpp", flags=["-O2"]),
    "front": dict(src="h_front.cpp", flags=ASAN),
    "front_plain": dict(src="h_front.cpp", flags=["-O2"]),
    "res": dict(src="h_res.cpp", flags=["-O1"]),
    "proc": dict(src="h_proc.cpp", more=["h_proc_b.cpp"], flags=["-O2"]),
    "proc_asan": dict(src="h_proc.cpp", more=["h_proc_b.cpp"], flags=ASAN),
    "proc_tsan": dict(src="h_proc.cpp", more=["h_proc_b.cpp"], flags=["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]),
    # the sizes users have: LOG_SIZE 10000, queue 1000 (ring_dflt) or a shorter one that fills up more often (ring_big)
    "ring_dflt": dict(src="h_ring.cpp", flags=["-O1", "-DFN_LOG_MAX_LOG_SIZE=10000", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=1000"]),
    "ring_big": dict(src="h_ring.cpp", flags=["-O1", "-DFN_LOG_MAX_LOG_SIZE=10000", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=60"]),
    "fmt_dflt": dict(src="h_fmt.cpp", flags=["-O2", "-DFN_LOG_MAX_LOG_SIZE=10000", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=60"]),
    "file_dflt": dict(src="h_file.cpp", flags=["-O1", "-DFN_LOG_MAX_LOG_SIZE=10000", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=1000"]),
    "dev_dflt": dict(src="h_dev.cpp", flags=["-O1", "-DFN_LOG_MAX_LOG_SIZE=10000", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=1000"]),
    "shm_dflt": dict(src="h_shm.cpp", flags=["-O1", "-DFN_LOG_MAX_LOG_SIZE=10000", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=60"]),
    "ring_atom": dict(src="h_ring.cpp", flags=["-O1"] + ATOM),
}


def J(build, mode, quick, thorough, **kw):
    d = dict(build=build, mode=mode, **kw)
    if thorough:
        d["thorough"] = thorough
    if quick:
        d["quick"] = quick
    return d


SCHED_RULE = ("One case is one episode: a generated program (threads, channels, devices, record lengths, stops) run on the real code under a "
              "deterministic cooperative scheduler that may switch threads at every atomic operation, lock, sleep, thread and stdio call, with a virtual clock, "
              "random walks of various stickiness, PCT priorities and injected stalls. distinct_nontrivial counts distinct schedule hashes (sequence of threads chosen); "
              "a case counts only if it ran to completion and its log was judged.")
SCHED_ASSUME = ["sequentially consistent interleavings at instrumented points (weak memory is left to the hardware and to C17's race detector)",
                "records written through stdio; LOG_SIZE 700 and queue length 11 in most of these builds (10000 and 60 or 1000 in ring_big and ring_dflt)"]

CHECKS = {}
CHECKS["C01"] = dict(
    jobs=[J("ring", "async", (3, 4000, 45), (2, 400000, 600)),
          J("ring", "full", (2, 2500, 45), (1, 400000, 600)),
          J("ring", "life", (2, 3000, 45), (2, 400000, 600)),
          J("ring_asan", "async", (1, 700, 40), (1, 100000, 600)),
          J("ring_dflt", "async", (1, 700, 30), (1, 400000, 600)),
          J("ring_dflt", "full", (1, 150, 30), (1, 400000, 600))],
    kinds={"missing", "dup", "unknown", "torn", "after_stop"},
    rule=SCHED_RULE, assumptions=SCHED_ASSUME, floor={"quick": {"must_records": 20000}})
CHECKS["C02"] = dict(
    jobs=[J("ring", "async", (2, 4000, 45), (2, 400000, 600)),
          J("ring", "full", (2, 2500, 45), (2, 400000, 600)),
          J("ring", "sync", (2, 3000, 45), (1, 400000, 600)),
          J("ring", "life", (1, 2500, 45), (1, 400000, 600)),
          J("ring", "virt", (1, 2000, 45), (1, 400000, 600)),
          J("ring_big", "async", (1, 1500, 30), (1, 400000, 600)),
          J("ring_big", "full", (1, 800, 30), None),
          J("ring_big", "sync", (1, 1000, 30), None)],
    kinds={"torn", "unknown"},
    rule=SCHED_RULE, assumptions=SCHED_ASSUME, floor={"quick": {"records_checked": 20000}})
CHECKS["C03"] = dict(
    jobs=[J("ring", "async", (3, 4000, 45), (1, 400000, 600)),
          J("ring", "full", (1, 2500, 45), (1, 400000, 600)),
          J("ring", "sync", (3, 3000, 45), (2, 400000, 600)),
          J("ring_big", "async", (1, 1500, 30), (1, 400000, 600)),
          J("ring_big", "sync", (1, 1000, 30), (1, 400000, 600)),
          J("ring_dflt", "full", (1, 150, 30), None),
          J("ring", "hot", (1, 2500, 45), (2, 400000, 600))],
    kinds={"order"},
    rule=SCHED_RULE, assumptions=SCHED_ASSUME, floor={"quick": {"order_checked": 20000}})
CHECKS["C04"] = dict(
    jobs=[J("ring", "full", (6, 3500, 45), (4, 400000, 600)),
          J("ring", "async", (2, 3000, 45), (2, 400000, 600)),
          J("ring_dflt", "full", (2, 150, 30), (1, 400000, 600)),
          J("ring_big", "full", (1, 800, 30), (1, 400000, 600))],
    kinds={"capacity", "missing", "dup", "torn", "unknown"},
    rule=SCHED_RULE, assumptions=SCHED_ASSUME, floor={"quick": {"must_records": 20000}})
CHECKS["C05"] = dict(
    jobs=[J("ring", "sync", (7, 3500, 45), (6, 400000, 600)),
          J("ring_big", "sync", (1, 1000, 30), (1, 400000, 600)),
          J("ring_asan", "sync", (1, 600, 45), (1, 100000, 600))],
    kinds={"write_through", "missing", "dup", "torn", "order", "unknown"},
    rule=SCHED_RULE + " Whenever no log call of a channel is in progress the files are read back through the kernel, so text still in a stdio buffer (lost by an abrupt exit) counts as missing.",
    assumptions=SCHED_ASSUME, floor={"quick": {"sync_checks": 5000}})
CHECKS["C14"] = dict(
    jobs=[J("ring", "life", (6, 4000, 45), (6, 400000, 600)),
          J("ring_asan", "life", (2, 800, 45), (2, 100000, 600))],
    kinds={"retcode", "after_stop", "torn", "unknown", "dup", "missing"},
    rule=SCHED_RULE, assumptions=SCHED_ASSUME, floor={"quick": {"starts_ok": 2000, "stops_ok": 2000, "starts_refused": 200, "stops_refused": 200}})
CHECKS["C18"] = dict(
    jobs=[J("ring", "stat", (4, 4000, 45), (4, 400000, 600)),
          J("ring", "life", (2, 3000, 45), (2, 400000, 600)),
          J("ring", "virt", (1, 2000, 45), (1, 400000, 600)),
          J("ring", "sync", (1, 2000, 45), (1, 400000, 600)),
          J("filter", "filter", (1, 1200, 45), (1, 400000, 600)),
          J("filter_plain", "filter", (1, 3000, 45), (1, 2000000, 600)),
          J("file_plain", "size", (1, 3000, 45), (1, 2000000, 600)),
          J("file_plain", "fault", (1, 1500, 45), (1, 2000000, 600)),
          J("dev_plain", "dev", (1, 1200, 45), (1, 2000000, 600))],
    kinds={"stats"},
    rule=SCHED_RULE, assumptions=SCHED_ASSUME, floor={"quick": {"counter_samples": 2000, "channel_counters_exact": 2000}})

FMT_RULE = ("One case is a batch of records with generated content sent through a real synchronous channel; each record is read back from the log file (and seen by the hook) and compared with an "
            "independent rendering. ")
CHECKS["C07"] = dict(
    jobs=[J("fmt", "value", (5, 12000, 60), (5, 4000000, 600)),
          J("fmt_plain", "value", (3, 40000, 60), (2, 20000000, 600)),
          J("fmt_dflt", "value", (1, 15000, 30), (1, 20000000, 600))],
    kinds={"value"}, rule=FMT_RULE + "distinct_nontrivial counts distinct value sequences.",
    assumptions=["LOG_SIZE 700 (ASan build) and 1000", "reference renderings come from libstdc++/libc (to_string, snprintf, strtold)"], floor={"quick": {"values_checked": 2000000}})
CHECKS["C08"] = dict(
    jobs=[J("fmt", "big", (8, 25000, 60), (7, 4000000, 600)),
          J("fmt_dflt", "big", (1, 10000, 30), (1, 4000000, 600))],
    kinds={"memory"}, rule=FMT_RULE + "Records grow to and beyond the maximum; before and after every single operation the memory of all other queue slots and the gaps behind them is compared bytewise, on top of ASan and UBSan. distinct_nontrivial counts distinct operation sequences.",
    assumptions=["LOG_SIZE 700"], floor={"quick": {"operations": 500000, "records_cut": 20000, "printf_records": 16666}})
CHECKS["C21"] = dict(
    jobs=[J("fmt", "prefix", (8, 15000, 60), (8, 4000000, 600))],
    kinds={"prefix"}, rule=FMT_RULE + "The clock is virtual and each worker uses another time zone; times are concentrated around clock changes and day borders. distinct_nontrivial counts distinct record texts.",
    assumptions=["time zones given as POSIX TZ rules", "times from 1970 to 2100"], floor={"quick": {"prefixes_checked": 100000, "zone_transitions": 100}})

FILTER_RULE = ("One case is a generated configuration text (up to 4 channels with up to 20 devices of all output types, filters at both levels given as thresholds, windows, lists and masks), phases of log calls through "
               "every kind of log statement with priorities, categories and identifies at the borders of the rules, and run-time changes through every setter between the phases; the records in every file, datagram, screen print and hook call "
               "and the counters of every device are compared with an independent model. distinct_nontrivial counts distinct (call, channel rules, number of admitting devices).")
FILTER_ASSUME = ["categories and identifies beyond 0..63 meet masks modulo 64 (as implemented)", "first+count must be representable", "at most one virtual device per channel"]
CHECKS["C06"] = dict(
    jobs=[J("filter", "filter", (4, 1500, 60), (4, 1000000, 600)),
          J("filter_plain", "filter", (4, 5000, 60), (4, 5000000, 600))],
    kinds={"filter"}, rule=FILTER_RULE, assumptions=FILTER_ASSUME, floor={"quick": {"records_judged": 300000, "changes": 20000}})
CHECKS["C16"] = dict(
    jobs=[J("filter", "hook", (3, 1500, 60), (3, 1000000, 600)),
          J("filter_plain", "hook", (3, 5000, 60), (3, 5000000, 600)),
          J("ring", "virt", (2, 3000, 45), (2, 400000, 600))],
    kinds={"hook", "virtual", "missing", "dup", "torn", "unknown"}, rule=FILTER_RULE + " Concurrent producers with hooks that forward run under the scheduler (ring/virt).", assumptions=FILTER_ASSUME + SCHED_ASSUME,
    floor={"quick": {"hook_calls_checked": 50000, "forwarded": 15000}})

CHECKS["C09"] = dict(
    jobs=[J("cfg", "fuzz", (8, 6000, 60), (8, 10000000, 800))],
    kinds={"config"},
    rule=("One case is a sequence of loads (text or file) on one logger: configurations of the documented grammar with structure-aware and bytewise mutations, random token soup, missing files, failing shared-memory calls, "
          "with calls of the public functions before, between and after them. Monitors: ASan/UBSan (the parser's copy of the text is allocated exactly), a 20 s alarm per load, the logger's state, and after accepted and refused texts a log call per channel, stop and a known-good configuration whose file is read back. "
          "distinct_nontrivial counts distinct texts."),
    assumptions=["System V shared memory and name resolution are emulated", "paths outside the scratch directory are refused by the file system"], floor={"quick": {"texts": 20000, "texts_accepted": 5000, "texts_rejected": 10000}})
CHECKS["C10"] = dict(
    jobs=[J("cfg", "model", (2, 6000, 60), (3, 10000000, 800)),
          J("cfg_plain", "model", (6, 25000, 60), (5, 10000000, 800))],
    kinds={"meaning"},
    rule=("One case is a sequence of configurations derived from a model of the documented grammar (all keys, words by define/var incl. chained ones, lists with ranges, white/black masks), written in a random layout (indentation, dashes, tabs, comments, blank lines, CR/LF styles, BOM, quotes and braces, key order), as text or as file; "
          "after loading every setting is compared with the model. With one inserted fault of 13 classes the load must fail and report the line of the fault. distinct_nontrivial counts distinct texts."),
    assumptions=["udp_addr with a host name follows 'disable: false' (names of disabled devices are not resolved)", "words replaced by define/var are used as whole values or list elements"],
    floor={"quick": {"accepted_configs": 20000, "faulty_configs": 30000}})

FILE_RULE = ("One case is a generated history of a logger with several channels and devices on a real directory tree under the scheduler's virtual clock: records, clock jumps, stops and starts, new loggers, foreign and left-over files. ")
FILE_ASSUME = ["file systems of this sandbox (tmpfs)", "stdio", "mtime at full seconds"]
CHECKS["C11"] = dict(
    jobs=[J("file", "size", (3, 2500, 60), (3, 1000000, 800)),
          J("file_plain", "size", (5, 8000, 60), (4, 4000000, 800)),
          J("file_dflt", "size", (1, 1500, 30), (1, 4000000, 800))],
    kinds={"rotation"},
    rule=FILE_RULE + "After every step the complete tree (names and contents of the log, of every backup .1 .. .N and of files that are not the logger's) is compared with an exact model of rotation by size, reopening, append mode and discarding. distinct_nontrivial counts distinct histories.",
    assumptions=FILE_ASSUME, floor={"quick": {"size_rotations": 20000, "backups_discarded": 20000, "exact_fits": 2000, "tree_comparisons": 20000}})
CHECKS["C12"] = dict(
    jobs=[J("file", "time", (3, 2500, 60), (3, 1000000, 800)),
          J("file_plain", "time", (5, 8000, 60), (5, 4000000, 800))],
    kinds={"calendar"},
    rule=FILE_RULE + "Each worker uses another time zone; steps concentrate on day, hour and clock-change borders; names with date patterns, daily and hourly rolling and missing directories; the tree is compared with an exact model after every step. distinct_nontrivial counts distinct histories.",
    assumptions=FILE_ASSUME + ["zones with half-hour clock changes are left out for hourly rolling"], floor={"quick": {"daily_rotations": 10000, "hourly_rotations": 10000, "clock_changes": 500, "tree_comparisons": 10000}})
CHECKS["C20"] = dict(
    jobs=[J("file", "fault", (4, 1500, 60), (4, 1000000, 800)),
          J("file_plain", "fault", (4, 4000, 60), (3, 4000000, 800)),
          J("file_dflt", "fault", (1, 800, 30), (1, 4000000, 800))],
    kinds={"fault"},
    rule=FILE_RULE + "Failures (open, write, flush, mkdir, rename, remove with ENOSPC, EACCES, EMFILE, EIO, EROFS, EINTR at rates of 10 to 100 %, a file in the place of a directory, a real file size limit) hit one device at a time and end again; the files of all devices are parsed and every record no failure excuses has to be there, once, whole and in order. distinct_nontrivial counts distinct histories.",
    assumptions=FILE_ASSUME + ["a failed device may be held back for 5 s after the last failure"], floor={"quick": {"faults_fired": 5000, "must_on_victims": 50000, "must_on_others": 100000}})

CHECKS["C13"] = dict(
    jobs=[J("hot", "hist", (2, 2500, 60), (2, 1000000, 800)),
          J("hot_plain", "hist", (4, 5000, 60), (4, 4000000, 800)),
          J("ring", "hot", (2, 6000, 60), (2, 4000000, 800))],
    kinds={"hot", "missing", "dup", "torn", "unknown", "order", "retcode"},
    rule=("hist: one case is a history of file versions (valid mutations of all settings, appended devices, removed channels and devices, changed types and names, hot update off, unparsable in five ways, missing, a directory, unreadable; arbitrary new modification times), records, waits, stops, restarts and reloads under a virtual clock. "
          "The settings a channel may have form a set; after one interval with activity only the file's remain; getters, deliveries to files, datagrams and hook are compared with the set. ring/hot: concurrent producers, stops and starts while the file is rewritten, under the scheduler. distinct_nontrivial counts distinct histories and schedules."),
    assumptions=["a new version has a modification time (in full seconds) not used before", "the clock does not go back", "a version that switches hot_update off may be taken up by some channels only"] + SCHED_ASSUME[:1],
    floor={"quick": {"sure_checks": 3333, "exact_deliveries": 20000, "exact_observations": 60000}})

CHECKS["C15"] = dict(
    jobs=[J("shm", "sched", (4, 1800, 60), (3, 4000000, 800)),
          J("shm_dflt", "sched", (1, 500, 30), (1, 4000000, 800)),
          J("shm_asan", "sched", (1, 700, 60), (1, 4000000, 800)),
          J("shm", "kill", (2, 500, 50), (2, 4000000, 800)),
          J("shm_asan", "foreign", (1, 1500, 40), (1, 4000000, 300))],
    kinds={"recovery", "recovered", "missing", "dup", "torn", "unknown", "order", "cleanup", "foreign", "retcode"},
    rule=("One case is a chain of 2 to 11 processes (forked children running the real code) on one shared-memory key: each starts on what the one before left, logs from up to 4 threads to 1 or 2 channels "
          "(synchronous or not, up to 3 file devices), sometimes stops and restarts in between, and ends cleanly or dies - at a scheduling point of start, recovery, logging or stop, between two machine "
          "instructions (single-stepping), or by SIGKILL at a random moment. A journal kept outside the process (invocation/return stamps of every log call, every write that reached a device) decides what must be, "
          "may be and must not be in the files. foreign: segments of other layouts and damaged ones at start. distinct_nontrivial counts distinct chains of schedules."),
    assumptions=["System V shared memory is emulated (same life time rules, mapped at changing addresses)", "a process death loses what was in its stdio buffers and nothing else", "the clock moves on between the processes"],
    floor={"quick": {"recoveries": 2000, "recovered_records": 3000, "recovered_lines": 200, "must_records_of_crashed_rounds": 10000, "foreign_segments": 166}})

CHECKS["C19"] = dict(
    jobs=[J("dev", "dev", (3, 1500, 60), (3, 4000000, 800)),
          J("dev_plain", "dev", (5, 4000, 60), (4, 4000000, 800)),
          J("dev_dflt", "dev", (1, 1500, 30), (1, 4000000, 800))],
    kinds={"udp", "screen", "input", "start"},
    rule=("One case is a history of a logger with up to 3 channels (synchronous or not) that have a reference file, UDP outputs, a screen and UDP inputs: records of all contents and sizes from up to 4 threads under the scheduler, datagrams of 3 bytes to "
          "LOG_SIZE+900 bytes to the inputs, other addresses, devices switched off and on, failing socket/bind/sendto, stops and restarts. Datagrams travel over the real loopback network; those received at every address, the bytes of stdout and the files of the inputs are compared "
          "exactly with the records in the reference file and the datagrams sent; a record may only be missing at a UDP output while socket calls fail (or up to 4 s later), and then the counter of lost lines has to have grown by it. "
          "Every stdio call on stdout is a scheduling point. distinct_nontrivial counts distinct (schedule, configuration)."),
    assumptions=["loopback UDP keeps the order and loses nothing while the receiver's buffer has room", "a UDP device may be held back for 4 s after a failed socket call", "inputs with a UDP output are left out", "datagrams longer than LOG_SIZE-1 are cut and end with a newline"] + SCHED_ASSUME[:1],
    floor={"quick": {"datagrams_exact": 100000, "screen_chunks": 26666, "datagrams_forwarded": 8000, "faults_sendto": 5000, "faults_socket": 500, "stops_judged": 500}})

CHECKS["C17"] = dict(
    jobs=[J("tsan", "use", (2, 4000, 60), (2, 4000000, 800), real_threads=True, env={"TSAN_OPTIONS": TSAN}),
          J("tsan", "restart", (2, 4000, 60), (2, 4000000, 800), real_threads=True, env={"TSAN_OPTIONS": TSAN}),
          J("tsan", "many", (1, 4000, 60), (1, 4000000, 800), real_threads=True, env={"TSAN_OPTIONS": TSAN}),
          J("tsan_asan", "use", (1, 4000, 60), (1, 4000000, 800), real_threads=True),
          J("tsan_asan", "restart", (1, 4000, 60), (1, 4000000, 800), real_threads=True),
          J("tsan_plain", "many", (1, 4000, 60), (1, 4000000, 800), real_threads=True)],
    kinds={"interfere", "torn", "dup", "missing", "order", "retcode", "double_close"},
    rule=("One case is a generated concurrent program on real threads, built with FN_LOG_USING_ATOM_CFG: 1 to 6 loggers with up to 3 channels and 6 devices of all kinds; producers using every kind of log statement, readers of all statistics, "
          "threads changing settings, a thread rewriting the watched file (checked for at every opportunity), threads stopping and restarting (also two at once, also with other channel types), a datagram sender, forwarding hooks; "
          "random delays are injected inside log calls and before locks. ThreadSanitizer (or ASan and UBSan) observes; afterwards every file is checked for records of other loggers, torn, repeated, reordered and lost ones. "
          "distinct_nontrivial counts distinct programs that ran to the end."),
    assumptions=["settings are not changed concurrently with a restart; the first start precedes all other use (as the statement says)", "libc's own time zone data is protected inside libc (suppressed by name)", "races inside libc (uninstrumented) are not seen", "queue length 11, record size 700"],
    floor={"quick": {"logs": 200000, "restarts": 2000, "stat_reads": 50000, "setting_changes": 5000, "yaml_versions": 500, "lines_checked": 100000}})

CHECKS["C22"] = dict(
    jobs=[J("front", "macro", (3, 100000, 30), (3, 4000000, 600), real_threads=True),
          J("front_plain", "macro", (2, 100000, 30), (2, 4000000, 600), real_threads=True),
          J("front", "quick", (2, 100000, 30), (2, 4000000, 600), real_threads=True),
          J("front_plain", "quick", (1, 100000, 30), (1, 4000000, 600), real_threads=True)],
    kinds={"front"},
    technique="runtime monitoring: per-call monitor on the hook and offline comparison of files and screen, under ASan/UBSan",
    rule=("macro: one case is up to 3 lives of the default logger and of a second one with generated set-ups (up to 4 channels, synchronous or not, with filters); up to 3 threads call the 98 functions that each hold one logging macro with generated channels (also ones that do not exist), "
          "categories, identifies and contents; a monitor on the hook compares number, channel, priority, category, identify, file, line, function and text of the records each call made and how often its arguments were evaluated, and the files are compared at the end. "
          "quick: the ready-made set-ups, started from up to 4 threads at once, with concurrent records; the files, their limits and the captured screen are compared with what they announce. distinct_nontrivial counts distinct (macro, channel, category, identify)."),
    assumptions=["macros are compiled as C++14 with GCC"], floor={"quick": {"records_checked": 5000, "calls_blocked": 5000, "lines_checked": 5000, "setups": 50}})
CHECKS["C23"] = dict(
    jobs=[J("res", "cycle", (4, 100000, 45), (4, 4000000, 800), real_threads=True),
          J("res", "steady", (2, 100000, 45), (2, 4000000, 800), real_threads=True),
          J("res", "idle", (2, 100000, 45), (2, 4000000, 800), real_threads=True)],
    kinds={"resource"},
    technique="runtime monitoring: resource accounting (descriptors, threads, live heap, processor time) over generated histories with injected failures",
    rule=("cycle: one case is a generated session (up to 3 lives of one logger with files, UDP inputs and outputs, other devices, shared memory and hot update; records, rotations by size and time, clock jumps, failing system calls, removed files, rewritten and broken configuration files, refused and failing starts) run 7 times; descriptors and threads are counted after every step, "
          "stop, failed start and destruction, the live heap after every repetition. steady: one life with 9 equal blocks of records and rotations, clock jumps, hot updates or switches; the live heap may not grow block by block. idle: processor time over quiet intervals. distinct_nontrivial counts distinct sessions."),
    assumptions=["memory counts as growing when bytes and blocks rise in each of the last 4 (6) repetitions", "System V shared memory is emulated", "idle: below half a processor over 120 ms (300 ms when repeated)"],
    floor={"quick": {"counts": 2000, "stops": 150, "steady_sessions": 10, "idle_sessions": 20, "config_rewrites": 50, "failed_starts": 10}})
CHECKS["C24"] = dict(
    jobs=[J("proc", "proc", (4, 100000, 35), (4, 4000000, 600), real_threads=True),
          J("proc_asan", "proc", (2, 100000, 35), (2, 4000000, 600), real_threads=True),
          J("proc_tsan", "proc", (2, 100000, 35), (2, 4000000, 600), real_threads=True, env={"TSAN_OPTIONS": TSAN})],
    kinds={"process"},
    technique="runtime monitoring: whole generated programs in child processes, offline comparison of files, screen and exit status with a journal outside the process, under ASan/UBSan and TSan",
    rule=("One case is a generated program of two source files in a process of its own: the default logger and an ordinary global logger are started (from text or a file, 1 or 2 channels, synchronous or not, error files, screens, priorities), used with macros and streams by the main thread and others, "
          "inspected, stopped and restarted from either file; static objects, atexit functions and thread objects set up on the way log at their end; then the program ends by exit() in the main or another thread. Afterwards the files, the captured screen and the exit status are compared with the journal in shared memory. "
          "distinct_nontrivial counts distinct programs."),
    assumptions=["whatever logs at the end of the process was set up after the logger's first use (otherwise C++ ends the logger first)", "no thread is logging while the process ends, except the ending one"],
    floor={"quick": {"programs": 150, "lines_checked": 20000, "late_records": 1500, "screen_records": 3000}})
