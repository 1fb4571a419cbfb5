#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
I = "src/include/"
def m(name, where): return {"name": name, "where": where}
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": [I + f for f in files], "mechanism": [m(n, I + w) for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": mean, "where": I + w} for n, mean, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Asynchronous logging delivers every accepted record exactly once",
 "On an asynchronous channel every log call that passes the filters and has returned before the logger is stopped is written exactly once to every enabled device of that channel whose filters it passes, at the latest by the time stopping returns. No record is lost, duplicated or invented, whatever the number of producer threads, the queue length, the number of queue wrap-arounds and the interleaving of producers, consumer and the stopping thread. A log call that is still in progress when the stop begins is delivered at most once.",
 ["schedules", "histories", "configurations"],
 "all interleavings of 1..N producer threads, the channel's writer thread and a stopping thread; all record counts (queue wraps) and device sets",
 "The tests push from several threads and look at totals or not at all; the OS schedules a tiny, benign part of the interleavings of the lock-free queue and nobody compares what was logged with what is in the files.",
 ["fn_channel.h", "fn_core.h", "fn_data.h"],
 [("slot reservation by compare-and-swap on the hold index", "fn_channel.h HoldChannel"),
  ("in-order publication of ready slots", "fn_channel.h PushChannel"),
  ("single writer drains until the queue is empty after stop", "fn_channel.h EnterProcChannel"),
  ("stop joins the writer thread", "fn_core.h StopChannels/StopLogger")],
 [("ring of records with hold/write/proc/read indices", "where each record is between reservation and reuse", "fn_data.h RingBuffer")],
 ["files written by the channel's devices, call/return of log statements and of start/stop"])

prop("C02", "Records are never torn, mixed or left unterminated",
 "What a device receives for one log call is exactly the bytes that call produced (its prefix and its streamed content, cut only at the documented maximum record size) followed by one newline, and contains no byte of any other record. This holds under any concurrency of producers and of the writing side and for any mix of record lengths up to and beyond the maximum.",
 ["schedules", "inputs", "histories"],
 "all interleavings of producers and writer, all record lengths around and beyond the size limit, recycled slots that held longer or shorter records before",
 "Tests eyeball the output; nothing checks every byte of every record when slots are being recycled under contention.",
 ["fn_channel.h", "fn_stream.h", "fn_data.h"],
 [("a slot is invisible to the writer until marked ready", "fn_channel.h PushChannel"),
  ("a slot is not reusable until the read index passed it", "fn_channel.h HoldChannel/EnterProcChannel"),
  ("length clamp before the newline is appended", "fn_channel.h PushChannel")],
 None, ["bytes of the device's files"])

prop("C03", "Device output respects the order of the log calls",
 "If one log call on a channel returned before another log call on the same channel began (in particular, when one thread made both), the first record precedes the second in every device of that channel that receives both, across file rotations and hot updates. All devices of a channel show the records they share in the same relative order.",
 ["schedules", "histories"],
 "all interleavings of producers, writer and rotation; all pairs of records of a channel",
 "A test can look at one thread's sequence in one run; the property is over all pairs of calls in all interleavings, including queue wrap-around.",
 ["fn_channel.h"],
 [("records are published strictly in reservation order", "fn_channel.h PushChannel"),
  ("one dispatching thread per channel at a time", "fn_channel.h EnterProcChannel")],
 None, ["order of records in each device, call/return order of log statements"])

prop("C04", "A full queue makes callers wait and never costs a record",
 "When records are produced faster than an asynchronous channel writes them, log calls wait for room: no record that is still waiting to be written is overwritten or dropped, and the number of accepted but not yet handed over records never exceeds the configured queue length. Every waiting call returns once the writer makes progress; the producers and the writer never block each other for ever.",
 ["schedules", "histories", "configurations"],
 "all interleavings in which the queue becomes full, any queue length >= the documented minimum, more producers than free slots",
 "Benchmarks fill the queue but judge only by finishing; loss, overwriting or a missed wake-up at the full/empty boundary needs particular interleavings and a per-record account.",
 ["fn_channel.h", "fn_data.h"],
 [("full test against the read index before reserving", "fn_channel.h HoldChannel"),
  ("bounded retry then sleep", "fn_channel.h HoldChannel"),
  ("read index only advances over consumed slots", "fn_channel.h EnterProcChannel")],
 None, ["call/return of log statements, writes reaching the devices"])

prop("C05", "Synchronous channels write through in the calling thread",
 "On a synchronous channel a record is already in its file (readable by other processes, surviving an abrupt process exit) when its log call returns, unless another thread's log call on that channel is still in progress, in which case it is there when those calls have returned. With any number of threads logging to the same synchronous channel records are neither lost, duplicated, torn nor reordered, and no thread blocks for ever.",
 ["schedules", "crash_points", "histories"],
 "all interleavings of threads on a synchronous channel; process exit after any log call",
 "Tests never read the file between two log calls and never kill the process; the multi-threaded synchronous benchmark does not look at the output.",
 ["fn_channel.h", "fn_out_file_device.h", "fn_file.h"],
 [("the producer drains the queue itself after publishing", "fn_channel.h PushChannel -> EnterProcChannel"),
  ("files are flushed before the call returns", "fn_channel.h EnterProcChannel"),
  ("per-channel lock for synchronous channels", "fn_channel.h ReadGuard")],
 None, ["file content after each call"])

prop("C06", "Records are delivered exactly according to the filter rules",
 "A record reaches a device if and only if the channel and the enabled device both admit it: priority not below the threshold, category inside [first, first+count) when a count is set, identify likewise, and category and identify bits (0..63) present in the mask when a mask is set. Disabled devices receive nothing, the rules hold for white and black lists and masks at both levels, and a runtime change of any of these settings (per channel, per device, or the batch functions) governs every log call that starts after the change.",
 ["inputs", "configurations", "histories"],
 "all combinations of channel and device filter settings, priorities, categories and identifies; sequences of runtime changes",
 "test_filter* assert a few fixed combinations; the rules multiply over 2 levels x 5 criteria x any number of devices, evaluated at two independent places in the code that must agree.",
 ["fn_channel.h", "fn_core.h", "fn_parse.h", "fn_log.h"],
 [("early rejection in the calling thread", "fn_channel.h BlockInput"),
  ("per-device decision at dispatch", "fn_channel.h DispatchLog"),
  ("runtime setters", "fn_core.h SetChannelConfig/SetDeviceConfig/BatchSet*")],
 None, ["set of records in each device"])

prop("C07", "Values are rendered faithfully in the log text",
 "Every value streamed into a record appears as its correct textual form: integers in exact decimal for the full range of every integer type, pointers and hex in exact upper-case hexadecimal, floating point within 0.0001 (above 2^60 and below 1e-7: to 15 significant digits; subnormal numbers as zero) with the right sign, infinities and not-a-number by name, booleans, strings of any bytes, pairs, containers with their true size and first five elements, non-negative percentages, alignment padding, hex dumps and printf-style output. Successive values concatenate in order without omission as long as the record has room.",
 ["inputs"],
 "all values of all supported types and any sequence of stream operations",
 "test_buffer_correct checks a few dozen values; the value space and its boundary cases (minimum integers, zero, tiny negatives, leading zeros) are unbounded.",
 ["fn_fmt.h", "fn_stream.h", "fn_macro.h"],
 [("table driven decimal / hex writers", "fn_fmt.h write_dec_unsafe/write_hex_unsafe"),
  ("floating point writer", "fn_fmt.h write_double_unsafe"),
  ("container writer and stream operators", "fn_stream.h LogStream")],
 None, ["content of the record as delivered"])

prop("C08", "Oversized or hostile records stay within the record's memory",
 "No sequence of log operations, whatever the number, type and size of the values, the length of file, function, logger and description names in the prefix, the printf-style arguments or the out-of-range priorities and categories, reads or writes outside the memory of its own record or causes undefined behaviour. A record that exceeds the maximum size is delivered cut to the maximum, newline-terminated, with its leading bytes intact, and neighbouring records are unaffected.",
 ["inputs", "configurations"],
 "all sequences of stream operations and sizes, all prefix selections, all supported maximum record sizes",
 "test_buffer overfills with a few fixed patterns in the default size and without sanitizers; off-by-one overruns into the next slot are silent.",
 ["fn_stream.h", "fn_channel.h", "fn_fmt.h", "fn_macro.h"],
 [("room check before each write", "fn_stream.h write_* / operator<<"),
  ("final clamp", "fn_channel.h PushChannel"),
  ("length clamp after snprintf", "fn_macro.h LOG_FORMAT")],
 None, ["sanitizer reports, neighbouring record bytes, delivered record"])

prop("C09", "Any configuration text is either accepted or rejected cleanly",
 "For every byte sequence given as configuration text or file, loading terminates promptly, never reads or writes out of bounds or invokes undefined behaviour, and returns either success with a complete usable setup or a non-zero error. After an error the logger is left stopped and usable: a following valid configuration starts normally, and no log call or configuration call crashes at any time, including before the first start.",
 ["inputs", "histories"],
 "all byte strings as configuration, all sequences of failed and successful loads",
 "The tests feed a dozen hand-written texts; the lexer, macro replacement and list parsing walk raw pointers over arbitrary text.",
 ["fn_parse.h", "fn_load.h", "fn_core.h"],
 [("character driven lexer", "fn_parse.h Lex"),
  ("in-place macro/variable replacement", "fn_parse.h Predefined*"),
  ("error propagation and state restore", "fn_load.h InitFromYMAL, fn_core.h ParseAndStartLogger")],
 None, ["return codes, sanitizer reports, termination within a step budget"])

prop("C10", "Accepted configuration text means what the manual says",
 "For every configuration written within the documented syntax (any indentation, array dashes, comments, blank lines, CR/LF styles, byte-order mark, quotes or braces, key aliases, macros and variables) each channel and device setting takes exactly the written value and every unspecified setting its documented default, independently of the layout chosen. A configuration with an unknown key or type, a non-consecutive channel or device number, too many channels or devices, a replacement longer than its name, an enabled device whose written UDP address lacks the port or a usable host, or an unclosed value is rejected, with the reported line being the offending one.",
 ["inputs", "configurations"],
 "all configurations derivable from the documented grammar, all layouts of each, all single faults inserted into them",
 "The tests check a handful of fixed texts; equivalence of layouts and exactness of every field are statements over the whole grammar.",
 ["fn_parse.h", "fn_load.h"],
 [("key recognition", "fn_parse.h ParseReserve"), ("value parsers", "fn_parse.h Parse*"),
  ("hierarchy by indentation", "fn_parse.h ParseLogger/ParseChannel/ParseDevice"),
  ("macro and variable replacement", "fn_parse.h PredefinedMacro/PredefinedVar")],
 None, ["settings visible after loading, return code and line number"])

prop("C11", "Size-based rotation keeps files bounded and loses only the oldest",
 "With a size limit and a backup count of n, a device never leaves more than the current file plus n numbered backups, and no file exceeds the limit unless it consists of a single record larger than the limit (or already exceeded it when reopened in append mode). Read from the highest-numbered backup to the current file the content is a gap-free, in-order, untorn run of the records delivered that ends with the most recent one, so only the oldest are ever discarded; reopening rotates or, in append mode, continues the existing file, and files that do not belong to the device are never touched.",
 ["inputs", "histories", "configurations"],
 "all sequences of record sizes, limits, backup counts, restarts and append-mode settings, pre-existing files",
 "test_rolling prints a few sizes and never inspects the set of files, so a dropped, misordered or unbounded backup is invisible.",
 ["fn_out_file_device.h", "fn_file.h"],
 [("limit test before each write", "fn_out_file_device.h OpenFileDevice"),
  ("recursive renaming of backups", "fn_file.h FileHandler::rollback"),
  ("append-mode handling", "fn_out_file_device.h OpenFileDevice")],
 None, ["the device's directory after each record or restart"])

prop("C12", "Time-based rotation and file naming follow the local calendar",
 "File and directory names are the configured templates with process name, process id and the date and time of the record that opened the file substituted, defaulting as documented, and missing directories are created. With daily (hourly) rotation every record is written to a file opened in the same local calendar day (hour) as the record, in any time zone, for any sequence of record times; without it, time alone never switches files.",
 ["inputs", "histories", "configurations"],
 "all template strings, all sequences of record times in all time zones incl. daylight-saving changes, all rotation settings",
 "Tests run within one second of one day in one time zone and do not look at file names.",
 ["fn_out_file_device.h", "fn_file.h"],
 [("template substitution", "fn_out_file_device.h FmtName/MakeFileName/MakePathName"),
  ("period test against the opening day/hour", "fn_out_file_device.h OpenFileDevice"),
  ("directory creation", "fn_file.h create_dir")],
 None, ["names and contents of files under a controlled clock"])

prop("C13", "Hot update applies valid changes promptly and ignores invalid ones",
 "With hot update on, replacing the configuration file by a valid one (with a new modification time) makes the new priorities, categories, masks, enable flags, size and rotation settings of existing devices and any devices appended to a channel effective on every channel within one check interval of channel activity, without restart and without losing, duplicating or reordering records. An unparsable, missing or structurally incompatible file changes nothing, a later valid one is still picked up, and with hot update off changes are ignored; updating never deadlocks with logging, stopping or restarting.",
 ["histories", "schedules", "fault_sequences"],
 "all sequences of valid and invalid file versions, update times relative to logging, stopping and restarting",
 "test_hotupdate performs one fixed update in wall-clock time; sequences, invalid intermediates and races with stop are not reached.",
 ["fn_load.h", "fn_channel.h", "fn_core.h"],
 [("periodic modification-time check", "fn_load.h HotUpdateLogger"),
  ("validated copy of settings", "fn_load.h HotUpdateLogger"),
  ("state lock against start/stop", "fn_core.h StateLockGuard")],
 None, ["filtering behaviour before/after the update under a controlled clock"])

prop("C14", "Start, stop and restart are safe from any thread at any time",
 "Any number of threads may start, stop, restart and log concurrently: exactly one of several concurrent starts (stops) succeeds and the others report an error without side effects, every such call returns, and start/stop/destruction never crash, hang or corrupt records. While the logger is stopped log calls are rejected quickly and write nothing; after any number of restarts (with the same or another configuration) logging works as after the first start, and a failed start (bad configuration, thread creation failure) leaves the logger stopped and restartable.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of start, stop, restart, log and destruction calls of any threads; failures while starting",
 "The stress tests reboot concurrently for a while but only notice crashes; loss, duplication, stale records after a restart and deadlocks need specific interleavings and an account of each record.",
 ["fn_core.h", "fn_channel.h", "fn_load.h"],
 [("state lock and logger state", "fn_core.h StartLogger/StopLogger"),
  ("draining before the writer exits", "fn_channel.h EnterProcChannel"),
  ("queue reset between sessions", "fn_core.h CleanChannels")],
 [("logger and channel state", "uninit/initing/running/closing; null/running/waiting/finish", "fn_data.h")],
 ["return codes of start/stop, records in the devices"])

prop("C15", "With a shared-memory queue a crash loses no queued record",
 "With a shared-memory key configured, if the process dies at any instant, the next start with the same key and configuration attaches to the queue left behind and writes every record whose log call had returned and which had not yet been handed to a device, intact and in order; a record caught half-written by the crash is delivered marked as recovered or not at all, never disguised as a normal one. Recovery always terminates, new records are logged normally after it, and a clean shutdown removes the shared memory; an existing segment of a different layout is refused with an error instead of being used.",
 ["crash_points", "schedules", "histories"],
 "all crash points of the queue operations with one or several producers, any queue position including wrap-around, repeated crashes",
 "test_shm exits at one fixed point between two log calls; crash points inside reservation, publication and consumption are never exercised.",
 ["fn_load.h", "fn_channel.h", "fn_data.h"],
 [("attach and repair of the queue indices", "fn_load.h LoadSharedMemory"),
  ("read index advances only after a record was dispatched", "fn_channel.h EnterProcChannel"),
  ("removal of the segment", "fn_load.h UnloadSharedMemory")],
 None, ["files after restart, existence of the segment"])

prop("C16", "The virtual device hook sees exactly the records it should, in the caller",
 "If a hook is installed and a channel has an enabled virtual device, the hook is called exactly once, in the logging thread and before the log call returns, for each record that passes the channel's and that device's filters, with the record's final text (zero-terminated), priority, category, identify and source location, and it is not called for channels without an enabled virtual device. A record forwarded by the hook to another channel is logged there exactly once with the same text and is subject to that channel's filters; forwarding to its own channel does nothing (channels that forward to each other in a circle are outside this guarantee: their bounded queues can fill with records waiting for each other).",
 ["inputs", "schedules", "configurations"],
 "all filter settings, all channel/device layouts incl. channels without virtual device, concurrent producers, forwarding between channels",
 "test_trans_log uses one layout with one thread.",
 ["fn_out_virtual_device.h", "fn_stream.h", "fn_channel.h", "fn_parse.h"],
 [("hook call when the statement ends", "fn_stream.h ~LogStream"),
  ("filter test", "fn_out_virtual_device.h EnterProcOutVirtualDevice"),
  ("copy into the other channel", "fn_channel.h TransmitChannel")],
 None, ["hook invocations, files of both channels"])

prop("C17", "Concurrent use is free of data races and memory errors",
 "With the atomic-configuration build option, any concurrent use of one logger through its public functions (logging on the same and on different channels, synchronous or asynchronous, reading statistics, changing settings, hot updates, stopping and destroying after the producers ended, and stopping and restarting it under the same name concurrently with logging after its first start) executes without data races and without out-of-bounds, use-after-free, double-close or other undefined behaviour. Distinct loggers in one process do not interfere.",
 ["schedules", "programs"],
 "all concurrent programs over the public functions and all their schedules",
 "The tests are built without sanitizers; a data race or a use-after-free rarely changes a test's outcome.",
 ["fn_channel.h", "fn_core.h", "fn_load.h", "fn_stream.h", "fn_out_file_device.h", "fn_data.h"],
 [("atomic indices and marks", "fn_data.h RingBuffer/LogData"), ("atomic settings", "fn_data.h FN_LOG_USING_ATOM_CFG"),
  ("locks", "fn_data.h state_lock_/read_locks_/screen_lock_")],
 None, ["race detector and sanitizer reports"])

prop("C18", "Statistics counters account for every record",
 "Whenever the logger is quiescent the channel and device counters agree with what happened: reserved, pushed and processed counts equal the number of accepted records, the byte totals (overall and per priority) equal the bytes of those records, and each device's line and byte counters equal the lines and bytes delivered to it, including across restarts. At any moment counters only grow; a call that a stop cut off is at most counted as reserved.",
 ["schedules", "histories", "inputs"],
 "all schedules and workloads; every quiescent point and every instant in between",
 "Benchmarks print the counters but nothing compares them with an independent count.",
 ["fn_channel.h", "fn_out_file_device.h", "fn_out_empty_device.h", "fn_core.h", "fn_data.h"],
 [("atomic counters", "fn_data.h AtomicInc*"), ("increments at hold, push, dispatch and device write", "fn_channel.h, fn_out_*_device.h")],
 None, ["counter reads, files"])

prop("C19", "Screen and UDP devices carry the same records as files",
 "Each record a UDP device accepts is sent as one datagram holding exactly the record's bytes to the configured address, and a datagram received by a UDP input device is forwarded once, byte-exact (within the maximum record size), to that device's output and to no other. A screen device prints each accepted record (up to a zero byte in it) exactly once, whole and uninterleaved with other records of the same logger, coloured by priority; socket failures are counted as lost lines, never crash or block logging, and sending resumes after they end.",
 ["inputs", "histories", "fault_sequences", "schedules"],
 "all record contents and sizes, any mix of devices and threads, datagram sequences, socket failures",
 "test_udp needs a manual peer and checks nothing; screen output is never captured by a test.",
 ["fn_out_udp_device.h", "fn_out_screen_device.h", "fn_channel.h", "fn_file.h"],
 [("datagram send", "fn_out_udp_device.h"), ("input polling loop", "fn_channel.h EnterProcChannel"),
  ("screen lock and colour table", "fn_out_screen_device.h, fn_fmt.h")],
 None, ["captured stdout, datagrams on loopback"])

prop("C20", "Output failures are survived and confined to the failing device",
 "If creating the directory, opening, writing, renaming or flushing a log file fails, logging continues without crash, hang or effect on the other devices and channels, and the logging threads are not blocked. Once the cause is gone the device resumes within the retry interval, and every record delivered afterwards is intact and in order.",
 ["fault_sequences", "histories"],
 "all sequences of failing file-system operations on any device and their recovery",
 "No test injects a failing system call.",
 ["fn_out_file_device.h", "fn_file.h", "fn_channel.h"],
 [("retry back-off", "fn_out_file_device.h EnterProcOutFileDevice"),
  ("close on short write and reopen", "fn_file.h FileHandler::write")],
 None, ["files of all devices, progress of log calls"])

prop("C21", "The record prefix states the true time, level, thread and source",
 "Each selected prefix part is present in the documented order and format and tells the truth: local date and time of the log call with milliseconds in the process's time zone (also on days with clock changes and for explicit time values), the priority label, the id of the logging thread, the logger's name and description, the source file (last path parts) with the right line number, and the function. Unselected parts are absent and with no part selected the record consists of the content alone.",
 ["inputs", "schedules", "configurations"],
 "all prefix selections, all time values in all time zones, all threads, names, files and lines",
 "Tests never compare the prefix with an independent clock and run in UTC on one day.",
 ["fn_stream.h", "fn_fmt.h", "fn_channel.h"],
 [("prefix assembly", "fn_stream.h LogStream constructor"), ("date writer with per-thread cache", "fn_fmt.h write_date_unsafe"),
  ("time and thread capture", "fn_channel.h InitLogData")],
 None, ["delivered records under a controlled clock"])

prop("C22", "The logging macros and ready-made set-ups do what their names say",
 "Every logging macro - stream, template-pack, one-argument and printf-style, with explicit channel, category and identify or the short form for channel 0, on the default logger or a named one - makes at most one record, at the call and on that logger, with exactly the priority its name states, the given channel, category and identify, the caller's file, line and function, the selected prefix and the given content (no text is taken for a format); it evaluates each argument at most once, and exactly once when the record is accepted, and it does nothing on a channel that does not exist, filters the record or is not running. FastStartDefaultLogger, FastStartDebugLogger and LoadAndStartDefaultLogger start the one default logger at most once until it is stopped, and the ready-made set-ups write each record to precisely the files and screen they announce (all, error and above, info and above; everything from trace or debug in the debug set-up).",
 ["inputs", "configurations", "histories", "schedules"],
 "all macros x channels, categories, identifies, contents, set-ups and logger states, from any number of threads",
 "Tests use a handful of macros and never look at what arrived; a wrong level or channel in one of a hundred macro lines still compiles and logs.",
 ["fn_macro.h", "fn_stream.h", "fn_core.h"],
 [("macro families", "fn_macro.h LOG_STREAM_ORIGIN .. LOGFMTF"), ("default logger and its starts", "fn_macro.h GetDefaultLogger, LoadAndStartDefaultLogger, FastStartDefaultLogger, FastStartDebugLogger"),
  ("printf-style records", "fn_macro.h LOG_FORMAT")],
 None, ["hook calls per macro call, files and screen of the ready-made set-ups"])

prop("C23", "A logger's use of descriptors, threads, memory and processor time is bounded",
 "While it runs a logger holds at most one descriptor per file device and per UDP device and one thread per asynchronous channel, whatever number of records, rotations, reopenings, output failures, configuration changes, hot updates (valid or not) and refused starts it goes through, and its memory does not grow with them. When it is stopped, or a start has failed, it holds no descriptor and no thread; when it is destroyed all its memory and shared memory is released, so repeating start, use, stop and destruction any number of times leaves nothing behind. A logger with nothing to write uses next to no processor time.",
 ["histories", "configurations", "schedules", "inputs"],
 "all histories of records, rotations, failures, configuration changes and restarts; any length of run",
 "Tests run for seconds and end; a descriptor, buffer or thread lost per rotation, failure or restart shows only by counting over long histories.",
 ["fn_file.h", "fn_channel.h", "fn_core.h", "fn_load.h", "fn_out_file_device.h", "fn_out_udp_device.h"],
 [("files closed on rotation, failure and stop", "fn_file.h FileHandler"), ("threads joined at stop and failed start", "fn_core.h StopChannels"),
  ("memory and shared memory released", "fn_load.h UnloadSharedMemory"), ("idle sleep", "fn_channel.h EnterProcChannel")],
 None, ["/proc/self/fd and /proc/self/task, live heap bytes, processor time"])

prop("C24", "One default logger per process, from any source file; a normal end of the process loses nothing",
 "A program of several source files that include fn-log has exactly one default logger: whichever file starts, uses, inspects or stops it, all see the same logger, and ordinary global loggers live beside it independently. When such a program ends normally (return from main or exit(), from any thread, with or without stopping its loggers first) every accepted record whose call had returned - including those logged while it ends, by static objects, atexit functions and objects of threads set up after the logger was first used - is in its files and on the screen exactly once, in order and whole; the program really ends and with its own exit status.",
 ["programs", "histories", "schedules"],
 "all programs that start, use and stop loggers from several source files and end normally",
 "Tests are single source files that stop their logger and look at no output; the order of ends of static objects, threads and loggers never varies.",
 ["fn_macro.h", "fn_core.h", "fn_load.h", "fn_channel.h"],
 [("one default logger", "fn_macro.h GetDefaultLogger"), ("stop at the end of the logger's life", "fn_core.h Logger::~Logger"), ("drain at stop", "fn_channel.h EnterProcChannel, fn_core.h StopChannels")],
 None, ["return codes, exit status, output files and screen of whole programs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
