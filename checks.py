"""Per property: the suites that decide it. Each entry: suite name, options."""
def S(name, asan=False, so="z", params=None, **kw):
    return dict(name=name, asan=asan, params=params or {}, **kw)

W = "exhaustive exploration of command sequences of several connections on the real daemon against a reference model of the server"
N = "Every command sequence within the stated depth is executed on the real daemon (in-memory OS); every reply is predicted by a reference model and after every step everything visible (NSLIST, NSINFO, DBSIZE, values, SCAN, directories) is compared with it."
CHECKS = {
    "P01": dict(suites=[S("map_ops"), S("map_deep"), S("map_files"), S("map_nul"), S("map_default_table"), S("map_edges"), S("long_keys"), S("map_files", params={"jumps": 254, "clock": 2147483645}), S("map_files", params={"jumps": 65534}, thorough_only=True, limit=240)],
        technique="exhaustive exploration of command sequences on the real daemon against a reference map",
        note="Every command sequence within the stated depth over colliding and boundary keys is executed on the real daemon (in-memory OS) and every read command is compared with a reference map after every step."),
    "P02": dict(suites=[S("seq_ops"), S("seq_files"), S("seq_many"), S("far_seq"), S("seq_files", params={"jumps": 254, "clock": 2147483645}), S("seq_files", params={"jumps": 65534}, thorough_only=True, limit=240)],
        technique="exhaustive exploration of command sequences on the real daemon against a reference id allocator",
        note="Every sequence of inserts, updates, deletions, jumps and restarts within the stated depth, including never-returned and malformed ids."),
    "P03": dict(suites=[S("restart_ops"), S("restart_collide"), S("seq_restart"), S("restart_settings"), S("restart_options"), S("restart_options_seq"), S("seq_restart", params={"jumps": 254, "clock": 2147483645}), S("seq_restart", params={"jumps": 65534}, thorough_only=True, limit=240)],
        technique="exhaustive exploration of histories with restarts and reloads on the real daemon",
        note="Every history within the stated depth with restart and RELOAD as operations."),
    "P04": dict(suites=[S("crash_user"), S("crash_rotate"), S("crash_rotate_seq"), S("crash_seq"), S("crash_ns"), S("crash_flush"), S("crash_user_again")],
        technique="exhaustive exploration of crash points and torn writes of every short history on the real daemon",
        note="A crash at every mutating system call (before, after, and torn at enumerated lengths) of every history within the stated depth."),
    "P05": dict(suites=[S("power_user"), S("power_rotate"), S("power_rotate_seq"), S("power_empty"), S("power_seq")],
        technique="exhaustive exploration of power-loss points and surviving subsets of unflushed writes on the real daemon",
        note="Every power-loss point of every history within the stated depth, with every enumerated subset of the unflushed writes."),
    "P06": dict(suites=[S("scan_user"), S("scan_seq"), S("scan_slices_user"), S("scan_slices_seq"), S("scan_moving_user"), S("scan_moving_seq"), S("scan_timestamps"), S("cursors_user"), S("cursors_seq"), S("far_user"), S("far_seq"), S("scan_user", params={"jumps": 254, "clock": 2147483645}), S("scan_seq", params={"jumps": 254, "clock": 2147483645}), S("scan_seq", params={"jumps": 65534}, thorough_only=True, limit=240)],
        technique="exhaustive exploration of histories on the real daemon, following every cursor chain",
        note="Every history within the stated depth; SCAN, RSCAN and KEYCUR chains compared with the write order of the reference model, every cursor ever given being tried again after every later operation; the scan time slice ending at every clock reading, with every single change between two slices."),
    "P07": dict(suites=[S("history_user"), S("history_cursor")],
        technique="exhaustive exploration of histories on the real daemon, following every history chain",
        note="Every history within the stated depth; HISTORY chains compared with the versions of the reference model."),
    "P08": dict(suites=[S("iso_user"), S("iso_delete"), S("iso_mixed"), S("iso_files")],
        technique=W, note=N),
    "P09": dict(suites=[S("ns_life"), S("ns_detach"), S("ns_flush"), S("ns_names")],
        technique=W, note=N),
    "P10": dict(suites=[S("admin_rights"), S("admin_mirror"), S("admin_none")],
        technique=W, note=N),
    "P11": dict(suites=[S("select_rights"), S("select_toggle")],
        technique=W, note=N),
    "P12": dict(suites=[S("challenges"), S("challenge_replies")],
        technique=W, note=N),
    "P13": dict(suites=[S("worm_user"), S("worm_seq")],
        technique=W, note=N),
    "P14": dict(suites=[S("locks_user"), S("locks_seq"), S("locks_deep")],
        technique=W, note=N),
    "P15": dict(suites=[S("stats_user"), S("quota"), S("quota_seq")],
        technique="exhaustive exploration of histories on the real daemon against a reference accounting",
        note="Every history within the stated depth."),
    "P16": dict(suites=[S("seg_cuts"), S("seg_bytes"), S("seg_race"), S("seg_bounds"), S("seg_pipeline"), S("seg_two"), S("seg_big"), S("crowd")],
        technique="exhaustive exploration of segmentations and arrival points of request streams on the real daemon",
        note="Every way of cutting the request streams into the stated number of chunks, every alignment around the receive buffer, arrival of data at every recv call, every interleaving of two connections' chunks; the reply stream must be identical."),
    "P17": dict(suites=[S(n, asan=True) for n in ("fuzz_tokens", "fuzz_lengths", "fuzz_args_user", "fuzz_args_seq", "fuzz_mutate", "fuzz_cursor", "fuzz_hangup", "fuzz_master", "crowd")],
        technique="exhaustive enumeration of bounded hostile inputs on the real daemon built with AddressSanitizer",
        note="Every sequence of protocol tokens, every command with every argument combination over the stated alphabet, every one-byte mutation of valid requests, every altered cursor, disconnection at every byte; memory errors, exits, stalls, file changes on refused requests and effects on another connection are detected."),
    "P18": dict(suites=[S("slow_reader"), S("slow_pipeline"), S("slow_trickle", asan=True), S("slow_two"), S("slow_two", asan=True, params={"acts": 3})],
        technique="exhaustive exploration of socket acceptance schedules (partial writes, would-block) on the real daemon",
        note="Every pattern of partial acceptances within the stated budget at every send of every request sequence within the depth; the received bytes must be exactly the concatenated replies."),
    "P19": dict(suites=[S("wait_two"), S("wait_one"), S("wait_delete"), S("wait_busy")],
        technique="exhaustive exploration of interleavings of waiting and acting connections and of time steps on the real daemon against a reference model",
        note="Every sequence of WAIT, trigger, other commands, selections, time steps, disconnections and namespace deletions of three connections within the stated depth."),
    "P20": dict(suites=[S("fault_user"), S("fault_full"), S("fault_rotate"), S("fault_rotate_seq"), S("fault_sync"), S("fault_seq"), S("fault_full_seq"), S("fault_ns"), S("fault_full_ns"), S("fault_boot"), S("fault_scan"), S("fault_remove")],
        technique="exhaustive exploration of single file-operation faults at every point of every short history on the real daemon",
        note="Every single fault (error, short write or read, disk full from a point on) at every file operation of every history within the stated depth."),
    "P21": dict(suites=[S("log_user"), S("log_reads"), S("log_files"), S("log_seq"), S("log_rotate"), S("log_rotate_seq"), S("log_seq_reads"), S("log_admin"), S("log_files", params={"jumps": 254}), S("log_files", params={"jumps": 65534}, thorough_only=True, limit=240)],
        technique="exhaustive exploration of histories on the real daemon, decoding the data files after every step",
        note="Every history within the stated depth; after every step each data file must extend its former content and decode to exactly the acknowledged operations."),
    "P22": dict(suites=[S("dirty_user"), S("dirty_seq"), S("dirty_many"), S("dirty_many_seq"), S("dirty_hook"), S("dirty_many", asan=True), S("dirty_user", params={"jumps": 254, "clock": 2147483645}), S("dirty_user", params={"jumps": 65534}, thorough_only=True, limit=240)],
        technique="exhaustive exploration of histories on the real daemon, comparing index files byte by byte after every step",
        note="Every history within the stated depth, starting with 1 to 100 index files (every bitmap boundary up to 65); the reported list must equal the set of files whose former bytes changed."),
    "P23": dict(suites=[S("corrupt_check"), S("corrupt_check_seq"), S("corrupt_tool", tools=("integrity-check",)), S("corrupt_truncated", tools=("integrity-check",)), S("corrupt_many", tools=("integrity-check",)), S("corrupt_history", tools=("integrity-check",)), S("corrupt_fault", tools=("integrity-check",))],
        technique="exhaustive enumeration of corruptions of stored records against the real daemon and tool",
        note="Every byte of every stored checksum and payload of several layouts changed in several ways, every truncation, every short history left intact; answers of CHECK and of the integrity-check tool."),
    "P24": dict(suites=[S(n, tools=("index-rebuild",)) for n in ("rebuild_user", "rebuild_deep", "rebuild_collide", "rebuild_files", "rebuild_seq", "rebuild_seq_files", "rebuild_named", "rebuild_time", "rebuild_crash", "rebuild_fault", "rebuild_over", "rebuild_over_seq")] + [S("rebuild_time", params=dict(clock=3000000000), tools=("index-rebuild",)), S("rebuild_files", params={"jumps": 254}, tools=("index-rebuild",)), S("rebuild_seq_files", params={"jumps": 254, "clock": 2147483645}, tools=("index-rebuild",))],
        technique="exhaustive exploration of histories on the real daemon followed by the real rebuild tool",
        note="Every history within the stated depth, index removed, rebuilt with the real tool, daemon restarted, full comparison with the reference model, further writes and another restart."),
    "P25": dict(suites=[S("lib_user"), S("lib_user", params=dict(small=1)), S("lib_seq"), S("lib_seq", params=dict(small=1))] + [S(n) for n in ("lib_sizes", "lib_ns", "lib_quota", "lib_lock", "lib_fault", "lib_hook")] + [S("lib_user", params=dict(deep=1), asan=True, thorough_only=True), S("lib_seq", asan=True, thorough_only=True), S("lib_ns", asan=True, thorough_only=True)],
        technique="exhaustive exploration of library call histories on the real library, taking turns with the real daemon",
        note="A program linked with the real libzdb on the checker's file system: every sequence of library calls within the stated depth in both modes, with close and reopen (same process, new process, process killed) and a daemon taking over at every position; every key and payload size class; namespaces, limits, hooks, locks, one failing file operation at every point. Each answer and each later read by library and daemon is compared with the reference model."),
    "P26": dict(suites=[S(n) for n in ("hook_events", "hook_rotate", "hook_files", "hook_seq", "hook_flush", "hook_list", "hook_nofork", "hook_many", "hook_ready", "hook_missing")] + [S("hook_dirty", asan=True), S("hook_many", asan=True)],
        technique="exhaustive exploration of command histories and hook outcomes on the real daemon, every process execution recorded and judged",
        note="Every sequence of event-producing commands within the stated depth, with every outcome of each hook (success, failure, cannot be executed, still running, fork refused); each hook call is compared with the documented event and arguments, and every reply with the reference model. Missing data files: every subset restored or not by the hook."),
    "P27": dict(suites=[S(n) for n in ("raw_user", "raw_user_life", "raw_files", "raw_seq", "raw_sizes", "mirror_stream", "mirror_sizes", "mirror_namespaces", "mirror_replica")] + [S("raw_seq", params={"jumps": 254, "clock": 2147483645}), S("raw_seq", params={"jumps": 65534}, thorough_only=True, limit=240), S("raw_user", asan=True, thorough_only=True), S("mirror_stream", asan=True, thorough_only=True)],
        technique="exhaustive exploration of command histories on a real daemon with raw readers, mirror clients and a replica fed from them",
        note="Every sequence of writing commands within the stated depth: every record is read back by DATA RAW at its reported position and compared with the log of the reference model, walking a namespace record by record gives its whole history; every mirrored message is compared with the command executed, and a replica fed with them ends in the same state."),
    "P28": dict(suites=[S(n) for n in ("lock_life", "lock_race", "mode_start", "mode_switch", "foreign_user", "foreign_same")],
        technique="exhaustive exploration of the orders of starts, stops and crashes of two real instances, and of mode histories",
        note="Two instances of the real daemon on one file system: every order of starts, stops, signals and crashes within the depth for every way of sharing directories, and a start of the second at every system call of the start of the first; every recorded mode crossed with every start mode after every short history; every header of every file replaced by one of another program or version."),
    "P29": dict(suites=[S(n) for n in ("mem_user", "mem_visitors", "mem_seq", "mem_ns", "mem_fault", "mem_files", "lib_mem")],
        technique="exhaustive exploration of repeated rounds of commands, visitors, faults and library calls on the real code with its allocations and descriptors counted",
        note="Every round of up to the stated number of steps, executed five times on the real daemon or library: the blocks and bytes allocated by its code and not released, and the descriptors open, after each repetition that left content, settings and connections as they were, are compared and may not grow."),
    "P30": dict(suites=[S(n, tools=("index-dump",)) for n in ("dump_user", "dump_seq", "dump_files", "dump_values", "dump_fault")] + [S(n, tools=("namespace-editor", "namespace-dump")) for n in ("editor_settings", "editor_refused", "editor_fault")] + [S(n, tools=("quick-compaction", "index-rebuild")) for n in ("compact_user", "compact_seq", "compact_files", "compact_names", "compact_fault", "compact_again", "compact_again_seq", "compact_hot", "compact_hot_seq", "compact_hot_files")] + [S("dump_files", params={"jumps": 254, "clock": 2147483645}, tools=("index-dump",)), S("compact_again", params={"jumps": 254}, tools=("quick-compaction", "index-rebuild"))],
        technique="exhaustive exploration of histories and settings on the real daemon followed by the real offline tools, with every single file fault",
        note="Every history and combination of settings within the stated depth, then the real tool on the files left: its output is compared entry by entry with the reference model, the files it writes are served by the real daemon and compared with the model, the files it only reads are compared byte by byte; every file operation failing once."),
    "P31": dict(suites=[S(n, tools=("db-sync",)) for n in ("sync_user", "sync_files", "sync_many", "sync_seq", "sync_refused", "sync_fault", "sync_damaged", "sync_race")] + [S("sync_many", asan=True, tools=("db-sync",)), S("sync_files", params={"jumps": 254, "clock": 2147483645}, tools=("db-sync",))] + [S(n, tools=("db-replicate",)) for n in ("replicate_user", "replicate_race", "replicate_seq", "replicate_fault")] + [S("replicate_race", asan=True, tools=("db-replicate",), thorough_only=True)],
        technique="exhaustive exploration of histories, meanwhile actions and faults of the real utilities running between two real daemons",
        note="The real db-sync and db-replicate between two instances of the real daemon (the client library's calls are answered by exchanging the protocol bytes with the daemons): every history, cut of the list, action of another client between any two commands and single fault within the stated bounds; the target is compared with the source."),
    "P32": dict(suites=[S(n) for n in ("info_counters", "info_commands", "info_slow", "info_fault")],
        technique="exhaustive exploration of request sequences, slow clients, restarts and refused file operations on the real code with its system calls counted",
        note="Every sequence within the stated depth of commands known, unknown and refused, parts of requests, connections, waits, restarts and failing reads and writes is executed on the real daemon; after each step its INFO (and NSINFO) is compared with what its system calls moved, what the clients sent and got, and the clock."),
    "P33": dict(suites=[S(n) for n in ("files_user", "files_seq", "files_quota", "files_option", "files_time", "files_still", "lib_files")] + [S("files_user", params={"sizes": 1}), S("files_seq", params={"sizes": 1})],
        technique="exhaustive exploration of operation sequences and of the passing of time on the real code, comparing the files of each namespace before and after every step",
        note="Every sequence within the stated depth of writes of lengths around what is left in the active file, deletions, refused writes, jumps, reloads, restarts, flushes and waits (idle and under traffic) is executed on the real daemon (and library); after each step the numbers, headers and sizes of all data and index files are compared with what the limit, the clock and the commands prescribe."),
    "P34": dict(suites=[S("away_user"), S("away_user", params={"size": 120}), S("away_seq"), S("away_remove"), S("hook_missing")],
        technique="exhaustive exploration of operation sequences with closed data files taken away and brought back at every point, on the real code",
        note="Every sequence within the stated depth of writes, deletions, jumps, restarts, reloads, data files taken away and brought back is executed on the real daemon; after each step every command is compared with a reference model which knows where each value is stored; with and without a missing-data hook."),
    "P35": dict(suites=[S("ro_user"), S("ro_seq"), S("ro_user", params={"rotate": 1}, thorough_only=True), S("ro_seq", params={"rotate": 1}), S("ro_user", params={"sync": 1}, thorough_only=True), S("ro_empty"), S("ro_crash"), S("ro_crash", params={"size": 1}, thorough_only=True), S("ro_crash_seq"), S("ro_crash_seq", params={"size": 1})],
        technique="exhaustive exploration of operation sequences over file systems which become read-only at every point, on the real code",
        note="The data, the index or both file systems become read-only at every point of every sequence within the stated depth, under a running or a stopped daemon; after each step every command is compared with a reference model, and the files are compared byte for byte; then they become writable again."),
    "P36": dict(suites=[S("options"), S("options_refused"), S("options_net")],
        technique="exhaustive exploration of the combinations of start options on the real program",
        note="Every combination of the start options, in four forms (order, '=', given twice), is given to the real program; what it listens on, where it writes, its modes, rights and limits are compared with what the options say; refused starts are compared with the files byte for byte."),
}
TIMEOUT = {"quick": 600, "thorough": 3000}
