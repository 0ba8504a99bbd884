#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it can be reviewed and edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

H, I, C, S, F, G = "histories", "inputs", "crash_points", "schedules", "fault_sequences", "configurations"

prop("P01", "A user-key namespace behaves as a map from keys to last-written values",
 "In a user-key namespace, GET, MGET, EXISTS, LENGTH, CHECK and KEYTIME answer for every key exactly according to the last acknowledged SET or DEL of that very key, whatever other keys were written, deleted or overwritten in between, whatever their bytes and lengths (1 to 255), whether or not their hashes collide, and whichever data file holds the payload. "
 "SET answers with the key, or with nil when the stored value is already identical (and then changes nothing); DEL of a live key succeeds once and afterwards the key is missing; oversized (more than 255 bytes) or empty keys are refused with an error and change nothing.",
 [H, I], "every sequence of commands up to a depth over a key alphabet with colliding and boundary-length keys and a value alphabet with equal-length, empty and boundary values, with file jumps at any point",
 "The suite runs a few fixed sequences on distinct short keys; it does not combine overwrite/delete/re-add orders, colliding hashes, key lengths 254-256, and data-file jumps.",
 ["zdbd/commands_set.c", "zdbd/commands_get.c", "zdbd/commands_dataset.c", "libzdb/index.c", "libzdb/index_set.c", "libzdb/index_branch.c", "libzdb/data.c"],
 [("user-key SET", "zdbd/commands_set.c:redis_set_handler_userkey"), ("in-memory index lookup/update", "libzdb/index.c:index_entry_get, libzdb/index_set.c:index_update_memory_handler_memkey, libzdb/index_branch.c"), ("delete", "zdbd/commands_dataset.c:command_del, libzdb/index.c:index_entry_delete"), ("payload read", "libzdb/data.c:data_get")],
 [("index branches", "hash bucket lists from key to (data file, offset, length)")], ["RESP replies"])

prop("P02", "Sequential namespaces hand out fresh increasing ids that keep resolving",
 "In a sequential namespace, a SET with an empty key answers with a new 8-byte little-endian id, strictly greater than every id ever returned before by that namespace, including after deletions, updates, file jumps and clean restarts. "
 "Each id returned keeps resolving to the last value acknowledged for it until it is deleted, and a SET on an id that was never returned, was deleted, or is not 8 bytes long is refused and changes nothing.",
 [H, I], "every sequence of insert / update / delete / get / jump / reload / restart up to a depth, for every id produced so far and for unknown, deleted and ill-sized ids",
 "The suite inserts and reads back a handful of ids in one file; deletes followed by updates, updates across several index files, and restarts in between are not combined.",
 ["zdbd/commands_set.c", "libzdb/index_seq.c", "libzdb/index_set.c", "libzdb/index_get.c", "libzdb/index_loader.c"],
 [("sequential SET", "zdbd/commands_set.c:redis_set_handler_sequential"), ("id to file mapping", "libzdb/index_seq.c:index_fileid_from_seq, index_seqid_push"), ("in-place slot overwrite", "libzdb/index_set.c:index_seq_overwrite, index_update_entry_sequential")],
 [("next id", "next sequential id, rebuilt from the index headers when loading"), ("seqmap", "first id of each index file")], ["RESP replies"])

prop("P03", "A clean restart or RELOAD preserves all data and namespace settings",
 "After a clean stop and start on the same directories, and after RELOAD of a namespace, every key resolves exactly as before (same value, length and timestamp, deleted keys stay deleted), new writes and new sequential ids carry on correctly, and no previously acknowledged data is lost whatever mixture of overwrites, deletions, file jumps and empty files preceded the restart. "
 "Across a restart the set of namespaces and each namespace's password, public flag, size limit, worm flag and mode are those last set, and the entry count is the number of live keys in user-key mode.",
 [H, G], "every operation sequence up to a depth with restart or RELOAD inserted at every position, in both key modes, with several restarts in a row",
 "The suite reopens one directory once and checks that the start succeeds; it never compares the state before and after over different histories.",
 ["libzdb/index_loader.c", "libzdb/namespace.c", "libzdb/bootstrap.c", "libzdb/data.c"],
 [("index replay", "libzdb/index_loader.c:index_load_file, index_internal_load"), ("namespace load", "libzdb/namespace.c:namespace_scanload, namespace_load, namespace_descriptor_load"), ("reload", "libzdb/namespace.c:namespace_reload")],
 [("index files", "i<N>: header then one entry per write, flags updated in place"), ("zdb-namespace", "descriptor with name, password, limits, flags")], ["RESP replies before and after"])

prop("P04", "A process crash never loses or corrupts an acknowledged write",
 "If the daemon process dies at any instant (between any two system calls, or with any write only partly done), the next start succeeds and every write acknowledged before the crash is readable with its exact value, every acknowledged deletion stays deleted, and the one operation in flight has either its old or its new outcome, never a third. "
 "The restarted daemon keeps working: later writes succeed, read back correctly and survive another restart, and the data files are still a log in which every acknowledged operation is found, record after record.",
 [C, H], "every crash point (before, after and part-way through each file mutation) of every operation sequence up to a depth, followed by recovery, further writes, and another restart",
 "Tests kill the daemon only at idle; the interesting instants are between the data append, the in-place index flag and the index append.",
 ["libzdb/data.c", "libzdb/index.c", "libzdb/index_set.c", "libzdb/index_loader.c", "libzdb/namespace.c", "zdbd/commands_set.c", "zdbd/commands_dataset.c"],
 [("append to data file", "libzdb/data.c:data_insert, data_delete"), ("append and in-place flag in the index", "libzdb/index_set.c:index_append_entry_on_disk, index_seq_overwrite; libzdb/index.c:index_entry_delete_disk"), ("load after a crash", "libzdb/index_loader.c:index_load_file")],
 [("data files", "append-only payload log"), ("index files", "append-only, flags and sequential slots overwritten in place")], ["RESP replies after restart"])

prop("P05", "With --sync every acknowledged write survives a power loss",
 "When the daemon runs with --sync, every write acknowledged to a client is durable before the acknowledgement is sent: after a power loss that discards any subset of file content not yet flushed, a restart recovers every acknowledged SET (exact value, including empty ones) and every acknowledged DEL, the data files contain every acknowledged operation, and the operation in flight is old or new.",
 [C, H], "every power-loss point of every operation sequence up to a depth, with every enumerated subset of the unflushed writes (none, all, each prefix, each single write missing, torn last write) surviving",
 "No test can cut power; the tcp suite merely runs with --sync.",
 ["libzdb/data.c", "libzdb/index.c", "libzdb/index_set.c"],
 [("flush after each data write", "libzdb/data.c:data_sync_check, data_write"), ("flush after each index write", "libzdb/index.c:index_sync_check, index_write; libzdb/index_set.c:index_seq_overwrite")],
 None, ["recovered state"])

prop("P06", "SCAN and RSCAN enumerate every live key exactly once in write order",
 "Following SCAN from the start through the cursors it returns until it answers that there is no more data yields each live key of the namespace exactly once, in the order of their last write (in sequential mode: of their ids), with its current size and timestamp, and never a deleted or overwritten entry; RSCAN from the end yields the same keys in the exact reverse order. "
 "This holds wherever file jumps, deletions, overwrites, restarts or the server's scan time slice fall, and a cursor obtained with KEYCUR for a key, or with SCAN or RSCAN, resumes the enumeration right after (SCAN) or right before (RSCAN) the place of that entry, at any later time, even once the key was updated or deleted.",
 [H, I, S], "every history up to a depth (both modes, with jumps, reloads and restarts), every time-slice split of the enumeration, and every starting key",
 "The suite scans one small namespace in a single slice; slicing, multi-file histories and the reverse direction over deleted runs are not covered.",
 ["zdbd/commands_scan.c", "libzdb/index_scan.c", "libzdb/index.c"],
 [("scan loop and time slice", "zdbd/commands_scan.c:command_scan, command_rscan"), ("entry walk", "libzdb/index_scan.c:index_next_header, index_previous_header, index_first_header, index_last_header"), ("cursor", "libzdb/index.c:index_entry_serialize, index_entry_deserialize; zdbd/commands_scan.c:command_keycur")],
 None, ["RESP replies"])

prop("P07", "HISTORY lists all retained versions of a key, newest first",
 "For a live user key, HISTORY without cursor returns the current value with its timestamp, and following the returned cursors yields every earlier acknowledged value written since the key was last (re)created, each exactly once, newest to oldest, with its own payload and timestamp, ending with no cursor; a cursor obtained for one key is refused for another. "
 "This holds whatever other keys, file jumps, deletions and restarts are interleaved; on a missing key the command answers an error.",
 [H], "every history up to a depth over few keys with overwrites, deletions, jumps and restarts, walking the full chain after each",
 "The suite checks one key with three values in one file.",
 ["zdbd/commands_history.c", "libzdb/index_set.c", "libzdb/index.c"],
 [("history walk", "zdbd/commands_history.c:command_history, history_send"), ("parent links", "libzdb/index_set.c:index_item_from_set, index_update_entry_memkey")],
 None, ["RESP replies"])

prop("P08", "Namespaces are isolated from each other",
 "No command issued while one namespace is selected can read, change, create, delete or count any key of another namespace, even when both hold the same keys or keys with equal hashes; deleting, flushing, reloading or switching the mode of a namespace leaves every other namespace's keys, values, statistics and settings untouched.",
 [H, S], "every interleaving up to a depth of commands from two clients on two or three namespaces sharing identical and hash-colliding keys, including namespace deletion, reload, flush and mode change",
 "The suite uses namespaces one after the other with different keys.",
 ["libzdb/namespace.c", "libzdb/index_branch.c", "libzdb/index.c", "zdbd/commands_namespace.c"],
 [("shared hash buckets filtered by namespace", "libzdb/index.c:index_entry_get, index_clean_namespace; libzdb/index_branch.c"), ("per-namespace directories", "libzdb/namespace.c:namespace_load")],
 [("index branches", "one global bucket table shared by all namespaces")], ["RESP replies"])

prop("P09", "Namespace creation, selection, listing and deletion are consistent",
 "NSNEW creates an empty public namespace or fails without effect when the name exists or is not valid; NSLIST lists exactly the existing namespaces; SELECT and NSINFO succeed exactly on existing ones; NSDEL removes a namespace with its files for good (a re-created one starts empty, also after restart) and is refused for the default one and the one in use by the caller. "
 "Any other connection that had a deleted namespace selected gets an error for its next command instead of touching another namespace, and no name reaches outside the configured directories; FLUSH empties a password-protected private namespace only, for good.",
 [H, S, I], "every sequence up to a depth of lifecycle commands from two clients over several valid, duplicate and hostile names, with restarts",
 "The suite creates and deletes a few names with a single connection.",
 ["libzdb/namespace.c", "zdbd/commands_namespace.c", "libzdb/filesystem.c", "zdbd/redis.c"],
 [("create/delete", "libzdb/namespace.c:namespace_create, namespace_delete, namespace_valid_name"), ("detach other clients", "zdbd/redis.c:redis_detach_clients"), ("flush", "libzdb/namespace.c:namespace_flush; libzdb/filesystem.c:zdb_dir_clean_payload")],
 [("nsroot", "namespace slots, reused after deletion")], ["RESP replies", "directory content"])

prop("P10", "Admin-only commands need the admin password when one is set",
 "When the daemon runs with an admin password, a connection that has not authenticated with exactly that password is refused, without any effect, for every administrative command (NSNEW, NSDEL, NSSET, NSJUMP, RELOAD, HOOKS, INDEX, DATA RAW, MIRROR and MASTER, and SET or DEL with an explicit timestamp), and NSINFO never shows it passwords or paths; authentication of one connection never authorizes another. "
 "AUTH succeeds only for the exact password (or the matching challenge response), and when no admin password is set every connection is administrative.",
 [H, I, S], "every administrative command, alone and after every sequence up to a depth of AUTH attempts (wrong, prefix, extended, empty, secure, replayed) on two connections, in each password configuration",
 "The auth suite tries a few commands once; it does not cross all commands with all authentication histories and near-miss passwords.",
 ["zdbd/commands.c", "zdbd/commands_auth.c", "zdbd/auth.c", "zdbd/commands_namespace.c", "zdbd/commands_system.c", "zdbd/commands_replicate.c"],
 [("admin gate", "zdbd/commands.c:command_admin_authorized"), ("password check", "zdbd/auth.c:zdbd_password_check; zdbd/commands_auth.c")],
 [("client admin flag", "per connection")], ["RESP replies", "state probe by an admin connection"])

prop("P11", "Namespace password, public flag and write protection are enforced",
 "A connection obtains a private password-protected namespace only with its exact password; a public password-protected namespace is obtained read-only without password and read-write with the exact password; a wrong password is refused and leaves the previous selection and rights unchanged. "
 "On a read-only selection every command that modifies data is refused and changes nothing, and the same holds for the default namespace when the daemon protects it.",
 [H, G, I], "every configuration (password set or not, public or not, protect or not) crossed with every SELECT variant (none, exact, prefix, extended, empty, secure) and every sequence of modifying commands up to a depth",
 "The suite selects two namespaces with right and wrong passwords but does not enumerate the configurations, transitions or near-miss passwords.",
 ["zdbd/commands_namespace.c", "zdbd/commands_set.c", "zdbd/commands_dataset.c", "zdbd/redis.c"],
 [("SELECT", "zdbd/commands_namespace.c:command_select"), ("writable flag", "zdbd/commands_set.c:command_set; zdbd/commands_dataset.c:command_del"), ("initial rights", "zdbd/redis.c:socket_client_new")],
 [("client writable flag", "per connection, per selection")], ["RESP replies"])

prop("P12", "Authentication challenges are per connection and single use",
 "A challenge issued to a connection authorizes only that connection, only with the response computed from that challenge and the right password, and only once: after any secure authentication attempt (for the server or for the selection of a password-protected namespace) with a well-formed response, right or wrong, the same response is refused, and without a pending challenge every secure attempt is refused. "
 "Requesting a new challenge invalidates the former one.",
 [H, S, I], "every interleaving up to a depth of challenge requests and secure attempts (right, wrong, replayed, from the other connection) on two connections",
 "The suite performs one challenge and one secure login.",
 ["zdbd/commands_auth.c", "zdbd/commands_namespace.c", "libzdb/security.c"],
 [("challenge and secure login", "zdbd/commands_auth.c:command_auth_challenge, command_auth_secure"), ("secure SELECT", "zdbd/commands_namespace.c:command_select")],
 [("nonce", "pending challenge of the connection")], ["RESP replies"])

prop("P13", "A WORM namespace never loses or alters a stored value",
 "While a namespace has the worm flag, no command by any connection can change or delete an existing value: SET on an existing key with different content, DEL and FLUSH are refused, new keys remain accepted, and everything stored before stays readable, also across restart and RELOAD (the flag is persistent). "
 "In sequential mode updates of existing ids are refused as well.",
 [H, G], "every sequence up to a depth of SET (same, different content), DEL, FLUSH, worm toggles, reload and restart, in both modes",
 "The suite refuses one overwrite and one deletion in user-key mode.",
 ["zdbd/commands_set.c", "zdbd/commands_dataset.c", "zdbd/commands_namespace.c"],
 [("worm gate", "zdbd/commands_set.c:command_set; zdbd/commands_dataset.c:command_del; zdbd/commands_namespace.c:command_flush")],
 None, ["RESP replies"])

prop("P14", "Locked namespaces refuse writes, frozen ones refuse reads and writes",
 "While a namespace is locked every modification of its data by any connection is refused with the lock error and changes nothing, while reads go on; while it is frozen every data read, listing and write by the data commands (GET, MGET, EXISTS, LENGTH, CHECK, KEYTIME, SCAN, RSCAN, KSCAN, KEYCUR, HISTORY, SET, DEL, FLUSH, with or without a cursor obtained earlier) is refused with the freeze error. "
 "Unlocking or unfreezing restores exactly the state before, and lock and freeze of one namespace do not affect others.",
 [H, S], "every data command in every lock state reached by sequences up to a depth of NSSET lock/freeze changes, from two connections",
 "The suite locks once and tries a SET and a GET.",
 ["zdbd/commands_namespace.c", "zdbd/commands.c", "zdbd/commands_set.c", "zdbd/commands_get.c", "zdbd/commands_dataset.c", "zdbd/commands_scan.c", "zdbd/commands_history.c", "libzdb/namespace.c"],
 [("lock state", "libzdb/namespace.c:namespace_lock, namespace_freeze, namespace_is_locked, namespace_is_frozen")],
 None, ["RESP replies"])

prop("P15", "The size quota is never exceeded and the accounting is exact",
 "The live payload bytes of a namespace with a size limit, in either key mode, never grow beyond that limit: a SET that would exceed it is refused and changes nothing, one that fits (taking into account the value it replaces) is accepted, and deletions give their space back. "
 "Entry count and data size reported by NSINFO and DBSIZE equal the number of live keys (or ids) and the sum of their payload lengths after every operation, failed ones included, and after a reload or restart.",
 [H, G], "every sequence up to a depth of inserts, overwrites (longer, shorter, equal), deletions, limit changes, reloads and restarts around the limit",
 "The suite tests one refusal; overwrites near the limit and accounting after failed or repeated operations are not enumerated.",
 ["zdbd/commands_set.c", "libzdb/index_set.c", "libzdb/index.c", "libzdb/index_loader.c", "zdbd/commands_namespace.c"],
 [("quota", "zdbd/commands_set.c:command_set"), ("accounting", "libzdb/index_set.c:index_insert_memory_handler_memkey, index_update_memory_handler_memkey; libzdb/index.c:index_entry_delete_memory; libzdb/index_loader.c")],
 [("index stats", "entries, datasize, size")], ["NSINFO, DBSIZE replies"])

prop("P16", "Replies do not depend on how requests are cut into packets",
 "Any well-formed sequence of requests on a connection yields the same sequence of replies, in order, one per request, whatever way the byte stream is split into received chunks, however many requests are pipelined, wherever chunk or buffer boundaries fall, and however other connections' traffic is interleaved. "
 "Payloads are binary-safe and up to 8 MB; no complete request is left unanswered while the connection is idle (a connection which sent WAIT sends nothing more until that is answered).",
 [S, I], "every segmentation of pipelined request streams into up to three or four chunks (every cut position), buffer-boundary alignments around the receive buffer size, and every interleaving of chunks of two connections",
 "The suite sends complete requests through a client library; splits at each byte, and requests that end exactly on the buffer boundary, are never produced.",
 ["zdbd/redis.c", "zdbd/socket_epoll.c"],
 [("incremental parser", "zdbd/redis.c:redis_chunk_read, redis_handle_resp_header, redis_handle_resp_payload, redis_handle_resp_finished, buffer_shift"), ("event loop", "zdbd/socket_epoll.c:socket_event")],
 [("request state machine", "per connection parse state")], ["bytes sent back"])

prop("P17", "No input on a connection can crash, corrupt or stall the server",
 "Whatever bytes a connection sends (malformed framing, absurd counts and lengths, negative numbers, missing terminators, unknown commands, wrong argument counts, over-long or empty arguments, premature disconnection), the daemon neither crashes nor touches memory outside its buffers nor loops, stored data is unchanged by requests that are answered with an error, and other connections keep being served correctly. "
 "The offending connection gets an error reply and/or is closed.",
 [I, S], "every byte string up to a length over a protocol alphabet, every single-token mutation of valid requests, every command with 0 to 5 arguments from an argument alphabet, and disconnection at every point, under memory-error detection",
 "The suite sends a dozen malformed requests, without memory checking.",
 ["zdbd/redis.c", "zdbd/commands.c", "zdbd/socket_epoll.c"],
 [("parser limits", "zdbd/redis.c:redis_handle_resp_empty, redis_handle_resp_header, redis_handle_resp_payload"), ("argument validation", "zdbd/commands.c:command_args_validate")],
 None, ["process survival (AddressSanitizer build)", "RESP replies on a second connection"])

prop("P18", "Reply streams stay intact when the client reads slowly",
 "The bytes a connection receives are exactly the concatenation of its replies, in request order, whatever amounts the socket accepts at each write (partial writes, would-block at any point, for any number of times) and however often it becomes writable again; nothing is lost, duplicated or reordered and everything is eventually sent once the client reads. "
 "A connection that is closed with replies pending does not disturb the others.",
 [S, F], "every pattern of partial and refused writes over the reply bytes of request sequences up to a depth, on one and two connections, with disconnection at every point",
 "Local sockets with small replies never block in the tests.",
 ["zdbd/redis.c", "zdbd/socket_epoll.c"],
 [("delayed write queue", "zdbd/redis.c:redis_send_response, redis_delayed_write, redis_reply_heap, redis_reply_stack"), ("writable event", "zdbd/socket_epoll.c:socket_event")],
 [("response queue", "per connection pending responses")], ["bytes accepted by the socket"])

prop("P19", "WAIT is released by exactly the awaited command or its timeout",
 "A connection in WAIT, which itself sends nothing meanwhile, gets exactly one reply: the command name as soon as any connection (another one) executes the awaited command (or any command, for the wildcard) on the same namespace, or a timeout error no earlier than the requested delay and promptly after it (at the next idle moment of the daemon, and at least every hundred events when it is never idle); commands on other namespaces and other commands do not release it. "
 "Several waiters are all released, disconnection or namespace deletion of waiters or triggers is harmless, and after the reply the connection works normally.",
 [S, H], "every interleaving up to a depth of WAITs (specific, wildcard, several timeouts), triggering and non-triggering commands on two namespaces, clock advances and disconnections, over three connections",
 "The suite has one waiter and one trigger, depending on real time.",
 ["zdbd/commands.c", "zdbd/redis.c"],
 [("WAIT", "zdbd/commands.c:command_wait"), ("watcher notification", "zdbd/redis.c:redis_posthandler_client, redis_watch_timeout")],
 [("watching", "awaited handler and deadline per connection")], ["RESP replies"])

prop("P20", "A failing disk operation never corrupts previously stored data",
 "When any file operation fails or is cut short (no space, I/O error, short write), the command at hand is answered with an error or a correct result, the daemon survives, every other key keeps its value, and after the fault has gone away the daemon (or its next start) serves all acknowledged data correctly and accepts new writes. A failed read never ends a SCAN or RSCAN listing early nor drops an entry from it, and a fault while the daemon starts never costs a namespace its content or settings (password, access, limits), on disk or as served.",
 [F, H], "every single fault (error or short count) at every file operation of every sequence up to a depth, followed by full verification, further writes and a restart; pairs of faults in the thorough tier",
 "No test injects an I/O error.",
 ["libzdb/data.c", "libzdb/index.c", "libzdb/index_set.c", "libzdb/namespace.c", "zdbd/commands_set.c", "zdbd/commands_dataset.c"],
 [("write error paths", "libzdb/data.c:data_write, data_insert; libzdb/index.c:index_write"), ("callers", "zdbd/commands_set.c; zdbd/commands_dataset.c:command_del")],
 None, ["RESP replies", "state after restart"])

prop("P21", "The data log is append-only and complete",
 "No command other than namespace deletion and flush ever changes or removes a byte already written to a data file, not even across restarts, reloads and file jumps; each accepted write or deletion appends exactly one self-describing record (key, payload, checksum, timestamp, link to the previous record of the same file), so that the data files alone record every acknowledged operation in order.",
 [H], "every operation sequence up to a depth in both modes with jumps, reloads, restarts; after each step the former content must be a prefix of the new content and the new records must decode to the acknowledged operations",
 "Tests never look at the data files.",
 ["libzdb/data.c", "libzdb/data.h"],
 [("append", "libzdb/data.c:data_insert, data_delete"), ("new file", "libzdb/data.c:data_jump_next, data_initialize")],
 [("data file", "header followed by records")], ["data file bytes"])

prop("P22", "INDEX DIRTY reports every index file modified in place since the last reset",
 "INDEX DIRTY lists the identifier of every index file of the namespace whose already written content was modified in place (deletion or overwrite of an older entry) since the last reset or, when later, since the namespace was loaded (start, RELOAD), and lists each at most once; files that were only appended to or never touched are not listed. "
 "INDEX DIRTY RESET empties the list, and so does a jump whose jump-index hook, which receives it, succeeds.",
 [H], "every history up to a depth over several index files, comparing the reported list with a byte comparison of the files since the last reset",
 "The suite only calls the command once.",
 ["zdbd/commands_system.c", "libzdb/index.c"],
 [("dirty bitmap", "libzdb/index.c:index_dirty_set, index_dirty_resize, index_dirty_list"), ("report", "zdbd/commands_system.c:command_index_dirty")],
 [("dirty map", "one bit per index file")], ["RESP replies", "index file bytes"])

prop("P23", "Corruption of stored payloads is always detected",
 "CHECK answers positively for an intact value and negatively whenever a single byte, or any burst of up to four consecutive bytes, of its stored payload or of its stored checksum has changed on disk, and the integrity-check tool reports success when every record of a data file is intact and an error when payload or checksum bytes of any number of records have changed that way or the file is cut within a record; a file it could not read to its end is never reported intact.",
 [I, F], "every single-bit (and every adjacent double-byte) change at every position of the stored payloads and checksums of data files of several shapes",
 "The suite only checks intact values.",
 ["libzdb/data.c", "libzdb/crc32.c", "zdbd/commands_dataset.c", "tools/integrity-check/integrity-check.c"],
 [("CHECK", "libzdb/data.c:data_check_real"), ("checksum", "libzdb/crc32.c"), ("tool", "tools/integrity-check/integrity-check.c:data_integrity")],
 None, ["RESP replies", "tool exit status"])

prop("P24", "The index can be rebuilt from the data files alone",
 "Running the index-rebuild tool on the data files of a user-key namespace whose index is lost produces index files with which the daemon serves exactly the same live keys, values and timestamps as before, deleted keys staying deleted, whatever history of overwrites, deletions, file jumps and (in user-key mode) crashes produced the data files; with a time limit (--time) the rebuilt index answers as the namespace did at that moment; sequential namespaces resolve every id again. When a file operation fails during the rebuild, the tool ends with an error unless the index is complete, and the data files are never modified; an index which is already there is not mixed up with the rebuilt one.",
 [H], "every history up to a depth, then drop of the index, rebuild with the real tool, restart and full comparison",
 "No test runs the tool.",
 ["tools/index-rebuild/index-rebuild.c", "libzdb/index_set.c", "libzdb/index_loader.c", "libzdb/data.c"],
 [("rebuild", "tools/index-rebuild/index-rebuild.c:index_rebuild_pass, index_rebuild")],
 None, ["RESP replies after rebuild"])

prop("P25", "The embedding library API gives the same guarantees as the daemon",
 "Through the library (open, set, get, exists, check, delete, close), each namespace is a map from keys to last-written values in user-key mode and an id allocator in sequential mode, with the same results across clean close and reopen, and data written through the library is served identically by the daemon and conversely.",
 [H, G], "every sequence of library calls up to a depth in both modes, with reopen and daemon hand-over at every position",
 "The repository has an example program but no test of the library interface.",
 ["libzdb/api.c", "libzdb/bootstrap.c", "libzdb/libzdb.c"],
 [("API", "libzdb/api.c:zdb_api_set, zdb_api_get, zdb_api_exists, zdb_api_check, zdb_api_del"), ("open/close", "libzdb/bootstrap.c:zdb_open, zdb_close")],
 None, ["API return values"])

prop("P26", "The hook is executed at each documented event with its documented arguments",
 "When a hook is configured, each documented event (instance start, its graceful end by a signal, its crash by a fault, namespaces initialised, namespace created, updated, reloaded, deleted, closing, data and index file jumps, missing data file) runs the hook exactly once with the documented arguments, and no hook runs otherwise; a failing or slow hook never makes a command fail or lose data. "
 "A data file that was moved away is fetched through the missing-data hook on read and the value is then served, and if the hook cannot restore it the read answers an error while every other key is still served.",
 [H, F], "every sequence up to a depth of event-producing commands with every hook outcome (success, failure, never finishing) and data files missing or restored by the hook",
 "The suite runs with /bin/true as hook and never looks at the calls.",
 ["libzdb/hook.c", "libzdb/namespace.c", "libzdb/index.c", "libzdb/data.c", "libzdb/bootstrap.c"],
 [("hook execution", "libzdb/hook.c:hook_execute, hook_execute_wait, libzdb_hooks_cleanup"), ("missing data", "libzdb/data.c:data_open_notfound_hook")],
 [("running hooks", "table of child processes")], ["recorded fork/exec calls", "RESP replies"])

prop("P27", "Replication channels carry every operation completely and in order",
 "DATA RAW walked from the first offset of each data file returns every stored record with its exact key, payload, timestamp and deletion mark, in order, and then the end of file; replaying them on an empty instance gives the same keys and values. "
 "A connection in MIRROR mode receives every later executed command of other connections, complete and in execution order, each with its namespace, and its disconnection harms nobody.",
 [H, S], "every history up to a depth, walked record by record and replayed on a second instance; every interleaving of commands of two connections with one mirror, its attachment and its disconnection",
 "No test uses MIRROR or DATA RAW beyond argument errors.",
 ["zdbd/commands_system.c", "zdbd/commands_replicate.c", "zdbd/redis.c", "libzdb/data.c"],
 [("raw read", "zdbd/commands_system.c:command_data_raw; libzdb/data.c:data_raw_get"), ("mirror", "zdbd/redis.c:redis_mirror_client, redis_posthandler_client")],
 None, ["RESP replies", "mirror stream"])

prop("P28", "Directories are used by one instance at a time and only in their own mode",
 "While an instance runs on a data or index directory, a second instance on the same directories refuses to start and alters nothing; after the first one stops or dies the directories can be opened again. "
 "A namespace keeps the mode it was created in: starting or switching with an incompatible mode is refused without altering stored data, and the mode can be switched only while the namespace has never been written. Index files and namespace descriptors of another program or version are never served nor altered, and one directory is never used for both data and index.",
 [G, C, H], "every order of starts, stops and crashes of two instances sharing none, one or both directories, and every start mode crossed with every recorded mode and history",
 "The suite starts once with a wrong mode and ignores the result.",
 ["libzdb/bootstrap.c", "libzdb/index_loader.c", "libzdb/namespace.c", "zdbd/commands_namespace.c"],
 [("directory lock", "libzdb/bootstrap.c:zdb_lock"), ("mode check", "libzdb/index_loader.c:index_descriptor_validate, index_switch_mode; zdbd/commands_namespace.c:command_nsset_mode; libzdb/namespace.c:namespace_is_fresh")],
 None, ["exit status", "directory content"])

prop("P29", "Memory and descriptors held do not grow with traffic",
 "Requests, answered or refused, connections opened and closed in any state, namespaces created and deleted, passwords changed, reloads, hooks which ended, and operations which failed on a file do not make the daemon or the library hold more memory or more open descriptors: as long as the stored content, the settings and the open connections are the same, repeating them any number of times leaves the same amount of both.",
 [H, F], "every round of up to a few commands, visitors, file faults or library calls, repeated: what is held after each repetition with equal content is compared",
 "The suite never measures the memory or the descriptors of the server; a leak of some bytes per request is invisible in a run of some hundred requests.",
 ["zdbd/redis.c", "zdbd/commands_*.c", "libzdb/namespace.c", "libzdb/hook.c", "libzdb/index.c", "libzdb/data.c", "libzdb/api.c"],
 [("connections", "zdbd/redis.c:socket_client_new, socket_client_free, redis_free_pending"), ("namespaces", "libzdb/namespace.c:namespace_create, namespace_free; zdbd/commands_namespace.c"), ("hooks", "libzdb/hook.c:hook_free, libzdb_hooks_cleanup"), ("files", "libzdb/data.c:data_open_id, data_destroy; libzdb/index.c")],
 None, ["blocks and bytes allocated and not released", "open descriptors"])

prop("P30", "Offline tools report, edit and compact a namespace faithfully",
 "index-dump lists exactly the entries of an index file (keys, sizes, positions, deletion flags) and namespace-dump the settings the server stored, and neither changes anything. namespace-editor stores exactly the settings requested (options not given take their defaults), as the server then applies them; a request it refuses, or which fails, changes nothing and ends with an error. quick-compact writes a copy from which the server serves the same live keys, values and settings as from the original (also once its index is rebuilt, in user-key mode), without the payloads of deleted or overwritten entries; it never modifies the original, also gives a right copy where a former one of the namespace is already, can be run beside the server, which goes on with the copy, its clients still connected, once told to RELOAD the namespace, and ends with an error when it could not do its work.",
 [H, F], "every short history, settings combination and single file fault, the real tool run on its files, its output and files compared with the reference model and with the server started on them",
 "No test runs any tool.",
 ["tools/index-dump/index-dump.c", "tools/namespace-dump/namespace-dump.c", "tools/namespace-editor/namespace-editor.c", "tools/quick-compaction/quick-compact.c", "libzdb/namespace.c", "libzdb/index_loader.c"],
 [("dump", "tools/index-dump/index-dump.c; tools/namespace-dump/namespace-dump.c"), ("editor", "tools/namespace-editor/namespace-editor.c"), ("compaction", "tools/quick-compaction/quick-compact.c")],
 None, ["tool output and exit status", "files written", "RESP replies of the server started on them"])

prop("P31", "The replication utilities copy every key of the source, or fail",
 "db-sync gives the target every key of the source's default namespace with the same payload, whatever the bytes of keys and payloads, their number and the way the source cuts its list, and leaves the other keys of the target and the whole source as they were. db-replicate does the same, then keeps running: every key set on the source, also during the first copy or another transfer, has reached the target once it waits again. Neither ever gives the target a payload which the source did not hold for this key, also when keys change or disappear meanwhile, and neither reports success, or goes on, when a key could not be read from the source or was not accepted by the target (refusal, failure, damage, lost connection).",
 [H, C, F], "every short history of the source, contents of the target, cut of the list, action of another client and fault at every command, the real utility run between two real servers and the target compared with the source",
 "No test runs any utility.",
 ["utilities/db-sync/db-sync.c", "utilities/db-replicate/db-replicate.c", "zdbd/commands_scan.c", "zdbd/commands_wait.c"],
 [("copy", "utilities/db-sync/db-sync.c:synchronize, fetchsync"), ("replication", "utilities/db-replicate/db-replicate.c:replicate, synchronize, replicate_from_reply, fetchsync")],
 None, ["content of the target", "exit status", "files of the source"])

prop("P32", "INFO counts what the server did since it started",
 "At any moment INFO tells, since this start of the server and for all connections together: how many known commands it executed (INFO included), how many requests named no command, how many it refused for lack of administrator rights, how many connections it accepted, how many bytes it received and sent on them (also when a client takes or sends only parts), how many bytes it wrote to the data files and to the index files, how many bytes of payload it read, how many writes to these files and reads of payloads the system refused, when it started and for how long it has been running. All start again from zero with the server. NSINFO counts the writes refused for its namespace in the same way.",
 [H, F], "every sequence of a few commands (known, unknown, refused), request parts, slow readers, connections, waits, restarts and refused file operations; after each step INFO is compared with the counted system calls",
 "The suite reads INFO once and looks for no value in it; monitoring relies on all of them.",
 ["zdbd/commands_system.c", "zdbd/commands.c", "zdbd/redis.c", "libzdb/data.c", "libzdb/index.c"],
 [("report", "zdbd/commands_system.c:command_info"), ("commands", "zdbd/commands.c:redis_dispatcher, command_admin_authorized"), ("network", "zdbd/redis.c:redis_send_response, resp_read, socket_client_new"), ("files", "libzdb/data.c:data_write, data_get_real, data_check_real; libzdb/index.c:index_write")],
 None, ["INFO and NSINFO replies"])

prop("P33", "Files end at --datasize, by --rotate or by NSJUMP, and only then",
 "A value that would bring the active data file beyond --datasize (size of the file plus length of the value, the header of the record not counted) is stored in a new file, any other value in the active file; with --rotate N, the active files of every namespace written to since they were begun (or loaded) are ended once more than N seconds have passed, the server being idle or busy; NSJUMP ends them at once. Nothing else does: not reads, refused or unchanged writes, deletions, restarts, reloads, other namespaces or, without --rotate, time. Each time the data file and the index file of that namespace go together to the next number, so that numbers have no gap and every file carries its own number. A --datasize below 512 KB, from 4 GB on or malformed is refused at start, and units (k, M, G, T) are honoured. A program using the library gets the same limit.",
 [H], "every sequence of a few writes of lengths around the room left, deletions, refused and unchanged writes, jumps, reloads, restarts, flushes and waits; files compared after each step",
 "The suite never looks at the files nor fills one.",
 ["zdbd/commands_set.c", "zdbd/redis.c", "zdbd/zdbd.c", "libzdb/api.c", "libzdb/namespace.c", "libzdb/data.c", "libzdb/index.c"],
 [("size", "zdbd/commands_set.c:command_set; libzdb/api.c:zdb_api_set"), ("time", "zdbd/redis.c:redis_files_rotate, redis_idle_process"), ("jump", "libzdb/namespace.c:namespace_jump; libzdb/data.c:data_jump_create; libzdb/index.c:index_jump_next")],
 None, ["data and index files", "exit status"])
prop("P34", "With closed data files away, everything but their payloads is served",
 "Any data file of a namespace except the active one may be moved away at any time. The server keeps running, starts and reloads; EXISTS, LENGTH, KEYTIME, SCAN, RSCAN, KSCAN, DBSIZE, DEL, new values and updates work on every key as if the file was there; a read of a payload that is away answers an error, never another value or 'not found', unless the missing-data hook brings the file back; values of other files are served. A missing file is never created by the server. Once the files are back everything is served as if they had never left. A namespace with files away can be flushed and deleted.",
 [H, F], "every sequence of a few writes, deletions, jumps, restarts, reloads and data files taken away or brought back, in both modes, with all hook outcomes",
 "No test removes a data file.",
 ["libzdb/data.c", "libzdb/index_loader.c", "zdbd/commands_get.c", "zdbd/commands_set.c", "zdbd/commands_dataset.c"],
 [("opening another file", "libzdb/data.c:data_open_id, data_get_real"), ("deletion", "zdbd/commands_dataset.c:command_del; libzdb/data.c:data_delete"), ("update", "zdbd/commands_set.c:data_compare_matching")],
 None, ["RESP replies", "data directory"])

prop("P35", "On read-only file systems existing data is served and nothing is written",
 "When the file system of the data, of the index or both is read-only, from before the start or from any moment under a running server, the server starts, keeps running and reloads, whatever the way it was stopped before, and answers every read of every namespace as before. Each command which needs to write answers an error and has no effect, then or after any restart; no byte of the read-only files changes. After a crash at any point of a write, the values of all keys are served from the read-only file systems like from writable ones (a new file left without its header may prevent the start, and a listing may show what the interrupted write left). With nothing to serve yet the server refuses to start with a message, without a crash. Once the file systems are writable again the server serves the same data and accepts writes again after a restart.",
 [H, F], "every sequence of a few operations, the moment and the part of the storage which becomes read-only, every way to stop",
 "No test has a read-only file system.",
 ["libzdb/namespace.c", "libzdb/index_loader.c", "libzdb/data.c", "libzdb/bootstrap.c"],
 [("opening", "libzdb/index_loader.c:index_try_rootindex; libzdb/data.c:data_open_final; libzdb/namespace.c:namespace_descriptor_open"), ("writes", "libzdb/data.c:data_insert; libzdb/index_set.c"), ("files of a jump", "libzdb/namespace.c:namespace_jump")],
 None, ["RESP replies", "exit status", "data and index directories"])

prop("P36", "Start options mean what they say, and a refused start leaves no trace",
 "Whatever the combination, the order and the form of its start options (the last one counts when one is repeated), the server keeps its files below the directories of --data and --index and nowhere else, listens exactly where --socket, --listen, --port and --dualnet say (the unix socket replaces the TCP one unless both are asked for) and serves commands there, runs the namespaces in the mode of --mode, gives admin rights only with the password of --admin when there is one, protects the default namespace with it under --protect, and limits the default namespace (no other) to --maxsize. A start with an unknown or incomplete option, an invalid mode or size, the same directory twice, or --protect without --admin ends with an error before anything is created or changed; --version ends with success likewise. When the network refuses the addresses the server ends with an error without telling the hook it is ready; another server which is running goes on, and the data is intact at the next start.",
 [F], "every combination of the options and four forms of the command line; every refused option in two places; each network call failing",
 "The tests start the server with a single fixed command line.",
 ["zdbd/zdbd.c", "zdbd/redis.c", "libzdb/bootstrap.c", "libzdb/libzdb.c"],
 [("options", "zdbd/zdbd.c:main, proceed"), ("listening", "zdbd/redis.c:redis_listen, redis_socket_init"), ("directories", "libzdb/bootstrap.c:zdb_open")],
 None, ["exit status", "listening sockets", "RESP replies", "files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
