#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
S = "server/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            state=[dict(name=a, meaning=b, where=S+c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=S+b) for a, b in mech],
            observe_at=observe or ["bytes exchanged with clients on the simulated TCP connections"],
            hook_needed=None)))

prop("C01", "Concurrent requests are atomic and linearizable",
 "Whatever the number of concurrent clients and however the server's threads or tasks are scheduled, every request (with all statements of its batch together) takes effect at one single instant between being sent and its response arriving, and all responses are those of executing the requests one after another, in that order, against one typed key-value store. A request answered with a timeout/internal error, or never answered, took effect at most once. No batch is ever seen half done by another client.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of listener, analysis, executor and expiration threads (or tokio tasks), every set of concurrent client histories, arbitrary thread stalls",
 "The unit tests call storage, tokenizer and value types directly on one thread; no test starts a server, a second thread or a second client.",
 ["multithreaded/executor.rs", "multithreaded/analysis.rs", "multithreaded/listener.rs", "async.rs", "analysis/interpreter.rs"],
 [("single executor thread owns the interpreter and drains one mpsc queue", "multithreaded/executor.rs"), ("one executor task owns the interpreter", "async.rs"), ("process_statements runs a whole batch without yielding", "analysis/interpreter.rs")],
 [("interpreter.storage", "the only copy of the data", "multithreaded/executor.rs")])

prop("C02", "Acknowledged values are read back exactly",
 "A value acknowledged as written (set, successful try_set, upd, vset, vpush, mset, mdel, vpop) is what every later read of that key returns - same type, same content, for null, booleans, 64-bit integers, floats, strings with any Unicode text, letter case and escapes, vectors and maps including empty ones - until it is overwritten, modified, deleted or expires. Keys never affect each other, and reads never change anything. This holds in the single-threaded, the multi-threaded and the async server.",
 ["histories", "schedules", "inputs"],
 "every history of acknowledged operations over every value type, on all three servers, over any network timing and thread schedule, with background cleaning running",
 "Existing tests read back a handful of fixed ints and bools from the storage struct; none sends a value through query text, worker threads and an HTTP response and compares.",
 ["analysis/tokenizer.rs", "analysis/parser.rs", "analysis/interpreter.rs", "storage/hashmap_storage.rs", "storage/types.rs", "io/tcp.rs", "io/tcp_async.rs"],
 [("literal tokenizing/parsing", "analysis/parser.rs"), ("HashMapStorage get/set", "storage/hashmap_storage.rs"), ("serde serialisation of InterpreterResponse", "analysis/interpreter.rs")])

prop("C03", "Batches run in order, stop at first failure, failures change nothing",
 "The statements of a request run in the order written and the response is that of the last statement executed (success of an empty query is Null). The first failing statement stops the batch: its error is the response, later statements have no effect, earlier ones stay in effect, and the failing statement itself changes nothing (a type mismatch, bad index or missing key leaves every key, value, container and lifetime as it was). A query whose text cannot be parsed executes none of its statements.",
 ["histories", "programs", "schedules"],
 "every batch of statements with failures at any position, interleaved with other clients' requests and background cleaning, on all three servers",
 "No existing test runs the interpreter at all, let alone multi-statement requests with an error in the middle.",
 ["analysis/interpreter.rs", "analysis/parser.rs", "storage/types.rs", "storage/hashmap_storage.rs", "multithreaded/analysis.rs", "async.rs", "single_threaded.rs"],
 [("process_statements loop", "analysis/interpreter.rs"), ("parse whole query before executing", "multithreaded/analysis.rs"), ("validate_key/validate_value before mutation", "storage/types.rs")])

prop("C04", "Lifetimes are exact for every command",
 "A key written with a lifetime of L seconds is present, with its value, to every command until L seconds (of the server's wall clock) after the write, and from then on is treated as absent by every command - get, try_get, ex, type, del, upd, try_set and all vector and map commands - whether or not background cleaning has physically removed it yet. A key written without a lifetime never expires, and a write replaces the key's previous lifetime by the new one (or by none); modifying an element of a container keeps it.",
 ["histories", "schedules", "configurations"],
 "every history of writes with lifetimes and reads around the deadline, every timing of cleaning relative to the commands, all three servers",
 "The tests contain one already-expired element and never let time pass; cleaning is never run in a test.",
 ["storage/hashmap_storage.rs", "storage/types.rs", "analysis/interpreter.rs"],
 [("is_expired checks on every access path", "storage/hashmap_storage.rs"), ("deadline = now + lifetime", "analysis/interpreter.rs")],
 [("StorageElement.expiration", "absolute deadline", "storage/types.rs")])

prop("C05", "Background cleaning never disturbs live data or any command",
 "Running the expiration policy at any moments, any number of times, between any commands never removes, changes or hides a key that is not expired, never changes the response of any command, never fails or panics, and reports exactly how many entries it removed.",
 ["schedules", "histories"],
 "every interleaving of cleaning passes (and every random choice they make) with every history of set/overwrite/delete/lifetime-change operations",
 "No existing test calls the cleaning policy; its victim is random, and the index bookkeeping only goes wrong after particular multi-step histories.",
 ["storage/hashmap_storage.rs", "multithreaded/expiration.rs", "async.rs", "analysis/interpreter.rs"],
 [("invalidate_expired_keys / check_and_expire / invalidate_key_index", "storage/hashmap_storage.rs"), ("periodic ExpireKeys statements through the executor queue", "multithreaded/expiration.rs")],
 [("expiring_keys", "random-access list of keys with a lifetime", "storage/hashmap_storage.rs"), ("key_index", "position of a key in expiring_keys", "storage/hashmap_storage.rs")],
 ["Interpreter/Storage API under simulated clock and randomness", "client responses"])

prop("C06", "Expired data is eventually reclaimed and counts stay consistent",
 "Once keys have expired, continued cleaning physically removes all of them: the number of stored keys falls to the number of unexpired keys, and in the running multi-threaded and async servers the memory they held is released without any client asking. At every moment the number of keys counted as expiring equals the number of stored keys that have a lifetime.",
 ["histories", "schedules"],
 "every history of writes, overwrites, lifetime changes and deletes followed by enough cleaning passes; running servers left idle after any workload",
 "Existing tests never run cleaning and never observe storage size after expiry.",
 ["storage/hashmap_storage.rs", "multithreaded/expiration.rs", "multithreaded/coordinator.rs", "async.rs"],
 [("ExpirationWorker loop", "multithreaded/expiration.rs"), ("expire_old_keys task", "async.rs"), ("check_and_expire", "storage/hashmap_storage.rs")],
 [("expiring_keys", "must list exactly the stored keys with a lifetime", "storage/hashmap_storage.rs")],
 ["Storage::len / expiring_keys_count", "live heap bytes of the server in the simulator's allocator seam"])

prop("C07", "One well-formed response per request, to its own sender",
 "Every complete request received while the server is running gets exactly one HTTP response on its own connection, after which the connection is closed: a valid status line and headers, a Content-Length equal to the payload, status 200 with the JSON result on success, 422 for command, parse and type errors, 401/403 for authorization/authentication failures, 400 or 500 otherwise. A response never contains the outcome of another request - also when requests time out inside the server and their results arrive late.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of concurrent requests and worker stalls long enough to trigger internal timeouts, every response size",
 "No test opens a connection or produces a response; cross-talk needs late results and particular schedules.",
 ["multithreaded/listener.rs", "multithreaded/executor.rs", "multithreaded/analysis.rs", "io/tcp.rs", "io/tcp_async.rs", "async.rs", "single_threaded.rs", "error.rs"],
 [("a fresh response channel per request", "multithreaded/listener.rs"), ("make_response / get_error_code", "io/tcp.rs")])

prop("C08", "Byte-stream segmentation and delay do not matter",
 "The outcome of a request and the response received do not depend on how TCP splits or delays the bytes: a request whose header or body arrives in any number of pieces, of any size up to hundreds of kilobytes, with header names in any letter case and extra headers, is handled exactly as if it arrived at once, whatever bytes follow it on the connection, and a response of any size arrives complete even if the socket accepts only part of it per write.",
 ["schedules", "fault_sequences", "inputs"],
 "every segmentation and arrival timing of request bytes, every pattern of partial writes and slow readers",
 "There are no tests of the io module; a test on loopback would see one segment per request.",
 ["io/tcp.rs", "io/tcp_async.rs"],
 [("convert_stream_to_request read loop", "io/tcp.rs"), ("convert_stream_to_request read loop", "io/tcp_async.rs"), ("TcpStreamSender::send", "io/tcp.rs")])

prop("C09", "No client input or disconnect harms data or service",
 "Whatever bytes a client sends - malformed or oversized HTTP, absurd Content-Length, wrong method, invalid JSON or UTF-8, any query text including truncated, unterminated or extreme-valued statements - and whenever it closes or resets its connection, no stored data changes except through complete, valid, authorised statements, and the server keeps serving other clients with correct results afterwards. A rejected request that can still be answered gets an error status, never 200.",
 ["inputs", "fault_sequences", "schedules"],
 "every byte string and every disconnect point, repeated and concurrent with well-behaved clients, on all three servers",
 "Tokenizer tests cover five well-formed queries; no test feeds malformed input or drops a connection, and a wedged or dead worker shows only in later requests.",
 ["io/tcp.rs", "io/tcp_async.rs", "analysis/tokenizer.rs", "analysis/parser.rs", "multithreaded/listener.rs", "multithreaded/analysis.rs", "async.rs", "single_threaded.rs"],
 [("errors returned as StreamRequest{request: Err}", "io/tcp.rs"), ("bounds checks is_at_end", "analysis/tokenizer.rs"), ("is_at_end checks", "analysis/parser.rs")])

prop("C10", "Access control holds for every request and schedule",
 "A request takes its identity only from its own headers: without valid credentials (missing, rejected or unknown user) it changes nothing and learns nothing about stored data; a read-only user can never change data; only an administrator can shut the server down. A batch containing any statement its user may not run is rejected as a whole before any of its statements takes effect, also when clients with different rights run concurrently.",
 ["histories", "programs", "schedules"],
 "every mix of users, statements and batch positions, concurrently, on all three servers",
 "Authentication and authorization have no tests at all.",
 ["auth.rs", "analysis/interpreter.rs", "multithreaded/listener.rs", "single_threaded.rs", "async.rs"],
 [("validate_authorization before execution", "analysis/interpreter.rs"), ("authenticate per request", "multithreaded/listener.rs")])

prop("C11", "Only an authorised shutdown stops the server, and it does stop",
 "An executed shutdown statement of an administrator is acknowledged to its sender and the whole server then terminates within bounded time, whatever the thread schedule, load, idle connections or stalled clients at that moment. Nothing else - no rejected or unexecuted shutdown, no other request, error or client behaviour - makes it stop.",
 ["schedules", "fault_sequences", "histories"],
 "every point in the life of the worker pools at which shutdown can arrive, with requests in flight and clients connected; every non-authorised or unreached shutdown",
 "No test starts or stops a server; missed wake-ups and join deadlocks depend on the schedule.",
 ["multithreaded/coordinator.rs", "multithreaded/executor.rs", "multithreaded/listener.rs", "multithreaded/analysis.rs", "multithreaded/expiration.rs", "async.rs", "single_threaded.rs"],
 [("start_shutdown flag polled by Coordinator::serve", "multithreaded/coordinator.rs"), ("stop order listeners, analyzers, expiration, executor", "multithreaded/coordinator.rs"), ("shutdown_flag polled in serve()", "async.rs"), ("shut_down result of handle_request", "single_threaded.rs")],
 observe=["end of the server's main function in simulated time", "client responses"])

prop("C12", "Lifetime queries and updates agree with actual expiry",
 "At the interpreter interface, the remaining lifetime reported for a key is none exactly when it will never expire and otherwise its time to expiry in whole seconds; updating a lifetime re-bases expiry on the moment of the update, removing it makes the key permanent, and both leave the value untouched and fail without effect on absent or expired keys. Extreme lifetimes are rejected or honoured, never a crash.",
 ["histories", "schedules"],
 "every history of writes, lifetime updates/removals, deletes, cleaning passes and passage of time",
 "One test updates a lifetime twice without letting time pass or cleaning run; remaining lifetime is never queried.",
 ["analysis/interpreter.rs", "storage/hashmap_storage.rs"],
 [("get_lifetime/update_expiration", "analysis/interpreter.rs"), ("update_expiration index bookkeeping", "storage/hashmap_storage.rs")],
 observe=["Interpreter::interpret under a simulated clock"])

prop("C13", "Every well-formed request is answered in bounded time",
 "Under any thread or task schedule, with any number of well-behaved concurrent clients and any idle time in between, every complete request is answered within a bounded time, and once workers are no longer stalled the answer is its real result. No worker, queue or lock is ever lost: the last request of a run is served as well as the first.",
 ["schedules", "histories"],
 "every interleaving of the worker pools, bursts of simultaneous connections, pool sizes from one worker up, temporary stalls of any thread",
 "No test runs the worker pools; lost wake-ups, deadlocks and dying workers depend on the interleaving.",
 ["multithreaded/listener.rs", "multithreaded/analysis.rs", "multithreaded/executor.rs", "multithreaded/coordinator.rs", "async.rs"],
 [("try_lock hand-over of the listener between workers", "multithreaded/listener.rs"), ("try_lock/recv_timeout polling", "multithreaded/analysis.rs"), ("recv_timeout on the response channel", "multithreaded/listener.rs")])

prop("C14", "A stalled client cannot hold up the others",
 "A client that connects and then stalls - sending nothing, only part of a request, its bytes in a trickle, never reading its response or reading it in a trickle - without closing delays other clients only for a bounded time, after which they are served normally; this holds for any number of successive stalled clients and on all three servers.",
 ["fault_sequences", "schedules"],
 "every point of a request or response at which a client can stop, several stalled clients, stalls of unlimited duration",
 "No test opens a connection; a stalled peer cannot be produced by unit tests of pure functions.",
 ["io/tcp.rs", "io/tcp_async.rs", "multithreaded/listener.rs", "async.rs", "single_threaded.rs"],
 [("reading the request while holding the shared listener", "multithreaded/listener.rs"), ("blocking read/write on the accepted stream", "io/tcp.rs"), ("await on read/write in the accept loop", "io/tcp_async.rs")])

prop("C15", "Connections and threads are not leaked",
 "After any history of completed, rejected, aborted and failed requests, once clients are gone the server holds no client connection open and runs no more threads than its fixed pools need; each connection is closed as soon as its response has been sent.",
 ["histories", "fault_sequences", "schedules"],
 "every mix of successful, failing and aborted connections, any schedule",
 "Nothing in the tests opens connections or starts worker threads; leaks only show over many requests.",
 ["io/tcp.rs", "io/tcp_async.rs", "multithreaded/listener.rs", "async.rs", "single_threaded.rs"],
 [("TcpStreamSender owns the stream and is dropped after send", "io/tcp.rs"), ("receive threads are joined", "multithreaded/listener.rs")],
 observe=["open socket descriptors and live threads in the simulated kernel"])

prop("C16", "A failing system call affects only its own request",
 "When accepting a connection, or reading from or writing to one, fails (too many files, aborted or reset connection, broken pipe, interruption, partial write), no thread can be started for a while, or the log on standard output cannot be written (full disk, closed pipe), at most that connection's request is lost: it is either executed exactly as sent or not at all, the data stays consistent, and all other clients continue to be served.",
 ["fault_sequences", "schedules"],
 "every placement of accept, read, write, thread creation and log output errors, singly and in bursts",
 "No test exercises I/O; error returns from the kernel cannot be provoked in unit tests.",
 ["io/tcp.rs", "io/tcp_async.rs", "multithreaded/listener.rs", "async.rs", "single_threaded.rs"],
 [("error arms of accept/read/write", "io/tcp.rs"), ("send_response error arm, receiver threads", "multithreaded/listener.rs")])

prop("C17", "Wall-clock steps only move expiry times",
 "When the wall clock jumps forwards or backwards while the server runs, keys without a lifetime and all values are unaffected, keys with a lifetime are present or absent strictly according to whether the current wall clock is before or after their deadline (unless already removed after expiring), and no request fails, hangs or is answered late because of the jump.",
 ["fault_sequences", "histories", "configurations"],
 "every sequence of forward and backward clock jumps between and during requests and cleaning passes",
 "Tests use the real clock, which does not jump.",
 ["analysis/interpreter.rs", "storage/types.rs", "storage/hashmap_storage.rs", "multithreaded/listener.rs"],
 [("SystemTime deadlines", "storage/types.rs"), ("monotonic timeouts", "multithreaded/listener.rs"), ("duration_since error arm", "analysis/interpreter.rs")])

prop("C18", "Token positions and lexemes mirror the query text",
 "For every query text, each token the tokenizer returns carries the position at which it starts and the exact text it was read from.",
 ["inputs"],
 "every query text",
 "Five fixed queries are checked.",
 ["analysis/tokenizer.rs", "analysis/tokens.rs"],
 [("AnnotatedToken construction", "analysis/tokenizer.rs")],
 observe=["Tokenizer iterator output"])

prop("C19", "Memory follows the stored data, not the number of requests",
 "The memory the server uses is determined by the data it stores and the requests in progress. Hundreds of requests that leave the stored data as it was - reads, overwrites, additions that are taken back, keys that are deleted again, refused, failing, unparsable, malformed or aborted requests, from known and unknown users, all different from each other - leave the server's live memory, once they are over, as it was before them up to a small constant. This holds in the single-threaded, the multi-threaded and the async server.",
 ["histories", "fault_sequences", "schedules"],
 "every long sequence of requests of one kind or mixed that leaves the stored data unchanged, from one or several clients, with aborted connections and I/O errors among them",
 "Tests make one or two calls on short-lived objects; what a long-running server keeps per request is invisible to them.",
 ["storage/hashmap_storage.rs", "multithreaded/listener.rs", "multithreaded/analysis.rs", "multithreaded/executor.rs", "async.rs", "single_threaded.rs", "analysis/interpreter.rs", "auth.rs"],
 [("delete and expiry bookkeeping", "storage/hashmap_storage.rs"), ("per-request channels and threads", "multithreaded/listener.rs"), ("per-request tasks and channels", "async.rs")],
 observe=["live heap of the server's threads, counted in the allocator"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
