#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: "
COMMON = ("Seeded search, not exhaustive: a violation is real and replayable, silence covers only the runs counted in the evidence. Real code: all of /repo/server unmodified, Rust std, tokio, httparse, serde_json; "
          "simulated: libc (threads, futexes, clocks, sockets, epoll, randomness). Assumes sequentially consistent memory and pre-emption at basic-block boundaries of /repo's code and at libc calls. ")
C = {
 "C01": ("concurrent clients, seeded schedules and stalls; linearizability against a reference model", "Histories of up to about 40 requests by up to 4 clients on 5 keys; requests that timed out count as maybe executed."),
 "C02": ("all value types through query text, network and three servers; read-back against a reference model", "Values up to 70 000 elements or bytes; 40% of the runs drive Interpreter/Parser directly."),
 "C03": ("batches with planted failures among concurrent clients; full read-back against a reference model", "Failures at any position, unparsable statements of 47 forms."),
 "C04": ("simulated clock, commands around deadlines; reference model with deadline windows", "Library runs decide deadlines exactly (1 ns); server runs within the interval between request and response."),
 "C05": ("cleaning passes with seeded victims between any operations (library) and background cleaning in the servers; reference model and counts", "Library histories of up to 60 operations."),
 "C06": ("drained cleaning in the library; idle or busy servers after expiry, heap measured in the simulator's allocator", "Heap check needs at least 60 kB of data, and asks for three quarters of it to be returned."),
 "C07": ("concurrent requests with worker stalls beyond internal timeouts; response parser and attribution by unique values", "Stalls up to a few seconds."),
 "C08": ("seeded segmentation, delays, small socket buffers, partial writes, slow readers; answers compared with the reference model", "Requests and responses up to about 300 kB; at most 32 headers."),
 "C09": ("hostile bytes and disconnects at any offset among well-behaved clients; read-back, service and error status", "Raw hostile requests only have to be rejected (never 200)."),
 "C10": ("users of every kind, concurrent mixed-rights batches; reference model with rights", "The mock authenticator of /repo decides who is who."),
 "C11": ("shutdown at arbitrary moments under stalls and load, and unauthorised or unreached shutdowns; bounded exit in simulated time", "Bound: 20 simulated seconds after the acknowledgement, plus injected stalls."),
 "C12": ("interpreter histories under a simulated clock; reference model", "Single-threaded API: the simulated environment is time and the victims of cleaning."),
 "C13": ("bursts of connections, pools from one worker up, thread stalls; every request answered in bounded simulated time", "Liveness as a bound (tens of simulated seconds) on finite runs."),
 "C14": ("clients that stop at any byte; later clients served in bounded simulated time", "Stalls outlast the bound for the others; up to 4 stalled clients."),
 "C15": ("mixes of completed, rejected, aborted and failing connections; descriptor and thread tables of the simulated kernel", "Checked after a quiet period of simulated time."),
 "C16": ("injected accept/read/write/thread creation/log errors, singly and in bursts; reference model and service", "errno values: EMFILE, ENFILE, ECONNABORTED, EINTR, ENOMEM and the like for accept; ECONNRESET, EPIPE, EINTR, ETIMEDOUT for read and write; EAGAIN for thread creation and ENOSPC, EPIPE, EIO for the log, both after the start-up."),
 "C17": ("wall-clock jumps during requests and cleaning; reference model, answer times", "Jumps of milliseconds to years in both directions."),
 "C19": ("hundreds of varied requests that leave the data unchanged, with aborts and I/O errors; live heap before and after, reference model", "At least 250 requests between the two measurements; growth beyond 12 kB counts, the unchanged tree stays below 4 kB."),
}
checks = [dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough", technique=T + t, level="exploration", level_note=COMMON + n) for p, (t, n) in C.items()]
m = dict(version=1, setup_cmd="sim/build.sh -q", checks=checks,
  not_applicable=[dict(property="C18", reason="Pure function of its input: no schedule, clock, I/O, fault or interleaving can influence it, so there is nothing to simulate.")],
  notes="No hooks in /repo: the seam is libc, interposed inside the simulator's executable; compiler-inserted basic-block callbacks are the pre-emption points. Replay: sim/target/debug/sim replay <file>.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
