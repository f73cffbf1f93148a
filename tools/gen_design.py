#!/usr/bin/env python3
"""Writes DESIGN.md: the text below plus, per property, statement, notes and the bounds in checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks

HEAD = open(V + "/tools/design_head.md").read()
TAIL = open(V + "/tools/design_tail.md").read()
# (what is specified / the oracle, why unit tests cannot settle it is in properties.jsonl)
NOTES = {
"C01": "Oracle: a holder counter kept by the harness around every critical section, and the result of every call. REFUSE also asserts that try_lock() takes a mutex nobody holds or acquires. ROGUE: a non-holder calls unlock().",
"C02": "Oracle: deadlock (no coroutine can run, not all finished) is a violation; the harness records the order in which coroutines enter the waiting state and compares the order of acquisition.",
"C03": "Oracle: holder and depth counters kept by the harness; deadlock; std::logic_error for a non-holder.",
"C04": "Oracle: reader/writer counters kept by the harness; deadlock; the queue configuration fixes three waiters in any mode combination behind one holder and requires each to get exactly its mode.",
"C05": "Clock mode 3: the harness answers every clock reading with a symbolic nondecreasing time. Oracle: result true iff the lock is now held in the mode asked (harness counters and lock state), false only if the last reading was past the deadline.",
"C06": "Oracle: harness counts of coroutines registered (between taking the mutex and blocking) and woken; a notification issued under the mutex after a registration must wake it; deadlock.",
"C07": "Real timer thread. Oracle: a wait that reports a timeout has seen the clock at or past its deadline; a wait with a deadline within the horizon (below) ends; result matches notification; a destroyed condition variable is not touched afterwards.",
"C08": "Oracle: permits in flight counted by the harness; deadlock while a permit is free.",
"C09": "Oracle: arrivals counted by the harness; wait returns iff the count is reached; symbolic 62-bit counts for misuse.",
"C10": "Oracle: arrivals per phase counted by the harness; deadlock; misuse with symbolic 16-bit counts.",
"C11": "Oracle: number of runs per flag; argument equality. The statement deliberately does not claim that a second caller returns only after the first call has completed: the implementation does not provide it (see 'observed, not claimed').",
"C12": "Oracle: reference queue kept by the harness (sequence of accepted values per producer, received values), deadlock. Values are symbolic where they are compared, the capacity is symbolic (any int) in y1/y2.",
"C13": "As C12 with close() at any moment; a push that returned false must not be received; everybody ends.",
"C14": "As C12 for capacity 0; a push returning true requires that its value has been taken.",
"C15": "Oracle: the harness evaluates the stages on the source sequence with plain loops and compares value by value. All coroutines of the pipeline are real coroutines on one real scheduler loop.",
"C16": "Oracle: ghost flags set by the coroutine function; equality with symbolic arguments, values and exception payload; exactly-once counters.",
"C17": "As C16 with the real timer thread; GONE and DESTROY free the waiter or the waited coroutine right after the wait, so that a late callback is an access to freed memory.",
"C18": "Inductive step: from every state of the real ready queues satisfying the invariant (list contents by priority, min_priority bound) one operation and one decision; the harness computes the coroutine due from a reference list and shows the invariant again. That makes the result independent of the length of the history. 'sq' repeats from the initial state without the invariant.",
"C19": "Real start_schedule_routine__, sleep_if_need__, wake_up, add_ctx, stop_schedule on two engine threads with the real locks and condition variable; scheduling points at the schedule lock, queue locks, the condition variable's inner mutex. Oracle: deadlock, and the ready coroutine ran.",
"C20": "The machine code of switch_to is lifted (tools/lift.py decodes the bytes g++ produced and emits IR per instruction), all registers symbolic. Oracle: registers, flags, stack pointer and return address after switching away and back equal those before; frame condition on memory.",
"C21": "Same lifted code for the first switch; shrink and allocation are decided for every address and size up to 2^40 with recording stubs of mmap/munmap/madvise. (No caller ever sets pre_ctx__, so shrink_stack is currently never reached from the scheduler; the function itself is what is checked.)",
"C22": "Real scheduler loop, real save/restore code; in the engine a shared-stack coroutine's live words are placed at the top of the shared stack and its saved stack pointer register points at them. Native replays use the real stack; a native crash on the replayed schedule confirms a violation.",
"C23": "Real timer thread. Lateness: clock readings go no further than 2^k and timed waits no further than 2^(k+1) (the horizon); everything due by then must have happened when nothing can run, otherwise the engine reports a deadlock.",
"C24": "As C23 for sleep_for/sleep_until; deadlock if a sleeper with a deadline within the horizon is not woken.",
"C25": "Differential against a reference list of (handle, callback) kept by the harness; callbacks re-enter.",
"C26": "Oracle: reading as the stored type gives the stored value, reading as any other throws; value equality for symbolic values.",
"C27": "Starting states are arbitrary states and flags of real co_env objects. Oracle: reference choice computed in the harness; multiset of coroutines before and after.",
"C28": "The real signal handler code path (switch_signal_handler) runs on a symbolic machine context. The depth configurations re-run harnesses of other properties and require the preemption count to be zero at the end.",
"C29": "System calls are stubs that answer with any value the kernel may give; they record the arguments. Oracle: the returned value equals the first answer that is neither would-block nor interrupted.",
"C30": "As C29 with a symbolic state machine for the connection (connect, select or poll, getsockopt answers).",
"C31": "Symbolic transport: each read or write transfers any number of bytes, would block, fails or ends; byte-wise comparison with the reference buffer.",
"C32": "Reference map (coroutine, name) -> value kept by the harness.",
"C33": "Liveness of memory is tracked by the engine (every access to freed memory is a violation); the harness additionally asserts which contexts must exist and which must be gone. xj/xd cross threads: real create, join/detach on one thread, real scheduler loop on the other.",
}
out = [HEAD]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i not in checks.PROPS:
        out.append("Not applicable: " + checks.NOT_APPLICABLE[i] + "\n")
        continue
    out.append(f"{p['statement']}\n\nWhy beyond tests: {p['why_tests_cant']}.\n\n{NOTES[i]}\n\nConfigurations (every value and schedule within each):\n")
    for c in checks.PROPS[i]["configs"]:
        out.append(f"- `{c.name}` ({c.harness}{', thorough tier' if c.tier == 'thorough' else ''}): {c.bounds}")
    out.append("")
out.append(TAIL)
open(V + "/DESIGN.md", "w").write("\n".join(out))
