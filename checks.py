"""Which harness configurations decide which property."""
from run import Config as C

COMMON_ASSUMPTIONS = [
    "sequentially consistent memory; scheduling points before atomic operations (and before every access to watched objects where stated)",
    "clang-18 -O1 IR of the sources stands for the g++ -O3 build; assertions and logging compiled out (NDEBUG) as in the repository's build",
    "allocation never fails; pthread, clock and libstdc++ out-of-line functions are modelled in engine/lib/stubs.cpp",
]
L1 = ["each coroutine is one engine thread with its own real co_env and co_ctx; co_env::schedule_switch is replaced by 'give up the processor until can_schedule()'",
      "the 10 ms spin phases end after the number of clock readings stated in the bounds"]
L1T = L1 + ["timers: the real co_timer and co_manager::timer_routine__ run; a coroutine started by the timer thread is one more engine thread, started after taking and releasing the schedule lock of some env",
            "a timed pthread wait continues when signalled or when the clock has reached its deadline"]
PROPS = {}
MEMG = "scheduling point at every access to the object"
SPINC = "co_spinlock replaced by its contract (acquired atomically when free)"
PROPS["C01"] = dict(assumptions=L1, configs=[
    C("w2", "c01_mutex", "NT=2 WATCH TRY REFUSE", "2 coroutines, lock or try_lock each once, " + MEMG + ", spin phase of 1-2 clock readings"),
    C("r2", "c01_mutex", "NT=2 WATCH ROGUE", "1 coroutine using the mutex, 1 calling unlock without holding it, " + MEMG),
    C("s3", "c01_mutex", "NT=3 SPIN_CONTRACT TRY", "3 coroutines, lock or try_lock each once; " + SPINC),
    C("r3", "c01_mutex", "NT=3 SPIN_CONTRACT ROGUE STALL=0", "2 coroutines using the mutex, 1 calling unlock without holding it; " + SPINC),
    C("c3", "c01_mutex", "NT=3 COARSE STALL=0", "3 coroutines, lock/unlock once each, scheduling points before every atomic operation, real co_spinlock", tier="thorough", timeout=800),
])
PROPS["C02"] = dict(assumptions=L1, configs=[
    C("w2", "c02_mutex_order", "NT=2 WATCH", "2 coroutines, " + MEMG),
    C("s3", "c02_mutex_order", "NT=3 SPIN_CONTRACT STALL=0", "3 coroutines that lock once, spin phase of 1 clock reading; " + SPINC),
    C("h3", "c02_mutex_order", "NT=3 SPIN_CONTRACT HOLD STALL=0", "3 coroutines that lock once while a fourth holds the mutex, spin phase of 1 clock reading; " + SPINC),
    C("t2", "c02_mutex_order", "NT=2 ROUNDS=2 SPIN_CONTRACT STALL=0", "2 coroutines that lock twice each, spin phase of 1 clock reading; " + SPINC, run="-shape"),
    C("s3s", "c02_mutex_order", "NT=3 SPIN_CONTRACT", "3 coroutines that lock once, spin phase of 1-2 clock readings; " + SPINC),
])
PROPS["C03"] = dict(assumptions=L1, configs=[
    C("w2", "c03_recursive", "NT=2 WATCH NEST=2", "2 coroutines, each locking to a chosen depth of 1-3, " + MEMG),
    C("r2", "c03_recursive", "NT=2 WATCH ROGUE", "1 coroutine using the mutex, 1 releasing it without holding it, " + MEMG),
    C("s3", "c03_recursive", "NT=3 SPIN_CONTRACT STALL=0 NEST=1", "3 coroutines, depth 1-2, spin phase of 1 clock reading; " + SPINC),
])
PROPS["C04"] = dict(assumptions=L1, configs=[
    C("w2", "c04_shared", "NT=2 WATCH", "2 coroutines, each with a chosen operation of lock/lock_shared/try_lock/try_lock_shared, " + MEMG),
    C("m2", "c04_shared", "NT=2 SPIN_CONTRACT WRONGMODE", "2 coroutines with any operation each, releasing in the wrong mode before releasing properly; " + SPINC),
    C("r2", "c04_shared", "NT=2 WATCH ROGUE", "1 coroutine with any operation, 1 releasing without holding, " + MEMG),
    C("s3", "c04_shared", "NT=3 SPIN_CONTRACT STALL=0 OPS=2", "3 coroutines, lock or lock_shared once each, spin phase of 1 clock reading; " + SPINC, run="-shape"),
    C("q3", "c04_queue", "NT=3 SPIN_CONTRACT", "3 queued waiters in every mode combination behind one holder; " + SPINC),
])
MUC = "co_mutex and co_spinlock replaced by their contracts (C01, C02)"
PROPS["C05"] = dict(assumptions=L1, configs=[
    C(f"k{k}", "c05_timed", f"KIND={k} WATCH", f"kind {n}; 1 coroutine with a timed lock, 1 with try_lock; any start time and deadline below 2^40 ns, past the deadline at the 2nd clock reading at the latest; " + MEMG)
    for k, n in ((0, "timed_mutex"), (1, "recursive_timed_mutex"), (2, "shared_timed_mutex exclusive"), (3, "shared_timed_mutex shared"))] + [
    C(f"s{k}", "c05_timed", f"KIND={k} SOLO READS=3", f"kind {n}; the lock is free or held throughout; any start time and deadline below 2^40 ns, 3 clock readings")
    for k, n in ((0, "timed_mutex"), (1, "recursive_timed_mutex"), (2, "shared_timed_mutex exclusive"), (3, "shared_timed_mutex shared"))] + [
    C(f"f{k}", "c05_timed", f"KIND={k} SOLO READS=3 FOR", f"kind {n}, any duration below 2^20 ms; the lock is free or held throughout; 3 clock readings")
    for k, n in ((0, "timed_mutex"), (3, "shared_timed_mutex shared"))])
PROPS["C06"] = dict(assumptions=L1, configs=[
    C("r1", "c06_cv", "NW=1 OPS=1 SYM SPIN_CONTRACT STALL=0", "1 waiter, 1 notification (one/all), real co_mutex"),
    C("w1", "c06_cv", "NW=1 OPS=1 SYM MUTEX_CONTRACT WATCH", "1 waiter, 1 notification (one/all), scheduling point at every access to the condition variable, real co_spinlock"),
    C("s2", "c06_cv", "NW=2 OPS=2 SYM MUTEX_CONTRACT SPIN_CONTRACT", "2 waiters, 2 notifications (one/all); " + MUC),
    C("s3", "c06_cv", "NW=3 OPS=2 MUTEX_CONTRACT SPIN_CONTRACT", "3 waiters, 2 notifications (one/all); " + MUC, run="-shape"),
])
TIM = "real co_timer and timer thread, every clock reading any later time, all orders and ties of deadlines and readings (12-bit times); "
PROPS["C07"] = dict(assumptions=L1T, configs=[
    C("rm", "c07_cvtime", "MODE=0 SPIN_CONTRACT STALL=0 L1T_CLOCK=12", "1 timed wait, nobody notifies, real co_mutex; " + TIM, run="-shape"),
    C("rn", "c07_cvtime", "MODE=0 NOTIFY SPIN_CONTRACT STALL=0 L1T_CLOCK=12", "1 timed wait, 1 notification (one/all), real co_mutex; " + TIM, run="-shape", tier="thorough", timeout=800),
    C("t1", "c07_cvtime", "MODE=0 MUTEX_CONTRACT SPIN_CONTRACT DESTROY L1T_CLOCK=40", "1 timed wait, nobody notifies, condition variable destroyed afterwards, 40-bit times; " + TIM + MUC, run="-shape"),
    C("n1", "c07_cvtime", "MODE=0 NOTIFY MUTEX_CONTRACT SPIN_CONTRACT L1T_CLOCK=12", "1 timed wait, 1 notification (one/all); " + TIM + MUC, run="-shape"),
    C("r2", "c07_cvtime", "MODE=0 NOTIFY ROUNDS=2 MUTEX_CONTRACT SPIN_CONTRACT L1T_CLOCK=12", "2 timed waits in a row, 1 notification (one/all); " + TIM + MUC, run="-shape"),
    C("o1", "c07_cvtime", "MODE=0 NOTIFY OTHER MUTEX_CONTRACT SPIN_CONTRACT L1T_CLOCK=12", "1 timed and 1 untimed wait, 2 notifications (one/all); " + TIM + MUC, run="-shape"),
    C("f0", "c07_cvtime", "MODE=0 FOR MUTEX_CONTRACT SPIN_CONTRACT DESTROY L1T_CLOCK=40", "1 wait for any duration below 2^28 us, nobody notifies; " + TIM + MUC, run="-shape"),
    C("f1", "c07_cvtime", "MODE=1 FOR MUTEX_CONTRACT SPIN_CONTRACT DESTROY L1T_CLOCK=40", "1 predicate wait for any duration below 2^28 us, nobody notifies; " + TIM + MUC, run="-shape"),
    C("p1", "c07_cvtime", "MODE=1 NOTIFY MUTEX_CONTRACT SPIN_CONTRACT L1T_CLOCK=12", "1 timed predicate wait, the predicate set and notified at any moment; " + TIM + MUC, run="-shape"),
    C("p2", "c07_cvtime", "MODE=2 NOTIFY MUTEX_CONTRACT SPIN_CONTRACT L1T_CLOCK=12", "1 untimed predicate wait, the predicate set and notified at any moment; " + MUC, run="-shape"),
])
PROPS["C08"] = dict(assumptions=L1, configs=[
    C("r2", "c08_sem", "NA=1 NR=1 UPD=1 MAXV=1 SPIN_CONTRACT STALL=0", "1 acquire, 1 release, maximum 1, any initial count, real co_mutex", run="-shape"),
    C("s3", "c08_sem", "NA=2 NR=1 UPD=2 MAXV=2 MUTEX_CONTRACT SPIN_CONTRACT", "2 acquire, 1 release(2), maximum 2, any initial count; " + MUC, run="-shape"),
    C("f2", "c08_sem", "NA=1 NR=1 UPD=1 MAXV=1 TRY MUTEX_CONTRACT SPIN_CONTRACT", "1 try_acquire, 1 release of a full semaphore, maximum 1; " + MUC, run="-shape"),
    C("f3", "c08_sem", "NA=1 NR=1 UPD=1 MAXV=3 TRY MUTEX_CONTRACT SPIN_CONTRACT", "1 try_acquire, 1 release, maximum 3, any initial count from 1; " + MUC, run="-shape"),
    C("f4", "c08_sem", "NA=2 NR=1 UPD=2 MAXV=2 TRY MUTEX_CONTRACT SPIN_CONTRACT", "1 try_acquire, 1 acquire, 1 release(2), maximum 2, any initial count from 1; " + MUC, run="-shape"),
    C("t2", "c08_timed", "READS=2 MUTEX_CONTRACT SPIN_CONTRACT", "1 timed acquire with any start time and deadline below 2^40 ns, past the deadline at the 2nd clock reading at the latest; 1 release, try_acquire or nothing; " + MUC),
    C("t2f", "c08_timed", "READS=3 FOR MUTEX_CONTRACT SPIN_CONTRACT", "1 timed acquire for any duration below 2^20 ms, past the deadline at the 3rd clock reading at the latest; 1 release, try_acquire or nothing; " + MUC),
    C("s4", "c08_sem", "NA=2 NR=2 UPD=1 MAXV=1 MUTEX_CONTRACT SPIN_CONTRACT", "2 acquire, 2 release, maximum 1, any initial count; " + MUC, run="-shape"),
])
PROPS["C09"] = dict(assumptions=L1, configs=[
    C("r2", "c09_latch", "NC=1 NWT=1 SPIN_CONTRACT STALL=0", "1 counter (0-2), 1 waiter, real co_mutex; any count and amount below 2^62 on a fresh latch", run="-shape"),
    C("s3", "c09_latch", "NC=2 NWT=1 MUTEX_CONTRACT SPIN_CONTRACT", "2 counters (0-2 each), 1 waiter; " + MUC, run="-shape"),
    C("s4", "c09_latch", "NC=2 NWT=2 MUTEX_CONTRACT SPIN_CONTRACT", "2 counters (0-2 each), 2 waiters; " + MUC, run="-shape"),
    C("g2", "c09_wg", "NC=1 NWT=1 SPIN_CONTRACT STALL=0", "wait group of 1, 1 waiter, real co_mutex", run="-shape"),
    C("g4", "c09_wg", "NC=2 NWT=2 MUTEX_CONTRACT SPIN_CONTRACT", "wait group of 2, 2 waiters; " + MUC, run="-shape"),
])
PROPS["C10"] = dict(assumptions=L1, configs=[
    C("s1", "c10_barrier", "NP=3 PH=1 MUTEX_CONTRACT SPIN_CONTRACT", "3 participants, 1 phase; " + MUC, run="-shape"),
    C("q2", "c10_barrier", "NP=2 PH=2 MUTEX_CONTRACT SPIN_CONTRACT", "2 participants, 2 phases; " + MUC, run="-shape"),
    C("r2", "c10_barrier", "NP=2 PH=1 SPIN_CONTRACT STALL=0", "2 participants, 1 phase, real co_mutex", run="-shape"),
    C("s2", "c10_barrier", "NP=2 PH=3 MUTEX_CONTRACT SPIN_CONTRACT", "2 participants, 3 phases; " + MUC, run="-shape", tier="thorough", timeout=800),
    C("s3", "c10_barrier", "NP=3 PH=2 MUTEX_CONTRACT SPIN_CONTRACT", "3 participants, 2 phases; " + MUC, run="-shape", tier="thorough", timeout=800),
    C("m", "c10_misuse", "", "sequential, any count and arrival number below 2^16"),
])
PROPS["C11"] = dict(assumptions=L1, configs=[
    C("w3", "c11_once", "NT=3 WATCH", "3 coroutines calling twice each on either of 2 flags, any 64-bit argument; scheduling point at every access to the flags"),
])
PROPS["C12"] = dict(assumptions=L1, configs=[
    C("r1", "c12_chan", "CAP=1 NP=1 PV=1 SPIN_CONTRACT STALL=0", "capacity 1, 1 producer, 1 value, real co_mutex", run="-shape"),
    C("b1", "c12_chan", "CAP=1 NP=1 PV=3 MUTEX_CONTRACT SPIN_CONTRACT", "capacity 1, 1 producer, 3 values; " + MUC, run="-shape"),
    C("d2", "c12_chan", "CAP=1 NP=2 PV=1 NCO=2 MUTEX_CONTRACT SPIN_CONTRACT", "capacity 1, 2 producers, 2 consumers, 1 value each; " + MUC, run="-shape"),
    C("b2", "c12_chan", "CAP=1 NP=2 PV=2 MUTEX_CONTRACT SPIN_CONTRACT", "capacity 1, 2 producers, 2 values each; " + MUC, run="-shape"),
    C("y1", "c12_chan", "CAPSYM NP=1 PV=3 MUTEX_CONTRACT SPIN_CONTRACT", "any capacity (int), 1 producer, 3 values; " + MUC, run="-shape"),
    C("y2", "c12_chan", "CAPSYM NP=2 PV=1 MUTEX_CONTRACT SPIN_CONTRACT", "any capacity (int), 2 producers, 1 value each; " + MUC, run="-shape"),
    C("k1", "c12_chan", "CAP=1 NP=2 PV=1 NOKEYS MUTEX_CONTRACT SPIN_CONTRACT", "capacity 1, 2 producers of 1, 1 consumer, all states at one position merged; " + MUC),
    C("k2", "c12_chan", "CAP=2 NP=2 PV=1 NCO=2 NOKEYS MUTEX_CONTRACT SPIN_CONTRACT", "capacity 2, 2 producers, 2 consumers, 1 value each, all states at one position merged; " + MUC),
    C("e2", "c12_chan", "CAP=2 NP=2 PV=1 NCO=2 MUTEX_CONTRACT SPIN_CONTRACT", "capacity 2, 2 producers, 2 consumers, 1 value each; " + MUC, run="-shape"),
    C("f2", "c12_chan", "CAP=2 NP=1 PV=3 POPS=1 MUTEX_CONTRACT SPIN_CONTRACT", "capacity 2, 1 producer of 3, 1 pop; " + MUC, run="-shape"),
    C("u4", "c12_chan", "CAP=-1 NP=2 PV=1 NCO=2 MUTEX_CONTRACT SPIN_CONTRACT", "unbounded, 2 producers, 2 consumers, 1 value each; " + MUC, run="-shape"),
    C("c2", "c12_chan", "CAP=2 NP=2 PV=2 NCO=2 MUTEX_CONTRACT SPIN_CONTRACT", "capacity 2, 2 producers, 2 consumers; " + MUC, run="-shape", tier="thorough", timeout=800),
    C("u2", "c12_chan", "CAP=-1 NP=2 PV=2 MUTEX_CONTRACT SPIN_CONTRACT", "unbounded, 2 producers, 2 values each; " + MUC, run="-shape"),
])
PROPS["C13"] = dict(assumptions=L1, configs=[
    C("r1", "c12_chan", "CAP=1 NP=1 PV=1 CLOSE SPIN_CONTRACT STALL=0", "capacity 1, 1 producer of 1, 1 consumer, close at any moment, real co_mutex", run="-shape"),
    C("b1", "c12_chan", "CAP=1 NP=1 PV=2 CLOSE MUTEX_CONTRACT SPIN_CONTRACT", "capacity 1, 1 producer of 2, 1 consumer, close at any moment; " + MUC, run="-shape"),
    C("u1", "c12_chan", "CAP=-1 NP=1 PV=2 CLOSE MUTEX_CONTRACT SPIN_CONTRACT", "unbounded, 1 producer of 2, 1 consumer, close at any moment; " + MUC, run="-shape"),
    C("n1", "c12_chan", "CAP=0 NP=1 PV=2 CLOSE MUTEX_CONTRACT SPIN_CONTRACT", "unbuffered, 1 producer of 2, 1 consumer, close at any moment; " + MUC, run="-shape"),
    C("n2", "c12_chan", "CAP=0 NP=2 PV=1 CLOSE MUTEX_CONTRACT SPIN_CONTRACT", "unbuffered, 2 producers, 1 consumer, close at any moment; " + MUC, run="-shape"),
    C("c2", "c12_chan", "CAP=1 NP=1 PV=2 NCO=2 CLOSE MUTEX_CONTRACT SPIN_CONTRACT", "capacity 1, 1 producer of 2, 2 consumers, close at any moment; " + MUC, run="-shape"),
    C("p3", "c12_chan", "CAP=1 NP=3 PV=1 POPS=0 CLOSE MUTEX_CONTRACT SPIN_CONTRACT", "capacity 1, 3 producers, no pop, close at any moment; " + MUC, run="-shape"),
    C("m3", "c12_chan", "CAP=0 NP=3 PV=1 POPS=0 CLOSE MUTEX_CONTRACT SPIN_CONTRACT", "unbuffered, 3 producers, no pop, close at any moment; " + MUC, run="-shape"),
    C("y1", "c12_chan", "CAPSYM NP=1 PV=2 CLOSE MUTEX_CONTRACT SPIN_CONTRACT", "any capacity (int), 1 producer of 2, 1 consumer, close at any moment; " + MUC, run="-shape"),
    C("yi", "c12_chan", "CAPSYM NP=1 PV=2 ITER MUTEX_CONTRACT SPIN_CONTRACT", "any capacity (int), 1 producer of 2, 1 iterating consumer; " + MUC, run="-shape"),
    C("k1", "c12_chan", "CAP=1 NP=1 PV=2 CLOSE NOKEYS MUTEX_CONTRACT SPIN_CONTRACT", "capacity 1, 1 producer of 2, 1 consumer, close at any moment, all states at one position merged; " + MUC),
    C("k0", "c12_chan", "CAP=0 NP=1 PV=1 CLOSE NOKEYS MUTEX_CONTRACT SPIN_CONTRACT", "unbuffered, 1 producer of 1, 1 consumer, close at any moment, all states at one position merged; " + MUC),
    C("k2", "c12_chan", "CAP=1 NP=1 PV=1 NCO=2 POPS=1 CLOSE NOKEYS MUTEX_CONTRACT SPIN_CONTRACT", "capacity 1, 1 producer of 1, 2 consumers, close at any moment, all states at one position merged; " + MUC),
    C("kp", "c12_chan", "CAP=1 NP=2 PV=1 CLOSE NOKEYS MUTEX_CONTRACT SPIN_CONTRACT", "capacity 1, 2 producers of 1, 1 consumer, close at any moment, all states at one position merged; " + MUC),
    C("i1", "c12_chan", "CAP=1 NP=1 PV=2 ITER MUTEX_CONTRACT SPIN_CONTRACT", "capacity 1, 1 producer of 2 that closes, 1 iterating consumer; " + MUC, run="-shape"),
    C("in", "c12_chan", "CAP=0 NP=1 PV=2 ITER MUTEX_CONTRACT SPIN_CONTRACT", "unbuffered, 1 producer of 2 that closes, 1 iterating consumer; " + MUC, run="-shape"),
])
PROPS["C14"] = dict(assumptions=L1, configs=[
    C("r1", "c12_chan", "CAP=0 NP=1 PV=1 SPIN_CONTRACT STALL=0", "1 producer, 1 value, real co_mutex", run="-shape"),
    C("n1", "c12_chan", "CAP=0 NP=1 PV=3 MUTEX_CONTRACT SPIN_CONTRACT", "1 producer of 3, 1 consumer; " + MUC, run="-shape"),
    C("n2", "c12_chan", "CAP=0 NP=2 PV=2 MUTEX_CONTRACT SPIN_CONTRACT", "2 producers of 2, 1 consumer; " + MUC, run="-shape", tier="thorough", timeout=800),
    C("k1", "c12_chan", "CAP=0 NP=1 PV=2 NOKEYS MUTEX_CONTRACT SPIN_CONTRACT", "1 producer of 2, 1 consumer, all states at one position merged; " + MUC),
    C("k2", "c12_chan", "CAP=0 NP=2 PV=1 NOKEYS MUTEX_CONTRACT SPIN_CONTRACT", "2 producers of 1, 1 consumer, all states at one position merged; " + MUC),
    C("m2", "c12_chan", "CAP=0 NP=2 PV=1 MUTEX_CONTRACT SPIN_CONTRACT", "2 producers of 1, 1 consumer; " + MUC, run="-shape"),
    C("c2", "c12_chan", "CAP=0 NP=2 PV=1 NCO=2 MUTEX_CONTRACT SPIN_CONTRACT", "2 producers, 2 consumers; " + MUC, run="-shape"),
])
PROPS["C23"] = dict(assumptions=L1T, configs=[
    C("a1", "c23_timer", "N=1", "1 timer with any expiry below 2^39 ns", run="-shape"),
    C("a2", "c23_timer", "N=2 L1T_CLOCK=12", "2 timers started by one coroutine; " + TIM, run="-shape"),
    C("lt", "c23_timer", "N=2 LATE L1T_CLOCK=12", "a timer with any expiry below 2^11 ns started after or before one that is not due before 2^13 ns; when time has come to 2^13 ns it has run", run="-shape"),
    C("st", "c23_timer", "N=1 STOP", "1 timer with any expiry below 2^39 ns, stopped at any moment after its start", run="-shape"),
    C("ag", "c23_timer", "N=1 AGAIN", "1 timer with any expiry below 2^39 ns, started again by its callback", run="-shape"),
    C("x", "c23_exit", "", "shutdown at any moment, 0 or 1 pending timers; scheduling point at every access to the queue and the shutdown flag", run="-shape"),
    C("lr", "c23_timer", "N=2 REL LATE L1T_CLOCK=22", "a timer with an interval of 1 ms started after or before one of 9 ms; when 8 ms have passed it has run", run="-shape"),
    C("r1", "c23_timer", "N=1 REL L1T_CLOCK=30", "1 timer with an interval of any 0-255 ms", run="-shape"),
    C("r2", "c23_timer", "N=2 REL L1T_CLOCK=23", "2 timers with intervals of 0 or 1 ms", run="-shape", tier="thorough", timeout=800),
    C("lo", "c23_timer", "N=1 LOOP REL L1T_MAX=2 L1T_CLOCK=23 NOHORIZON", "1 repeating timer of 0 or 1 ms, 2 expiries", run="-shape"),
])
PROPS["C24"] = dict(assumptions=L1T, configs=[
    C("f1", "c24_sleep", "N=1", "1 coroutine, sleep_for of -2^37 to 2^38 ns", run="-shape"),
    C("u1", "c24_sleep", "N=1 UNTIL", "1 coroutine, sleep_until any time up to 2^38 ns", run="-shape"),
    C("u2", "c24_sleep", "N=2 UNTIL L1T_CLOCK=12", "2 coroutines, sleep_until; " + TIM, run="-shape"),
])
PROPS["C25"] = dict(assumptions=[], configs=[
    C("q", "c25_event", "OPS=5", "every sequence of 5 operations (subscribe, unsubscribe any 64-bit handle, publish any arguments)"),
    C("re", "c25_event", "OPS=4 REENT", "every sequence of 4 operations, each callback doing nothing, unsubscribing some callback or subscribing one"),
    C("r", "c25_race", "", "1 coroutine publishing twice, 1 unsubscribing and subscribing; callbacks give up the processor; scheduling point at the event's lock", run="-shape"),
])
PROPS["C26"] = dict(assumptions=[], configs=[
    C("a", "c26_any", "", "10 types (integers, pointer, enum, struct, derived struct, polymorphic class), any 64-bit values; store, copy, reassign, destroy the original, read as any of the types"),
])
PROPS["C32"] = dict(assumptions=L1, configs=[
    C("l", "c32_local", "OPS=4", "every sequence of 4 reads or writes from 2 coroutines with 3 names and 2 types, any values"),
])
IO = L1 + ["system calls answer with any return value and errno the kernel may give; fcntl(F_GETFL/F_SETFL) succeeds"]
PROPS["C29"] = dict(assumptions=IO, configs=[
    C("io", "c29_io", "TRIES=4", "every operation kind with any descriptor, buffer address, length, flags; up to 4 system call answers of any return value and errno"),
])
PROPS["C30"] = dict(assumptions=IO, configs=[
    C("c", "c30_connect", "TRIES=4", "descriptors 5 and 2000; every answer of connect, then up to 4 looks at the connection with every outcome and any error number"),
])
PROPS["C31"] = dict(assumptions=IO, configs=[
    C("n", "c31_n", "LEN=5", "buffers of 0..5 bytes of any content; every split, up to 2 would-block answers, failure or end of stream at any point"),
])
L1C = L1 + ["a coroutine created through the public interface is one more engine thread that executes the real co_ctx::real_entry on its own env"]
PROPS["C16"] = dict(assumptions=L1C, configs=[
    C("w1", "c16_wait", "NW=0", "1 coroutine joined by its creator; any arguments, any returned value or thrown exception", run="-shape"),
    C("w2", "c16_wait", "NW=1", "1 coroutine, 1 waiter and its creator joining; any arguments, any returned value or thrown exception", run="-shape"),
    C("p", "c33_life", "NC=1 OPS=3 YIELDS=1 SHARED=0 PRIORITY=30", "1 coroutine of a higher priority, created and joined, detached or its handle destroyed by another on the same thread"),
    C("d", "c16_wait", "NW=0 DETACH", "1 detached coroutine", run="-shape"),
])
PROPS["C17"] = dict(assumptions=L1T + L1C[-1:], configs=[
    C("t", "c17_timed", "L1T_CLOCK=40", "1 coroutine, 1 waiter with any timeout of -2^37 to 2^38 ns; every clock reading any later time", run="-shape"),
    C("u", "c17_timed", "UNTIL L1T_CLOCK=40", "1 coroutine, 1 waiter with any deadline of -2^37 to 2^38 ns; every clock reading any later time", run="-shape"),
    C("m", "c17_timed", "MICRO L1T_CLOCK=40", "1 coroutine, 1 waiter with any timeout below 2^28 us; every clock reading any later time", run="-shape"),
    C("a", "c17_timed", "AGAIN L1T_CLOCK=12", "1 coroutine, 1 waiter that waits again after a timeout; " + TIM, run="-shape"),
    C("g", "c17_timed", "GONE L1T_CLOCK=12", "1 coroutine, 1 waiter that is destroyed after its wait; " + TIM, run="-shape"),
    C("d", "c17_timed", "DESTROY L1T_CLOCK=12", "1 coroutine destroyed after a successful wait, 1 waiter; " + TIM, run="-shape"),
])
L2 = ["the real co_env and co_manager code runs; the manager's background threads and signal handlers are not started; context switching itself is the engine's (C20)"]
PROPS["C18"] = dict(assumptions=L2, configs=[
    C("st", "c18_step", "NC=2", "one operation and one decision from every state of 2 coroutines at 3 priority levels (0, 1, 99) that satisfies the invariant, which is shown to hold again: sequences of any length"),
    C("s3", "c18_step", "NC=3", "one operation and one decision from every state of 3 coroutines at 3 priority levels (0, 1, 99) that satisfies the invariant, which is shown to hold again: sequences of any length", tier="thorough", timeout=800),
    C("sq", "c18_seq", "NC=3 ROUNDS=3", "3 coroutines at 2 levels, 3 rounds of an arbitrary wait, wake-up or priority change followed by a decision, from the initial state"),
    C("cl", "c18_clamp", "", "every 32-bit value as initial and as changed priority"),
])
PROPS["C27"] = dict(assumptions=L2 + ["new scheduler threads are created without starting them; starting states of a thread: every state and flag combination in which 'created' implies that it has no scheduling thread"], configs=[
    C("b", "c27_best", "NE=3", "3 threads in every state with any flags and any load below 2^32, any configured number below 256"),
    C("bi", "c27_bind", "", "2 threads in every state with any flags"),
    C("t", "c27_take", "NC=3", "3 coroutines at 3 priority levels with any flags and states; one or all taken, then moved"),
    C("m", "c27_move", "NC=2", "2 threads in every state with any flags, 2 coroutines with any flags and states; each of the four periodic jobs"),
    C("r", "c27_race", "", "creation of a coroutine concurrent with the removal of surplus threads, scheduling points at every lock", run="-shape"),
])
VOS = ("source/cocpp/core/co_vos_gcc_x86_64.cpp", "_ZN5cocpp9switch_toEPPhS1_")
LIFT = ["the machine code g++ -O3 produces for switch_to is translated instruction by instruction (tools/lift.py); native replays execute the machine code itself",
        "general-purpose registers and status flags; SSE/x87 state is not modelled"]
PROPS["C20"] = dict(assumptions=LIFT, configs=[
    C("sw", "c20_switch", "DEPTHBITS=2", "all 64-bit values of 15 registers, all status flag values, any stack and record contents, 4 stack depths each; suspend, run another, resume", lift=VOS),
    C("new", "c20_start", "SIZEBITS=6", "first switch to a new coroutine, stack sizes 256-319", lift=VOS),
])
PROPS["C21"] = dict(assumptions=LIFT + ["mmap, munmap and madvise are stubs that record the range; pages have 4096 bytes; addresses below 2^47"], configs=[
    C("start", "c20_start", "SIZEBITS=12", "first switch to a new coroutine, stack sizes 256-4351", lift=VOS),
    C("shrink", "c21_shrink", "SIZEBITS=40 ROUNDS=2", "every page-aligned stack address, size up to 2^40, saved stack pointer and shrink counter; 2 rounds"),
    C("alloc", "c21_alloc", "", "2 coroutines, every stack size up to 2^40, shared or private stack, any failure of mmap and madvise"),
])
FIB = ["the register switch is done by the engine (its machine code is the subject of C20); one scheduler thread runs the real loop of co_env"]
PROPS["C22"] = dict(assumptions=FIB, configs=[
    C("s2", "c22_shared", "NC=2 STEPS=2 WORDS=2", "2 coroutines, one on the shared stack, the other on either; 2 switches each (yield, block, wake), 1-2 words of stack with any contents"),
    C("s3", "c22_shared", "NC=3 STEPS=1 WORDS=2", "3 coroutines, 1-3 of them on the shared stack, 1 switch each, 1-2 words of stack with any contents"),
    C("d2", "c22_shared", "NC=2 STEPS=2 WORDS=3", "2 coroutines, 2 switches each, 1-3 words of stack", tier="thorough"),
    C("d3", "c22_shared", "NC=3 STEPS=2 WORDS=1", "3 coroutines, 2 switches each, 1 word of stack", tier="thorough", timeout=800),
])
PROPS["C33"] = dict(assumptions=FIB, configs=[
    C("l1", "c33_life", "NC=1 OPS=4 YIELDS=2 SHARED=1", "1 created coroutine that yields 0-2 times, private or shared stack; every sequence of 4 operations (create, join, detach, yield), then the handle is destroyed"),
    C("l2", "c33_life", "NC=2 OPS=4 YIELDS=1 SHARED=0", "2 created coroutines that yield 0-1 times; every sequence of 4 operations"),
    C("l2s", "c33_life", "NC=2 OPS=3 YIELDS=1 SHARED=1", "2 created coroutines that yield 0-1 times, private or shared stacks; every sequence of 3 operations"),
    C("l2d", "c33_life", "NC=2 OPS=6 YIELDS=1 SHARED=1", "as before, every sequence of 6 operations", tier="thorough", timeout=800),
    C("xj", "c33_cross", "MODE=0 YIELDS=0 BUSY=3", "another thread creates a coroutine on a scheduler thread with another one that yields 3 times, and joins it, every interleaving", run="-shape -steps=1000"),
    C("xd", "c33_cross", "MODE=1 YIELDS=0 BUSY=3", "another thread creates a coroutine on a scheduler thread with another one that yields 3 times, and detaches it, every interleaving", run="-shape -steps=1000"),
    C("wake", "c33_wake", "", "a blocked coroutine is woken by another thread, finishes and is removed; every interleaving of the wake-up with the scheduler thread"),
])
PROPS["C19"] = dict(assumptions=FIB, configs=[
    C("add", "c19_sleep", "MODE=0 N=1 YIELDS=0", "another thread adds a coroutine of the same priority at any moment", run="-shape"),
    C("addh", "c19_sleep", "MODE=0 N=1 YIELDS=0 HIGH", "another thread adds a coroutine of a higher priority at any moment", run="-shape"),
    C("wake", "c19_sleep", "MODE=1 N=2 YIELDS=0 SPURIOUS", "another thread makes the blocked coroutine ready, twice; sleeping may end spuriously once", run="-shape"),
    C("flag", "c19_sleep", "MODE=1 N=1 YIELDS=0 FLAG", "another thread makes the blocked coroutine ready; every access to its flags is a scheduling point", run="-shape -steps=1000"),
    C("stop", "c19_sleep", "MODE=2 N=1 YIELDS=2", "another thread stops the scheduler thread while a coroutine yields 0-2 times or the thread starts or sleeps", run="-shape"),
    C("badd", "c19_sleep", "MODE=5 N=1 YIELDS=0 SPURIOUS", "another thread adds a coroutine, at any moment, while the only other one blocks until the added one runs", run="-shape"),
    C("pwake", "c19_sleep", "MODE=4 N=1 YIELDS=0", "a thread of the program blocks in a coroutine operation; another thread unblocks it at any moment", run="-shape"),
    C("kwake", "c19_sleep", "MODE=1 N=1 YIELDS=0 NOKEYS", "as wake, once, states at one position merged"),
    C("add1", "c19_sleep", "MODE=0 N=1 YIELDS=1", "as add, the first coroutine yields once", run="-shape", tier="thorough", timeout=800),
])
DEP = "preemption depth zero after the operations; "
PROPS["C28"] = dict(assumptions=L1 + ["the signal handler's arguments (position of the machine context on the signal frame) and extended (SSE/x87) state are not modelled"], configs=[
    C("sig", "c28_signal", "NC=3", "1 running and 2 other coroutines, ready or blocked; 16 registers, ip and flags of the machine and of every saved context with any contents; no region, 1-2 guards, schedule lock held by this or another thread"),
    C("mutex", "c01_mutex", "NT=2 SPIN_CONTRACT TRY DEPTH", DEP + "co_mutex, 2 coroutines"),
    C("rec", "c03_recursive", "NT=2 SPIN_CONTRACT NEST=1 STALL=0 DEPTH", DEP + "co_recursive_mutex, 2 coroutines"),
    C("shared", "c04_shared", "NT=2 SPIN_CONTRACT STALL=0 DEPTH", DEP + "co_shared_mutex, 2 coroutines with any operation"),
    ] + [C(f"timed{k}", "c05_timed", f"KIND={k} SOLO READS=3 DEPTH", DEP + f"timed locking, kind {n}") for k, n in ((0, "timed_mutex"), (1, "recursive_timed_mutex"), (2, "shared_timed_mutex exclusive"), (3, "shared_timed_mutex shared"))] + [
    C("cv", "c06_cv", "NW=1 OPS=1 SPIN_CONTRACT STALL=0 DEPTH", DEP + "condition variable, 1 waiter, 1 notification", run="-shape"),
    C("cvt", "c07_cvtime", "MODE=0 NOTIFY MUTEX_CONTRACT SPIN_CONTRACT L1T_CLOCK=12 DEPTH", DEP + "timed condition variable wait", run="-shape"),
    C("sem", "c08_sem", "NA=1 NR=1 UPD=1 MAXV=1 SPIN_CONTRACT STALL=0 DEPTH", DEP + "semaphore, 1 acquire, 1 release", run="-shape"),
    C("once", "c11_once", "NT=2 DEPTH", DEP + "call_once, 2 coroutines"),
    C("chan", "c12_chan", "CAP=1 NP=1 PV=1 SPIN_CONTRACT STALL=0 DEPTH", DEP + "channel, 1 producer, 1 consumer", run="-shape"),
    C("sleep", "c24_sleep", "N=1 UNTIL DEPTH", DEP + "sleeping", run="-shape"),
])
PROPS["C15"] = dict(assumptions=FIB + ["new coroutines are placed on the one scheduler thread"], configs=[
    C("any2", "c15_pipe", "SRC=9 K1=9 K2=9 LEN=2 CAP=-1 CHAN=0 YIELDS=0", "every kind of source with 0-2 items, every two stages, parameters 0-3"),
    C("any3", "c15_pipe", "SRC=0 K1=9 K2=9 LEN=3 CAP=-1 CHAN=1 YIELDS=0", "0-3 items, every two stages, parameters 0-4, collected from the channel"),
    C("yield", "c15_pipe", "SRC=0 K1=9 K2=9 LEN=2 CAP=-1 CHAN=0 YIELDS=2", "0-2 items, every two stages whose functions yield up to 2 times at any call"),
    C("deep", "c15_pipe", "SRC=0 K1=9 K2=9 LEN=3 CAP=1 CHAN=0 YIELDS=2", "0-3 items, every two stages, source channel of capacity 1, functions yield up to 2 times at any call", tier="thorough", timeout=800),
    C("cap", "c15_pipe", "SRC=9 K1=9 K2=0 LEN=3 CAP=1 CHAN=1 YIELDS=1", "0-3 items, a source channel of capacity 1, any stage and map, functions yield once at any call"),
])
NOT_APPLICABLE = {}
TECHNIQUE = ("bounded symbolic execution of the LLVM IR of the real sources: schedules, inputs and environment answers are bit-vector variables, "
             "an SMT solver (Z3) decides every branch and assertion for all their values within the bounds; sample and counterexample traces are replayed on native code")


def note(i):
    return "all values within: " + "; ".join(f"[{c.name}] {c.bounds}" for c in PROPS[i]["configs"]) + \
        ". Configurations whose evidence shows 0 solver_calls are decided by exhausting the graph of symbolic states (DESIGN.md, What the solver decides)"
