"""The checks: which harness runs, for how long, and what has to have been observed."""
from .driver import Check, Phase

ASAN = {"ASAN_OPTIONS": "detect_stack_use_after_return=0:detect_leaks=0:exitcode=67:allocator_may_return_null=1",
        "UBSAN_OPTIONS": "print_stacktrace=1"}
TSAN = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4"}


def prog(profile, mode, need):
    return lambda seed, secs: ["--profile", profile, "--mode", mode, "--seed", seed, "--count", 1000000,
                               "--budget", secs, "--need", need]


def prog_phases(profile, need, quick=(12, 6, 5), thorough=(260, 160, 120)):
    return [
        Phase("controlled", "prog", prog(profile, "ctrl", need), quick[0], thorough[0]),
        Phase("controlled, small chunks", "prog_tiny", prog(profile, "ctrl", need), quick[1], thorough[1]),
        Phase("free running with delays", "prog", prog(profile, "delay", need), quick[2], thorough[2]),
    ]


RULE = ("random task programs (profile '%s': task trees with random access sets on I/O and field resources, futures, "
        "events, suspensions, demotions, barriers, 1-6 workers), each run once under a random schedule (uniform, "
        "priority-based or bursty switching at instrumented points of redGrapes, or free running with injected "
        "delays); non-trivial: distinct program text and %s")


def prog_check(pid, profile, need_stat, what, need, **kw):
    return Check(pid, prog_phases(profile, need_stat, **kw), RULE % (profile, what), need=("programs", "nontrivial", "signatures", "guards_hit") + tuple(need),
                 assumptions=[
                     "sequentially consistent interleavings of redGrapes code at its coverage points (controlled "
                     "phases) or what the machine does under injected delays (free running phase)",
                     "random exploration: a schedule or program that was not drawn was not checked",
                     "CUDA, cupla and MPI parts are not involved"])


CHECKS = {}


def add(c):
    CHECKS[c.pid] = c


add(prog_check("C01", "conflict", "order_checks", "at least one pair of conflicting tasks was checked for order",
               ["order_checks", "touches"]))
add(prog_check("C02", "progress", "quiescent",
               "at least one state in which nothing could run was compared with the model", ["tasks", "quiescent"]))
add(prog_check("C03", "barrier", "barriers", "at least one barrier() returned", ["barriers"]))
add(prog_check("C04", "nested", "children", "at least one child task", ["children", "order_checks"]))
add(prog_check("C05", "future", "gets", "at least one get()", ["gets", "ready_true", "ready_false", "drops"]))
add(prog_check("C06", "event", "ext_notify", "at least one event was notified from outside",
               ["events", "ext_notify", "blocked_seen"]))
add(prog_check("C07", "suspend", "suspended", "at least one task was suspended and resumed",
               ["suspended", "migrated"]))
add(prog_check("C08", "demote", "demotions", "at least one demotion", ["demotions", "refused", "released", "held"]))
add(prog_check("C09", "parallel", "overlaps", "at least two tasks were in progress at once",
               ["overlaps", "quiescent"]))


# ---------------------------------------------------------------- containers and primitives

def hxargs(what, mode):
    return lambda seed, secs: ["--what", what, "--mode", mode, "--seed", seed, "--count", 100000000, "--budget", secs]


def conc_phases(what, plain=(8, 4), asan=(6, 3), tsan=5, thorough=(200, 100, 150, 60, 120), shards=8):
    ph = []
    if plain:
        ph += [Phase("%s, controlled" % what, "conc", hxargs(what, "ctrl"), plain[0], thorough[0], shards),
               Phase("%s, free running with delays" % what, "conc", hxargs(what, "delay"), plain[1], thorough[1], shards)]
    if asan:
        ph += [Phase("%s, controlled, ASan+UBSan" % what, "conc_asan", hxargs(what, "ctrl"), asan[0], thorough[2], shards, ASAN),
               Phase("%s, free running, ASan+UBSan" % what, "conc_asan", hxargs(what, "delay"), asan[1], thorough[3], shards, ASAN)]
    if tsan:
        ph += [Phase("%s, free running, TSan" % what, "conc_tsan", hxargs(what, "delay"), tsan, thorough[4], shards, TSAN)]
    return ph


HX_ASSUME = [
    "the interleavings that were drawn, sequentially consistent in the controlled phases; memory-model effects only as far "
    "as ThreadSanitizer and the hardware show them",
]

add(Check("C13", conc_phases("list") + conc_phases("reclaim", plain=(4, 2), asan=(3, 0), tsan=0),
          "random scripts of push, remove, iteration (with removal, early exit, resuming at an entry) run by 2-4 threads on "
          "lists with 1, 2, 3 or 8 elements per chunk; the recorded history is judged per iteration; non-trivial: distinct "
          "script parameters and at least one push or removal overlapped an iteration",
          need=("cases", "must_visits", "concurrent_cases", "removes", "guards_hit"),
          assumptions=HX_ASSUME))
add(Check("C14", conc_phases("arena") + [
    Phase("task programs, controlled", "prog", prog("mixed", "ctrl", "tasks"), 6, 100),
    Phase("task programs, free running", "prog", prog("mixed", "delay", "tasks"), 4, 60)],
          "random allocations and deallocations (sizes around and beyond the chunk size, across threads, with failing "
          "requests for chunks) on arenas with chunks of 1-16 KiB, and random task programs whose arenas are watched; "
          "non-trivial: distinct script and more than one chunk was used",
          need=("allocs", "frees", "refused", "failed_chunks", "chunks", "arena_blocks", "guards_hit"),
          assumptions=HX_ASSUME))
add(Check("C16", conc_phases("cv", plain=(8, 4), asan=None, tsan=5) + conc_phases("spin", plain=(6, 3), asan=None, tsan=5),
          "one waiter (random spin time) and 1-3 notifiers, or two threads waking each other in turn; 2-4 threads with "
          "critical sections; non-trivial: distinct script",
          need=("cases", "sections", "waits", "notifies", "quiescent", "guards_hit"), assumptions=HX_ASSUME))
add(Check("C17", conc_phases("bits"),
          "random set/get/search scripts of 2-4 threads on bitfields of 1-200 bits with fixed, owned and contended bits",
          need=("cases", "sets", "contended_sets", "claims", "searches", "offers", "claim_balances", "guards_hit"),
          assumptions=HX_ASSUME))


# ---------------------------------------------------------------- whole programs under sanitizers

def asan_prog(profile, quick, thorough, tiny=False, mode="ctrl"):
    return Phase("programs '%s'%s, %s, ASan+UBSan" % (profile, ", small chunks" if tiny else "",
                                                      "controlled" if mode == "ctrl" else "free running"),
                 "prog_asan_tiny" if tiny else "prog_asan", prog(profile, mode, "tasks"), quick, thorough, env=ASAN)


def tsan_prog(profile, quick, thorough):
    return Phase("programs '%s', free running, TSan" % profile, "prog_tsan", prog(profile, "delay", "tasks"), quick,
                 thorough, env=TSAN)


PROFILES = ["mixed", "conflict", "progress", "barrier", "nested", "future", "event", "suspend", "demote", "parallel"]

add(Check("C20", [asan_prog("mixed", 8, 120), asan_prog("progress", 0, 60), asan_prog("suspend", 5, 60),
                  asan_prog("future", 4, 60), asan_prog("nested", 4, 60, tiny=True), asan_prog("demote", 5, 60, tiny=True),
                  asan_prog("event", 4, 60, mode="delay"), asan_prog("barrier", 3, 60, mode="delay"),
                  asan_prog("conflict", 0, 60, tiny=True), asan_prog("parallel", 0, 60, tiny=True, mode="delay")],
          "random task programs of several profiles on library and harness built with AddressSanitizer, "
          "UndefinedBehaviorSanitizer and assertions; arena blocks are poisoned outside of their lifetime; non-trivial: "
          "distinct program with tasks", need=("programs", "tasks", "children", "arena_blocks", "arena_chunks_freed", "suspended", "guards_hit"),
          assumptions=["stacks of suspended tasks are heap memory in this build (fiber stacks are not switched with ASan's "
                       "fiber annotations, use-after-return is not detected)",
                       "memory errors on the executions that were drawn"]))
add(Check("C21", [tsan_prog("mixed", 8, 120), tsan_prog("conflict", 5, 80), tsan_prog("future", 5, 80),
                  tsan_prog("suspend", 5, 80), tsan_prog("demote", 5, 80), tsan_prog("event", 4, 60),
                  tsan_prog("barrier", 4, 60), tsan_prog("nested", 0, 60), tsan_prog("parallel", 0, 60),
                  tsan_prog("progress", 0, 60)] + [
                  Phase("%s, free running, TSan" % w, "conc_tsan", hxargs(w, "delay"), 2, 60, env=TSAN)
                  for w in ("list", "arena", "cv", "spin", "bits")],
          "random task programs whose bodies access plain (non-atomic) data in the areas they declared, results, captured "
          "objects and data read after barriers, and direct concurrent use of the containers, on library and harness "
          "built with ThreadSanitizer, with injected delays; non-trivial: distinct program with tasks",
          need=("programs", "tasks", "touches", "gets", "barriers", "suspended", "cases", "guards_hit"),
          assumptions=["races between accesses of the executions that were drawn, with TSan's window of remembered accesses",
                       "moodycamel::ConcurrentQueue (third party) is replaced by a queue with the same interface and a "
                       "release/acquire relation per element, since TSan does not understand its fences",
                       "boost.context switches are announced to TSan as synchronisation of one logical thread"]))
add(prog_check("C19", "mixed", "introspections", "backtrace(), scope_depth(), labels and the task space were compared "
               "at least once", ["introspections", "children", "suspended"]))


# ---------------------------------------------------------------- one aspect of the runtime each

def rt_phases(what, ctrl=(8, 150), delay=(6, 120), asan=(6, 120), asan_ctrl=None, tsan=None, rt="rt"):
    ph = []
    if ctrl:
        ph.append(Phase("%s, controlled" % what, rt, hxargs(what, "ctrl"), *ctrl))
    if delay:
        ph.append(Phase("%s, free running with delays" % what, rt, hxargs(what, "delay"), *delay))
    if asan_ctrl:
        ph.append(Phase("%s, controlled, ASan+UBSan" % what, "rt_asan", hxargs(what, "ctrl"), *asan_ctrl, env=ASAN))
    if asan:
        ph.append(Phase("%s, free running, ASan+UBSan" % what, "rt_asan", hxargs(what, "delay"), *asan, env=ASAN))
    if tsan:
        ph.append(Phase("%s, free running, TSan" % what, "rt_tsan", hxargs(what, "delay"), *tsan, env=TSAN))
    return ph


RUNS = ["the inputs, programs and schedules that were drawn at random; an input that was not drawn was not checked"]

add(Check("C10", rt_phases("refuse", ctrl=None, delay=(12, 200), asan=(8, 150)),
          "one process per case: a chain of nested tasks with random access lists and demotions whose last one is or is "
          "not covered by its parent; whether it is refused is compared with the reference model; non-trivial: always, "
          "distinct chain", need=("aborted", "permitted", "to_refuse", "deep", "guards_total"), assumptions=RUNS,
          technique="runtime assertion outcome against a reference model"))
add(Check("C11", rt_phases("access", ctrl=None, delay=(10, 200), asan=(8, 150)),
          "random access values of every policy and combination, pairs and lists, and all values of a small universe, "
          "evaluated by the library and by an independent model working on sets of elements",
          need=("pairs", "conflicting_pairs", "covering_pairs", "synchronizing", "list_pairs", "list_removals",
                "exhaustive_values"), assumptions=RUNS, technique="differential runtime oracle (set model)"))
add(Check("C12", rt_phases("guard", ctrl=(10, 150), delay=(6, 100), asan=(6, 120), tsan=(5, 60)),
          "random histories of copying, moving, widening and narrowing guards of I/O and field resources on containers, "
          "handed to tasks that access and register through them; non-trivial: a task ran with a guard",
          need=("accesses_inside", "accesses_outside", "registrations", "widenings_refused", "tasks"), assumptions=RUNS,
          technique="runtime monitoring of guards against a reference model"))
add(Check("C15", [
    Phase("waves, controlled, small chunks", "wave_tiny", hxargs("wave", "ctrl"), 8, 160),
    Phase("waves, free running, small chunks", "wave_tiny", hxargs("wave", "delay"), 12, 160),
    Phase("waves, free running", "wave", hxargs("wave", "delay"), 8, 120),
    Phase("waves, controlled, small chunks, ASan+UBSan", "wave_asan_tiny", hxargs("wave", "ctrl"), 5, 100, env=ASAN),
    Phase("waves, free running, small chunks, ASan+UBSan", "wave_asan_tiny", hxargs("wave", "delay"), 5, 100, env=ASAN),
    Phase("list, controlled", "conc", hxargs("reclaim", "ctrl"), 3, 60)],
          "waves and streams of tasks of all kinds (callables, results and resource objects that count their instances, "
          "children, events, suspensions, demotions, futures taken, kept and dropped) on 1-24 workers; after each wave the "
          "live objects, blocks and chunks are compared with those before the first; non-trivial: waves of more than 5 tasks",
          need=("waves", "streams", "streamed", "replaced_chunks", "tasks", "guards_hit"), assumptions=RUNS,
          technique="runtime monitoring of object, block and chunk lifetimes"))
add(Check("C18", rt_phases("tags", ctrl=(10, 160), delay=(8, 120), asan=(6, 100)),
          "random sets of registered schedulers (recording ones on top of thread pools, polling ones, with own threads) and "
          "random programs of tagged tasks with dependencies, suspensions and children, on a tag-matching scheduler that is "
          "spied on; non-trivial: at least two schedulers got tasks",
          need=("emplaced", "activated", "resumed", "dependencies", "refused", "steals", "wakes", "on_own_thread"),
          assumptions=RUNS, technique="runtime monitoring of scheduler calls against a routing model"))
add(Check("C22", rt_phases("mpi", ctrl=(10, 160), delay=(6, 120), asan=(6, 100)),
          "random programs of tasks waiting for requests of a simulated MPI library which completes them in random order "
          "and in random groups while polls and new requests go on; non-trivial: a group of completions or more than "
          "one outstanding request", need=("requests", "returned", "tests", "groups", "unordered_groups", "max_pending"),
          assumptions=RUNS + ["the MPI library is a stand-in with the calls the request pool uses"],
          technique="runtime monitoring with a simulated MPI library"))
add(Check("C23", rt_phases("workers", ctrl=(12, 150), delay=(8, 120), asan=(6, 100)),
          "one process per case: a made-up machine (hwloc synthetic topology) or the real one, 1-4 cycles of init(), tasks, "
          "finalize() with 1-257 workers, directed rendezvous of all workers and ordinary programs; non-trivial: always",
          need=("cycles", "rendezvous", "workers_ran", "more_workers_than_units", "max_workers", "tasks", "guards_hit"),
          assumptions=RUNS, technique="runtime monitoring of threads, bindings and memory per init/finalize cycle"))
add(Check("C24", rt_phases("call", ctrl=(8, 150), delay=(6, 100), asan=(6, 120)),
          "tasks from random callables (function pointers, lambdas, functors with const/ref-qualified overloads, move-only, "
          "mutable) and arguments (values, lvalues, const, temporaries, strings, shared pointers, guards; some of them fail "
          "to be copied), whose copies are counted and whose sources are changed afterwards; non-trivial: always",
          need=("calls", "copies", "moves", "results", "throwing_copies", "barriers"), assumptions=RUNS,
          technique="runtime monitoring of instrumented callables and arguments"))
