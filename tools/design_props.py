# per property: (how it is decided, why that reaches what tests cannot); used for DESIGN.md and the notes of MANIFEST.json
D = {
"C01": ("Task programs, profile *conflict*. Oracle: at each body's begin, every earlier task of the same space with a conflicting access (model of the access modes, areas and copies of it that changed by demotion) must have completed including its descendants; bodies must not overlap; checksums of the data touched by the bodies must be what creation order gives. Quick: ~23 s in 8 processes, 3 variants (default and tiny chunks, delays).",
        "chunk boundaries of user lists, concurrent initialisation, stealing and nested users are hit at random in thousands of programs with adversarial schedules"),
"C02": ("Profile *progress*. Oracle: each body runs exactly once; whenever no thread can run (controlled mode sees that state exactly) the set of unfinished tasks must be the set the model says cannot run (waiting for an event the harness holds back).",
        "liveness is decided at quiescent states instead of by timeouts, over schedules that hit the windows between queueing, waking and sleeping"),
"C03": ("Profile *barrier*: barriers in a row, empty, with late events, after futures. Oracle: on return of barrier() all bodies are finished, objects captured by top-level tasks are destroyed, plain data written by tasks is visible; it must return (quiescence); finalize() leaves no thread.",
        "the races of the last completion with the waiting thread are driven by the scheduler"),
"C04": ("Profile *nested*: deep and wide trees with parents that end before their children are even initialised. Oracle: a task counts as complete when its whole subtree is; C01 and C03 oracles with that notion.",
        "no test has children at all"),
"C05": ("Profile *future*: results of 7 types (strings, vectors, large, move-only, counted), get() early, late, from tasks, moved and dropped futures. Oracle: value equals the task's unique value, body has finished when is_ready()/get() says so, instances balance, no other task is delayed by a dropped future.",
        "instance counts and unique values make double or early delivery visible; get() races with publication under controlled schedules"),
"C06": ("Profile *event*: 0-4 events per task, notified from the task, other tasks, the main thread, foreign threads, before and after the end of the body. Oracle: the task is complete only after its body and all its events; at quiescent states exactly the tasks behind un-notified events are unfinished.",
        "every order of notification and completion occurs"),
"C07": ("Profile *suspend*: tasks that yield on events and futures 1-6 times, checking local variables, the current task and the backtrace afterwards. Oracle: continues only after the event, exactly once per wait, with locals intact, and at quiescence is not waiting for something reached.",
        "notification before, during and after the suspension, also from foreign threads, is driven by the scheduler"),
"C08": ("Profile *demote*: patches (removal, write to read, smaller areas; also refused extensions) with many followers. Oracle: at quiescence the followers that no longer conflict have run while the task is kept running, those that conflict have not; refused patches throw and change nothing.",
        "followers created concurrently with the patch, several resources per edge"),
"C09": ("Profile *parallel*: chosen tasks are held (suspended on an event) for ever. Oracle: at quiescence every task without a chain of conflicts to a held one has finished.",
        "a scheduler that serialises too much is functionally invisible to tests; here it is a wrong quiescent state"),
"C10": ("Forked processes (`rt refuse`), one nesting chain each: random accesses of the ancestors, one child access which is covered, not covered, or of a resource constructed inside the parent, also after demotions. Oracle: model of coverage; a refused child never runs (assertion or exception), a permitted one runs.",
        "combinations of modes, areas, scopes and depth that five hand-written pairs do not contain"),
"C11": ("`rt access` evaluates the relations of all predefined access types, and lists of them, against a denotational model (sets of elementary cells and modes); exhaustive on small values, random with extreme values; ASan+UBSan.",
        "all pairs of small values and millions of random ones instead of a handful"),
"C12": ("`rt guard`: random chains of guards (read/write/area/at/copies) on I/O and field resources of several containers. Oracle: out_of_range exactly outside of the area, registered access equals the model's, element addresses, life time of the shared object.",
        "bounds arithmetic of nested areas is checked for random chains"),
"C13": ("`conc list`, `conc reclaim`: scripts of 2-4 threads. Oracle over the recorded history: each iteration visits every element that was in the list throughout, none removed before it began, none twice, in order; elements are destroyed exactly once and only after removal and the last reference; chunks are given back.",
        "concurrent push/remove/iterate at chunk boundaries with chunk sizes 1-8 under controlled schedules, ASan and TSan"),
"C14": ("`conc arena`: concurrent allocations and deallocations of all sizes with failing chunk requests, and task programs. Oracle: memwatch (aligned, in chunk, disjoint, returned once, contents untouched while live, refused only if impossible).",
        "shadow bookkeeping of every block; races between the last deallocation and an allocation are scheduled"),
"C15": ("`wave`: waves of tasks of all kinds and streams of tasks with a limited number unfinished, on 1-24 workers, with small and default chunks; `conc reclaim`. Oracle: after each wave no callable, result or resource object is left and live blocks and unused chunks are back at what they were before the first wave (plus a constant per resource and arena); during a stream the live blocks stay below a multiple of the unfinished tasks; every instance is destroyed once, every block returned once to its arena, nothing is left after finalize().",
        "leaks and late destruction are visible only over many waves; two leaks that grow with the number of tasks were found this way"),
"C16": ("`conc cv`, `conc spin`: notifiers against one waiter with random spin limits; critical sections. Oracle: at quiescence no waiter sleeps with a pending notification; owners of the lock exclude each other; TSan for the ordering.",
        "the window between test and sleep is scheduled"),
"C17": ("`conc bits`: set/get/search of 2-4 threads on fields of 1-200 bits. Oracle: old values form alternating sequences per bit, a claimed bit has one owner, a search offers only bits that had the value at some time during the search, in range, and finds a bit that had it throughout.",
        "sizes around word boundaries, every start index, concurrent claims"),
"C18": ("`rt tags`: TagMatch over recording schedulers with random tag sets, random requirements. Oracle: each emplace/activate goes to the first sub-scheduler supporting all tags, once each; unmatched tasks raise an exception.",
        "random tag sets and nesting"),
"C19": ("All programs; in each body backtrace(), scope_depth(), current_task_space(), label, tags, id are compared with the harness's own tree, before and after suspensions.",
        "compared on every worker after every migration"),
"C20": ("All profiles with ASan+UBSan, assertions, poisoned arena blocks, garbage-filled chunks.",
        "arena memory is invisible to ordinary ASan; the hook makes block life times visible"),
"C21": ("All profiles and `conc` workloads with TSan; task bodies access plain data in their declared areas.",
        "judged by happens-before, not by what x86 shows"),
"C22": ("`rt mpi`: the request pool compiled against a mock MPI whose Testsome completes random subsets in random index order with distinct statuses. Oracle: each get_status() returns once, after its own completion, with its own status; none is left.",
        "orders and groupings are chosen by the mock"),
"C23": ("`rt workers`: worker counts 1 to beyond 64 and beyond the number of PUs (synthetic topologies), repeated cycles. Oracle: every worker thread runs tasks, binding calls are right, threads, blocks and chunks are gone after each cycle.",
        "many counts, topologies and cycles per process"),
"C24": ("`rt call`: 17 kinds of callables and arguments with unique values and counted instances, from the main thread and from tasks, throwing copies. Oracle: value seen in the body, caller's objects untouched, instances balance, exceptions reach the caller and leave nothing behind.",
        "copies, moves and life times are counted"),
"C25": ("Not applicable: no CUDA/alpaka runtime or headers here, nothing of dispatch/cuda or dispatch/cupla can run.", ""),
}
