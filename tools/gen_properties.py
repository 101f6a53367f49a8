#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "Conflicting tasks run one after the other, in creation order",
 "If two tasks of the same task space declare conflicting accesses to a common resource, the one created first has completely finished (its body and all its descendants) before the body of the later one begins; their bodies never overlap and every write of the first is visible to the second.",
 ["programs", "schedules", "configurations"],
 "every program of nested tasks over any number of resources and access modes, every worker count, every interleaving of creation, dependency initialisation, stealing, execution and completion",
 "RandomGraph runs one random graph of 128 flat write-only tasks on a free-running machine; reads, areas, nesting, more than one chunk of users per resource and adversarial interleavings are not reached.",
 ["redGrapes/task/property/graph.cpp", "redGrapes/task/task_space.cpp", "redGrapes/scheduler/event.cpp", "redGrapes/resource/resource_user.cpp", "redGrapes/util/chunked_list.hpp"],
 [("dependency initialisation from the per-resource user list", "GraphProperty::init_graph"), ("user-list registration in creation order", "TaskSpace::submit"), ("pre/post event counting", "EventPtr::notify, Event::add_follower"), ("removal from the user list before followers are notified", "GraphProperty::delete_from_resources")],
 [("ResourceBase::users", "tasks using the resource, in creation order", "redGrapes/resource/resource.hpp"), ("Event::state", "number of outstanding predecessors", "redGrapes/scheduler/event.hpp")],
 ["begin/end of every task body, stamped by the harness"])

prop("C02", "Every created task runs exactly once and none gets stuck",
 "Every task that is created runs its body exactly once, and as long as task bodies terminate and every event they wait for is notified, all created tasks eventually finish: no task is lost, run twice or left waiting for a dependency that is already satisfied.",
 ["programs", "schedules", "configurations"],
 "every program of (nested) tasks without user-made wait cycles, every worker count, every interleaving; 'eventually' is decided as: no reachable state in which every thread is blocked (or spins without anything left to change) while tasks are unfinished",
 "tests run a handful of programs under the schedules the OS happens to give; lost wake-ups, double activations and lost queue entries need particular interleavings.",
 ["redGrapes/scheduler/default_scheduler.cpp", "redGrapes/dispatch/thread/worker.cpp", "redGrapes/dispatch/thread/execute.cpp", "redGrapes/scheduler/event.cpp", "redGrapes/sync/cv.cpp", "redGrapes/task/queue.hpp"],
 [("worker loop, stealing", "Worker::work_loop, Worker::gather_task, DefaultScheduler::steal_task"), ("activation of ready tasks", "DefaultScheduler::activate_task, EventPtr::notify"), ("wake-up of sleeping workers", "CondVar")],
 [("worker state bits", "available/busy", "WorkerPool::worker_state"), ("ready_queue / emplacement_queue", "tasks waiting for a worker", "redGrapes/dispatch/thread/worker.hpp")],
 ["task bodies", "blocked state of all threads"])

prop("C03", "barrier() and finalize() return exactly when all tasks are done",
 "When barrier() called by the initialising thread outside of any task returns, the bodies of all tasks created so far and of all their descendants have finished, their effects are visible to the caller and whatever the tasks created outside of tasks captured has been destroyed; it does return once they have all finished and no result of theirs is still held by a future. finalize() gives the same guarantee and leaves no worker thread running.",
 ["programs", "schedules", "configurations"],
 "every program, every number of barriers, including barriers with no tasks at all, and every interleaving of the last completions with the waiting thread",
 "tests call barrier()/finalize() once per process at a point where everything has long finished.",
 ["redGrapes/redGrapes.cpp", "redGrapes/task/task_space.cpp", "redGrapes/scheduler/default_scheduler.cpp", "redGrapes/dispatch/thread/worker_pool.cpp"],
 [("task count of the root space", "TaskSpace::submit, TaskSpace::free_task"), ("wake-up of the main thread", "DefaultScheduler::wake_all, CondVar")],
 [("TaskSpace::task_count", "unfinished tasks of a space", "redGrapes/task/task_space.hpp")],
 ["return of barrier()/finalize() against task body begin/end"])

prop("C04", "A task is not complete before all of its descendants are complete",
 "A task counts as finished only when its body and the bodies of all tasks created inside it, recursively, have finished: until then no later task that conflicts with it begins, and barrier() does not return, even if the parent's body ended long ago and its children have not started yet.",
 ["programs", "schedules", "configurations"],
 "all nesting depths and fan-outs (including hundreds of children and nesting more than a few levels), all worker counts including one, all interleavings of the parent's end with the children's initialisation and completion",
 "no test creates a child task and checks when its parent counts as complete.",
 ["redGrapes/task/property/graph.cpp", "redGrapes/task/task_space.cpp", "redGrapes/scheduler/event.cpp", "redGrapes/redGrapes.cpp"],
 [("child post-event precedes parent post-event", "TaskSpace::submit / GraphProperty::init_graph"), ("child task spaces", "Context::current_task_space")],
 [("post_event.state", "outstanding children and events of a task", "redGrapes/task/property/graph.hpp")],
 ["end of descendants against begin of conflicting successors and return of barrier()"])

prop("C05", "A future delivers its task's result exactly once, and only when it exists",
 "get() returns exactly the value the task's callable returned (or, for void, returns only after the body ended) together with all side effects of the body, is_ready() never reports true before that and stays true afterwards, and a future that is moved or dropped without get() neither loses the task nor delays or breaks anything else.",
 ["programs", "schedules", "inputs"],
 "all result types (trivial, heap-owning, large, move-only), get() from the main thread and from inside tasks that can be suspended, immediate or late, moved futures, dropped futures, and all interleavings of result publication with get()/destruction",
 "tests call get() on one or two trivially copyable results.",
 ["redGrapes/task/future.hpp", "redGrapes/task/task.hpp", "redGrapes/task/task_builder.hpp", "redGrapes/scheduler/event.cpp"],
 [("result-set / result-get events", "ResultTask::run, Future::get, Future::~Future"), ("the second of post-event and result-get frees the task", "EventPtr::notify (removal_countdown)")],
 [("removal_countdown", "reasons to keep the task alive", "redGrapes/task/task.hpp")],
 ["return of get(), value and instance counts of the result"])

prop("C06", "Events created in a task delay its completion until notified",
 "After a task creates events with create_event(), the task does not count as finished (successors do not start, barrier() does not return) until its body has ended and every such event has been notified once; notification may come from any thread, before or after the body has ended, and the last one makes the task complete. Outside of a task create_event() returns no event.",
 ["programs", "schedules"],
 "any number of events per task, notified by the same task, other tasks, worker threads or foreign threads, at any moment relative to the end of the body",
 "no test uses create_event().",
 ["redGrapes/redGrapes.cpp", "redGrapes/task/property/graph.cpp", "redGrapes/scheduler/event.cpp", "redGrapes/scheduler/event_ptr.cpp", "redGrapes/scheduler/default_scheduler.cpp"],
 [("external event as predecessor of the post-event", "GraphProperty::make_event"), ("notification", "EventPtr::notify")],
 [("Event::state", "outstanding notifications", "redGrapes/scheduler/event.hpp")],
 ["notify() calls against begin of successors and return of barrier()"])

prop("C07", "A suspended task resumes exactly once, after its event, with its state intact",
 "A task with stack switching that yields on an event, or waits for a future, continues only after that event was reached, continues exactly once per wait at the point where it stopped and with all its local variables intact (on whatever worker), and meanwhile the worker is free to run other tasks; a wait on an event that is reached concurrently, or was reached before, never hangs.",
 ["programs", "schedules"],
 "any number of suspensions per task, events notified before, during and after the suspension and from any thread, single- and multi-worker pools, nested waits of parents on children",
 "no test suspends a task; the race between suspending and the notification needs a specific interleaving.",
 ["redGrapes/task/task_base.hpp", "redGrapes/dispatch/thread/execute.cpp", "redGrapes/task/property/graph.hpp", "redGrapes/scheduler/event.cpp", "redGrapes/redGrapes.cpp"],
 [("continuations", "TaskBase::operator(), TaskBase::yield"), ("pausing in the scheduling graph", "GraphProperty::sg_pause, Context::execute_task")],
 [("resume_cont/yield_cont", "the two sides of a suspended task", "redGrapes/task/task_base.hpp")],
 ["statement before and after each yield() in the task body"])

prop("C08", "Access demotion releases exactly the tasks that no longer conflict",
 "When a running task reduces its accesses with update_properties(), every later task that no longer conflicts with it (and is not held back by anything else) may start although the task still runs, while every task that still conflicts keeps waiting until it has finished; a patch that would extend the accesses is rejected with an exception in the calling task and leaves its accesses in force.",
 ["programs", "schedules", "inputs"],
 "all demotions (removed accesses, write to read, smaller areas) in one or several patches, with any number of followers sharing one or several resources with the task, children, and followers that are created or initialised concurrently with the patch",
 "no test calls update_properties(); example 5 shows one demotion without checking it.",
 ["redGrapes/task/property/graph.cpp", "redGrapes/task/property/resource.hpp", "redGrapes/resource/resource_user.cpp", "redGrapes/util/chunked_list.hpp", "redGrapes/redGrapes.cpp"],
 [("re-evaluation of outgoing edges", "GraphProperty::update_graph"), ("subset check", "ResourceProperty::apply_patch, ResourceUser::is_superset_of")],
 [("post_event.followers", "tasks waiting for this one", "redGrapes/scheduler/event.hpp")],
 ["begin of followers relative to update_properties() and the end of the demoting task"])

prop("C09", "Tasks that do not conflict never wait for each other",
 "A task starts without waiting for any earlier unfinished task with which it has no chain of conflicts, however long that task takes: tasks with disjoint resources, compatible modes (two reads, two atomic adds, two atomic multiplications) or disjoint areas of a field can all be in progress at once, whenever workers are free.",
 ["programs", "schedules", "configurations"],
 "all sets of tasks and accesses in which some tasks are kept unfinished (suspended) for an unbounded time, all worker counts and interleavings",
 "no test would fail if all tasks were simply executed one by one in creation order.",
 ["redGrapes/task/property/graph.cpp", "redGrapes/resource/resource_user.cpp", "redGrapes/resource/access/io.hpp", "redGrapes/resource/access/area.hpp", "redGrapes/resource/access/combine.hpp", "redGrapes/scheduler/default_scheduler.cpp"],
 [("edges only between serial accesses", "GraphProperty::init_graph, ResourceUser::is_serial")],
 [],
 ["set of tasks that complete while chosen tasks stay suspended"])

prop("C10", "Child accesses beyond the parent's are refused; permitted ones never are",
 "Creating a task inside another task with an access to an outer resource that is not covered by an access of the parent does not get as far as running that child (in builds with assertions), whereas accesses that the parent covers, and any access to resources constructed inside the parent, are always accepted.",
 ["programs", "inputs"],
 "all combinations of parent and child access modes and areas, one or several accesses, resources of outer, same and inner scope, any nesting depth",
 "the Resource User test checks five hand-written superset pairs, none through emplace_task and none with scopes.",
 ["redGrapes/task/task_space.cpp", "redGrapes/resource/resource_user.cpp", "redGrapes/resource/resource.cpp", "redGrapes/redGrapes.cpp"],
 [("superset check on submission", "TaskSpace::submit"), ("scope levels", "ResourceBase::ResourceBase, ResourceUser::is_superset_of")],
 [("scope_level", "nesting depth at which a resource / task was created", "redGrapes/resource/resource.hpp")],
 ["outcome of emplace_task inside a task, in a forked process"])

prop("C11", "Access modes: conflict and coverage relations match what they denote",
 "For the predefined access types (I/O modes, areas, arrays and combinations of them, fields) two accesses are in conflict exactly when the operations they permit do not commute (at least one mutates, on overlapping indices), conflict is symmetric, coverage is reflexive and transitive and, where no empty area is involved, means that everything permitted by the covered access is permitted by the covering one (so whatever conflicts with the covered access conflicts with the covering one), and an access reported as synchronizing conflicts with every access that touches anything; accesses to different resources never conflict. The same holds for lists of accesses: they conflict if and only if some pair does.",
 ["inputs"],
 "all values of the access types including empty, adjacent, nested and extreme (0 and maximum) areas, several dimensions, and random access lists of any length",
 "tests check a few fixed pairs per access type.",
 ["redGrapes/resource/access/io.hpp", "redGrapes/resource/access/area.hpp", "redGrapes/resource/access/combine.hpp", "redGrapes/resource/access/field.hpp", "redGrapes/resource/resource.hpp", "redGrapes/resource/resource_user.cpp"],
 [("per-policy relations", "IOAccess, AreaAccess, ArrayAccess, CombineAccess"), ("lifting to accesses and lists", "ResourceAccess::is_serial, ResourceUser::is_serial, ResourceUser::is_superset_of")],
 [],
 ["return values of the relations against a set-of-cells reference model"])

prop("C12", "Guards give access to exactly the data and area they stand for",
 "Every guard obtained from an I/O or field resource (read/write, area(), at(), copies, nested areas) refers to the one underlying object, registers exactly its own mode and area as the task's access, gives access to every element inside its area and throws out_of_range for any index outside it and for any attempt to widen the area; the object lives as long as any guard or task uses it and is destroyed exactly once.",
 ["inputs", "histories"],
 "all container kinds and extents, all sequences of narrowing, copying and mode reduction, all in- and out-of-range indices, all lifetimes of resources relative to tasks using them",
 "tests never index through a field guard or let a resource die before the tasks that use it.",
 ["redGrapes/resource/fieldresource.hpp", "redGrapes/resource/ioresource.hpp", "redGrapes/resource/resource.hpp", "redGrapes/task/property/trait.hpp"],
 [("area check", "AreaGuard::get, AreaGuard::make_area"), ("shared ownership", "SharedResourceObject")],
 [],
 ["values and exceptions of guard operations against a reference model"])

prop("C13", "Chunked list: nothing lost, duplicated, resurrected or destroyed early",
 "Under any concurrent use of push, remove and iteration, an element is visited at most once per iteration, an element whose push completed before an iteration began and which is not removed until the iteration ended is visited exactly once, an element removed before the iteration began is never visited, elements pushed by one thread are visited newest first, and every element stays valid while an iterator points at it and is destroyed exactly once after its removal or with the list; copying keeps the elements and their order.",
 ["histories", "schedules", "inputs"],
 "all interleavings of pushing, removing and iterating threads, list lengths around and far beyond the chunk size, all removal patterns including whole chunks and the newest chunk, trivial and heap-owning element types",
 "the 'Chunked List' test case is empty.",
 ["redGrapes/util/chunked_list.hpp", "redGrapes/util/atomic_list.hpp"],
 [("slot reservation and publication", "ChunkedList::push, Item::operator="), ("reference counting", "Item::acquire, Item::release"), ("skipping removed elements", "iter_offset, ChunkedList::remove"), ("chunk list", "AtomicList")],
 [("iter_offset, refcount, next_item, freed_items", "state of a slot / chunk", "redGrapes/util/chunked_list.hpp")],
 ["history of push/remove/iterate calls; constructor and destructor counts of elements"])

prop("C14", "Memory blocks handed out are valid, aligned, disjoint and stay so until freed",
 "Every block obtained from a worker's arena (directly, through the allocator adapters or shared objects) has at least the requested size, lies completely in memory the arena owns, is suitably aligned for ordinary objects, and overlaps no other live block, and its memory is neither reused nor unmapped before it is returned; a request the arena cannot serve fails with a null block or bad_alloc instead of hanging or returning bad memory.",
 ["histories", "inputs", "schedules", "configurations"],
 "all sequences of allocations and releases of any size (1 byte to beyond the chunk size) from several threads on one arena, including releases by other threads and chunk turnover, and different chunk sizes",
 "no test exercises the allocators directly.",
 ["redGrapes/memory/bump_allocator.cpp", "redGrapes/memory/chunked_bump_alloc.hpp", "redGrapes/util/atomic_list.hpp", "redGrapes/memory/allocator.cpp", "redGrapes/memory/allocator.hpp"],
 [("bump allocation and live count", "BumpAllocator::allocate/deallocate"), ("chunk turnover", "ChunkedBumpAlloc::allocate/deallocate, AtomicList::erase")],
 [("count, next_addr", "live blocks and next free address of a chunk", "redGrapes/memory/bump_allocator.hpp")],
 ["returned blocks; chunks mapped and unmapped"], "REDGRAPES_VERIF hook in ChunkedBumpAlloc for block-level accounting")

prop("C15", "Finished work is reclaimed: objects destroyed once, memory given back",
 "Everything a task holds (its callable, bound arguments, result, properties) is destroyed exactly once after the task has finished and its result was taken or dropped, blocks are returned exactly once to the arena they came from, and a program that keeps creating and finishing tasks, resources and child tasks uses an amount of memory bounded by its unfinished tasks and live resources, whether it runs in waves or as a continuous stream; at the end every chunk of memory taken from the system is given back in full.",
 ["histories", "schedules", "configurations"],
 "arbitrarily long sequences of tasks (flat, nested, with futures, events and resources), all worker counts including more workers than processing units, all interleavings of the two parties that may free a task",
 "tests never look at memory; leaks and double frees do not change a test's result.",
 ["redGrapes/task/task_space.cpp", "redGrapes/scheduler/event.cpp", "redGrapes/memory/chunked_bump_alloc.hpp", "redGrapes/memory/bump_allocator.cpp", "redGrapes/util/atomic_list.hpp", "redGrapes/dispatch/thread/worker_pool.cpp", "redGrapes/redGrapes.cpp"],
 [("task removal", "EventPtr::notify, TaskSpace::free_task"), ("chunk release", "ChunkedBumpAlloc::deallocate, StaticAlloc")],
 [],
 ["constructions/destructions of captured objects; mapped and unmapped bytes; live blocks"], "REDGRAPES_VERIF hook in ChunkedBumpAlloc")

prop("C16", "Wake-ups are never lost and the spin lock excludes",
 "A thread waiting on the condition variable returns once a notification was or is given since its previous wait returned, no matter how notification and wait interleave or how long it spins first, and does not return without one; notify() reports whether it was the one to release a waiting (or next) wait; and at most one thread at a time is between lock() and unlock() of the spin lock, whose critical sections are seen in order.",
 ["schedules", "histories", "configurations"],
 "all interleavings of one waiter with any number of notifiers, every spin budget including zero, any number of threads on the lock",
 "the CV test uses one notifier with generous sleeps.",
 ["redGrapes/sync/cv.cpp", "redGrapes/sync/cv.hpp", "redGrapes/sync/spinlock.hpp"],
 [("should_wait flag plus condition variable", "CondVar::wait, CondVar::notify"), ("compare-and-swap lock", "SpinLock")],
 [("should_wait", "no notification pending", "redGrapes/sync/cv.hpp")],
 ["return of wait(), return value of notify()"])

prop("C17", "Worker-state bits: exact updates, complete searches",
 "Setting a bit returns the previous value of that bit and affects no other, concurrent sets of the same bit are claimed by exactly one caller, and a search for a bit value offers to the caller every index that has that value throughout the search and only valid indices, at most once each per snapshot, stopping at the first one the caller accepts; it finds nothing only if the caller rejected all or none matched.",
 ["inputs", "histories", "schedules", "configurations"],
 "all field sizes from 1 to several hundred bits (around and across word boundaries), all start positions, both values, and concurrent updates",
 "only exercised indirectly with 8 workers.",
 ["redGrapes/util/bitfield.hpp", "redGrapes/dispatch/thread/worker_pool.hpp", "redGrapes/dispatch/thread/worker_pool.cpp"],
 [("word-wise atomic and/or", "AtomicBitfield::set"), ("masked search", "AtomicBitfield::probe_by_value"), ("claiming a free worker", "WorkerPool::find_free_worker")],
 [],
 ["results of set/get/probe_by_value against a reference bit vector"])

prop("C18", "Tag routing: a task runs only under a scheduler supporting all of its tags",
 "With a tag-matching scheduler every task is emplaced and activated on the first registered scheduler whose tag set contains all tags the task requires and never on any other, including when it resumes after a suspension; dependency type, wake-ups and stealing are delegated to the registered schedulers; and if no scheduler matches, creating the task fails with an exception instead of losing it silently.",
 ["programs", "configurations", "inputs", "schedules"],
 "all tag sets of tasks and schedulers, any number and order of registered schedulers, tasks becoming ready on threads that belong to other schedulers",
 "no test uses the tag-matching scheduler.",
 ["redGrapes/scheduler/tag_match.hpp", "redGrapes/scheduler/tag_match_property.hpp", "redGrapes/scheduler/scheduler.hpp", "redGrapes/task/task_space.cpp"],
 [("first-match search", "TagMatch::get_matching_scheduler"), ("tag property", "SchedulingTagProperties::Builder::scheduling_tags")],
 [("required_scheduler_tags", "tags a task needs", "redGrapes/scheduler/tag_match_property.hpp")],
 ["calls received by recording schedulers; thread on which each body ran"])

prop("C19", "Introspection reports the truth about the running task",
 "Inside a task, backtrace() lists exactly the running task and its ancestors from innermost to outermost, scope_depth() is the nesting depth, current_task_space() is the space its children go to, and labels and tags set at creation are the ones read back; task ids are unique over the life of the process and increase in the order one thread creates tasks; outside of tasks the backtrace is empty and the depth 0. All this stays true after suspensions and on every worker.",
 ["programs", "schedules"],
 "all nesting structures and labels, all worker counts, before and after any suspension",
 "no test calls these functions.",
 ["redGrapes/redGrapes.cpp", "redGrapes/dispatch/thread/execute.cpp", "redGrapes/task/task_space.cpp", "redGrapes/task/property/id.hpp", "redGrapes/task/property/label.hpp"],
 [("thread-local current task", "Context::execute_task"), ("parent links", "TaskSpace::parent"), ("id counter", "IDProperty")],
 [("Context::current_task", "task running on this thread", "redGrapes/redGrapes.hpp")],
 ["return values inside task bodies against the harness's own task tree"])

prop("C20", "No memory error or undefined behaviour on any valid use",
 "No valid program makes redGrapes read or write freed, unowned or uninitialised memory, use an object outside of its lifetime, free something twice, violate one of its own assertions or execute undefined behaviour.",
 ["programs", "schedules", "configurations"],
 "all valid uses of the public interface and all interleavings; chunk memory with arbitrary previous contents",
 "the tests run uninstrumented; use-after-free in arena memory is invisible to them.",
 ["redGrapes/scheduler/event.cpp", "redGrapes/task/task_space.cpp", "redGrapes/util/chunked_list.hpp", "redGrapes/util/atomic_list.hpp", "redGrapes/memory/bump_allocator.cpp", "redGrapes/memory/chunked_bump_alloc.hpp", "redGrapes/dispatch/thread/execute.cpp", "redGrapes/util/bitfield.hpp"],
 [("reference counts and ownership throughout", "Task, TaskSpace, Event, ChunkedList")],
 [],
 ["AddressSanitizer / UndefinedBehaviorSanitizer reports, assertions"], "REDGRAPES_VERIF hook in ChunkedBumpAlloc (block poisoning)")

prop("C21", "No data race inside redGrapes or between ordered task bodies",
 "No execution of a valid program contains a data race in redGrapes itself, and plain (non-atomic) memory accesses made in task bodies, futures and after barriers that redGrapes orders never race: ordering a task after another, taking a result, resuming after an event and returning from barrier() all carry the happens-before relation.",
 ["programs", "schedules"],
 "all valid programs and interleavings, judged by the C++ memory model, not by the hardware it happens to run on",
 "the tests run uninstrumented on x86, where most missing orderings are invisible.",
 ["redGrapes/scheduler/event.cpp", "redGrapes/scheduler/event.hpp", "redGrapes/util/chunked_list.hpp", "redGrapes/util/atomic_list.hpp", "redGrapes/sync/cv.cpp", "redGrapes/sync/spinlock.hpp", "redGrapes/task/future.hpp", "redGrapes/dispatch/thread/worker.cpp"],
 [("atomics and locks throughout", "Event::state, CondVar, SpinLock, AtomicList")],
 [],
 ["ThreadSanitizer reports"])

prop("C22", "MPI request pool: each request completes its own waiter, exactly once",
 "Each call of get_status() returns after, and only after, its own request was reported complete, with the status belonging to that request, exactly once, whatever the number of outstanding requests and the order and grouping in which they complete; requests that are not complete stay pending and are polled again.",
 ["histories", "schedules", "fault_sequences"],
 "all sets of outstanding requests, all completion orders and groupings including many at once in any index order, requests added while others complete",
 "no test uses the request pool; it needs an MPI library.",
 ["redGrapes/dispatch/mpi/request_pool.hpp", "redGrapes/dispatch/thread/execute.cpp"],
 [("index bookkeeping while erasing", "RequestPool::poll"), ("event per request", "RequestPool::get_status")],
 [("requests/events/statuses", "parallel arrays of outstanding requests", "redGrapes/dispatch/mpi/request_pool.hpp")],
 ["MPI_Testsome results given by a mock, statuses returned to the callers"])

prop("C23", "The runtime works for every worker count and can be re-initialised",
 "init(n) works for every n from 1 to far more than the number of processing units (including more than 64), every worker is able to run tasks, is pinned to one processing unit (workers are spread over all units before any is shared) and has an arena of its own whose memory is bound to that unit, and init()/finalize() cycles can be repeated any number of times in a process, each cycle behaving like the first and leaving no thread, task or memory behind.",
 ["configurations", "histories", "schedules"],
 "all worker counts, machine sizes (number of processing units) and numbers of cycles",
 "each test case runs in a process of its own with one init/finalize at 8 workers or fewer.",
 ["redGrapes/redGrapes.cpp", "redGrapes/dispatch/thread/worker_pool.cpp", "redGrapes/dispatch/thread/worker.cpp", "redGrapes/util/bitfield.hpp", "redGrapes/memory/hwloc_alloc.hpp"],
 [("creation and start of workers", "WorkerPool::emplace_workers, WorkerThread::run"), ("shutdown", "Context::finalize, WorkerPool::stop")],
 [],
 ["threads alive, binding calls, memory after each cycle"])

prop("C24", "Callables and arguments reach the task unchanged",
 "The task body runs the callable given at creation with the values the arguments had then: arguments are bound by value at creation (later changes by the caller are not seen), callables passed as temporaries are moved in (so move-only ones work), arguments are copied or moved in, a creation that fails because an argument cannot be copied leaves nothing behind, objects passed as lvalues are left untouched for the caller, and every copy made is destroyed exactly once.",
 ["inputs", "programs", "schedules"],
 "all kinds of callables (lambdas, function pointers, functors, mutable, move-only) and arguments (values, lvalues, const, strings, shared pointers, guards), any number of them and any delay before the task runs",
 "tests pass ints and guards to lambdas and never look at the caller's copies afterwards.",
 ["redGrapes/task/task_builder.hpp", "redGrapes/redGrapes.hpp", "redGrapes/task/task.hpp"],
 [("binding", "TaskBuilder::BindArgs"), ("storage", "FunTask::impl")],
 [],
 ["values observed in the body and in the caller afterwards; instance counts"])

prop("C25", "Dispatch to CUDA/cupla streams keeps task order",
 "Work enqueued by tasks on a CUDA or cupla stream dispatcher completes in an order compatible with the task dependencies, and a task's completion is not reported before its stream operations have completed.",
 ["programs", "schedules"],
 "all programs mixing host tasks and stream tasks",
 "needs a GPU runtime; not built by any test.",
 ["redGrapes/dispatch/cuda/scheduler.hpp", "redGrapes/dispatch/cupla/scheduler.hpp"],
 [("event polling per stream", "CudaStreamDispatcher::poll")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
