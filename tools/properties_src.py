#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os
I = "include/oqpi/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[I + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

TB, TK, TH = "scheduling/task_base.hpp", "scheduling/task.hpp", "scheduling/task_handle.hpp"
SC, WK, WB = "scheduling/scheduler.hpp", "scheduling/worker.hpp", "scheduling/worker_base.hpp"
PG, SG, TG = "scheduling/parallel_group.hpp", "scheduling/sequence_group.hpp", "scheduling/task_group.hpp"
SW = "synchronization/posix/posix_semaphore_wrapper.hpp"
PS, PE, PM = "synchronization/posix/posix_semaphore.hpp", "synchronization/posix/posix_event.hpp", "synchronization/posix/posix_mutex.hpp"
PT, IT = "threading/posix_thread.hpp", "threading/interface_thread.hpp"

p("P01", "A task's function is executed at most once",
  "Whatever mixture of scheduling, group execution, active waiting and single threaded execution reaches a task, its function is run at most once. Exactly one of the threads competing for a task wins the right to run it, the decision is one indivisible step, and nobody runs a task without having won it.",
  ["schedules", "programs"], "all interleavings of workers, active waiters and group executors on any task graph",
  "The tests run a handful of small graphs on one schedule each; a lost exclusion needs two threads inside a window of a few instructions.",
  [TB, TK, TH, SC, SG, PG], [("ownership token taken by one atomic step", TB + ": tryGrab"), ("grab before execute", PG + ", " + SG + ", " + SC)],
  [("token", "task already claimed by a thread", TB + ": grabbed_")], ["calls of the user function"])
p("P02", "A scheduled task always wakes a worker able to run it",
  "When a task is submitted it is made visible in the pending work before the workers are notified, and every worker able to run it is notified. A worker never goes to sleep without having looked, after its last consumed notification, at all the pending work it is able to run and at the stop request.",
  ["schedules", "configurations"], "all interleavings of submitters and workers, any number of workers and any worker priorities",
  "A lost wake-up needs a submission between a worker's last look and its sleep; the tests never steer that window and other workers mask it.",
  [SC, WK, WB], [("push then notify", SC + ": add"), ("drain, look, then block", SC + ": waitForNextTask")],
  [("pending work", "tasks submitted and not yet claimed", SC + ": pendingTasks_")], ["notifications sent and consumed, blocking waits"])
p("P03", "A task claimed by a worker is always executed",
  "Once a worker has claimed a pending task that is not finished yet, it executes that very task before it claims another one, goes to sleep or terminates, even if the scheduler is being stopped meanwhile. A worker never throws away a pending task that is still to be executed, and never tries to execute a task it does not have.",
  ["schedules", "histories"], "all interleavings of stop requests, submissions and claims",
  "Needs a stop request between the claim and the execution of a task; the tests stop an idle scheduler.",
  [SC, WK], [("claimed handle travels from the queue to the worker", SC + ": waitForNextTask, signalAvailableWorker"), ("execution in the worker loop", WK + ": run")],
  [("assigned task", "task the worker has to execute", WB + ": hTask_")], ["tasks left claimed and unfinished"])
p("P04", "Waiting for a task returns only once its function has finished",
  "A wait on a task or group returns only after its function, or all its members, have finished, and everything they wrote, including the result, is visible to the waiter. A task that is reported as done has finished and has published its result.",
  ["schedules"], "all interleavings of the executing thread with waiters and pollers",
  "Publication order is only visible to a thread that looks at the exact moment between two writes.",
  [TK, TB, TG, "scheduling/task_result.hpp", "scheduling/task_notifier.hpp"],
  [("run, publish, then signal", TK + ": invoke"), ("release/acquire done flag", TB + ": setDone, isDone")],
  [("done", "the task has finished", TB + ": done_")], ["return of wait, activeWait, waitForResult, isDone"])
p("P05", "Completion is always signalled, exactly once, to everybody concerned",
  "After the function of a task has run, the task becomes done, its waiters are released and its group, if any, is told that this member has finished, each of them exactly once and on every path. A group that completes does the same towards its own waiters and its own parent group.",
  ["schedules", "programs"], "all ways of executing a task or group, with or without a parent",
  "A missing or doubled completion only shows as a hang or an early release in some graph shapes the tests do not build.",
  [TK, TG, TB, "scheduling/task_group_base.hpp"], [("completion sequence", TK + ": invoke, execute"), ("group completion sequence", TG + ": notifyGroupDone")],
  [], ["done flag, waiter notification, member completion report"])
p("P06", "Tasks receive their arguments and deliver their result unchanged",
  "The callable and the arguments given at creation are the ones used for the execution, each argument in its own position, and the value it returns is the value every later result query returns. Moving a task moves its callable, its state and its result with it.",
  ["inputs", "programs"], "any callable, any arguments and any result type",
  "Tests use a few callables with at most one argument; forwarding must be right for every position and category.",
  [TK, "scheduling/task_result.hpp"], [("argument tuple and apply", TK + ": make_task"), ("result storage", "scheduling/task_result.hpp: run, getResult")],
  [("result", "value returned by the function", "scheduling/task_result.hpp: result_")], ["arguments seen by the function, value returned to the user"])
p("P07", "A sequence runs its tasks one after the other, in order",
  "The members of a sequence are started in the order they were added, each one only after the previous one has completed, each exactly once. When one member completes, exactly the next one is started, or the sequence itself completes if it was the last.",
  ["programs", "schedules"], "sequences of any length, nested in any way, whoever executes the members",
  "Order violations in a running scheduler depend on the schedule; tests have short sequences of leaf tasks.",
  [SG], [("one member in flight", SG + ": executeImpl, oneTaskDone"), ("fifo of members", SG + ": addTaskImpl, popTask")],
  [("remaining members", "members not started yet", SG + ": tasks_")], ["order of members' execution"])
p("P08", "A parallel group starts all its members and completes with the last one",
  "Executing a parallel group makes every one of its members run or be already claimed by somebody else, none is forgotten and none is handed out twice. A thread that actively waits on the group offers every one of its members for execution before it merely waits. The group completes when, and only when, its last member has completed, exactly once.",
  ["programs", "schedules"], "any number of members, any interleaving of their completions",
  "The completion race between the two last members and the claims of remaining members need precise interleavings.",
  [PG], [("atomic countdown of members", PG + ": addTaskImpl, oneTaskDone"), ("claiming of members by index", PG + ": executeImpl")],
  [("active members", "members that did not complete", PG + ": activeTasksCount_"), ("next member", "next member to hand out", PG + ": currentTaskIndex_")],
  ["members scheduled, group completion"])
p("P09", "A parallel group honours its limit of simultaneous tasks",
  "A parallel group created with a limit of N simultaneous tasks never has more than N of its members handed out for execution and not completed, counting the one executed by the thread that executes the group. As long as members remain, each completion hands out exactly one more.",
  ["configurations", "schedules"], "any limit, any number of members; active waiters, who execute members on their own account, are not counted",
  "The limit is only exceeded for particular limits and member states, and the tests do not measure concurrency.",
  [PG], [("initial budget", PG + ": executeImpl"), ("one replacement per completion", PG + ": oneTaskDone")],
  [], ["number of members handed out and unfinished"])
p("P10", "Groups nest: a member is bound to its group before it can run",
  "Adding a task to a group binds it to that very group, counts it and keeps it, once, before it can be handed out, and a task bound to a group already, or an invalid one, is not added. The binding is dropped once the group has been told of the completion, so that a group and its members do not keep each other alive.",
  ["programs", "histories"], "any task or group added to any group",
  "A wrong binding order or a leaked cycle has no symptom in tests that do not check memory or nested completion.",
  [TG, TB, PG, SG, "scheduling/task_group_base.hpp"], [("binding", TG + ": addTask"), ("unbinding", "scheduling/task_group_base.hpp: notifyParent")],
  [("parent", "group the task belongs to", TB + ": spParentGroup_")], ["parent of the task, members of the group"])
p("P11", "Higher priority tasks are taken first, by workers allowed to run them",
  "A task is queued under its own priority, or under that of its nearest enclosing group that does not inherit it. A free worker takes a task of some priority only if it is allowed to run that priority, and only after having found nothing of any higher priority it is allowed to run.",
  ["configurations", "schedules"], "every worker priority set, every task priority, any nesting depth of inheriting groups",
  "The tests use one worker configuration and never compare execution orders.",
  [SC, WB, "scheduling/task_type.hpp"], [("priority resolution", SC + ": resolveTaskPriority"), ("ordered scan of the queues", SC + ": waitForNextTask"), ("worker eligibility", WB + ": can_work_on_priority")],
  [], ["queue used for a task, order in which queues are polled"])
p("P12", "Stopping the scheduler terminates and joins every worker",
  "A stop request is visible before any worker is woken up for it, every worker is woken up, and the call returns only after every worker thread has been joined. A worker that has been asked to stop leaves its loop without blocking again.",
  ["schedules", "configurations"], "any number of workers, whatever they are doing when the stop is requested",
  "A worker missed by the stop only hangs in the schedules where it sleeps at that moment.",
  [SC, WK], [("stop sequence", SC + ": stop"), ("stop checks of the worker", WK + ": run, " + SC + ": waitForNextTask")],
  [("running flags", "the scheduler, or the worker, is not being stopped", SC + ", " + WK + ": running_")], ["return of stop"])
p("P13", "Context hooks bracket the activity they describe",
  "For every worker the start hook comes first and the stop hook last, the idle hook precedes each search for work and the active hook follows it, and the pre and post execution hooks surround the execution of exactly the task they are given. For every executed task the pre and post hooks surround its function, once each, before the waiters and the group are told; a group calls its pre hook before any of its members is handed out and its post hook once, when all members have completed.",
  ["schedules", "programs"], "every path through the worker loop, the task execution and the group execution",
  "Profilers and timers depend on the order on every path, including stop and single threaded execution, which the tests do not observe.",
  [WK, TK, TG], [("worker loop", WK + ": run"), ("task execution", TK + ": invoke"), ("group execution", TG + ": execute, executeSingleThreaded, notifyGroupDone")],
  [], ["sequence of hook calls"])
p("P14", "Every context in a context list receives every hook",
  "When several contexts are combined, each hook is forwarded to each of them exactly once, in the order they are listed and with the same arguments, and each is constructed with the owner and the arguments given. No hook is forwarded as another hook.",
  ["configurations", "programs"], "any list of contexts for workers, groups and tasks",
  "The tests combine at most one or two contexts and look at few hooks.",
  ["scheduling/context_container.hpp", "scheduling/worker_context.hpp", "scheduling/task_context.hpp", "scheduling/group_context.hpp"],
  [("fan out", "scheduling/context_container.hpp")], [], ["hook calls received by each context"])
p("P15", "The concurrent queue behaves as an atomic first in first out queue",
  "Every access to the elements of the queue, including asking whether it is empty, happens while holding its lock, and the lock is released on every exit. Each pushed element is stored once at the back; a pop either returns true having moved the front element out and removed it, or returns false without touching anything, and only when the queue is empty.",
  ["schedules", "histories"], "all interleavings of pushes, pops and emptiness queries",
  "Unlocked accesses are invisible until two threads collide inside the queue.",
  ["concurrent_queue.hpp"], [("lock", "concurrent_queue.hpp: push, tryPop, empty")],
  [("elements", "queued elements", "concurrent_queue.hpp: queue_")], ["lock and queue operations"])
p("P16", "State shared between threads is only accessed through atomics or locks",
  "A piece of the state of a task, group, worker, scheduler, partitioner or synchronization object that several threads may access at the same time, at least one of them writing, is only accessed by indivisible, ordered operations or under a lock. Everything else is written only while a single thread can reach it.",
  ["schedules"], "all interleavings of all public operations",
  "Data races do not fail tests on x86; they depend on compiler and timing.",
  [TB, PG, SC, WK, "parallel_algorithms/atomic_partitioner.hpp", "parallel_algorithms/simple_partitioner.hpp"],
  [("atomic fields", TB + ", " + PG + ", " + SC + ", " + WK)], [], ["accesses to shared fields"])
p("P17", "The scheduler is reported idle only when it has nothing to do",
  "The scheduler is reported as idle only after having found each of its queues empty and each of its workers without a task, and is reported as busy only if one of them was not. Waiting for it to become idle ends only when it is idle or when the maximal time has elapsed.",
  ["schedules", "configurations"], "any number of workers and any content of the queues",
  "The tests never ask; the waiting function is not even compiled by them.",
  [SC], [("idle scan", SC + ": isIdle"), ("idle wait", SC + ": waitUntilIdle")], [], ["result of the idle query"])
p("P18", "Partitioners hand out every index exactly once",
  "The ranges handed out by a partitioner, over all the threads sharing it, are disjoint, non empty, inside the interval given at construction and together cover all of it, for any interval with at least one element, any positive grain and any positive number of batches. Once the interval is exhausted no range is handed out.",
  ["inputs", "schedules"], "every interval, grain and batch count, and every interleaving of the threads sharing the partitioner",
  "The tests try a few sizes starting at zero; errors are in remainders, offsets and races.",
  ["parallel_algorithms/simple_partitioner.hpp", "parallel_algorithms/atomic_partitioner.hpp", "parallel_algorithms/base_partitioner.hpp"],
  [("range computation", "parallel_algorithms/simple_partitioner.hpp: getNextValidRange"), ("range claiming", "parallel_algorithms/atomic_partitioner.hpp: getNextValidRange")],
  [("next range", "next batch or index to hand out", "batchIndex_, sharedIndex_")], ["ranges returned"])
p("P19", "A parallel loop calls its function once for each index of each range",
  "A parallel loop creates one task per batch, all sharing one partitioner and bound to one group; each of them draws ranges until there is none left and calls the function once for each index of each range, in order, with its own batch number if the function takes one. It returns only when all of them have completed, and does nothing for an empty interval.",
  ["inputs", "configurations", "schedules"], "any partitioner, function, number of batches and workers",
  "The tests check sums over a few sizes.",
  ["parallel_algorithms/parallel_for.hpp", "scheduling_helpers.hpp"], [("batch tasks", "parallel_algorithms/parallel_for.hpp: make_parallel_for_task_group"), ("loop", "parallel_algorithms/parallel_for.hpp: parallel_for")],
  [], ["calls of the user function"])
p("P20", "A parallel loop over a container visits each of its elements once",
  "A parallel loop over a container covers the indices from zero to its size, and for each index handed out calls the function once with that very element of that very container, by reference. An explicit partitioner, when given, decides the indices instead.",
  ["inputs", "configurations"], "any indexable container, any function, any partitioner",
  "The tests use one container type and one function.",
  ["scheduling_helpers.hpp"], [("element lookup", "scheduling_helpers.hpp: parallel_for_each")], [], ["elements passed to the user function"])
p("P21", "An auto reset event lets one waiter through per notification",
  "A wait on an auto reset event that succeeds has consumed exactly one notification and nobody else can consume it, and a wait that does not succeed has consumed none. A notification is remembered until somebody waits, and each notification is delivered.",
  ["schedules", "histories"], "any interleaving of notifications and waits, timed or not",
  "Tests have one waiter and one notifier.",
  [PE, "synchronization/interface/interface_event.hpp", SW], [("consumption", PE + ": wait, waitFor"), ("notification", PE + ": notify")], [], ["return of waits"])
p("P22", "A manual reset event stays signalled until it is reset",
  "Once notified, a manual reset event lets every waiter through, present and future, timed or not, until it is reset. Resetting leaves it not signalled, and never blocks the caller.",
  ["schedules", "histories"], "any number of waiters, notifications and resets",
  "Tests have one waiter; a lost re-notification only shows with several of them.",
  [PE, "scheduling/task_notifier.hpp"], [("re-notification by each released waiter", PE + ": wait, waitFor"), ("reset", PE + ": posix_event_manual_reset_policy")], [], ["return of waits and of reset"])
p("P23", "A mutex is owned by at most one thread",
  "A lock attempt succeeds only by taking the single ownership of the mutex, and one that fails takes nothing. Unlocking gives back one ownership, and unlocking a mutex that is not locked changes nothing; a mutex created as locked is owned by its creator, a mutex created as unlocked by nobody.",
  ["schedules", "histories"], "any interleaving of lock, try lock, timed lock and unlock",
  "Tests have two threads and one lock each.",
  [PM, "synchronization/interface/interface_mutex.hpp", SW], [("ownership", PM)], [], ["return of lock operations"])
p("P24", "A semaphore counts exactly",
  "A semaphore starts with its initial count, each unit notified adds exactly one, each successful wait takes exactly one and each failed wait takes none. Notifying all adds the maximal count, notifying nothing adds nothing.",
  ["inputs", "histories", "schedules"], "any initial count and any sequence of operations",
  "Tests use few counts.",
  [PS, "synchronization/interface/interface_semaphore.hpp", SW], [("counting", PS)], [], ["return of waits"])
p("P25", "A wait succeeds only if the object was signalled and never fails spuriously",
  "Waiting, trying and timed waiting report success if and only if the operating system granted the wait. A wait interrupted by a signal handler is resumed, not reported as a failure nor as a success.",
  ["fault_sequences", "schedules"], "every error the operating system can report, any number of interruptions",
  "Interruptions and errors do not occur in tests.",
  [SW, PE, PS, PM], [("error handling", SW + ": wait, tryWait, waitFor")], [], ["return of waits"])
p("P26", "Timed waits wait until the requested deadline",
  "A timed wait waits on the object until the present time plus the requested duration, without losing or adding time, whatever the unit and the moment it is called; the deadline given to the operating system is always well formed. Waiting until a point in time is waiting for the difference to the present time of its own clock.",
  ["inputs"], "every duration and every moment of the call",
  "A malformed deadline depends on the sub second part of the current time.",
  [SW, "synchronization/interface/interface_semaphore.hpp", "synchronization/interface/interface_event.hpp", "synchronization/interface/interface_mutex.hpp"],
  [("deadline", SW + ": waitFor")], [], ["deadline passed to the operating system"])
p("P27", "Creation options decide whether a named object is created or opened",
  "An object asked to be opened only is never created; an object asked to be created only is never an already existing one; an object asked to be opened or created is opened if it exists and created otherwise, with the requested initial state whenever it is created. A name that is not valid makes the object invalid without creating anything.",
  ["inputs", "configurations", "fault_sequences"], "every option, every name, whatever exists in the system",
  "Tests create a fresh name, then open it.",
  [SW, "synchronization/sync_common.hpp"], [("flags and initial count", SW + ": initGlobalSemaphore")], [], ["system objects created or opened, validity"])
p("P28", "Operating system objects are released exactly once, in the matching way",
  "An object created in memory is destroyed and its memory given back, a named object is closed, exactly once, when its last owner is destroyed, closed or overwritten, and never used afterwards. An object whose creation failed is invalid and holds nothing.",
  ["histories", "fault_sequences"], "any sequence of construction, failure, move, assignment, closing and destruction",
  "Leaks and double releases have no symptom in tests.",
  [SW, PE, PS, PM], [("release", SW + ": release")], [("handle", "object owned", SW + ": handle_")], ["creation and release calls"])
p("P29", "Moving transfers everything and leaves the source empty",
  "Moving a synchronization object, thread, task or handle, by construction or assignment, gives the target everything the source had, leaves the source without ownership, and releases what the target owned before. Assigning an object to itself changes nothing.",
  ["histories"], "any state of source and target",
  "Tests move a few freshly created objects.",
  [SW, PE, PS, PM, PT, IT, TH, TK, TB], [("move operations", "all move constructors and assignments")], [], ["state of source and target"])
p("P30", "A thread object is joinable exactly while it owns a running thread",
  "A thread object becomes joinable when its thread has been created and stays so until it is joined, detached, terminated or moved from, each of which acts once on the owned thread; a failed creation leaves it not joinable. Joining returns only after the thread has ended, a thread never joins itself, operations on a thread that is not joinable do nothing, and a joinable thread is never silently dropped.",
  ["histories", "fault_sequences"], "any sequence of operations, any operating system failure",
  "Tests create and join threads that always succeed.",
  [PT, IT], [("handle typestate", PT + ": create, join, detach, terminate")], [("handle", "thread owned", PT + ": handle_")], ["calls to the operating system"])
p("P31", "A started thread runs its function once, with its arguments",
  "The function and arguments given at construction are copied or moved into storage that outlives the construction; the new thread invokes that function with those arguments once, in order, and the storage is freed exactly once, by the thread if it was started and by the creator if not.",
  ["schedules", "fault_sequences", "inputs"], "any function and arguments, success or failure of the creation",
  "Ownership errors on the failure path are never reached by tests.",
  [IT, PT], [("launcher ownership", IT + ": launch, launcher"), ("thread entry", PT + ": create")], [], ["invocations and deallocations"])
p("P32", "Thread attributes are applied to the thread they are given for",
  "A thread is created with the requested stack size if there is one, with the requested scheduling priority when the system lets it, and with the requested core affinity; it carries the requested name. An attribute that cannot be set does not prevent the creation, and the attribute object is always given back.",
  ["inputs", "fault_sequences"], "every combination of attributes, every failure of the operating system",
  "Tests check few attributes and cannot make the operating system fail.",
  [PT, IT, "threading/thread_attributes.hpp"], [("attribute setup", PT + ": create")], [], ["calls to the operating system"])
p("P33", "Priorities and affinities survive a round trip",
  "Setting the priority or the core affinity of a thread and querying it again gives back the value that was set. The mapping of priorities to system priorities is monotonic and stays within the range of the system.",
  ["inputs", "configurations"], "every priority, every affinity mask, every system priority range",
  "Needs privileges and depends on the system's range.",
  [PT], [("priority mapping", PT + ": posix_thread_priority, get_priority"), ("affinity mask", PT + ": set_core_affinity_mask, get_core_affinity_mask")], [], ["values set and returned"])
p("P34", "Every documented operation can be used in every configuration",
  "Each public header can be included on its own and every public operation of every class can be instantiated, with checks enabled or disabled, in any number of translation units of one program. This holds for local and global objects, all task types, both partitioners and user supplied threads, notifiers, queues and contexts.",
  ["programs", "configurations"], "every public operation, with checks on and off",
  "Templates that tests do not instantiate are not compiled; tests are never built with checks off.",
  ["threading.hpp", "synchronization.hpp", "scheduling.hpp", "scheduling_helpers.hpp", "parallel_algorithms.hpp", "concurrent_queue.hpp", "error_handling.hpp"],
  [("templates", "all public headers")], [], ["compilation"])
p("P35", "Misuses of the interface are rejected at compile time",
  "Naming a local synchronization object, leaving a global one unnamed, resetting an auto reset event, copying a synchronization object, a thread, a task, a worker or a scheduler, or giving the scheduler a queue that cannot be default constructed does not compile.",
  ["programs"], "every program using the interface that way",
  "A test that does not compile cannot be part of the test program.",
  ["synchronization/sync_common.hpp", "synchronization/interface/interface_event.hpp", "synchronization/interface/interface_mutex.hpp", "synchronization/interface/interface_semaphore.hpp", IT, TK, TB, WB, SC],
  [("static assertions and deleted operations", "listed files")], [], ["compilation"])
p("P36", "Helper functions do what their name says with the documented defaults",
  "Each convenience overload creates or schedules a task or group of the type, priority, context and name it is asked for, with the documented defaults for what is not given, in the helper's own scheduler. Scheduling helpers submit exactly what they return, once; creation helpers do not submit; group helpers add all the tasks they are given, in order, before submitting the group.",
  ["programs", "configurations"], "every overload, any arguments",
  "Tests use a few overloads and look at neither priority nor type.",
  ["scheduling_helpers.hpp"], [("overloads", "scheduling_helpers.hpp")], [], ["tasks created and submitted"])
p("P37", "Runtime checks never change the behaviour they check",
  "The conditions and arguments of the library's assertions have no side effect, so that a program behaves the same with checks enabled and disabled as long as no check fails. Conditions the library relies on at run time are evaluated in both configurations. With checks enabled a condition is evaluated once and reported when it does not hold.",
  ["configurations", "programs"], "every assertion of the library",
  "Tests only run with checks enabled.",
  ["error_handling.hpp", TK, SC, SG, PG, TG, WK, TH], [("assertion macros", "error_handling.hpp")], [], ["effects of assertion conditions"])
p("P38", "Task identifiers are unique and never the invalid one",
  "Every created task or group receives an identifier that no other one has and that is not the invalid identifier, however many threads create tasks at the same time, and keeps it for life.",
  ["schedules", "histories"], "any number of tasks created concurrently",
  "Duplicates need two threads creating tasks at the same instant.",
  [TB], [("identifier generator", TB + ": uid_provider")], [("identifier", "identity of the task", TB + ": uid_")], ["identifier queries"])
p("P39", "A task handle acts on the very task it was made from",
  "Each operation of a handle is performed once on the task it refers to and its answer is the answer of that task; copies refer to the same task, a moved from or reset handle refers to none. A handle keeps its task alive, and only a handle referring to a task is valid.",
  ["histories", "programs"], "any sequence of handle operations",
  "Tests use few of the operations.",
  [TH], [("forwarding", TH)], [("task", "task referred to", TH + ": spTask_")], ["operations performed on the task"])
p("P40", "The Windows implementations give the same guarantees",
  "The Windows implementations of threads, mutexes, semaphores and events give the guarantees stated above for their interfaces.",
  ["configurations"], "the Windows platform",
  "They are not compiled on the platform of the tests.",
  ["threading/win_thread.hpp", "synchronization/win/win_mutex.hpp", "synchronization/win/win_semaphore.hpp", "synchronization/win/win_event.hpp"],
  [("Windows implementations", "win_*.hpp")], [], ["calls to the operating system"])
p("P41", "The scheduler has exactly the workers it was configured with",
  "Registering a worker configuration adds exactly the configured number of workers, each carrying that very configuration and numbered from zero when several share it, and the numbers of workers reported grow accordingly for exactly the priorities configured. Starting the scheduler starts every worker once, each on a thread of its own with the stack size, core affinity, thread priority and name configured, the name followed by the worker's number when the configuration is shared. A worker starts without a task.",
  ["configurations", "histories"], "any configurations, any number of workers and registrations",
  "Tests register one configuration and do not look at the threads that come out of it.",
  [SC, WB, WK], [("registration and start", SC + ": registerWorker(s), start"), ("thread of a worker", WK + ": start"), ("number, name and configuration", WB)], [("workers", "workers of the scheduler and their number per priority", SC + ": workers_, workersPerPrio_")], ["threads created", "numbers of workers reported", "names, numbers and configurations of workers"])
p("P42", "Nothing is used after it may have been destroyed",
  "A task, group or worker stays alive while the library uses it, even if the user keeps no handle to it: a member keeps its group alive until it has told it of its completion, whoever executes a task keeps it alive until the end of the execution, nothing is used once the last handle the library holds on it has been given up, no element is used after its removal from its container, and the thread of a worker uses nothing that belongs to the call that started it.",
  ["schedules", "histories"], "any program that drops its handles at any time",
  "Tests keep their handles; what is destroyed too early mostly still works.",
  ["scheduling/task_group_base.hpp", TG, SG, PG, WK, SC, TH], [("release of the group by its member", "scheduling/task_group_base.hpp: notifyParent"), ("binding of a member", "scheduling/task_group.hpp: addTask"), ("task executed", "scheduling/worker.hpp: run")], [("shares", "handles on tasks and groups", TH + ": spTask_, " + TB + ": spParentGroup_")], ["accesses to tasks and groups"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
