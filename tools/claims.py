c("P01", AI, "Every path of task execution, group hand-out, worker and scheduler paths that reaches an execution first wins the task's claim by an indivisible step." + TR)
c("P04", AI, "Waiting returns on no path on which completion was neither observed nor waited for." + TR)
c("P05", AI, "On every path that runs a task or completes a group, done flag, notification and parent notification happen exactly once and in order." + TR)
c("P06", AI, "Arguments and results are tracked as symbolic values from caller to function and back." + TR)
c("P07", AI, "Order of hand-over between the members of a sequence, on every path, for an unbounded list (loop invariants)." + TR)
c("P08", AI, "Every member is handed out, and the group completes on the last decrement of its counter only." + TR)
c("P09", AI, "The number of handed-out members is bounded by the limit by a credit argument per event." + TR)
c("P10", AI, "The parent is bound before the member can run; counters cover the members added." + TR)
c("P38", AI, "Identifiers come from one indivisible increment of one counter and never equal the invalid value." + TR)
c("P39", AI, "Each handle operation reaches the virtual slot or field of the very task it was made from." + TR)
c("P02", AI, "Submission pushes before it notifies every able worker; a worker blocks only after a complete scan since it consumed its notification." + TR)
c("P03", AI, "Tasks popped by a worker are tracked until executed, claimed by another or re-queued." + TR)
c("P11", AI, "Every queue searched and every priority used is compared with the task's effective priority and the worker's allowed priorities on every path." + TR)
c("P12", AI, "Stop request, wake-ups and joins of every worker in order on every path of stop(); a stopped worker does not block again." + TR)
c("P13", AI, "Automata over hooks, searches, executions and notifications. Two known findings: a limited parallel group awaited actively." + TR)
c("P14", AI, "Every forwarding function of a list of three contexts reaches each of them once, in order, with the same arguments." + TR)
c("P15", AI, "Lockset analysis including the exceptional edges, and effect of each operation on the container." + TR)
c("P18", AI, "Ranges handed out by consecutive draws are compared for every pair of paths, as functions of the one shared value." + TR)
c("P19", AI, "Every task created by a loop is itself executed abstractly where it is added; tasks, batch numbers and indices are counted by loop invariants for any number of batches and any range." + TR)
c("P20", AI, "Same machinery; the element passed is compared with the address the container gives for the index handed out." + TR)
c("P17", AI, "Idleness is reported only on paths that examined every queue and every worker." + TR)
c("P21", AI, "Wait, try, timed wait and notify of the auto-reset event with every outcome of every system call; a ledger of units compares what was taken with what is reported." + TR)
c("P22", AI, "Manual-reset event: every path that consumes the signal posts it again, and reset drains it without blocking, for every outcome of every call." + TR)
c("P23", AI, "Mutex: ownership is granted exactly when it was taken and given back once, on every path and outcome; the initial ownership is compared with the one asked for." + TR)
c("P24", AI, "Semaphore: the ledger of units agrees with the counts asked for on every path and outcome; loops are handled by invariants." + TR)
c("P25", AI, "Interrupted waits are retried and failures of the operating system are never reported as success, for every outcome of every call including errno." + TR)
c("P26", AI, "The absolute deadline handed to the operating system is compared as a polynomial in the requested duration and the current time, and its fields are proved well formed." + TR)
c("P27", AI, "Names, flags, initial values and unlinking of global objects on every path and outcome of creation and opening." + TR)
c("P28", AI, "Histories of creation, move, assignment, close and destruction; every operating-system object acquired is released exactly once, by the matching call, and not used afterwards." + TR)
c("P29", AI, "Moves of every synchronization object, thread, task and handle: what the target has afterwards, what the source has, and what was released, are compared with the state before on every path and outcome." + TR)
c("P30", AI, "Ledger of the threads owned through every operation and through histories of operations, for every outcome of every system call." + TR)
c("P31", AI, "The function handed to the system is interpreted as the body of the new thread from the state its creator left; ownership of the storage is followed through both." + TR)
c("P32", AI, "The attribute calls that reach the creation of the thread on every path and outcome are compared with the attributes asked for." + TR)
c("P33", AI, "Constant propagation through the priority mapping, in floating point, for each priority; the affinity is followed symbolically through the sets of processors. The system is assumed to store what it is given and to have the priorities 1 to 99." + TR)
c("P36", AI, "Every overload of the convenience functions, for each kind of task and group, is compared field by field with the object asked for: dynamic type, priority, name, contexts, function, members, scheduling." + TR)
c("P41", AI, "Registration and start for configurations of any count (loop invariants): workers made, their numbers and configurations, the counts reported, and the thread each worker starts, compared with those asked for." + TR)
c("P42", AI, "Ledger of the shares held on each path; a use of an object or element after the last known share was given up is reported. Shares held by callers are assumed to last for the call; what a user queue does with the handle it was given is unknown." + TR)
CT = "compile-time witnesses: type checking and instantiation of the headers by clang and gcc, symbol analysis of the objects"
c("P34", CT, "Each header alone, and programs using every public operation with default and least user supplied parts, for two compilers and both NDEBUG settings; symbols of the results show what is undefined or defined too often. The witnesses list the operations by hand: an operation added later is only covered once it is added to them.")
c("P35", "compile-fail witnesses: misusing programs that must be rejected, each paired with a correct one that must be accepted", "Each misuse is one program that differs from an accepted one only by the misuse, type-checked with clang (thorough: gcc too) under both NDEBUG settings.")
c("P16", "static race detection: abstract interpretation of every operation records its accesses, then every pair of accesses that may coincide is judged", "Which operations may run at the same time on one object is fixed by a table of roles (executor, last finisher, waiter, ...), phases change at the atomic step that makes them exclusive. Construction, adding members, moving and the single threaded debug execution are set up, not shared. User supplied queues, events and notifiers are taken to be thread safe (that of the library is judged by P15, P21 to P28).")
c("P37", "interprocedural effect analysis of the conditions and messages of checks; structural comparison of both configurations; path exploration of the macros", "The checks are made functions of their own by a header included first, every use instantiated by the witnesses is summarised; std::shared_ptr counts and standard containers are understood by models. What is compared is the IR of every function with and without NDEBUG.")
NOT_APPLICABLE = {
 "P40": "the win_* implementations cannot be compiled or type-checked here: windows.h is not available, so there is no IR or typed tree to analyse",
}
