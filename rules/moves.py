"""Moves (P29): of synchronization objects, threads, tasks and handles, with the rules of their classes."""
from lib import *
import sync, results, threads
from tasks import build_both
HANDLES = ("copy", "move", "assign", "massign")


def run_P29(ck):
    ck.explanation = ("histories in which every synchronization object and thread is moved by construction and assignment (to a fresh object, to one that owns something, to itself, from a temporary) and used afterwards, with every outcome of "
                      "every system call; moves of tasks and handles from any state")
    ck.rule_text = ("the system object, name, ownership and counts of the source are exactly those the target has afterwards and the source has none; what the target had is released once; assigning to itself changes nothing; a moved task has "
                    "the function, result, state, identifier, priority, group, context and event of its source, which is bound to no group any more; a moved handle refers to nothing")
    build_both(ck)
    j = sync.hist_jobs("P29", ("move", "assign", "chain", "self", "temp"))
    j += [("all " + n, sync.job_all, (nd, "P29", n)) for nd in CONFIGS for n in sync.ALLS if sync.ALLS[n][3] == "P29"]
    j += [("%s %s" % (t, w), results.job_task, (nd, t, w)) for nd in CONFIGS for t in ("TaskWI", "TaskWV") for w in ("move", "assign")]
    j += [("handle " + op, results.job_handle, (nd, op)) for nd in CONFIGS for op in HANDLES]
    j += threads.thread_moves()
    ck.parts(j, tus=("sync.cpp", threads.TU))
