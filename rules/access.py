"""State shared between threads (P16): which operations may run at the same time on an object, and how each of them
accesses each part of it.  Two accesses that may coincide, one of them writing, have to be indivisible both."""
from lib import *
from tasks import TASKS, GROUPS, EVENT
import loops, sync

TU = "core.cpp"
PARS = ("ParW", "ParF"); SEQS = ("SeqW", "SeqF")
READS = ("empty", "size", "front", "back", "begin", "end", "cbegin", "cend", "operator[]", "at", "get", "joinable", "data", "capacity", "operator->", "operator*", "operator bool", "c_str", "find", "count", "use_count", "lock")
# entry points: root -> (kind of the first argument, role, kinds of the other arguments)
def roots():
    out = {}
    for t in TASKS:
        out["r_%s_execute" % t] = (t, "E1", {}); out["r_%s_wait" % t] = (t, "A", {}); out["r_%s_activeWait" % t] = (t, "A", {})
    for r in ("TaskWI_getResult", "TaskFI_getResult", "TaskWI_waitForResult", "TaskWV_getResult", "TaskWV_waitForResult"): out["r_" + r] = (r.split("_")[0], "R", {})
    for g in GROUPS:
        out["r_%s_execute" % g] = (g, "E1", {}); out["r_%s_oneTaskDone" % g] = (g, "M1", {}); out["r_%s_wait" % g] = (g, "A", {})
        if g in PARS: out["r_%s_activeWait" % g] = (g, "A", {})
    for a in ("tryGrab", "isGrabbed", "isDone", "getPriority", "getUID"): out["p_" + a] = ("task", "A", {})
    for a in ("isDone", "tryGrab", "isGrabbed", "getPriority", "getUID", "wait", "activeWait"): out["r_handle_" + a] = ("handle", "A", {})
    out["r_worker_run"] = ("sched", "A", {2: "config"})
    for a, r in (("stop", "A"), ("notify", "A"), ("tryWait", "E"), ("wait", "E"), ("join", "J")): out["r_worker_" + a] = ("worker", r, {})
    out["p_can"] = ("worker", "A", {})
    out["r_sched_add"] = ("sched", "A", {1: "handle", 2: "handle"})
    out["r_sched_idle"] = ("sched", "A", {}); out["r_sched_waitIdle"] = ("sched", "A", {})
    out["r_sched_start"] = ("sched", "C", {}); out["r_sched_stop"] = ("sched", "C", {})
    return out
ROOTS = roots()
CTORS = ["r_%s_ctor" % t for t in TASKS + GROUPS] + ["r_sched_ctor", "r_sched_register", "r_sched_register2"]
SYNCOPS = ("wait", "waitFor", "waitUntil", "notify", "notifyOne", "reset", "lock", "unlock", "tryLock", "tryLockFor", "tryLockUntil", "try", "tryWait")


def base_kind(k): return "task" if k in TASKS + GROUPS else k


class Access(Mon):
    """records how an entry point accesses the objects other threads may reach"""
    def __init__(self, ck, mod, kind, role, args, lay):
        self.ck = ck; self.kind = kind; self.role = role; self.argk = args; self.L = lay; self.models = dict(EVENT); self.ld = {}; self.seen = set()
        if kind.startswith("partitioner"): self.models["verif_mark"] = loops.m_mark
    def init(self, st):
        st.mon['ph'] = '' if self.kind.startswith("partitioner") else "S0" if self.root == "r_worker_run" else self.role; st.mon['last'] = None

    # ---- what an address is a part of: (kind of object, offset) ----
    def cell(self, a, ex, depth=0):
        if not is_num(a) or depth > 6: return None
        b, o = split_ptr(a)
        if b is None: return None
        off = o if isinstance(o, int) else o[1] if isinstance(o, tuple) and o[0] == 'P' else 0
        d = SYM[b][0]; k = d[0]
        if k == 'arg':
            if d[1] == 0: kd = self.kind
            else: kd = self.argk.get(d[1], "other") if isinstance(self.argk, dict) else "other"
            return (kd, off)
        if k in ('al', 'fn'): return None
        if k == 'gl': return ("global", d[1])
        if k == 'hp': return ("worker", off) if self.root == "r_worker_run" else None
        if k == 'elem':
            c = self.cell(d[2], ex, depth + 1) if len(d) > 2 else None
            return c and (("buf", c), off)
        if k == 'm':
            c = self.cell(d[1], ex, depth + 1)
            if c is None: return ("task", off)       # a pointer kept in a local handle
            kd, x = c
            if kd in ("handle",): return ("task", off)
            if kd == "global": return None
            if isinstance(kd, tuple): return ("worker" if kd[1][0] == "sched" else "task", off)
            t = base_kind(kd)
            if t == "task":
                if x == 0: return None               # virtual table
                if x == self.L.parent: return ("task", off)
                return (("buf", c), off)
            if kd == "sched": return (("buf", c), off)
            if kd == "worker":
                if x == 0: return None
                return ("task", off) if x in (self.L.wtask,) else ("sched", off)
            return (("buf", c), off)
        if k in ('x', 'w'): return ("task", off)
        return None

    def name(self, c):
        kd, o = c
        L = self.L
        if kd == "global": return "global %s" % names.demangle(o) if hasattr(names, "demangle") else "global %s" % o
        if isinstance(kd, tuple): return "elements of " + self.name(kd[1])
        f = {}
        if L is not None:
            if base_kind(kd) == "task": f = {L.grab: "token", L.done: "done", L.prio: "priority", L.parent: "parent", L.parent + 8: "parent", L.uid: "uid"}
            if kd == "worker": f = {L.wtask: "task", L.wtask + 8: "task"}
        return "%s.%s" % (base_kind(kd) if o in f else kd, f.get(o, "+%d" % o))

    # ---- the role at this point ----
    def now(self, st):
        m = st.mon; ph = m['ph']
        if m['last'] is not None and self.kind in GROUPS and ph in ("M1", "M2", "E1", "E2", "A"):
            old, new, c, order = m['last']
            for k in (0, 1):
                for v, n in ((old, "o"), (new, "n")):
                    if st.decide(eq(num(v), k)) is True: return "L:%s:%s%d" % (c, n, k), order
        return ph, None

    def rec(self, ex, st, a, size, write, order):
        if not st.mon['ph']: return
        c = self.cell(a, ex)
        if c is None or c[0] in ("handle", "config", "other"): return
        role, lo = self.now(st)
        if self.argk == "globals":
            if c[0] != "global": return
        if c[0] == "global":
            g = ex.mod.globs.get(c[1])
            if c[1].startswith(("_ZTV", "_ZTS", "_ZTI", "_ZTT", ".str", "__const", "_ZGV")) : return
            role = "A"
        elif base_kind(c[0]) == "task" and c[0] != self.kind and c[0] != "task": pass
        if c[0] != self.kind and not (isinstance(c[0], tuple) and c[0][1][0] == self.kind) and c[0] != "worker": role = "A"
        if c[0] == "worker" and self.kind == "sched" and self.root != "r_worker_run": role = "A"
        if self.root == "r_worker_run" and c[0] == "sched": role = "A"
        if self.root == "r_worker_run" and role == "S0" and c[0] == "worker": return
        k = (c, size, bool(write), order, role, lo)
        if k in self.seen: return
        self.seen.add(k)
        self.ck.data.append(dict(kind=c[0], off=c[1], size=size, write=bool(write), order=order, role=role, root=self.root, loc=ex.loc(st), name=self.name(c), cls=self.kind))
        if order != "na" : self.ck.obligation()
        if lo is not None and role.startswith("L:") and order == "na" and write and lo not in ("acq_rel", "seq_cst"):
            self.bad(ex, st, ("countdown", self.name(c)), "the last of several threads continues after a countdown that does not order what the others did before (%s)" % lo)

    def event(self, ex, st, kind, e):
        m = st.mon
        if self.root == "r_worker_run":
            if kind == "load" and m['ph'] == "S0":
                b, o = split_ptr(e["addr"])
                if b is not None and SYM[b][0][0] == 'gl' and SYM[b][0][1].startswith("_ZTV") and o == 16 + self.L.slots["wstart"]: m['ph'] = "S1"
            if kind == "call" and e["name"] == "verif_thread_begin": m['ph'] = "E"
            if kind == "call" and e["name"] == "verif_thread_end": m['ph'] = "S2"
        if kind in ("load", "store", "rmw", "cas"):
            if kind == "load" and e["order"] != "na":
                s = only_sym(e["val"]) if is_num(e["val"]) else None
                if s is not None: self.ld[s] = e["addr"]
            if kind == "store" and e["order"] != "na" and e["val"] is not None:
                for s in deps(e["val"]):
                    if s in self.ld and st.equal(self.ld[s], e["addr"]) and self.cell(e["addr"], ex):
                        self.bad(ex, st, ("split", self.name(self.cell(e["addr"], ex))), "a value shared between threads is read and written back in two steps")
            wr = kind in ("store", "rmw") or kind == "cas" and e["ok"]
            self.rec(ex, st, e["addr"], e["size"], wr, e["order"])
            c = self.cell(e["addr"], ex)
            if c is not None and c[0] == self.kind:
                if kind in ("rmw", "cas") and (kind == "rmw" or e["ok"]):
                    m['last'] = (e["old"], e["new"], c[1], e["order"])
                    if kind == "rmw" and m['ph'] == "M1" and self.kind in PARS: m['ph'] = "M2"
                    if kind == "cas" and self.L is not None and c[1] == self.L.grab and m['ph'] == "A" and self.kind in TASKS: m['ph'] = "E1"
                if wr and self.L is not None and base_kind(self.kind) == "task" and c[1] == self.L.done and self.kind in TASKS and m['ph'] == "E1": m['ph'] = "E2"
        if kind == "call":
            n = e["name"]; last = n.split("::")[-1]
            if n.startswith("llvm.mem"):
                ln = e["args"][2] if n.startswith(("llvm.memcpy", "llvm.memmove")) else e["args"][1]
                ln = e["args"][2]
                sz = ln if isinstance(ln, int) else 8
                self.rec(ex, st, e["args"][0], sz, True, "na")
                if not n.startswith("llvm.memset"): self.rec(ex, st, e["args"][1], sz, False, "na")
            elif n.startswith(("std::", "Th::", "FnI::", "FnV::", "__gnu_cxx::")):
                for i, a in enumerate(e["args"]):
                    if a is None or not is_num(a) or isinstance(a, int): continue
                    if i == 0: self.rec(ex, st, a, 8, last not in READS, "na")
                    elif n.startswith(("std::__shared_count", "std::shared_ptr", "std::__shared_ptr")): self.rec(ex, st, a, 8, False, "na")
            if n == "SchedStub::add" and self.kind in SEQS: m['ph'] = {"E1": "E2", "M1": "M2"}.get(m['ph'], m['ph'])
            if n == "verif_mark" and self.kind.startswith("partitioner"): m['ph'] = self.role
        if kind == "vcall" and self.kind in SEQS and self.L is not None and e["slot"] == self.L.slots["execute"]:
            m['ph'] = {"E1": "E2", "M1": "M2"}.get(m['ph'], m['ph'])


class SyncAccess(sync.Op):
    """operations of the synchronization objects: any number of threads at once; a locked mutex has one holder"""
    def __init__(self, ck, kind, T, off, dur):
        super().__init__(ck, kind, sync.OBJ[T], off, "P16", dur); self.T = T; self.seen = set(); self.asserts = ()
    def init(self, st): super().init(st); st.mon['role'] = "O" if self.kind == "unlock" else "A"
    def rep(self, *a): pass
    def rec(self, ex, st, a, size, write, order):
        if not is_num(a): return
        b, o = split_ptr(a)
        if b is None: return
        d = SYM[b][0]
        off = o if isinstance(o, int) else o[1] if isinstance(o, tuple) and o[0] == 'P' else 0
        if d[0] == 'arg' and d[1] == 0: kd = "sync object " + self.T
        elif d[0] == 'gl' and not d[1].startswith(("_ZTV", "_ZTS", "_ZTI", ".str", "__const", "_ZGV", "stderr", "stdout")): kd, off = "global", d[1]
        else: return
        k = (kd, off, size, bool(write), order, st.mon['role'])
        if k in self.seen: return
        self.seen.add(k)
        self.ck.data.append(dict(kind=kd, off=off, size=size, write=bool(write), order=order, role=st.mon['role'], root=self.root, loc=ex.loc(st), name="%s %s" % (kd, off if kd == "global" else "+%d" % off), cls=kd))
    def event(self, ex, st, kind, e):
        m = st.mon
        if kind in ("load", "store", "rmw", "cas"): self.rec(ex, st, e["addr"], e["size"], kind in ("store", "rmw") or kind == "cas" and e["ok"], e["order"])
        if kind == "call":
            n = e["name"]; last = n.split("::")[-1]
            if n in sync.TAKE and e["tag"] == "granted" and self.obj == "mutex": m['role'] = "O"
            if n == "sem_post" and self.obj == "mutex": m['role'] = "A"
            if n.startswith("std::"):
                for i, a in enumerate(e["args"]):
                    if i == 0 and a is not None and not isinstance(a, int): self.rec(ex, st, a, 8, last not in READS + ("length",), "na")
    def finish(self, ex, st, ret): pass


def job_sync(ck, nd, root, kind, T, dur):
    mod = ck.mod("sync.cpp", nd)
    r = SyncAccess(ck, kind, T, sync.handle_off(ck, mod, T), dur); r.root = root
    ck.explore(mod, root, r, setup=r.setup)
    ck.obligation()
    for d in ck.data: d["nd"] = nd


def concurrent(kind, a, b):
    """may two threads do this at the same time to one object?"""
    x, y = sorted((a, b))
    k = kind[1][0] if isinstance(kind, tuple) else kind
    if k == "global": return True
    if k in TASKS or k == "task" or k in GROUPS:
        if k in PARS:
            if x[0] == "E" and y[0] == "E": return False
            if x[0] == "L" and y[0] == "L": return x != y
            if x[0] == "L" and y == "M1": return False
            return True
        if k in SEQS:
            if x in ("E1", "M1") and y in ("E1", "M1"): return False
            return True
        if x[0] == "E" and y[0] == "E": return False
        if x == "E1" and y == "R": return False
        return True
    if k == "worker":
        if x == "E" and y == "E": return False
        if x[0] in "SJ" and y[0] in "SJ": return False
        if {x, y} == {"S1", "E"}: return False
        return True
    if k.startswith("sync"): return not (x == "O" and y == "O")
    if k == "sched": return not (x == "C" and y == "C")
    return True


def short(root):
    p = root.split("_")
    return "_".join(p[2:]) if p[1] in TASKS + GROUPS else root


def judge(ck, recs):
    """pairs of accesses that may coincide"""
    bykind = {}
    for r in recs: bykind.setdefault(r["kind"], []).append(r)
    def over(a, b):
        if isinstance(a["off"], int) and isinstance(b["off"], int): return a["off"] < b["off"] + b["size"] and b["off"] < a["off"] + a["size"]
        return a["off"] == b["off"]
    def pairs():
        for k, l in bykind.items():
            for i, a in enumerate(l):
                for b in l[i:]: yield k, a, b
        for k in TASKS + GROUPS:
            for a in bykind.get(k, []):
                for b in bykind.get("task", []): yield k, a, b
    n = 0
    for k, a, b in pairs():
        # what lies inside the elements of a container: any of them
        if not isinstance(k, tuple) and not over(a, b): continue
        if not (a["write"] or b["write"]): continue
        if not concurrent(k, a["role"], b["role"]): continue
        n += 1
        if a["order"] != "na" and b["order"] != "na": continue
        w, r = (a, b) if a["write"] and (a["order"] == "na" or not (b["write"] and b["order"] == "na")) else (b, a)
        ck.violation(("race", w["name"], short(w["root"]), short(r["root"])),
                     "%s is written (%s, %s) while another thread may %s it (%s), and one of the accesses is not indivisible [%s, %s]" % (w["name"], w["root"], where(w), "write" if r["write"] else "read", where(r), w["root"], r["root"]), w["loc"])
    # a reader of the result does not coincide with the execution because it saw the done flag, which has to publish the result
    for r in recs:
        if r["name"] != "task.done" or r["order"] == "na": continue
        if r["write"] and r["order"] not in REL:
            ck.violation(("publish", r["root"]), "the done flag is set without ordering (%s), a thread that sees it races with what the execution wrote [%s, %s]" % (r["order"], r["root"], where(r)), r["loc"])
        if not r["write"] and r["root"] in ("p_isDone", "r_handle_isDone") and r["order"] not in ACQ:
            ck.violation(("publish", r["root"]), "the done flag is answered without ordering (%s), the caller races with what the execution wrote [%s, %s]" % (r["order"], r["root"], where(r)), r["loc"])
    ck.count("pairs of accesses that may coincide", n)
    ck.count("accesses to shared objects", len(recs))
    ck.count("obligations", len(recs) + n)


def where(r): return "%s:%s" % tuple(r["loc"][:2]) if r["loc"] else "-"


def job(ck, tu, nd, root, spec):
    mod = ck.mod(tu, nd)
    kind, role, args = spec
    lay = layout(ck, mod) if tu == TU else None
    try: ck.explore(mod, root, Access(ck, mod, kind, role, args, lay))
    except Incomplete as e:
        # the accesses made on the way count, whether or not a path comes to its end
        if "no path" not in str(e) or not ck.data: raise
        ck.roots.append("%s:%s" % (mod.label, root))
    for d in ck.data: d["nd"] = nd


def run_P16(ck):
    ck.rule_text = "for any two accesses to one part of an object that two threads may make at the same time, one of them a write: both are atomic operations; the done flag, after which results are read, is written with release and answered with acquire order"
    jobs = []
    for nd in CONFIGS:
        for r, s in ROOTS.items(): jobs.append(("%s/%d" % (r, nd), job, (TU, nd, r, s)))
        for r in CTORS: jobs.append(("%s/%d" % (r, nd), job, (TU, nd, r, ("none", "A", "globals"))))
        for r in ("l_A_draw", "l_A_drawc", "l_A_valid", "l_A_batches", "l_A_elements", "l_S_draw", "l_S_drawc", "l_S_valid", "l_S_batches", "l_S_elements"):
            jobs.append(("%s/%d" % (r, nd), job, (loops.TU, nd, r, ("partitioner " + r[2], "A", {}))))
        for r, k, T, dur in sync.op_roots(): jobs.append(("%s/%d" % (r, nd), job_sync, (nd, r, k, T, dur)))
    ck.parts(jobs, tus=(TU, loops.TU, "sync.cpp"))
    for nd in CONFIGS: judge(ck, [d for d in ck.data if d["nd"] == nd])
    ck.explanation = ("every operation of tasks, groups, handles, workers, the scheduler, partitioners and synchronization objects is explored and each of its accesses to memory other threads may reach is recorded with the object, "
                      "the part, the order and the role of the thread at that point; all pairs of recorded accesses to one part that may coincide are then judged")
    ck.configs = ["with checks", "without checks"]
