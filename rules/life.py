"""Lifetimes: nothing is used once the last handle known to keep it alive has been given up (P42)."""
from lib import *
from tasks import *
from sched import places, m_bool2
import models

TU_L = "life.cpp"
MANY = 4


def is_count(p): return p.startswith("std::__shared_count<") or p.startswith("std::__weak_count<")


def s_ctor(ex, st, ins, fn, args):
    """a share is taken: by copying a count"""
    ps = names.params(fn.dname) or []
    if len(args) >= 2 and ps and is_count(ps[0]) and "&&" not in ps[0]:
        v = st.read(args[1], 8, True); ex.rule.take(ex, st, v, st.read(sub(args[1], 8), 8, True) if "__shared_count" in ps[0] else None)
        st.write(args[0], 8, v)
        return models.O(args[0] if ins.ty.k == "ptr" else None)
    return None


def s_dtor(ex, st, ins, fn, args):
    ex.rule.give(ex, st, st.read(args[0], 8, True), st.read(sub(args[0], 8), 8, True)); return models.O(None)


def s_assign(ex, st, ins, fn, args):
    ps = names.params(fn.dname) or []
    if len(args) >= 2 and ps and is_count(ps[0]) and "&&" not in ps[0]:
        old, v = st.read(args[0], 8, True), st.read(args[1], 8, True)
        if not st.equal(old, v):
            ex.rule.take(ex, st, v, st.read(sub(args[1], 8), 8, True) if "__shared_count" in ps[0] else None); ex.rule.give(ex, st, old)
        st.write(args[0], 8, v)
        return models.O(args[0] if ins.ty.k == "ptr" else None)
    return None


def q_pop(ex, st, ins, fn, args):
    """the element at the front is destroyed"""
    ex.rule.removed(ex, st, S(('elem', "front", args[0], models.qver(st, args[0])), True))
    return models.m_queue(ex, st, ins, fn, args)


class Life(Mon):
    def __init__(self, ck, mod, checks=True):
        self.ck = ck; self.L = layout(ck, mod); self.models = dict(EVENT); self.models["Nf::tryWait"] = m_bool2
        self.models.update({"std::__shared_count::__shared_count": s_ctor, "std::__shared_count::operator=": s_assign, "std::__shared_count::~__shared_count": s_dtor})
        for c in ("queue", "deque", "__cxx11::list"):
            for n in ("pop", "pop_front"): self.models["std::%s::%s" % (c, n)] = q_pop
        self.threads = 0
    def init(self, st): st.mon['cr'] = (); st.mon['dead'] = (); st.mon['x'] = (); st.mon['thr'] = ''

    # ---- the ledger
    def n(self, st, c):
        for k, v in st.mon['cr']:
            if k == c: return v
        return 1
    def put(self, st, c, n):
        l = tuple(x for x in st.mon['cr'] if x[0] != c)
        st.mon['cr'] = l if n == 1 else (l + ((c, n),))[-12:]
    def what(self, st, c):
        """the object a share is about"""
        for k, x in st.mon['x']:
            if k == c: return x
        A = loaded_from(c)
        return S(('m', sub(A, 8), 8), True) if A is not None else None
    def take(self, ex, st, c, x):
        if isinstance(c, int): return
        self.ck.obligation(); n = self.n(st, c)
        if n < MANY: self.put(st, c, n + 1)
        if x is not None and not isinstance(x, int): st.mon['x'] = (tuple(y for y in st.mon['x'] if y[0] != c) + ((c, x),))[-8:]
    def give(self, ex, st, c, x=None):
        if isinstance(c, int): return
        self.ck.obligation(); n = self.n(st, c)
        if n >= MANY or n <= 0: return
        self.put(st, c, n - 1)
        if n == 1:
            y = self.what(st, c); x = y if y is not None else x
            if x is not None and not isinstance(x, int): self.kill(ex, st, x, "")
    def kill(self, ex, st, x, how):
        b, o = split_ptr(x)
        if b is None: return
        st.mon['dead'] = (tuple(y for y in st.mon['dead'] if y[0] != P_of(b)) + ((P_of(b), how),))[-8:]
        self.note(ex, st, "gives up the last handle known on %s" % show(x))
    def removed(self, ex, st, el):
        c = st.read(add(el, self.L.hptr + 8), 8, True)
        self.give(ex, st, c); self.kill(ex, st, el, "e")

    # ---- uses
    def use(self, ex, st, a, ins, what):
        if not is_num(a) or isinstance(a, int): return
        b, o = split_ptr(a)
        if b is None: return
        if st.mon['dead']:
            self.ck.obligation(); p = P_of(b)
            for d, how in st.mon['dead']:
                if d == p:
                    if how: self.bad(ex, st, ("removed", what), "an element of a container is used after it has been removed")
                    else: self.bad(ex, st, ("freed", what), "an object is used after the last handle known to keep it alive has been given up")
                    st.mon['dead'] = tuple(y for y in st.mon['dead'] if y[0] != d); return
        if st.mon['thr'] and SYM[b][0][0] == 'al':
            self.ck.obligation()
            for s in st.mon['thr']:
                if s == b: self.bad(ex, st, ("thread", "stack"), "the function of a thread uses a local variable of the thread that started it"); st.mon['thr'] = (); return

    def event(self, ex, st, kind, e):
        if kind == "loop":
            prune(ex, st, 'dead'); prune(ex, st, 'x'); prune(ex, st, 'cr')
            return
        if kind == "call" and e["name"] == "verif_thread_begin":
            self.threads += 1
            st.mon['thr'] = tuple(b for b in st.mem if b is not None and SYM[b][0][0] == 'al')
        elif kind == "call" and (e["name"] == "verif_thread_end" or e["name"] == "WC::onStart"): st.mon['thr'] = ()
        elif kind == "vcall": self.use(ex, st, e["obj"], e.get("ins"), "call")
        elif kind in ("load", "store", "cas", "rmw"): self.use(ex, st, e["addr"], e["ins"], kind)

    def finish(self, ex, st, ret):
        r = self.root.split("_")
        if r[-1] == "addTask" and r[1] in GROUPS:
            t = S(('m', add(S(('arg', 1, self.root), True), self.L.hptr), 8), True); p = add(t, self.L.parent)
            if st.equal(st.read(p, 8, True), S(('arg', 0, self.root), True)):
                self.ck.obligation()
                if st.decide(eq(num(st.read(add(p, 8), 8, True)), 0)) is True: self.bad(ex, st, ("bound", "share"), "a task is bound to its group without keeping it alive")


def job_life(ck, nd, root):
    mod = ck.mod(TU_L, nd); r = Life(ck, mod)
    ck.explore(mod, root, r)
    if root == "r_worker_run" and not r.threads: raise Incomplete("no thread of a worker was seen")


ROOTS = (["r_worker_run", "r_worker_stop", "r_worker_join", "r_worker_dtor", "r_sched_add", "r_sched_signal", "r_sched_stop", "r_sched_start", "r_sched_dtor", "r_sched_idle"]
         + ["r_%s_%s" % (t, o) for t in TASKS for o in ("execute", "executeST", "activeWait", "setParent")]
         + ["r_%s_%s" % (t, o) for t in GROUPS for o in ("execute", "executeST", "activeWait", "oneTaskDone", "addTask", "setParent", "wait")]
         + ["r_handle_%s" % o for o in ("execute", "executeST", "wait", "activeWait", "isDone", "tryGrab", "setParent", "reset", "assign", "massign", "copy", "move")])


def run_P42(ck):
    ck.rule_text = ("ledger of the shares in each task and group held on a path (the one found at entry, each copy, each release, the removal of elements from containers): once the last one known is given up, neither a call nor an access goes to the object; "
                    "no element is used after its removal from its container; the function of a worker's thread uses no local variable of the thread that started it; a member bound to a group holds a share in it")
    ck.explanation = "abstract interpretation of the worker's thread, of submission, start and stop, and of every operation of tasks, groups and handles, with the shares as ledger"
    build_both(ck, TU_L)
    ck.parts([(r, job_life, (nd, r)) for nd in CONFIGS for r in ROOTS])
