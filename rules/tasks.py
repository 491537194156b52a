"""Tasks and groups as units of execution: ownership of the execution (P01), completion order (P04, P05), results (P06)."""
from lib import *

TASKS = ("TaskWI", "TaskWV", "TaskFI", "TaskFV")
GROUPS = ("ParW", "ParF", "SeqW", "SeqF")
TU = "core.cpp"


def m_opaque(ex, st, ins, fn, args):
    """an operation of a synchronization object, judged by its own properties"""
    ret = ex.fresh(st, ins, "ret", ins.ty.k == "ptr") if ins.ty.k != "void" else None
    if ret is not None and ins.ty.k == "int" and ins.ty.w == 1: ret = NOT(eq(ret, 0))
    return models.O(ret)


EVENT = {"oqpi::itfc::event::*": m_opaque}


def is_event(name, op): return name == "Ev::" + op or name == "oqpi::itfc::event::" + op


class OwnMon(Mon):
    """P01: whoever executes a task has taken its token by one atomic step, and executes once per token"""
    def __init__(self, ck, mod, entry_owner=False, ctor=False):
        self.models = dict(EVENT); self.L = layout(ck, mod); self.ck = ck; self.entry = entry_owner; self.ctor = ctor

    def init(self, st): st.mon['own'] = ()

    def objs(self, st): return st.mon['own']

    def take(self, st, obj):
        for i, (o, c) in enumerate(st.mon['own']):
            if o == obj or st.equal(o, obj):
                if c is not None and st.decide(c) is not True: continue
                st.mon['own'] = st.mon['own'][:i] + st.mon['own'][i + 1:]
                return True
        return False

    def token(self, ex, st, addr):
        """the object whose token is at this address, or None"""
        a = st.addr(addr)
        b = only_sym(sub(addr, self.L.grab)) if is_num(addr) else None
        if b is None: return None
        d = SYM[b][0]
        if d[0] == 'arg': return sub(addr, self.L.grab) if self.root.split("_")[1] in TASKS + GROUPS and d[1] == 0 else None
        if d[0] in ('m', 'x', 'w', 'elem'): return sub(addr, self.L.grab)
        return None

    def event(self, ex, st, kind, e):
        L = self.L
        if kind == "loop": prune(ex, st, 'own')
        if kind in ("cas", "rmw", "store") and e["size"] == 1:
            o = self.token(ex, st, e["addr"])
            if o is not None:
                self.ck.obligation()
                if kind == "cas" and e["ok"]:
                    if st.equal(e["old"], 0) and st.decide(eq(num(e["new"]), 0)) is False:
                        st.mon['own'] = (st.mon['own'] + ((o, None),))[-3:]; self.note(ex, st, "takes the token of %s" % show(o))
                    else: self.bad(ex, st, ("reset", "cas"), "the token of a task is changed by a step other than free -> taken")
                elif kind == "rmw":
                    if e["rop"] in ("xchg", "or") and st.decide(eq(num(e["new"]), 0)) is False or e["rop"] == "or":
                        st.mon['own'] = (st.mon['own'] + ((o, eq(e["old"], 0)),))[-3:]; self.note(ex, st, "exchanges the token of %s" % show(o))
                    else: self.bad(ex, st, ("reset", "rmw"), "the token of a task is changed by a step other than free -> taken")
                elif kind == "store" and not self.ctor:
                    self.bad(ex, st, ("reset", "store"), "the token of a task is overwritten instead of being taken by one indivisible step")
        if kind == "vcall" and e["slot"] == L.slots["execute"] and e["obj"] is not None:
            self.ck.obligation()
            self.note(ex, st, "executes %s" % show(e["obj"]))
            if not self.take(st, e["obj"]):
                self.bad(ex, st, ("execute",), "a task is executed by a thread that has not won it, or twice")
        if kind == "call" and e["name"] in ("FnI::operator()", "FnV::operator()"):
            self.ck.obligation()
            self.note(ex, st, "runs the function")
            if not self.take(st, S(('arg', 0, self.root), True)):
                self.bad(ex, st, ("function",), "the function of a task is run by a thread that has not won it, or twice")


class TryGrab(Mon):
    """tryGrab(): the answer is the outcome of one atomic free -> taken step"""
    def __init__(self, ck, mod): self.L = layout(ck, mod); self.ck = ck
    def init(self, st): st.mon['steps'] = ()
    def event(self, ex, st, kind, e):
        o = sub(e["addr"], S(('arg', 0, self.root), True)) if kind in ("load", "store", "cas", "rmw") else None
        if o != self.L.grab: return
        if kind == "load": st.mon['steps'] += (('load', 0, e["val"], 0, 0),); return
        if kind == "store": st.mon['steps'] += (('store', 0, 0, 0),); return
        if kind == "cas": st.mon['steps'] += (('cas', int(e["ok"]), e["old"], e["new"], int(bool(e["weak"]))),)
        if kind == "rmw": st.mon['steps'] += (('rmw', 1, e["old"], e["new"], 0),)
    def finish(self, ex, st, ret):
        self.ck.obligation()
        steps = [s for s in st.mon['steps']]
        if any(s[0] == 'store' for s in steps): self.bad(ex, st, ("tryGrab", "store"), "the token is taken by a plain store"); return
        for s2, r in cases(ex, st, ret):
            won = []
            for s in steps:
                if not s[1]: continue
                if s2.decide(eq(num(s[3]), 0)) is not False: self.bad(ex, s2, ("tryGrab", "free"), "the token is set to free"); return
                d = s2.decide(eq(num(s[2]), 0))
                if d is None: self.bad(ex, s2, ("tryGrab", "unknown"), "the answer does not tell who took the token"); return
                if d: won.append(s)
            if r and len(won) != 1: self.bad(ex, s2, ("tryGrab", "true"), "success is reported without having taken the token by one indivisible step")
            if not r and won: self.bad(ex, s2, ("tryGrab", "false"), "failure is reported although the token has been taken")
            if not r and not won:
                if not any(s[0] == 'rmw' or s[0] == 'cas' and not s[1] for s in steps):
                    if not any(s[0] == 'load' and s2.decide(eq(num(s[2]), 0)) is False for s in steps): self.bad(ex, s2, ("tryGrab", "noattempt"), "failure is reported without an attempt")


class Fresh(Mon):
    """a new task or group is free and not done"""
    def __init__(self, ck, mod): self.models = dict(EVENT); self.L = layout(ck, mod); self.ck = ck
    def finish(self, ex, st, ret):
        a = S(('arg', 0, self.root), True)
        for n, o in (("taken", self.L.grab), ("done", self.L.done)):
            self.ck.obligation()
            if not st.equal(st.read(add(a, o), 1, False), 0): self.bad(ex, st, ("fresh", n), "a new task is not initially free and unfinished: %s" % n)


P01_ROOTS = [(r, r.endswith("_execute")) for r in
             ["r_%s_%s" % (t, o) for t in TASKS for o in ("execute", "executeST", "wait", "activeWait", "setParent")] +
             ["r_%s_%s" % (t, o) for t in GROUPS for o in ("execute", "executeST", "wait", "activeWait", "setParent", "addTask", "oneTaskDone", "empty")] +
             ["r_handle_" + o for o in ("executeST", "wait", "activeWait", "isDone", "tryGrab", "isGrabbed", "setParent", "reset", "copy", "move", "assign", "massign")] +
             ["r_worker_run", "r_worker_stop", "r_worker_join", "r_sched_add", "r_sched_stop", "r_sched_signal", "r_sched_idle"]]


class ExecMon(OwnMon):
    def init(self, st):
        st.mon['own'] = ((S(('arg', 0, self.root), True), None),) if self.entry else ()


class SignalMon(OwnMon):
    pass


def job_p01(ck, ndebug, root, entry):
    mod = ck.mod(TU, ndebug)
    if root == "p_tryGrab": ck.explore(mod, root, TryGrab(ck, mod)); return
    if root.endswith("_ctor"): ck.explore(mod, root, Fresh(ck, mod)); return
    ck.explore(mod, root, ExecMon(ck, mod, entry))


def build_both(ck, tu=TU):
    for nd in CONFIGS:
        m = ck.mod(tu, nd); layout(ck, m)
    ck.configs = ["checks enabled", "checks disabled (NDEBUG)"]


def run_P01(ck):
    ck.rule_text = ("typestate of the ownership token: every execution of a task (virtual execute, or the call of the user function) is reached only on paths on which the same "
                    "thread has taken that task's token by one atomic free->taken step, once per token; the token is never written otherwise; tryGrab answers the outcome of that step")
    ck.explanation = ("path-sensitive abstract interpretation to a fixpoint of the compiled template instantiations of every operation that can reach a task (tasks, groups, handles, workers, scheduler), "
                      "user parts (threads, queues, contexts, functions) declared only; the rule is judged at every execution and every access to a token")
    build_both(ck)
    jobs = []
    for nd in CONFIGS:
        for r, en in P01_ROOTS: jobs.append((r, job_p01, (nd, r, en)))
        jobs.append(("p_tryGrab", job_p01, (nd, "p_tryGrab", False)))
        for t in TASKS + GROUPS: jobs.append(("ctor", job_p01, (nd, "r_%s_ctor" % t, False)))
    ck.parts(jobs)


# ---- completion: P04, P05, P06 ---------------------------------------------------------------------------------------
class Seq(Mon):
    """the order of what happens to one task"""
    def __init__(self, ck, mod, judge): self.models = dict(EVENT); self.L = layout(ck, mod); self.ck = ck; self.judge = judge
    def init(self, st): st.mon['seq'] = ()
    def tok(self, ex, st, *t):
        st.mon['seq'] += (t,); self.note(ex, st, " ".join(show(x) if not isinstance(x, str) else x for x in t))
    def event(self, ex, st, kind, e):
        L = self.L; a = S(('arg', 0, self.root), True)
        if kind == "call":
            n = e["name"]
            if n in ("FnI::operator()", "FnV::operator()"): self.tok(ex, st, "fn", e["args"][0], e["ret"] if e["ret"] is not None else 0)
            elif n == "TC::onPreExecute": self.tok(ex, st, "pre")
            elif n == "TC::onPostExecute": self.tok(ex, st, "post")
            elif n == "TC::onAddedToGroup": self.tok(ex, st, "added", st.read(e["args"][1], 8, True))
            elif is_event(n, "notify"): self.tok(ex, st, "notify", e["args"][0])
            elif is_event(n, "wait"): self.tok(ex, st, "wait", e["args"][0])
            elif is_event(n, "reset"): self.tok(ex, st, "evreset", e["args"][0])
        elif kind in ("cas", "rmw", "store") and is_num(e["addr"]):
            o = sub(e["addr"], a)
            if o == L.grab:
                if kind == "cas": self.tok(ex, st, "grab", int(e["ok"]), e["old"])
                elif kind == "rmw": self.tok(ex, st, "xchg", e["old"])
            elif o == L.done:
                v = e["val"] if kind == "store" else e["new"]
                if kind != "cas" or e["ok"]: self.tok(ex, st, "done", num(v), e["order"])
            elif isinstance(o, int) and 0 <= o < 100000 and kind == "store" and any(t[0] == "fn" for t in st.mon['seq']):
                fn = [t for t in st.mon['seq'] if t[0] == "fn"]
                if fn and e["val"] == fn[-1][2]: self.tok(ex, st, "result", o)
        elif kind == "load" and is_num(e["addr"]):
            o = sub(e["addr"], a)
            if o == L.done: self.tok(ex, st, "isdone", e["order"], e["val"])
            elif isinstance(o, int) and e["size"] == 4 and "esult" in self.root.split("_")[-1] and o not in (L.prio,) : self.tok(ex, st, "readresult", o, e["val"])
        elif kind == "vcall":
            if e["slot"] == L.slots["oneTaskDone"] and e["obj"] == S(('m', add(a, L.parent), 8), True): self.tok(ex, st, "parent")
            elif e["obj"] is not None: self.tok(ex, st, "vcall", e["slot"] if e["slot"] is not None else -1, e["obj"])
    def finish(self, ex, st, ret):
        self.ck.obligation()
        self.judge(self, ex, st, ret, list(st.mon['seq']))


def idx(seq, name): return [i for i, t in enumerate(seq) if t[0] == name]


def owned(seq, st):
    """index of the step that won the task, or None"""
    for i, t in enumerate(seq):
        if t[0] == "grab" and t[1] == 1: return i
        if t[0] == "xchg" and st.decide(eq(t[1], 0)) is True: return i
    return None


def parts_of(root):
    _, t, o = root.split("_", 2)
    return t, o


def judge_p04(m, ex, st, ret, s):
    t, op = parts_of(m.root); waitable = "W" == t[4:5]
    fn, done, notify, wait, res = idx(s, "fn"), idx(s, "done"), idx(s, "notify"), idx(s, "wait"), idx(s, "result")
    # found done, which publishes everything
    saw = [i for i in idx(s, "isdone") if s[i][1] in ACQ and is_num(s[i][2]) and st.decide(eq(num(s[i][2]), 0)) is False]
    for d in done:
        if st.decide(eq(s[d][1], 0)) is not False: m.bad(ex, st, ("undone",), "a task is declared unfinished again"); continue
        if not fn or fn[-1] > d: m.bad(ex, st, ("done-early",), "a task is declared done before its function has finished")
        if s[d][2] not in REL: m.bad(ex, st, ("done-order",), "the done flag is set without publishing what the function wrote")
        if t.endswith("I") and (not res or min(res) > d): m.bad(ex, st, ("done-result",), "a task is declared done before its result is stored")
    for n in notify:
        if not fn or fn[-1] > n: m.bad(ex, st, ("notify-early",), "the waiters are released before the function has finished")
        if t.endswith("I") and (not res or min(res) > n): m.bad(ex, st, ("notify-result",), "the waiters are released before the result is stored")
        if not done or min(done) > n: m.bad(ex, st, ("notify-done",), "the waiters are released before the task is done")
    for p in idx(s, "parent"):
        if not done or min(done) > p or not fn or fn[-1] > p: m.bad(ex, st, ("parent-early",), "the group is told of the completion before the task is done")
    if op in ("wait", "activeWait", "waitForResult") and waitable:
        # returns only once its event was waited for, or after having run the task itself
        if not wait and not saw and not (op == "activeWait" and fn and done): m.bad(ex, st, ("no-wait",), "the wait returns without waiting for the completion of the task")
        for w in wait:
            if s[w][1] != m.event_addr: m.bad(ex, st, ("other-event",), "the wait waits for something else than the completion of the task")
    for i in idx(s, "isdone"):
        if s[i][1] not in ACQ: m.bad(ex, st, ("isdone-order",), "the done flag is read without making the results visible")
    rr = idx(s, "readresult")
    if op == "waitForResult":
        for r in rr:
            if (not wait or wait[0] > r) and not (saw and saw[0] < r): m.bad(ex, st, ("result-early",), "the result is read before the task has finished")


def event_addr(ck, mod, t):
    """where the event of a task is, seen from its notification"""
    class Find(Seq):
        found = None
        def finish(self, ex, st, ret):
            for x in st.mon['seq']:
                if x[0] == "notify": Find.found = sub(x[1], S(('arg', 0, self.root), True))
    f = Find(ck.scratch(), mod, None)
    ck.scratch().explore(mod, "r_%s_execute" % t, f)
    return Find.found


def job_seq(ck, ndebug, root, judge):
    mod = ck.mod(TU, ndebug)
    r = Seq(ck, mod, judge)
    t, op = parts_of(root)
    if op in ("wait", "activeWait", "waitForResult"):
        o = event_addr(ck, mod, t)
        r.event_addr = add(S(('arg', 0, root), True), o) if o is not None else None
        if o is None and t[4:5] == "W": raise Incomplete("no notification found in the execution of a %s" % t)
    if op in ("getResult", "waitForResult"):
        r.result_off = None
    ck.explore(mod, root, r)


class DoneFlag(Mon):
    """isDone answers the done flag, read with acquire order"""
    def __init__(self, ck, mod): self.L = layout(ck, mod); self.ck = ck
    def init(self, st): st.mon['v'] = None
    def event(self, ex, st, kind, e):
        if kind == "load" and e["size"] == 1 and sub(e["addr"], S(('arg', 0, self.root), True)) == self.L.done:
            st.mon['v'] = e["val"]
            if e["order"] not in ACQ: self.bad(ex, st, ("isDone-order",), "the done flag is read without acquire order")
    def finish(self, ex, st, ret):
        self.ck.obligation()
        v = st.mon['v']
        if v is None: self.bad(ex, st, ("isDone-noread",), "isDone does not look at the done flag"); return
        for s2, r in cases(ex, st, ret):
            if s2.decide(eq(v, 0)) is not (not r): self.bad(ex, s2, ("isDone-value",), "isDone does not answer the done flag")


def m_member(ex, st, ins, fn, args): return None


def job_done(ck, ndebug):
    mod = ck.mod(TU, ndebug)
    ck.explore(mod, "p_isDone", DoneFlag(ck, mod))


P04_ROOTS = ["r_%s_%s" % (t, o) for t in TASKS for o in ("execute", "executeST", "activeWait", "setParent")] + ["r_%s_wait" % t for t in TASKS] + \
            ["r_TaskWI_getResult", "r_TaskFI_getResult", "r_TaskWV_getResult", "r_TaskWI_waitForResult", "r_TaskWV_waitForResult"]


def run_P04(ck):
    import groups
    ck.rule_text = ("order of events on every path: function returned -> result stored -> done flag set with release order -> waiters released / group told; a wait returns only through the task's own "
                    "completion event or after executing the task itself; the done flag is read with acquire order; a group is declared done and its waiters released only by the completion of "
                    "its last member (decremented counter found at one, or empty remaining sequence) or after having executed all members itself")
    ck.explanation = "abstract interpretation of every operation of tasks and groups; each path's sequence of events is judged, both with checks enabled and disabled"
    build_both(ck)
    jobs = []
    for nd in CONFIGS:
        jobs += [(r, job_seq, (nd, r, judge_p04)) for r in P04_ROOTS]
        jobs.append(("isDone", job_done, (nd,)))
        jobs += groups.jobs_p04(nd)
    ck.parts(jobs)


def judge_p05(m, ex, st, ret, s):
    t, op = parts_of(m.root); waitable = "W" == t[4:5]
    fn, done, notify, par = idx(s, "fn"), idx(s, "done"), idx(s, "notify"), idx(s, "parent")
    a = S(('arg', 0, m.root), True)
    parent0 = S(('m', add(a, m.L.parent), 8), True)
    if fn:
        f = fn[0]
        if len([d for d in done if d > f]) != 1: m.bad(ex, st, ("done",), "the function has run but the task does not become done exactly once")
        if waitable and len([n for n in notify if n > f]) != 1: m.bad(ex, st, ("notify",), "the function has run but the waiters are not released exactly once")
        told = len([p for p in par if p > f])
        if op != "executeST":
            d = st.decide(eq(parent0, 0))
            if d is None: m.bad(ex, st, ("parent-ignored",), "the function has run but it is not looked whether the task has a group")
            elif not d and told != 1: m.bad(ex, st, ("parent",), "the function of a member has run but its group is not told exactly once")
        elif told: m.bad(ex, st, ("parent-st",), "the group is told of a completion it has counted itself")
    else:
        if done or notify or par: m.bad(ex, st, ("nothing",), "a completion is signalled although the function was not run here")
    if idx(s, "evreset"): m.bad(ex, st, ("evreset",), "the completion event is reset")
    if op == "executeST" or op == "activeWait":
        if owned(s, st) is not None and not fn: m.bad(ex, st, ("dropped",), "the task is taken but not executed")
    if op == "execute" and not fn:
        # only when it turned out that the caller does not own the task
        m.bad(ex, st, ("not-run",), "the execution of an owned task does not run its function") if m.ndebug else None


def run_P05(ck):
    import groups
    ck.rule_text = ("on every path on which the function of a task is run: exactly one done, one notification of the waiters (waitable tasks) and one notification of the group if there is one; none otherwise; "
                    "a group completing (last member, or executed single threaded) does the same towards its waiters and its own group, and no other path does")
    ck.explanation = "abstract interpretation of every operation of tasks and groups; the multiset of completion events of each path is judged, both with checks enabled and disabled"
    build_both(ck)
    jobs = []
    for nd in CONFIGS:
        jobs += [(r, job_seq, (nd, r, judge_p05)) for r in P04_ROOTS]
        jobs += groups.jobs_p05(nd)
    ck.parts(jobs)
