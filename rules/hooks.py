"""Context hooks: their place around the activity they describe (P13) and their forwarding to every context (P14)."""
from lib import *
from tasks import *
import groups
from sched import places, m_bool2


# ---- workers ---------------------------------------------------------------------------------------------------------
class WorkerHooks(Mon):
    """onStart (onIdle search* onActive (onPre(h) execute(h) onPost(h))?)* onStop"""
    def __init__(self, ck, mod): self.models = dict(EVENT); self.models["Nf::tryWait"] = m_bool2; self.ck = ck; self.L = layout(ck, mod); self.P = places(ck, mod); self.ended = 0
    def init(self, st): st.mon['s'] = 'none'; st.mon['t'] = None; st.mon['in'] = ''
    def want(self, ex, st, states, key, msg):
        self.ck.obligation()
        if st.mon['s'] not in states: self.bad(ex, st, ("worker", key, st.mon['s']), msg)
    def event(self, ex, st, kind, e):
        m = st.mon; n = e.get("name") if kind == "call" else None
        if n == "verif_thread_begin": m['in'] = 'y'; m['s'] = 'begun'
        elif n == "verif_thread_end":
            self.ended += 1
            self.want(ex, st, ("stopped",), "end", "the thread of a worker ends without its stop hook having been called last"); m['in'] = ''
        elif kind == "call" and n.startswith("WC::on"):
            self.note(ex, st, n)
            h = n[4:]
            if not m['in']: self.bad(ex, st, ("worker", "outside", h), "a hook of a worker is called outside its thread"); return
            t = st.read(add(e["args"][1], self.L.hptr), 8, True) if len(e["args"]) > 1 else None
            if h == "onStart": self.want(ex, st, ("begun",), h, "the start hook of a worker is not its first hook"); m['s'] = 'started'
            elif h == "onIdle": self.want(ex, st, ("started", "active"), h, "the idle hook does not follow the start of the worker or its last activity"); m['s'] = 'idle'
            elif h == "onActive": self.want(ex, st, ("idle", "searched"), h, "the active hook of a worker does not follow its idle hook"); m['s'] = 'active'
            elif h == "onPreExecute": self.want(ex, st, ("active",), h, "the pre execution hook of a worker is called while it is not active"); m['s'] = 'pre'; m['t'] = t
            elif h == "onPostExecute":
                self.want(ex, st, ("ran",), h, "the post execution hook of a worker does not follow an execution")
                if m['t'] is None or not st.equal(m['t'], t): self.bad(ex, st, ("worker", "post-other"), "the post execution hook of a worker is given another task than the one executed")
                m['s'] = 'active'; m['t'] = None
            elif h == "onStop": self.want(ex, st, ("started", "active"), h, "the stop hook of a worker is called while it searches for or executes a task"); m['s'] = 'stopped'
        elif not m['in']: return
        elif n == "Q::tryPop" or n == "Nf::wait": self.want(ex, st, ("idle", "searched"), "search", "a worker searches for work without its idle hook having been called"); m['s'] = 'searched'
        elif kind == "vcall" and e["slot"] in (self.L.slots["execute"], self.L.slots["executeST"]):
            self.want(ex, st, ("pre",), "execute", "a worker executes a task without its pre execution hook having been called, or a second time")
            if m['t'] is None or not st.equal(m['t'], e["obj"]): self.bad(ex, st, ("worker", "pre-other"), "the pre execution hook of a worker is given another task than the one executed")
            m['s'] = 'ran'


def job_whooks(ck, nd):
    mod = ck.mod(TU, nd); r = WorkerHooks(ck, mod)
    ck.explore(mod, "r_worker_run", r)
    if not r.ended: raise Incomplete("the end of a worker was not reached")


# ---- tasks -----------------------------------------------------------------------------------------------------------
def judge_p13(m, ex, st, ret, s):
    fn, pre, post = idx(s, "fn"), idx(s, "pre"), idx(s, "post")
    if not fn:
        if pre or post: m.bad(ex, st, ("task", "idle"), "an execution hook of a task is called although its function is not run")
        return
    if len(pre) != 1 or pre[0] > fn[0]: m.bad(ex, st, ("task", "pre"), "the pre execution hook of a task is not called once before its function")
    if len(post) != 1 or post[0] < fn[-1]: m.bad(ex, st, ("task", "post"), "the post execution hook of a task is not called once after its function")
    for w, k in (("waiters", "notify"), ("group", "parent")):
        if post and any(i < post[-1] for i in idx(s, k)): m.bad(ex, st, ("task", "late", k), "the post execution hook of a task is called after its %s have been told" % w)


# ---- being added to a group --------------------------------------------------------------------------------------------
class Added(Mon):
    """setParentGroup: the object's hook is called once, with the group"""
    def __init__(self, ck, mod): self.models = dict(EVENT); self.ck = ck
    def init(self, st): st.mon['h'] = ()
    def event(self, ex, st, kind, e):
        if kind == "call" and e["name"] in ("TC::onAddedToGroup", "GC::onAddedToGroup"): st.mon['h'] = (st.mon['h'] + (st.read(e["args"][1], 8, True),))[-3:]
    def finish(self, ex, st, ret):
        self.ck.obligation()
        g = S(('m', S(('arg', 1, self.root), True), 8), True); h = st.mon['h']
        if len(h) != 1: self.bad(ex, st, ("added", "count"), "the hook telling that a task or group was added to a group is not called exactly once")
        elif not st.equal(h[0], g): self.bad(ex, st, ("added", "other"), "the hook telling that a task or group was added to a group is given another group")


class TaskAdded(Mon):
    """addTask: the group's hook is called once, with the task, iff the task was kept"""
    def __init__(self, ck, mod): self.models = dict(EVENT); self.ck = ck; self.L = layout(ck, mod)
    def init(self, st): st.mon['h'] = (); st.mon['bound'] = ''
    def event(self, ex, st, kind, e):
        if kind == "call" and e["name"] == "GC::onTaskAdded":
            st.mon['h'] = (st.mon['h'] + (st.read(add(e["args"][1], self.L.hptr), 8, True),))[-3:]
    def finish(self, ex, st, ret):
        self.ck.obligation()
        t = S(('m', add(S(('arg', 1, self.root), True), self.L.hptr), 8), True); h = st.mon['h']
        kept = st.equal(st.read(add(t, self.L.parent), 8, True), S(('arg', 0, self.root), True))
        if kept and len(h) != 1: self.bad(ex, st, ("taskadded", "count"), "the hook of a group is not called exactly once for a task added to it")
        if not kept and h: self.bad(ex, st, ("taskadded", "not"), "the hook of a group is called for a task that was not added")
        for x in h:
            if not st.equal(x, t): self.bad(ex, st, ("taskadded", "other"), "the hook of a group is given another task than the one added")


def job_added(ck, nd, root):
    mod = ck.mod(TU, nd); ck.explore(mod, root, (Added if root.endswith("setParent") else TaskAdded)(ck, mod))


def run_P13(ck):
    ck.rule_text = ("worker: the sequence of its hooks, searches and executions is a word of onStart (onIdle search* onActive (onPre(t) execute(t) onPost(t))?)* onStop, for every path; task: pre, function, post, then the notifications, "
                    "once each and only if the function runs; group: pre before the first member is handed out, post once on the completing path before it is signalled; added hooks once, with the group or task concerned")
    ck.explanation = "typestate automata over all paths of the worker thread, of every operation of tasks and groups and of addTask and setParentGroup"
    build_both(ck)
    j = []
    for nd in CONFIGS:
        j.append(("worker", job_whooks, (nd,)))
        j += [(r, job_seq, (nd, r, judge_p13)) for r in P04_ROOTS]
        j += groups.jobs(nd, GROUPS, groups.OPS, ("hooks",))
        j += [("r_%s_setParent" % t, job_added, (nd, "r_%s_setParent" % t)) for t in TASKS + GROUPS]
        j += [("r_%s_addTask" % t, job_added, (nd, "r_%s_addTask" % t)) for t in GROUPS]
    ck.parts(j)


# ---- several contexts ---------------------------------------------------------------------------------------------------
class Fan(Mon):
    """the calls of members of the contexts, with their arguments"""
    def __init__(self, ck, fam): self.ck = ck; self.fam = fam; self.models = {k + "::*": m_user for k in ("A1", "A2", "A3", "B1", "B2", "B3", "C1", "C2", "C3")}; self.out = []
    def init(self, st): st.mon['c'] = ()
    def event(self, ex, st, kind, e):
        if kind == "call" and len(e["name"]) > 4 and e["name"][0] in "ABC" and e["name"][1] in "123" and e["name"][2:4] == "::":
            st.mon['c'] = (st.mon['c'] + ((e["name"], tuple(e["args"])),))[-9:]; self.note(ex, st, e["name"])
    def finish(self, ex, st, ret): self.out.append((st.copy(), st.mon['c']))


FAN = dict(A=("ctor", "onStart", "onStop", "onIdle", "onActive", "onPreExecute", "onPostExecute"), B=("ctor", "onAddedToGroup", "onPreExecute", "onPostExecute"),
           C=("ctor", "onAddedToGroup", "onTaskAdded", "onPreExecute", "onPostExecute"))


def job_fan(ck, nd, fam):
    mod = ck.mod("contexts.cpp", nd)
    places = None
    for op in FAN[fam]:
        root = "x_%s_%s" % (fam, op)
        r = Fan(ck, fam); ex = ck.explore(mod, root, r)
        a = S(('arg', 0, root), True)
        want = ["%s%d::%s" % (fam, i, op if op != "ctor" else "%s%d" % (fam, i)) for i in (1, 2, 3)]
        what = "the constructor" if op == "ctor" else "the hook " + op
        for st, c in r.out:
            ck.obligation()
            def bad(key, msg): ck.violation((root, key), "%s [%s]" % (msg, mod.label), None, ex.trace_of(st))
            c = [x for x in c if "~" not in x[0]]
            if [n for n, _ in c] != want:
                bad("calls", "%s of a list of contexts is not forwarded to each context once, in order: %s instead of %s" % (what, ", ".join(n for n, _ in c) or "nothing", ", ".join(want))); continue
            offs = [sub(x[0], a) for _, x in c]
            if op == "ctor": places = offs
            if offs != places or len(set(map(str, offs))) != 3: bad("object", "%s of a context is called on another object than the context" % what)
            for n, x in c:
                for i, v in enumerate(x[1:], 1):
                    if not st.equal(v, S(('arg', i, root), True)): bad("args", "%s of a context does not receive the argument given" % what)


class Owner(Mon):
    """a task or group constructs its context once, for itself"""
    def __init__(self, ck): self.ck = ck; self.models = dict(EVENT)
    def init(self, st): st.mon['c'] = ()
    def event(self, ex, st, kind, e):
        if kind == "call" and e["name"] in ("TC::TC", "GC::GC") and len(e["args"]) == 3: st.mon['c'] = (st.mon['c'] + (tuple(e["args"]),))[-3:]
    def finish(self, ex, st, ret):
        self.ck.obligation()
        c = st.mon['c']; a = S(('arg', 0, self.root), True)
        if len(c) != 1: self.bad(ex, st, ("owner", "count"), "the context of a task or group is not constructed exactly once"); return
        if not st.equal(c[0][1], a): self.bad(ex, st, ("owner", "other"), "the context of a task or group is constructed for another owner")


def job_owner(ck, nd, root):
    mod = ck.mod(TU, nd); ck.explore(mod, root, Owner(ck))


def run_P14(ck):
    ck.rule_text = "each forwarding function of a container of three contexts calls the member of the same name on the three of them, once each, in the order of the list, on the subobject constructed for it and with the same arguments; tasks and groups construct their context for themselves"
    ck.explanation = "abstract interpretation of the 13 forwarding functions and 3 constructors of context containers instantiated with three declared-only contexts"
    build_both(ck)
    for nd in CONFIGS: ck.configs.append(ck.mod("contexts.cpp", nd).label)
    ck.parts([("%s %s" % (f, nd), job_fan, (nd, f)) for nd in CONFIGS for f in "ABC"] + [(t, job_owner, (nd, "r_%s_ctor" % t)) for nd in CONFIGS for t in TASKS + GROUPS])
