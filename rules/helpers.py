"""The convenience functions (P36): what each overload creates, with what, and what it submits."""
from lib import *
from tasks import EVENT
import loops, results
from results import Origin
TU = "helpers.cpp"


class HLay:
    def __init__(self, ck, mod):
        self.hptr = ck.field(mod, "p_hvalid", ("load",)); self.prio = ck.field(mod, "p_getPriority", ("load",))
        self.priosize = [e["size"] for k, e in ck.probe(mod, "p_getPriority")[0] if k == "load"][0]
        z = lambda n: ck.retval(mod, n)
        self.types = {"W": z("z_W"), "F": z("z_F")}; self.normal = z("z_normal")
        self.sx = z("h_sched_of"); self.sg = z("h_schedg_of"); self.sgo = z("h_schedg_obj")
        self.z = z
    def handle(self, st, p): return st.read(add(p, self.hptr), 8, True)


_L = {}
def lay(ck, mod):
    if mod.path not in _L: _L[mod.path] = HLay(ck, mod)
    return _L[mod.path]


def targs(s):
    """template arguments of the last component of a demangled class name"""
    if not s.endswith(">"): return None
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ">" and s[i - 1] != "-": d += 1
        elif s[i] == "<":
            d -= 1
            if d == 0: break
    body = s[i + 1:-1]; out = []; d = 0; start = 0
    for k, c in enumerate(body):
        if c in "<([{": d += 1
        elif c in ">)]}" and not (c == ">" and body[k - 1] == "-"): d -= 1
        elif c == "," and d == 0: out.append(body[start:k].strip()); start = k + 1
    out.append(body[start:].strip())
    return s[:i], out


def dyntype(st, p):
    """demangled dynamic type of a task"""
    vt = st.read(p, 8, True); b = split_ptr(vt)[0] if is_num(vt) else None
    if b is None or SYM[b][0][0] != 'gl': raise Incomplete("the type of a task is not known: " + show(vt))
    d = ir.demangle(SYM[b][0][1])
    if not d.startswith("vtable for "): raise Incomplete("the type of a task is not known: " + d)
    return d[len("vtable for "):]


def task_type(st, p):
    """(class, task type number, arguments) of a task or group"""
    t = targs(dyntype(st, p))
    if t is None: raise Incomplete("unexpected type " + dyntype(st, p))
    k = [a for a in t[1] if a.startswith("(oqpi::task_type)")]
    if len(k) != 1: raise Incomplete("unexpected type " + dyntype(st, p))
    return t[0], int(k[0][len("(oqpi::task_type)"):]), t[1]


USERH = {"TU::*": m_user, "TD::*": m_user, "GU::*": m_user, "GD::*": m_user, "Ar::*": m_user, "Fn::*": m_user, "Ev::*": m_user,
         "verif_add": m_user, "verif_made": m_user, "verif_group": m_user, "verif_register": m_user, "verif_count": m_user}
CTX = ("TU::TU", "TD::TD", "GU::GU", "GD::GD")


def m_schedh(ex, st, ins, fn, args):
    if fn.defined: return None
    if names.base(fn.dname) == "SchedH::add":
        for o in (0, 8): st.write(add(args[0], o), 8, st.read(add(args[2], o), 8, True))
        return models.O(None)
    return m_user(ex, st, ins, fn, args)


class Task(Origin):
    """one task made from a function and arguments"""
    CLS = ("Fn", "Ar", "TD", "TU")
    def __init__(self, ck, mod): self.ck = ck; self.L = lay(ck, mod); self.models = dict(EVENT, **USERH)
    def init(self, st): Origin.init(self, st); st.mon['ctx'] = (); st.mon['sub'] = (); st.mon['made'] = ()
    def spec(self): return self.root.split("_")[2:]
    def arg(self, i, p=True): return S(('arg', i, self.root), p)
    def event(self, ex, st, kind, e):
        Origin.event(self, ex, st, kind, e)
        if kind != "call": return
        n = e["name"]; m = st.mon; op = self.spec()[0]
        if n in CTX and len(e["args"]) == 3:
            m['ctx'] += ((n[:2], e["args"][1], st.read(e["args"][2], 32, False)),); self.note(ex, st, "creates a task with context " + n[:2])
        elif n == "verif_add":
            p = self.L.handle(st, e["args"][1]); m['sub'] += (p,); self.note(ex, st, "submits a task")
            self.ck.obligation()
            if op == "M": self.bad(ex, st, ("submits",), "a creation helper submits the task"); return
            if len(m['sub']) > 1: self.bad(ex, st, ("twice",), "a scheduling helper submits more than one task"); return
            if not st.equal(num(e["args"][0]), num(self.L.sx)): self.bad(ex, st, ("scheduler",), "the task is not submitted to the helper's own scheduler")
            self.look(ex, st, p)
        elif n == "verif_made": m['made'] += (e["args"][0],); self.look(ex, st, e["args"][0])
    def look(self, ex, st, p):
        op, ty, cx, pr = self.spec()[:4]; L = self.L; self.ck.obligation()
        c, k, a = task_type(st, p)
        if k != L.types[ty]: self.bad(ex, st, ("type",), "the task is not of the type asked for (%s)" % ("waitable" if ty == "W" else "fire and forget"))
        want = self.arg(1, False) if pr[0] == "a" else L.normal
        if not st.equal(st.read(add(p, L.prio), L.priosize, False), want): self.bad(ex, st, ("priority",), "the task does not have the priority %s" % ("given" if pr[0] == "a" else "'normal' by default"))
        cs = st.mon['ctx']
        if len(cs) != 1: self.bad(ex, st, ("created", len(cs)), "%d tasks are created" % len(cs)); return
        if cs[0][0] != ("TU" if cx == "u" else "TD"): self.bad(ex, st, ("context",), "the task does not have the %s context" % ("given" if cx == "u" else "default"))
        if not st.equal(num(cs[0][1]), num(p)): self.bad(ex, st, ("object",), "the task %s is not the one created" % ("returned" if op == "M" else "submitted"))
        if cs[0][2] != st.read(self.arg(0), 32, False): self.bad(ex, st, ("name",), "the task does not have the name given")
        if "Ev" not in a: self.bad(ex, st, ("event",), "the task does not use the event type of the helper")
    def finish(self, ex, st, ret):
        self.ck.obligation(); op = self.spec()[0]; m = st.mon; k = int(self.spec()[-1])
        if op == "M":
            if not m['made']: self.bad(ex, st, ("none",), "no task is created")
        elif not m['sub']: self.bad(ex, st, ("unsubmitted",), "a scheduling helper does not submit the task")
        elif op == "S" and not st.equal(num(self.L.handle(st, self.arg(4))), num(m['sub'][0])): self.bad(ex, st, ("returned",), "the handle returned is not that of the task submitted")
        want = [self.arg(2), self.arg(3)][:k + 1]
        if len(m['calls']) != 1: self.bad(ex, st, ("calls",), "executing the task calls the function %d times" % len(m['calls'])); return
        got = list(m['calls'][0][0])
        if got != want: self.bad(ex, st, ("function",), "the task does not call the function given with the arguments given")


class Handle(Mon):
    def __init__(self, ck, mod): self.ck = ck; self.L = lay(ck, mod); self.models = dict(EVENT, **dict(USERH, **{"SchedH::*": m_schedh}))
    def init(self, st): st.mon['sub'] = ()
    def event(self, ex, st, kind, e):
        if kind == "call" and e["name"] == "SchedH::add":
            self.ck.obligation(); st.mon['sub'] += (self.L.handle(st, e["args"][2]),)
            if not st.equal(num(e["args"][1]), num(self.L.sg)): self.bad(ex, st, ("scheduler",), "the task is not submitted to the helper's own scheduler")
    def finish(self, ex, st, ret):
        self.ck.obligation()
        h = S(('m', add(S(('arg', 0, self.root), True), self.L.hptr), 8), True); s = st.mon['sub']
        if len(s) != 1 or not st.equal(num(s[0]), num(h)): self.bad(ex, st, ("submit",), "the task of the handle given is not submitted exactly once"); return
        if not st.equal(num(self.L.handle(st, S(('arg', 1, self.root), True))), num(h)): self.bad(ex, st, ("returned",), "the handle returned is not that of the task submitted")


def cells(st, p):
    b, o = split_ptr(p)
    return {k - o: v for k, v in st.mem.get(b, {}).items() if isinstance(k, int)}


def plain(v):
    """value made of nothing but parameters, constants and addresses of globals"""
    return v is not None and v != ('U',) and all(SYM[s][0][0] in ('arg', 'gl', 'fn') or SYM[s][0][0] == 'm' and all(SYM[x][0][0] == 'arg' for x in deps(SYM[s][0][1])) for s in deps(v))


class Group(Mon):
    """a group, compared with the one its constructor makes from what was asked for"""
    def __init__(self, ck, mod): self.ck = ck; self.L = lay(ck, mod); self.models = dict(EVENT, **dict(USERH, **{"SchedH::*": m_schedh})); self.maxoff = set()
    def init(self, st): st.mon['ctx'] = (); st.mon['done'] = ''
    def event(self, ex, st, kind, e):
        if kind != "call": return
        n = e["name"]
        if n in CTX and len(e["args"]) == 3: st.mon['ctx'] += ((n[:2], st.read(e["args"][2], 32, False)),)
        elif n == "SchedH::add": self.bad(ex, st, ("submits",), "a creation helper submits the group")
        elif n == "verif_group": self.same(ex, st, *e["args"])
    def same(self, ex, st, g, w):
        self.ck.obligation(); st.mon['done'] = 'y'
        if dyntype(st, g) != dyntype(st, w): self.bad(ex, st, ("type",), "the group is a %s instead of a %s" % (dyntype(st, g), dyntype(st, w)))
        c = st.mon['ctx']
        if len(c) != 2 or c[0] != c[1]: self.bad(ex, st, ("context",), "the group does not have the context and name it should have: %s" % (c,))
        if not st.equal(st.read(add(g, self.L.prio), self.L.priosize, False), st.read(add(w, self.L.prio), self.L.priosize, False)): self.bad(ex, st, ("priority",), "the group does not have the priority it should have")
        a, b = cells(st, g), cells(st, w)
        for o, (n, v) in sorted(b.items()):
            x = a.get(o)
            if not plain(v) or x is None or x[0] != n: continue
            self.ck.obligation()
            if v == S(('arg', 3, self.root)): self.maxoff.add((o, n))
            y = x[1]
            if plain(y) and not (y == v or is_num(y) and is_num(v) and st.equal(y, v)): self.bad(ex, st, ("field", o), "the group is not the one asked for: it holds %s instead of %s" % (show(y), show(v)))
    def finish(self, ex, st, ret):
        if not st.mon['done']: self.bad(ex, st, ("none",), "no group is returned")


class Tasks(Mon):
    """a group of given tasks, created, filled and submitted"""
    def __init__(self, ck, mod, maxoff): self.ck = ck; self.L = lay(ck, mod); self.models = dict(EVENT, **dict(USERH, **{"SchedH::*": m_schedh})); self.maxoff = maxoff
    def init(self, st):
        st.mon['ctx'] = (); st.mon['sub'] = (); st.mon['want'] = None; st.mon['in'] = ()
    def given(self, i): return S(('m', add(S(('arg', 2 + i, self.root), True), self.L.hptr), 8), True)
    def event(self, ex, st, kind, e):
        if kind != "call": return
        n = e["name"]; m = st.mon
        if n in CTX and len(e["args"]) == 3: m['ctx'] += ((n[:2], st.read(e["args"][2], 32, False), e["args"][1]),)
        elif n == "verif_group": m['want'] = e["args"][1]
        elif n in ("GU::onTaskAdded", "GD::onTaskAdded"):
            self.ck.obligation(); m['in'] += (self.L.handle(st, e["args"][1]),); self.note(ex, st, "adds a task")
            if m['sub']: self.bad(ex, st, ("late",), "a task is added to a group after its submission")
        elif n == "SchedH::add":
            self.ck.obligation(); g = self.L.handle(st, e["args"][2]); w = m['want']; m['sub'] += (g,); self.note(ex, st, "submits the group")
            if not st.equal(num(e["args"][1]), num(self.L.sg)): self.bad(ex, st, ("scheduler",), "the group is not submitted to the helper's own scheduler")
            if len(m['sub']) > 1: self.bad(ex, st, ("twice",), "the group is submitted more than once"); return
            c = m['ctx']
            if len(c) != 2 or not st.equal(num(c[1][2]), num(g)): self.bad(ex, st, ("object",), "what is submitted is not the group created"); return
            if c[0][:2] != c[1][:2]: self.bad(ex, st, ("context",), "the group does not have the context and name it should have")
            if dyntype(st, g) != dyntype(st, w): self.bad(ex, st, ("type",), "the group is a %s instead of a %s" % (dyntype(st, g), dyntype(st, w)))
            if not st.equal(st.read(add(g, self.L.prio), self.L.priosize, False), st.read(add(w, self.L.prio), self.L.priosize, False)): self.bad(ex, st, ("priority",), "the group does not have the priority it should have")
            if self.root.split("_")[1] == "fork":
                for o, k in self.maxoff:
                    if not st.equal(num(st.read(add(g, o), k, False)), num(st.read(add(w, o), k, False))): self.bad(ex, st, ("limit",), "the number of tasks of a fork that may run simultaneously is limited")
            k = int(self.root.split("_")[-1]); want = [self.given(i + 1) for i in range(k)]
            if len(m['in']) != k or any(not st.equal(num(a), num(b)) for a, b in zip(m['in'], want)): self.bad(ex, st, ("members",), "the tasks given are not all added to the group, in order, before its submission")
    def finish(self, ex, st, ret):
        self.ck.obligation()
        if len(st.mon['sub']) != 1: self.bad(ex, st, ("submit",), "the group is not submitted exactly once"); return
        if not st.equal(num(self.L.handle(st, S(('arg', 2, self.root), True))), num(st.mon['sub'][0])): self.bad(ex, st, ("returned",), "the handle returned is not that of the group submitted")


class Loop(Mon):
    """contexts, types and priorities of the tasks of a parallel loop"""
    def __init__(self, ck, mod):
        self.ck = ck; self.L = lay(ck, mod); self.models = dict(loops.LOOPM); self.models.update(USERH); self.models["SchedH::*"] = m_schedh; self.grp = self.tsk = 0
    def init(self, st): st.mon['sub'] = ''; st.mon['g'] = None; st.mon['w'] = ''
    def spec(self): return self.root.split("_")[2:]
    def event(self, ex, st, kind, e):
        if kind != "call": return
        ty, cx, pr, form = self.spec(); n = e["name"]; L = self.L; m = st.mon
        if n in CTX and len(e["args"]) == 3:
            self.ck.obligation(self.root + n)
            if n[1] != ("U" if cx == "u" else "D"): self.bad(ex, st, ("context", n[0]), "the %s of a loop do not have the %s context" % ("group" if n[0] == "G" else "tasks", "given" if cx == "u" else "default"))
            if n[0] == "G":
                self.grp += 1; m['g'] = e["args"][1]
                nm = only_sym_of(S(('m', S(('arg', 0, self.root), True), 32)))
                if nm not in deps(st.read(e["args"][2], 32, False)): self.bad(ex, st, ("name",), "the name of the group of a loop is not made of the name given")
            else: self.tsk += 1
        elif n in ("GU::onTaskAdded", "GD::onTaskAdded"):
            self.ck.obligation(self.root + "added")
            t = L.handle(st, e["args"][1]); self.look(ex, st, t, "F", "task", pr)
            if m['g'] is not None: self.look(ex, st, m['g'], ty, "group", pr)
        elif n == "SchedH::add":
            self.ck.obligation(self.root + "add")
            if not st.equal(num(e["args"][1]), num(L.sg)): self.bad(ex, st, ("scheduler",), "the group is not submitted to the helper's own scheduler")
            if form == "grp": self.bad(ex, st, ("submits",), "a creation helper submits the group")
            if m['sub']: self.bad(ex, st, ("twice",), "the group is submitted more than once")
            m['sub'] = 'y'
            self.look(ex, st, L.handle(st, e["args"][2]), ty, "group", pr)
        elif n == "SchedH::workersCount":
            self.ck.obligation(self.root + "count")
            if not st.equal(num(e["args"][1]), self.prio(pr)): self.bad(ex, st, ("workers",), "the batches are not counted from the workers of the priority of the loop")
    def prio(self, pr): return S(('arg', 1, self.root)) if pr[0] == "a" else self.L.normal
    def look(self, ex, st, p, ty, what, pr):
        c, k, a = task_type(st, p)
        if what == "group" and k != self.L.types[ty]: self.bad(ex, st, ("type", what), "the %s of a loop is not of the type it should have" % what)
        if not st.equal(num(st.read(add(p, self.L.prio), self.L.priosize, False)), num(self.prio(pr))): self.bad(ex, st, ("priority", what), "the %s of a loop does not have the priority %s" % (what, "given" if pr[0] == "a" else "'normal' by default"))
        if what == "task" and "Ev" not in a: self.bad(ex, st, ("event",), "the tasks of a loop do not use the event type of the helper")


def only_sym_of(p): return only_sym(num(p))


class Start(Mon):
    """starting and stopping the scheduler"""
    sequential = True
    def __init__(self, ck, mod): self.ck = ck; self.L = lay(ck, mod); self.models = dict(EVENT, **dict(USERH, **{"SchedH::*": m_schedh, "sysconf": m_nproc})); self.steps = 0
    def init(self, st): st.mon['seq'] = (); st.mon['n'] = None
    def event(self, ex, st, kind, e):
        if kind != "call": return
        n = e["name"]; m = st.mon; L = self.L; z = L.z
        if n == "verif_count": m['n'] = e["args"][0]
        elif n in ("SchedH::start", "SchedH::stop", "verif_register"):
            self.ck.obligation(); self.note(ex, st, n)
            m['seq'] += (n.split("::")[-1],)
            if not st.equal(num(e["args"][0]), num(L.sg)): self.bad(ex, st, ("scheduler",), "this is not done with the helper's own scheduler")
            if n == "verif_register":
                a = e["args"]
                chk = [(1, z("z_allcores"), "may not run on all cores"), (3, z("z_highest"), "do not have the highest thread priority"), (4, z("z_any"), "do not accept tasks of any priority"), (5, m['n'], "are not as many as asked for")]
                for i, want, what in chk:
                    if want is None or not st.equal(num(st.read(a[i], 4, False)), num(want)) and (num(st.read(a[i], 4, False)) != want): self.bad(ex, st, ("config", i), "the default workers " + what)
                nm = st.read(a[2], 32, False)
                if nm != ('C', "oqpi::worker_") and "oqpi::worker_" not in repr_content(nm): self.bad(ex, st, ("config", "name"), "the default workers are not named as documented")
                for i, k, what in ((6, "z_thread", "thread"), (7, "z_sema", "notifier"), (8, "z_ctx" if "context" in self.root else "z_noctx", "context")):
                    if a[i] != z(k): self.bad(ex, st, ("kind", what), "the default workers do not use the documented %s" % what)
    def finish(self, ex, st, ret):
        self.ck.obligation()
        want = ("stop",) if self.root.endswith("stop") else ("verif_register", "start")
        if st.mon['seq'] != want: self.bad(ex, st, ("sequence",), "the scheduler is not %s" % ("stopped exactly once" if want == ("stop",) else "given its workers once and then started once"))


def repr_content(c):
    d = deps(c) if not isinstance(c, int) else ()
    return " ".join(repr(SYM[s][0]) for s in d) + repr(c)


def m_nproc(ex, st, ins, fn, args): return models.O(S(('nproc', num(args[0])) ))


def job(ck, nd, root):
    mod = ck.mod(TU, nd); explore._MOD[0] = mod
    k = root.split("_")[1]
    if k == "task": ck.explore(mod, root, Task(ck, mod))
    elif k == "handle":
        def setup(st): st.assume(eq(S(('m', add(S(('arg', 0, root), True), lay(ck, mod).hptr), 8), True), 0), False)
        ck.explore(mod, root, Handle(ck, mod), setup=setup)
    elif k == "group": ck.explore(mod, root, Group(ck, mod))
    elif k in ("fork", "sequence"):
        r = Group(ck.scratch(), mod); ck.scratch().explore(mod, "h_group_P_%s_u_4" % root.split("_")[2], r)
        if not r.maxoff: raise Incomplete("the limit of simultaneous tasks of a parallel group was not found")
        L = lay(ck, mod)
        def setup(st):
            n = int(root.split("_")[-1])
            for i in range(n):
                h = S(('m', add(S(('arg', 3 + i, root), True), L.hptr), 8), True)
                st.assume(eq(h, 0), False)
        ck.explore(mod, root, Tasks(ck, mod, r.maxoff), setup=setup)
    elif k == "loop":
        r = Loop(ck, mod); ck.explore(mod, root, r)
        if not r.grp or not r.tsk: ck.violation((root, "none"), "a loop creates no group or no task [%s, %s]" % (root, mod.label))
    elif k in ("start", "stop"):
        def setup(st):
            for g in mod.globs:
                if g.startswith("_ZGV"): st.write(S(('gl', g), True), 8, 0)      # static locals are set on first use
        ck.explore(mod, root, Start(ck, mod), setup=setup)


def job_sched(ck, nd):
    mod = ck.mod(TU, nd); ck.obligation(); L = lay(ck, mod)
    if L.sg != L.sgo: ck.violation(("scheduler",), "scheduler() does not refer to the scheduler of the helper [%s]" % mod.label)


def run_P36(ck):
    ck.rule_text = ("each overload, for a function, contexts, event and scheduler that are declared only: one task or group is created, of the dynamic type, context, name and priority asked for or documented as default, holding the function and "
                    "arguments given; scheduling helpers pass it once to the helper's own scheduler and return its handle, creation helpers do not; groups equal, field by field, what the constructor makes from the documented values; "
                    "given tasks are all added in order before the submission; the default scheduler gets its documented workers and is then started")
    ck.explanation = "abstract interpretation of one entry point per overload; dynamic types are read from the virtual table pointer in the abstract store, functions and arguments tracked by copy provenance, names by their abstract content"
    import re
    roots = re.findall(r"^R \S.*? (h_\w+)\(", open(os.path.join(HERE, "witness", TU)).read(), re.M)
    j = []
    for nd in CONFIGS:
        ck.configs.append(ck.mod(TU, nd).label)
        j += [(r, job, (nd, r)) for r in roots if not r.startswith("h_sched")] + [("scheduler", job_sched, (nd,))]
    ck.parts(j, tus=(TU,))
