"""Arguments and results of tasks (P06), identifiers (P38), handles (P39)."""
from lib import *
from tasks import TASKS, GROUPS, EVENT, TU, build_both, P01_ROOTS, TryGrab, Seq, is_event, idx

RES = "results.cpp"


class Origin(Mon):
    """which of the user's objects each copy stands for"""
    sequential = True
    CLS = (); moves = False
    def init(self, st): st.mon['org'] = (); st.mon['calls'] = ()
    def origin(self, st, a):
        for x, o in reversed(st.mon['org']):
            if x == a: return o
        return a
    def own(self, st, a):
        """part of a task, or of the execution itself"""
        while a is not None and is_num(a):
            b, _ = split_ptr(a)
            if b is None: return False
            d = SYM[b][0]
            if d[0] == 'hp': return True
            if d[0] == 'al':
                f = st.fr
                while f is not None:
                    if b in f.als: return True
                    f = f.parent
                return False
            if d[0] not in ('m', 'elem'): return False
            a = d[1] if d[0] == 'm' else d[2]
        return False
    def event(self, ex, st, kind, e):
        if kind != "call": return
        n = e["name"]; c = n.split("::")[0]
        if c in self.CLS:
            last = n.split("::")[-1]
            if last in (c, "operator=") and len(e["args"]) == 2:
                x, y = e["args"]; o = self.origin(st, y)
                new = ((x, o),)
                if self.moves and (names.params(e["fn"].dname) or [""])[0].endswith("&&") and x != y: new += ((y, ('moved', o)),)
                st.mon['org'] = tuple(z for z in st.mon['org'] if z[0] not in [n[0] for n in new]) + new
            elif last == "operator()":
                self.ck.obligation()
                st.mon['calls'] += ((tuple(self.origin(st, a) for a in e["args"]), e["ret"], tuple(self.own(st, a) for a in e["args"])),); self.note(ex, st, "calls the function")


class Make(Origin):
    CLS = ("Fn", "Fv", "Ar", "TC"); moves = True
    models = {"Fn::*": m_user, "Fv::*": m_user, "Ar::*": m_user}
    def __init__(self, ck): self.ck = ck; self.models = dict(EVENT, **Make.models)
    def init(self, st): Origin.init(self, st); st.mon['ctx'] = None
    def event(self, ex, st, kind, e):
        Origin.event(self, ex, st, kind, e)
        if kind == "call" and e["name"] == "TC::TC": st.mon['ctx'] = st.read(e["args"][2], 32, False) if len(e["args"]) > 2 else st.mon['ctx']
    def finish(self, ex, st, ret):
        self.ck.obligation()
        want = [S(('arg', 2 + i, self.root), True) for i in range(self.nargs + 1)]
        c = st.mon['calls']
        if len(c) != 1: self.bad(ex, st, ("calls", len(c)), "executing a task calls its function %d times" % len(c)); return
        got, r, raw = c[0]
        for i, w in enumerate(want):
            if i < len(raw) and not raw[i]: self.bad(ex, st, ("kept", i), "%s is used where the creator of the task left it, it may be gone when the task runs" % ("the function" if i == 0 else "argument %d of the function" % i)); return
            if i >= len(got) or got[i] != w: self.bad(ex, st, ("arg", i), "%s is not the one given at creation" % ("the function called" if i == 0 else "argument %d of the function" % i)); return
        if len(got) != len(want): self.bad(ex, st, ("args",), "the function is called with another number of arguments")
        if r is not None and not st.equal(num(ret), num(r)): self.bad(ex, st, ("result",), "the result query does not return what the function returned")


class MakeObject(Origin):
    """a result that is an object: every query gives what the function returned"""
    CLS = ("Fo", "Ar", "Rs"); moves = True
    def __init__(self, ck): self.ck = ck; self.models = dict(EVENT, **{"Fo::*": m_user, "Ar::*": m_user, "Rs::*": m_user})
    def event(self, ex, st, kind, e):
        if kind == "call" and e["name"].startswith("Fo::operator()"):
            st.mon['calls'] += ((tuple(self.origin(st, a) for a in e["args"][1:]), None, ()),); self.note(ex, st, "calls the function")
            st.mon['org'] = tuple(z for z in st.mon['org'] if z[0] != e["args"][0]) + ((e["args"][0], ('returned', len(st.mon['calls']))),)
            return
        Origin.event(self, ex, st, kind, e)
    def finish(self, ex, st, ret):
        self.ck.obligation()
        if len(st.mon['calls']) != 1: self.bad(ex, st, ("calls", len(st.mon['calls'])), "executing a task calls its function %d times" % len(st.mon['calls'])); return
        for i, a in enumerate((4, 5)):
            o = self.origin(st, S(('arg', a, self.root), True))
            if o != ('returned', 1): self.bad(ex, st, ("object", i), "the %s result query does not give what the function returned" % ("first", "second")[i]); return


def job_object(ck, nd, root):
    ck.explore(ck.mod(RES, nd), root, MakeObject(ck))


def job_make(ck, nd, root, n):
    mod = ck.mod(RES, nd)
    r = Make(ck); r.nargs = n
    ck.explore(mod, root, r)


class CtorFn(Origin):
    """the task keeps the function it is given, under the priority it is given"""
    CLS = ("FnI", "FnV")
    def __init__(self, ck, mod): self.ck = ck; self.L = layout(ck, mod); self.models = dict(EVENT)
    def finish(self, ex, st, ret):
        self.ck.obligation()
        f = S(('arg', 3, self.root), True); p = S(('arg', 0, self.root), True)
        at = [x for x, o in st.mon['org'] if o == f and isinstance(sub(x, p), int)]
        if at != [add(p, self.foff)]: self.bad(ex, st, ("ctor", "function"), "a new task does not keep the function it is given")
        if not st.equal(st.read(add(p, self.L.prio), self.L.priosize, False), S(('arg', 2, self.root))): self.bad(ex, st, ("ctor", "priority"), "a new task does not keep the priority it is given")


class Found(Seq):
    """where the function and the result of a kind of task are kept"""
    def __init__(self, ck, mod): Seq.__init__(self, ck, mod, None); self.fn = set(); self.res = set()
    def finish(self, ex, st, ret):
        a = S(('arg', 0, self.root), True)
        for t in st.mon['seq']:
            if t[0] == "fn": self.fn.add(sub(t[1], a))
            if t[0] == "result": self.res.add(t[1])


def places(ck, mod, t):
    f = Found(ck.scratch(), mod)
    ck.scratch().explore(mod, "r_%s_execute" % t, f)
    fn = [x for x in f.fn if isinstance(x, int)]
    if len(fn) != 1 or len(f.fn) != 1: raise Incomplete("%s: the function called was not recognised" % t)
    return fn[0], sorted(f.res) if t.endswith("I") else []


class Result(Mon):
    def __init__(self, ck, mod): self.ck = ck; self.models = dict(EVENT)
    def finish(self, ex, st, ret):
        self.ck.obligation()
        a = S(('arg', 0, self.root), True)
        if not any(ret == S(('m', add(a, o), 4)) or self.fresh(st, ret, add(a, o)) for o in self.res): self.bad(ex, st, ("get",), "a result query does not return the result that was stored")
    def fresh(self, st, ret, addr): return num(ret) == num(st.read(addr, 4, False))


class Moved(Origin):
    """moving a task"""
    CLS = ("FnI", "FnV", "TC", "Ev")
    def __init__(self, ck, mod): self.ck = ck; self.L = layout(ck, mod); self.models = dict(EVENT)
    def finish(self, ex, st, ret):
        self.ck.obligation()
        p = S(('arg', 0, self.root), True); t = S(('arg', 1, self.root), True); L = self.L
        same = st.decide(eq(sub(p, t), 0)) if self.root.endswith("assign") else False
        if same is True or p == t:
            if st.mon['org'] or any(st.read(add(p, o), w, pt) != S(('m', add(p, o), w), pt) for o, w, pt in self.fields()): self.bad(ex, st, ("move", "self"), "assigning a task to itself changes it")
            return
        for o, w, pt in self.fields():
            if not self.alike(st, st.read(add(p, o), w, pt), S(('m', add(t, o), w), pt), o): self.bad(ex, st, ("move", self.name(o)), "moving a task does not move its %s" % self.name(o))
        for c, o in (("function", self.foff), ("context", None), ("completion event", None)):
            if c == "function": ok = self.origin(st, add(p, o)) == add(t, o)
            else:
                k = {"context": "TC", "completion event": "Ev"}[c]
                ok = any(sub(x, p) == sub(y, t) and isinstance(sub(x, p), int) for x, y in st.mon['org'] if self.cls(x) == k) if (c == "context" or "W" == self.root.split("_")[1][4]) else True
            if not ok: self.bad(ex, st, ("move", c), "moving a task does not move its %s" % c)
        if self.empty and st.decide(eq(st.read(add(t, L.parent), 8, True), 0)) is not True: self.bad(ex, st, ("move", "source-parent"), "a moved from task stays bound to its group")
    def alike(self, st, v, w, o):
        if o not in (self.L.grab, self.L.done): return st.equal(num(v), w)
        return v == w or v == NOT(eq(w, 0)) or is_num(v) and st.equal(v, w)
    def cls(self, x): return self.kinds.get(x)
    def name(self, o):
        L = self.L
        return {L.prio: "priority", L.grab: "claimed state", L.done: "done state", L.parent: "group", L.uid: "identifier"}.get(o, "result")
    def fields(self):
        L = self.L
        return [(L.uid, 8, False), (L.prio, L.priosize, False), (L.grab, 1, False), (L.done, 1, False), (L.parent, 8, True), (L.parent + 8, 8, True)] + [(o, 4, False) for o in self.res]
    def event(self, ex, st, kind, e):
        Origin.event(self, ex, st, kind, e)
        if kind == "call" and e["name"].split("::")[0] in self.CLS and e["args"]: self.kinds[e["args"][0]] = e["name"].split("::")[0]


def job_task(ck, nd, t, what):
    mod = ck.mod(TU, nd)
    foff, res = places(ck, mod, t)
    if t.endswith("I") and not res: ck.violation((t, "store"), "%s: the value the function returns is not stored [%s]" % (t, mod.label)); return
    if what == "ctor":
        r = CtorFn(ck, mod); r.foff = foff; ck.explore(mod, "r_%s_ctor" % t, r)
    elif what in ("move", "assign"):
        r = Moved(ck, mod); r.foff = foff; r.res = res; r.empty = True; r.kinds = {}; ck.explore(mod, "r_%s_%s" % (t, what), r)
    else:
        r = Result(ck, mod); r.res = res; ck.explore(mod, "r_%s_%s" % (t, what), r)


def run_P06(ck):
    ck.rule_text = ("make_task with functions and arguments moved, copied and mixed: on every path the one call of the function is made on the function given, with the arguments given, in order (copy provenance); the value "
                    "it returns is stored, before the task is done, where every result query reads it; a result that is an object is given by each query (two are made); constructing and moving a task transfers function, priority, state, group, context, event and result")
    ck.explanation = "abstract interpretation of make_task, execute and the result queries for functions and arguments that are declared only, tracking which original object each copy stands for"
    build_both(ck)
    for nd in CONFIGS: ck.mod(RES, nd)
    j = []
    for nd in CONFIGS:
        j += [(r, job_make, (nd, r, n)) for r, n in (("k_move", 3), ("k_copy", 3), ("k_mixed", 2), ("k_none", 0), ("k_void", 2))]
        j += [(r, job_object, (nd, r)) for r in ("o_get", "o_getf", "o_wait")]
        j += [("%s ctor" % t, job_task, (nd, t, "ctor")) for t in TASKS]
        j += [("%s %s" % (t, w), job_task, (nd, t, w)) for t in ("TaskWI", "TaskWV") for w in ("move", "assign")]
        j += [("result", job_task, (nd, t, w)) for t, w in (("TaskWI", "getResult"), ("TaskFI", "getResult"), ("TaskWI", "waitForResult"))]
    ck.parts(j)


# ---- identifiers ---------------------------------------------------------------------------------------------------------
class Uid(Mon):
    def __init__(self, ck, mod): self.ck = ck; self.L = layout(ck, mod); self.models = dict(EVENT); self.src = set()
    def init(self, st): st.mon['gen'] = (); st.mon['init'] = None
    def event(self, ex, st, kind, e):
        if kind in ("rmw", "cas", "store", "load") and is_num(e["addr"]):
            b, o = split_ptr(e["addr"])
            if b is not None and SYM[b][0][0] == 'gl' and o == 0:
                if kind == "rmw": st.mon['gen'] += ((SYM[b][0][1], e["old"], e["new"], e["rop"], e["size"]),)
                elif kind == "cas" and e["ok"]: st.mon['gen'] += ((SYM[b][0][1], e["old"], e["new"], "cas", e["size"]),)
                elif kind == "store": st.mon['gen'] += ((SYM[b][0][1], e["val"], None, "store" if e["order"] != "na" else "plain", e["size"]),)
    def finish(self, ex, st, ret):
        self.ck.obligation()
        u = st.read(add(S(('arg', 0, self.root), True), self.L.uid), 8, False)
        hits = []
        for g, old, new, how, size in st.mon['gen']:
            d = sub(num(u), num(old)) if is_num(u) and old is not None else None
            if isinstance(d, int) and not isinstance(old, int): hits.append((g, old, new, how, size, d))
        if len(hits) != 1: self.bad(ex, st, ("uid", "source"), "the identifier of a new task does not come from one step of a shared generator"); return
        g, old, new, how, size, d = hits[0]
        if how not in ("add", "sub", "cas") or new is None: self.bad(ex, st, ("uid", "step"), "identifiers are not generated by one indivisible step"); return
        step = sub(num(new), num(old))
        if not isinstance(step, int) or step == 0: self.bad(ex, st, ("uid", "nostep"), "the generator of identifiers does not advance"); return
        if ir.gl_own(self.mod.globs[g]): self.bad(ex, st, ("uid", "own"), "every translation unit has its own generator of identifiers, which repeat")
        if size != 8: self.bad(ex, st, ("uid", "narrow"), "the generator of identifiers is narrower than the identifiers, which repeat")
        if len([x for x in st.mon['gen'] if x[0] == g]) != 1: self.bad(ex, st, ("uid", "again"), "the generator of identifiers is changed by something else than the drawing of one")
        i = self.mod.ginit(g) if hasattr(self.mod, "ginit") else None
        self.src.add((g, d, step))
        init = None
        if i is not None:
            c = i.get(0, (8, 0))[1]
            init = c if isinstance(c, int) else ex.constv(c)
        if not isinstance(init, int): raise Incomplete("initial value of the generator of identifiers not found")
        bad = self.invalid
        first = init + d
        if first == bad or (bad - first) % step == 0 and (bad - first) // step >= 0 and abs(bad - first) < 2 ** 62: self.bad(ex, st, ("uid", "invalid"), "a new task may receive the invalid identifier")


class Keeps(Mon):
    """operations do not change the identifier"""
    def __init__(self, ck, mod): self.ck = ck; self.L = layout(ck, mod); self.models = dict(EVENT)
    def event(self, ex, st, kind, e):
        if kind in ("store", "rmw", "cas") and is_num(e["addr"]):
            self.ck.count("stores")
            if sub(e["addr"], S(('arg', 0, self.root), True)) == self.L.uid: self.bad(ex, st, ("uid", "changed"), "an operation changes the identifier of a task")
    def finish(self, ex, st, ret): self.ck.obligation()


def job_uid(ck, nd, roots):
    mod = ck.mod(TU, nd)
    inv = ck.retval(mod, "z_invalid_uid")
    src = {}
    for r in roots:
        m = Uid(ck, mod); m.invalid = inv
        ck.explore(mod, r, m)
        for s in m.src: src.setdefault(s, r)
    if len({s[0] for s in src}) > 1: ck.violation(("uid", "generators"), "several generators of identifiers: %s [%s]" % (sorted(src), mod.label))
    elif len(src) > 1: ck.violation(("uid", "offsets"), "identifiers are derived from the generator in different ways: %s [%s]" % (sorted(src), mod.label))


def job_keep(ck, nd, r):
    mod = ck.mod(TU, nd); ck.explore(mod, r, Keeps(ck, mod))


def run_P38(ck):
    ck.rule_text = ("every constructor of a task or group takes its identifier from exactly one indivisible advance of one generator shared by all of them and by all translation units, as wide as the identifiers, whose first value is not the invalid one, "
                    "and derives it by the same injective function; no operation of tasks and groups writes the identifier")
    ck.explanation = "abstract interpretation of the constructors of every kind of task and group (source of the identifier) and of every operation (stores to the identifier)"
    build_both(ck)
    j = []
    for nd in CONFIGS:
        j.append(("uid", job_uid, (nd, ["r_%s_ctor" % t for t in TASKS + GROUPS])))
        j += [(r, job_keep, (nd, r)) for r, _ in P01_ROOTS if r.split("_")[1] in TASKS + GROUPS]
    ck.parts(j)


# ---- handles --------------------------------------------------------------------------------------------------------------
class Handle(Mon):
    def __init__(self, ck, mod, op): self.ck = ck; self.L = layout(ck, mod); self.models = dict(EVENT); self.op = op
    def init(self, st): st.mon['acc'] = ()
    def obj(self): return S(('m', add(S(('arg', 0, self.root), True), self.L.hptr), 8), True)
    def event(self, ex, st, kind, e):
        if kind == "vcall":
            st.mon['acc'] += (("v", e["slot"], e["obj"], e["ret"]),); self.note(ex, st, "calls the task")
        elif kind in ("load", "store", "cas", "rmw") and is_num(e["addr"]):
            o = sub(e["addr"], self.obj())
            if isinstance(o, int) and o != 0:
                st.mon['acc'] += ((kind, o, e.get("ok", 1) and 1, num(e["val"]) if kind in ("load", "store") else num(e["old"])),)
    def finish(self, ex, st, ret):
        self.ck.obligation()
        L = self.L; a = S(('arg', 0, self.root), True); t = self.obj(); acc = st.mon['acc']; op = self.op
        vs = [x for x in acc if x[0] == "v"]
        if op in ("execute", "executeST", "wait", "activeWait"):
            if len(vs) != 1 or vs[0][2] != t or vs[0][1] != L.slots[op]: self.bad(ex, st, ("forward",), "%s of a handle does not perform exactly one %s on its task" % (op, op))
            if [x for x in acc if x[0] in ("store", "rmw", "cas")]: self.bad(ex, st, ("extra",), "%s of a handle changes the task itself" % op)
        elif op in ("isDone", "isGrabbed"):
            o = {"isDone": L.done, "isGrabbed": L.grab}[op]
            ld = [x for x in acc if x[0] == "load" and x[1] == o]
            if not ld: self.bad(ex, st, ("forward",), "%s of a handle does not look at its task" % op); return
            for s2, r in cases(ex, st, ret):
                if s2.decide(eq(ld[-1][3], 0)) is not (not r): self.bad(ex, s2, ("answer",), "%s of a handle does not answer for its task" % op)
        elif op in ("getPriority", "getUID"):
            o, w = (L.prio, L.priosize) if op == "getPriority" else (L.uid, 8)
            if not st.equal(num(ret), S(('m', add(t, o), w))): self.bad(ex, st, ("answer",), "%s of a handle does not answer for its task" % op)
        elif op == "getParent":
            if ret != add(t, L.parent): self.bad(ex, st, ("answer",), "the group answered by a handle is not that of its task")
        elif op == "setParent":
            if not st.equal(st.read(add(t, L.parent), 8, True), S(('m', S(('arg', 1, self.root), True), 8), True)): self.bad(ex, st, ("forward",), "setting the group of a handle does not set it on its task")
        elif op == "isValid":
            for s2, r in cases(ex, st, ret):
                if s2.decide(eq(t, 0)) is not (not r): self.bad(ex, s2, ("valid",), "a handle is valid although it refers to no task, or the converse")


class HandleGrab(TryGrab):
    def init(self, st): TryGrab.init(self, st)
    def event(self, ex, st, kind, e):
        if kind in ("load", "store", "cas", "rmw"):
            t = S(('m', add(S(('arg', 0, self.root), True), self.L.hptr), 8), True)
            e = dict(e, addr=add(S(('arg', 0, self.root), True), sub(e["addr"], t))) if isinstance(sub(e["addr"], t), int) else dict(e, addr=S(('none',), True))
        TryGrab.event(self, ex, st, kind, e)


class HandleMove(Mon):
    """copies and moves of handles"""
    sequential = True
    def __init__(self, ck, mod, op): self.ck = ck; self.L = layout(ck, mod); self.models = dict(EVENT); self.op = op
    def finish(self, ex, st, ret):
        self.ck.obligation()
        p = S(('arg', 0, self.root), True); s = S(('arg', 1, self.root), True)
        cur = lambda x, o: st.read(add(x, o), 8, True)
        old = lambda x, o: S(('m', add(x, o), 8), True)
        hp = self.L.hptr
        op = self.op
        if op in ("ctor0", "reset"):
            if st.decide(eq(cur(p, hp), 0)) is not True: self.bad(ex, st, ("empty",), "a handle %s refers to a task" % ("created empty" if op == "ctor0" else "that was reset"))
            if st.decide(eq(cur(p, hp + 8), 0)) is not True: self.bad(ex, st, ("keeps",), "a handle %s keeps a task alive" % ("created empty" if op == "ctor0" else "that was reset"))
            return
        # assigning a handle to itself
        if "assign" in op and st.decide(eq(sub(p, s), 0)) is True:
            if not st.equal(cur(p, hp), old(p, hp)): self.bad(ex, st, ("self",), "assigning a handle to itself changes it")
            return
        if not st.equal(cur(p, hp), old(s, hp if not op.startswith("ctor") else 0)): self.bad(ex, st, ("target",), "the new handle does not refer to the task of the source")
        if not st.equal(cur(p, hp + 8), old(s, (hp if not op.startswith("ctor") else 0) + 8)): self.bad(ex, st, ("alive",), "the new handle does not keep the task of the source alive")
        if op in ("move", "massign"):
            if st.decide(eq(cur(s, hp), 0)) is not True: self.bad(ex, st, ("source",), "a moved from handle still refers to a task")
        elif not st.equal(cur(s, hp if not op.startswith("ctor") else 0), old(s, hp if not op.startswith("ctor") else 0)): self.bad(ex, st, ("copied",), "copying a handle changes the source")


H_OPS = ("execute", "executeST", "wait", "activeWait", "isDone", "isGrabbed", "getPriority", "getUID", "getParent", "setParent", "isValid")
H_MOVES = ("ctor0", "ctor1", "ctor2", "ctor3", "copy", "move", "assign", "massign", "reset")


def job_handle(ck, nd, op):
    mod = ck.mod(TU, nd); root = "r_handle_" + op
    if op == "tryGrab": ck.explore(mod, root, HandleGrab(ck, mod))
    elif op in H_MOVES: ck.explore(mod, root, HandleMove(ck, mod, op))
    else: ck.explore(mod, root, Handle(ck, mod, op))


def run_P39(ck):
    ck.rule_text = ("each operation of a handle makes exactly one call of the same operation, or one access to the same field, of the task the handle refers to, and returns its answer; construction, copies and moves transfer the "
                    "pointer and the share in its ownership; reset and moved from handles refer to nothing; isValid is true exactly if the pointer is not null")
    ck.explanation = "abstract interpretation of every operation of task_handle with checks enabled and disabled; calls, accesses and the final state of handle and source are compared with the operation of the task"
    build_both(ck)
    ck.parts([(op, job_handle, (nd, op)) for nd in CONFIGS for op in H_OPS + ("tryGrab",) + H_MOVES])
