"""Partitioners (P18) and parallel loops (P19, P20)."""
from lib import *
import poly
from tasks import EVENT, is_event
TU = "loops.cpp"


# ---- partitioners ------------------------------------------------------------------------------------------------------
class Draw(Mon):
    """construction, then one draw by one of many threads: what it read, what it wrote, in one step, and what it handed out"""
    collect = True
    def __init__(self, ck, lay): self.ck = ck; self.lay = lay; self.models = {"verif_mark": m_mark}; self.out = []
    def init(self, st): st.mon['ph'] = 'c'; st.mon['w'] = (); st.mon['r'] = (); st.mon['init'] = ()
    def mine(self, p):
        d = sub(p, S(('arg', 0, self.root), True)) if is_num(p) else None
        return d if isinstance(d, int) and 0 <= d < 4096 else None
    def event(self, ex, st, kind, e):
        m = st.mon
        if kind == "call" and e["name"] == "verif_mark":
            m['ph'] = 'd'
            c = st.mem.get(only_sym(S(('arg', 0, self.root), True)), {})
            m['init'] = tuple(sorted((o, v) for o, (_, v) in c.items() if isinstance(o, int)))
            return
        if m['ph'] != 'd' or kind not in ("load", "store", "rmw", "cas"): return
        o = self.mine(e["addr"])
        if o is None: return
        self.ck.obligation()
        if kind == "store" and e["order"] == "na":
            self.bad(ex, st, ("plain", o), "the shared state of a partitioner is overwritten by a plain store while ranges are handed out")
        elif kind == "store":
            self.bad(ex, st, ("store", o), "the shared state of a partitioner is overwritten by an atomic store that ignores its value at that time")
        elif kind == "load":
            if e["order"] == "na": m['pl'] = m.get('pl', ()) + ((o, e["val"]),) if (o, e["val"]) not in m.get('pl', ()) else m['pl']
            else: m['r'] = ((o, e["val"]),)
        elif kind == "cas" and not e["ok"]: m['r'] = ((o, e["old"]),)
        else:
            m['w'] = (m['w'] + ((o, num(e["old"]), num(e["new"])),))[-3:]
            self.note(ex, st, "takes %s -> %s" % (show(e["old"]), show(e["new"])))
    def finish(self, ex, st, ret):
        for s2, ok in cases(ex, st, ret):
            a = S(('arg', self.na, self.root), True); b = S(('arg', self.na + 1, self.root), True)
            self.out.append((s2.copy(), ok, s2.read(a, 4, False), s2.read(b, 4, False), s2.mon['w'], s2.mon['r'], s2.mon['init'], s2.mon.get('pl', ())))


def m_mark(ex, st, ins, fn, args): return models.O(None)


def int_args(ck, mod, root):
    """number of integer parameters between the memory and the results"""
    fn = mod.fns[root]; mod.body(fn)
    return fn.nparams - 3


def combine(facts, case_facts, mp, drop):
    """facts of a case, with its counter renamed, on top of others; None if contradictory"""
    st = explore.State(); st.mem = {}; st.ep = {}; st.facts = dict(facts); st.mon = {}; st.trace = None; st.alloc = set(); st.steps = 0; st.dead = False; st.fr = None
    for _ in range(3):
        for t, f in case_facts.items():
            if t[0] == 'o' or any(DEPS[s] & drop for m, _ in t for s in m): continue
            p = subst(('P', 0, t), mp); lo, hi, ne = f
            if lo != -INF and not st.assume(ge(p, lo)): return None
            if hi != INF and not st.assume(ge(hi, p)): return None
            for x in ne:
                if not st.assume(eq(p, x), False): return None
    if poly.infeasible(st.facts): return None
    return st


def holds_ge(st, p): return st.decide(ge(num(p), 0)) is True or poly.proves_ge(st.facts, num(p))
def holds_eq(st, a, b): return st.equal(num(a), num(b)) or poly.proves_eq(st.facts, sub(num(a), num(b)))


def job_part(ck, nd, kind, root):
    mod = ck.mod(TU, nd); n = int_args(ck, mod, root)
    r = Draw(ck, None); r.na = n + 1
    arg = lambda i: S(('arg', i, root))
    counted = root.endswith("drawc")
    first, last = (0, arg(1)) if counted else (arg(1), arg(2))
    others = [arg(i) for i in range(2 if counted else 3, n + 1)]
    def setup(st):
        st.assume(ge(sub(last, first), 1))
        for x in others: st.assume(ge(x, 1))
    ex = ck.explore(mod, root, r, setup=setup)
    def bad(st, key, msg): ck.violation((root, key), "%s [%s, %s]" % (msg, root, mod.label), None, ex.trace_of(st))
    cs = []; cell = None
    for st, ok, a, b, w, rd, init, pl in r.out:
        ck.obligation()
        if ok and len(w) != 1: bad(st, "step", "a range is handed out without having been taken by exactly one indivisible step on the shared state"); continue
        if not ok and len(w) > 1: raise Incomplete("a draw that fails changes the shared state more than once")
        o, v, v2 = w[0] if w else (rd[0][0], num(rd[0][1]), num(rd[0][1])) if rd else (None, None, None)
        if o is None: bad(st, "blind", "no range is handed out without the shared state having been examined"); continue
        if cell is None: cell = o
        if o != cell: raise Incomplete("several pieces of shared state")
        s = only_sym(v)
        if s is None: raise Incomplete("the value replaced is not that of an atomic read")
        if any(x == o for x, _ in pl): bad(st, "nonatomic", "the shared state of a partitioner is read by a plain load while other threads change it")
        cs.append((st, ok, a, b, s, v2, dict(init).get(o)))
    if not cs: raise Incomplete("no draw was completed")
    inits = {c[6] for c in cs}
    if len(inits) != 1 and not all(is_num(num(i)) for i in inits): raise Incomplete("the initial state is not known")
    # facts about other reads of the shared state say nothing about later draws
    def drop(s, st): return frozenset(x for t in st.facts if t[0] != 'o' for m, _ in t for x in m if SYM[x][0][0] in ('x', 'w', 'n') and x != s)
    # direction of the counter
    up_ = all(holds_ge(st, sub(v2, P_of(s))) for st, ok, a, b, s, v2, i in cs); dn = all(holds_ge(st, sub(P_of(s), v2)) for st, ok, a, b, s, v2, i in cs)
    def reach(st, s, i):
        """the counter lies on the side of its initial value it moves to"""
        if up_: return st.assume(ge(P_of(s), num(i)))
        if dn: return st.assume(ge(num(i), P_of(s)))
        return True
    succ = []; fail = []
    for st, ok, a, b, s, v2, i in cs:
        st = st.copy()
        if not reach(st, s, i): continue
        (succ if ok else fail).append((st, a, b, s, v2, i))
    if not succ: ck.violation((root, "never"), "no range is ever handed out [%s, %s]" % (root, mod.label)); return
    if not fail: ck.violation((root, "endless"), "ranges are handed out without end [%s, %s]" % (root, mod.label)); return
    inv = {}
    for st, a, b, s, v2, i in succ:
        ck.obligation()
        if not holds_ge(st, sub(sub(num(b), num(a)), 1)): bad(st, "empty", "a range handed out may be empty or reversed")
        if st.decide(eq(v2, P_of(s))) is not False and not holds_ge(st, sub(sub(v2, P_of(s)), 1)) and not holds_ge(st, sub(sub(P_of(s), v2), 1)): bad(st, "stuck", "handing out a range does not change the shared state")
    def then(c1, c2):
        st1, v2 = c1[0], c1[4]
        s1 = c1[3]; s2 = c2[3]
        f = combine(st1.facts, c2[0].facts, {s2: v2}, drop(s2, c2[0]))
        return f
    for c1 in succ:
        for c2 in succ:
            f = then(c1, c2)
            if f is None: continue
            ck.obligation()
            a2 = subst(num(c2[1]), {c2[3]: c1[4]})
            if not holds_eq(f, a2, c1[2]): bad(c1[0], "gap", "a range handed out does not begin where the previous one ended"); inv[id(c1)] = 1
        for c2 in fail:
            f = then(c1, c2)
            if f is None: continue
            ck.obligation()
            if not holds_eq(f, c1[2], last): bad(c1[0], "end", "the last range handed out does not end at the end of the interval")
    for c1 in fail:
        for c2 in succ:
            if then(c1, c2) is not None: bad(c1[0], "resurrect", "a range may be handed out although the interval was exhausted")
        ck.obligation()
    for c in succ + fail:
        f = combine({}, c[0].facts, {c[3]: num(c[5])}, drop(c[3], c[0]))
        if f is None: continue
        ck.obligation()
        if c in fail: bad(c[0], "none", "no range is handed out although the interval is not empty")
        elif not holds_eq(f, subst(num(c[1]), {c[3]: num(c[5])}), first): bad(c[0], "first", "the first range handed out does not begin at the start of the interval")
    ck.count("draws", len(succ)); ck.count("failed_draws", len(fail))


class Val(Mon):
    def __init__(self, ck, what): self.ck = ck; self.what = what
    def finish(self, ex, st, ret):
        self.ck.obligation(); n = self.n
        f, l, m = S(('arg', 0, self.root)), S(('arg', 1, self.root)), S(('arg', n - 1, self.root)); e = sub(l, f)
        if self.what == "valid":
            for s2, r in cases(ex, st, ret):
                for s3, x in ex.fork_cond(s2, ge(e, 1)):
                    if x != r: self.bad(ex, s3, ("valid",), "a partitioner reports itself valid although its interval is empty, or the reverse")
        elif self.what == "elements":
            if not st.equal(ret, e): self.bad(ex, st, ("elements",), "the number of elements reported is not that of the interval")
        else:
            if not st.assume(ge(e, 1)) or not st.assume(ge(m, 1)): return
            ret = num(ret)
            if st.decide(ge(ret, 1)) is not True: self.bad(ex, st, ("batches", "none"), "no batch is announced for an interval that is not empty")
            if st.decide(ge(m, ret)) is not True: self.bad(ex, st, ("batches", "many"), "more batches than the maximum are announced")


def job_val(ck, nd, kind, what):
    mod = ck.mod(TU, nd); r = Val(ck, what); root = "l_%s_%s" % (kind, what); mod.body(mod.fns[root]); r.n = mod.fns[root].nparams
    ck.explore(mod, root, r)


def run_P18(ck):
    ck.rule_text = ("a draw changes the shared state of the partitioner by exactly one atomic read-modify-write step when it hands out a range; with the ranges as functions of the value that step replaced: every range is non empty, the range of "
                    "the next value begins where it ended, that of the initial value begins at the start of the interval, a draw fails only after a range that ended at the end of the interval, and never succeeds after one that failed")
    ck.explanation = "path sensitive abstract interpretation of construction and one draw with symbolic interval, grain and batch count; the relations between consecutive draws are decided for every pair of paths by substitution of the counter in linear forms"
    for nd in CONFIGS: ck.configs.append(ck.mod(TU, nd).label)
    ck.parts([("%s%s" % (k, d), job_part, (nd, k, "l_%s_%s" % (k, d))) for nd in CONFIGS for k in "AS" for d in ("draw", "drawc", "copy")] +
             [("%s%s" % (k, w), job_val, (nd, k, w)) for nd in CONFIGS for k in "AS" for w in ("valid", "elements", "batches")])


# ---- loops ------------------------------------------------------------------------------------------------------------
# Copies of the user's partitioners and functions are told apart by the first word of their memory.
ID = 8
COUNT = S(('cell', 'added'), True); NEXT = S(('cell', 'next'), True); LAST = S(('cell', 'last'), True)


def ident(st, p): return num(st.read(p, ID, False))


def m_copyable(ex, st, ins, fn, args):
    """constructors and assignments of a user supplied class: the identity goes with the copies; what was moved from is no longer it"""
    n = names.base(fn.dname).split("::"); ps = names.params(fn.dname) or []
    if n[-1] in (n[-2], "operator=") and len(ps) == 1 and len(args) == 2:
        st.write(args[0], ID, ident(st, args[1]))
        if ps[0].endswith("&&") and args[0] != args[1]: st.write(args[1], ID, S(('moved', ident(st, args[0]))))
        return models.O(args[0] if ins.ty.k == "ptr" else None)
    if n[-1].startswith("~"): return models.O(None)
    return models.O(ex.fresh(st, ins, "ret", ins.ty.k == "ptr") if ins.ty.k != "void" else None)


def p_elements(i): return S(('elements', i))
def p_batches(st, i):
    b = S(('batches', i)); e = p_elements(i)
    st.assume(ge(b, 0))
    if st.decide(ge(e, 1)) is True: st.assume(ge(b, 1)); st.assume(ge(sub(e, b), 0))
    return b


def m_part(ex, st, ins, fn, args):
    """a partitioner: what P18 requires of it"""
    b = names.base(fn.dname); n = b.split("::"); ps = names.params(fn.dname) or []
    if n[-1].startswith("~"): return models.O(None)
    if n[-1] == n[-2] or n[-1] == "operator=":
        if len(ps) == 1 and len(args) == 2 and ps[0].rstrip("&").replace(" const", "").endswith(n[-2]):
            st.write(args[0], ID, ident(st, args[1])); return models.O(args[0] if ins.ty.k == "ptr" else None)
        if n[-2] == "simple_partitioner": rng = (0, args[1]) if len(ps) == 2 else (args[1], args[2]) if len(ps) == 3 else None
        elif n[-2] == "atomic_partitioner": rng = (0, args[1]) if len(ps) == 3 else (args[1], args[2]) if len(ps) == 4 else None
        else: rng = None
        if rng is None: raise Incomplete("constructor of a partitioner not recognised: " + fn.dname)
        i = S(('range', num(rng[0]), num(rng[1])))
        st.write(args[0], ID, i)
        e = p_elements(i); st.assume(eq(e, sub(num(rng[1]), num(rng[0]))))
        return models.O(None)
    i = ident(st, args[0]); e = p_elements(i)
    if n[-1] == "isValid":
        c = ge(e, 1)
        if ins.ty.w == 1: return models.O(c)
        return [Outcome(1, [(c, True)]), Outcome(0, [(c, False)])]
    if n[-1] == "elementCount": return models.O(e)
    if n[-1] == "batchCount": return models.O(p_batches(st, i))
    if n[-1] == "getNextValidRange":
        f = ex.fresh(st, ins, "first"); l = ex.fresh(st, ins, "last")
        return [Outcome(0, tag="none"), Outcome(1, [(ge(sub(l, f), 1), True)], [(args[1], 4, f), (args[2], 4, l)], tag=("range", f, l))]
    raise Incomplete("unknown member of a partitioner: " + b)


PARTS = ("Part", "oqpi::simple_partitioner", "oqpi::atomic_partitioner", "oqpi::base_partitioner")
FUNCS = ("Fn1", "Fn2", "FnE", "FnC")


def m_cont(ex, st, ins, fn, args):
    """the user's container: elements next to each other"""
    n = names.base(fn.dname).split("::")[-1]; i = ident(st, args[0])
    at = S(('elem', 'of', i), True)
    if n == "Cont" and len(args) == 2: st.write(args[0], ID, S(('copied', ident(st, args[1])))); return models.O(None)
    if n in ("operator[]", "at"): return models.O(add(at, mul(num(args[1]), 8)))
    if n in ("begin", "data"): return models.O(at)
    if n == "end": return models.O(add(at, mul(S(('size', i)), 8)))
    if n == "size": st.assume(ge(S(('size', i)), 0)); return models.O(S(('size', i)))
    if n == "empty": st.assume(ge(S(('size', i)), 0)); return models.O(eq(S(('size', i)), 0))
    return models.O(None)


def m_wait(ex, st, ins, fn, args): return models.O(ex.fresh(st, ins, "ret", ins.ty.k == "ptr") if ins.ty.k != "void" else None)


def m_sched(ex, st, ins, fn, args):
    n = names.base(fn.dname).split("::")[-1]
    if n == "add":
        # the same handle is given back
        for o in (0, 8): st.write(add(args[0], o), 8, st.read(add(args[2], o), 8, True))
        return models.O(None)
    if ins.ty.k == "void": return models.O(None)
    return models.O(ex.fresh(st, ins, "ret", ins.ty.k == "ptr"))


LOOPM = dict(list(EVENT.items()) + [(c + "::*", m_part) for c in PARTS] + [(c + "::*", m_copyable) for c in FUNCS] +
             [("Cont::*", m_cont), ("Evt::*", m_user), ("SchedS::*", m_sched), ("oqpi::task_handle::activeWait", m_wait), ("oqpi::task_handle::wait", m_wait)] +
             [("oqpi::%s::%s" % (c, f), m_wait) for c in ("parallel_group", "task_group", "task_base", "task_group_base") for f in ("activeWait", "wait")])
WAITS = {k for k, v in LOOPM.items() if v is m_wait}


def root_of(p):
    b, o = split_ptr(p) if is_num(p) else (None, None)
    return b


def owned(p):
    b = root_of(p)
    return b is not None and SYM[b][0][0] == 'hp'


class Body(Mon):
    """one task of the loop, executed"""
    sequential = True
    def __init__(self, ck, loop): self.ck = ck; self.p = loop; self.models = LOOPM; self.batch = set(); self.parts = set(); self.fin = 0
    def init(self, st): st.mon.clear(); st.mon['end'] = ''; st.write(NEXT, 8, 0); st.write(LAST, 8, 0)
    def left(self, st): return num(st.read(NEXT, 8, False)), num(st.read(LAST, 8, False))
    def event(self, ex, st, kind, e):
        if kind == "loop":
            a, b = self.left(st)
            if a != 0 and st.equal(a, b): st.write(NEXT, 8, 0); st.write(LAST, 8, 0)
            return
        if kind != "call": return
        n = e["name"]; c, _, f = n.rpartition("::")
        if c in PARTS and f == "getNextValidRange":
            self.ck.obligation(self.p.root + ":draw")
            p = e["args"][0]; self.parts.add(p); a, b = self.left(st)
            if not st.equal(ident(st, p), self.p.part): self.bad(ex, st, ("partitioner",), "ranges are drawn from another partitioner than the one of the loop")
            if not owned(p): self.bad(ex, st, ("partitioner", "shared"), "the tasks of a loop do not draw their ranges from a copy of the partitioner that lives as long as they do")
            if not st.equal(a, b): self.bad(ex, st, ("abandoned",), "a new range is drawn although the previous one was not finished")
            if e["tag"] == "none": st.mon['end'] = 'y'; st.write(NEXT, 8, 0); st.write(LAST, 8, 0); self.note(ex, st, "no range is left")
            else: st.write(NEXT, 8, e["tag"][1]); st.write(LAST, 8, e["tag"][2]); self.note(ex, st, "draws a range")
        elif c in FUNCS and f == "operator()":
            self.ck.obligation(self.p.root + ":body")
            a, b = self.left(st); args = e["args"]; self.note(ex, st, "calls the function")
            if not st.equal(ident(st, args[0]), self.p.func): self.bad(ex, st, ("function",), "the function called is not the one given to the loop (or was moved away)")
            elif self.p.later and not owned(args[0]): self.bad(ex, st, ("function", "dangling"), "the function called does not live as long as the task")
            if not (st.decide(ge(sub(sub(b, a), 1), 0)) is True or poly.proves_ge(st.facts, sub(sub(b, a), 1))): self.bad(ex, st, ("outside",), "the function is called for an index that is not in the range handed out"); return
            i = args[-1]; want = a
            if self.p.elem is not None: want = add(S(('elem', 'of', self.p.elem), True), mul(a, 8))
            if not (is_num(i) and st.equal(num(i), want)):
                self.bad(ex, st, ("index",), "the indices of a range are not visited once each, in order" if self.p.elem is None else "the function is not called with the element of the container at the index handed out")
            if c == "Fn2": self.batch.add(num(args[1]))
            st.write(NEXT, 8, add(a, 1))
    def finish(self, ex, st, ret):
        self.fin += 1; a, b = self.left(st)
        if not st.equal(a, b): self.bad(ex, st, ("unfinished",), "a task of the loop ends before it has visited all of its range")
        if st.mon['end'] != 'y': self.bad(ex, st, ("undrawn",), "a task of the loop ends although ranges may be left")


class Waited(Mon):
    """waiting for the group blocks until it is done"""
    sequential = True
    def __init__(self, ck, lay): self.ck = ck; self.L = lay; self.models = {k: v for k, v in LOOPM.items() if k not in WAITS}; self.fin = 0
    def init(self, st): st.mon.clear(); st.mon['w'] = ''
    def event(self, ex, st, kind, e):
        if kind == "call" and (e["name"] == "Evt::wait" or is_event(e["name"], "wait")): st.mon['w'] = 'y'
    def finish(self, ex, st, ret):
        self.fin += 1
        if st.mon['w'] != 'y': self.bad(ex, st, ("wait",), "waiting for the loop does not wait for its completion")


class Loop(Mon):
    collect = True
    def __init__(self, ck, mod, lay): self.ck = ck; self.L = lay; self.mod = mod; self.models = LOOPM; self.added = 0; self.waits = ()
    def init(self, st):
        for k in ('group', 'part', 'd', 's'): st.mon[k] = None
        st.mon['sub'] = ''; st.mon['waited'] = ''; st.mon['saw'] = (); st.write(COUNT, 8, 0)
        b = self.banks(st)
        self.part, self.func, self.elem = b
    def arg(self, i, ptr=True): return S(('arg', i, self.root), ptr)
    def banks(self, st):
        r = self.root; kind = r.split("_")[1]; word = lambda p: num(S(('m', p, 8)))
        self.rng = None; elem = None
        if kind == "grp": part, func = word(self.arg(2)), self.arg(4)
        elif kind == "for": part, func = word(self.arg(2)), self.arg(4)
        elif kind == "hgrp": part, func = word(self.arg(1)), self.arg(3)
        elif kind == "each":
            elem = word(self.arg(1))
            if "part" in r: part, func = word(self.arg(2)), self.arg(4)
            else: self.rng = (0, S(('size', elem))); func = self.arg(2)
        elif "part" in r: part, func = word(self.arg(1)), self.arg(3)
        elif "range" in r: self.rng = (self.arg(1, False), self.arg(2, False)); func = self.arg(3)
        else: self.rng = (0, self.arg(1, False)); func = self.arg(2)
        if self.rng: part = S(('range', num(self.rng[0]), num(self.rng[1])))
        self.later = kind in ("grp", "hgrp")
        return part, word(func), elem
    def nested(self, ex, st, obj, slot, rule, tag):
        vt = st.read(obj, 8, True)
        f = st.read(add(vt, slot), 8, True); s = only_sym(f) if is_num(f) else None
        if s is None or SYM[s][0][0] != 'fn': raise Incomplete("%s: the type of the %s is not known" % (self.root, tag))
        s2 = st.copy(); s2.fr = None
        if self.later:
            for b in [b for b in s2.mem if b is not None and SYM[b][0][0] == 'al']: del s2.mem[b]
        rule.root = self.root; rule.mod = self.mod; rule.check = self.ck; rule.init(s2)
        e2 = Explorer(self.mod, models.Models(self.mod, self.tabbed(rule)), rule, dict(max_time=200)); e2.ctxs = ex.ctxs
        e2.start(SYM[s][0][1], [obj], s2)
        self.ck.paths += e2.stats["paths"]; self.ck.events += e2.stats["events"]; self.ck.steps += e2.stats["steps"]; self.ck.funcs |= e2.stats["functions"]
        for k, (msg, loc, trace, stack) in e2.violations.items(): self.ck.violation((self.root, tag) + k, "%s [%s, %s]" % (msg, self.root, self.mod.label), loc, ex.trace_of(st) + trace, stack)
        return e2
    def tabbed(self, rule):
        t = {"verif_dyn": m_dyn, "verif_shared": m_shared}; t.update(USER); t.update(rule.models); rule.models = t
        return rule
    def event(self, ex, st, kind, e):
        if kind == "enter" and names.base(e["fn"].dname).endswith("::addTask"): self.add(ex, st, e["args"])
        elif kind == "vcall" and e["slot"] == self.L.slots["addTask"]: self.add(ex, st, e["args"])
        elif kind == "call":
            n = e["name"]; m = st.mon
            if n == "SchedS::add":
                self.ck.obligation(self.root + ":submit")
                p = self.L.handle_ptr(st, e["args"][2]); self.note(ex, st, "submits the loop")
                if m['group'] is None or root_of(p) != root_of(m['group']): self.bad(ex, st, ("submit", "other"), "what is submitted is not the group of the loop")
                if m['sub']: self.bad(ex, st, ("submit", "twice"), "the group of a loop is submitted twice")
                self.complete(ex, st); m['sub'] = 'y'
            elif n in WAITS:
                if n.startswith("oqpi::task_handle::"): p = self.L.handle_ptr(st, e["args"][0])
                else: p = e["args"][0]
                if m['group'] is not None and root_of(p) == root_of(m['group']) and m['sub']:
                    self.ck.obligation(self.root + ":wait"); m['waited'] = 'y'; self.note(ex, st, "waits for the loop")
                    r = Waited(self.ck, self.L); self.nested(ex, st, p, self.L.slots["wait"], r, "group")
                    if not r.fin: self.bad(ex, st, ("wait", "never"), "the group of the loop cannot be waited for")
        elif kind == "load" and e["size"] == 1 and is_num(e["addr"]) and st.mon['sub'] and st.mon['group'] is not None and sub(e["addr"], st.mon['group']) == self.L.done and e["order"] in ACQ:
            st.mon['saw'] += (e["val"],)
    def add(self, ex, st, args):
        m = st.mon; self.ck.obligation(self.root + ":task"); self.note(ex, st, "adds a task to the group")
        h = self.L.handle_ptr(st, args[1]); n = num(st.read(COUNT, 8, False))
        if m['sub']: self.bad(ex, st, ("late",), "a task is added after the group was submitted")
        if m['group'] is None: m['group'] = args[0]
        elif root_of(args[0]) != root_of(m['group']): self.bad(ex, st, ("groups",), "the tasks of a loop are not all in one group")
        if not owned(h): raise Incomplete("the task added is not known")
        r = Body(self.ck, self)
        st2 = st.copy(); st2.write(add(h, self.L.grab), 1, 1)
        self.nested(ex, st2, h, self.L.slots["execute"], r, "task")
        if not r.fin or not r.parts: self.bad(ex, st, ("nothing",), "a task of the loop draws no range")
        for p in r.parts:
            if m['part'] is None: m['part'] = p
            if p != m['part']: self.bad(ex, st, ("copies",), "the tasks of a loop do not share one partitioner")
            self.kept(ex, st, h, p)
        for b in r.batch:
            self.ck.obligation(self.root + ":batch")
            bc = p_batches(st, self.part)
            if not (st.decide(ge(b, 0)) is True and (st.decide(ge(sub(sub(bc, b), 1), 0)) is True or poly.proves_ge(st.facts, sub(sub(bc, b), 1)))): self.bad(ex, st, ("batch", "outside"), "the batch number given to the function is not below the number of batches")
            d, s = sub(b, n), add(b, n)
            if m['d'] is None: m['d'], m['s'] = (d,), (s,)
            else:
                if m['d'] and not st.equal(d, m['d'][0]): m['d'] = ()
                if m['s'] and not st.equal(s, m['s'][0]): m['s'] = ()
                if not m['d'] and not m['s']: self.bad(ex, st, ("batch", "repeated"), "two tasks of a loop may have the same batch number")
        if len(r.batch) > 1: self.bad(ex, st, ("batch", "several"), "one task gives several batch numbers to the function")
        st.write(COUNT, 8, add(n, 1)); self.added += 1
    def kept(self, ex, st, h, p):
        """the task holds a counted reference to what its ranges are drawn from"""
        b = root_of(p)
        if b == root_of(h): return
        c = st.mem.get(root_of(h), {})
        for o, (w, v) in c.items():
            if not isinstance(o, int) or w != 8 or not is_num(v) or root_of(v) != b: continue
            nx = c.get(o + 8)
            if nx is not None and nx[0] == 8 and is_num(nx[1]) and root_of(nx[1]) is not None: return
        self.bad(ex, st, ("partitioner", "unowned"), "the tasks of a loop do not own the partitioner they share")
    def complete(self, ex, st):
        n = num(st.read(COUNT, 8, False)); bc = p_batches(st, self.part)
        if not (st.equal(n, bc) or poly.proves_eq(st.facts, sub(n, bc))): self.bad(ex, st, ("tasks",), "a loop does not have one task for each batch")
    def finish(self, ex, st, ret):
        self.ck.obligation(); m = st.mon
        e = p_elements(self.part) if not self.rng else sub(num(self.rng[1]), num(self.rng[0]))
        for s2, full in ex.fork_cond(st.copy(), ge(e, 1)):
            n = num(s2.read(COUNT, 8, False))
            if not full:
                if not (s2.equal(n, 0)) or m['sub']: self.bad(ex, s2, ("empty",), "tasks are created for an empty interval")
                if self.later:
                    out = self.L.handle_ptr(s2, self.arg(self.mod.fns[self.root].nparams - 1))
                    if s2.decide(eq(out, 0)) is not True and m['group'] is None: self.bad(ex, s2, ("empty", "group"), "a group is returned for an empty interval")
                continue
            if self.rng: s2.assume(eq(p_elements(self.part), e))
            if m['group'] is None: self.bad(ex, s2, ("none",), "nothing is done for an interval that is not empty"); continue
            self.complete(ex, s2)
            if self.later:
                out = self.L.handle_ptr(s2, self.arg(self.mod.fns[self.root].nparams - 1))
                if not is_num(out) or root_of(out) != root_of(m['group']): self.bad(ex, s2, ("returned",), "the group returned is not the one the tasks were added to")
            else:
                if not m['sub']: self.bad(ex, s2, ("unsubmitted",), "a loop returns without having been submitted")
                elif not m['waited'] and not any(s2.decide(eq(v, 0)) is False for v in m['saw']): self.bad(ex, s2, ("unwaited",), "a loop returns without having waited for its tasks")


def job_loop(ck, nd, root):
    mod = ck.mod(TU, nd); lay = layout(ck, ck.mod("core.cpp", nd)); explore._MOD[0] = mod
    mod.body(mod.fns[root])
    r = Loop(ck, mod, lay)
    ck.explore(mod, root, r)
    if not r.added: ck.violation((root, "notask"), "no task is ever created [%s, %s]" % (root, mod.label))


LOOPS = ("grp_W1", "grp_W1m", "grp_W2", "grp_F1", "grp_F2m", "for_1", "for_2m", "hgrp", "hfor_part", "hfor_partc", "hfor_range", "hfor_rangec", "hfor_count", "hfor_countc")
EACH = ("each_part", "each_partc", "each", "each_const")
BODY = ("every task added to the group of a loop is executed abstractly at the point it is added: it draws only from the one shared, owned copy of the loop's partitioner until nothing is left, and calls the loop's function "
        "for consecutive indices from the beginning to the end of each range")


def run_P19(ck):
    ck.rule_text = BODY + ", with a batch number of its own; as many tasks as batches are added; the group is submitted once, after that, and waited for; nothing happens for an empty interval"
    ck.explanation = "abstract interpretation of the loop entry points with symbolic partitioner, function and batch count (loop invariants over the number of tasks and the position in a range); copies are tracked by provenance"
    for nd in CONFIGS: ck.configs.append(ck.mod(TU, nd).label); ck.mod("core.cpp", nd)
    ck.parts([("l_" + r, job_loop, (nd, "l_" + r)) for nd in CONFIGS for r in LOOPS])


def run_P20(ck):
    ck.rule_text = BODY + ", passing the element of the given container at that index by reference; the indices are those of the explicit partitioner or from zero to the size of the container"
    ck.explanation = "abstract interpretation of the loops over a container, with a container, a function and a partitioner that are declared only"
    for nd in CONFIGS: ck.configs.append(ck.mod(TU, nd).label); ck.mod("core.cpp", nd)
    ck.parts([("l_" + r, job_loop, (nd, "l_" + r)) for nd in CONFIGS for r in EACH])
