"""Threads (P30-P33): abstract interpretation over every outcome of every operating system call, with a ledger of the
threads owned, and the function given to the system interpreted as the body of the new thread."""
from lib import *
from models import O, sget
TU = "threads.cpp"
HC = 8                      # number of processors of the machine considered when masks are validated
POLICY = {0: (0, 0), 1: (1, 99), 2: (1, 99)}   # range of the priorities of SCHED_OTHER, SCHED_FIFO, SCHED_RR
RTPRIO = 14
AFF = add(S(('cell', 'affinity'), True), 0)


def err(ex, st, ins, tag="err"):
    v = ex.fresh(st, ins, tag)
    return v, [(ge(v, 1), True)]


def m_rc(ex, st, ins, fn, args):
    """succeeds, or fails with an error number"""
    v, a = err(ex, st, ins)
    return [Outcome(0, tag="ok"), Outcome(v, a, (), "failed")] if ex.rule.failures else O(0, (), (), "ok")


def m_self(ex, st, ins, fn, args): return O(ex.rule.me)


def m_create(ex, st, ins, fn, args):
    t = ex.fresh(st, ins, "tid"); g = ex.fresh(st, ins, "junk"); v, a = err(ex, st, ins)
    ok = Outcome(0, [(eq(t, 0), False), (eq(t, ex.rule.me), False)], [(args[0], 8, t)], ("ok", t))
    return [ok, Outcome(v, a, [(args[0], 8, g)], ("failed", g))] if ex.rule.failures else [ok]


def m_getrlimit(ex, st, ins, fn, args):
    c, x = ex.fresh(st, ins, "cur"), ex.fresh(st, ins, "max")
    out = [Outcome(0, [(ge(c, 0), True), (ge(x, 0), True)], [(args[1], 8, c), (add(args[1], 8), 8, x)], ("ok", c))]
    if ex.rule.failures: out.append(Outcome(-1, (), (), ("failed", None)))
    return out


def m_minmax(i):
    def h(ex, st, ins, fn, args):
        p = st.simp(num(args[0]))
        if not isinstance(p, int) or p not in POLICY: return O(-1)
        return O(POLICY[p][i])
    return h


def m_sysconf(ex, st, ins, fn, args): return O(ex.rule.procs)
PROCS = (HC, 1, 32, 33, 64, 65, 256)      # machines considered when valid masks are set


def words(st, p, n=128):
    """the content of n bytes, four at a time"""
    out = []
    for o in range(0, n, 4):
        v = st.read(add(p, o), 8 if o % 8 == 0 and False else 4, False)
        out.append(v)
    return out


def is_mask(st, w, want):
    """is the set of processors w, in words of four bytes, exactly the affinity, extended with zeroes"""
    part = lambda i: S(('op', 'part', 32, want, 32 * i))
    eqv = lambda a, b: explore.wrap(a, 32) == explore.wrap(b, 32) if isinstance(a, int) and isinstance(b, int) else st.equal(num(a), b)
    return (eqv(w[0], want) or eqv(w[0], part(0))) and all(num(x) == 0 or i == 1 and eqv(x, part(1)) for i, x in enumerate(w) if i)


def m_setaff(ex, st, ins, fn, args):
    v, a = err(ex, st, ins)
    n = st.simp(num(args[1]))
    w = words(st, args[2], n if isinstance(n, int) and 0 < n <= 1024 else 128)
    ok = Outcome(0, (), [(add(AFF, 4 * i), 4, x) for i, x in enumerate(w)], ("ok", tuple(w)))
    return [ok, Outcome(v, a, (), ("failed", tuple(w)))] if ex.rule.failures else [ok]


def m_attraff(ex, st, ins, fn, args):
    v, a = err(ex, st, ins)
    n = st.simp(num(args[1])); w = words(st, args[2], n if isinstance(n, int) and 0 < n <= 1024 else 128)
    return [Outcome(0, (), (), ("ok", tuple(w))), Outcome(v, a, (), ("failed", tuple(w)))]


def m_getaff(ex, st, ins, fn, args):
    v, a = err(ex, st, ins)
    n = st.simp(num(args[1])); n = n if isinstance(n, int) and 0 < n <= 1024 else 128
    ok = Outcome(0, (), [(add(args[2], 4 * i), 4, st.read(add(AFF, 4 * i), 4, False)) for i in range(n // 4)], ("ok",))
    return [ok, Outcome(v, a, (), ("failed",))] if ex.rule.failures else [ok]


def m_getsched(ex, st, ins, fn, args):
    v, a = err(ex, st, ins)
    ok = Outcome(0, (), [(args[1], 4, 2), (args[2], 4, st.read(PRIO, 4, False))], ("ok",))
    return [ok, Outcome(v, a, (), ("failed",))] if ex.rule.failures else [ok]
PRIO = S(('cell', 'priority'), True)


def m_setprio(ex, st, ins, fn, args):
    v, a = err(ex, st, ins)
    ok = Outcome(0, (), [(PRIO, 4, args[1])], ("ok",))
    return [ok, Outcome(v, a, (), ("failed",))] if ex.rule.failures else [ok]


def m_setsched(ex, st, ins, fn, args):
    v, a = err(ex, st, ins)
    ok = Outcome(0, (), [(PRIO, 4, st.read(args[2], 4, False))], ("ok",))
    return [ok, Outcome(v, a, (), ("failed",))] if ex.rule.failures else [ok]


def m_delete(ex, st, ins, fn, args): return O(None, (), (), "delete")


def m_plain(ex, st, ins, fn, args): return O(ex.fresh(st, ins, "ret", ins.ty.k == "ptr") if ins.ty.k != "void" else None)


def m_assert(ex, st, ins, fn, args):
    ex.stats["asserted"] += 1
    ex.rule.asserted(ex, st)
    return "end"


ATTR_SET = ("pthread_attr_setdetachstate", "pthread_attr_setschedpolicy", "pthread_attr_setschedparam", "pthread_attr_setinheritsched", "pthread_attr_setstacksize", "pthread_attr_setguardsize",
            "pthread_attr_setscope", "pthread_attr_setaffinity_np")
BASE = {"pthread_create": m_create, "pthread_join": m_rc, "pthread_detach": m_rc, "pthread_cancel": m_rc, "pthread_self": m_self, "pthread_kill": m_rc, "pthread_timedjoin_np": m_rc, "pthread_tryjoin_np": m_rc,
        "pthread_attr_init": m_rc, "pthread_attr_destroy": m_rc, "getrlimit": m_getrlimit, "getrlimit64": m_getrlimit, "pthread_setaffinity_np": m_setaff, "pthread_attr_setaffinity_np": m_attraff,
        "pthread_getaffinity_np": m_getaff, "pthread_setschedprio": m_setprio, "pthread_setschedparam": m_setsched, "pthread_getschedparam": m_getsched, "pthread_setname_np": m_rc, "sysconf": m_sysconf,
        "sched_get_priority_min": m_minmax(0), "sched_get_priority_max": m_minmax(1), "operator delete": m_delete, "operator delete[]": m_delete, "free": m_delete,
        "Fn::operator()": m_plain, "Fo::operator()": m_plain, "Obj::method": m_plain, "fun": m_plain, "verif_see": m_plain, "verif_mark": m_plain,
        "oqpi::assert_function": m_assert, "oqpi::assert_and_return_false": m_assert, "oqpi::assert_and_return_true": m_assert, "oqpi::debugger_break": m_assert}
for _n in ATTR_SET:
    if _n not in BASE: BASE[_n] = m_rc
ENDS = {"pthread_join": "joined", "pthread_timedjoin_np": "joined", "pthread_tryjoin_np": "joined", "pthread_detach": "detached", "pthread_cancel": "cancelled"}
ONTHREAD = {"pthread_kill": 0, "pthread_setaffinity_np": 0, "pthread_getaffinity_np": 0, "pthread_setschedprio": 0, "pthread_getschedparam": 0, "pthread_setschedparam": 0, "pthread_setname_np": 0}
USERFN = ("Fn::operator()", "Fo::operator()", "Obj::method", "fun")


class Thr(Mon):
    sequential = True; failures = True; mask = None; procs = HC
    def __init__(self, ck, mod, pid):
        self.ck = ck; self.mod = mod; self.pid = pid; self.models = dict(BASE); self.me = S(('self', 'creator'))
        self.off = ck.field(mod, "h_thread", ("load",))
        self.o = {k: ck.retval(mod, "z_off" + k) for k in ("name", "stack", "mask", "prio")}
    def init(self, st): pass
    def asserted(self, ex, st): pass
    def setup(self, st):
        for g in self.mod.globs:
            if g.startswith("_ZGV"): st.write(S(('gl', g), True), 8, 0)      # static locals are set on first use
        st.assume(eq(self.me, 0), False)
    def rep(self, ex, st, key, msg, *pids):
        if self.pid in pids: self.bad(ex, st, key, msg)
    def arg(self, i, ptr=True): return S(('arg', i, self.root), ptr)
    def handle(self, st): return num(st.read(add(self.arg(0), self.off), 8, False))


# ---- P30: the ledger of threads ------------------------------------------------------------------------------------------
class Life(Thr):
    """'own': handles of the threads created and not joined, detached or cancelled; what: 'op' on an existing object or 'hist'"""
    def __init__(self, ck, mod, pid, what):
        super().__init__(ck, mod, pid); self.what = what
        self.models.update({"verif_see": m_plain})
    def init(self, st):
        m = st.mon; m['own'] = (); m['calls'] = (); m['seen'] = (); m['cancelled'] = ()
    def setup(self, st):
        super().setup(st)
        if self.what != "hist":
            h = self.handle(st)
            st.mon['own'] = (h,)
            self.h0 = h
        elif self.mask is not None: st.write(add(self.arg(0), self.o["mask"]), 4, self.mask)
    def owned(self, st, h):
        for x in st.mon['own']:
            if st.equal(x, h): return x
        return None
    def event(self, ex, st, kind, e):
        m = st.mon
        if kind != "call": return
        n = e["name"]; a = e["args"]; t = e["tag"]
        if n == "pthread_create":
            self.ck.obligation((self.root, e["ins"].uid)); self.note(ex, st, "creates a thread: %s" % t[0])
            if t[0] == "ok": m['own'] += (t[1],)
        elif n in ENDS:
            self.ck.obligation((self.root, e["ins"].uid)); self.note(ex, st, "%s -> %s" % (n, t))
            h = num(a[0]); x = self.owned(st, h)
            if st.decide(eq(h, 0)) is not False: self.rep(ex, st, (n, "null"), "%s on a thread object that owns no thread" % n, "P30")
            elif x is None and not (n == "pthread_detach" and any(st.equal(c, h) for c in m['cancelled'])): self.rep(ex, st, (n, "unowned"), "%s on a thread that is not owned (any more)" % n, "P30", "P29")
            if ENDS[n] == "joined" and st.decide(eq(h, self.me)) is not False: self.rep(ex, st, (n, "self"), "a thread may join itself", "P30")
            if n == "pthread_timedjoin_np" or n == "pthread_tryjoin_np": self.rep(ex, st, (n, "partial"), "joining may end before the thread has", "P30")
            m['calls'] += ((ENDS[n], t),)
            if len(m['calls']) > 12: m['calls'] = m['calls'][-12:]
            if t == "ok" and x is not None:
                m['own'] = tuple(y for y in m['own'] if y != x)
                if n == "pthread_cancel": m['cancelled'] += (x,)
            if n in ("pthread_detach", "pthread_join"): m['cancelled'] = tuple(c for c in m['cancelled'] if not st.equal(c, h))
        elif n in ONTHREAD:
            self.ck.obligation((self.root, e["ins"].uid))
            h = num(a[0])
            if st.equal(h, self.me): return
            if st.decide(eq(h, 0)) is not False: self.rep(ex, st, (n, "null"), "%s on a thread object that owns no thread" % n, "P30")
            elif self.owned(st, h) is None: self.rep(ex, st, (n, "unowned"), "%s on a thread that is not owned (any more)" % n, "P30")
        elif n == "std::terminate":
            if self.what == "hist": ok = any(st.decide(eq(h, 0)) is False for h in m['own'])
            else: ok = st.decide(eq(self.h0, 0)) is False and self.what == "destroy"
            if not ok: self.rep(ex, st, ("terminate",), "the program is terminated although no running thread is dropped", "P30")
            if self.root == "x_hist_self" and len(m['seen']) == 1: self.rep(ex, st, ("self", "terminate"), "assigning a thread to itself ends the program", "P29", "P30")
            m['own'] = ()
        elif n == "pthread_attr_setdetachstate" and st.simp(num(a[1])) != 0: self.rep(ex, st, ("detached",), "the thread is created detached: the object does not own it", "P30")
        elif n == "verif_see": self.see(ex, st, a)
    def see(self, ex, st, a):
        m = st.mon; self.ck.obligation()
        w = st.simp(num(a[0])); h = num(a[2])
        for s, d in cases(ex, st, a[1]):
            x = self.owned(s, h) if s.decide(eq(h, 0)) is False else None
            if d and x is None: self.rep(ex, s, ("joinable", "dead", w), "a thread object that owns no running thread reports to be joinable", "P30", "P29")
            if not d and s.decide(eq(h, 0)) is not True: self.rep(ex, s, ("joinable", "denied", w), "a thread object that is not joinable holds a thread", "P30", "P29")
        d = st.decide(a[1]) if not isinstance(a[1], int) else bool(a[1] & 1)
        if d is None: raise Incomplete("joinable not known")
        self.note(ex, st, "object %s: joinable %s, handle %s" % (w, d, show(h)))
        m['seen'] += ((w, h if d else 0),)
        self.ends(ex, st)
    def finish(self, ex, st, ret):
        self.ck.obligation(); m = st.mon
        if m['cancelled']: self.rep(ex, st, ("cancelled", "kept"), "a terminated thread is neither detached nor joined: its resources are never released", "P30")
        if self.what == "hist":
            for h in m['own']: self.rep(ex, st, ("dropped",), "a running thread is silently dropped", "P30", "P29")
            if not m['seen']: raise Incomplete("the object was not looked at")
            return
        h1 = self.handle(st); calls = m['calls']; h0 = self.h0
        for s, none in cases(ex, st, eq(h0, 0)):
            if none:
                if calls: self.rep(ex, s, ("idle", "acts"), "the operation acts although there is no thread", "P30")
                if s.decide(eq(h1, 0)) is not True: self.rep(ex, s, ("idle", "joinable"), "an object without thread becomes joinable", "P30")
                continue
            if self.what == "destroy": self.rep(ex, s, ("dropped",), "a joinable thread object can be destroyed", "P30") if self.owned(s, h0) is not None else None; continue
            if self.what == "attr":
                if not s.equal(h1, h0): self.rep(ex, s, ("attr", "changed"), "an attribute operation changes the thread owned", "P30")
                continue
            for s2, me in cases(ex, s, eq(h0, self.me)) if self.what == "join" else [(s, False)]:
                if me:
                    if not s2.equal(h1, h0): self.rep(ex, s2, ("self", "changed"), "joining the calling thread gives it up", "P30")
                    continue
                want = {"join": "joined", "detach": "detached", "terminate": "cancelled"}[self.what]
                mine = [t for k, t in calls if k == want]
                if len(mine) != 1: self.rep(ex, s2, ("acts", len(mine)), "%s does not act exactly once on the thread owned" % self.what, "P30"); continue
                others = [k for k, t in calls if k != want and not (want == "cancelled" and k in ("detached", "joined"))]
                if others: self.rep(ex, s2, ("acts", "other"), "%s does something else to the thread owned (%s)" % (self.what, others[0]), "P30")
                if mine[0] == "ok":
                    if s2.decide(eq(h1, 0)) is not True: self.rep(ex, s2, ("done", "joinable"), "the object stays joinable after %s" % self.what, "P30")
                elif not s2.equal(h1, h0): self.rep(ex, s2, ("failed", "lost"), "a failed %s loses the thread" % self.what, "P30")
    def ends(self, ex, st):
        m = st.mon; H = self.root[len("x_hist_"):]
        s = dict(m['seen'])
        def same(a, b): return isinstance(a, int) and isinstance(b, int) and a == b or not isinstance(a, int) and not isinstance(b, int) and st.equal(a, b)
        def want(i, h, msg):
            if i in s:
                self.ck.obligation()
                if not same(s[i], h): self.rep(ex, st, (H, "see", i), msg, "P29")
        if H in ("move", "assign"):
            want(2, 0, "the source of a move still owns a thread"); want(3, s.get(1), "a move does not give the target the thread of the source")
            want(4, 0, "the source of a move owns a thread again") if H == "move" else None
        elif H == "over": want(3, 0, "the source of a move still owns a thread"); want(4, s.get(1), "a move does not give the target the thread of the source")
        elif H == "self": want(2, s.get(1), "assigning a thread to itself changes it")
        elif H == "none" and s.get(1) != 0: self.rep(ex, st, ("none",), "a default constructed thread is joinable", "P30")


LIFE_OPS = {"x_join": "join", "x_detach": "detach", "x_terminate": "terminate", "x_destroy": "destroy", "x_setprio": "attr", "x_getprio": "attr", "x_setmask": "attr", "x_getmask": "attr", "x_setcore": "attr"}
HISTS = ("none", "join", "detach", "terminate", "drop", "move", "assign", "over", "self", "temp", "reuse")


FIRST = dict(max_steps=100000, max_states=3000)
MASKS = (1, 1 << (HC - 1), 0x5a, -1)


def each_mask(ck, mod, root, make, i=None):
    """explore a root for any core affinity, or, where the code takes a decision for each bit, for the affinities of MASKS; i: the number of the parameter that is the affinity, if it is not in the attributes"""
    try:
        r = make(None); r.root = root
        ck.explore(mod, root, r, None, r.setup, FIRST); return [r]
    except Incomplete as e:
        if "too many" not in str(e): raise
    out = []
    for k in MASKS if root != "x_setcore" else range(HC):
        r = make(k); r.root = root; out.append(r)
        ck.explore(mod, root, r, None if i is None else args_of(ck, mod, root, {i: k}), r.setup)
    return out


def job_life(ck, nd, pid, root, what):
    mod = ck.mod(TU, nd)
    def make(k):
        r = Life(ck, mod, pid, what); r.mask = k; return r
    each_mask(ck, mod, root, make, 1 if root in ("x_setmask", "x_setcore") else None)


class Joinable(Thr):
    """the accessors answer for the thread owned"""
    def finish(self, ex, st, ret):
        self.ck.obligation(); h = self.handle(st)
        if self.root == "x_joinable":
            for s, d in cases(ex, st, ret):
                if s.decide(eq(h, 0)) is not (not d): self.bad(ex, s, ("joinable",), "joinable does not tell whether a thread is owned")
        elif not st.equal(num(ret), h): self.bad(ex, st, ("id",), "the identity answered is not that of the thread owned")


def job_joinable(ck, nd, root):
    mod = ck.mod(TU, nd); r = Joinable(ck, mod, "P30"); r.root = root
    ck.explore(mod, root, r, setup=r.setup)


def run_P30(ck):
    ck.explanation = "every operation on an existing thread object with any handle, and histories of creation, join, detach, terminate, destruction, moves and reuse, with every system call succeeding and failing"
    ck.rule_text = ("ledger of threads: a thread is owned from its successful creation until it is successfully joined, detached or cancelled; every call acts on an owned thread, never on a null handle nor on the calling thread; join, detach "
                    "and terminate make exactly one such call and give the handle up exactly if it succeeded; joinable if and only if a thread is owned; an owned thread is never dropped except by ending the program")
    j = [(r, job_life, (nd, "P30", r, w)) for nd in CONFIGS for r, w in LIFE_OPS.items()]
    j += [(h, job_life, (nd, "P30", "x_hist_" + h, "hist")) for nd in CONFIGS for h in HISTS]
    j += [(r, job_joinable, (nd, r)) for nd in CONFIGS for r in ("x_joinable", "x_id", "x_native")]
    ck.parts(j, tus=(TU,))


def thread_moves(): return [("thread " + h, job_life, (nd, "P29", "x_hist_" + h, "hist")) for nd in CONFIGS for h in ("move", "assign", "over", "self", "temp")]


# ---- P31, P32: the start ---------------------------------------------------------------------------------------------------
class Body(Thr):
    """the new thread, from the function given to the system"""
    def __init__(self, ck, outer, stack, heap):
        super().__init__(ck, outer.mod, outer.pid); self.outer = outer; self.me = outer.tid; self.stack = stack; self.heap = heap; self.fin = 0
    def init(self, st):
        m = st.mon; m.clear()
        m['calls'] = '0'; m['freed'] = (); m['named'] = ''; m['keep'] = tuple(self.outer.owned_args(st))
    def event(self, ex, st, kind, e):
        m = st.mon
        if kind in ("load", "store", "rmw", "cas") and is_num(e["addr"]):
            b = split_ptr(e["addr"])[0]
            if b in self.stack: self.rep(ex, st, ("stack",), "the new thread uses the stack of its creator", "P31")
            if b in self.freedb(st): self.rep(ex, st, ("freed",), "the new thread uses its storage after having freed it", "P31")
            if e["addr"] is not None and b == split_ptr(self.outer.arg(0))[0]: self.rep(ex, st, ("attributes",), "the new thread uses the attributes of its creator", "P31", "P32")
        if kind != "call": return
        n = e["name"]; a = e["args"]
        for x in a:
            b = split_ptr(x)[0] if is_num(x) and not isinstance(x, int) else None
            if b in self.stack and b is not None: self.rep(ex, st, ("stack",), "the new thread uses the stack of its creator", "P31")
            if b is not None and b == split_ptr(self.outer.arg(0))[0]: self.rep(ex, st, ("attributes",), "the new thread uses the attributes of its creator", "P31", "P32")
        if n in USERFN: self.invoked(ex, st, n, a)
        elif n in ("operator delete", "operator delete[]", "free"):
            b = a[0]
            if b == 0 or st.decide(eq(b, 0)) is True: return
            if any(st.equal(b, x) for x in m['freed']): self.rep(ex, st, ("free", "twice"), "the new thread frees something twice", "P31")
            m['freed'] += (b,); self.note(ex, st, "the new thread frees %s" % show(b))
        elif n == "pthread_setname_np":
            self.ck.obligation()
            if not st.equal(num(a[0]), self.me): self.rep(ex, st, ("name", "other"), "the name is given to another thread", "P32")
            b, o = split_ptr(a[1])
            c = SYM[b][0][1] if b is not None and SYM[b][0][0] == 'cstr' and o == 0 else None
            if c != self.outer.name: self.rep(ex, st, ("name", "wrong"), "the new thread is given another name than the one asked for", "P32")
            if m['calls'] != '0': self.rep(ex, st, ("name", "late"), "the thread is named after its function was called", "P32")
            m['named'] = 'y'
        elif n == "pthread_setaffinity_np" or n == "pthread_setschedparam" or n == "pthread_setschedprio": self.outer.inside = True
        elif n == "std::terminate": self.rep(ex, st, ("terminate",), "the new thread ends the program", "P31")
    def freedb(self, st): return {split_ptr(x)[0] for x in st.mon['freed']}
    def invoked(self, ex, st, n, a):
        m = st.mon; self.ck.obligation(); self.note(ex, st, "the new thread calls the function")
        if m['calls'] != '0': self.rep(ex, st, ("twice",), "the function is called several times", "P31")
        m['calls'] = 'n' if m['calls'] != '0' else '1'
        self.outer.compare(self, ex, st, n, a)
    def finish(self, ex, st, ret):
        self.ck.obligation(); self.fin += 1; m = st.mon
        if m['calls'] == '0': self.rep(ex, st, ("never",), "the new thread may end without having called the function", "P31")
        for b in self.heap:
            if b not in self.freedb(st): self.rep(ex, st, ("leak",), "the storage of the function and its arguments is never freed by the thread", "P31")
        if not m['named'] and not self.outer.named_by(): self.rep(ex, st, ("unnamed",), "the new thread is not given the name asked for", "P32")
        # what the function owned is given back
        for p in self.outer.owned_args(st):
            k = [x for x in m['freed'] if st.equal(x, p)]
            if len(k) != 1 and st.decide(eq(p, 0)) is not True: self.rep(ex, st, ("own", len(k)), "what the function or its arguments own is not released exactly once", "P31")


class Start(Thr):
    """prio: constant priority asked for, and the value the system must get for it"""
    def __init__(self, ck, mod, pid, prio=None, sysprio=None, mask=None):
        super().__init__(ck, mod, pid); self.prio = prio; self.sysprio = sysprio; self.mask = mask; self.bodies = 0; self.inside = False; self.created = 0
    def init(self, st):
        m = st.mon
        m['heap'] = (); m['started'] = ''; m['given'] = (); m['attr'] = (); m['aff'] = ''; m['prio'] = None; m['stack'] = ''; m['expl'] = ''; m['rt'] = None; m['n'] = '0'; m['name'] = ''; m['tid'] = None; m['pol'] = ''
        m['order'] = ''
    def setup(self, st):
        super().setup(st)
        a = self.arg(0)
        if self.root == "x_start_fnmove":
            for p in (self.arg(1), self.arg(2)): st.write(p, 8, self.own(p))
        if self.root == "x_start_name":
            self.name = num(sget(st, a))
        else:
            self.name = num(sget(st, add(a, self.o["name"])))
            if self.prio is not None: st.write(add(a, self.o["prio"]), 4, self.prio)
            if self.mask is not None: st.write(add(a, self.o["mask"]), 4, self.mask)
            st.assume(ge(st.read(add(a, self.o["stack"]), 4, False), 0))
    def field(self, st, k):
        if self.root == "x_start_name": return {"stack": 0, "mask": self.ck.retval(self.mod, "z_all"), "prio": self.ck.retval(self.mod, "z_normal")}[k]
        return num(st.read(add(self.arg(0), self.o[k]), 4, False))
    def named_by(self): return False
    def asserted(self, ex, st):
        if self.mask is not None and st.mon['started']: self.rep(ex, st, ("mask", "refused"), "a valid core affinity is refused", "P32")
    def w(self, p): return num(S(('m', p, 8)))
    def compare(self, body, ex, st, n, a):
        r = self.root; A = self.arg
        bad = lambda k, msg: self.rep_in(body, ex, st, ("args", k), msg)
        tag = lambda p, o: num(st.read(add(p, o), 8, False))
        if r in ("x_start_fn", "x_start_name"):
            if n != "Fn::operator()" or not st.equal(tag(a[0], 0), self.w(A(1))): bad("fn", "the new thread calls another function than the one given")
            if not (st.equal(num(a[1]), A(2, False)) and st.equal(num(a[2]), A(3, False))): bad("args", "the function is not called with the arguments given, in order")
            if a[0] == A(1): bad("ref", "the function is not copied: the new thread uses an object of the creator")
        elif r == "x_start_lambda":
            if n != "Fn::operator()" or a[0] != A(1): bad("fn", "the new thread calls another function than the one given")
            if not (st.equal(num(a[1]), A(2, False)) and st.equal(num(a[2]), A(3, False))): bad("args", "the function is not called with the arguments given, in order")
        elif r == "x_start_fun":
            if n != "fun": bad("fn", "the new thread calls another function than the one given")
            elif not (st.equal(num(a[0]), A(1, False) if not isinstance(a[0], tuple) or True else 0) and a[1] == A(2)): bad("args", "the function is not called with the arguments given, in order")
        elif r == "x_start_method":
            if n != "Obj::method" or a[0] != A(1) or not st.equal(num(a[1]), A(2, False)): bad("args", "the function is not called with the arguments given, in order")
        elif r == "x_start_fnmove":
            if n != "Fo::operator()" or not st.equal(tag(a[0], 8), num(S(('m', add(A(1), 8), 8)))) or not st.equal(tag(a[0], 0), num(self.own(A(1)))): bad("fn", "the new thread calls another function than the one given")
            if not st.equal(tag(a[1], 0), num(self.own(A(2)))) or not st.equal(num(a[2]), A(3, False)): bad("args", "the function is not called with the arguments given, in order")
            for p in (A(1), A(2)):
                if st.decide(eq(st.read(p, 8, True), 0)) is not True: bad("moved", "what was to be moved into the thread is left with its creator")
    def rep_in(self, body, ex, st, key, msg): body.rep(ex, st, key, msg, "P31")
    def owned_args(self, st):
        return [self.own(self.arg(1)), self.own(self.arg(2))] if self.root == "x_start_fnmove" else []
    def own(self, p): return S(('owned', p), True)
    def event(self, ex, st, kind, e):
        m = st.mon
        if kind in ("load", "store", "rmw", "cas") and is_num(e["addr"]) and m['started'] == 'y':
            b = split_ptr(e["addr"])[0]
            if b in m['given']: self.rep(ex, st, ("shared",), "the creator uses the storage of the function after having given it to the thread", "P31")
        if kind != "call": return
        n = e["name"]; a = e["args"]; t = e["tag"]
        if m['started'] == 'y' and n not in ("operator delete", "operator delete[]", "free") and any(is_num(x) and split_ptr(x)[0] in m['given'] for x in a if x is not None and not isinstance(x, int)):
            self.rep(ex, st, ("shared",), "the creator uses the storage of the function after having given it to the thread", "P31")
        if n in ("operator new", "operator new[]", "malloc"): m['heap'] += (e["ret"],)
        elif n in ("operator delete", "operator delete[]", "free"):
            b = a[0]
            if b == 0 or st.decide(eq(b, 0)) is True: return
            self.ck.obligation()
            if split_ptr(b)[0] in m['given']: self.rep(ex, st, ("free", "given"), "the creator frees the storage it gave to the thread", "P31")
            elif b in m['heap']: m['heap'] = tuple(x for x in m['heap'] if x != b)
            elif split_ptr(b)[0] is not None and SYM[split_ptr(b)[0]][0][0] == 'hp': self.rep(ex, st, ("free", "twice"), "the creator frees storage twice", "P31")
        elif n == "pthread_attr_init":
            if t == "ok":
                if any(st.equal(x, a[0]) for x in m['attr']): self.rep(ex, st, ("attr", "twice"), "an attribute object is initialised twice", "P32")
                m['attr'] += (a[0],)
        elif n == "pthread_attr_destroy":
            self.ck.obligation()
            if not any(st.equal(x, a[0]) for x in m['attr']): self.rep(ex, st, ("attr", "destroy"), "an attribute object is given back that was not initialised, or twice", "P32")
            m['attr'] = tuple(x for x in m['attr'] if not st.equal(x, a[0]))
        elif n in ATTR_SET:
            self.ck.obligation()
            if not any(st.equal(x, a[0]) for x in m['attr']): self.rep(ex, st, ("attr", "uninit"), "%s on an attribute object that is not initialised" % n, "P32"); return
            if m['n'] != '0': self.rep(ex, st, ("attr", "late"), "an attribute is set after the thread was created", "P32")
            if n == "pthread_attr_setstacksize":
                m['stack'] = 'y'
                if not st.equal(num(a[1]), self.field(st, "stack")): self.rep(ex, st, ("stack", "size"), "the thread is created with another stack size than the one asked for", "P32")
                if st.decide(ge(self.field(st, "stack"), 1)) is not True: self.rep(ex, st, ("stack", "zero"), "a stack size is set although none was asked for", "P32")
            elif n == "pthread_attr_setschedparam":
                v = st.simp(num(st.read(a[1], 4, False))); m['prio'] = v
                if self.sysprio is not None and v != self.sysprio: self.rep(ex, st, ("prio", "value"), "the thread is created with another priority than the one asked for (%s instead of %s)" % (show(v), self.sysprio), "P32")
            elif n == "pthread_attr_setinheritsched" and st.simp(num(a[1])) == 1: m['expl'] = 'y'
            elif n == "pthread_attr_setschedpolicy": m['pol'] = 'y' if st.simp(num(a[1])) in (1, 2) else ''
            elif n == "pthread_attr_setdetachstate" and st.simp(num(a[1])) != 0: self.rep(ex, st, ("detached",), "the thread is created detached", "P32", "P31")
            elif n == "pthread_attr_setaffinity_np": self.affinity(ex, st, t[1]); m['aff'] = 'y'
        elif n in ("getrlimit", "getrlimit64"):
            if st.simp(num(a[0])) == RTPRIO: m['rt'] = t
        elif n == "pthread_create": self.create(ex, st, e)
        elif n == "pthread_setaffinity_np":
            self.ck.obligation()
            if m['tid'] is not None and st.equal(num(a[0]), m['tid']): self.affinity(ex, st, t[1]); m['aff'] = 'y'
            else: self.rep(ex, st, ("aff", "other"), "the core affinity is set on another thread than the one created", "P32")
        elif n == "pthread_setname_np":
            if m['tid'] is not None and st.equal(num(a[0]), m['tid']): m['name'] = 'y'
            else: self.rep(ex, st, ("name", "creator"), "the creator names another thread than the one created", "P32")
        elif n in USERFN: self.rep(ex, st, ("creator",), "the function is called by the creator of the thread", "P31")
        elif n == "verif_see":
            self.ck.obligation()
            if m['started'] != 'y' and m['heap']: self.rep(ex, st, ("failed", "leak"), "the storage of the function is not freed when the thread could not be started", "P31")
            if m['attr']: self.rep(ex, st, ("attr", "kept"), "an attribute object is never given back", "P32")
            if m['n'] != '1': self.rep(ex, st, ("create", m['n']), "constructing a thread does not create exactly one" if m['n'] != '0' else "an attribute that cannot be set prevents the creation of the thread", "P32", "P31")
            if m['started'] == 'y':
                if not m['aff']: self.rep(ex, st, ("aff", "never"), "the core affinity asked for is not set", "P32")
                if m['given'] and [h for h in m['heap'] if split_ptr(h)[0] not in m['given']]: self.rep(ex, st, ("rest", "leak"), "storage allocated for the thread is owned by nobody", "P31")
        elif n == "verif_mark": m['started'] = 'z'
    def affinity(self, ex, st, w):
        want = self.field(st, "mask")
        if not is_mask(st, w, want): self.rep(ex, st, ("aff", "value"), "the thread is given another core affinity than the one asked for", "P32")
    def permitted(self, ex, st):
        """the priority is set explicitly exactly if it is within the limit of the system"""
        m = st.mon; rt = m['rt']
        no = lambda s: self.rep(ex, s, ("prio", "forbidden"), "a priority the system may not let the thread have prevents its creation", "P32")
        if rt is None: self.rep(ex, st, ("prio", "limit"), "the priority is set without having asked whether the system lets it", "P32") if m['expl'] else self.rep(ex, st, ("prio", "never"), "the scheduling priority asked for is not set although the system lets it", "P32")
        elif self.sysprio is None: return                  # decided for each priority
        elif rt[0] == "failed":
            if m['expl']: no(st)
        else:
            for s, ok in cases(ex, st, ge(rt[1], self.sysprio)):
                if not ok: no(s) if m['expl'] else None
                elif m['prio'] is None or not m['expl'] or not m['pol']: self.rep(ex, s, ("prio", "never"), "the scheduling priority asked for is not set although the system lets it", "P32")
    def create(self, ex, st, e):
        m = st.mon; a = e["args"]; t = e["tag"]; self.ck.obligation((self.root, e["ins"].uid)); self.created += 1
        self.note(ex, st, "creates the thread: %s" % t[0])
        m['n'] = {'0': '1', '1': '2', '2': '2'}[m['n']]
        # attributes
        attr = a[1]; use = any(st.equal(x, attr) for x in m['attr'])
        if st.decide(eq(attr, 0)) is not True and not use: self.rep(ex, st, ("attr", "dead"), "the thread is created with an attribute object that is not initialised", "P32")
        if m['attr'] and not use: self.rep(ex, st, ("attr", "unused"), "the attributes are not given to the thread", "P32")
        if use:
            if st.decide(ge(self.field(st, "stack"), 1)) is not False and not m['stack']: self.rep(ex, st, ("stack", "never"), "the stack size asked for is not set", "P32")
            self.permitted(ex, st)
        if t[0] != "ok": return
        m['started'] = 'y'; m['tid'] = t[1]
        # the body
        f, data = a[2], a[3]
        s = only_sym(f) if is_num(f) else None
        if s is None or SYM[s][0][0] != 'fn': raise Incomplete("the function of the new thread is not known")
        db = split_ptr(data)[0]
        heap = set(split_ptr(h)[0] for h in m['heap'])
        m['given'] = tuple(sorted(heap))
        if db is not None and SYM[db][0][0] == 'al': self.rep(ex, st, ("stack",), "the new thread is given something on the stack of its creator", "P31")
        s2 = st.copy(); s2.fr = None; s2.alloc = set(st.alloc)
        stack = {b for b in s2.mem if b is not None and SYM[b][0][0] == 'al'}
        for b in stack: del s2.mem[b]
        self.tid = t[1]
        r = Body(self.ck, self, stack, heap); r.root = self.root; r.check = self.ck
        tab = {"verif_dyn": m_dyn, "verif_shared": m_shared}; tab.update(USER); tab.update(r.models); r.models = tab
        r.init(s2)
        e2 = Explorer(self.mod, models.Models(self.mod, r), r, dict(max_time=200)); e2.ctxs = ex.ctxs
        e2.start(SYM[s][0][1], [data], s2)
        self.bodies += r.fin
        if not r.fin and not e2.violations: raise Incomplete("the body of the new thread was not followed to its end")
        ck = self.ck; ck.paths += e2.stats["paths"]; ck.events += e2.stats["events"]; ck.steps += e2.stats["steps"]; ck.funcs |= e2.stats["functions"]
        for k, (msg, loc, trace, stk) in e2.violations.items(): ck.violation((self.root, "thread") + k, "%s [%s, %s]" % (msg, self.root, self.mod.label), loc, ex.trace_of(st) + trace, stk)
    def finish(self, ex, st, ret): self.ck.obligation()


STARTS = ("x_start_fn", "x_start_fnmove", "x_start_lambda", "x_start_fun", "x_start_method", "x_start_name")


def job_start(ck, nd, pid, root, prio=None, mask=None):
    mod = ck.mod(TU, nd); v = None
    if prio is not None: v = system_prio(ck, mod, prio)
    if root == "x_start_name": v = system_prio(ck, mod, ck.retval(mod, "z_normal"))
    if mask is None: rs = each_mask(ck, mod, root, lambda k: Start(ck, mod, pid, prio, v, k))
    else:
        r = Start(ck, mod, pid, prio, v, mask); r.root = root; rs = [r]
        ck.explore(mod, root, r, setup=r.setup)
    if not all(r.created for r in rs): ck.violation((root, "nothing"), "no thread is ever created [%s, %s]" % (root, mod.label))


def run_P31(ck):
    ck.explanation = "every constructor that starts a thread, for function objects, lambdas, function and member pointers and move only arguments; the function handed to the system is interpreted as the body of the new thread from the state the creator left"
    ck.rule_text = ("on every path of the new thread the function given is called exactly once with the values given, in order, from storage that is not the creator's stack and is freed exactly once after the last use; the creator neither calls the "
                    "function nor touches or frees the storage after a successful creation, and frees it if the creation failed")
    ck.parts([(r, job_start, (nd, "P31", r)) for nd in CONFIGS for r in STARTS], tus=(TU,))


def run_P32(ck):
    ck.explanation = "the constructors that start a thread, for each priority and any stack size, affinity and name, with every system call succeeding and failing"
    ck.rule_text = ("the attribute object is initialised once, carries the stack size if one is asked for, and the priority with explicit scheduling exactly if the system's limit allows it, is given to the creation and given back once; the creation "
                    "is attempted on every path; the new thread gets the affinity asked for and is named before its function is called")
    j = []
    for nd in CONFIGS:
        mod = ck.mod(TU, nd)
        lo, hi = ck.retval(mod, "z_lowest"), ck.retval(mod, "z_highest")
        j += [("prio %d" % p, job_start, (nd, "P32", "x_start_fn", p)) for p in range(lo, hi + 1)]
        j += [("mask %d" % k, job_start, (nd, "P32", "x_start_fn", None, k)) for k in (1, 1 << (HC - 1), (1 << HC) - 1, -1)]
        j += [(r, job_start, (nd, "P32", r, p)) for r, p in (("x_start_fn", None), ("x_start_name", None), ("x_start_lambda", lo), ("x_start_lambda", hi))]
        j += [(r, job_attr, (nd, r)) for r in ("x_attr", "x_attr_all")]
    ck.parts(j, tus=(TU,))


class Attr(Thr):
    """the attributes are what was given, or the documented defaults"""
    def finish(self, ex, st, ret):
        self.ck.obligation(); a = self.arg(0)
        g = lambda k: num(st.read(add(a, self.o[k]), 4, False))
        if num(sget(st, add(a, self.o["name"]))) != num(sget(st, self.arg(1))): self.bad(ex, st, ("attr", "name"), "the attributes do not have the name given")
        if self.root == "x_attr": w = {"stack": 0, "mask": self.ck.retval(self.mod, "z_all"), "prio": self.ck.retval(self.mod, "z_normal")}
        else: w = {"stack": self.arg(2, False), "mask": self.arg(3, False), "prio": self.arg(4, False)}
        for k, v in w.items():
            if not st.equal(g(k), num(v)): self.bad(ex, st, ("attr", k), "the attributes do not have the %s given or documented" % {"stack": "stack size", "mask": "core affinity", "prio": "priority"}[k])


def job_attr(ck, nd, root):
    mod = ck.mod(TU, nd); r = Attr(ck, mod, "P32"); r.root = root
    ck.explore(mod, root, r, setup=r.setup)


# ---- P33: round trips ----------------------------------------------------------------------------------------------------
class Trip(Thr):
    failures = False
    def __init__(self, ck, mod): super().__init__(ck, mod, "P33"); self.vals = set(); self.n = 0; self.rets = []; self.refused = 0; self.on = []
    def init(self, st): st.mon['set'] = (); st.mon['on'] = ()
    def setup(self, st):
        super().setup(st); st.assume(eq(self.handle(st), 0), False)
    def event(self, ex, st, kind, e):
        if kind != "call": return
        n = e["name"]; a = e["args"]
        if n == "pthread_setschedprio": st.mon['set'] += (st.simp(num(a[1])),); st.mon['on'] += (num(a[0]),)
        elif n == "pthread_setschedparam": st.mon['set'] += (st.simp(num(st.read(a[2], 4, False))),); st.mon['on'] += (num(a[0]),)
        elif n == "pthread_setaffinity_np": st.mon['set'] += (tuple(st.simp(num(x)) for x in e["tag"][1]),); st.mon['on'] += (num(a[0]),)
        elif n in ("pthread_getaffinity_np", "pthread_getschedparam"): st.mon['on'] += (num(a[0]),)
    def asserted(self, ex, st): self.refused += 1
    def finish(self, ex, st, ret):
        self.last = st
        self.ck.obligation(); self.n += 1; self.vals.add(st.mon['set']); self.rets.append(st.simp(num(ret)) if ret is not None else None)
        me = self.me if self.root.startswith("x_this") else num(S(('m', add(self.arg(0), self.off), 8)))
        for h in st.mon['on']:
            if not st.equal(h, me): self.bad(ex, st, ("other",), "the attribute is set on, or read from, another thread")


def args_of(ck, mod, root, consts):
    fn = mod.fns[root]; mod.body(fn); tmp = Explorer(mod, None, Rule())
    return [consts.get(i, S(('arg', i, root), tmp.param_is_ptr(fn, i))) for i in range(fn.nparams)]


def trip(ck, mod, root, consts, opts=None, procs=HC):
    r = Trip(ck, mod); r.root = root; r.procs = procs
    ck.explore(mod, root, r, args_of(ck, mod, root, consts), r.setup, opts)
    return r


def system_prio(ck, mod, p):
    """what the system is given when the priority of a thread is set to p"""
    r = trip(ck.scratch(), mod, "x_setprio", {1: p})
    v = {x[-1] if x else None for x in r.vals}
    if len(v) != 1 or not isinstance(next(iter(v)), int): raise Incomplete("the system priority of %s is not a constant: %s" % (p, [show(x) for x in v]))
    return v.pop()


def job_prio(ck, nd):
    mod = ck.mod(TU, nd); lo, hi = ck.retval(mod, "z_lowest"), ck.retval(mod, "z_highest")
    if ck.retval(mod, "z_count") != hi + 1: raise Incomplete("the enumerators of the priorities changed")
    last = None; mn, mx = POLICY[2]
    for p in range(lo, hi + 1):
        r = trip(ck, mod, "x_prio_trip", {1: p})
        v = {x[-1] if x else None for x in r.vals}
        ck.obligation()
        for x in v:
            if not isinstance(x, int): ck.violation(("prio", "unset", p), "setting priority %d gives the system no definite priority [%s]" % (p, mod.label)); continue
            if not mn <= x <= mx: ck.violation(("prio", "range", p), "priority %d is mapped to %d, outside the range [%d,%d] of the system [%s]" % (p, x, mn, mx, mod.label))
            if last is not None and x <= last: ck.violation(("prio", "order", p), "priority %d is mapped to %d, not above that of the priority below it [%s]" % (p, x, mod.label))
        if set(r.rets) != {p}: ck.violation(("prio", "trip", p), "a thread whose priority is set to %d answers %s [%s]" % (p, [show(x) for x in set(r.rets)], mod.label))
        last = max([x for x in v if isinstance(x, int)] or [0])
        # the same value for the calling thread
        t = trip(ck, mod, "x_this_prio", {0: p})
        if {x[-1] if x else None for x in t.vals} != v: ck.violation(("prio", "this", p), "the calling thread is given another system priority than another thread for priority %d [%s]" % (p, mod.label))
    ck.count("priorities", hi - lo + 1)


def job_mask(ck, nd, root, consts, want, ret, procs=HC):
    mod = ck.mod(TU, nd)
    if want is None:                     # any affinity
        try: r = trip(ck, mod, root, consts, FIRST)
        except Incomplete as e:
            if "too many" not in str(e): raise
            for k in MASKS: job_mask(ck, nd, root, {0 if root.startswith("x_this") else 1: k}, k, ret)
            return
    else: r = trip(ck, mod, root, consts, None, procs)
    ck.obligation()
    what = "%s %s%s" % (root, {k: show(v) for k, v in consts.items()}, "" if procs == HC else ", %d processors" % procs)
    if r.refused and want is not None: ck.violation((root, "refused", want) + ((procs,) if procs != HC else ()), "a valid core affinity is refused [%s, %s]" % (what, mod.label))
    a = want if want is not None else S(('arg', 0 if root.startswith("x_this") else 1, root))
    for v in r.vals:
        if not v: ck.violation((root, "unset", want), "the core affinity is not set [%s, %s]" % (what, mod.label)); continue
        w = v[-1]
        if not is_mask(r.last, w, a): ck.violation((root, "value", want), "the system is given another core affinity than the one asked for [%s, %s]" % (what, mod.label))
    if ret:
        for v in r.rets:
            if explore.wrap(v, 32) != a and v != S(('op', 'part', 32, a, 0)): ck.violation((root, "trip", want), "a thread answers another core affinity than the one it was given [%s, %s]" % (what, mod.label))


def run_P33(ck):
    ck.explanation = "setting and querying each priority (constant propagation through the mapping, in floating point, over the range [1,99] of the system) and any core affinity, of another thread and of the calling one"
    ck.rule_text = ("each priority is mapped into the range of the system, strictly above the one below it, and mapped back to itself; the mask given to the system is the one asked for and nothing else, the one answered is the one the system holds; "
                    "a core number is mapped to its bit; the thread acted on is the right one")
    j = []
    for nd in CONFIGS:
        j.append(("priorities", job_prio, (nd,)))
        for root, i in (("x_mask_trip", 1), ("x_setmask", 1), ("x_this_mask", 0)):
            j.append((root, job_mask, (nd, root, {}, None, root.endswith("trip"))))
            for k in (1, 1 << (HC - 1), (1 << HC) - 1, -1): j.append((root, job_mask, (nd, root, {i: k}, k, root.endswith("trip"))))
        for root, i in (("x_setmask", 1), ("x_this_mask", 0)):
            for n in PROCS[1:]:
                for k in {1, 1 << (min(n, 32) - 1), (1 << min(n, 32)) - 1, -1}: j.append((root, job_mask, (nd, root, {i: explore.wrap(k, 32)}, explore.wrap(k, 32), False, n)))
        for root, i in (("x_core_trip", 1), ("x_setcore", 1), ("x_this_core", 0)):
            for c in range(HC): j.append((root, job_mask, (nd, root, {i: c}, 1 << c, root.endswith("trip"))))
            for c in range(HC, 32): j.append((root, job_mask, (nd, root, {i: c}, explore.wrap(1 << c, 32), root.endswith("trip"), 64)))
        j.append(("cores", job_cores, (nd,)))
    ck.parts(j, tus=(TU,))


def job_cores(ck, nd):
    mod = ck.mod(TU, nd)
    for c in range(8):
        ex = ck.probe(mod, "z_core", args_of(ck, mod, "z_core", {0: c}))
        v = {f[1] for f in ex[1]}; ck.obligation()
        if v != {1 << c}: ck.violation(("core", c), "the enumerator of core %d is %s [%s]" % (c, [show(x) for x in v], mod.label))
