"""Events, mutexes and semaphores (P21-P28, and the moves of P29): abstract interpretation over every outcome of every
operating system call, with a ledger of the system objects, counters of what was taken and given, and symbolic deadlines."""
from lib import *
import poly
from models import O, sget, slen, cat, ERRNO

EINTR, EAGAIN, ETIMEDOUT, EEXIST, ENOENT, ENOSPC = 4, 11, 110, 17, 2, 28
O_CREAT, O_EXCL = 0o100, 0o200
ER = lambda: S(ERRNO, True)
CELL = S(('cell', 'sync'), True)
POSTS, MARK = CELL, add(CELL, 8)
BILLION = 1000000000


def sat(x): return {'0': '1', '1': '2', '2': '2'}[x]


def _fail(ex, st, ins, codes, tag="errno", excl=()):
    """failures of a system call: the named error numbers, and any other one"""
    out = [Outcome(-1, (), [(ER(), 4, c)], n) for n, c in codes]
    v = ex.fresh(st, ins, tag)
    ne = [(eq(v, c), False) for c in set(c for _, c in codes) | set(excl)] + [(ge(v, 1), True)]
    return out + [Outcome(-1, ne, [(ER(), 4, v)], "other")]


def m_wait(codes):
    def h(ex, st, ins, fn, args):
        return [Outcome(0, tag="granted")] + _fail(ex, st, ins, codes, excl=(EINTR, EAGAIN, ETIMEDOUT))
    return h


def m_post(ex, st, ins, fn, args): return [Outcome(0, tag="ok")] + _fail(ex, st, ins, ())


def m_getvalue(ex, st, ins, fn, args):
    v = ex.fresh(st, ins, "value")
    return [Outcome(0, [(ge(v, 0), True)], [(args[1], 4, v)], ("value", v))]


def m_sem_init(ex, st, ins, fn, args): return [Outcome(0, tag="ok")] + (_fail(ex, st, ins, ()) if ex.rule.failures else [])


def m_sem_open(ex, st, ins, fn, args):
    h = ex.fresh(st, ins, "sem", True)
    out = [Outcome(h, [(eq(h, 0), False)], (), "ok")]
    if not ex.rule.failures: return out
    fl = st.simp(num(args[1]))
    if isinstance(fl, int):
        codes = []
        if fl & O_CREAT and fl & O_EXCL: codes.append(("EEXIST", EEXIST))
        if not fl & O_CREAT: codes.append(("ENOENT", ENOENT))
        for o in _fail(ex, st, ins, codes, excl=(EEXIST, ENOENT, EINTR)): o.ret = 0; out.append(o)
    else: raise Incomplete("flags of sem_open not known: %s" % show(fl))
    return out


def m_ok(ex, st, ins, fn, args): return [Outcome(0, tag="ok")] + (_fail(ex, st, ins, ()) if ex.rule.failures else [])


def m_log(ex, st, ins, fn, args):
    """output: may change the error number"""
    return [Outcome(ex.fresh(st, ins, "out") if ins.ty.k != "void" else None, (), [(ER(), 4, ex.fresh(st, ins, "logerrno"))])]


def m_clock_gettime(ex, st, ins, fn, args):
    s, n = ex.fresh(st, ins, "sec"), ex.fresh(st, ins, "nsec")
    r = [Outcome(0, [(ge(n, 0), True), (ge(BILLION - 1, n), True), (ge(s, 0), True)], [(args[1], 8, s), (add(args[1], 8), 8, n)], ("clock", args[0], add(mul(s, BILLION), n)))]
    for o in _fail(ex, st, ins, ()): o.tag = ("noclock",); r.append(o)
    return r


def m_now(which):
    def h(ex, st, ins, fn, args):
        v = ex.fresh(st, ins, "now%d" % which)
        return [Outcome(v, (), (), ("clock", which, v))]
    return h


def m_time(ex, st, ins, fn, args): return O(ex.fresh(st, ins, "time"))


# ---- the name ---------------------------------------------------------------------------------------------------------
def chars(st, c):
    """pieces of the content of a string"""
    c = num(c)
    if c == 0: return []
    s = only_sym(c)
    if s is not None and SYM[s][0][0] == 'str' and SYM[s][0][1] == 'cat': return chars(st, SYM[s][0][2]) + chars(st, SYM[s][0][3])
    return [c]


def litof(c):
    s = only_sym(c)
    return SYM[s][0][2] if s is not None and SYM[s][0][0] == 'str' and SYM[s][0][1] == 'lit' else None


def slash_only_first(st, c, name):
    """the content is one slash and then the valid name"""
    ps = chars(st, c)
    if not ps: return None
    l = litof(ps[0])
    rest = ps[1:]
    if l is not None and l.startswith("/") and "/" not in l[1:] and all(p == name or litof(p) is not None and "/" not in litof(p) for p in rest): return True
    if all(p == name for p in ps): return False
    return None


def m_at(ex, st, ins, fn, args):
    c = sget(st, args[0])
    i = st.simp(num(args[1])) if len(args) > 1 else 0
    p = S(('chrp', c, i), True)
    ps = chars(st, c)
    l = litof(ps[0]) if ps else None
    if l is not None and isinstance(i, int) and 0 <= i < len(l): st.write(p, 1, ord(l[i]))
    elif ps and ps[0] == ex.rule.name_of(st) and ex.rule.validname: pass
    return O(p)


def m_find(ex, st, ins, fn, args):
    """std::find over the characters of a string"""
    if len(args) == 3 and ex.rule.validname and ex.rule.is_slash(st, args[2]):
        b, o = split_ptr(args[0])
        if b is not None and SYM[b][0][0] == 'cstr':
            r = slash_only_first(st, SYM[b][0][1], ex.rule.name_of(st))
            if r is not None and isinstance(o, int):
                if r is True and o == 0: return O(args[0])
                return O(args[1])
    st.mon['unk'] = 1
    return [Outcome(args[1], tag="end"), Outcome(ex.fresh(st, ins, "it", True), tag="found")]


def m_strfind(last):
    def h(ex, st, ins, fn, args):
        ps = names.params(fn.dname) or []
        c = sget(st, args[0])
        if ex.rule.validname and ps and ps[0] in ("char", "char const*") and ex.rule.is_slash(st, args[1], ps[0] != "char"):
            r = slash_only_first(st, c, ex.rule.name_of(st))
            pos = st.simp(num(args[2])) if len(args) > 2 else 0
            if r is True and isinstance(pos, int):
                if last: return O(0)
                return O(0 if pos == 0 else -1)
            if r is False: return O(-1)
        st.mon['unk'] = 1
        return O(ex.fresh(st, ins, "pos"))
    return h


def m_assert(ex, st, ins, fn, args):
    ex.stats["asserted"] += 1
    ex.rule.asserted(ex, st)
    return "end"


def m_delete(ex, st, ins, fn, args): return O(None, (), (), "delete")


BASE = {
    "sem_wait": m_wait((("EINTR", EINTR),)), "sem_trywait": m_wait((("EINTR", EINTR), ("EAGAIN", EAGAIN))),
    "sem_timedwait": m_wait((("EINTR", EINTR), ("ETIMEDOUT", ETIMEDOUT))), "sem_clockwait": m_wait((("EINTR", EINTR), ("ETIMEDOUT", ETIMEDOUT))),
    "sem_post": m_post, "sem_getvalue": m_getvalue, "sem_init": m_sem_init, "sem_open": m_sem_open, "sem_close": m_ok, "sem_destroy": m_ok, "sem_unlink": m_ok,
    "fprintf": m_log, "printf": m_log, "fputs": m_log, "puts": m_log, "fwrite": m_log, "perror": m_log, "std::operator<<": m_log,
    "clock_gettime": m_clock_gettime, "std::chrono::_V2::system_clock::now": m_now(0), "std::chrono::_V2::steady_clock::now": m_now(1), "time": m_time,
    "std::find": m_find, "operator delete": m_delete, "operator delete[]": m_delete, "free": m_delete,
    "oqpi::assert_function": m_assert, "oqpi::assert_and_return_false": m_assert, "oqpi::assert_and_return_true": m_assert, "oqpi::debugger_break": m_assert,
}
for _ns in ("std::__cxx11::basic_string::", "std::basic_string::"):
    for _n in ("operator[]", "at", "front"): BASE[_ns + _n] = m_at
    for _n in ("find", "find_first_of"): BASE[_ns + _n] = m_strfind(False)
    for _n in ("rfind", "find_last_of"): BASE[_ns + _n] = m_strfind(True)
TAKE = ("sem_wait", "sem_trywait", "sem_timedwait", "sem_clockwait")
SEMOPS = TAKE + ("sem_post", "sem_getvalue")


class Os(Mon):
    failures = True; validname = False
    sequential = False
    def __init__(self, ck): self.ck = ck; self.models = dict(BASE); self.models.update({"verif_mark": m_user, "verif_see": m_user, "verif_name": m_user})
    def init(self, st):
        st.mon['unk'] = 0
    def name_of(self, st): return None
    def is_slash(self, st, p, deref=True):
        if not deref: return st.simp(num(p)) == 47
        v = st.read(p, 1, False)
        if v == 47: return True
        s = only_sym(p) if is_num(p) else None
        return s is not None and SYM[s][0][0] == 'gl' and self.mod.cstring(SYM[s][0][1]) == "/"
    def asserted(self, ex, st): pass


# ---- operations on an existing object ---------------------------------------------------------------------------------
class Op(Os):
    """kind: wait, try, timed, notify, reset, unlock.  obj: auto, manual, semaphore, mutex.  report: the properties to judge"""
    def __init__(self, ck, kind, obj, off, pid, dur=None):
        super().__init__(ck); self.kind = kind; self.obj = obj; self.off = off; self.pid = pid; self.dur = dur
    def init(self, st):
        super().init(st)
        m = st.mon; m['grants'] = '0'; m['last'] = 'none'; m['val'] = None; m['deadline'] = None; m['reads'] = (); m['blocked'] = ''; m['order'] = ''
    def setup(self, st):
        st.write(POSTS, 8, 0)
        st.assume(eq(st.read(self.handle_at(), 8, True), 0), False)
        if self.kind in ("timed", "notify"): pass
    def handle_at(self): return add(S(('arg', 0, self.root), True), self.off)
    def posts(self, st): return num(st.read(POSTS, 8, False))
    def D(self, st):
        """(relative duration in ns or None, absolute time in ns or None, its clock)"""
        how, unit = self.dur
        a = mul(S(('arg', 1, self.root)), unit)
        return (a, None, None) if how == "for" else (None, a, 0 if how == "sys" else 1)
    def event(self, ex, st, kind, e):
        m = st.mon
        if kind != "call": return
        n = e["name"]
        if n in SEMOPS:
            if n in TAKE or n == "sem_post":
                self.ck.obligation((self.root, e["ins"].uid))
                if not st.equal(e["args"][0], st.read(self.handle_at(), 8, True)):
                    self.rep(ex, st, ("object",), "%s on something else than the object's own handle" % n, ("P21", "P22", "P23", "P24", "P25"))
            self.note(ex, st, "%s -> %s" % (n, e["tag"]))
        if n in TAKE:
            if e["tag"] == "granted": m['grants'] = sat(m['grants'])
            m['last'] = (n, e["tag"]) if e["tag"] != "granted" else 'granted'
            if n != "sem_trywait": m['blocked'] = n if n == "sem_wait" or not m['blocked'] else m['blocked']
            if self.kind in ("try", "reset", "notify", "unlock") and n != "sem_trywait":
                self.rep(ex, st, ("blocks",), "the operation may block (%s)" % n, ("P25", "P22") if self.kind == "reset" else ("P25",))
            if self.kind == "timed" and n == "sem_wait": self.rep(ex, st, ("blocks", "forever"), "a timed wait blocks without a deadline", ("P25", "P26"))
            if n in ("sem_timedwait", "sem_clockwait"): self.deadline(ex, st, e, n)
        elif n == "sem_post":
            st.write(POSTS, 8, add(self.posts(st), 1))
            if m['grants'] == '0' and self.kind in ("wait", "try", "timed"): m['order'] = 'early'
        elif n == "sem_getvalue": m['val'] = e["tag"][1]
        elif isinstance(e["tag"], tuple) and e["tag"] and e["tag"][0] == "clock":
            m['reads'] += ((e["tag"][1], e["tag"][2]),); self.note(ex, st, "clock %s read" % show(e["tag"][1]))
            if len(m['reads']) > 6: m['reads'] = m['reads'][-6:]
        elif e["tag"] == ("noclock",): m['last'] = ('clock', 'failed')
    def rep(self, ex, st, key, msg, pids):
        if self.pid in pids: self.bad(ex, st, key, msg)
    def deadline(self, ex, st, e, n):
        if self.pid != "P26": return
        self.ck.obligation()
        m = st.mon
        clk = 0 if n == "sem_timedwait" else st.simp(num(e["args"][1])); p = e["args"][-1]
        if not isinstance(clk, int): raise Incomplete("clock of the deadline not known")
        s, ns = st.read(p, 8, False), st.read(add(p, 8), 8, False)
        if not (is_num(s) and is_num(ns)): raise Incomplete("deadline not known")
        if not (st.decide(ge(ns, 0)) or poly.proves_ge(st.facts, ns)) or not (st.decide(ge(BILLION - 1, ns)) or poly.proves_ge(st.facts, sub(BILLION - 1, ns))):
            self.bad(ex, st, ("malformed",), "the nanoseconds of the deadline can lie outside [0, 1000000000): the system refuses it")
        t = add(mul(s, BILLION), ns)
        rel, ab, ac = self.D(st)
        mine = [v for c, v in m['reads'] if c == clk]
        good = False
        if ab is not None and ac == clk and self.same(st, t, ab): good = True
        for i, (c, v) in enumerate(m['reads']):
            if c != clk: continue
            if rel is not None and self.same(st, t, add(v, rel)): good = True
            if ab is not None:
                for c2, v2 in m['reads']:
                    if c2 == ac and self.same(st, t, add(v, sub(ab, v2))): good = True
        if not good:
            self.bad(ex, st, ("deadline",), "the deadline given to the system is not the present time plus the requested duration")
        if m['deadline'] is not None and not self.same(st, t, m['deadline']):
            self.bad(ex, st, ("moved",), "an interrupted wait is resumed with another deadline")
        m['deadline'] = t
    def same(self, st, a, b): return st.equal(a, b) or poly.proves_eq(st.facts, sub(a, b))
    def nopos(self, st):
        """the requested time is not in the future"""
        if not self.dur: return False
        rel, ab, ac = self.D(st)
        if rel is not None: return st.decide(ge(0, rel)) is True
        return any(c == ac and (st.decide(ge(v, ab)) or poly.proves_ge(st.facts, sub(v, ab))) for c, v in st.mon['reads'])
    def finish(self, ex, st, ret):
        self.ck.obligation(); m = st.mon; po = self.posts(st)
        if self.kind in ("wait", "try", "timed"):
            for s2, r in cases(ex, st, ret):
                if r: self.success(ex, s2, po)
                else: self.failure(ex, s2, po)
        elif self.kind == "notify":
            if m['grants'] != '0': self.rep(ex, st, ("notify", "takes"), "a notification consumes one", ("P21", "P22", "P24"))
            if self.obj == "manual":
                if not self.atleast1(st, po) and not (m['val'] is not None and st.decide(ge(m['val'], 1))): self.rep(ex, st, ("notify", "lost"), "a notification does not signal the event", ("P22",))
            else:
                n = num(S(('arg', 1, self.root))) if self.obj == "semaphore" and self.root.endswith("_notify") else 1
                if isinstance(n, int): ok = self.same(st, po, n)
                else:
                    lo = st.decide(ge(n, 0))
                    if lo is None:
                        s2 = st.copy()
                        ok = True
                        if st.assume(ge(n, 0), True): ok = self.same(st, po, n)
                        if s2.assume(ge(n, 0), False): ok = ok and self.same(s2, po, 0)
                    else: ok = self.same(st, po, n if lo else 0)
                if not ok: self.rep(ex, st, ("notify", "count"), "the number of units given to the system is not the number notified (%s)" % show(po), ("P21", "P24"))
        elif self.kind == "reset":
            if not self.same(st, po, 0): self.rep(ex, st, ("reset", "posts"), "resetting an event signals it", ("P22",))
            drained = m['last'] in (('sem_trywait', 'EAGAIN'), ('sem_trywait', 'other')) or m['val'] is not None and st.decide(ge(0, m['val'])) is True and m['last'] in ('none', 'granted')
            if not drained: self.rep(ex, st, ("reset", "left"), "a reset ends before the event was found not signalled", ("P22",))
        elif self.kind == "unlock":
            if m['grants'] != '0': self.rep(ex, st, ("unlock", "takes"), "unlocking takes the ownership", ("P23",))
            v = m['val']
            if v is None: self.rep(ex, st, ("unlock", "unknown"), "unlocking without having looked at whether the mutex is locked" if not self.same(st, po, 0) else "unlocking never gives the ownership back", ("P23",))
            else:
                d = st.decide(ge(v, 1))
                if d is True and not self.same(st, po, 0): self.rep(ex, st, ("unlock", "twice"), "unlocking a mutex that is not locked gives an ownership more", ("P23",))
                elif d is False and not self.same(st, po, 1): self.rep(ex, st, ("unlock", "count"), "unlocking a locked mutex does not give back exactly one ownership", ("P23",))
                elif d is None: self.rep(ex, st, ("unlock", "mixed"), "unlocking does the same whether the mutex is locked or not", ("P23",))
    def atleast1(self, st, po): return st.decide(ge(po, 1)) is True
    def success(self, ex, st, po):
        m = st.mon
        if m['grants'] == '0': self.rep(ex, st, ("success", "ungranted"), "success is reported although the system granted nothing", ("P21", "P22", "P23", "P24", "P25"))
        elif m['grants'] != '1': self.rep(ex, st, ("success", "several"), "one success consumes several grants", ("P21", "P23", "P24", "P25"))
        if self.obj == "manual":
            if not self.atleast1(st, po): self.rep(ex, st, ("manual", "unsignalled"), "a released waiter does not signal the event again: the next one is not let through", ("P22",))
        elif not self.same(st, po, 0): self.rep(ex, st, ("success", "posts"), "a wait that succeeds gives back what it took", ("P21", "P23", "P24"))
    def failure(self, ex, st, po):
        m = st.mon; l = m['last']
        if m['grants'] != '0': self.rep(ex, st, ("failure", "takes"), "a wait that fails has consumed a grant", ("P21", "P22", "P23", "P24", "P25"))
        if not self.same(st, po, 0): self.rep(ex, st, ("failure", "posts"), "a wait that fails signals the object", ("P21", "P22", "P23", "P24"))
        ok = False
        if isinstance(l, tuple):
            n, t = l
            if t == "EINTR": self.rep(ex, st, ("failure", "interrupted"), "an interruption by a signal is reported as a failure", ("P25",)); return
            if self.kind == "wait": ok = t == "other" and n == "sem_wait"
            elif self.kind == "try": ok = n == "sem_trywait"
            else: ok = n in ("sem_timedwait", "sem_clockwait") or n == "clock" or n == "sem_trywait" and (t == "other" or self.nopos(st))
        if not ok and not (l == 'granted' and m['grants'] != '0'): self.rep(ex, st, ("failure", "spurious"), "failure is reported although the system did not refuse the wait", ("P25",) + (("P26",) if self.kind == "timed" else ()))


UNITS = {"ns": 1, "us": 1000, "ms": 10**6, "s": 10**9, "h": 3600 * 10**9, "ims": 10**6}
OBJ = {"AE": "auto", "GAE": "auto", "ME": "manual", "GME": "manual", "SE": "semaphore", "GSE": "semaphore", "LMU": "mutex", "GMU": "mutex"}


def op_roots():
    out = []
    for T, o in OBJ.items():
        nm = "tryLock" if o == "mutex" else "wait"
        for u in UNITS: out.append(("y_%s_%sFor_%s" % (T, nm, u), "timed", T, ("for", UNITS[u])))
        for u, h, k in (("sys", "sys", 1), ("sysms", "sys", 10**6), ("ste", "ste", 1)): out.append(("y_%s_%sUntil_%s" % (T, nm, u), "timed", T, (h, k)))
        if o == "mutex":
            out += [("y_%s_%s" % (T, n), k, T, None) for n, k in (("lock", "wait"), ("tryLock", "try"), ("try_lock", "try"), ("unlock", "unlock"))]
            out += [("y_%s_try_lock_for" % T, "timed", T, ("for", 10**6)), ("y_%s_try_lock_until" % T, "timed", T, ("sys", 1))]
        else:
            out += [("y_%s_wait" % T, "wait", T, None), ("y_%s_notify" % T, "notify", T, None)]
            if o == "semaphore": out += [("y_%s_tryWait" % T, "try", T, None), ("y_%s_notifyOne" % T, "notify", T, None)]
            if o == "manual": out.append(("y_%s_reset" % T, "reset", T, None))
    return out


def handle_off(ck, mod, T):
    return sub(ck.field(mod, "h_" + T, ("load",)), 0)


def job_op(ck, nd, pid, root, kind, T, dur):
    mod = ck.mod("sync.cpp", nd)
    r = Op(ck, kind, OBJ[T], handle_off(ck, mod, T), pid, dur)
    r.root = root
    ck.explore(mod, root, r, setup=r.setup)
    if not ck.roots: raise Incomplete("nothing analysed")


def jobs_for(pid, kinds, objs):
    return [(r, job_op, (nd, pid, r, k, T, d)) for nd in CONFIGS for r, k, T, d in op_roots() if k in kinds and OBJ[T] in objs]


def run_P25(ck):
    ck.explanation = "every waiting, trying and timed operation of every event, semaphore and mutex, local and global, over all outcomes of each system call, with the error number tracked as memory"
    ck.rule_text = "success is returned on exactly the paths on which the system granted the wait on the object's own handle; a failure only when the last refusal was not an interruption"
    ck.parts(jobs_for("P25", ("wait", "try", "timed"), set(OBJ.values())), tus=("sync.cpp",))


def run_P26(ck):
    ck.explanation = "every timed operation of every object, for durations in nanoseconds, microseconds, milliseconds (also in 32 bits), seconds and hours and points in time of two clocks, all of them symbolic and of any sign, as is the reading of the clock"
    ck.rule_text = "at every timed wait of the system, 10^9*seconds+nanoseconds of the deadline equals, as linear forms, a reading of its clock during the call plus the requested duration (or the requested point in time minus a reading of its own clock); the nanoseconds are in [0,10^9); resumed waits keep the deadline"
    ck.parts(jobs_for("P26", ("timed",), set(OBJ.values())), tus=("sync.cpp",))


# ---- creation, release, moves: a ledger of the system objects ----------------------------------------------------------------
class Ledger(Os):
    """entries of 'res': (pointer, kind, state, name, created)
    kind 'mem' (state raw: memory, live: initialised semaphore, done: destroyed) or 'named' (live)"""
    def __init__(self, ck, pid, opt=None, count=None, failures=True, validname=False, valid=None):
        super().__init__(ck); self.pid = pid; self.opt = opt; self.count_ = count; self.failures = failures; self.validname = validname is True; self.nameless = validname == "empty"
    def init(self, st):
        super().init(st); m = st.mon
        m['res'] = (); m['links'] = (); m['opens'] = (); m['seen'] = (); m['names'] = (); m['marked'] = ''
        st.write(POSTS, 8, 0)
    def rep(self, ex, st, key, msg, pids):
        if self.pid in pids: self.bad(ex, st, key, msg)
    def nparam(self):
        """indices of the parameters that are names"""
        return self.names
    def name_of(self, st): return sget(st, S(('arg', 0, self.root), True)) if self.names else None
    def asserted(self, ex, st):
        if self.validname and not st.mon['unk']: self.rep(ex, st, ("name", "refused"), "a valid name is refused", ("P27",))
    def setup(self, st):
        for i in self.names:
            c = sget(st, S(('arg', i, self.root), True))
            if self.nameless: st.assume(eq(slen(st, c), 0), True); continue
            st.assume(ge(slen(st, c), 1), True)
            if self.validname: st.assume(ge(200, slen(st, c)), True)
    # ---- the ledger
    def find(self, st, p):
        for i, r in enumerate(st.mon['res']):
            if st.equal(r[0], p): return i
        return None
    def put(self, st, i, r):
        l = list(st.mon['res'])
        if i is None: l.append(r)
        elif r is None: del l[i]
        else: l[i] = r
        st.mon['res'] = tuple(l)
    def event(self, ex, st, kind, e):
        if kind != "call": return
        m = st.mon; n = e["name"]; a = e["args"]; t = e["tag"]
        LP = ("P28", "P29")
        if n in ("operator new", "operator new[]", "malloc"):
            self.put(st, None, (e["ret"], 'mem', 'raw', None, 0)); self.note(ex, st, "allocates %s" % show(e["ret"]))
        elif n in ("operator delete", "operator delete[]", "free"):
            if a[0] == 0 or st.decide(eq(a[0], 0)) is True: return
            self.ck.obligation((self.root, e["ins"].uid))
            i = self.find(st, a[0]); self.note(ex, st, "frees %s" % show(a[0]))
            if i is None: self.rep(ex, st, ("free", "unknown"), "memory that is not owned (any more) is freed", LP); return
            r = m['res'][i]
            if r[1] == 'named': self.rep(ex, st, ("free", "named"), "a named system object is freed as if it were memory", LP)
            elif r[2] == 'live': self.rep(ex, st, ("free", "live"), "the memory of a semaphore is freed before the semaphore is destroyed", LP)
            self.put(st, i, None)
        elif n == "sem_init":
            self.ck.obligation((self.root, e["ins"].uid)); i = self.find(st, a[0]); self.note(ex, st, "sem_init %s count %s -> %s" % (show(a[0]), show(a[2]), t))
            if i is None: self.rep(ex, st, ("init", "where"), "a semaphore is initialised outside of the memory owned", LP); return
            r = m['res'][i]
            if r[2] == 'live': self.rep(ex, st, ("init", "twice"), "a semaphore is initialised twice", LP)
            if t == "ok": self.put(st, i, (r[0], 'mem', 'live', None, 1))
            self.initial(ex, st, a[2])
            if self.nameless: self.rep(ex, st, ("open", "nameless"), "an object to be opened only, whose name is empty, is created", ("P27",))
            elif self.names: self.rep(ex, st, ("init", "named"), "an object with a name is created without it", ("P27",))
        elif n == "sem_open": self.opened(ex, st, e)
        elif n == "sem_destroy":
            self.ck.obligation((self.root, e["ins"].uid)); i = self.find(st, a[0]); self.note(ex, st, "destroys %s" % show(a[0]))
            if i is None: self.rep(ex, st, ("destroy", "unknown"), "a semaphore that is not owned (any more) is destroyed", LP); return
            r = m['res'][i]
            if r[1] == 'named': self.rep(ex, st, ("destroy", "named"), "a named system object is destroyed instead of closed", LP)
            if r[2] == 'done': self.rep(ex, st, ("destroy", "twice"), "a semaphore is destroyed twice", LP)
            if r[2] == 'live': self.put(st, i, (r[0], r[1], 'done', r[3], r[4]))
        elif n == "sem_close":
            self.ck.obligation((self.root, e["ins"].uid)); i = self.find(st, a[0]); self.note(ex, st, "closes %s" % show(a[0]))
            if i is None: self.rep(ex, st, ("close", "unknown"), "a named object that is not owned (any more) is closed", LP); return
            r = m['res'][i]
            if r[1] != 'named': self.rep(ex, st, ("close", "unnamed"), "an object created in memory is closed instead of destroyed", LP)
            m['links'] = tuple(sorted(m['links'] + ((r[3], r[4]),), key=repr))
            self.put(st, i, None)
        elif n == "sem_unlink":
            self.ck.obligation((self.root, e["ins"].uid)); c = self.content(a[0]); self.note(ex, st, "unlinks %s" % show(c))
            ls = [x for x in m['links'] if x[0] == c]
            if ls:
                l = list(m['links']); l.remove(max(ls, key=lambda x: x[1])); m['links'] = tuple(l)
            elif not any(r[1] == 'named' and r[3] == c for r in m['res']):
                self.rep(ex, st, ("unlink", "foreign"), "a name is removed from the system by an object that does not hold it", LP + ("P27",)); return
            # the name is gone for all those who hold it
            m['links'] = tuple((x[0], 0) if x[0] == c else x for x in m['links'])
            m['res'] = tuple(r[:4] + (0,) if r[1] == 'named' and r[3] == c else r for r in m['res'])
        elif n in SEMOPS:
            i = self.find(st, a[0]); self.ck.obligation((self.root, e["ins"].uid))
            if i is None or m['res'][i][2] != 'live': self.rep(ex, st, ("use", n), "%s on an object that is not owned (any more)" % n, LP)
            if n == "sem_post": st.write(POSTS, 8, add(num(st.read(POSTS, 8, False)), 1))
        elif n == "verif_see": self.see(ex, st, a)
        elif n == "verif_name": m['names'] += (num(sget(st, a[0])),)
        elif n == "verif_mark": st.write(POSTS, 8, 0); m['marked'] = '1'
    def content(self, p):
        b, o = split_ptr(p)
        if b is not None and SYM[b][0][0] == 'cstr' and o == 0: return SYM[b][0][1]
        return ('?', p)
    def live(self, st): return [r for r in st.mon['res'] if r[2] == 'live']
    def opened(self, ex, st, e):
        m = st.mon; a = e["args"]; t = e["tag"]; fl = st.simp(num(a[1])); c = self.content(a[0])
        self.ck.obligation((self.root, e["ins"].uid))
        self.note(ex, st, "sem_open %s flags %s -> %s" % (show(c), oct(fl), t))
        if t == "ok": self.put(st, None, (e["ret"], 'named', 'live', c, 1 if fl & O_CREAT else 0))
        m['opens'] += ((fl, t),)
        if fl & O_CREAT:
            if len(a) < 4: self.rep(ex, st, ("open", "count"), "an object is created without an initial count", ("P27", "P21", "P22", "P23", "P24"))
            else: self.initial(ex, st, a[3])
        if not self.names: self.rep(ex, st, ("open", "unnamed"), "an unnamed object is created in the system's name space", ("P27", "P28")); return
        ns = [num(sget(st, S(('arg', i, self.root), True))) for i in self.names]
        ok = False
        ps = chars(st, c) if is_num(c) else None
        if ps is not None:
            for x in ns:
                if len(ps) == 2 and litof(ps[0]) == "/" and ps[1] == x or ps == [x]: ok = True
        if not ok and not self.nameless: self.rep(ex, st, ("open", "name"), "the system object opened does not have the name asked for", ("P27",))
        if c not in m['names0']: m['names0'] += (c,)
        if self.opt is not None:
            if self.opt == "open" and fl & O_CREAT: self.rep(ex, st, ("option", "created"), "an object that should only be opened can be created", ("P27",))
            if self.opt == "create" and fl & (O_CREAT | O_EXCL) != O_CREAT | O_EXCL: self.rep(ex, st, ("option", "existing"), "an object that should only be created can be an existing one", ("P27",))
    def initial(self, ex, st, v):
        if self.count_ is None: return
        want = self.count_(self)
        if not st.equal(num(v), num(want)): self.rep(ex, st, ("initial",), "an object is created with the initial count %s instead of %s" % (show(v), show(want)), ("P21", "P22", "P23", "P24", "P27"))
    def see(self, ex, st, a):
        m = st.mon; what = a[0]
        self.ck.obligation()
        v = a[1]
        d = st.decide(v) if not isinstance(v, int) else bool(v & 1)
        h = a[2]
        z = st.decide(eq(h, 0)) if not isinstance(h, int) else h == 0
        i = self.find(st, h) if z is not True else None
        lv = i is not None and m['res'][i][2] == 'live'
        self.note(ex, st, "object %s: valid %s, handle %s" % (show(what), d, show(h)))
        if d is None: self.rep(ex, st, ("valid", "unknown", what), "validity does not follow from the outcome of the creation", ("P28", "P29", "P27"))
        elif d and not lv: self.rep(ex, st, ("valid", "dead", what), "an object that owns nothing reports to be valid", ("P28", "P29", "P27"))
        elif not d and lv: self.rep(ex, st, ("valid", "denied", what), "an object that owns a system object reports to be invalid", ("P28", "P29", "P27"))
        m['seen'] += ((what, h if d else 0),)
    def finish(self, ex, st, ret):
        self.ck.obligation(); m = st.mon
        for r in m['res']:
            self.rep(ex, st, ("leak", r[1], r[2]), {"raw": "memory allocated for a semaphore is never given back", "done": "memory of a destroyed semaphore is never given back",
                     "live": "a system object is never released (%s)" % r[1]}[r[2]], ("P28", "P29"))
        if any(x[1] for x in m['links']): self.rep(ex, st, ("unlink", "kept"), "the name of an object that was created is left in the system when the object has been released", ("P28",))
        self.ends(ex, st)
    def ends(self, ex, st): pass
_init0 = Ledger.init
def _init(self, st): _init0(self, st); st.mon['names0'] = ()
Ledger.init = _init


class New(Ledger):
    """one object created and destroyed"""
    def see(self, ex, st, a):
        super().see(ex, st, a); m = st.mon
        valid = m['seen'][-1][1] != 0
        if not valid:
            if m['res']: self.rep(ex, st, ("failed", "holds"), "an object whose creation failed holds %s" % ("memory" if m['res'][0][1] == 'mem' else "a system object"), ("P28",))
            if self.names: self.refused(ex, st)
        elif len(self.live(st)) > 1: self.rep(ex, st, ("new", "several"), "one object holds several system objects", ("P28",))
        if self.names and len(m['names0']) > 1: self.rep(ex, st, ("open", "names"), "one object is looked for under different names", ("P27",))
    def refused(self, ex, st):
        m = st.mon; o = m['opens']
        if m['unk'] or not self.validname: return
        if not o: self.rep(ex, st, ("name", "ignored"), "a valid name is not even looked for", ("P27",)); return
        fl, t = o[-1]
        if self.opt == "both" and not (t == "other" or fl & O_CREAT and not fl & O_EXCL): self.rep(ex, st, ("option", "gaveup"), "an object to be opened or created is neither although the system refused neither", ("P27",))
    def ends(self, ex, st):
        if not st.mon['seen']: raise Incomplete("the object was not looked at")


def options(ck, mod): return {"create": ck.retval(mod, "z_create"), "open": ck.retval(mod, "z_open"), "both": ck.retval(mod, "z_both")}


A_ = lambda i: (lambda r: S(('arg', i, r.root)))
K = lambda v: (lambda r: v)
# root: (type, number of name parameters, index of the option or None, initial count)
NEWS = {"LMU": ("LMU", 0, None, K(1)), "AE": ("AE", 0, None, K(0)), "ME": ("ME", 0, None, K(0)), "SE": ("SE", 0, None, K(0)), "SE1": ("SE", 0, None, A_(0)), "SE2": ("SE", 0, None, A_(0)),
        "GAE": ("GAE", 1, None, K(0)), "GAEo": ("GAE", 1, 1, K(0)), "GME": ("GME", 1, None, K(0)), "GMEo": ("GME", 1, 1, K(0)),
        "GSE": ("GSE", 1, None, K(0)), "GSE2": ("GSE", 1, None, A_(1)), "GSEo": ("GSE", 1, 1, K(0)), "GSEoi": ("GSE", 1, 1, A_(2)), "GSEoim": ("GSE", 1, 1, A_(2)),
        "GMU": ("GMU", 1, None, K(0)), "GMUo": ("GMU", 1, 1, K(0)), "GMUol": ("GMU", 1, 1, "locked")}


def args_of(ck, mod, root, consts):
    fn = mod.fns[root]; mod.body(fn)
    tmp = Explorer(mod, None, Rule())
    return [consts.get(i, S(('arg', i, root), tmp.param_is_ptr(fn, i))) for i in range(fn.nparams)]


def job_new(ck, nd, pid, nm, opt, locked, validname):
    mod = ck.mod("sync.cpp", nd); root = "y_new_" + nm
    T, nn, oi, count = NEWS[nm]
    consts = {}
    if oi is not None: consts[oi] = options(ck, mod)[opt]
    if count == "locked": consts[2] = locked; count = K(0 if locked else 1)
    r = New(ck, pid, opt if oi is not None else "both", count, True, validname)
    r.root = root; r.names = list(range(nn))
    ck.explore(mod, root, r, args_of(ck, mod, root, consts), r.setup)


def new_jobs(pid, types, valid=(True, False)):
    out = []
    for nd in CONFIGS:
        for nm, (T, nn, oi, c) in NEWS.items():
            if T not in types: continue
            if pid == "P27" and oi is not None:
                for lk in ((0, 1) if c == "locked" else (None,)): out.append(("new %s nameless" % nm, job_new, (nd, pid, nm, "open", lk, "empty")))
            for o in (("create", "open", "both") if oi is not None else ("both",)):
                for lk in ((0, 1) if c == "locked" else (None,)):
                    for v in (valid if nn else (False,)): out.append(("new " + nm, job_new, (nd, pid, nm, o, lk, v)))
    return out


def run_P21(ck):
    ck.explanation = "all the operations and constructors of local and global auto reset events, over all outcomes of each system call"
    ck.rule_text = "a wait that succeeds has taken exactly one grant of the system semaphore and posted none, one that fails none; a notification posts exactly once; the semaphore starts at zero"
    ck.parts(jobs_for("P21", ("wait", "timed", "notify"), {"auto"}) + new_jobs("P21", ("AE", "GAE"), (True,)), tus=("sync.cpp",))


def run_P22(ck):
    ck.explanation = "all the operations and constructors of local and global manual reset events, over all outcomes of each system call, the loop of reset by fixpoint"
    ck.rule_text = "a waiter let through posts again on every path, a wait that fails posts nothing; a notification posts; a reset ends only after the system refused a non blocking wait, and never calls a blocking one; the semaphore starts at zero"
    ck.parts(jobs_for("P22", ("wait", "timed", "notify", "reset"), {"manual"}) + new_jobs("P22", ("ME", "GME"), (True,)), tus=("sync.cpp",))


def run_P23(ck):
    ck.explanation = "all the operations and constructors of mutexes, over all outcomes of each system call"
    ck.rule_text = "a lock operation that succeeds took exactly one grant, one that fails none; unlocking posts once if the value read is zero and nothing otherwise; the initial count is zero when locked on creation and one otherwise"
    ck.parts(jobs_for("P23", ("wait", "try", "timed", "unlock"), {"mutex"}) + new_jobs("P23", ("LMU", "GMU"), (True,)), tus=("sync.cpp",))


class All(Ledger):
    """notifyAll posts the maximal count of the object"""
    def ends(self, ex, st):
        if st.mon['marked'] != '1': raise Incomplete("mark not reached")
        n = self.most(self); po = num(st.read(POSTS, 8, False))
        for s, d in ([(st, True)] if isinstance(n, int) else ex.fork_cond(st.copy(), ge(n, 0))):
            w = n if d else 0
            if not (s.equal(po, w) or poly.proves_eq(s.facts, sub(po, w))): self.bad(ex, s, ("all",), "notifying all adds %s units instead of the maximal count %s" % (show(po), show(w)))


ALLS = {"SE": (0, None, A_(1), "P24"), "SEd": (0, None, K(0x7fffffff), "P24"), "GSE": (1, 1, A_(3), "P24"), "move_SE": (0, None, A_(1), "P29"), "assign_SE": (0, None, A_(1), "P29"), "assign_GSE": (1, 1, A_(3), "P29")}


def job_all(ck, nd, pid, nm):
    mod = ck.mod("sync.cpp", nd); nn, oi, most, _ = ALLS[nm]
    r = All(ck, pid + "x", None, None, False, True); r.root = "y_all_" + nm; r.names = list(range(nn)); r.most = most
    consts = {}
    if oi is not None:
        o = options(ck, mod)["both"]; consts[1] = o
        if nm == "assign_GSE": consts[4] = o
    ck.explore(mod, r.root, r, args_of(ck, mod, r.root, consts), r.setup)


def run_P24(ck):
    ck.explanation = "all the operations and constructors of local and global semaphores, over all outcomes of each system call, notification loops by loop invariants for any number"
    ck.rule_text = "a wait that succeeds took exactly one grant, one that fails none, neither posts; notify(n) posts max(n,0) times, notifyOne once, notifyAll the maximal count given at construction; the initial count reaches the system unchanged"
    ck.parts(jobs_for("P24", ("wait", "try", "timed", "notify"), {"semaphore"}) + new_jobs("P24", ("SE", "GSE"), (True,)) + [("all " + n, job_all, (nd, "P24", n)) for nd in CONFIGS for n in ALLS if ALLS[n][3] == "P24"], tus=("sync.cpp",))


def run_P27(ck):
    ck.explanation = "every constructor of every named object with each creation option, over all outcomes of each opening, for any name and for valid names; constructors of the local objects"
    ck.rule_text = "only open: no call may create; only create: every call is exclusive; open or create: refusal only after the system refused to create or open for another reason than existence; same name in all calls, the one asked for; valid names reach the system; requested initial count at every creation; valid exactly when an object is held"
    ck.parts(new_jobs("P27", set(OBJ)), tus=("sync.cpp",))


def histories():
    out = []
    for T in OBJ:
        g = T.startswith("G")
        for h in ("move", "assign", "chain", "self", "temp"): out.append((h, T))
        if T in ("AE", "ME", "GAE", "GME"):
            for h in ("close", "reopen", "mclose"): out.append((h, T))
    return out


class History(Ledger):
    def ends(self, ex, st):
        m = st.mon; s = dict((st.simp(num(w)), h) for w, h in m['seen'])
        if self.pid != "P29": return
        def same(a, b): return a == b or not isinstance(a, int) and not isinstance(b, int) and st.equal(a, b)
        def want(i, h, msg):
            self.ck.obligation()
            if not same(s[i], h): self.bad(ex, st, (self.hist, "see", i), msg)
        H = self.hist
        if H == "move":
            want(2, 0, "the source of a move construction still owns something"); want(3, s[1], "a move construction does not give the target what the source had"); want(4, 0, "the source of a move owns something again")
        elif H == "assign":
            want(3, 0, "the source of a move assignment still owns something"); want(4, s[1], "a move assignment does not give the target what the source had")
        elif H == "chain":
            want(4, s[3], "a move assignment to a moved from object does not give it what the source had"); want(5, s[1], "the target of a move lost what it received"); want(6, 0, "the source of a move assignment still owns something")
        elif H == "self": want(2, s[1], "assigning an object to itself changes it")
        if m['names']:
            src = {"move": 0, "assign": 0, "self": 0, "chain": 0}[H]
            if m['names'][-1] != num(sget(st, S(('arg', src, self.root), True))): self.bad(ex, st, (H, "name"), "the name is not moved along with the object")
    def see(self, ex, st, a):
        super().see(ex, st, a)
        m = st.mon; H = self.hist; w = st.simp(num(a[0]))
        left = {("move", 4): 0, ("assign", 4): 1, ("chain", 6): 2, ("self", 2): 1, ("temp", 2): 1, ("close", 2): 0, ("close", 3): 0, ("reopen", 2): 1, ("mclose", 2): 1, ("mclose", 3): 0}.get((H, w))
        if left is not None and len(m['res']) > left: self.rep(ex, st, (H, "kept", w), "what the target owned before is not released when it is overwritten, or what was owned is not released when closed", ("P28", "P29"))
        if (H, w) in (("close", 2), ("close", 3), ("mclose", 3)) and m['seen'][-1][1] != 0: self.rep(ex, st, (H, "valid", w), "a closed object reports to be valid", ("P28",))


def job_hist(ck, nd, pid, h, T, opt):
    mod = ck.mod("sync.cpp", nd); root = "y_%s_%s" % (h, T); g = T.startswith("G")
    r = History(ck, pid, None, None, True, False); r.root = root; r.hist = h
    two = h == "assign"
    r.names = ([0, 2] if two else [0]) if g else []
    consts = {}
    if g and h in ("move", "assign", "self", "temp"):
        consts[1] = options(ck, mod)[opt]
        if two: consts[3] = options(ck, mod)[opt]
    ck.explore(mod, root, r, args_of(ck, mod, root, consts), r.setup)


def hist_jobs(pid, hs):
    out = []
    for nd in CONFIGS:
        for h, T in histories():
            if h not in hs: continue
            for o in (("create", "open") if T.startswith("G") and h in ("move", "assign", "self", "temp") else ("both",)): out.append(("%s %s" % (h, T), job_hist, (nd, pid, h, T, o)))
    return out


def run_P28(ck):
    ck.explanation = "histories of every event, mutex and semaphore: creation, destruction, move construction and assignment, chains of moves, self assignment, assignment of temporaries, closing and reopening, with every system call succeeding and failing"
    ck.rule_text = "ledger of the system objects and memory: each live object is destroyed and freed, or closed, exactly once and in the way matching its creation, nothing is used or released when not owned, names are removed only by a holder and always by a creator, a failed creation leaves nothing owned, valid if and only if something is owned"
    ck.parts(new_jobs("P28", set(OBJ), (False,)) + hist_jobs("P28", ("move", "assign", "chain", "self", "temp", "close", "reopen", "mclose")), tus=("sync.cpp",))
