"""The scheduler and its workers: wake ups (P02), claimed tasks (P03), priorities (P11), stopping (P12), idleness (P17)."""
from lib import *
from tasks import EVENT, TU, build_both

NPRIO = 5
PRIOS = ("high", "above_normal", "normal", "below_normal", "low")


def m_bool2(ex, st, ins, fn, args): return [Outcome(0, tag=0), Outcome(1, tag=1)]


class Places:
    """where the scheduler and the workers keep what the rules speak about"""
    def __init__(self, ck, mod):
        self.ck = ck; self.mod = mod; L = self.L = layout(ck, mod)
        self.prio = [ck.retval(mod, "z_prio%d" % i) for i in range(NPRIO)]
        self.inherit = ck.retval(mod, "z_inherit")
        scr = ck.scratch()
        class P(Mon):
            def __init__(s, f): s.f = f; s.models = dict(EVENT)
            def event(s, ex, st, k, e): s.f(ex, st, k, e)
        a0 = lambda r: S(('arg', 0, r), True)
        # the queues: addresses polled by the idle scan
        qs = set()
        def f(ex, st, k, e):
            if k == "call" and e["name"] == "Q::Q":
                d = sub(e["args"][0], a0("r_sched_ctor"))
                if isinstance(d, int): qs.add(d)
        scr.explore(mod, "r_sched_ctor", P(f))
        if not qs: raise Incomplete("the queues of the scheduler were not found")
        self.qbase = min(qs)
        # flags: cleared by stopping
        def flag(root):
            out = set()
            def g(ex, st, k, e):
                if k in ("store", "rmw") and e["size"] == 1 and e["order"] != "na":
                    d = sub(e["addr"], a0(root))
                    v = e["val"] if k == "store" else e["new"]
                    if isinstance(d, int) and st.decide(eq(num(v), 0)) is True: out.add(d)
            scr.explore(mod, root, P(g)); return out
        self.sflag = flag("r_sched_stop"); self.wflag = flag("r_worker_stop")
        # the vector of workers
        vs = set()
        def h(ex, st, k, e):
            if k == "vcall" and e["slot"] == L.slots["wjoin"]:
                A = loaded_from(e["obj"])
                if A is not None:
                    b, o = split_ptr(A)
                    if b is not None and SYM[b][0][0] == 'm':
                        d = sub(SYM[b][0][1], a0("r_sched_stop"))
                        if isinstance(d, int): vs.add(d)
        scr.explore(mod, "r_sched_stop", P(h))
        self.vec = vs
    def queue(self, st, addr, s):
        """index of the queue at an address"""
        d = sub(addr, add(s, self.qbase))
        z = self.L.qsize
        if isinstance(d, int): return d // z if d % z == 0 else None
        d = st.simp(d)
        if isinstance(d, int): return d // z if d % z == 0 else None
        if d[1] % z or any(k % z for _, k in d[2]): return None
        return mk(d[1] // z, {m: k // z for m, k in d[2]})


_PL = {}
def places(ck, mod):
    p = _PL.get(mod.path)
    if p is None: p = _PL[mod.path] = Places(ck, mod)
    return p


class Cover:
    """which elements of the vector of workers have been handled: [begin, hi) and [lo, end)"""
    def __init__(self, key, vec, excuse=None, size=8): self.key = key; self.vec = vec; self.excuse = excuse; self.size = size
    def init(self, st): st.mon[self.key] = (0, 0); st.mon[self.key + '*'] = ''
    def settle(self, st, a):
        """remember that everything has been handled"""
        if not st.mon[self.key + '*'] and self.complete(st, a): st.mon[self.key + '*'] = 'y'; st.mon[self.key] = (0, 0)
    def ends(self, a): return S(('m', add(a, self.vec), 8), True), S(('m', add(a, self.vec + 8), 8), True)
    def elem(self, st, a, off, end):
        b, e = self.ends(a)
        return st.read(add(e if end else b, off), 8, True)
    def skip(self, st, a):
        """elements that need not be handled"""
        lo, hi = st.mon[self.key]
        if self.excuse is None: return
        for i in range(2):
            if self.excuse(st, self.elem(st, a, hi, False)): hi = add(num(hi), self.size)
            elif self.excuse(st, self.elem(st, a, sub(num(lo), self.size), True)): lo = sub(num(lo), self.size)
            else: break
        st.mon[self.key] = (lo, hi)
    def hit(self, st, a, obj, A=None):
        """an element is handled: False if it is not the next one"""
        if st.mon[self.key + '*']: return None
        if A is None: A = loaded_from(obj)
        if A is None: return False
        b, e = self.ends(a)
        for i in range(3):
            lo, hi = st.mon[self.key]
            if st.equal(sub(A, b), hi): st.mon[self.key] = (lo, add(num(hi), self.size)); return True
            if st.equal(sub(A, e), sub(num(lo), self.size)): st.mon[self.key] = (sub(num(lo), self.size), hi); return True
            o = st.mon[self.key]; self.skip(st, a)
            if st.mon[self.key] == o: break
        # handled again
        return None if self.handled(st, a, A) else False
    def handled(self, st, a, A):
        self.settle(st, a)
        if st.mon[self.key + '*']: return True
        lo, hi = st.mon[self.key]; b, e = self.ends(a)
        return st.decide(ge(sub(num(hi), self.size), sub(A, b))) is True or st.decide(ge(sub(A, e), lo)) is True
    def complete(self, st, a):
        if st.mon[self.key + '*']: return True
        for i in range(2):
            lo, hi = st.mon[self.key]; b, e = self.ends(a)
            n = sub(e, b)
            if st.decide(ge(add(num(hi), sub(0, num(lo))), n)) is True: return True
            self.skip(st, a)
        return False


# ---- the worker thread ---------------------------------------------------------------------------------------------------
class Worker(Mon):
    """one worker from start to end"""
    def __init__(self, ck, mod, cats):
        self.models = dict(EVENT); self.models["Nf::tryWait"] = m_bool2
        self.ck = ck; self.P = places(ck, mod); self.L = self.P.L; self.cats = cats
        self.ended = 0; self.executed = 0

    def dev(self, ex, st, cat, key, msg):
        if cat in self.cats: self.bad(ex, st, (cat, key), msg)

    def init(self, st):
        m = st.mon
        self.s = S(('arg', 0, self.root), True)
        m['w'] = None; m['clean'] = (); m['seen'] = (); m['empt'] = (); m['held'] = (); m['ld'] = (); m['stopping'] = ''; m['recheck'] = ''; m['in'] = ''; m['fl'] = ()

    # a stop flag that has been seen cleared stays so while the worker runs
    def atomic_value(self, ex, st, ins, p, v, pre):
        k = self.flag(st, p)
        if k is not None and any(x == k for x in st.mon['fl']): return 0
        return None

    def flag(self, st, addr):
        d = sub(addr, self.s)
        if isinstance(d, int) and d in self.P.sflag: return 's%d' % d
        w = st.mon['w']
        if w is not None:
            d = sub(addr, w)
            if isinstance(d, int) and d in self.P.wflag: return 'w%d' % d
        return None

    def settle(self, ex, st):
        """conditions on loaded values that have been decided since"""
        m = st.mon; keep = []
        for what, key, v in m['ld']:
            d = st.decide(eq(v, 0))
            if d is None: keep.append((what, key, v)); continue
            if what == 'flag':
                if d:
                    m['stopping'] = 'y'
                    if key not in m['fl']: m['fl'] = tuple(sorted(m['fl'] + (key,)))
                elif key not in m['seen']: m['seen'] = tuple(sorted(m['seen'] + (key,)))
            elif not d:
                # claimed by somebody else, or done already
                o = tuple((t, s) for t, s in m['held'] if t == key and (what == 'done' or s == 'free'))
                if o: m['held'] = tuple(x for x in m['held'] if x not in o)
        m['ld'] = tuple(keep)

    def task_of(self, st, addr, off):
        o = sub(addr, off)
        for t, s in st.mon['held']:
            if st.equal(t, o): return t
        return None

    def resolved(self, ex, st, where):
        self.ck.obligation()
        for t, s in st.mon['held']:
            self.dev(ex, st, "held", s + ":" + where, "a pending task is %s without having been executed, claimed by somebody else or done, %s" % ("dropped" if s == 'free' else "claimed and then dropped", where))
        st.mon['held'] = ()

    def prio(self, k): return self.P.prio[k]

    def event(self, ex, st, kind, e):
        m = st.mon; L = self.L; P = self.P
        if kind in ("loop", "call", "vcall", "cas"): self.settle(ex, st)
        if kind == "loop":
            # keep nothing about finished business
            live = {t for t, s in m['held']}
            m['ld'] = tuple(x for x in m['ld'] if x[0] == 'flag' or x[1] in live)
            return
        if kind == "call":
            n = e["name"]
            if n == "WC::WC" and m['w'] is None: m['w'] = e["args"][1]
            elif n == "verif_thread_begin":
                m['in'] = 'y'
                if m['w'] is None: raise Incomplete("the worker was not recognised")
            elif n == "Nf::tryWait":
                if e["tag"] == 1: self.consumed(st)
            elif n == "Nf::wait":
                self.note(ex, st, "blocks")
                self.resolved(ex, st, "when the worker blocks")
                self.ck.obligation()
                for k in range(NPRIO):
                    if str(k) not in m['clean'] and st.decide(L.can(st, m['w'], self.prio(k))) is not False:
                        self.dev(ex, st, "sleep", "queue", "a worker blocks without having found the queue of priority %s empty since the last notification it consumed" % PRIOS[k]); break
                if not m['seen'] and not m['stopping']: self.dev(ex, st, "sleep", "stop", "a worker blocks without having looked at the stop request since the last notification it consumed")
                if m['stopping']: self.dev(ex, st, "stop", "blocks", "a worker blocks after having seen the stop request")
                self.consumed(st)
                m['empt'] = ()
            elif n == "Q::tryPop":
                k = P.queue(st, e["args"][0], self.s)
                self.resolved(ex, st, "when the worker takes another task")
                self.ck.obligation()
                if not isinstance(k, int) or not 0 <= k < NPRIO: self.dev(ex, st, "prio", "queue", "a worker polls something that is not one of the queues"); return
                self.note(ex, st, "polls %s: %s" % (PRIOS[k], "a task" if e["tag"] != "empty" else "nothing"))
                pos = P.prio.index(k) if k in P.prio else None
                if pos is None: self.dev(ex, st, "prio", "noqueue", "a worker polls a queue of no priority"); return
                if st.decide(L.can(st, m['w'], k)) is not True: self.dev(ex, st, "prio", "allowed", "a worker takes tasks of a priority it is not allowed to run")
                for j in P.prio[:pos]:
                    if str(j) not in m['empt'] and st.decide(L.can(st, m['w'], j)) is not False:
                        self.dev(ex, st, "prio", "order", "a worker takes a task of priority %s without having found nothing of priority %s" % (PRIOS[pos], PRIOS[P.prio.index(j)])); break
                if e["tag"] == "empty":
                    m['clean'] = tuple(sorted(set(m['clean']) | {str(k)})); m['empt'] = tuple(sorted(set(m['empt']) | {str(k)}))
                else:
                    m['held'] += ((e["tag"][1], 'free'),)
            elif n == "Q::push":
                t = st.read(add(e["args"][1], L.hptr), 8, True)
                m['held'] = tuple(x for x in m['held'] if not st.equal(x[0], t) or x[1] != 'free')
            elif n == "WC::onIdle" or n == "WC::onStart":
                if n == "WC::onIdle":
                    if not m['recheck']: self.dev(ex, st, "stop", "unchecked", "a worker looks for another task without having looked whether it has been asked to stop")
                    if any(x[0] == 'w' for x in m['fl']): self.dev(ex, st, "stop", "goes-on", "a worker goes on looking for tasks after having seen that it has been asked to stop")
                m['recheck'] = ''; m['empt'] = ()
            elif n == "verif_thread_end":
                self.resolved(ex, st, "when the worker terminates")
                self.ck.obligation(); self.ended += 1
                if not m['stopping']: self.dev(ex, st, "stop", "leaves", "a worker terminates although it has not been asked to stop")
                m['in'] = ''
        elif kind == "load" and is_num(e["addr"]) and e["size"] == 1:
            k = self.flag(st, e["addr"])
            if k is not None:
                if m['in']:
                    m['ld'] += (('flag', k, e["val"]),)
                    if k[0] == 'w': m['recheck'] = 'y'
                return
            for what, off in (('grab', L.grab), ('done', L.done)):
                t = self.task_of(st, e["addr"], off)
                if t is not None: m['ld'] += ((what, t, e["val"]),)
        elif kind == "cas":
            t = self.task_of(st, e["addr"], L.grab)
            if t is not None:
                if e["ok"]: m['held'] = tuple((x, 'won' if x == t else s) for x, s in m['held'])
                elif not e["weak"]: m['held'] = tuple(x for x in m['held'] if x[0] != t)
        elif kind == "rmw":
            t = self.task_of(st, e["addr"], L.grab)
            if t is not None:
                m['held'] = tuple((x, 'won' if x == t else s) for x, s in m['held'])
                m['ld'] += (('done', t, e["old"]),)
        elif kind == "vcall" and e["slot"] in (L.slots["execute"], L.slots["executeST"]) and m['in']:
            self.ck.obligation(); self.executed += 1
            self.note(ex, st, "executes %s" % show(e["obj"]))
            hit = [x for x in m['held'] if st.equal(x[0], e["obj"])]
            if not hit: self.dev(ex, st, "held", "execute", "a worker executes a task it does not have")
            m['held'] = tuple(x for x in m['held'] if x not in hit)

    def consumed(self, st):
        m = st.mon
        m['clean'] = (); m['seen'] = ()
        m['ld'] = tuple(x for x in m['ld'] if x[0] != 'flag')


def job_worker(ck, nd, cats):
    mod = ck.mod(TU, nd)
    P = places(ck, mod)
    if not P.sflag and not P.wflag: raise Incomplete("no stop flag recognised")
    r = Worker(ck, mod, cats)
    ck.explore(mod, "r_worker_run", r)
    if not r.executed and "held" in cats: ck.violation(("r_worker_run", "held", "never"), "a worker never executes a task [r_worker_run, %s]" % mod.label)
    if not r.ended and "stop" in cats: ck.violation(("r_worker_run", "stop", "never"), "a worker never terminates [r_worker_run, %s]" % mod.label)


# ---- submission ------------------------------------------------------------------------------------------------------------
class Submit(Mon):
    def __init__(self, ck, mod, cats):
        self.models = dict(EVENT); self.ck = ck; self.P = places(ck, mod); self.L = self.P.L; self.cats = cats; self.levels = set()
        for n in ("oqpi::assert_function", "oqpi::assert_and_return_false", "oqpi::assert_and_return_true"): self.models[n] = self.m_refused
        if len(self.P.vec) != 1: raise Incomplete("the workers of the scheduler were not found")
        self.cov = Cover('cov', min(self.P.vec), self.excuse)

    def dev(self, ex, st, cat, key, msg):
        if cat in self.cats: self.bad(ex, st, (cat, key), msg)

    def init(self, st):
        m = st.mon; self.s = S(('arg', 0, self.root), True)
        self.t = S(('m', add(S(('arg', 1, self.root), True), self.L.hptr), 8), True)
        self.cov.init(st); m['pushed'] = '0'; m['q'] = None; m['cur'] = self.t; m['nxt'] = st.read(add(self.t, self.L.parent), 8, True); m['last'] = None; m['ld'] = (); m['notified'] = ''; m['lvl'] = '0'

    def m_refused(self, ex, st, ins, fn, args):
        """a check fails: only for a task that inherits its priority from no group"""
        m = st.mon
        if not (m['last'] is not None and st.decide(eq(num(m['last']), self.P.inherit)) is True and st.decide(eq(m['nxt'], 0)) is True):
            self.dev(ex, st, "prio", "refused", "a check fails for a task whose priority can be told")
        return models.m_assert(ex, st, ins, fn, args)

    def excuse(self, st, w):
        q = st.mon['q']
        return q is not None and st.decide(self.L.can(st, w, q)) is False

    def event(self, ex, st, kind, e):
        m = st.mon; L = self.L; P = self.P
        if kind == "loop":
            self.cov.skip(st, self.s)
            if m['last'] is not None and st.decide(eq(num(m['last']), P.inherit)) is True: m['last'] = P.inherit
            return
        if kind == "call" and e["name"] == "Q::push":
            self.ck.obligation()
            k = P.queue(st, e["args"][0], self.s)
            self.note(ex, st, "queues under %s" % (show(k) if k is not None else "?"))
            if m['pushed'] != '0': self.dev(ex, st, "push", "twice", "a submitted task is queued twice")
            m['pushed'] = '1' if m['pushed'] == '0' else '2'
            if m['notified']: self.dev(ex, st, "push", "late", "workers are notified of a task before it is visible in the pending work")
            if k is None: self.dev(ex, st, "push", "where", "a task is pushed into something that is not one of the queues"); return
            if not st.equal(st.read(add(e["args"][1], L.hptr), 8, True), self.t): self.dev(ex, st, "push", "other", "another task than the one submitted is queued")
            m['q'] = k
            self.prio(ex, st, k)
        elif kind == "load" and is_num(e["addr"]):
            if e["size"] == L.priosize and st.equal(sub(e["addr"], L.prio), m['cur']): m['last'] = e["val"]
            elif e["size"] == L.priosize:
                g = m['nxt']
                if st.equal(sub(e["addr"], L.prio), g):
                    if m['last'] is None or st.decide(eq(num(m['last']), P.inherit)) is not True: self.dev(ex, st, "prio", "skips", "the priority of an enclosing group is used although the task, or a nearer group, has one")
                    m['lvl'] = {'0': '1'}.get(m['lvl'], '2')
                    m['cur'] = g; m['last'] = e["val"]; m['nxt'] = st.read(add(g, L.parent), 8, True)
            for what, off in (("grab", L.grab), ("done", L.done)):
                if e["size"] == 1 and sub(e["addr"], self.t) == off: m['ld'] += ((what, e["val"]),)
        elif kind == "vcall" and e["slot"] == L.slots["wnotify"]:
            self.ck.obligation()
            m['notified'] = 'y'; self.note(ex, st, "notifies %s" % show(e["obj"]))
            if m['pushed'] == '0': self.dev(ex, st, "push", "late", "workers are notified of a task before it is visible in the pending work")
            self.cov.hit(st, self.s, e["obj"])

    def prio(self, ex, st, k):
        m = st.mon; P = self.P
        self.ck.obligation()
        if m['last'] is None: self.dev(ex, st, "prio", "unlooked", "a task is queued without looking at its priority"); return
        v = num(m['last'])
        inh = st.decide(eq(v, P.inherit))
        if inh is not True and st.equal(k, v):
            if inh is None: self.dev(ex, st, "prio", "inherit", "a task is queued without looking whether it inherits its priority")
            return
        if inh is True:
            par = st.decide(eq(m['nxt'], 0))
            if par is not True: self.dev(ex, st, "prio", "nearest", "a task inheriting its priority is queued under another one than that of its nearest enclosing group")
            return
        self.dev(ex, st, "prio", "other", "a task is queued under another priority than its own")

    def finish(self, ex, st, ret):
        m = st.mon
        self.ck.obligation()
        if m['pushed'] == '0':
            if st.decide(eq(self.t, 0)) is True: return
            if any(st.decide(eq(v, 0)) is False for w, v in m['ld']): return
            self.dev(ex, st, "push", "never", "a valid task that is neither claimed nor done is not queued"); return
        self.levels.add(m['lvl'])
        if not self.cov.complete(st, self.s): self.dev(ex, st, "wake", "some", "some worker able to run the task may not be notified")
        # the handle given back
        out = S(('arg', 2, self.root), True)
        if not st.equal(st.read(add(out, self.L.hptr), 8, True), self.t): self.dev(ex, st, "push", "returned", "the handle given back is not that of the submitted task")


def job_submit(ck, nd, cats):
    mod = ck.mod(TU, nd)
    r = Submit(ck, mod, cats)
    ck.explore(mod, "r_sched_add", r)
    if "prio" in cats:
        for l, what in (("0", "of its own priority"), ("1", "inheriting the priority of its group"), ("2", "in a group that itself inherits its priority")):
            if l not in r.levels: ck.violation(("r_sched_add", "prio", "level" + l), "a task %s is never queued [r_sched_add, %s]" % (what, mod.label))


class Delegate(Mon):
    """operations of a worker on its notifier"""
    def __init__(self, ck, mod, op): self.models = dict(EVENT); self.models["Nf::tryWait"] = m_bool2; self.ck = ck; self.op = op; self.at = set()
    def init(self, st): st.mon['n'] = '0'; st.mon['t'] = None
    def event(self, ex, st, kind, e):
        if kind == "call" and e["name"].startswith("Nf::"):
            n = e["name"].split("::")[1]
            if n != self.op: self.bad(ex, st, ("notifier", "other"), "%s of a worker does %s on its notifier" % (self.op, n))
            st.mon['n'] = {'0': '1', '1': '2', '2': '2'}[st.mon['n']]; st.mon['t'] = e.get("tag")
            self.at.add(sub(e["args"][0], S(('arg', 0, self.root), True)))
    def finish(self, ex, st, ret):
        self.ck.obligation()
        if st.mon['n'] != '1' : self.bad(ex, st, ("notifier", "count"), "%s of a worker does not do %s exactly once on its notifier" % (self.op, self.op)); return
        if self.op == "tryWait":
            for s2, r in cases(ex, st, ret):
                if r != bool(st.mon['t']): self.bad(ex, s2, ("notifier", "answer"), "whether a notification was consumed is misreported")


def job_notifier(ck, nd):
    mod = ck.mod(TU, nd); at = set()
    for root, op in (("r_worker_wait", "wait"), ("r_worker_tryWait", "tryWait"), ("r_worker_notify", "notifyOne")):
        d = Delegate(ck, mod, op); ck.explore(mod, root, d); at |= d.at
    if len(at) > 1: ck.violation(("notifier", "several"), "a worker is not notified through the object it waits on [%s]" % mod.label)


class Start(Mon):
    """starting the scheduler starts every worker"""
    def __init__(self, ck, mod):
        self.models = dict(EVENT); self.ck = ck; self.P = places(ck, mod); self.L = self.P.L; self.cov = Cover('cov', min(self.P.vec))
    def init(self, st): self.s = S(('arg', 0, self.root), True); self.cov.init(st); st.mon['run'] = ''; st.mon['ld'] = None
    def event(self, ex, st, kind, e):
        if kind == "store" and sub(e["addr"], self.s) in self.P.sflag: st.mon['run'] = 'y' if st.decide(eq(num(e["val"]), 0)) is False else ''
        elif kind == "load" and sub(e["addr"], self.s) in self.P.sflag: st.mon['ld'] = e["val"]
        elif kind == "vcall" and e["slot"] == self.L.slots["wstart"]:
            self.ck.obligation()
            if self.P.sflag and not st.mon['run']: self.bad(ex, st, ("start", "early"), "a worker is started before the scheduler is running")
            if self.cov.hit(st, self.s, e["obj"]) is None: self.bad(ex, st, ("start", "twice"), "a worker is started twice")
    def finish(self, ex, st, ret):
        self.ck.obligation()
        if st.mon['ld'] is not None and st.decide(eq(st.mon['ld'], 0)) is False and not st.mon['run']: return
        if not self.cov.complete(st, self.s): self.bad(ex, st, ("start", "some"), "some worker is not started")


def job_start(ck, nd):
    mod = ck.mod(TU, nd)
    ck.explore(mod, "r_sched_start", Start(ck, mod))


def run_P02(ck):
    ck.rule_text = ("submission: the task is pushed into a queue before any notification, and every element of the vector of workers is notified unless it cannot run the priority of that queue; "
                    "worker: at every blocking wait, each queue it can run has been polled empty and the stop flag loaded as running after the last consumed notification; wait/tryWait/notify act on one notifier")
    ck.explanation = "abstract interpretation of scheduler::add and of a worker's whole life (start to end of its thread) with loop invariants; coverage of the workers is tracked as an interval of handled elements"
    build_both(ck)
    j = []
    for nd in CONFIGS: j += [("worker", job_worker, (nd, ("sleep",))), ("add", job_submit, (nd, ("push", "wake"))), ("notifier", job_notifier, (nd,)), ("start", job_start, (nd,))]
    ck.parts(j)


def run_P03(ck):
    ck.rule_text = ("typestate of every task a worker pops from a queue: before the worker polls again, blocks or terminates, the task must have been found claimed (failed strong claim) or done, or have been executed; "
                    "a worker executes only a task it has just popped")
    ck.explanation = "abstract interpretation of a worker's whole life with the set of popped and unresolved tasks as typestate"
    build_both(ck)
    ck.parts([("worker", job_worker, (nd, ("held",))) for nd in CONFIGS])


def job_table(ck, nd):
    """which worker priorities can run which task priorities"""
    mod = ck.mod(TU, nd)
    P = places(ck, mod)
    if sorted(P.prio) != list(P.prio) or len(set(P.prio)) != NPRIO: ck.violation(("table", "order"), "the task priorities are not ordered from the highest to the lowest [%s]" % mod.label)
    c = ck.retval(mod, "p_canwork")
    w = only_sym(ck.arg("p_canwork", 0, False)); t = only_sym(ck.arg("p_canwork", 1, False))
    ck.roots.append(mod.label + ":p_canwork")
    sets = dict(high="h", above_normal="a", normal="n", below_normal="b", low="l", any_normal="anb", normal_or_low="anbl", normal_or_high="hanb", any="hanbl")
    for name, allowed in sorted(sets.items()):
        wp = ck.retval(mod, "z_wp_" + name)
        for i, letter in enumerate("hanbl"):
            ck.obligation()
            v = simpc(subst_cond(c, {w: wp, t: P.prio[i]}))
            if not isinstance(v, int): raise Incomplete("the eligibility of a worker is not a function of the two priorities")
            if bool(v & 1) != (letter in allowed):
                ck.violation(("table", name, PRIOS[i]), "a worker of priority wprio_%s is %sallowed to run tasks of priority %s [%s]" % (name, "" if v & 1 else "not ", PRIOS[i], mod.label))


def job_canprio(ck, nd):
    """canWorkOnPriority speaks of the configured priority"""
    mod = ck.mod(TU, nd)
    L = layout(ck, mod)
    class R(Mon):
        def __init__(s): s.models = dict(EVENT); s.n = 0
        def init(s, st): st.mon['w'] = None; st.mon['c'] = ''
        def event(s, ex, st, k, e):
            if k == "call" and e["name"] == "WC::WC": st.mon['w'] = e["args"][1]
            if k == "call" and e["name"] == "verif_thread_begin":
                ck.obligation(); s.n += 1
                w = st.mon['w']
                for o in L.wprio:
                    v = st.read(add(w, o), 4, False)
                    A = loaded_from(v)
                    if A is None or sub(A, S(('arg', 2, s.root), True)) != s.off: s.bad(ex, st, ("config",), "a worker does not work on the priorities it is configured for")
                return
    r = R()
    # where a configuration keeps its priorities
    o = ck.fields(mod, "p_configprio", ("load",))
    if len(o) != 1: raise Incomplete("priorities of a configuration")
    r.off = o[0]
    ck.explore(mod, "r_worker_run", r)


def run_P11(ck):
    ck.rule_text = ("submission: the queue is that of the last priority read along the chain task -> group -> enclosing group, each step taken only if the priority read before is 'inherit'; worker: a queue is polled only if "
                    "the worker can run it (decided true on the path) and every queue of higher priority it can run was polled empty since the search began; eligibility is the documented table")
    ck.explanation = "abstract interpretation of scheduler::add and of a worker's life; the eligibility predicate is evaluated symbolically for the 9 named worker priorities and 5 task priorities"
    build_both(ck)
    j = []
    for nd in CONFIGS: j += [("worker", job_worker, (nd, ("prio",))), ("add", job_submit, (nd, ("prio",))), ("table", job_table, (nd,)), ("config", job_canprio, (nd,))]
    ck.parts(j)


# ---- stopping ---------------------------------------------------------------------------------------------------------------
class Stop(Mon):
    def __init__(self, ck, mod):
        self.models = dict(EVENT); self.ck = ck; self.P = places(ck, mod); self.L = self.P.L
        v = min(self.P.vec)
        self.stop = Cover('stop', v); self.wake = Cover('wake', v); self.join = Cover('join', v)
    def init(self, st):
        self.s = S(('arg', 0, self.root), True)
        for c in (self.stop, self.wake, self.join): c.init(st)
        st.mon['flag'] = ''; st.mon['run'] = None
    def event(self, ex, st, kind, e):
        L = self.L; m = st.mon
        if kind == "loop":
            for c in (self.stop, self.wake, self.join): c.settle(st, self.s)
            return
        if kind in ("store", "rmw") and is_num(e["addr"]) and sub(e["addr"], self.s) in self.P.sflag:
            v = e["val"] if kind == "store" else e["new"]
            m['flag'] = 'y' if st.decide(eq(num(v), 0)) is True else ''
            if kind == "rmw": m['run'] = e["old"]
            self.note(ex, st, "stop flag of the scheduler")
        elif kind == "load" and is_num(e["addr"]) and sub(e["addr"], self.s) in self.P.sflag: m['run'] = e["val"]
        elif kind == "vcall" and e["slot"] in (L.slots["wstop"], L.slots["wnotify"], L.slots["wjoin"]):
            self.ck.obligation()
            A = loaded_from(e["obj"])
            if e["slot"] == L.slots["wstop"]: self.note(ex, st, "asks %s to stop" % show(e["obj"])); self.stop.hit(st, self.s, e["obj"])
            elif e["slot"] == L.slots["wnotify"]:
                self.note(ex, st, "wakes %s" % show(e["obj"]))
                if self.P.sflag and not m['flag']: self.bad(ex, st, ("stop", "flag-late"), "a worker is woken up before the scheduler is flagged as stopped")
                if self.P.wflag and (A is None or not self.stop.handled(st, self.s, A)): self.bad(ex, st, ("stop", "worker-late"), "a worker is woken up before it is flagged as stopped")
                self.wake.hit(st, self.s, e["obj"])
            else:
                self.note(ex, st, "joins %s" % show(e["obj"]))
                if A is None or not self.wake.handled(st, self.s, A): self.bad(ex, st, ("stop", "join-early"), "a worker is joined before it is woken up")
                self.join.hit(st, self.s, e["obj"])
    def finish(self, ex, st, ret):
        self.ck.obligation()
        m = st.mon
        if self.root.endswith("dtor") and m['run'] is not None and st.decide(eq(m['run'], 0)) is True: return
        if m['run'] is not None and st.decide(eq(m['run'], 0)) is True: return
        for c, w in ((self.stop, "asked to stop"), (self.wake, "woken up to stop"), (self.join, "joined")):
            if c is self.stop and not self.P.wflag: continue
            if not c.complete(st, self.s): self.bad(ex, st, ("stop", "some:" + c.key), "some worker is not %s when the scheduler is stopped" % w)
        if self.P.sflag and not m['flag']: self.bad(ex, st, ("stop", "flag"), "the scheduler is not flagged as stopped")


class WorkerStop(Mon):
    """stop, join and destruction of a worker"""
    def __init__(self, ck, mod, op): self.models = dict(EVENT); self.models["Th::joinable"] = m_bool2; self.ck = ck; self.P = places(ck, mod); self.op = op; self.th = set()
    def init(self, st): st.mon['joinable'] = None; st.mon['joins'] = '0'; st.mon['cleared'] = ''
    def event(self, ex, st, kind, e):
        if kind == "call":
            if e["name"] == "Th::joinable": st.mon['joinable'] = e["tag"]; self.th.add(sub(e["args"][0], S(('arg', 0, self.root), True)))
            if e["name"] == "Th::join":
                st.mon['joins'] = {'0': '1', '1': '2', '2': '2'}[st.mon['joins']]; self.th.add(sub(e["args"][0], S(('arg', 0, self.root), True)))
                if st.mon['joinable'] != 1: self.bad(ex, st, ("wjoin", "unchecked"), "a thread that is not joinable is joined")
        elif kind in ("store", "rmw") and e["size"] == 1 and sub(e["addr"], S(('arg', 0, self.root), True)) in self.P.wflag:
            v = e["val"] if kind == "store" else e["new"]
            st.mon['cleared'] = 'y' if st.decide(eq(num(v), 0)) is True else ''
            if e["order"] not in REL: self.bad(ex, st, ("wstop", "order"), "the stop request of a worker is not published")
    def finish(self, ex, st, ret):
        self.ck.obligation()
        if self.op == "stop" and self.P.wflag and not st.mon['cleared']: self.bad(ex, st, ("wstop", "flag"), "stopping a worker does not request it to stop")
        if self.op == "join" and (st.mon['joinable'] is None or st.mon['joinable'] == 1 and st.mon['joins'] != '1'): self.bad(ex, st, ("wjoin", "count"), "joining a worker does not join its thread exactly once")


class WorkerStart(Mon):
    """the thread started is the one that is joined; the worker is flagged as running before"""
    def __init__(self, ck, mod): self.models = dict(EVENT); self.ck = ck; self.P = places(ck, mod); self.th = set()
    def init(self, st): st.mon['w'] = None; st.mon['b'] = None; st.mon['run'] = ''; st.mon['org'] = ()
    def event(self, ex, st, kind, e):
        m = st.mon
        if kind == "call":
            n = e["name"]
            if n == "WC::WC" and m['w'] is None: m['w'] = e["args"][1]
            elif n == "verif_thread_begin":
                self.ck.obligation()
                if m['b'] is not None: self.bad(ex, st, ("wstart", "twice"), "a worker starts several threads")
                if self.P.wflag and not m['run']: self.bad(ex, st, ("wstart", "flag"), "the thread of a worker is started before the worker is flagged as running")
                m['b'] = e["args"][0]; m['org'] = ((e["args"][0],))
            elif n in ("Th::operator=", "Th::Th") and m['b'] is not None and len(e["args"]) == 2 and e["args"][1] in m['org']: m['org'] = (e["args"][0],)
        elif kind == "store" and m['w'] is not None and m['b'] is None and sub(e["addr"], m['w']) in self.P.wflag: m['run'] = 'y' if st.decide(eq(num(e["val"]), 0)) is False else ''
    def finish(self, ex, st, ret):
        self.ck.obligation()
        m = st.mon
        if m['b'] is None: self.bad(ex, st, ("wstart", "none"), "starting a worker does not start its thread"); return
        self.th.add(sub(m['org'][0], m['w']) if m['org'] else None)


def job_stop(ck, nd):
    mod = ck.mod(TU, nd)
    ck.explore(mod, "r_sched_stop", Stop(ck, mod))
    ck.explore(mod, "r_sched_dtor", Stop(ck, mod))


def job_wstop(ck, nd):
    mod = ck.mod(TU, nd)
    a = WorkerStop(ck, mod, "stop"); ck.explore(mod, "r_worker_stop", a)
    b = WorkerStop(ck, mod, "join"); ck.explore(mod, "r_worker_join", b)
    c = WorkerStart(ck, mod); ck.explore(mod, "r_worker_run", c)
    if b.th and c.th and b.th != c.th: ck.violation(("wjoin", "other"), "the thread joined is not the one that runs the worker [%s]" % mod.label)


def run_P12(ck):
    ck.rule_text = ("stop: for every element of the vector of workers, in this order: its stop flag and that of the scheduler are cleared, it is notified, it is joined; the calls cover all elements when stop returns; the "
                    "destructor does the same if the scheduler is running; worker: having loaded a cleared stop flag it never blocks again, having loaded its own cleared flag it does not search again, it loads it before each "
                    "search, and it terminates only after having loaded a cleared flag; the thread it joins is the one it started")
    ck.explanation = "abstract interpretation of scheduler::stop, ~scheduler, worker start/stop/join and of a worker's whole life; coverage of the workers is tracked as an interval of handled elements"
    build_both(ck)
    j = []
    for nd in CONFIGS: j += [("worker", job_worker, (nd, ("stop",))), ("stop", job_stop, (nd,)), ("wstop", job_wstop, (nd,))]
    ck.parts(j)


# ---- idleness -----------------------------------------------------------------------------------------------------------------
class Idle(Mon):
    def __init__(self, ck, mod, wait=False):
        self.models = dict(EVENT); self.models["Q::empty"] = m_bool2; self.ck = ck; self.P = places(ck, mod); self.L = self.P.L; self.wait = wait
        self.cov = Cover('cov', min(self.P.vec))
    def init(self, st):
        self.s = S(('arg', 0, self.root), True)
        self.reset(st); st.mon['now'] = (None, None)
    def reset(self, st):
        self.cov.init(st); st.mon['empty'] = (); st.mon['busy'] = ''; st.mon['ld'] = ()
    def slot(self, st, addr):
        """the worker whose task is read"""
        o = sub(addr, self.L.wtask) if is_num(addr) else None
        A = loaded_from(o) if o is not None else None
        if A is None: return None
        b, _ = split_ptr(A)
        if b is not None and SYM[b][0][0] == 'm' and sub(SYM[b][0][1], self.s) in (min(self.P.vec), min(self.P.vec) + 8): return o
    def shared_load(self, ex, st, p, size): return size == 8 and self.slot(st, p) is not None
    def settle(self, st):
        m = st.mon; keep = []
        for w, v in m['ld']:
            d = st.decide(eq(v, 0))
            if d is None: keep.append((w, v))
            elif d: self.cov.hit(st, self.s, None, w)
            else: m['busy'] = 'y'
        m['ld'] = tuple(keep)
    def event(self, ex, st, kind, e):
        m = st.mon
        self.settle(st)
        if kind == "loop": self.cov.settle(st, self.s)
        elif kind == "call":
            n = e["name"]
            if n == "Q::empty":
                k = self.P.queue(st, e["args"][0], self.s)
                if not isinstance(k, int): self.bad(ex, st, ("idle", "noqueue"), "the idle scan looks at something that is not a queue"); return
                self.note(ex, st, "queue %d is %s" % (k, "empty" if e["tag"] else "not empty"))
                if e["tag"]: m['empty'] = tuple(sorted(set(m['empty']) | {k}))
                else: m['busy'] = 'y'
            elif n == "std::this_thread::sleep_for" or n in ("nanosleep", "clock_nanosleep", "usleep"): self.reset(st)
            elif n.endswith("_clock::now"):
                m['now'] = (m['now'][0] if m['now'][0] is not None else e["ret"], e["ret"])
        elif kind == "load" and e["size"] == 8:
            w = self.slot(st, e["addr"])
            if w is not None: m['ld'] += ((loaded_from(w), e["val"]),)
    def idle(self, st):
        return len(st.mon['empty']) == NPRIO and self.cov.complete(st, self.s)
    def busy(self, st):
        return bool(st.mon['busy'])
    def finish(self, ex, st, ret):
        self.ck.obligation()
        if not self.wait:
            for s2, r in cases(ex, st, ret):
                self.settle(s2)
                if r:
                    if len(s2.mon['empty']) != NPRIO: self.bad(ex, s2, ("idle", "queues"), "the scheduler is reported idle without having found all its queues empty")
                    elif not self.cov.complete(s2, self.s): self.bad(ex, s2, ("idle", "workers"), "the scheduler is reported idle without having found all its workers without a task")
                elif not self.busy(s2): self.bad(ex, s2, ("idle", "busy"), "the scheduler is reported busy although nothing was found to be")
            return
        self.settle(st)
        if self.idle(st): return
        a, b = st.mon['now']
        mx = S(('arg', 2, self.root))
        if a is not None and st.decide(ge(sub(sub(b, a), mul(mx, 1000000)), 0)) is True: return
        self.bad(ex, st, ("idle", "wait"), "the wait for idleness ends although the scheduler is not idle and the maximal time has not elapsed")


def job_idle(ck, nd):
    mod = ck.mod(TU, nd)
    ck.explore(mod, "r_sched_idle", Idle(ck, mod))
def job_waitidle(ck, nd):
    mod = ck.mod(TU, nd)
    ck.explore(mod, "r_sched_waitIdle", Idle(ck, mod, True))


def run_P17(ck):
    ck.rule_text = ("isIdle answers true only on paths on which every queue was found empty and every element of the vector of workers was found without a task, and false only on paths on which one of them was not; waitUntilIdle "
                    "returns only after such a complete scan since it last slept, or when the difference of the times read exceeds the maximum")
    ck.explanation = "abstract interpretation of isIdle and waitUntilIdle with loop invariants; coverage of the workers is tracked as an interval of inspected elements"
    build_both(ck)
    ck.parts([j for nd in CONFIGS for j in (("idle", job_idle, (nd,)), ("waitidle", job_waitidle, (nd,)))])
