"""The workers of a scheduler: what registering a configuration gives, and what their threads are given (P41)."""
from lib import *
from models import sget, cat

TU = "workers.cpp"
NPRIO = 5
FIELDS = ("name", "stack", "mask", "tprio", "wprio", "count")
WHAT = dict(name="name", stack="stack size", mask="core affinity", tprio="thread priority", wprio="task priorities", count="number of workers")
SIZE = dict(stack=4, mask=4, tprio=4, wprio=4, count=4)
WPS = ("high", "above_normal", "normal", "below_normal", "low", "any_normal", "normal_or_low", "normal_or_high", "any")
COUNT = S(('workers', 'count'), True)


class W(Mon):
    many = None
    def __init__(self, ck, mod):
        self.ck = ck; self.mod = mod
        self.models = {"verif_thread": m_user, "verif_conf": m_user, "verif_name": m_user, "WC::WC": m_user}
        self.o = {k: sub(ck.retval(mod, "z_" + k), S(('arg', 0, "z_" + k), True)) for k in FIELDS}
        self.conf = sub(ck.retval(mod, "z_conf"), S(('arg', 0, "z_conf"), True))
        if not all(isinstance(x, int) for x in list(self.o.values()) + [self.conf]): raise Incomplete("the configuration of a worker was not found")
        v = ck.fields(mod, "p_total", ("load",))
        if not v: raise Incomplete("the workers of the scheduler were not found")
        self.vec = min(v); self.idoff = ck.field(mod, "p_id", ("load",))
    def src(self, st, k, at=None):
        """a field of the configuration given"""
        c = at if at is not None else self.arg(self.cfg)
        a = add(c, self.o[k])
        return num(sget(st, a)) if k == "name" else num(st.read(a, SIZE[k], False))
    def arg(self, i, ptr=True): return S(('arg', i, self.root), ptr)
    def val(self, st, k, p): return num(sget(st, p)) if k == "name" else num(st.read(p, SIZE[k], False))
    def differ(self, ex, st, k, v, w, what):
        self.ck.obligation()
        if not st.equal(v, w) and st.decide(eq(sub(v, w), 0)) is not True: self.bad(ex, st, (what, k), "the %s of %s is not the one configured" % (WHAT[k], what))


class Made(W):
    """one worker made from a configuration"""
    cfg = 2
    def __init__(self, ck, mod, many): super().__init__(ck, mod); self.many = many; self.models["oqpi::itfc::*"] = m_user
    def init(self, st): st.mon['n'] = '0'
    def setup(self, st):
        st.assume(ge(self.arg(1, False), 0), True)
        c = self.src(st, "count")
        st.assume(ge(c, 2) if self.many else eq(c, 1), True)
    def wanted(self, st):
        n = self.src(st, "name")
        return cat(n, S(('str', 'num', self.arg(1, False)))) if self.many else n
    def event(self, ex, st, kind, e):
        if kind != "call": return
        n, a = e["name"], e["args"]
        if n not in ("verif_thread", "verif_conf", "verif_name"): return
        st.mon['n'] = '1' if st.mon['n'] == '0' else '2'
        if n == "verif_thread":
            for k, p in zip(FIELDS[1:4], a[2:5]): self.differ(ex, st, k, self.val(st, k, p), self.src(st, k), "the thread of a worker")
            self.named(ex, st, num(sget(st, a[1])), "the thread of a worker")
        elif n == "verif_conf":
            for k, p in zip(FIELDS, a): self.differ(ex, st, k, self.val(st, k, p), self.src(st, k), "the configuration of a worker")
        else: self.named(ex, st, num(sget(st, a[0])), "a worker")
    def named(self, ex, st, v, what):
        self.ck.obligation()
        if v != self.wanted(st): self.bad(ex, st, (what, "name"), "the name of %s is not the one configured%s" % (what, " followed by its number" if self.many else ""))
    def finish(self, ex, st, ret):
        self.ck.obligation()
        if self.root.startswith("w_start"):
            if st.mon['n'] != '1': self.bad(ex, st, ("threads", st.mon['n']), "starting a worker %s" % ("starts no thread" if st.mon['n'] == '0' else "starts several threads"))
        elif self.root == "w_prio": self.differ(ex, st, "wprio", num(ret), self.src(st, "wprio"), "a worker")
        elif self.root == "w_free":
            if any(not r for _, r in cases(ex, st, ret)): self.bad(ex, st, ("new", "busy"), "a worker has a task from the beginning")
        elif st.mon['n'] != '1': raise Incomplete("nothing seen of the worker")


def m_add(ex, st, ins, fn, args):
    """a worker is appended to a vector of owners"""
    r = ex.rule; v = args[0]
    if not st.equal(sub(v, r.arg(0)), r.vec): return models.m_vector(ex, st, ins, fn, args)
    ps = names.params(fn.dname) or []
    w = None
    if len(args) == 2 and ps and "unique_ptr<" in ps[0] and "*" not in ps[0]: w = st.read(args[1], 8, True); st.write(args[1], 8, 0)
    elif len(args) == 2: w = st.read(args[1], 8, True)
    r.added(ex, st, w)
    st.write(add(v, 8), 8, add(st.read(add(v, 8), 8, True), 8))
    return models.O(ex.fresh(st, ins, "ret", True) if ins.ty.k == "ptr" else None)


def m_vec(ex, st, ins, fn, args):
    r = ex.rule; n = names.base(fn.dname).split("::")[-1]
    if args and st.equal(sub(args[0], r.arg(0)), r.vec) and n in models.VEC_OPAQUE and n not in ("reserve", "~vector", "shrink_to_fit"): raise Incomplete("the workers are registered in a way that is not understood (%s)" % n)
    return models.m_vector(ex, st, ins, fn, args)


class Reg(W):
    """a configuration is registered"""
    cfg = 1
    def __init__(self, ck, mod, n=1, wp=None):
        super().__init__(ck, mod); self.n = n; self.wp = wp; self.size = ck.retval(mod, "z_config"); self.seen = 0
        self.models.update({"std::vector::emplace_back": m_add, "std::vector::push_back": m_add, "std::vector::*": m_vec})
    def init(self, st): st.mon['i'] = '0'; st.mon['last'] = None
    def at(self, i): return add(self.arg(1), i * self.size)
    def setup(self, st):
        st.write(COUNT, 8, 0)
        k = S(('workers', 'before')); st.assume(ge(k, 0), True); st.assume(ge(1 << 20, k), True)
        v = add(self.arg(0), self.vec); st.write(add(v, 8), 8, add(st.read(v, 8, True), mul(num(k), 8)))
        for i in range(self.n):
            c = self.src(st, "count", self.at(i))
            st.assume(ge(c, 1), True)
            if self.wp is not None: st.write(add(self.at(i), self.o["wprio"]), 4, self.wp)
    def added(self, ex, st, w):
        self.ck.obligation(); self.seen += 1; n = num(st.read(COUNT, 8, False))
        if w is None: raise Incomplete("the worker added is not known")
        st.write(COUNT, 8, add(n, 1))
        if self.n != 1: return
        c = add(w, self.conf)
        for k in FIELDS: self.differ(ex, st, k, self.val(st, k, add(c, self.o[k])), self.src(st, k), "a registered worker")
        if st.decide(ge(self.src(st, "count"), 2)) is True:
            i = num(st.read(add(w, self.idoff), 4, False))
            if not st.equal(i, n) and st.decide(eq(sub(i, n), 0)) is not True: self.bad(ex, st, ("number",), "the workers of one configuration are not numbered from zero")
    def finish(self, ex, st, ret):
        self.ck.obligation()
        total = 0
        for i in range(self.n): total = add(total, self.src(st, "count", self.at(i)))
        n = num(st.read(COUNT, 8, False))
        if not self.same(st, n, total): self.bad(ex, st, ("workers",), "registering a configuration does not add the number of workers configured")
        if self.root == "w_total" and not self.same(st, num(ret), total): self.bad(ex, st, ("total",), "the number of workers reported is not that of the workers registered")
        if self.root.startswith("w_count"):
            k = self.ck.retval(self.mod, "z_prio" + self.root[-1])
            t = total if self.wp >> k & 1 else 0
            if not self.same(st, num(ret), t): self.bad(ex, st, ("count",), "the number of workers reported for a priority is not that of the workers registered for it")
    def same(self, st, a, b): return st.equal(a, b) or st.decide(eq(sub(a, b), 0)) is True


class Fresh(Mon):
    def __init__(self, ck): self.ck = ck; self.models = {}
    def finish(self, ex, st, ret):
        self.ck.obligation()
        if st.decide(eq(num(ret), 0)) is not True: self.bad(ex, st, ("fresh",), "a new scheduler reports workers")


def job_made(ck, nd, root, many):
    mod = ck.mod(TU, nd); r = Made(ck, mod, many); r.root = root
    ck.explore(mod, root, r, setup=r.setup)


def job_reg(ck, nd, root, n, wp):
    mod = ck.mod(TU, nd)
    for w in ((None,) if wp is None else [ck.retval(mod, "z_wp_" + x) for x in wp]):
        r = Reg(ck, mod, n, w); r.root = root
        ck.explore(mod, root, r, setup=r.setup)
        if not r.seen: ck.violation((root, "none"), "registering a configuration adds no worker [%s, %s]" % (root, mod.label))


def job_fresh(ck, nd):
    mod = ck.mod(TU, nd)
    for r in ["w_fresh"] + ["w_fresh%d" % i for i in range(NPRIO)]: ck.explore(mod, r, Fresh(ck))


def run_P41(ck):
    import sched
    ck.rule_text = ("every worker added to the scheduler carries each field of the configuration given, as many are added as configured, numbered from zero, and the numbers of workers reported grow by as many for exactly the priorities configured; "
                    "starting a worker creates one thread with the stack size, affinity and priority of its configuration and its own name; starting the scheduler starts each worker once")
    ck.explanation = "abstract interpretation of the registration (the vector of workers is modelled as a sequence growing by one element per addition, the loop is summarised by a relational invariant), of a worker's construction and start, for any configuration, and of scheduler::start"
    j = []
    for nd in CONFIGS:
        ck.configs.append(ck.mod(TU, nd).label); ck.mod(sched.TU, nd)
        for many in (False, True):
            for root in ("w_start", "w_startE", "w_conf", "w_prio", "w_name", "w_free"): j.append((root, job_made, (nd, root, many)))
        for root in ("w_register", "w_registerE", "w_total"): j.append((root, job_reg, (nd, root, 1, None)))
        for root in ("w_registers", "w_registersE"): j.append((root, job_reg, (nd, root, 2, None)))
        for i in range(NPRIO): j.append(("w_count%d" % i, job_reg, (nd, "w_count%d" % i, 1, WPS)))
        j.append(("fresh", job_fresh, (nd,)))
        j.append(("start", sched.job_start, (nd,)))
    ck.parts(j)
