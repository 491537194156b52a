"""Path-sensitive abstract interpretation of LLVM IR to a fixpoint.

Abstract state: call stack, SSA environment, store (object, offset) -> value, facts (intervals and disequalities on
linear forms), and the state of the rule being checked (a typestate).  Branches undecided by the facts are followed on
both sides; loops whose exit test is not constant are widened to affine induction variables (v0 + delta*N) or to an
unknown; a state already met at a loop header, a call return or a join is not followed again.
"""
import time, math, struct
from math import gcd, floor, ceil
from values import *
import ir, names

INF = float("inf")


def up(x): return x if isinstance(x, int) or abs(x) == INF else ceil(x - 1e-9)
def down(x): return x if isinstance(x, int) or abs(x) == INF else floor(x + 1e-9)


class Incomplete(Exception):
    """the analysis could not be carried out (limits, unsupported construct): never a pass"""


class Frame:
    __slots__ = ("fn", "blk", "idx", "env", "parent", "ctx", "loops", "call", "depth", "als")

    def copy(self):
        f = Frame(); f.fn = self.fn; f.blk = self.blk; f.idx = self.idx; f.env = dict(self.env); f.parent = self.parent
        f.ctx = self.ctx; f.loops = dict(self.loops); f.call = self.call; f.depth = self.depth; f.als = set(self.als)
        return f


class State:
    __slots__ = ("fr", "mem", "ep", "facts", "mon", "trace", "alloc", "steps", "dead")

    def copy(self):
        s = State(); s.fr = self.fr.copy() if self.fr else None; s.mem = dict(self.mem); s.ep = dict(self.ep); s.facts = dict(self.facts)
        s.mon = dict(self.mon); s.trace = self.trace; s.alloc = set(self.alloc); s.steps = self.steps; s.dead = False
        return s

    # ---- facts ---------------------------------------------------------
    def iv(self, key):
        f = self.facts.get(key)
        return f if f else (-INF, INF, ())

    def _iv1(self, t):
        """interval of a linear form: its own facts intersected with the sum of those of its terms"""
        lo, hi, ne = self.iv(t)
        if len(t) > 1:
            l = h = 0
            for m, k in t:
                f = self.facts.get(((m, 1),))
                a, b = (f[0], f[1]) if f else (-INF, INF)
                if len(m) > 1 and f is None:
                    # product of non negative symbols
                    if all(self.iv((((s,), 1),))[0] >= 0 for s in m): a = 0
                if k > 0: l += k * a; h += k * b
                else: l += k * b; h += k * a
            lo = max(lo, l); hi = min(hi, h)
        return lo, hi, ne

    def interval(self, p, depth=1):
        """bounds of a value"""
        p = num(p)
        if isinstance(p, int): return p, p, ()
        t, s, c = key_of(p)
        g = 0
        for _, k in t: g = gcd(g, k)
        if g > 1:
            u = tuple((m, k // g) for m, k in t)
            lo, hi, ne = self._ivd(u, depth)
            lo, hi, ne = lo * g, hi * g, tuple(x * g for x in ne)
            l2, h2, n2 = self.iv(t)
            lo = max(lo, l2); hi = min(hi, h2); ne = ne + n2
        else:
            lo, hi, ne = self._ivd(t, depth)
        if s < 0: lo, hi = -hi, -lo; ne = tuple(-x for x in ne)
        return lo + c, hi + c, tuple(x + c for x in ne)

    def _ivd(self, t, depth):
        """interval of a linear form, combining it with the facts sharing one of its terms"""
        lo, hi, ne = self._iv1(t)
        if depth == 0 or lo == hi: return lo, hi, ne
        ms = dict(t)
        for k2, f in self.facts.items():
            if k2[0] == 'o' or k2 == t or f[0] == -INF and f[1] == INF: continue
            for m, kf in k2:
                kt = ms.get(m)
                if kt is None: continue
                # t = (kt/kf) * k2 + r/kf
                d = {a: k * kf for a, k in t}
                for a, k in k2: d[a] = d.get(a, 0) - kt * k
                r = mk(0, d)
                if isinstance(r, int): l2 = h2 = 0
                else:
                    if len(r[2]) > len(t) + depth - 1 and depth < 3: continue
                    rt, rs, _ = key_of(r)
                    g = 0
                    for _, k in rt: g = gcd(g, k)
                    if g > 1: rt = tuple((a, k // g) for a, k in rt)
                    l2, h2, _ = self._ivd(rt, depth - 1)
                    l2, h2 = l2 * g, h2 * g
                    if rs < 0: l2, h2 = -h2, -l2
                    if kf < 0: l2, h2 = -h2, -l2
                    q = abs(kf)
                    if q != 1: l2, h2 = (l2 / q if abs(l2) != INF else l2), (h2 / q if abs(h2) != INF else h2)
                a, b = f[0], f[1]
                if kt * kf < 0: a, b = b, a
                if kt % kf == 0: z = kt // kf
                else: z = kt / kf
                a, b = a * z, b * z
                lo = max(lo, up(a + l2)); hi = min(hi, down(b + h2))
        return lo, hi, ne

    def decide(self, c):
        """truth of a condition under the facts: True, False or None"""
        if isinstance(c, int): return bool(c & 1)
        if c[0] == 'P':
            return self.decide(NOT(eq(c, 0)))
        if c[0] == 'U': return None
        op, x = c[1], c[2]
        if op == 'not':
            d = self.decide(x); return None if d is None else not d
        if op == 'and':
            a, b = self.decide(x[0]), self.decide(x[1])
            if a is False or b is False: return False
            return True if a and b else None
        if op == 'or':
            a, b = self.decide(x[0]), self.decide(x[1])
            if a or b: return True
            return False if a is False and b is False else None
        if op == 'eq':
            nz = self._ptr_eq(x)
            if nz is not None: return nz
            lo, hi, ne = self.interval(x)
            if lo == hi == 0: return True
            if lo > 0 or hi < 0 or 0 in ne: return False
            return None
        if op == 'ge':
            lo, hi, ne = self.interval(x)
            if lo >= 0: return True
            if hi < 0: return False
            return None
        raise Incomplete("condition %s" % (c,))

    def _ptr_eq(self, x):
        """equality of pointers to distinct or non null objects"""
        ps = []
        for m, k in x[2]:
            if len(m) == 1 and SYM[m[0]][1]: ps.append((m[0], k))
            else: return None
        if len(ps) == 1 and abs(ps[0][1]) == 1:
            kd = SYM[ps[0][0]][0][0]
            if kd in ('al', 'gl', 'fn', 'hp'): return False
            if kd == 'arg' and x[1] != 0: return False
            if kd in ('m', 'x', 'w') and 0 < x[1] * ps[0][1] < 65536 and False: return False
        if len(ps) == 2 and ps[0][1] * ps[1][1] == -1:
            a, b = SYM[ps[0][0]][0], SYM[ps[1][0]][0]
            own = ('al', 'hp', 'gl', 'fn')
            if a[0] in own and b[0] in own: return False
            if a[0] in ('al', 'hp') and preexisting(ps[1][0]) or b[0] in ('al', 'hp') and preexisting(ps[0][0]): return False
        return None

    def assume(self, c, v=True):
        """add a fact; False if contradictory. Disjunctions must have been split by the caller."""
        d = self.decide(c)
        if d is not None: return d == v
        if c[0] == 'U': return True
        if c[0] == 'P':
            return self.assume(NOT(eq(c, 0)), v)
        op, x = c[1], c[2]
        if op == 'not': return self.assume(x, not v)
        if op == 'and':
            if v: return self.assume(x[0]) and self.assume(x[1])
            a, b = self.decide(x[0]), self.decide(x[1])
            if a: return self.assume(x[1], False)
            if b: return self.assume(x[0], False)
            return True
        if op == 'or':
            if not v: return self.assume(x[0], False) and self.assume(x[1], False)
            a, b = self.decide(x[0]), self.decide(x[1])
            if a is False: return self.assume(x[1])
            if b is False: return self.assume(x[0])
            return True
        t, s, cc = key_of(x)
        if op == 'ge' or len(t) > 1 or not v:
            lo, hi, ne = self.interval(('P', 0, t)); ne = self.iv(t)[2]
        else: lo, hi, ne = self.iv(t)
        if op == 'eq':
            val = -cc * s
            if v: lo = hi = val; ne = ()
            else:
                ne = tuple(sorted(set(ne) | {val}))
                while lo in ne: lo += 1
                while hi in ne: hi -= 1
        else:  # ge: s*t + c >= 0
            if v:
                if s > 0: lo = max(lo, -cc)
                else: hi = min(hi, cc)
            else:
                if s > 0: hi = min(hi, -cc - 1)
                else: lo = max(lo, cc + 1)
            while lo in ne: lo += 1
            while hi in ne: hi -= 1
        if lo > hi: return False
        self.facts[t] = (lo, hi, ne)
        if op == 'eq' and v and len(t) == 2 and lo == 0: self.unify(t)
        return True

    def unify(self, t):
        """two pointers are the same one"""
        ps = [m[0] for m, k in t if len(m) == 1 and SYM[m[0]][1]]
        if len(ps) != 2 or t[0][1] * t[1][1] != -1: return
        a, b = ps
        rank = {'al': 0, 'gl': 0, 'hp': 0, 'arg': 1, 'm': 2}
        if rank.get(SYM[a][0][0], 3) > rank.get(SYM[b][0][0], 3): a, b = b, a
        if SYM[a][0][0] not in rank or rank[SYM[a][0][0]] == 2 or a in DEPS[b]: return
        al = dict(self.facts.get(('o', 'alias'), ()))
        if b in al or al.get(a) == b: return
        al[b] = a
        self.facts[('o', 'alias')] = tuple(sorted(al.items()))
        c = self.mem.pop(b, None)
        if c:
            n = dict(c); n.update(self.mem.get(a, ())); self.mem[a] = n

    def simp(self, p, shifts=True):
        """substitute linear forms known to be constant"""
        p = num(p) if not is_num(p) else p
        if isinstance(p, int): return p
        eqs = [(t, f) for t, f in self.facts.items() if t[0] != 'o' and f[0] == f[1]]
        if len(eqs) > 1: eqs.sort(key=lambda x: len(x[0]))
        for _ in range(8):
            if isinstance(p, int): return p
            ch = False
            for t, f in eqs:
                # eliminate the last monomial with a unit coefficient: m = (val - rest)/k
                for m, k in reversed(t):
                    if abs(k) == 1 and not (len(m) == 1 and SYM[m[0]][0][0] == 'n'): break
                else: continue
                tm = dict(p[2])
                if m in tm:
                    q = tm.pop(m)
                    for a, b in t:
                        if a != m: tm[a] = tm.get(a, 0) - b * k * q
                    p = mk(p[1] + f[0] * k * q, tm); ch = True
                    break
                elif len(m) == 1:
                    # products containing m
                    hit = [a for a in tm if m[0] in a and len(a) > 1]
                    if hit:
                        v = mk(f[0] * k, {a: -b * k for a, b in t if a != m})
                        r = mk(p[1], {a: b for a, b in tm.items() if a not in hit})
                        for a in hit:
                            l = list(a); l.remove(m[0])
                            r = add(r, mul(('P', 0, ((tuple(l), tm[a]),)), v))
                        p = r; ch = True
                        break
            if not ch:
                # exact divisions by powers of two
                for m, k in p[2] if shifts else ():
                    d = SYM[m[0]][0] if len(m) == 1 else None
                    if d is not None and d[0] == 'op' and d[1] in ('lshr', 'ashr') and isinstance(d[4], int) and is_num(d[3]) and not isinstance(d[3], int):
                        x = self.simp(d[3], False); q = 1 << d[4]
                        if x == d[3]: continue
                        if isinstance(x, int): v = x >> d[4] if x >= 0 else None
                        elif x[1] % q or any(c % q for _, c in x[2]) or self.decide(ge(x, 0)) is not True: v = None
                        else: v = mk(x[1] // q, {a: c // q for a, c in x[2]})
                        if v is not None and not m[0] in deps((v,)):
                            p = add(p, mul(sub(v, P_of(m[0])), k)); ch = True
                            break
                if not ch: return p
        return p

    def equal(self, a, b):
        """are two values provably equal under the facts"""
        if a == b: return True
        if not (is_num(a) and is_num(b)): return False
        d = self.simp(sub(a, b))
        if d == 0: return True
        if self.decide(eq(a, b)) is True: return True
        if isinstance(d, int): return False
        # eliminate a monomial the facts give a multiple of
        for m, k in d[2]:
            for t, f in self.facts.items():
                if t[0] == 'o' or f[0] != f[1]: continue
                c = dict(t).get(m, 0)
                if abs(c) > 1 and self.simp(sub(mul(d, c), mul(sub(('P', 0, t), f[0]), k))) == 0: return True
        return False

    # ---- memory --------------------------------------------------------
    def addr(self, v):
        b, o = split_ptr(v)
        al = self.facts.get(('o', 'alias'))
        if al:
            for x, y in al:
                if x == b: b = y
        if isinstance(o, tuple):
            o2 = self.simp(o)
            if isinstance(o2, int): o = o2
        return b, o

    def read(self, v, size, isptr, w=None):
        b, o = self.addr(v)
        c = self.mem.get(b)
        if c is not None:
            e = c.get(o)
            if e is not None:
                if e[0] == size: return e[1]
                if isinstance(e[1], int) and size < e[0]: return e[1] & ((1 << (8 * size)) - 1)
            elif isinstance(o, int):
                for o2, e2 in c.items():
                    if isinstance(o2, int) and o2 < o and o2 + e2[0] >= o + size and isinstance(e2[1], int):
                        return (e2[1] >> (8 * (o - o2))) & ((1 << (8 * size)) - 1)
            if isinstance(o, int) and (e is None or e[0] < size):
                # wide read over known smaller cells
                parts = sorted((o2, e2) for o2, e2 in c.items() if isinstance(o2, int) and o <= o2 and o2 + e2[0] <= o + size)
                if parts and sum(e2[0] for _, e2 in parts) == size:
                    if all(isinstance(e2[1], int) for _, e2 in parts):
                        x = 0
                        for o2, e2 in parts: x |= (e2[1] & ((1 << (8 * e2[0])) - 1)) << (8 * (o2 - o))
                        return x
                    if is_num(parts[0][1][1]) and all(e2[1] == 0 for _, e2 in parts[1:]): return parts[0][1][1]     # extended with zeroes
                    ks = [SYM[x][0] if x is not None else None for x in (only_sym(e2[1]) if is_num(e2[1]) else None for _, e2 in parts)]
                    if all(k is not None and k[:2] == ('op', 'part') and k[3] == ks[0][3] and k[4] == 8 * (o2 - o) for k, (o2, _) in zip(ks, parts)): return ks[0][3]
            if isinstance(o, int):
                # part of a wider cell
                for o2, e2 in c.items():
                    if isinstance(o2, int) and o2 <= o and o2 + e2[0] >= o + size and (o2, e2[0]) != (o, size):
                        s = only_sym(e2[1]) if is_num(e2[1]) else None
                        if s is not None and SYM[s][0][0] == 'm' and o - o2 + size <= SYM[s][0][2]: return S(('m', add(SYM[s][0][1], o - o2), size) + SYM[s][0][3:], isptr)
                        if is_num(e2[1]): return S(('op', 'part', 8 * size, e2[1], 8 * (o - o2)), isptr)
        if b is not None and SYM[b][0][0] == 'gl':
            if "always_ignore" in SYM[b][0][1]: return 0    # an assertion the user chose to ignore
            g = self.gl(SYM[b][0][1])
            if g is not None and isinstance(o, int) and o in g:
                return self.constv(g[o][1])
        ep = self.ep.get((b, o), self.ep.get((b, None), 0))
        addr = add(P_of(b), o) if b is not None else o
        return S(('m', addr, size) if not ep else ('m', addr, size, ep), isptr)

    def write(self, v, size, val):
        b, o = self.addr(v)
        c = dict(self.mem.get(b, ()))
        if isinstance(o, int):
            for o2 in [o2 for o2, e in c.items() if isinstance(o2, int) and o2 < o + size and o2 + e[0] > o and (o2 != o or e[0] > size)]:
                e = c.pop(o2)
                if isinstance(e[1], int) and e[0] <= 8:
                    # what is left of a constant
                    for lo, hi in ((o2, o), (o + size, o2 + e[0])):
                        while lo < hi:
                            k = next(n for n in (4, 2, 1) if n <= hi - lo and lo % n == 0)
                            x = (e[1] >> (8 * (lo - o2))) & ((1 << (8 * k)) - 1)
                            c[lo] = (k, x - (1 << (8 * k)) if x >> (8 * k - 1) and k > 1 else x); lo += k
        c[o] = (size, val)
        self.mem[b] = c

    def havoc(self, v, tag, whole):
        b, o = self.addr(v)
        if whole:
            self.mem.pop(b, None)
            for k in [k for k in self.ep if k[0] == b]: del self.ep[k]
            self.ep[(b, None)] = tag
        else:
            c = self.mem.get(b)
            if c and o in c:
                c = dict(c); del c[o]; self.mem[b] = c
            self.ep[(b, o)] = tag


def preexisting(i):
    """does the pointer come from before the analysed call"""
    d = SYM[i][0]
    if d[0] in ('arg', 'elem'): return True
    if d[0] == 'm' and len(d) == 3: return all(SYM[x][0][0] in ('arg', 'm', 'gl') and (SYM[x][0][0] != 'm' or len(SYM[x][0]) == 3) for x in DEPS[i])
    return False


def freeze(x):
    if isinstance(x, dict): return tuple(sorted(((k, freeze(v)) for k, v in x.items()), key=repr))
    return x


class Outcome:
    """one possible result of an external call"""
    __slots__ = ("ret", "assume", "writes", "tag")
    def __init__(self, ret=None, assume=(), writes=(), tag=None):
        self.ret = ret; self.assume = assume; self.writes = writes; self.tag = tag


class Rule:
    """base class of the typestate rules"""
    name = "rule"
    def init(self, st): pass
    def event(self, ex, st, kind, e): pass
    def finish(self, ex, st, ret): pass
    def finish_throw(self, ex, st): pass
    def may_throw(self, name): return False


class Explorer:
    def __init__(self, mod, models, rule, opts=None):
        self.mod = mod; self.models = models; self.rule = rule
        self.o = dict(max_steps=4000000, max_states=200000, max_time=600, max_depth=90, unroll=70, unroll_cst=16)
        self.o.update(opts or {})
        self.violations = {}     # key -> (message, trace)
        self.stats = dict(steps=0, paths=0, states=0, forks=0, widened=0, merged=0, functions=set(), calls=0, asserted=0, events=0)
        self.seen = set()
        self.finals = []; self.routes = {}
        self.collect = False
        self.ctxs = {}
        self.stopped = False

    # ---- reporting ------------------------------------------------------
    def report(self, st, key, msg, loc=None):
        if key in self.violations: return
        loc = loc or self.loc(st)
        self.violations[key] = (msg, loc, self.trace_of(st), self.stack_of(st))

    def trace_of(self, st):
        out = []; t = st.trace
        while t: out.append(t[1]); t = t[0]
        out.reverse()
        return out

    def stack_of(self, st):
        out = []; f = st.fr
        while f:
            out.append(names.base(f.fn.dname)); f = f.parent
        return out

    def loc(self, st):
        """innermost location inside the analysed library"""
        f = st.fr
        best = None
        while f:
            b = f.fn.blocks[f.blk].insts
            i = b[min(f.idx, len(b) - 1)]
            l = i.loc
            if l:
                if best is None: best = l
                if "/oqpi/" in l[0]: return l
            f = f.parent
        return best

    def note(self, st, txt):
        st.trace = (st.trace, (self.loc(st), txt))

    # ---- running -------------------------------------------------------
    def start(self, fname, args=None, st=None):
        fn = self.mod.fns.get(fname)
        if fn is None or not fn.defined: raise Incomplete("root %s not found" % fname)
        self.mod.body(fn)
        s = st.copy() if st else State()
        if st is None:
            s.mem = {}; s.ep = {}; s.facts = {}; s.mon = {}; s.trace = None; s.alloc = set(); s.steps = 0; s.dead = False
            s.fr = None
            self.rule.init(s)
        f = self.mkframe(fn, None, None, (fname,))
        if args is None:
            args = []
            for i in range(fn.nparams):
                args.append(S(('arg', i, fname), self.param_is_ptr(fn, i)))
        for i, a in enumerate(args): f.env[i] = a
        s.fr = f
        self.run([s])

    def param_is_ptr(self, fn, i):
        t = ir.type_of(ir.param(fn._an, i)); return self.mod.ty(t).k == "ptr"

    def mkframe(self, fn, parent, call, ctx):
        f = Frame(); f.fn = fn; f.blk = 0; f.idx = 0; f.env = {}; f.parent = parent; f.call = call; f.loops = {}
        f.depth = parent.depth + 1 if parent else 0
        c = self.ctxs.get(ctx)
        if c is None: c = self.ctxs[ctx] = len(self.ctxs)
        f.ctx = c; f.als = set()
        return f

    def run(self, states):
        work = states
        t0 = time.time()
        while work:
            st = work.pop()
            n = 0
            self.stats["states"] += 1
            if self.stats["states"] > self.o["max_states"]: raise Incomplete("too many states")
            if time.time() - t0 > self.o["max_time"]: raise Incomplete("time limit")
            while not st.dead:
                r = self.step(st)
                self.stats["steps"] += 1
                if r:
                    self.stats["forks"] += len(r)
                    work.extend(r)
                    break
                if self.stats["steps"] > self.o["max_steps"]: raise Incomplete("too many steps")

    def val(self, st, o):
        if isinstance(o, int): return o
        if o[0] == 'v':
            try: return st.fr.env[o[1]]
            except KeyError: return ('U',)
        if o[0] == 'c': return self.constv(o[1])
        return ('U',)

    def constv(self, c):
        if isinstance(c, int): return c
        k = c[0]
        if k == 'fn': return S(('fn', c[1]), True)
        if k == 'g': return add(S(('gl', c[1]), True), c[2])
        if k == 'f': return ('F', c[1])
        if k == 'agg': return ('A', tuple(self.constv(x) for x in c[1]))
        if k == 'zero': return self.zero(c[1])
        return ('U',)

    def zero(self, t):
        if t.k == "struct": return ('A', tuple(self.zero(f) for _, f in t.fields))
        if t.k == "array": return ('A', tuple(self.zero(t.el) for _ in range(t.n)))
        return 0

    # fresh symbols: one name per (call context, instruction), numbered when an older instance is still referenced
    def fresh(self, st, ins, tag, isptr=False, lo=None):
        k = 0
        base = ('x', (st.fr.ctx, ins.uid if ins is not None else ''), tag)
        if (base + (0,), isptr) in st.alloc:
            live = self.gc(st)
            while True:
                d = base + (k,)
                s = sym(d, isptr)
                if s not in live: break
                k += 1
                if k > 40: raise Incomplete("unbounded instances of %s" % (tag,))
        d = base + (k,)
        s = sym(d, isptr)
        if (d, isptr) in st.alloc: self.forget(st, s)
        st.alloc.add((d, isptr))
        return P_of(s)

    def forget(self, st, s):
        al = st.facts.get(('o', 'alias'))
        if al and any(s in DEPS[x] or s in DEPS[y] for x, y in al):
            st.facts[('o', 'alias')] = tuple((x, y) for x, y in al if s not in DEPS[x] and s not in DEPS[y])
        for t in [t for t in st.facts if t[0] != 'o' and any(s in DEPS[x] for m, _ in t for x in m)]: del st.facts[t]
        for b in [b for b in st.mem if b is not None and s in DEPS[b]]: del st.mem[b]
        for k in [k for k in st.ep if k[0] is not None and s in DEPS[k[0]]]: del st.ep[k]

    def gc(self, st):
        """live symbols; drops unreachable memory"""
        live = set(); todo = []
        def markv(v):
            d = set(); _deps_of(v, d)
            for x in d:
                if x not in live: live.add(x)
        f = st.fr
        while f:
            for v in f.env.values(): markv(v)
            for r in f.loops.values():
                markv(r.get("tmpl_syms", ()))
            f = f.parent
        for v in st.mon.values(): markv(v)
        for v in st.ep.values(): markv(v)
        ch = True; done = set()
        while ch:
            ch = False
            for b, c in st.mem.items():
                if b in done: continue
                if b is None or self.base_live(b, live):
                    done.add(b); ch = True
                    for o, e in c.items(): markv(e[1]); markv(o)
        for b in [b for b in st.mem if b not in done]: del st.mem[b]
        return live

    def base_live(self, b, live):
        if b in live: return True
        d = SYM[b][0]
        if d[0] in ('gl', 'arg', 'al', 'fn'): return True
        if d[0] not in ('x', 'n', 'w', 'hp'):
            return all(self.base_live(x, live) for x in DEPS[b] if x != b)
        return False

    def drop_dead_facts(self, st, live):
        for t in [t for t in st.facts if t[0] != 'o']:
            if any(not self.base_live(s, live) for m, _ in t for s in m): del st.facts[t]

    # ---- one step --------------------------------------------------------
    def goto(self, st, b):
        """enter block b of the top frame; returns True if the state was subsumed"""
        f = st.fr; fn = f.fn; old = f.blk; blk = fn.blocks[b]
        if blk.phis:
            new = {}
            for ph in blk.phis:
                j = ph.x.index(old); new[ph.id] = self.val(st, ph.a[j])
            f.env.update(new)
        live = blk.livein
        f.env = {k: v for k, v in f.env.items() if k in live}
        f.blk = b; f.idx = blk.nonphi
        for h in [h for h in f.loops if h not in blk.loops]:
            del f.loops[h]
        if b in fn.headers:
            return self.header(st, b, old in fn.headers[b])
        if len(blk.preds) > 1:
            return self.visited(st)
        return False

    def key(self, st):
        fs = []; f = st.fr
        while f:
            fs.append((f.fn.name, f.blk, f.idx, f.ctx, tuple(sorted(f.env.items(), key=lambda x: x[0]))))
            f = f.parent
        mem = frozenset((b, frozenset(c.items())) for b, c in st.mem.items() if c)
        return (tuple(fs), mem, frozenset(st.facts.items()), frozenset(st.mon.items()), frozenset(st.ep.items()))

    def visited(self, st):
        if st.facts: self.drop_dead_facts(st, self.gc(st))
        k = hash(self.key(st))
        if k in self.seen:
            self.stats["merged"] += 1; st.dead = True; return True
        self.seen.add(k)
        return False

    def header(self, st, h, back):
        f = st.fr; blk = f.fn.blocks[h]
        if not back:
            self.ev(st, "loop", dict(header=h, fn=f.fn, first=True))
            f.loops[h] = dict(n=0, sym=False, cst=False, snap=self.snap(st, blk), tmpl=None, tkey=None)
            return st.dead or self.visited(st)
        rec = dict(f.loops[h]); f.loops[h] = rec
        rec["n"] += 1
        self.ev(st, "loop", dict(header=h, fn=f.fn, first=False))
        if st.dead: return True
        if rec["tmpl"] is None and rec["n"] < (self.o["unroll"] if not rec["sym"] else self.o["unroll_cst"] if rec["cst"] else 0):
            rec["snap"] = self.snap(st, blk); rec["cst"] = False; rec["sym"] = False
            return self.visited(st)
        if rec["tmpl"] is None and rec["n"] <= 2 and self.unlike(rec["snap"], self.snap(st, blk)):
            # the first iteration is of another kind than the next ones: generalise from those
            rec["snap"] = self.snap(st, blk); rec["cst"] = False; rec["sym"] = False
            return self.visited(st)
        # widening
        live = self.gc(st)
        cur = self.snap(st, blk)
        ctr = rec.get("ctr")
        if ctr is None:
            k = 0
            while sym(('n', f.ctx, h, k)) in live: k += 1
            ctr = sym(('n', f.ctx, h, k)); rec["ctr"] = ctr
            self.forget(st, ctr)
        W = P_of(ctr)
        self.stats["widened"] += 1
        first = rec["tmpl"] is None
        new = self.wid1(st, rec["snap"], cur, W, (f.ctx, h)) if first else self.wid2(st, rec["tmpl"], cur, ctr, (f.ctx, h))
        rec["tmpl"] = new
        rec["tmpl_syms"] = tuple(v for v in new.values())
        rec["w"] = rec.get("w", 0) + 1
        self.put(st, blk, new)
        # facts about the widened values do not hold for all iterations; those about the counter now speak of the next one
        ws = {x for x in deps(tuple(new.values())) if SYM[x][0][0] == 'w' and SYM[x][0][1] == (f.ctx, h)}
        wc = ws | {ctr}
        keep = []; top = INF
        f1 = st.facts.get((((ctr,), 1),))
        if f1 and not first and rec["w"] <= 6 and f1[0] < f1[1]: top = f1[1] + 1
        for t in [t for t in st.facts if t[0] != 'o' and any(DEPS[s] & wc for m, _ in t for s in m)]:
            fct = st.facts.pop(t)
            if first or any(DEPS[s] & ws for m, _ in t for s in m) or not any(ctr in m for m, _ in t) or any(ctr in DEPS[s] and s != ctr for m, _ in t for s in m): continue
            if rec["w"] > 6 or len(t) == 1: continue
            keep.append((t, fct))
        for t, (lo, hi, ne) in keep:
            p = subst(('P', 0, t), {ctr: sub(W, 1)})
            if isinstance(p, int): continue
            k, sg, c = key_of(p)
            if sg < 0: lo, hi = -hi, -lo
            st.facts[k] = (lo - c * sg, hi - c * sg, ())
        for b in [b for b in st.mem if b is not None and SYM[b][0][0] in ('m', 'elem') and DEPS[b] & wc]:
            del st.mem[b]
        live = self.gc(st); self.drop_dead_facts(st, live)
        if ctr in deps(tuple(new.values())): st.facts[(((ctr,), 1),)] = (1, 1, ()) if first else (2, max(top, 2), ())
        ts = rec.get("tests", ()); rec["tests"] = ()
        if ctr in deps(tuple(new.values())) and not first:
            for c, d in ts: st.assume(subst(c, {ctr: sub(W, 1)}), d)
        rec["snap"] = None; rec["n"] = 1
        rec["tkey"] = hash(tuple(sorted(new.items(), key=repr)))
        return self.visited(st)

    def snap(self, st, blk):
        d = {}
        for ph in blk.phis: d[('phi', ph.id)] = st.fr.env.get(ph.id, ('U',))
        for b, c in st.mem.items():
            for o, e in c.items(): d[('mem', b, o, e[0])] = e[1]
        for k, v in st.mon.items(): d[('mon', k)] = v
        return d

    def unlike(self, a, b):
        def shape(v): return 'n' if is_num(v) else v[0] if isinstance(v, tuple) and v and v[0] in ('B', 'U', 'F', 'A') else len(v) if isinstance(v, tuple) else type(v).__name__
        return any(k in a and a[k] != v and shape(a[k]) != shape(v) for k, v in b.items() if k[0] in ('phi', 'mon'))

    def put(self, st, blk, d):
        for k, v in d.items():
            if k[0] == 'phi': st.fr.env[k[1]] = v
            elif k[0] == 'mem':
                c = dict(st.mem.get(k[1], ())); c[k[2]] = (k[3], v); st.mem[k[1]] = c
            else: st.mon[k[1]] = v

    def wid1(self, st, a, b, W, where):
        out = {}
        self.pairs = {}
        for k, v in b.items():
            if k in a and a[k] != v: out[k] = self.aff(a[k], v, W, where + (str(k),), k)
            else: out[k] = v
            if k not in a and k[0] == 'mem' and is_num(v) and not isinstance(v, int) and isinstance(k[2], int):
                # a cell first touched during this iteration: how far it has moved from what it held at first
                for s in deps(v):
                    if SYM[s][0][0] == 'm' and SYM[s][0][2] == k[3] and SYM[s][0][1] == add(P_of(k[1]), k[2]):
                        d = sub(v, P_of(s))
                        if isinstance(d, int) and d: out[k] = add(P_of(s), mul(d, W))
        return out

    def wsym(self, where, tv, v, ptr):
        """unknown value of a place; places that always change alike share it"""
        w = self.pairs.get((tv, v))
        if w is None: w = self.pairs[(tv, v)] = S(('w', where[:2], where[2:]), ptr)
        return w

    def aff(self, v0, v1, W, where, k):
        if v0 == v1: return v0
        if is_num(v0) and is_num(v1):
            d = sub(v1, v0)
            if isinstance(d, int): return add(v0, mul(d, W))
            return self.wsym(where, v0, v1, self.isptr(v1))
        if isinstance(v0, tuple) and isinstance(v1, tuple) and len(v0) == len(v1) and v0 and v0[0] != 'P' and v1[0] != 'P' and type(v0[0]) == type(v1[0]):
            if v0[0] == 'B' or v1[0] == 'B': return v1 if v0[:2] != v1[:2] else self.same_test(v0, v1, where) or self.wsym(where, v0, v1, False)
            return tuple(self.aff(x, y, W, where + (i,), k) for i, (x, y) in enumerate(zip(v0, v1)))
        return v1

    def same_test(self, tv, v, where):
        """the same question about one other value"""
        a, b = deps(tv), deps(v)
        x, y = a - b, b - a
        if len(x) != 1 or len(y) != 1: return None
        x, y = min(x), min(y)
        if any(s != x and x in DEPS[s] for s in a) or any(s != y and y in DEPS[s] for s in b) or SYM[x][1] != SYM[y][1]: return None
        if subst(tv, {x: P_of(y)}) != v: return None
        return subst(tv, {x: self.wsym(where, P_of(x), P_of(y), SYM[y][1])})

    def isptr(self, v):
        b, _ = split_ptr(v); return b is not None

    def wid2(self, st, t, b, ctr, where):
        out = {}
        nxt = {ctr: add(P_of(ctr), 1)}
        self.pairs = {}
        # unknowns of this loop that changed during the iteration: values mentioning them are about the past
        ch = set()
        def own(s): return s is not None and SYM[s][0][0] == 'w' and SYM[s][0][1] == where[:2]
        def scan(tv, v):
            if is_num(tv):
                s = only_sym(tv)
                if own(s) and v != tv: ch.add(s)
            elif isinstance(tv, tuple) and isinstance(v, tuple) and len(tv) == len(v) and tv and tv[0] not in ('P', 'B'):
                for x, y in zip(tv, v): scan(x, y)
        for k, v in b.items():
            if k in t: scan(t[k], v)
        self.chg = ch
        for k, v in b.items():
            if k in t: out[k] = self.match(t[k], v, ctr, nxt, where + (str(k),))
            else: out[k] = self.stale(v, where + (str(k),))
        return out

    def stale(self, v, where):
        """a value naming something of the past iteration"""
        if not self.chg or not (deps(v) & self.chg): return v
        if is_num(v): return S(('w', where[:2], where[2:]), self.isptr(v))
        if not isinstance(v, tuple): return v
        if v and v[0] == 'B': return S(('w', where[:2], where[2:]))
        return tuple(self.stale(x, where + (i,)) if isinstance(x, tuple) else x for i, x in enumerate(v))

    def match(self, tv, v, ctr, nxt, where):
        old = bool(self.chg and (deps(v) & self.chg))
        if tv == v and ctr not in deps(tv) and not old: return tv
        if is_num(tv) and is_num(v):
            s = only_sym(tv)
            if s is not None and SYM[s][0][0] == 'w' and SYM[s][0][1] == where[:2]: return self.wsym(where, tv, v, self.isptr(v) or SYM[s][1])
            if not old and subst(tv, nxt) == v: return tv
            return self.wsym(where, tv, v, self.isptr(v))
        if isinstance(tv, tuple) and isinstance(v, tuple):
            if not old and subst(tv, nxt) == v: return tv
            if len(tv) == len(v) and tv and tv[0] not in ('P', 'B') and v[0] not in ('P', 'B') and type(tv[0]) == type(v[0]):
                return tuple(self.match(x, y, ctr, nxt, where + (i,)) for i, (x, y) in enumerate(zip(tv, v)))
            if not old and tv and v and tv[0] == v[0] == 'B':
                r = self.same_test(tv, v, where)
                if r is not None: return r
            if tv and v and 'B' in (tv[0], v[0]) and (is_num(v) or is_num(tv) or tv[:2] == v[:2]): return self.wsym(where, tv, v, False)
        if is_num(v) and not isinstance(v, int) or is_num(tv) and not isinstance(tv, int):
            s = only_sym(tv) if is_num(tv) else None
            if s is not None and SYM[s][0][0] == 'w': return tv
        return self.stale(v, where) if old else v

    def ev(self, st, kind, e):
        self.stats["events"] += 1
        self.rule.event(self, st, kind, e)

    def fork_cond(self, st, c):
        """states in which c is true / false: [(state, bool)]"""
        d = st.decide(c)
        if d is not None: return [(st, d)]
        # split and/or on their first undecided component
        if isinstance(c, tuple) and c[0] == 'B':
            x = c
            neg = False
            while x[0] == 'B' and x[1] == 'not': x = x[2]; neg = not neg
            if x[0] == 'B' and x[1] in ('and', 'or'):
                part = x[2][0] if st.decide(x[2][0]) is None else x[2][1]
                out = []
                for s, _ in self.fork_cond(st, part): out += self.fork_cond(s, c)
                return out
        s2 = st.copy()
        out = []
        if st.assume(c, True): out.append((st, True))
        if s2.assume(c, False): out.append((s2, False))
        return out

    def step(self, st):
        f = st.fr
        ins = f.fn.blocks[f.blk].insts[f.idx]
        op = ins.op
        h = getattr(self, "i_" + op, None)
        if h is None:
            return self.generic(st, ins)
        return h(st, ins)

    def setv(self, st, ins, v):
        st.fr.env[ins.id] = v; st.fr.idx += 1

    # arithmetic
    def generic(self, st, ins):
        a = [self.val(st, x) for x in ins.a]
        if ins.op in ("fence",):
            self.ev(st, "fence", dict(ins=ins)); st.fr.idx += 1; return
        if any(x == ('U',) for x in a): v = ('U',)
        elif ins.op in FOLD and (any(isf(x) for x in a) or ins.op in ("sitofp", "uitofp")) and all(isf(x) or isinstance(st.simp(x) if is_num(x) else x, int) for x in a):
            v = ffold(ins, [x if isf(x) else st.simp(x) for x in a])
        else: v = S(('op', ins.op, ins.ty.w) + tuple(a) + ((ins.x,) if isinstance(ins.x, int) else ()), ins.ty.k == "ptr")
        self.setv(st, ins, v)

    def arith(self, st, ins, fn):
        a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        if a == ('U',) or b == ('U',): self.setv(st, ins, ('U',)); return
        self.setv(st, ins, wrap(fn(num(a), num(b)), ins.ty.w))

    def i_add(self, st, ins): self.arith(st, ins, add)
    def i_sub(self, st, ins): self.arith(st, ins, sub)
    def i_mul(self, st, ins): self.arith(st, ins, mul)

    def i_shl(self, st, ins):
        a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        b = st.simp(b) if is_num(b) else b
        if isinstance(b, int) and is_num(a): self.setv(st, ins, wrap(mul(a, 1 << b), ins.ty.w)); return
        if a == ('U',) or b == ('U',): self.setv(st, ins, ('U',)); return
        self.setv(st, ins, S(('op', 'shl', ins.ty.w, num(a), num(b))))

    def bitop(self, st, ins):
        a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        op = ins.op
        if a == ('U',) or b == ('U',): self.setv(st, ins, ('U',)); return
        if ins.ty.w == 1 or isb(a) or isb(b):
            if isb(a) and (isb(b) or b in (0, 1, -1)) or isb(b) and a in (0, 1, -1) or ins.ty.w == 1:
                a, b = tobool(a), tobool(b)
                v = AND(a, b) if op == "and" else OR(a, b) if op == "or" else xorb(a, b)
                self.setv(st, ins, v); return
        a, b = st.simp(num(a)), st.simp(num(b))
        if isinstance(a, int) and isinstance(b, int):
            v = a & b if op == "and" else a | b if op == "or" else a ^ b
            self.setv(st, ins, v); return
        if isinstance(a, int): a, b = b, a
        if op in ("or", "xor") and b == 0: self.setv(st, ins, a); return
        if op == "and" and b == -1: self.setv(st, ins, a); return
        if op == "and" and b == 0: self.setv(st, ins, 0); return
        if op == "and" and b == 1 and only_sym(a) is not None and SYM[only_sym(a)][0][0] == 'fn': self.setv(st, ins, 0); return   # member pointers: not virtual
        # (x >> k) & m  ->  (x & (m << k)) >> k
        s = only_sym(a)
        if op == "and" and isinstance(b, int) and s is not None and SYM[s][0][0] == 'op' and SYM[s][0][1] in ('lshr', 'ashr') and isinstance(SYM[s][0][4], int):
            k = SYM[s][0][4]
            v = S(('op', 'lshr', ins.ty.w, S(('op', 'and', ins.ty.w, SYM[s][0][3], b << k)), k))
            self.setv(st, ins, v); return
        if not isinstance(b, int) and repr(a) > repr(b): a, b = b, a
        v = S(('op', op, ins.ty.w, a, b))
        if op == "and" and isinstance(b, int) and b >= 0: st.facts.setdefault((((only_sym(v),), 1),), (0, b, ()))
        self.setv(st, ins, v)
    i_and = i_or = i_xor = bitop

    def shr(self, st, ins):
        a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        if a == ('U',) or b == ('U',): self.setv(st, ins, ('U',)); return
        a, b = num(a), st.simp(num(b))
        if isinstance(b, int):
            self.setv(st, ins, self.divk(st, a, 1 << b, ins, 'lshr')); return
        self.setv(st, ins, S(('op', ins.op, ins.ty.w, a, b)))
    i_lshr = i_ashr = shr

    def divk(self, st, a, k, ins, op):
        """exact division when all coefficients are multiples, otherwise a named quotient"""
        a = st.simp(a)
        if isinstance(a, int): return a >> (k.bit_length() - 1) if op == 'lshr' else (abs(a) // k) * (1 if a >= 0 else -1)
        if k == 1: return a
        if a[1] % k == 0 and all(c % k == 0 for _, c in a[2]): return mk(a[1] // k, {m: c // k for m, c in a[2]})
        q = S(('op', 'lshr', ins.ty.w, a, k.bit_length() - 1)) if op == 'lshr' else S(('op', 'div', ins.ty.w, a, k))
        d = sub(a, mul(q, k))
        if ins.x == ("exact",):
            st.assume(eq(d, 0))
            # the distance between the ends of a container
            ps = [(SYM[m[0]], c) for m, c in a[2] if len(m) == 1 and SYM[m[0]][1] and SYM[m[0]][0][0] == 'm']
            if len(ps) == 2 and len(a[2]) == 2 and a[1] == 0:
                (x, cx), (y, cy) = ps
                if sub(x[0][1], y[0][1]) == (8 if cx > 0 else -8): st.assume(ge(q, 0))
        elif st.interval(a)[0] >= 0:
            st.assume(ge(d, 0)); st.assume(ge(k - 1, d)); st.assume(ge(q, 0))
        elif op == 'sdiv':
            # truncation towards zero
            st.assume(ge(d, -(k - 1))); st.assume(ge(0 if st.interval(a)[1] <= 0 else k - 1, d))
        return q

    def i_sdiv(self, st, ins):
        a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        if a == ('U',) or b == ('U',): self.setv(st, ins, ('U',)); return
        a, b = num(a), st.simp(num(b))
        self.ev(st, "div", dict(ins=ins, a=a, b=b))
        if st.interval(b)[0] > 0 and st.equal(a, b): v = 1
        elif st.interval(a)[0] >= 0 and st.decide(ge(sub(b, 1), a)): v = 0
        elif isinstance(b, int) and b > 0:
            if b & (b - 1) == 0: v = self.divk(st, a, b, ins, 'lshr' if not isinstance(a, int) else 'sdiv')
            else: v = self.divk(st, a, b, ins, 'sdiv')
        else:
            v = S(('op', 'div', ins.ty.w, a, b))
            if st.interval(a)[0] >= 0 and st.interval(b)[0] > 0:
                st.assume(ge(v, 0))
                if st.decide(ge(a, b)): st.assume(ge(v, 1))
                r = sub(a, mul(v, b))
                st.assume(ge(r, 0)); st.assume(ge(sub(b, r), 1))
        self.setv(st, ins, v)
    i_udiv = i_sdiv

    def i_srem(self, st, ins):
        a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        if a == ('U',) or b == ('U',): self.setv(st, ins, ('U',)); return
        a, b = num(a), st.simp(num(b))
        self.ev(st, "div", dict(ins=ins, a=a, b=b))
        if isinstance(a, int) and isinstance(b, int) and b: v = abs(a) % abs(b) * (1 if a >= 0 else -1)
        elif st.interval(b)[0] > 0 and st.equal(a, b): v = 0
        elif st.interval(a)[0] >= 0 and st.decide(ge(sub(b, 1), a)): v = a
        else:
            # a = (a/b)*b + a%b
            q = S(('op', 'div', ins.ty.w, a, b))
            v = sub(a, mul(q, b))
            r = num(v)
            # 0 <= a%b < b  when a >= 0 and b > 0
            if st.interval(a)[0] >= 0 and st.interval(b)[0] > 0:
                st.assume(ge(r, 0)); st.assume(ge(sub(b, r), 1))
                st.assume(ge(q, 0))
            elif isinstance(b, int) and b > 0 and ins.op == "srem":
                st.assume(ge(r, -(b - 1))); st.assume(ge(0 if st.interval(a)[1] <= 0 else b - 1, r))
        self.setv(st, ins, v)
    i_urem = i_srem

    def conv(self, st, ins):
        a = self.val(st, ins.a[0])
        if ins.op == "trunc":
            if isinstance(a, int): v = wrap(a, ins.ty.w)
            elif ins.ty.w == 1: v = tobool(a)
            else: v = a
        elif ins.op == "zext":
            if isinstance(a, int) and ins.x.w and ins.x.w > 1: v = a & ((1 << ins.x.w) - 1)
            elif isinstance(a, int): v = a & 1
            else: v = a
        elif ins.op == "sext":
            v = a if not (isinstance(a, int) and ins.x.w == 1) else -(a & 1)
        else: v = a
        self.setv(st, ins, v)
    i_trunc = i_zext = i_sext = i_bitcast = i_ptrtoint = i_inttoptr = i_freeze = i_addrspacecast = conv

    def i_icmp(self, st, ins):
        a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        self.setv(st, ins, icmp(st, ins.x[0], a, b, ins.x[1]))

    def i_select(self, st, ins):
        c = tobool(self.val(st, ins.a[0])); a, b = self.val(st, ins.a[1]), self.val(st, ins.a[2])
        if ins.ty.k == "int" and ins.ty.w == 1 and c != ('U',):
            a1, b1 = tobool(a), tobool(b)
            if a1 != ('U',) and b1 != ('U',):
                if b1 == 0: self.setv(st, ins, AND(c, a1)); return
                if a1 == 1: self.setv(st, ins, OR(c, b1)); return
        if c == ('U',): self.setv(st, ins, ('U',)); return
        if a == b: self.setv(st, ins, a); return
        out = []
        for s, d in self.fork_cond(st, c):
            self.setv(s, ins, a if d else b); out.append(s)
        if len(out) == 1 and out[0] is st: return
        return out or self.kill(st)

    def kill(self, st):
        st.dead = True
        return []

    def i_phi(self, st, ins): st.fr.idx += 1

    def i_alloca(self, st, ins):
        a = S(('al', (st.fr.ctx, ins.uid), ins.id), True)
        s = only_sym(a); st.fr.als = st.fr.als | {s}
        st.mem.pop(s, None)
        self.setv(st, ins, a)

    def i_getelementptr(self, st, ins):
        p = self.val(st, ins.a[0])
        if p == ('U',): self.setv(st, ins, p); return
        v = add(num(p), ins.x[0])
        for o, sc in zip(ins.a[1:], ins.x[1]):
            i = self.val(st, o)
            if i == ('U',): v = ('U',); break
            v = add(v, mul(num(i), sc))
        self.setv(st, ins, v)

    def i_load(self, st, ins):
        p = self.val(st, ins.a[0])
        order, vol = ins.x
        if p == ('U',): self.setv(st, ins, ('U',)); return
        if ins.ty.k in ("struct", "array"):
            v = ('A', tuple(st.read(add(p, o), t.size, t.k == "ptr") for o, t in ins.ty.fields)) if ins.ty.k == "struct" else ('U',)
            self.setv(st, ins, v); return
        if order != "na" or vol:
            pre = st.read(p, ins.ty.size, ins.ty.k == "ptr")
            v = self.fresh(st, ins, "ld", ins.ty.k == "ptr")
            if not vol or order != "na": self.boolrange(st, v, ins, p)
            r = self.models.atomic_load(self, st, ins, p, v, pre)
            if r is not None: v = r
            self.setv(st, ins, v)
            self.ev(st, "load", dict(addr=p, val=v, order=order, ins=ins, size=ins.ty.size, old=pre))
            return
        f = getattr(self.rule, "shared_load", None)
        # memory other threads write may have changed since it was last read
        if f is not None and f(self, st, p, ins.ty.size): v = self.fresh(st, ins, "ld", ins.ty.k == "ptr")
        else: v = st.read(p, ins.ty.size, ins.ty.k == "ptr")
        self.setv(st, ins, v)
        self.ev(st, "load", dict(addr=p, val=v, order="na", ins=ins, size=ins.ty.size))

    def boolrange(self, st, v, ins, p): pass

    def i_store(self, st, ins):
        v, p = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        order, ty, vol = ins.x
        if p == ('U',): st.fr.idx += 1; return
        self.ev(st, "store", dict(addr=p, val=v, order=order, ins=ins, size=ty.size))
        if ty.k == "struct" and v[0] == 'A':
            for (o, t), x in zip(ty.fields, v[1]): st.write(add(p, o), t.size, x)
        else: st.write(p, ty.size, v)
        st.fr.idx += 1

    def i_atomicrmw(self, st, ins):
        p, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        op, order = ins.x
        pre = st.read(p, ins.ty.size, ins.ty.k == "ptr")
        old = self.fresh(st, ins, "rmw", ins.ty.k == "ptr")
        r = self.models.atomic_load(self, st, ins, p, old, pre)
        if r is not None: old = r
        if ins.ty.size == 1 and op in ("xchg", "or") and num(b) == 1:
            # setting a flag: the one who finds it clear wins, as with a compare and exchange
            s2 = st.copy(); out = []
            if st.assume(eq(num(old), 0), True):
                st.write(p, 1, 1); self.setv(st, ins, 0)
                self.ev(st, "cas", dict(addr=p, ok=True, old=0, new=1, order=order, ins=ins, size=1, weak=False)); out.append(st)
            if s2.assume(eq(num(old), 0), False):
                self.setv(s2, ins, old)
                self.ev(s2, "cas", dict(addr=p, ok=False, old=old, new=1, order=order, ins=ins, size=1, weak=False)); out.append(s2)
            return out
        if op == "add": new = add(old, num(b))
        elif op == "sub": new = sub(old, num(b))
        elif op == "xchg": new = b
        else: new = S(('op', op, ins.ty.w, old, num(b)))
        st.write(p, ins.ty.size, new)
        self.setv(st, ins, old)
        self.ev(st, "rmw", dict(addr=p, rop=op, old=old, operand=b, new=new, order=order, ins=ins, size=ins.ty.size))

    def i_cmpxchg(self, st, ins):
        p, e, n = [self.val(st, x) for x in ins.a]
        so, fo, weak, ty = ins.x
        st.read(p, ty.size, ty.k == "ptr")
        s2 = st.copy()
        # success
        st.write(p, ty.size, n)
        self.setv(st, ins, ('A', (e, 1)))
        self.ev(st, "cas", dict(addr=p, ok=True, old=e, new=n, order=so, ins=ins, size=ty.size, weak=weak))
        # failure
        old = self.fresh(s2, ins, "cas", ty.k == "ptr")
        self.setv(s2, ins, ('A', (old, 0)))
        if not weak and is_num(num(e)):
            if not s2.assume(eq(old, num(e)), False): return [st]
        self.ev(s2, "cas", dict(addr=p, ok=False, old=old, new=n, order=fo, ins=ins, size=ty.size, weak=weak))
        return [st, s2]

    def i_extractvalue(self, st, ins):
        v = self.val(st, ins.a[0])
        for i in ins.x:
            v = v[1][i] if isinstance(v, tuple) and v[0] == 'A' and i < len(v[1]) else ('U',)
        self.setv(st, ins, v)

    def i_insertvalue(self, st, ins):
        v, x = self.val(st, ins.a[0]), self.val(st, ins.a[1])
        if len(ins.x) == 1:
            l = list(v[1]) if isinstance(v, tuple) and v[0] == 'A' else [('U',)] * (len(ins.ty.fields) if ins.ty.fields else ins.ty.n or 2)
            l[ins.x[0]] = x; v = ('A', tuple(l))
        else: v = ('U',)
        self.setv(st, ins, v)

    # control
    def mark_sym(self, st, targets, what="sym"):
        """the current branch is (not) constant: loops it may leave are (not) constant loops"""
        f = st.fr
        for h in f.fn.blocks[f.blk].loops:
            if h in f.loops and any(t not in f.fn.headers[h] for t in targets):
                if not f.loops[h][what]:
                    r = dict(f.loops[h]); r[what] = True; f.loops[h] = r

    def routing(self, ins):
        """the branch only continues on the way chosen by an earlier one (a merge of constants)"""
        r = self.routes.get(ins.uid)
        if r is None:
            defs = {i.id: i for b in ins.fn.blocks for i in b.insts}
            def d(o): return defs.get(o[1]) if isinstance(o, tuple) and o[0] == 'v' else None
            i = d(ins.a[0])
            if i is not None and i.op == "icmp": i = next((d(o) for o in i.a if d(o) is not None), None) if any(isinstance(o, int) for o in i.a) else None
            r = self.routes[ins.uid] = i is not None and i.op == "phi" and i.bb.idx not in ins.fn.headers and all(isinstance(o, int) for o in i.a)
        return r

    def i_br(self, st, ins):
        if not ins.a:
            self.goto(st, ins.x[0]); return
        c = tobool(self.val(st, ins.a[0]))
        if c == ('U',):
            self.mark_sym(st, ins.x)
            s2 = st.copy()
            self.goto(st, ins.x[0]); self.goto(s2, ins.x[1])
            return [s for s in (st, s2) if not s.dead] or self.kill(st)
        if not isinstance(c, int): self.mark_sym(st, ins.x)
        elif st.fr.loops and not self.routing(ins): self.mark_sym(st, ins.x, "cst")
        r = self.fork_cond(st, c)
        if not r: return self.kill(st)
        if len(r) == 1 and isb(c) and st.fr.loops: self.tested(st, c, r[0][1])
        out = []
        for s, d in r:
            self.ev(s, "branch", dict(cond=c, taken=d, ins=ins))
            self.goto(s, ins.x[0] if d else ins.x[1])
            if not s.dead: out.append(s)
        if len(out) == 1 and out[0] is st: return
        return out or self.kill(st)

    def tested(self, st, c, d):
        """remember the tests on the counter of a loop that its exact value decided"""
        f = st.fr
        for h, r in f.loops.items():
            ctr = r.get("ctr")
            if ctr is None or len(r.get("tests", ())) > 3 or ctr not in deps(c) or not all(x == ctr or SYM[x][0][0] in ('m', 'arg') and ctr not in DEPS[x] for x in deps(c)): continue
            r = dict(r); r["tests"] = r.get("tests", ()) + ((c, d),); f.loops[h] = r

    def i_switch(self, st, ins):
        v = self.val(st, ins.a[0])
        dflt, cases = ins.x
        if v == ('U',): cs = [(None, b) for _, b in cases]
        v = num(v) if v != ('U',) else v
        if not isinstance(v, int): self.mark_sym(st, [dflt] + [b for _, b in cases])
        out = []; cur = st.copy()
        for c, b in cases:
            cond = eq(v, c) if v != ('U',) else ('U',)
            d = cur.decide(cond)
            if d is False: continue
            s = cur.copy()
            if d is True or s.assume(cond, True):
                self.goto(s, b)
                if not s.dead: out.append(s)
            if d is True: cur = None; break
            if not cur.assume(cond, False): cur = None; break
        if cur is not None:
            self.goto(cur, dflt)
            if not cur.dead: out.append(cur)
        st.dead = True
        return out

    def i_unreachable(self, st, ins):
        st.dead = True; self.stats["paths"] += 1

    # ---- exceptions (modules analysed with them only) ---------------------------------------------
    def i_resume(self, st, ins):
        if not self.mod.unwind: return self.i_unreachable(st, ins)
        return self.pop_unwind(st)

    def i_landingpad(self, st, ins):
        self.setv(st, ins, ('A', (self.fresh(st, ins, "exc", True), self.fresh(st, ins, "sel"))))

    def pop_unwind(self, st):
        """the current function is left by an exception"""
        f = st.fr
        for s in f.als: st.mem.pop(s, None)
        self.ev(st, "leave", dict(fn=f.fn, ret=None))
        if st.dead: return
        if f.parent is None:
            self.stats["paths"] += 1
            self.rule.finish_throw(self, st); st.dead = True
            return
        st.fr = f.parent.copy()
        return self.unwind(st, f.call)

    def unwind(self, st, ins):
        """a call of the current function throws"""
        if ins.op == "invoke": self.goto(st, ins.x["unwind"]); return
        return self.pop_unwind(st)

    def i_ret(self, st, ins):
        v = self.val(st, ins.a[0]) if ins.a else None
        return self.do_ret(st, v)

    def do_ret(self, st, v):
        f = st.fr
        for s in f.als:
            st.mem.pop(s, None)
            if st.ep:
                for k in [k for k in st.ep if k[0] == s]: del st.ep[k]
        self.ev(st, "leave", dict(fn=f.fn, ret=v))
        if st.dead: return
        if f.parent is None:
            self.stats["paths"] += 1
            self.rule.finish(self, st, v)
            if self.collect: self.finals.append((st, v))
            st.dead = True
            return
        multi = len(f.fn.blocks) > 1
        p = f.parent.copy(); st.fr = p
        self.after_call(st, f.call, v)
        if multi and not st.dead and f.call.op != "invoke": self.visited(st)   # entering the block after an invoke has looked it up

    def after_call(self, st, ins, v):
        p = st.fr
        p.env[ins.id] = v if v is not None else ('U',)
        if ins.op == "invoke": self.goto(st, ins.x["dest"])
        else: p.idx += 1

    def i_call(self, st, ins):
        callee = ins.x["callee"]
        if isinstance(callee, tuple) and callee[0] == 'c' and callee[1][0] == 'fn': name = callee[1][1]
        elif isinstance(callee, tuple) and callee[0] == 'c' and callee[1][0] == 'asm':
            self.after_call(st, ins, ('U',)); return
        else:
            v = self.val(st, callee)
            s = only_sym(v) if is_num(v) else None
            if s is not None and SYM[s][0][0] == 'fn': name = SYM[s][0][1]
            else: return self.indirect(st, ins, v)
        args = [self.val(st, a) for a in ins.a]
        return self.do_call(st, ins, name, args)
    i_invoke = i_call

    def do_call(self, st, ins, name, args):
        fn = self.mod.fns[self.mod.aliases.get(name, name)]
        self.stats["calls"] += 1
        r = self.models.call(self, st, ins, fn, args)
        if r is not None:
            return self.outcomes(st, ins, fn, args, r)
        if fn.defined:
            self.mod.body(fn)
            if st.fr.depth > self.o["max_depth"]: raise Incomplete("call depth exceeded in %s" % fn.dname)
            self.stats["functions"].add(fn.dname)
            f = self.mkframe(fn, st.fr, ins, (st.fr.ctx, ins.uid))
            g = st.fr; chk = 0
            while g:
                if g.fn is fn: chk += 1
                g = g.parent
            if chk > 6: raise Incomplete("recursion through %s" % fn.dname)
            for i in range(fn.nparams): f.env[i] = args[i]
            st.fr = f
            self.ev(st, "enter", dict(fn=fn, args=args, ins=ins))
            return
        r = self.models.extern(self, st, ins, fn, args)
        return self.outcomes(st, ins, fn, args, r)

    def outcomes(self, st, ins, fn, args, r):
        """r: list of Outcome"""
        if r == "end":
            if self.mod.unwind and fn.name in ("__cxa_throw", "__cxa_rethrow"): return self.unwind(st, ins)
            st.dead = True; self.stats["paths"] += 1; return
        out = []
        if self.mod.unwind and self.rule.may_throw(names.base(fn.dname)):
            s = st.copy()
            self.ev(s, "throw", dict(fn=fn, name=names.base(fn.dname), args=args, ins=ins))
            self.unwind(s, ins)
            if not s.dead: out.append(s)
        for i, o in enumerate(r):
            s = st if i == len(r) - 1 else st.copy()
            ok = True
            for c, v in o.assume:
                if not s.assume(c, v): ok = False; break
            if not ok: continue
            for a, size, v in o.writes: s.write(a, size, v)
            self.ev(s, "call", dict(fn=fn, name=names.base(fn.dname), args=args, ret=o.ret, ins=ins, tag=o.tag))
            if s.dead: continue
            self.after_call(s, ins, o.ret)
            if not s.dead: out.append(s)
        if len(out) == 1 and out[0] is st: return
        if not out: return self.kill(st)
        return out

    def indirect(self, st, ins, v):
        args = [self.val(st, a) for a in ins.a]
        s = only_sym(v) if is_num(v) else None
        slot = obj = None
        if s is not None and SYM[s][0][0] == 'm':
            b, off = split_ptr(SYM[s][0][1])
            if b is not None and SYM[b][0][0] == 'm' and isinstance(off, int):
                slot = off; obj = SYM[b][0][1]
        ret = self.fresh(st, ins, "vcall", ins.ty.k == "ptr") if ins.ty.k != "void" else None
        e = dict(slot=slot, obj=obj, args=args, ret=ret, ins=ins, target=v)
        self.ev(st, "vcall", e)
        if st.dead: return
        self.after_call(st, ins, ret)


FOLD = {"fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fcmp", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"}


def isf(v): return isinstance(v, tuple) and v[0] == 'F'


def fround(x, w):
    """nearest value of the given width"""
    if w == 32:
        try: return struct.unpack("f", struct.pack("f", x))[0]
        except OverflowError: return math.inf if x > 0 else -math.inf
    return float(x)


def ffold(ins, a):
    """operations on floating point constants"""
    op = ins.op
    if op == "uitofp":
        w = ins.x.w
        return ('F', fround(a[0] & ((1 << w) - 1) if isinstance(a[0], int) else a[0][1], ins.ty.w))
    v = [x[1] if isf(x) else x for x in a]
    if op in ("fptosi", "fptoui"):
        return int(v[0]) if math.isfinite(v[0]) else ('U',)
    if op == "fcmp":
        x, y = v; p = ins.x
        if math.isnan(x) or math.isnan(y): return int(p >= 8)
        return int(bool(p & 1 and x == y or p & 2 and x > y or p & 4 and x < y))
    if op == "fneg": r = -v[0]
    elif op == "fadd": r = v[0] + v[1]
    elif op == "fsub": r = v[0] - v[1]
    elif op == "fmul": r = v[0] * v[1]
    elif op == "fdiv":
        if v[1] == 0: return ('F', math.nan if v[0] == 0 else math.copysign(math.inf, v[0]))
        r = v[0] / v[1]
    elif op == "frem": r = math.fmod(v[0], v[1])
    else: r = v[0]
    return ('F', fround(r, ins.ty.w))


def _deps_of(v, out):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'P':
            for m, _ in v[2]:
                for s in m: out |= DEPS[s]
        else:
            for y in v: _deps_of(y, out)
    elif isinstance(v, frozenset):
        for y in v: _deps_of(y, out)


def wrap(v, w):
    if isinstance(v, int) and w:
        v &= (1 << w) - 1
        if v >> (w - 1): v -= 1 << w
    return v


def isb(v): return isinstance(v, tuple) and v[0] == 'B'


def tobool(v):
    if isinstance(v, int): return v & 1
    if v[0] in ('B', 'U'): return v
    if v[0] == 'P':
        s = only_sym(v)
        if s is not None and SYM[s][0][0] == 'val': return SYM[s][0][1]
        return NOT(eq(v, 0))
    return ('U',)


def xorb(a, b):
    if isinstance(a, int): return NOT(b) if a & 1 else b
    if isinstance(b, int): return NOT(a) if b & 1 else a
    return OR(AND(a, NOT(b)), AND(NOT(a), b))


def icmp(st, pred, a, b, ty):
    if a == ('U',) or b == ('U',): return ('U',)
    if isb(a) or isb(b):
        if pred in ("eq", "ne"):
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                v = a if b & 1 else NOT(a)
            else: v = NOT(xorb(tobool(a), tobool(b)))
            return v if pred == "eq" else NOT(v)
    if not (is_num(a) and is_num(b)):
        if pred == "eq" and a == b: return 1
        a, b = num(a), num(b)
    # comparisons of a right shift with zero
    if pred in ("eq", "ne") and b == 0:
        s = only_sym(a)
        if s is not None and SYM[s][0][0] == 'op' and SYM[s][0][1] == 'lshr' and isinstance(SYM[s][0][4], int):
            x = SYM[s][0][3]; sx = only_sym(x)
            if sx is not None and SYM[sx][0][0] == 'op' and SYM[sx][0][1] == 'and' and isinstance(SYM[sx][0][4], int) and SYM[sx][0][4] % (1 << SYM[s][0][4]) == 0:
                a = x
    if isinstance(a, int) and isinstance(b, int) and ty.w:
        m = (1 << ty.w) - 1
        if pred[0] == 'u': a &= m; b &= m
        return int({"eq": a == b, "ne": a != b, "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b,
                    "sgt": a > b, "sge": a >= b, "slt": a < b, "sle": a <= b}[pred])
    if pred == "eq": return eq(a, b)
    if pred == "ne": return NOT(eq(a, b))
    if pred[0] == 'u':
        if isinstance(b, int) and b < 0 or isinstance(a, int) and a < 0:
            return S(('op', 'icmp' + pred, 1, a, b)) if True else None
        p = pred[1:]
        if p == "gt": a, b, p = b, a, "lt"
        elif p == "ge": a, b, p = b, a, "le"
        r = NOT(ge(a, b)) if p == "lt" else ge(b, a)
        if maybe_neg(a) and not st.decide(ge(a, 0)) and not isptrv(a): r = AND(ge(a, 0), r)
        return r
    p = pred[1:]
    if p == "gt": return NOT(ge(b, a))
    if p == "ge": return ge(a, b)
    if p == "lt": return NOT(ge(a, b))
    return ge(b, a)


def isptrv(a):
    return any(SYM[s][1] for m, _ in a[2] for s in m) if isinstance(a, tuple) else False


def maybe_neg(a):
    if isinstance(a, int): return False
    return a[1] < 0 or any(k < 0 for _, k in a[2])


def _gl(self, name):
    m = _MOD[0]
    g = m.globs.get(name)
    if not g or not ir.gl_const(g): return None
    return m.ginit(name)
_MOD = [None]
State.gl = _gl


def _constv(self, c): return Explorer.constv(None, c) if not (isinstance(c, tuple) and c[0] in ('zero',)) else 0
State.constv = _constv
