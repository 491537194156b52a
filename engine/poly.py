"""Polyhedral entailment: are the linear facts of a state contradictory?  Products of symbols are treated as unknowns of
their own; equalities are also used multiplied by the symbols they may meet in a product.  Exact rational arithmetic."""
from fractions import Fraction
from values import *

INF = float("inf")


def rows(facts, extra=()):
    """inequalities  sum(k*mono) + c >= 0  and equalities"""
    ine, eqs = [], []
    for t, (lo, hi, ne) in facts.items():
        if t[0] == 'o': continue
        d = {m: Fraction(k) for m, k in t}
        if lo == hi: eqs.append((d, Fraction(-lo)))
        else:
            if lo != -INF: ine.append((dict(d), Fraction(-lo)))
            if hi != INF: ine.append(({m: -k for m, k in d.items()}, Fraction(hi)))
    for p in extra:
        p = num(p)
        ine.append(({}, Fraction(p)) if isinstance(p, int) else ({m: Fraction(k) for m, k in p[2]}, Fraction(p[1])))
    return ine, eqs


def infeasible(facts, extra=(), limit=4000):
    """True if no integers satisfy facts and extra (each >= 0); False if that could not be shown"""
    ine, eqs = rows(facts, extra)
    prods = set(m for d, _ in ine + eqs for m in d if len(m) > 1)
    syms = {s for m in prods for s in m}
    more = []
    for d, c in eqs:
        if all(len(m) == 1 for m in d):
            for s in syms:
                e = {tuple(sorted(m + (s,))): k for m, k in d.items()}
                if any(m in prods for m in e):
                    if c: e[(s,)] = e.get((s,), 0) + c
                    more.append((e, Fraction(0)))
    eqs += more
    # eliminate the equalities
    while eqs:
        d, c = eqs.pop()
        d = {m: k for m, k in d.items() if k}
        if not d:
            if c: return True
            continue
        p = min(d, key=lambda m: (-len(m), m)); k = d[p]
        def sub1(r):
            e, x = r
            if p not in e: return r
            f = e[p] / k
            e = dict(e)
            for m, y in d.items(): e[m] = e.get(m, 0) - f * y
            return {m: y for m, y in e.items() if y}, x - f * c
        eqs = [sub1(r) for r in eqs]; ine = [sub1(r) for r in ine]
    # Fourier-Motzkin
    def norm(e, x):
        e = {m: y for m, y in e.items() if y}
        if not e: return (), x
        # integer coefficients, then the constant can be rounded down
        den = 1
        for y in e.values(): den = den * y.denominator // gcd_(den, y.denominator)
        g = 0
        for y in e.values(): g = gcd_(g, int(y * den))
        f = Fraction(den, g)
        v = x * f
        return tuple(sorted((m, int(y * f)) for m, y in e.items())), Fraction(v.numerator // v.denominator)
    sys_ = {}
    def put(s, e, x):
        k, v = norm(e, x)
        if not k: return v < 0
        if k not in s or s[k] > v: s[k] = v
        return False
    for e, x in ine:
        if put(sys_, e, x): return True
    for _ in range(60):
        ms = {}
        for k in sys_:
            for m, y in k: a = ms.setdefault(m, [0, 0]); a[y > 0] += 1
        if not ms: return False
        p = min(ms, key=lambda m: (ms[m][0] * ms[m][1] - sum(ms[m]), m))
        pos = [(dict(k), v, dict(k)[p]) for k, v in sys_.items() if dict(k).get(p, 0) > 0]
        neg = [(dict(k), v, dict(k)[p]) for k, v in sys_.items() if dict(k).get(p, 0) < 0]
        n = {k: v for k, v in sys_.items() if not any(m == p for m, _ in k)}
        for a, x, y in pos:
            for b, z, w in neg:
                e = {}
                for m, q in a.items(): e[m] = e.get(m, 0) + q * -w
                for m, q in b.items(): e[m] = e.get(m, 0) + q * y
                if put(n, {m: Fraction(q) for m, q in e.items() if q}, x * -w + z * y): return True
        sys_ = n
        if len(sys_) > limit: return False
    return False


def gcd_(a, b):
    while b: a, b = b, a % b
    return abs(a)


def proves_ge(facts, p):
    """facts imply p >= 0"""
    return infeasible(facts, (sub(-1, p),))


def proves_eq(facts, p): return proves_ge(facts, p) and proves_ge(facts, mul(p, -1))
