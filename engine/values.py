"""Abstract values: integers and pointers as polynomials over interned symbols.

  int                      constant
  ('P', c, terms)          c + sum(k * product of symbols)      terms: ((mono, k), ...), mono: sorted tuple of symbol ids
  ('B', op, x)             boolean: op 'eq' (poly==0), 'ge' (poly>=0), 'not', 'and', 'or', 'true'
  ('A', (..))              aggregate
  ('U',)                   undefined
Pointers are polynomials with exactly one pointer symbol of coefficient one.
"""
SYM = []          # id -> (desc, isptr)
_IDX = {}
DEPS = []         # id -> frozenset of ids it depends on (itself included)


def sym(desc, isptr=False):
    k = (desc, isptr)
    i = _IDX.get(k)
    if i is None:
        i = len(SYM); _IDX[k] = i
        SYM.append((desc, isptr))
        d = set([i])
        _deps(desc, d)
        DEPS.append(frozenset(d))
    return i


def _deps(x, out):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'P':
            for m, _ in x[2]:
                for s in m: out |= DEPS[s]
        else:
            for y in x: _deps(y, out)
    elif isinstance(x, frozenset):
        for y in x: _deps(y, out)


def S(desc, isptr=False):
    return ('P', 0, (((sym(desc, isptr),), 1),))


def P_of(i): return ('P', 0, (((i,), 1),))


def mk(c, terms):
    t = tuple(sorted((m, k) for m, k in terms.items() if k != 0))
    return ('P', c, t) if t else c


def is_poly(v): return isinstance(v, tuple) and len(v) == 3 and v[0] == 'P'
def is_num(v): return isinstance(v, int) or (isinstance(v, tuple) and len(v) == 3 and v[0] == 'P')


def num(v):
    """coerce to int/poly"""
    if isinstance(v, int) or v[0] == 'P': return v
    return S(('val', v))


def add(a, b, k=1):
    """a + k*b"""
    a = num(a); b = num(b)
    if isinstance(a, int) and isinstance(b, int): return a + k * b
    if isinstance(b, int): return ('P', a[1] + k * b, a[2])
    if isinstance(a, int):
        if k == 1: return ('P', a + b[1], b[2])
        return mk(a + k * b[1], {m: k * c for m, c in b[2]})
    t = dict(a[2])
    for m, c in b[2]: t[m] = t.get(m, 0) + k * c
    return mk(a[1] + k * b[1], t)


def sub(a, b): return add(a, b, -1)


def mul(a, b):
    a = num(a); b = num(b)
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if b == 0: return 0
        return mk(a[1] * b, {m: c * b for m, c in a[2]})
    t = {}
    c = a[1] * b[1]
    for m, k in a[2]:
        if b[1]: t[m] = t.get(m, 0) + k * b[1]
    for m, k in b[2]:
        if a[1]: t[m] = t.get(m, 0) + k * a[1]
    for m1, k1 in a[2]:
        for m2, k2 in b[2]:
            m = tuple(sorted(m1 + m2)); t[m] = t.get(m, 0) + k1 * k2
    return mk(c, t)


def key_of(p):
    """normalise poly c+T: returns (key terms with positive leading coefficient, sign, c)"""
    t = p[2]
    if t[0][1] < 0: return tuple((m, -k) for m, k in t), -1, p[1]
    return t, 1, p[1]


def split_ptr(v):
    """-> (base symbol id or None, offset)"""
    if isinstance(v, int): return None, v
    if v[0] != 'P': return None, v
    base = None; n = 0
    for m, k in v[2]:
        if k == 1 and len(m) == 1 and SYM[m[0]][1]:
            base = m[0]; n += 1
    if n != 1: return None, v
    rest = {m: k for m, k in v[2] if m != (base,)}
    return base, mk(v[1], rest)


def only_sym(v):
    """id if v is exactly one symbol"""
    if isinstance(v, tuple) and v[0] == 'P' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and len(v[2][0][0]) == 1:
        return v[2][0][0][0]
    return None


def deps(v):
    out = set(); _deps(v, out); return out


def B(op, x): return ('B', op, x)


def eq(a, b):
    d = sub(num(a), num(b))
    if isinstance(d, int): return 1 if d == 0 else 0
    if d[2][0][1] < 0: d = mul(d, -1)
    return ('B', 'eq', d)


def ge(a, b):
    d = sub(num(a), num(b))
    if isinstance(d, int): return 1 if d >= 0 else 0
    return ('B', 'ge', d)


def NOT(c):
    if isinstance(c, int): return 0 if c & 1 else 1
    if c[0] == 'B' and c[1] == 'not': return c[2]
    return ('B', 'not', c)


def AND(a, b):
    if isinstance(a, int): return b if a & 1 else 0
    if isinstance(b, int): return a if b & 1 else 0
    if a == b: return a
    return ('B', 'and', (a, b))


def OR(a, b):
    if isinstance(a, int): return 1 if a & 1 else b
    if isinstance(b, int): return 1 if b & 1 else a
    if a == b: return a
    return ('B', 'or', (a, b))


def subst(v, mp):
    """rename symbols in v (recursively, descriptors included); mp: id -> value"""
    if isinstance(v, int) or isinstance(v, str) or v is None: return v
    if isinstance(v, frozenset): return frozenset(subst(x, mp) for x in v)
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'P':
            if not any(DEPS[s] & mp.keys() for m, _ in v[2] for s in m): return v
            r = v[1]
            for m, k in v[2]:
                p = k
                for s in m: p = mul(p, _sub_sym(s, mp))
                r = add(r, p)
            return r
        return tuple(subst(x, mp) for x in v)
    return v


def _sub_sym(s, mp):
    if s in mp: return mp[s]
    if DEPS[s] & mp.keys():
        d, p = SYM[s]
        return S(tuple(subst(x, mp) for x in d), p)
    return P_of(s)


def show_sym(i):
    d, p = SYM[i]
    t = d[0]
    if t == 'al': return "&local%s" % d[2]
    if t == 'hp': return "heap(%s)%s" % (d[1], "'" * d[2] if len(d) > 2 and isinstance(d[2], int) else "")
    if t == 'gl': return "&" + d[1][:40]
    if t == 'fn': return "fn:" + d[1][:40]
    if t == 'arg': return "arg%s" % d[1]
    if t == 'm': return "*[%s]" % show(d[1])
    if t == 'x': return "%s%s" % (d[2], "'" * d[3])
    if t == 'op': return "%s(%s)" % (d[1], ",".join(show(x) for x in d[3:]))
    if t == 'n': return "N%s" % d[-1]
    if t == "w": return "w%s" % (d[-1],)
    return str(d)[:60]


def show(v):
    if isinstance(v, int): return str(v)
    if v is None: return "none"
    if isinstance(v, tuple):
        if v[0] == 'P':
            o = []
            for m, k in v[2]:
                s = "*".join(show_sym(x) for x in m)
                o.append(s if k == 1 else "%d*%s" % (k, s))
            if v[1]: o.append(str(v[1]))
            return "+".join(o)
        if v[0] == 'B':
            if v[1] in ('and', 'or'): return "(%s %s %s)" % (show(v[2][0]), v[1], show(v[2][1]))
            return "%s(%s)" % (v[1], show(v[2]))
        return "(" + ",".join(show(x) if not isinstance(x, str) else x for x in v) + ")"
    return str(v)
