"""The concurrent queue (P15): a lockset analysis with the exceptional exits, and the effects of each operation."""
from lib import *

INSERT_BACK = ("push", "emplace", "push_back", "emplace_back"); INSERT_OTHER = ("push_front", "emplace_front", "insert")
REMOVE_FRONT = ("pop", "pop_front"); REMOVE_OTHER = ("pop_back", "erase", "clear", "swap", "resize", "operator=")
READ = ("empty", "size", "front", "back", "begin", "end", "cbegin", "cend", "operator[]", "at")
LOCK = ("pthread_mutex_lock", "std::mutex::lock", "pthread_rwlock_wrlock", "std::recursive_mutex::lock", "pthread_spin_lock"); SHARED = ("pthread_rwlock_rdlock",)
UNLOCK = ("pthread_mutex_unlock", "std::mutex::unlock", "pthread_rwlock_unlock", "std::recursive_mutex::unlock", "pthread_spin_unlock"); TRY = ("pthread_mutex_trylock",)
CONT = ("std::queue::", "std::deque::", "std::__cxx11::list::", "std::vector::", "std::priority_queue::", "std::stack::")


def m_el(ex, st, ins, fn, args):
    return models.O(args[0] if names.base(fn.dname).endswith("operator=") and ins.ty.k == "ptr" else (ex.fresh(st, ins, "ret", True) if ins.ty.k == "ptr" else None))


class Queue(Mon):
    def __init__(self, ck, size, op):
        self.ck = ck; self.size = size; self.op = op; self.models = {"El::*": m_el}; self.locks = set(); self.conts = set(); self.ends = 0; self.throws = 0
    def may_throw(self, name):
        return name.startswith("El::") and "~" not in name or name.startswith(CONT) and name.split("::")[-1] in INSERT_BACK + INSERT_OTHER
    def init(self, st):
        m = st.mon; m['held'] = (); m['ins'] = '0'; m['rem'] = '0'; m['out'] = '0'; m['front'] = None; m['bad'] = ''; m['qs'] = None; m['copy'] = None
    def own(self, a):
        """offset inside the queue object"""
        d = sub(a, S(('arg', 0, self.root), True))
        return d if isinstance(d, int) and 0 <= d < self.size else None
    def locked(self, ex, st, what, write):
        self.ck.obligation()
        if not st.mon['held']: self.bad(ex, st, ("lock", what), "%s without holding the lock of the queue" % what)
        elif write and all(k == 's' for _, k in st.mon['held']): self.bad(ex, st, ("lock", "shared", what), "%s while holding the lock for reading only" % what)
    def event(self, ex, st, kind, e):
        m = st.mon
        if kind == "throw": self.note(ex, st, "%s throws" % e["name"]); self.throws += 1; return
        if kind == "call":
            n = e["name"]; last = n.split("::")[-1]
            if n in LOCK + SHARED or n in TRY and e["tag"] == "ok":
                d = self.own(e["args"][0])
                self.ck.obligation()
                if d is None: self.bad(ex, st, ("lock", "where"), "the queue takes a lock that is not its own"); return
                if any(x == d for x, _ in m['held']): self.bad(ex, st, ("lock", "twice"), "the lock of the queue is taken while it is held")
                m['held'] += ((d, 's' if n in SHARED else 'x'),); self.locks.add(d); self.note(ex, st, "locks")
            elif n in UNLOCK:
                d = self.own(e["args"][0])
                if d not in [x for x, _ in m['held']]: self.bad(ex, st, ("lock", "unlock"), "the queue releases a lock it does not hold")
                m['held'] = tuple(x for x in m['held'] if x[0] != d)
                if self.op == "pop" and m['out'] == '1' and m['rem'] == '0' and m['front'] is not None: self.bad(ex, st, ("pop", "split"), "the lock is released between the reading of the front element and its removal")
                # others may change the elements now
                for c in self.conts: st.mon[('q', add(S(('arg', 0, self.root), True), c))] = ex.fresh(st, e["ins"], "ver")
                self.note(ex, st, "unlocks")
            elif n.startswith(CONT):
                d = self.own(e["args"][0]) if e["args"] and is_num(e["args"][0]) else None
                if d is None: return
                self.conts.add(d)
                if last.startswith("~") or last in ("queue", "deque", "list", "vector"): return
                self.note(ex, st, "%s of the elements" % last)
                self.locked(ex, st, "the elements are accessed (%s)" % last, last not in READ)
                if last in INSERT_BACK:
                    m['ins'] = {'0': '1', '1': '2', '2': '2'}[m['ins']]
                    if len(e["args"]) < 2 or not (st.equal(e["args"][1], S(('arg', 1, self.root), True)) or m['copy'] is not None and st.equal(e["args"][1], m['copy'])):
                        m['bad'] = 'other'
                elif last in REMOVE_FRONT:
                    m['rem'] = {'0': '1', '1': '2', '2': '2'}[m['rem']]
                    if self.op == "pop" and m['out'] != '1': self.bad(ex, st, ("pop", "lost"), "the front element is removed before it has been handed to the caller")
                elif last in ("front", "begin", "cbegin"): m['front'] = e["ret"]; m['qs'] = models.qsize(st, e["args"][0])
                elif last in ("empty", "size"): m['qs'] = models.qsize(st, e["args"][0])
                elif last in INSERT_OTHER + REMOVE_OTHER: self.bad(ex, st, ("order", last), "the order of the elements is not first in first out (%s)" % last)
            elif n.startswith("El::") and e["args"]:
                a1 = S(('arg', 1, self.root), True)
                if self.op == "pop" and st.equal(e["args"][0], a1):
                    if last == "operator=":
                        self.locked(ex, st, "the front element is taken out", True)
                        src = e["args"][1]
                        if m['front'] is None or not st.equal(src, m['front']): self.bad(ex, st, ("pop", "front"), "a pop hands out something else than the front element")
                        m['out'] = {'0': '1', '1': '2', '2': '2'}[m['out']]
                    else: self.bad(ex, st, ("pop", "other"), "a pop modifies the element of the caller otherwise than by assigning to it")
                elif self.op in ("push", "pushm") and m['ins'] == '0' and len(e["args"]) > 1 and st.equal(e["args"][1], a1): self.copied(st, e["args"][0])
                elif last == "operator=" and self.op == "pop" and m['front'] is not None and st.equal(e["args"][1], m['front']): self.copied(st, e["args"][0])
                elif last == "El" and self.op == "pop" and len(e["args"]) > 1 and m['front'] is not None and st.equal(e["args"][1], m['front']):
                    # through a temporary
                    m['front'] = e["args"][0]; self.note(ex, st, "front element kept aside")
        elif kind in ("load", "store", "rmw", "cas") and is_num(e["addr"]):
            d = self.own(e["addr"])
            if d is not None and not any(d == x for x in self.locks) and self.op != "ctor":
                self.locked(ex, st, "the state of the queue is accessed", kind != "load")
    def copied(self, st, a): st.mon['copy'] = a
    def exit(self, ex, st):
        self.ends += 1
        if st.mon['held']: self.bad(ex, st, ("lock", "kept"), "the lock of the queue is still held when the operation ends")
    def finish_throw(self, ex, st): self.ck.obligation(); self.exit(ex, st)
    def finish(self, ex, st, ret):
        self.ck.obligation(); self.exit(ex, st); m = st.mon
        if self.op in ("push", "pushm"):
            if m['ins'] != '1': self.bad(ex, st, ("push", "count"), "a pushed element is not stored exactly once")
            if m['rem'] != '0': self.bad(ex, st, ("push", "removes"), "pushing an element removes one")
            if m['bad']: self.bad(ex, st, ("push", "other"), "something else than the element given is stored")
        elif self.op == "pop":
            for s2, r in cases(ex, st, ret):
                n0 = self.was_empty(s2)
                if r:
                    if m['out'] != '1': self.bad(ex, s2, ("pop", "untouched"), "a pop reports success without having handed out exactly one element")
                    if m['rem'] != '1': self.bad(ex, s2, ("pop", "kept"), "a pop reports success without having removed exactly one element")
                    if n0 is not False: self.bad(ex, s2, ("pop", "unchecked"), "a pop takes an element without having found the queue not empty")
                else:
                    if m['out'] != '0': self.bad(ex, s2, ("pop", "touched"), "a pop that reports failure touches the element of the caller")
                    if m['rem'] != '0': self.bad(ex, s2, ("pop", "removed"), "a pop that reports failure removes an element")
                    if n0 is not True: self.bad(ex, s2, ("pop", "refused"), "a pop reports failure although the queue was not found empty")
        elif self.op == "empty":
            for s2, r in cases(ex, st, ret):
                n0 = self.was_empty(s2)
                if n0 is not r: self.bad(ex, s2, ("empty", str(r)), "the emptiness reported is not that of the queue")
            if m['ins'] != '0' or m['rem'] != '0': self.bad(ex, st, ("empty", "changes"), "asking whether the queue is empty changes it")
    def was_empty(self, st):
        """emptiness of the elements when the operation began"""
        return None if st.mon['qs'] is None else st.decide(eq(st.mon['qs'], 0))


def job_queue(ck, nd, op):
    mod = ck.mod("queue.cpp", nd, unwind=True)
    size = ck.retval(mod, "z_cq")
    r = Queue(ck, size, op)
    ck.explore(mod, "q_" + op, r)
    if op != "ctor":
        if not r.conts: raise Incomplete("the elements of the queue were not found")
        if not r.locks: ck.violation(("q_" + op, "nolock"), "no lock is taken [q_%s, %s]" % (op, mod.label))
        ck.count("exceptional_exits", r.throws)
        ck.notes.append((op, sorted(r.locks)))
    return r


def job_same(ck, nd):
    """all the operations use the same lock"""
    mod = ck.mod("queue.cpp", nd, unwind=True); size = ck.retval(mod, "z_cq"); ls = {}
    scr = ck.scratch()
    for op in ("push", "pushm", "pop", "empty"):
        r = Queue(scr, size, op); scr.explore(mod, "q_" + op, r); ls[op] = frozenset(r.locks)
        ck.obligation(); ck.roots.append(mod.label + ":q_" + op)
    if len({l for l in ls.values() if l}) > 1: ck.violation(("q", "locks"), "the operations of the queue do not use the same lock [%s]" % mod.label)


def run_P15(ck):
    ck.rule_text = ("lockset: every operation on the container, and every access to another byte of the queue, happens on paths holding the one lock of the queue, which is released on every normal and exceptional exit; effects: a push "
                    "appends the given element once; a pop assigns the front element to the caller's, removes it, and answers true, exactly on the paths that found the container not empty; otherwise it changes nothing and answers false")
    ck.explanation = "abstract interpretation, including the exceptional edges of element operations and allocations, of the five operations of concurrent_queue with a declared-only element type"
    for nd in CONFIGS: ck.configs.append(ck.mod("queue.cpp", nd, unwind=True).label)
    ck.parts([(op, job_queue, (nd, op)) for nd in CONFIGS for op in ("push", "pushm", "pop", "empty")] + [("same", job_same, (nd,)) for nd in CONFIGS])
