"""Groups: hand out (P07, P08, P09), membership (P10), and their part of P04, P05, P13."""
from lib import *
from tasks import EVENT, is_event, TU, build_both, OwnMon, idx, GROUPS

PAR = ("ParW", "ParF"); SEQ = ("SeqW", "SeqF")
POPS = ("pop", "pop_front"); FRONTS = ("front", "begin")


def inc(m, k): m[k] = {'0': '1', '1': '2', '2': '2'}[m[k]]


class GroupMon(Mon):
    """everything a group does in one call; each property looks at its own categories of deviations"""
    def __init__(self, ck, mod, cats, G):
        self.models = dict(EVENT); self.L = layout(ck, mod); self.ck = ck; self.cats = cats; self.G = G

    def dev(self, ex, st, cat, key, msg):
        if cat in self.cats: self.bad(ex, st, (cat, key), msg)

    def init(self, st):
        a = S(('arg', 0, self.root), True)
        self.a = a; self.kind = self.root.split("_")[1]; self.op = self.root.split("_")[2]
        self.par = self.kind in PAR; self.waitable = self.kind.endswith("W")
        m = st.mon
        m['pre'] = m['post'] = m['done'] = m['notify'] = m['told'] = m['pops'] = '0'; m['wait'] = ''
        m['lastdec'] = None      # counter value before the decrement of this call
        m['pend'] = None         # index drawn and not settled
        m['adds'] = 0            # members submitted in this call
        m['work'] = 0            # members submitted or executed
        m['hi'] = 0              # members [0, hi) handled directly, in order
        m['exc'] = ()            # claimed or finished flags read: (object, value)
        m['own'] = ()            # members won here
        m['saw'] = ()            # values of the group's own done flag
        m['started'] = 0         # members of a sequence started, or found claimed by somebody else
        m['cur'] = None; m['claimed'] = ''; m['exhausted'] = ''; m['front'] = ''

    # ---- where a member comes from
    def member(self, st, obj):
        """index of a member of the vector of the group, or None"""
        A = loaded_from(obj)
        if A is None: return None
        b, o = split_ptr(A)
        if b is None or SYM[b][0][0] != 'm': return None
        bb, oo = split_ptr(SYM[b][0][1])
        if bb is None or P_of(bb) != self.a: return None
        o = st.simp(num(sub(o, self.L.hptr)))
        h = self.L.hsize
        if isinstance(o, int): return o // h if o % h == 0 else None
        if o[1] % h or any(k % h for _, k in o[2]): return None
        return mk(o[1] // h, {m: k // h for m, k in o[2]})

    def queued(self, st, obj):
        """the queue element an object comes from: (how, version) or None"""
        A = loaded_from(obj)
        if A is None: return None
        b, o = split_ptr(A)
        if b is None or SYM[b][0][0] != 'elem' or o != self.L.hptr: return None
        return b

    def size(self, st):
        """number of members of the vector"""
        b = self.G["vec"]
        return b

    def advance(self, st):
        """members found claimed or done need nothing"""
        m = st.mon
        for o, v in m['exc']:
            if st.decide(eq(v, 0)) is False:
                i = self.member(st, o)
                if i is not None and st.equal(i, m['hi']): m['hi'] = add(num(m['hi']), 1)

    def excused(self, st, obj):
        for o, v in st.mon['exc']:
            if o == obj and st.decide(eq(v, 0)) is False: return True
        return False

    def settled(self, st):
        """the index drawn last needs nothing any more"""
        p = st.mon['pend']
        if p is None: return True
        i, state, obj = p
        n = self.count(st)
        if state == "out" or obj is not None and self.excused(st, obj): st.mon['pend'] = None
        elif n is not None and st.decide(ge(i, n)) is True:
            st.mon['exhausted'] = 'y'; st.mon['pend'] = None
        return st.mon['pend'] is None

    def settle(self, ex, st, end=False):
        if self.settled(st): return
        self.dev(ex, st, "handout", "forgotten", "an index has been drawn but its member is neither handed out nor already claimed")
        st.mon['pend'] = None

    def count(self, st):
        """(end - begin) / element size, as a value the facts speak about"""
        v = self.G["vecoff"]
        if v is None: return None
        b = S(('m', add(self.a, v), 8), True); e = S(('m', add(self.a, v + 8), 8), True)
        return S(('op', 'lshr', 64, sub(e, b), 4)) if self.L.hsize == 16 else None

    def handle(self, ex, st, obj, how):
        """a member is submitted or executed here"""
        m = st.mon
        self.ck.obligation()
        m['work'] = 'y'
        i = self.member(st, obj) if self.par else None
        if self.par:
            if i is None: self.dev(ex, st, "handout", "foreign", "something else than a member of the group is handed out"); return
            p = m['pend']
            if p is not None and st.equal(i, p[0]):
                if p[1] == "out": self.dev(ex, st, "handout", "twice", "a member is handed out twice")
                m['pend'] = (p[0], "out", None); return
            if st.equal(i, m['hi']): m['hi'] = add(num(m['hi']), 1); return
            self.dev(ex, st, "handout", "index", "the member handed out (%s) is not the next one" % show(i))
        else:
            c = m['cur']
            if c is None or c[0] != obj: self.dev(ex, st, "seq", "foreign", "a sequence hands out something else than the member it has just removed from its front"); return
            if c[1]: self.dev(ex, st, "seq", "twice", "a member of a sequence is handed out twice")
            m['cur'] = (obj, 'y')

    def popped(self, ex, st, q):
        """the front member has been removed from the sequence"""
        m = st.mon
        c = m['cur']
        if c is not None and not c[1]: self.dev(ex, st, "seq", "dropped", "a member of a sequence is removed but not started")
        m['cur'] = None

    def event(self, ex, st, kind, e):
        L = self.L; m = st.mon; a = self.a
        if kind == "loop":
            if self.par:
                self.settled(st)
                if self.op == "activeWait": self.advance(st)
                p = m['pend']
                m['exc'] = tuple(x for x in m['exc'] if p is not None and x[0] == p[2])
            prune(ex, st, 'exc'); prune(ex, st, 'own')
            return
        if kind == "call":
            n = e["name"]; last = n.split("::")[-1]
            if n == "GC::onPreExecute":
                self.ck.obligation()
                if m['work']: self.dev(ex, st, "hooks", "pre-late", "a member is handed out before the pre execution hook of the group")
                inc(m, 'pre'); self.note(ex, st, "pre execution hook")
            elif n == "GC::onPostExecute":
                self.ck.obligation()
                self.completing(ex, st, "hooks", "post execution hook")
                if m['notify'] != '0' or m['told'] != '0': self.dev(ex, st, "hooks", "post-late", "the post execution hook of the group runs after the waiters or the enclosing group were told")
                inc(m, 'post'); self.note(ex, st, "post execution hook")
            elif is_event(n, "notify"):
                self.completing(ex, st, "early", "release of the waiters")
                if m['done'] == '0': self.dev(ex, st, "early", "notify-undone", "the waiters of a group are released before it is done")
                inc(m, 'notify'); self.note(ex, st, "releases the waiters")
                if self.G.get("event") is not None and sub(e["args"][0], a) != self.G["event"]: self.dev(ex, st, "early", "other-event", "another event than the one waited for is notified")
            elif is_event(n, "wait"):
                m['wait'] = 'y'; self.note(ex, st, "waits")
                if self.G.get("event") is not None and sub(e["args"][0], a) != self.G["event"]: self.dev(ex, st, "early", "waits-other", "the wait waits for something else than the completion of the group")
            elif is_event(n, "reset"):
                self.dev(ex, st, "once", "evreset", "the completion event of the group is reset")
            elif n == "SchedStub::add":
                obj = st.read(add(e["args"][-1], L.hptr), 8, True)
                self.note(ex, st, "submits %s" % show(obj))
                m['adds'] = add(num(m['adds']), 1)
                self.limit(ex, st)
                self.handle(ex, st, obj, "add")
            elif n.startswith("std::queue::") or n.startswith("std::deque::") or n.startswith("std::__cxx11::list::"):
                if last in FRONTS and e["ret"] is not None: pass
                if last in POPS:
                    # the element that was at the front
                    q = e["args"][0]
                    self.note(ex, st, "removes the front member")
                    inc(m, 'pops')
                    self.popped(ex, st, q)
                    m['cur'] = None; m['front'] = 'y'
                elif last == "pop_back": self.dev(ex, st, "seq", "back", "a sequence starts its last member first")
        elif kind == "vcall":
            s = e["slot"]
            if s == L.slots["execute"] or s == L.slots["executeST"]:
                self.note(ex, st, "executes %s%s" % (show(e["obj"]), " single threaded" if s == L.slots["executeST"] else ""))
                if s == L.slots["executeST"] and self.op != "executeST": self.dev(ex, st, "once", "member-st", "a member is executed without its completion being told to the group")
                if s == L.slots["execute"] and self.op == "executeST": self.dev(ex, st, "once", "member-mt", "a member executed single threaded tells the group of its completion")
                for i, o in enumerate(m['own']):
                    if o == e["obj"] or st.equal(o, e["obj"]): m['own'] = m['own'][:i] + m['own'][i + 1:]; break
                if self.op == "activeWait":
                    m['work'] = 'y'; self.ck.obligation(); self.advance(st)
                    i = self.member(st, e["obj"]) if self.par else None
                    if i is not None and st.equal(i, m['hi']): m['hi'] = add(num(m['hi']), 1)
                    if m['pre'] == '0': self.dev(ex, st, "hooks", "pre-missing", "a member is handed out before the pre execution hook of the group")
                else: self.take(ex, st, e["obj"])
                if self.op != "activeWait": self.handle(ex, st, e["obj"], "run")
            elif s == L.slots["oneTaskDone"] and e["obj"] == S(('m', add(a, L.parent), 8), True):
                self.completing(ex, st, "early", "completion told to the enclosing group")
                if m['done'] == '0': self.dev(ex, st, "early", "told-undone", "the enclosing group is told before the group is done")
                inc(m, 'told'); self.note(ex, st, "tells the enclosing group")
        elif kind in ("cas", "rmw", "store", "load") and is_num(e["addr"]):
            o = sub(e["addr"], a)
            if o == L.done and kind == "load" and e["order"] in ACQ and is_num(e["val"]): m['saw'] = (m['saw'] + (e["val"],))[-2:]
            if o == L.done and kind in ("store", "rmw", "cas"):
                v = e["val"] if kind == "store" else e["new"]
                if kind == "cas" and not e["ok"]: return
                self.completing(ex, st, "early", "done flag")
                if st.decide(eq(num(v), 0)) is not False: self.dev(ex, st, "early", "undone", "a group is declared unfinished")
                if e["order"] not in REL: self.dev(ex, st, "early", "done-order", "the done flag of a group is set without publishing what its members wrote")
                inc(m, 'done'); self.note(ex, st, "is done")
            elif o == L.grab and kind == "cas" and e["ok"]: m['claimed'] = 'y'
            elif o == L.grab and kind == "rmw" : m['claimed'] = ('if', eq(e["old"], 0))
            elif isinstance(o, int) and kind == "rmw" and o == self.G["active"]:
                self.ck.obligation()
                d = e["operand"] if e["rop"] == "add" else -e["operand"] if e["rop"] == "sub" and isinstance(e["operand"], int) else None
                self.note(ex, st, "counts %s" % (d,))
                if self.op == "addTask":
                    if d != 1: self.dev(ex, st, "count", "add", "adding a member counts it %s times" % (d,))
                    m['adds'] = add(num(m['adds']), 1)
                elif self.op == "oneTaskDone":
                    if d != -1 or m['lastdec'] is not None: self.dev(ex, st, "count", "dec", "the completion of a member is not counted exactly once")
                    if e["order"] not in ("acq_rel", "seq_cst"): self.dev(ex, st, "early", "count-order", "the completion of a member is counted without publishing what it wrote")
                    m['lastdec'] = e["old"]
                else: self.dev(ex, st, "count", "other", "the number of unfinished members is changed outside of addTask and of the completion of a member")
            elif isinstance(o, int) and kind == "rmw" and o == self.G["index"]:
                self.ck.obligation()
                self.settle(ex, st)
                if e["rop"] != "add" or e["operand"] != 1: self.dev(ex, st, "handout", "draw", "indices are not drawn one by one")
                self.note(ex, st, "draws index %s" % show(e["old"]))
                m['pend'] = (e["old"], "drawn", None); m['exhausted'] = ''
            elif isinstance(o, int) and kind == "store" and o in (self.G["active"], self.G["index"]) and self.op != "ctor":
                self.dev(ex, st, "count" if o == self.G["active"] else "handout", "store", "a counter of the group is overwritten by a plain store")
            elif e["size"] == 1 and not isinstance(o, int):
                for off, nm in ((L.grab, "claimed"), (L.done, "done")):
                    obj = sub(e["addr"], off)
                    if only_sym(obj) is None: continue
                    if self.member(st, obj) is None and self.queued(st, obj) is None: continue
                    if kind == "load":
                        m['exc'] = (m['exc'] + ((obj, e["val"]),))[-4:]
                        p = m['pend']
                        if p is not None and p[1] == "drawn" and self.member(st, obj) is not None and st.equal(self.member(st, obj), p[0]): m['pend'] = (p[0], "drawn", obj)
                    elif kind == "cas" and off == L.grab:
                        i = self.member(st, obj)
                        if e["ok"]: m['own'] = m['own'] + (obj,)
                        else:
                            # somebody else has claimed it: nothing to hand out
                            p = m['pend']
                            if i is not None and p is not None and st.equal(i, p[0]): m['pend'] = (p[0], "out", None)
                            elif i is not None and st.equal(i, m['hi']): m['hi'] = add(num(m['hi']), 1)
                            elif self.queued(st, obj) is not None and m['cur'] is not None and m['cur'][0] == obj: m['cur'] = (obj, 'y')
                    elif kind == "rmw" and off == L.grab: m['own'] = m['own'] + (obj,)
        # a removed member is known once something looks at it
        if not self.par and m.get('front') and kind in ("vcall", "cas", "load", "call"):
            obj = e.get("obj") if kind == "vcall" else None
            if kind in ("cas", "load") and is_num(e["addr"]) and e["size"] == 1: obj = sub(e["addr"], L.grab)
            if kind == "call" and e["name"] == "SchedStub::add": obj = st.read(add(e["args"][-1], L.hptr), 8, True)

    def take(self, ex, st, obj): pass

    def limit(self, ex, st):
        """P09: submitted members plus the one the executing thread runs itself"""
        M = self.G["max"]
        if not self.par or self.op != "execute": return
        if M is None: return
        v = S(('m', add(self.a, M), 4))
        self.ck.obligation()
        if st.decide(ge(0, v)) is True: return
        if st.decide(ge(sub(v, add(num(st.mon['adds']), 1)), 0)) is not True:
            self.dev(ex, st, "limit", "execute", "executing a limited parallel group may hand out more members than its limit allows")

    def completing(self, ex, st, cat, what):
        """something that belongs to the completion of the group happens: is the group complete"""
        m = st.mon
        self.ck.obligation()
        if self.op == "oneTaskDone":
            if self.par:
                d = m['lastdec']
                if d is None or st.decide(eq(d, 1)) is not True: self.dev(ex, st, cat, "not-last:" + what, "%s without the last member having completed" % what)
            else:
                if not self.empty(ex, st) or st.decide(eq(num(m['started']), 0)) is not True: self.dev(ex, st, cat, "not-last:" + what, "%s although members of the sequence remain" % what)
        elif self.op == "executeST":
            c = m['claimed']
            if not c or c != 'y' and st.decide(c[1]) is not True: self.dev(ex, st, cat, "not-owner:" + what, "%s by a thread that does not own the group" % what)
            if self.par:
                n = self.count(st)
                if n is None or not (st.equal(m['hi'], n) or st.decide(eq(n, 0)) is True and m['hi'] == 0): self.dev(ex, st, cat, "not-all:" + what, "%s although some members have not been executed" % what)
            elif not self.empty(ex, st) or m['cur'] is not None and not m['cur'][1]: self.dev(ex, st, cat, "not-all:" + what, "%s although some members have not been executed" % what)
        else: self.dev(ex, st, cat, "where:" + what, "%s outside of the completion of the group" % what)

    def queue(self):
        return add(self.a, self.G["queue"])

    def empty(self, ex, st):
        from models import qsize
        return st.decide(eq(qsize(st, self.queue()), 0)) is True

    def finish(self, ex, st, ret):
        m = st.mon; op = self.op
        self.ck.obligation()
        self.settle(ex, st, True)
        if m['own']: self.dev(ex, st, "handout" if self.par else "seq", "won-dropped", "a member has been claimed but is not executed")
        if not self.par and m['cur'] is not None and not m['cur'][1]: self.dev(ex, st, "seq", "dropped", "a member of a sequence is removed but not started")
        complete = None
        if op == "oneTaskDone":
            if self.par:
                d = m['lastdec']
                if d is None: self.dev(ex, st, "count", "nodec", "the completion of a member is not counted"); return
                complete = st.decide(eq(d, 1))
                if complete is None: self.dev(ex, st, "once", "unlooked", "it is not looked whether the last member has completed")
                if not complete:
                    v = S(('m', add(self.a, self.G["max"]), 4)) if self.G["max"] is not None else 0
                    lim = st.decide(ge(v, 1))
                    n = st.simp(num(m['adds']))
                    if lim is not False:
                        if n != 1 and not m.get('exhausted'): self.dev(ex, st, "limit", "one-more", "the completion of a member of a limited group hands out %s members instead of one" % show(n))
                    if st.decide(ge(1, n)) is not True: self.dev(ex, st, "limit", "too-many", "the completion of a member hands out more than one other")
            else:
                e0 = st.decide(eq(S(('qsize', self.queue(), 0)), 0))
                complete = e0
                n = st.simp(num(m['started']))
                if e0 is None: self.dev(ex, st, "seq", "unlooked", "it is not looked whether members remain")
                if e0 is False and (n != 1 or m['pops'] != '1'): self.dev(ex, st, "seq", "next", "the completion of a member of a sequence starts %s members instead of one" % show(n))
                if e0 is True and n != 0: self.dev(ex, st, "seq", "ghost", "an exhausted sequence starts another member")
        if op == "executeST":
            c = m['claimed']
            complete = bool(c) and (c == 'y' or st.decide(c[1]) is True)
            if complete and m['pre'] != '1': self.dev(ex, st, "hooks", "pre-count", "the pre execution hook of a group is not called exactly once")
            if complete:
                if self.par:
                    n = self.count(st)
                    if n is None or not (st.equal(m['hi'], n) or st.decide(eq(n, 0)) is True): self.dev(ex, st, "handout", "st-all", "the single threaded execution of a group leaves members out")
                elif not self.empty(ex, st): self.dev(ex, st, "seq", "st-all", "the single threaded execution of a sequence leaves members out")
            elif m['work'] or m['pre'] != '0' or m['post'] != '0': self.dev(ex, st, "once", "st-notmine", "a group owned by somebody else is executed")
        if op == "execute":
            complete = False
            if m['pre'] != '1': self.dev(ex, st, "hooks", "pre-count", "the pre execution hook of a group is not called exactly once")
            if self.par:
                v = S(('m', add(self.a, self.G["max"]), 4)) if self.G["max"] is not None else 0
                unl = st.decide(ge(0, v))
                n = self.count(st)
                direct = st.equal(m['hi'], self.G["first"])
                if not direct and not st.equal(m['hi'], n): self.dev(ex, st, "handout", "first", "the members before the first index drawn are not all handed out by the executing thread")
                if unl is not False and not m.get('exhausted') and not st.equal(m['hi'], n):
                    self.dev(ex, st, "handout", "all", "executing an unlimited parallel group does not hand out all its members")
            else:
                if m['pops'] != '1': self.dev(ex, st, "seq", "first", "executing a sequence does not start its first member")
        saw = any(st.decide(eq(num(v), 0)) is False for v in m['saw'])
        if op == "activeWait" and self.par and not saw:
            n = self.count(st); self.advance(st)
            if n is None or not (st.equal(m['hi'], n) or st.decide(eq(n, 0)) is True): self.dev(ex, st, "handout", "aw-all", "actively waiting on a parallel group leaves members out")
        if op in ("wait", "activeWait") and self.waitable and not m['wait'] and not saw:
            self.dev(ex, st, "early", "no-wait", "the wait on a group returns without waiting for its completion")
        if complete is True:
            if m['done'] != '1': self.dev(ex, st, "once", "done", "a completed group does not become done exactly once")
            if self.waitable and m['notify'] != '1': self.dev(ex, st, "once", "notify", "the waiters of a completed group are not released exactly once")
            if m['post'] != '1': self.dev(ex, st, "hooks", "post-count", "the post execution hook of a completed group is not called exactly once")
            if op == "oneTaskDone":
                d = st.decide(eq(S(('m', add(self.a, self.L.parent), 8), True), 0))
                if d is None: self.dev(ex, st, "once", "parent-ignored", "a completed group does not look whether it is a member of another one")
                if d is False and m['told'] != '1': self.dev(ex, st, "once", "parent", "the enclosing group is not told exactly once of the completion of a group")
                if st.decide(eq(st.read(add(self.a, self.L.parent), 8, True), 0)) is not True: self.dev(ex, st, "member", "kept", "a completed group stays bound to the group it was a member of")
            elif m['told'] != '0': self.dev(ex, st, "once", "parent-st", "the enclosing group is told of a completion it has counted itself")
        if complete is False and any(m[k] != '0' for k in ('done', 'notify', 'told', 'post')):
            self.dev(ex, st, "once", "uncomplete", "the completion of a group is signalled although it is not complete")


class SeqMon(GroupMon):
    """sequences: the member removed is the one at the front"""
    def event(self, ex, st, kind, e):
        m = st.mon; L = self.L
        if kind == "loop": self.found(st)
        if kind == "cas" and not e["ok"] and not e["weak"] and is_num(e["addr"]) and e["size"] == 1: m['exc'] = (m['exc'] + ((sub(e["addr"], L.grab), 1),))[-4:]
        if kind == "call":
            n = e["name"]; last = n.split("::")[-1]
            if last in POPS:
                self.found(st)
                if m['front'] and n.startswith("std::"): self.dev(ex, st, "seq", "dropped", "a member of a sequence is removed but not started")
            if (n.startswith("std::queue::") or n.startswith("std::deque::") or n.startswith("std::__cxx11::list::")) and last in POPS:
                from models import qver
                q = e["args"][0]
                # the model has already moved to the next version: the element is recovered when it is used
                m['removed'] = m.get('ver', 0)
            if n.startswith("std::queue::") or n.startswith("std::deque::") or n.startswith("std::__cxx11::list::"):
                from models import qver
                if last not in POPS: m['ver'] = qver(st, e["args"][0])
        GroupMon.event(self, ex, st, kind, e)

    def popped(self, ex, st, q):
        m = st.mon
        GroupMon.popped(self, ex, st, q)

    def handle(self, ex, st, obj, how):
        m = st.mon
        self.ck.obligation(); m['work'] = 'y'
        s = self.queued(st, obj)
        if s is None: self.dev(ex, st, "seq", "foreign", "a sequence hands out something else than one of its members"); return
        d = SYM[s][0]
        if d[1] not in FRONTS: self.dev(ex, st, "seq", "notfront", "a sequence hands out a member that is not at its front")
        if not m.get('front'): self.dev(ex, st, "seq", "notremoved", "a sequence hands out a member without removing it"); return
        if d[3] != m['removed']: self.dev(ex, st, "seq", "otherremoved", "a sequence removes another member than the one it hands out")
        m['front'] = ''; m['cur'] = (obj, 'y'); m['started'] = add(num(m['started']), 1)

    def found(self, st):
        """the member removed last was claimed or finished by somebody else"""
        m = st.mon
        if not m['front']: return
        for o, v in m['exc']:
            s = self.queued(st, o)
            if s is not None and SYM[s][0][1] in FRONTS and SYM[s][0][3] == m['removed'] and st.decide(eq(num(v), 0)) is False:
                m['front'] = ''; m['started'] = add(num(m['started']), 1); return

    def finish(self, ex, st, ret):
        self.found(st)
        if st.mon['front']: self.dev(ex, st, "seq", "dropped", "a member of a sequence is removed but not started")
        GroupMon.finish(self, ex, st, ret)

    def init(self, st):
        GroupMon.init(self, st)
        st.mon['ver'] = 0; st.mon['removed'] = None; st.mon['front'] = ''


def facts_of(ck, mod, kind):
    """where a kind of group keeps its state, found from its operations"""
    scr = ck.scratch()
    G = dict(active=None, index=None, max=None, vecoff=None, queue=None, first=None, event=None)
    a0 = lambda r: S(('arg', 0, r), True)

    class Probe(Mon):
        def __init__(self): self.models = dict(EVENT); self.rm = []; self.calls = []; self.fin = []
        def event(self, ex, st, k, e):
            if k == "rmw": self.rm.append((sub(e["addr"], a0(self.root)), e))
            if k == "call": self.calls.append(e)
            if k == "vcall" and e["slot"] is not None: self.calls.append(e)
        def finish(self, ex, st, ret): self.fin.append(st)
    def run(op):
        p = Probe(); scr.explore(mod, "r_%s_%s" % (kind, op), p); return p
    p = run("addTask")
    for o, e in p.rm:
        if isinstance(o, int): G["active"] = o
    for e in p.calls:
        n = e.get("name", ""); last = n.split("::")[-1]
        if n.startswith("std::vector::") and last in ("push_back", "emplace_back", "insert", "emplace"): G["vecoff"] = sub(e["args"][0], a0("r_%s_addTask" % kind))
        if last in ("push", "emplace", "push_back", "emplace_back") and (n.startswith("std::queue::") or n.startswith("std::deque::") or n.startswith("std::__cxx11::list::")): G["queue"] = sub(e["args"][0], a0("r_%s_addTask" % kind))
    p = run("oneTaskDone")
    for e in p.calls:
        if is_event(e.get("name", ""), "notify"): G["event"] = sub(e["args"][0], a0("r_%s_oneTaskDone" % kind))
    if kind in PAR:
        p = run("execute")
        for o, e in p.rm:
            if isinstance(o, int) and o != G["active"]: G["index"] = o
        p = run("ctor")
        r = "r_%s_ctor" % kind
        for st in p.fin:
            c = st.mem.get(only_sym(a0(r)), {})
            for o, e in c.items():
                if e[1] == S(('arg', 5, r)): G["max"] = o
            if G["index"] is not None and G["index"] in c: G["first"] = c[G["index"]][1]
            if G["active"] is not None and G["active"] in c: G["active0"] = c[G["active"]][1]
    return G


def job_group(ck, ndebug, kind, op, cats):
    mod = ck.mod(TU, ndebug)
    G = facts_of(ck, mod, kind)
    if kind in PAR:
        if G["vecoff"] is None: raise Incomplete("%s: where the members are kept was not recognised" % kind)
        if G["active"] is None and "count" in cats: ck.violation((kind, "count", "none"), "%s: adding a member does not count it by an indivisible step [%s]" % (kind, mod.label))
        if G.get("active0") != 0 and "count" in cats: ck.violation((kind, "count", "initial"), "%s: the number of unfinished members does not start at zero [%s]" % (kind, mod.label))
        if G["max"] is None and "limit" in cats: ck.violation((kind, "limit", "ignored"), "%s: the limit given at creation is not kept [%s]" % (kind, mod.label))
        if "handout" in cats:
            if G["index"] is not None and not isinstance(G["first"], int): ck.violation((kind, "handout", "initial"), "%s: the first index to draw is not initialised [%s]" % (kind, mod.label))
    elif G["queue"] is None: raise Incomplete("%s: where the members are kept was not recognised" % kind)
    rule = (GroupMon if kind in PAR else SeqMon)(ck, mod, cats, G)
    ck.explore(mod, "r_%s_%s" % (kind, op), rule)


def jobs(nd, kinds, ops, cats):
    return [("%s %s" % (k, o), job_group, (nd, k, o, cats)) for k in kinds for o in ops]


OPS = ("execute", "executeST", "oneTaskDone", "wait", "activeWait", "setParent", "addTask")
def jobs_p04(nd): return jobs(nd, GROUPS, OPS, ("early",))
def jobs_p05(nd): return jobs(nd, GROUPS, OPS, ("once", "count"))


def run_P07(ck):
    ck.rule_text = ("executing a sequence removes exactly the member at its front and starts it, if it could claim it, exactly once; the completion of a member removes exactly the front member and submits it once if members "
                    "remain, and completes the sequence otherwise; single threaded execution removes and executes front members until none remains; members are appended at the back")
    ck.explanation = "abstract interpretation of every operation of a sequence, the queue abstracted by its version and its emptiness"
    build_both(ck)
    j = []
    for nd in CONFIGS:
        j += jobs(nd, SEQ, ("execute", "executeST", "oneTaskDone"), ("seq", "once"))
        j += [("%s add" % k, job_add, (nd, k, ("order", "container"))) for k in SEQ]
    ck.parts(j)


def run_P08(ck):
    ck.rule_text = ("executing a parallel group: every index drawn (one atomic increment each, starting where the directly handled members end) is handed out exactly once unless its member is already claimed or done, "
                    "indices are drawn until the number of members is reached (unlimited groups), the members before are claimed and executed; members are counted once when added and once when completed; the "
                    "completion of the group is reached exactly when the counter drops from one; actively waiting on the group offers every one of its members for execution")
    ck.explanation = "abstract interpretation of every operation of a parallel group with invariants on its loops; hand-out obligations are attached to each drawn index"
    build_both(ck)
    j = []
    for nd in CONFIGS:
        j += jobs(nd, PAR, ("execute", "executeST", "oneTaskDone", "activeWait"), ("handout", "count", "once"))
        j += [("%s add" % k, job_add, (nd, k, ("container", "count"))) for k in PAR]
    ck.parts(j)


def run_P09(ck):
    ck.rule_text = ("with a limit N > 0, executing the group submits at most N-1 members besides the one executed directly (loop invariant relating the number submitted and the limit); each completion of a member submits exactly one "
                    "other, or none if indices are exhausted")
    ck.explanation = "abstract interpretation with a counter of the submissions of each call related to the limit by the loop's own facts"
    build_both(ck)
    j = []
    for nd in CONFIGS: j += jobs(nd, PAR, ("execute", "oneTaskDone"), ("limit",))
    ck.parts(j)


# ---- membership ---------------------------------------------------------------------------------------------------------
class AddMon(Mon):
    """adding a task to a group"""
    def __init__(self, ck, mod, kind, G, cats): self.models = dict(EVENT); self.L = layout(ck, mod); self.ck = ck; self.kind = kind; self.G = G; self.cats = cats
    def dev(self, ex, st, cat, key, msg):
        if cat in self.cats: self.bad(ex, st, (cat, key), msg)
    def init(self, st): st.mon['kept'] = st.mon['cnt'] = '0'; st.mon['hook'] = st.mon['hooked'] = ''
    def task(self): return S(('m', add(S(('arg', 1, self.root), True), self.L.hptr), 8), True)
    def bound(self, st): return st.read(add(self.task(), self.L.parent), 8, True)
    def event(self, ex, st, kind, e):
        a = S(('arg', 0, self.root), True)
        if kind == "call":
            n = e["name"]; last = n.split("::")[-1]
            cont = n.startswith("std::vector::") or n.startswith("std::queue::") or n.startswith("std::deque::") or n.startswith("std::__cxx11::list::")
            if cont and last in ("push", "emplace", "push_back", "emplace_back", "insert", "push_front", "emplace_front", "resize", "clear", "pop", "pop_back", "pop_front", "erase"):
                self.ck.obligation(); self.note(ex, st, "keeps the task: " + last)
                if last not in ("push", "emplace", "push_back", "emplace_back"): self.dev(ex, st, "order", "append", "a task added to a group is not appended at the end"); return
                h = st.read(add(e["args"][1], self.L.hptr), 8, True) if len(e["args"]) > 1 else None
                if h is None or not st.equal(h, self.task()): self.dev(ex, st, "container", "other", "another task than the one given is added to the group")
                if not st.equal(self.bound(st), a): self.dev(ex, st, "member", "late", "a task is kept by a group before it is bound to it")
                inc(st.mon, 'kept')
            if n == "GC::onTaskAdded": st.mon['hooked'] = 'y'
        elif kind == "rmw" and sub(e["addr"], a) == self.G["active"] and self.G["active"] is not None:
            inc(st.mon, 'cnt')
        elif kind == "vcall" and st.equal(e["obj"], self.task()): st.mon['hook'] = 'y'
    def finish(self, ex, st, ret):
        self.ck.obligation()
        t = self.task(); a = S(('arg', 0, self.root), True)
        valid = st.decide(NOT(eq(t, 0)))
        old = S(('m', add(t, self.L.parent), 8), True)
        free = st.decide(eq(old, 0))
        k, c = st.mon['kept'], st.mon['cnt']
        if valid is False:
            if k != '0' or c != '0': self.dev(ex, st, "member", "invalid", "an invalid task is added to a group")
            return
        if valid is None:
            self.dev(ex, st, "member", "unchecked", "it is not looked whether the task added is valid"); return
        if free is False:
            if not self.mod.ndebug and (k != '0' or c != '0' or st.equal(self.bound(st), a)): self.dev(ex, st, "member", "bound", "a task bound to a group already is added to another one")
            return
        if free is None and not self.mod.ndebug: self.dev(ex, st, "member", "bound", "it is not looked whether the task is bound to a group already")
        if k != '1': self.dev(ex, st, "container", "kept", "a task added to a group is not kept exactly once")
        if self.G["active"] is not None and c != '1': self.dev(ex, st, "count", "counted", "a task added to a group is not counted exactly once")
        if not st.equal(self.bound(st), a): self.dev(ex, st, "member", "unbound", "a task added to a group is not bound to it")
        if not st.mon['hook']: self.dev(ex, st, "member", "silent", "a task is not told that it was added to a group")


def job_add(ck, ndebug, kind, cats):
    mod = ck.mod(TU, ndebug)
    ck.explore(mod, "r_%s_addTask" % kind, AddMon(ck, mod, kind, facts_of(ck, mod, kind), cats))


class Bind(Mon):
    """setParentGroup binds the task to the group given and tells it"""
    def __init__(self, ck, mod): self.models = dict(EVENT); self.L = layout(ck, mod); self.ck = ck
    def finish(self, ex, st, ret):
        self.ck.obligation()
        a = S(('arg', 0, self.root), True); g = S(('m', S(('arg', 1, self.root), True), 8), True)
        if not st.equal(st.read(add(a, self.L.parent), 8, True), g): self.bad(ex, st, ("bind",), "a task is not bound to the group it is given")


class Unbind(Mon):
    """a completed task is no longer bound"""
    def __init__(self, ck, mod): self.models = dict(EVENT); self.L = layout(ck, mod); self.ck = ck
    def init(self, st): st.mon['told'] = 0; st.mon['early'] = 0
    def event(self, ex, st, kind, e):
        a = S(('arg', 0, self.root), True)
        if kind == "vcall" and e["slot"] == self.L.slots["oneTaskDone"]: st.mon['told'] = 1
    def finish(self, ex, st, ret):
        self.ck.obligation()
        a = S(('arg', 0, self.root), True)
        if st.mon['told'] and st.decide(eq(st.read(add(a, self.L.parent), 8, True), 0)) is not True:
            self.bad(ex, st, ("unbind",), "a task stays bound to its group after having told it of its completion")


def job_bind(ck, nd, root):
    mod = ck.mod(TU, nd); ck.explore(mod, root, (Bind if root.endswith("setParent") else Unbind)(ck, mod))


def run_P10(ck):
    from tasks import TASKS
    ck.rule_text = ("addTask: on the path of a valid unbound task, it is bound to this very group, then kept once at the end of the members, counted once and told; on the paths of an invalid or (checks enabled) bound task nothing changes; "
                    "after the group has been told of a completion the binding of the member is empty")
    ck.explanation = "abstract interpretation of addTask, setParentGroup and of the completion of every kind of task and group; the binding is read back from the abstract store at the end of each path"
    build_both(ck)
    j = []
    for nd in CONFIGS:
        j += [("%s add" % k, job_add, (nd, k, ("member", "container", "count"))) for k in GROUPS]
        j += [(r, job_bind, (nd, r)) for r in ["r_%s_%s" % (t, o) for t in TASKS + GROUPS for o in ("setParent",)] + ["r_%s_%s" % (t, o) for t in TASKS for o in ("execute", "activeWait")]]
        j += jobs(nd, GROUPS, ("oneTaskDone",), ("member",))
    ck.parts(j)
