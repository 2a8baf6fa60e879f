"""Short exact histories of a channel: no abstraction of its buffers, messages stay distinct.

Every history of up to DEPTH operations (with a small literal buffer limit) is interpreted; after each of them the
receivers are drained on a copy of the abstract state.  What they then yield must be exactly what was accepted and
not dropped, in order, and afterwards no object of the library may hold on to a message.  This decides the same
promises as the general scenario for code whose buffers the general scenario cannot tell apart.
"""
from __future__ import annotations

from .chan import AnycastScn, BroadcastScn, _guard
from .state import reach
from .values import NONE, TRUE, Exc, K, Ref, Tok


class History:
    depth = 5
    maxstates = 3000
    spare = False  # another receiver, created first

    def hops(self, st):
        out = [("send", "S1"), ("close", "ch")]
        for k in self.receivers(st):
            out += [("ready", k), ("consume", k)]
        return out

    def h_susp(self, st, aw, node):
        """A blocked send: it is cancelled, or the channel is closed, or a receiver makes room."""
        if self.hop[0] != "send" or self.hblock or "R1" not in st.roots:
            return []
        if aw.kind not in ("cv", "cvwait", "wait", "evwait", "fut", "sleep"):
            st.note(f"suspends on {aw.kind}")
        hop, fn = self.hop, self.fnname
        out = []
        c = st.clone()
        e = self.I.mkexc(c, "asyncio.exceptions.CancelledError")
        c.note("cancelled here")
        out.append((c, Exc(e)))
        for ops in ((("close", "ch"),), (("ready", "R1"), ("consume", "R1"))):
            if any(o[1] not in st.roots for o in ops):
                continue
            cur = [st.clone()]
            for op in ops:
                nxt = []
                for s in cur:
                    for z, v in self.segment(s, lambda x, op=op: self.hrun(x, op)):
                        if v != "suspended":
                            self.happly(z, op, v)
                            nxt.append(z)
                cur = nxt
            for s in cur:
                s.note("meanwhile: " + ", ".join(f"{o[0]}({o[1]})" for o in ops))
                self.hblock, saved = True, self.hblock
                out.append((s, NONE))
        self.hop, self.fnname = hop, fn
        return out

    def hrun(self, st, op):
        self.hop = op
        kind, who = op
        if kind == "send":
            m = Tok("msg", st.fresh("m"))
            st.mon["hm"] = m
            return self.invoke(st, st.roots[who], "send", [m])
        ref = st.roots["ch"] if kind == "close" else st.roots[who]
        return self.invoke(st, ref, kind)

    def step(self, st, op):
        """[(state, outcome)] of one whole operation."""
        self.hblock = False
        self.fnname = self.method_key(st, st.roots["ch" if op[0] == "close" else op[1]], op[0])
        self.susp = self.h_susp
        s = st.clone()
        out = []
        for e, v in self.hrun(s, op):
            e.frames, e.hand, e.heads = st.frames, (), frozenset()
            self.hop = op
            self.happly(e, op, v)
            out.append((e, v))
        self.susp = None
        return out

    def happly(self, e, op, v):
        """What the operation means for the expected deliveries."""
        kind, who = op
        if kind == "send":
            m = e.mon.pop("hm")
            if not isinstance(v, Exc):
                self.accept(e, m)
        elif kind == "consume" and isinstance(v, Tok):
            self.deliver(e, who, v)
        elif kind == "close" and not isinstance(v, Exc):
            e.mon["hclosed"] = True

    def drained(self, st):
        """States in which every receiver was read until it has nothing left."""
        cur = [st]
        for k in self.receivers(st):
            for _ in range(8):
                nxt, more = [], False
                for s in cur:
                    empty = []

                    def susp(z, aw, node):
                        z = z.clone()
                        z.frames, z.hand, z.heads = st.frames, (), frozenset()
                        empty.append(z)
                        return []
                    self.susp = susp
                    for z, v in self.invoke(s.clone(), s.roots[k], "ready"):
                        if v != TRUE:
                            nxt.append(z)
                            continue
                        for y, w in self.invoke(z, z.roots[k], "consume"):
                            if isinstance(w, Tok):
                                self.deliver(y, k, w)
                                more = True
                            nxt.append(y)
                    nxt += empty
                    self.susp = None
                cur = nxt
                if not more:
                    break
        return cur

    def history(self):
        name, self.name = self.name, self.name + " histories"
        work, seen, n = [], set(), 0
        for s in self.initial_states():
            s.mon.update(hclosed=False, exp={k: () for k in self.receivers(s)} and tuple(
                (k, ()) for k in self.receivers(s)))
            work.append((s, 0))
        total = 0
        while work:
            st, d = work.pop(0)
            n += 1
            if n > self.maxstates:
                break
            self.hcheck(st)
            if d == self.depth:
                continue
            for op in self.hops(st):
                for e, v in self.step(st, op):
                    e = self.gc(e)
                    k = self.I.key(e)
                    if k not in seen:
                        seen.add(k)
                        e.note(f"then {op[0]}({op[1]})")
                        work.append((e, d + 1))
                    total += 1
        self.rep.states[self.name] = n
        if not total:
            self.rep.vacuous.append(self.name)
        self.name = name

    def hcheck(self, st):
        st = st.clone()
        for z in self.drained(st.clone()):
            self.fnname = self.cls(self.chan_cls).key if hasattr(self.cls(self.chan_cls), "key") else self.chan_cls
            self.need(not self.missing(z), z, self.delivery, "history-complete",
                      "messages that were accepted are never delivered")
            ok = self.hlatest(z)
            held = [t for t in self.held_msgs(z, [v for v in z.roots.values()]) if t not in ok]
            self.need(not held or "E" in st.roots, z, "C35", "message-retained",
                      "a message stays referenced after all messages were received")
        self.orphan(st)
        if st.mon["hclosed"]:
            self.again(st)

    def again(self, st):
        """close() of a closed channel."""
        for e, v in self.step(st, ("close", "ch")):
            fn = self.fnname = self.method_key(e, e.roots["ch"], "close")
            if not self.need(not isinstance(v, Exc), e, "C39 C05", "repeat-raises",
                             f"closing a closed channel raises {self.exc_name(e, v)}"):
                continue
            for z in self.drained(e.clone()):
                self.fnname = fn
                self.need(not self.missing(z), z, "C39 C05", "repeat-changes",
                          "closing a closed channel loses pending messages")
            for z, w in self.step(e, ("send", "S1")):
                self.fnname = fn
                self.need(self.is_exc(z, w, "SenderError"), z, "C39 C04", "repeat-changes",
                          f"after a channel was closed again send() ends as {self.exc_name(z, w)}")
            for k in self.receivers(e):
                self.fnname = fn
                self.need(self.outlook(st, e.roots[k]) == self.outlook(e, e.roots[k]), e, "C39", "repeat-changes",
                          "closing a closed channel changes what a receiver reports")

    def orphan(self, st):
        """The user keeps the ends only, or drops an end it no longer needs: the others go on as before."""
        if st.mon["hclosed"]:
            return
        if "E" in st.roots:
            self.goes_on(st, ["E"], "an older receiver is dropped")
            return
        self.goes_on(st, ["ch"], "only the ends of the channel are kept")
        for z in self.collected(st, ["ch", "S1"]):
            z.note("now only the receivers are kept")
            for y in self.drained(z):
                self.fnname = self.method_key(y, y.roots["R1"], "ready")
                self.need(not self.missing(y), y, "C36", "ends-suffice",
                          "pending messages are lost when only the receivers are kept")
        for z in self.collected(st, ["ch", *self.receivers(st)]):
            z.note("now only the sender is kept")
            for x, v in self.step(z, ("send", "S1")):
                self.fnname = self.method_key(x, x.roots["S1"], "send")
                self.need(not isinstance(v, Exc), x, "C36", "ends-suffice",
                          f"send() raises {self.exc_name(x, v)} when only the sender is kept")
        for m, what in (("new_sender", "another sender is dropped"), ("new_receiver", "another receiver is dropped")):
            self.hop = (m, "ch")
            for s, v in self.invoke(st.clone(), st.roots["ch"], m):
                if isinstance(v, Ref):
                    s.frames, s.hand, s.heads = st.frames, (), frozenset()
                    s.roots["extra"] = v
                    self.goes_on(s, ["extra"], what)
        for k in ("S1", "R1"):
            for s in self.collected(st, [k]):
                s.note(f"now {k} is dropped")
                self.hlate(s, "a sender" if k == "S1" else "a receiver")

    def collected(self, st, names):
        """[state] after the user dropped these references and what only they kept alive was collected."""
        st = st.clone()
        vals = [st.roots.pop(k) for k in names]
        alive = reach(st, self.roots_of(st))
        gone = [i for i in reach(st, [*vals, *self.roots_of(st)], weak=True)
                if i not in alive and st.heap[i].kind == "inst"]
        cur = [st]
        for i in gone:
            m = self.I.find_method(st.heap[i].cls, "__del__") if hasattr(st.heap[i], "cls") else None
            if m and m[1] is not None:
                cur = [y for z in cur for y, _ in self.invoke(z, Ref(i), "__del__")]
        for i in gone:
            for z in cur:
                z.w(Ref(i)).x["dead"] = TRUE
            for oid, o in list(st.heap.items()):
                if o.kind == "wref" and o.f.get("target") == Ref(i) and o.f.get("cb", NONE) != NONE:
                    cur = [y for z in cur for y, _ in self.callv(z, o.f["cb"], [Ref(oid)])]
        return cur

    def goes_on(self, st, names, when):
        for z in self.collected(st, names):
            z.note(f"now {when}")
            for y in self.drained(z):
                self.fnname = self.method_key(y, y.roots["S1"], "send")
                self.need(not self.missing(y), y, "C36", "ends-suffice", f"pending messages are lost when {when}")
                for x, v in self.step(y, ("send", "S1")):
                    if not self.need(not isinstance(v, Exc), x, "C36", "ends-suffice",
                                     f"send() raises {self.exc_name(x, v)} when {when}"):
                        continue
                    for w in self.drained(x):
                        self.need(not self.missing(w), w, "C36", "ends-suffice", f"a message is lost when {when}")

    def hlate(self, st, what):
        """A receiver created after an end was dropped."""

    def missing(self, st):
        return [m for _, ms in st.mon["exp"] for m in ms]

    def hlatest(self, st):
        return ()


class AnycastHistory(History, AnycastScn):
    def __init__(self, prog, rep, limit):
        super().__init__(prog, rep)
        self.lim = K(limit)
        self.name = f"anycast(limit={limit})"

    def initial_states(self):
        sts = []
        for s, ch in self.new_chan(self.base.clone(), name=Tok("str", "name"), limit=self.lim):
            s.roots["ch"] = ch
            s.mon["closed"] = False
            sts.append(s)
        sts = self.actor(sts, "S1", "new_sender")
        if self.spare:
            sts = self.actor(sts, "E", "new_receiver")
        for k in ("R1", "R2")[:self.nrecv]:
            sts = self.actor(sts, k, "new_receiver")
        return sts

    nrecv = 2

    def accept(self, e, m):
        e.mon["exp"] = tuple((k, ms + (m,)) if k == "R1" else (k, ms) for k, ms in e.mon["exp"])

    def deliver(self, e, k, m):
        ms = dict(e.mon["exp"])["R1"]
        self.need(m in ms, e, "C01 C02", "history-once",
                  "a message is delivered that was not accepted, or is delivered again")
        e.mon["exp"] = tuple((q, tuple(x for x in v if x != m)) for q, v in e.mon["exp"])


class BroadcastHistory(History, BroadcastScn):
    def __init__(self, prog, rep, resend, limit):
        BroadcastScn.__init__(self, prog, rep, resend)
        self.hlim = limit
        self.name = f"broadcast(resend_latest={resend}, limits {limit})"

    def limit_of(self, k):
        return K(self.hlim[int(k[1]) - 1])

    def initial_states(self):
        sts = []
        for st, ch in self.new_chan(self.base.clone(), name=Tok("str", "name"), resend_latest=K(self.resend)):
            st.roots["ch"] = ch
            st.mon.update(closed=False, latest=NONE)
            sts.append(st)
        sts = self.actor(sts, "S1", "new_sender")
        if self.spare:
            sts = self.actor(sts, "E", "new_receiver", limit=K(1))
        for i, n in enumerate(self.hlim):
            sts = self.actor(sts, f"R{i + 1}", "new_receiver", limit=K(n))
        return sts

    def accept(self, e, m):
        e.mon["exp"] = tuple((k, (ms + (m,))[-self.hlim[int(k[1]) - 1]:]) for k, ms in e.mon["exp"])
        e.mon["latest"] = m

    def deliver(self, e, k, m):
        ms = dict(e.mon["exp"])[k]
        self.need(bool(ms) and m == ms[0], e, "C06 C07", "history-order",
                  "a receiver does not get the next of the newest messages its buffer can hold")
        e.mon["exp"] = tuple((q, tuple(x for x in v if x != m) if q == k else v) for q, v in e.mon["exp"])

    def hlate(self, st, what):
        if not self.resend or st.mon["latest"] == NONE:
            return
        for s, v in self.invoke(st, st.roots["ch"], "new_receiver"):
            if not isinstance(v, Ref):
                continue
            s.frames, s.hand, s.heads = st.frames, (), frozenset()
            s.roots["R9"] = v
            s.mon["exp"] = tuple((k, m) for k, m in s.mon["exp"] if k in s.roots) + (("R9", (s.mon["latest"],)),)
            for z in self.drained(s):
                self.fnname = self.method_key(z, z.roots["R9"], "ready")
                self.need(not dict(z.mon["exp"])["R9"], z, "C08", "late-after-drop",
                          f"a late receiver misses the latest message because {what} was dropped")

    def hlatest(self, st):
        return () if st.mon["hclosed"] else (st.mon["latest"],)


def run_anycast(prog, rep, tier):
    cases = ((1, 2, 8), (2, 1, 9), (2, 2, 7)) if tier != "thorough" else ((1, 2, 14), (2, 2, 14), (3, 2, 14))
    for lim, n, d, e in [(*c, False) for c in cases] + [(2, 1, 3, True)]:
        s = AnycastHistory(prog, rep, lim)
        s.nrecv, s.depth, s.spare = n, d, e
        if e:
            s.name += " with a third receiver"
        _guard(rep, s, s.history)


def run_broadcast(prog, rep, tier):
    cases = ((False, (1, 2), 8), (True, (2,), 8)) if tier != "thorough" else (
            (False, (1, 3), 12), (True, (2, 2), 12), (True, (3,), 14))
    for resend, lims, d, e in [(*c, False) for c in cases] + [(True, (2, 2), 3, True)]:
        s = BroadcastHistory(prog, rep, resend, lims)
        s.depth, s.spare = d, e
        if e:
            s.name += " with a third receiver"
        _guard(rep, s, s.history)
