"""Channel scenarios: Anycast and Broadcast under arbitrary histories and interference.

The reachable abstract states (message queues abstracted to empty / run of unknown length) are closed under
every public operation of every actor; each operation is then interpreted from each of them, with every
sequence of other tasks' atomic segments and a cancellation applied at each of its suspensions.
"""
from __future__ import annotations

from .interp import Gap
from .scn import NODE, Scn, held_in, msg_holder, seqdiff, strip
from .state import Seg, reach, toks_in
from .values import (FALSE, NONE, TRUE, V, Aw, ClsV, Exc, K, Num, Ref, Tok, Top, Tup, add_fact, entails_ge, iatom,
                     tonum)
from .models import c_len, mat, num_eq0, nexp

MAXSTATES = 4000


class ChanScn(Scn):
    chan_cls = None
    shared = True          # one queue for the channel (Anycast) or one per receiver (Broadcast)

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.cvkinds, self.cvnotify = {}, set()
        self.op = None
        self.lim = iatom("limit")

    # ---- construction -----------------------------------------------------------------------------
    def new_chan(self, st, **kw):
        c = self.glob(st, self.chan_cls)
        if not isinstance(c, ClsV):
            raise Gap(f"{self.chan_cls} not found")
        self.fnname = f"{c.cls.mod.rel}:{c.cls.qual}.__init__"
        return self.norms(self.callv(st, c, [], kw), "constructor", f"{c.cls.mod.rel}:{c.cls.qual}")

    def norms(self, res, what, fn):
        """The normal outcomes; there is no input for which this may fail."""
        for s, v in res:
            self.need(not isinstance(v, Exc), s, "C28", "creation-raises", f"{what} raises {self.exc_name(s, v)}", fn)
        res = [(s, v) for s, v in res if not isinstance(v, Exc)]
        if not res:
            raise Gap(f"{self.name}: {what}: no normal outcome")
        return res

    def actor(self, sts, key, meth, **kw):
        out = []
        for st in sts:
            for s, v in self.norms(self.invoke(st, st.roots["ch"], meth, (), kw), meth,
                                   self.method_key(st, st.roots["ch"], meth)):
                s.roots[key] = v
                out.append(s)
        return out

    def receivers(self, st):
        return [k for k in sorted(st.roots) if k.startswith("R")]

    # ---- observation of message storage -----------------------------------------------------------
    def places(self, st):
        """(shared queue oid or None, {receiver: [queue oids]}, {receiver: field tokens}, channel tokens)"""
        ch = st.roots["ch"]
        rk = self.receivers(st)
        roids = [st.roots[k].oid for k in rk]
        cre = reach(st, [ch], stop=roids)
        rre = {k: reach(st, [st.roots[k]], stop=[ch.oid] + [o for o in roids if o != st.roots[k].oid]) for k in rk}
        conts = self.containers(st, set().union(cre, *rre.values()))
        q, priv = [], {k: [] for k in rk}
        for c in conts:
            own = [k for k in rk if c in rre[k]]
            if self.shared and c in cre or not own:
                q.append(c)
            elif len(own) == 1:
                priv[own[0]].append(c)
            else:
                q.append(c)
        if len(q) > 1:
            raise Gap("messages of one channel in several containers")
        fld, chf = {k: [] for k in rk}, []
        for i in sorted(set().union(cre, *rre.values())):
            o = st.heap[i]
            if o.kind in ("task", "wref") or i in conts:
                continue
            ts = [t for n, v in o.f.items() for t in toks_in(v)]
            if not ts:
                continue
            own = [k for k in rk if i in rre[k]]
            if i in cre and not (len(own) == 1 and not self.shared):
                chf += ts
            elif len(own) == 1:
                fld[own[0]] += ts
            else:
                chf += ts
        return (q[0] if q else None), priv, fld, chf

    def snap(self, st):
        q, priv, fld, chf = self.places(st)
        qs = strip(st.heap[q].items) if q else ()
        ps = []
        for k in sorted(priv):
            if len(priv[k]) > 1:
                raise Gap("messages of one receiver in several containers")
            items = tuple(fld[k])
            for c in priv[k]:
                items += strip(st.heap[c].items)
            ps.append((k, items))
        return (qs, tuple(ps), tuple(chf))

    def norm(self, st):
        """[st']: message queues forget their exact content, apart from being empty or not."""
        q, priv, _, _ = self.places(st)
        todo = ([(q, self.lim)] if q else []) + [
            (c, self.plimit(st, k)) for k in sorted(priv) for c in priv[k]
            # a place that holds the message of one receive stays exact
            if not self.shared or len(st.heap[c].items) > 2 or any(isinstance(x, Seg) for x in st.heap[c].items)]
        cur = [st]
        for c, lim in todo:
            nxt = []
            for s in cur:
                it = s.heap[c].items
                if it and all(isinstance(x, Seg) and not x.lo for x in it):  # may have become empty
                    nxt += [z for z, _ in mat(self.I, s, Ref(c))]
                else:
                    nxt.append(s)
            for s in nxt:
                self.normalise(s, [c], lim)
            cur = nxt
        for s in cur:
            self.prune(s)
        return cur

    def plimit(self, st, k):
        return None

    def pending(self, sn, r):
        """Messages available to receiver r, in order."""
        qs, ps, _ = sn
        return tuple(dict(ps)[r]) + (tuple(qs) if self.shared else ())

    # ---- operations -------------------------------------------------------------------------------
    def run(self, st, op):
        kind, who = op
        if kind == "send":
            m = Tok("msg", st.fresh("m"))
            st.mon["m"] = m
            return self.invoke(st, st.roots[who], "send", [m])
        if kind in ("ready", "consume", "receive", "__anext__"):
            return self.invoke(st, st.roots[who], kind)
        if kind == "close":
            return self.invoke(st, st.roots["ch"], "close")
        if kind in ("new_receiver", "new_sender"):
            return self.invoke(st, st.roots["ch"], kind)
        raise AssertionError(kind)

    def after(self, st, op):
        st.mon.pop("m", None)
        if op[0] == "close":
            st.mon["closed"] = True
        return st

    def other_ops(self, st, me):
        out = [("send", "S2"), ("close", "ch")]
        for k in self.receivers(st):
            if k not in (me, "R3"):
                out += [("ready", k), ("consume", k)]
        return out

    def interference(self, st, me):
        """States reachable by any sequence of atomic segments of other tasks (st included)."""
        out = self.norm(st)
        seen, work = {self.I.key(s) for s in out}, list(out)
        while work:
            a = work.pop()
            for op in self.other_ops(a, me):
                for s, _ in self.segment(a, lambda x, op=op: self.run(x, op)):
                    keep = a.mon.get("m")
                    self.after(s, op)
                    if keep is not None:
                        s.mon["m"] = keep
                    for s in self.norm(s):
                        if not s.frames:
                            s = self.gc(s)
                        k = self.I.key(s)
                        if k not in seen:
                            seen.add(k)
                            s.note(f"meanwhile: {op[0]}({op[1]})")
                            out.append(s)
                            work.append(s)
                            if len(out) > MAXSTATES:
                                raise Gap("too many states under interference")
        return out

    # ---- monitored execution ----------------------------------------------------------------------
    def begin(self, st, op):
        st.mon.update(seg0=self.snap(st), tot=((), (), ()), nsusp=0, cancel=None,
                      closed0=st.mon["closed"])
        self.op = op
        ref = st.roots[op[1]]
        self.fnname = self.method_key(st, ref, op[0])
        return st

    def seg_end(self, st, node=None):
        """End of an atomic segment of the monitored task: compare the message queues with its start."""
        kind, who = self.op
        a, b = st.mon["seg0"], self.snap(st)
        qd = seqdiff(a[0], b[0])
        tq, ta, tp = st.mon["tot"]
        if qd is None:
            self.bad(st, "C01" if self.shared else "C06", "queue-corrupted",
                     f"{kind} reorders, duplicates or drops queued messages: {a[0]} -> {b[0]}")
            qd = ((), ())
        pd = dict((k, (p, q)) for k, p, q in tp)
        bp = dict(b[1])
        for k, p0 in a[1]:
            d = seqdiff(p0, bp.get(k, ()))
            if d is None:
                self.bad(st, "C01" if self.shared else "C06 C07", "queue-corrupted",
                         f"{kind} reorders, duplicates or drops messages pending for a receiver: "
                         f"{p0} -> {bp.get(k)}")
                d = ((), ())
            x, y = pd.get(k, ((), ()))
            pd[k] = (x + d[0], y + d[1])
        st.mon["tot"] = (tq + qd[0], ta + qd[1], tuple((k, *v) for k, v in sorted(pd.items())))
        if kind == "close" and not st.mon["closed"]:
            st.mon["closed"] = True
            self.check_closed_attr(st)
        self.seg_check(st, a, b, qd, pd)

    def seg_check(self, st, a, b, qd, pd):
        pass

    def check_closed_attr(self, st):
        fn = self.fnname
        for s, v in self.getp(st.clone(), st.roots["ch"], "is_closed"):
            self.need(v == K(bool(st.mon["closed"])), s, "C05 C34", "is-closed",
                      f"is_closed is {v!r} {'after' if st.mon['closed'] else 'before'} close()",
                      self.method_key(s, s.roots["ch"], "is_closed"))
        self.fnname = fn

    def locks_free(self, st, aw, node):
        for i in reach(st, [v for k, v in st.roots.items()]):
            o = st.heap[i]
            if o.kind == "lock" and o.x.get("held") == TRUE:
                self.bad(st, "C03", "lock-across-await",
                         "an internal lock is held while the task is suspended", node=node)
                return
        for p in ("C03",):
            self.rep.ok(p, "no-lock-across-await")

    def m_susp(self, st, aw, node):
        st.note(f"suspends at {self.I.where(node)}")
        if st.mon["cancel"] is not None:
            st.note("suspends again after being cancelled")
        self.seg_end(st, node)
        self.locks_free(st, aw, node)
        self.at_suspend(st, aw, node)
        st.mon["nsusp"] = 1
        out = []
        op, fn = self.op, self.fnname
        for s in self.interference(st, self.op[1]):
            self.op, self.fnname = op, fn
            s.mon["seg0"] = self.snap(s)
            s.mon["closed0"] = s.mon["closed"]
            if s.mon["cancel"] is None:
                c = s.clone()
                e = self.I.mkexc(c, "asyncio.exceptions.CancelledError")
                c.mon["cancel"] = e
                c.note("cancelled here")
                out.append((c, Exc(e)))
            out.append((s, NONE))
        return out

    def at_suspend(self, st, aw, node):
        pass

    def monitored(self, st, op):
        """End states of op from st: [(state, outcome)], contracts checked."""
        s = self.begin(st.clone(), op)
        self.I_susp = None
        self.susp = self.m_susp
        fn = self.fnname
        res = self.run(s, op)
        out = []
        for e, v in res:
            self.op, self.fnname = op, fn
            self.seg_end(e)
            self.cancel_check(e, v)
            self.contract(st, e, op, v)
            out.append((e, v))
        self.susp = None
        return out

    def receive_contract(self, e, op, v, took, keeps, props):
        """receive() or one step of iteration: took what it returns, nothing else."""
        kind, who = op
        if e.mon["cancel"] is not None:
            self.need(keeps and not took, e, "C13 " + props, "cancel-loses",
                      f"a cancelled {kind} loses {list(took)}")
        elif isinstance(v, Exc):
            self.need(keeps and not took, e, "C11 " + props, "receive-loses",
                      f"{kind} ends as {self.exc_name(e, v)} but took {list(took)}")
            self.need(e.mon["closed0"], e, "C05 C11 " + props, "stop-while-open",
                      f"{kind} on an open channel ends as {self.exc_name(e, v)}")
            self.need(not self.pending(self.snap(e), who), e, "C05 C11", "stop-hides-message",
                      f"{kind} reports the end although messages are pending")
            if kind == "__anext__":
                self.need(self.I.exc_is(e, v.ref, "StopAsyncIteration"), e, "C11 C05", "stop-ends-iteration",
                          f"a stop surfaces from iteration as {self.exc_name(e, v)}")
            elif self.need(self.is_exc(e, v, "ReceiverStoppedError"), e, "C11 C05 C28", "stop-raises",
                           f"a stop surfaces from receive() as {self.exc_name(e, v)}"):
                self.need(self.carries(e, v.ref, "receiver", e.roots[who]), e, "C11 C05 C28", "stop-attributed",
                          "receive() raises a ReceiverStoppedError of another receiver")
                cc = self.cls("ChannelClosedError")
                todo, ok = [v.ref], False
                seen = set()
                while todo:
                    r = todo.pop()
                    if not isinstance(r, Ref) or r in seen:
                        continue
                    seen.add(r)
                    ok = ok or self.I.is_sub(e.o(r).cls, cc) and self.carries(e, r, "channel", e.roots["ch"])
                    todo.append(e.o(r).f.get("__cause__", NONE))
                self.need(ok, e, "C11 C05 C28", "closed-cause",
                          "the stop is not caused by a ChannelClosedError carrying the channel")
        else:
            self.need(took == (v,), e, "C11 " + props, "returns-message",
                      f"{kind} took {list(took)} but returned {v!r}")

    def cancel_check(self, e, v):
        c = e.mon["cancel"]
        isc = isinstance(v, Exc) and self.I.exc_is(e, v.ref, "asyncio.exceptions.CancelledError")
        if c is not None:
            self.need(isc, e, "C14", "cancellation-propagates",
                      f"a cancellation delivered inside {self.op[0]} ends as {self.exc_name(e, v)}")
        else:
            self.need(not isc, e, "C14", "no-spontaneous-cancel",
                      f"{self.op[0]} raises CancelledError although nobody cancelled the task")

    def contract(self, st, e, op, v):
        pass

    def done(self, e):
        """Prepare an end state for further exploration."""
        for k in ("seg0", "tot", "nsusp", "cancel", "closed0", "m", "full0", "waiters"):
            e.mon.pop(k, None)
        e.frames, e.hand, e.heads = (), (), frozenset()
        return [self.gc(z) for z in self.norm(e)]

    # ---- errors -----------------------------------------------------------------------------------
    def is_exc(self, st, v, clsname):
        c = self.cls(clsname)
        return isinstance(v, Exc) and c is not None and self.I.is_sub(st.o(v.ref).cls, c)

    def carries(self, st, ref, attr, val):
        for s, v in self.getp(st.clone(), ref, attr):
            if v != val:
                return False
        return True

    def sender_error(self, e, v, who):
        self.need(self.is_exc(e, v, "SenderError"), e, "C04 C28", "send-after-close-fails",
                  f"send on a closed channel ends as {self.exc_name(e, v)}")
        if not self.is_exc(e, v, "SenderError"):
            return
        self.need(self.carries(e, v.ref, "sender", e.roots[who]), e, "C04 C28", "sender-attributed",
                  "the SenderError does not carry the sender it was raised by")
        self.closed_cause(e, v, "C04 C28")

    def closed_cause(self, e, v, props):
        c = e.o(v.ref).f.get("__cause__", NONE)
        cc = self.cls("ChannelClosedError")
        ok = isinstance(c, Ref) and cc is not None and self.I.is_sub(e.o(c).cls, cc)
        self.need(ok, e, props, "closed-cause", "the error is not caused by a ChannelClosedError")
        if ok:
            self.need(self.carries(e, c, "channel", e.roots["ch"]), e, props, "closed-cause-channel",
                      "the ChannelClosedError does not carry the channel")

    def stopped_error(self, e, v, who, props):
        ok = self.is_exc(e, v, "ReceiverStoppedError")
        if ok:
            self.need(self.carries(e, v.ref, "receiver", e.roots[who]), e, props, "stop-attributed",
                      "the ReceiverStoppedError does not carry the receiver")
            self.closed_cause(e, v, props)
        return ok

    # ---- exploration ------------------------------------------------------------------------------
    def initial_states(self):
        raise NotImplementedError

    def bfs_ops(self, st):
        out = [("send", "S1"), ("close", "ch")]
        if "R1" in st.roots:
            out += [("receive", "R1"), ("__anext__", "R1")]
        for k in self.receivers(st):
            if k != "R3":
                out += [("ready", k), ("consume", k)]
        return out

    def truths(self, st, ref):
        ch = st.roots["ch"]
        name = Tok("str", "name")
        if ref == ch:
            return {"name": ("is", name), "__str__": ("shows", name), "__repr__": ("shows", name),
                    "is_closed": ("is", K(bool(st.mon["closed"])))}
        return {"__str__": ("shows", ch, name), "__repr__": ("shows", ch, name)}

    def check_held(self, st):
        """No message stays behind in the channel or its ends once it was taken (or was not accepted)."""
        rk = self.receivers(st)
        ch = st.roots["ch"]
        stop = [ch] + [st.roots[k] for k in rk]
        allowed = toks_in(self.held_latest(st))
        _, _, _, chf = self.places(st)
        held = [t for t in chf if t not in allowed]
        for k, r in st.roots.items():
            if k != "ch" and k not in rk:
                oids = reach(st, [r], stop=[x.oid for x in stop])
                for i in oids:
                    o = st.heap[i]
                    if o.kind != "frame" and i not in [x.oid for x in stop]:
                        held += [t for v in list(o.f.values()) + list(o.items or ()) + list(o.x.values())
                                 for t in held_in(v) if t not in allowed]
        who = self.fnname
        self.need(not held, st, "C35", "message-retained",
                  "a message stays referenced outside of the buffers that wait for a receive", who)

    def held_latest(self, st):
        return ()

    def state_checks(self, st):
        self.check_closed_attr(st)
        self.check_held(st)
        refs = [st.roots[k] for k in sorted(st.roots)]
        self.check_observers(st, refs)

    def explore(self):
        work, seen = [], set()
        for st in self.initial_states():
            for s in self.done(st):
                k = self.I.key(s)
                if k not in seen:
                    seen.add(k)
                    work.append(s)
        reached = []
        n = 0
        while work:
            st = work.pop()
            reached.append(st)
            if len(reached) > MAXSTATES:
                raise Gap("too many states")
            self.state_checks(st)
            for st2 in self.refine(st):
                for op in self.bfs_ops(st2):
                    try:
                        ends = self.monitored(st2, op)
                    except Gap as g:
                        self.I.gap(NODE, f"{self.name}/{op[0]}: {g}")
                        continue
                    n += len(ends)
                    for e, v in ends:
                        if op[0] == "ready":
                            self.after_ready(st2, e, op, v)
                        self.after(e, op)
                        for z in self.done(e):
                            k = self.I.key(z)
                            if k not in seen:
                                seen.add(k)
                                z.note(f"then {op[0]}({op[1]})")
                                work.append(z)
        self.rep.states[self.name] = len(reached)
        if not n:
            self.rep.vacuous.append(self.name)
        self.reached = reached
        return reached

    def refine(self, st):
        return [st]

    def after_ready(self, st0, e, op, v):
        """C10: what ready() promised still holds whatever happens before consume()."""
        if isinstance(v, Exc):
            if e.mon["cancel"] is None:
                self.bad(e, "C10 C28 " + self.delivery, "ready-raises", f"ready() raises {self.exc_name(e, v)}")
            return
        if v not in (TRUE, FALSE):
            self.bad(e, "C10", "ready-bool", f"ready() returns {v!r}")
            return
        fn = self.fnname
        who = op[1]
        e = e.clone()
        e.frames, e.hand, e.heads = (), (), frozenset()
        self.rep.ok("C10", "ready-bool")
        states = self.interference(e, who)
        for s in states:
            if s is not e:
                s.note(f"after ready() returned {v!r}")
            x = self.snap(s)

            def nosusp(z, aw, node):
                self.bad(z, "C10", "ready-again-suspends",
                         f"ready() waits again although a previous ready() already returned {v!r}", fn)
                return []
            self.susp = nosusp
            for z, w in self.invoke(s.clone(), s.roots[who], "ready"):
                self.need(w == v, z, "C10", "ready-again", f"ready() returns {w!r} after it returned {v!r}", fn)
                y = self.snap(z)
                self.need((y[0], y[1]) == (x[0], x[1]), z, "C10", "ready-again-takes",
                          "calling ready() again without consuming takes another message", fn)
            cfn = self.method_key(s, s.roots[who], "consume")
            for z, w in self.invoke(s.clone(), s.roots[who], "consume"):
                if v == TRUE:
                    self.need(not isinstance(w, Exc), z, "C10", "consume-after-ready",
                              f"consume() raises {self.exc_name(z, w)} although ready() returned True", cfn)
                else:
                    self.need(self.is_exc(z, w, "ReceiverStoppedError"), z, "C10", "consume-after-stop",
                              f"consume() gives {self.exc_name(z, w)} although ready() returned False", cfn)
            self.susp = None
        self.fnname = fn

    # ---- waiting tasks ----------------------------------------------------------------------------
    def waiter_ops(self):
        """Pairs of operations that may both be asleep."""
        return [[("ready", "R1")], [("ready", "R1"), ("ready", "R2")]]

    def wait_interference(self, st, depth):
        """Sequences of up to `depth` segments of tasks that are not waiting (queues kept explicit)."""
        ws = {w[0] for w in st.mon["waiters"]}
        out, cur, seen = [st], [st], {self.I.key(st)}
        for _ in range(depth):
            nxt = []
            for a in cur:
                for op in self.wait_ops(a, ws):
                    for s, _v in self.segment(a, lambda x, op=op: self.run(x, op)):
                        keep = a.mon.get("m")
                        self.after(s, op)
                        if keep is not None:
                            s.mon["m"] = keep
                        k = self.I.key(s)
                        if k not in seen:
                            seen.add(k)
                            s.note(f"then {op[0]}({op[1]})")
                            s.mon["lastop"] = self.method_key(s, s.roots[op[1]], op[0])
                            nxt.append(s)
            out += nxt
            cur = nxt
        return out

    def wait_ops(self, st, ws):
        out = [("close", "ch"), ("send", "S3")]
        if "R3" in st.roots:
            out += [("ready", "R3"), ("consume", "R3")]
        return out

    def waiters(self, states, depth):
        for st in states:
            for st2 in self.refine(st):
                for ops in self.waiter_ops():
                    if any(o[1] not in st2.roots for o in ops):
                        continue
                    try:
                        self.wait_pair(st2, ops, depth)
                    except Gap as g:
                        self.I.gap(NODE, f"{self.name}/waiters {ops}: {g}")
        for oid, kinds in self.cvkinds.items():
            self.need(len(kinds) < 2 or oid not in self.cvnotify, None, "C03", "shared-condition-notify",
                      f"{' and '.join(sorted(kinds))} wait on the same condition but only some are notified",
                      self.name)

    def e_notify(self, st, node, d):
        if d["n"] != K("all"):
            self.cvnotify.add(d["obj"].oid)

    def wait_pair(self, st, ops, depth):
        scn = self
        n = len(ops)
        self.waiting = {o[1] for o in ops}

        def level(i, st):
            """Run ops[i] until it sleeps; [(state, completed?)] of this and the deeper ones."""
            op = ops[i]
            frames, hand, heads = st.frames, st.hand, st.heads
            st.frames, st.hand, st.heads = (), (), frozenset()
            blocked = []
            msave = st.mon.get("m")

            def susp(s, aw, node):
                if f"res{i}" in s.mon:
                    blocked.append(s)
                    s.mon["cnt"] = s.mon["cnt"]
                    return []
                if aw.kind == "sleep":
                    return []
                if aw.kind not in ("cvwait", "evwait"):
                    raise Gap(f"waits on {aw.kind}")
                obj = aw.a[1]
                scn.cvkinds.setdefault(obj.oid, set()).add(f"{op[0]}()")
                s.mon["waiters"] = s.mon.get("waiters", ()) + ((f"W{i}", obj, False),)
                s.note(f"{op[0]}({op[1]}) sleeps at {scn.I.where(node)}")
                res = []
                if i + 1 < n:
                    f2 = (s.frames, s.hand, s.heads, s.mon.get("m"))
                    for z in level(i + 1, s.clone()):
                        z.frames, z.hand, z.heads = f2[:3]
                        if f2[3] is not None:
                            z.mon["m"] = f2[3]
                        scn.susp = susp
                        z.mon[f"res{i}"] = 1
                        res += resume(z)
                else:
                    for z in scn.wait_interference(s, depth):
                        z = z.clone()
                        z.mon["cnt"] = 0
                        z.mon[f"res{i}"] = 1
                        res += resume(z)
                scn.susp = susp
                return res

            def resume(z):
                """The sleeper wakes up; if it was notified, it may also be cancelled before it runs, and then
                nobody else knows of the notification (asyncio before Python 3.13)."""
                res = [(z, NONE)]
                ws = z.mon["waiters"]
                if any(w[0] == f"W{i}" and w[2] for w in ws):
                    c = z.clone()
                    c.mon["waiters"] = tuple(w for w in ws if w[0] != f"W{i}")
                    c.mon[f"can{i}"] = 1
                    c.note(f"{op[0]}({op[1]}) is cancelled after it was notified, before it runs")
                    res.append((c, Exc(scn.I.mkexc(c, "asyncio.exceptions.CancelledError"))))
                return res
            scn.susp = susp
            out = []
            for s, v in scn.run(st, op):
                if f"res{i}" in s.mon:
                    if f"can{i}" not in s.mon:
                        s.mon["cnt"] += 1
                    out.append(s)
            out += blocked
            for s in out:
                s.frames, s.hand, s.heads = frames, hand, heads
            return out
        st = st.clone()
        fn = self.method_key(st, st.roots[ops[0][1]], ops[0][0])
        self.fnname = fn
        st.mute += 1
        for s in level(0, st):
            s.mute = 0
            noted = sum(1 for w in s.mon["waiters"] if w[2])
            who = s.mon.get("lastop", fn)
            ps = "C03"
            if s.mon["closed"]:
                # a sender that stays blocked on a closed channel does not fail, a receiver does not stop
                ps += " C04" if ops[0][0] == "send" else " C05"
            self.need(s.mon["cnt"] <= noted, s, ps, "lost-wake-up",
                      f"{s.mon['cnt']} sleeping {ops[0][0]}() could proceed but only {noted} of them "
                      f"{'was' if noted == 1 else 'were'} woken", who)
        self.susp = None


class AnycastScn(ChanScn):
    name, delivery = "anycast", "C01"
    chan_cls = "Anycast"

    def initial_states(self):
        st = self.base.clone()
        st.facts = add_fact(st.facts, self.lim - Num((), 1, True))
        sts = []
        for s, ch in self.new_chan(st, name=Tok("str", "name"), limit=self.lim):
            s.roots["ch"] = ch
            s.mon["closed"] = False
            sts.append(s)
        for k in ("S1", "S2", "S3"):
            sts = self.actor(sts, k, "new_sender")
        for k in ("R1", "R2", "R3"):
            sts = self.actor(sts, k, "new_receiver")
        return sts

    def waiter_ops(self):
        return super().waiter_ops() + [[("send", "S1")], [("send", "S1"), ("send", "S2")]]

    def wait_ops(self, st, ws):
        return super().wait_ops(st, ws) + [("ready", r) for r in ("R1", "R2") if r not in self.waiting]

    def refine(self, st):
        """Split by whether the queue is full."""
        q = self.places(st)[0]
        out = []
        if q is None:
            st = st.clone()
            st.mon["full0"] = False
            return [st]
        for s, n in c_len(self.I, st.clone(), Ref(q)):
            for z, t in num_eq0(s, tonum(self.lim) - tonum(n)):
                z.mon["full0"] = t
                out.append(z)
        return out

    def state_checks(self, st):
        super().state_checks(st)
        for s, v in self.getp(st.clone(), st.roots["ch"], "limit"):
            self.need(tonum(v) is not None and tonum(v).lin_eq(self.lim), s, "C02 C34", "limit",
                      f"limit is {v!r}, not the limit given", self.method_key(s, s.roots["ch"], "limit"))

    def e_evict(self, st, node, d):
        if toks_in(d["val"]) or isinstance(d["val"], Seg):
            self.bad(st, "C02 C01", "message-discarded", "a queued message is discarded to make room", node=node)

    def at_suspend(self, st, aw, node):
        kind = self.op[0]
        if kind == "send" and not st.mon["nsusp"] and st.mon["cancel"] is None:
            self.need(st.mon.get("full0") or st.mon["closed0"], st, "C02", "send-suspends-with-space",
                      "send suspends although the buffer has free space", node=node)

    def seg_check(self, st, a, b, qd, pd):
        if not qd[1]:
            return
        q = self.places(st)[0]
        if q is None:
            return
        o = st.heap[q]
        cap = o.x.get("cap")
        ok = cap not in (None, NONE) and entails_ge(st.facts, tonum(self.lim) - tonum(cap))
        if not ok:
            sts = c_len(self.I, st.clone(), Ref(q))
            ok = all(entails_ge(s.facts, tonum(self.lim) - tonum(n)) for s, n in sts)
        self.need(ok, st, "C02", "bounded", "the buffer can grow beyond the limit")

    def contract(self, st, e, op, v):
        kind, who = op
        qpop, qapp, priv = e.mon["tot"]
        pd = {k: (p, q) for k, p, q in priv}
        canc = e.mon["cancel"] is not None
        others = all(x == ((), ()) for k, x in pd.items() if k != who)
        self.need(others, e, "C01", "foreign-receiver", f"{kind} changes what another receiver holds")
        if kind == "send":
            m = e.mon["m"]
            if isinstance(v, Exc):
                self.need(not qapp, e, "C01 C04", "failed-send-leaves-message",
                          f"send ends with {self.exc_name(e, v)} but queued a message")
            else:
                self.need(qapp == (m,), e, "C01", "send-queues-once",
                          f"a completed send queued {list(qapp)} instead of exactly its message")
            self.need(not qpop, e, "C01", "send-takes", "send removes a queued message")
            if not canc:
                if e.mon["closed0"]:
                    self.sender_error(e, v, who)
                else:
                    self.need(not isinstance(v, Exc), e, "C04", "open-send-raises",
                              f"send on an open channel raises {self.exc_name(e, v)}")
                    if not isinstance(v, Exc):
                        self.rep.ok("C02", "send-completes-with-space")
        elif kind == "ready":
            pp, pa = pd[who]
            self.need(not pp and not qapp, e, "C01", "ready-drops", "ready() drops or inserts a message")
            self.need(pa == qpop, e, "C01 C13", "taken-message-kept",
                      f"ready() took {list(qpop)} from the channel but holds {list(pa)}"
                      + (" after being cancelled" if canc else ""))
            if not canc:
                s1 = self.snap(e)
                if v == TRUE:
                    self.need(bool(dict(s1[1])[who]) or bool(s1[0]), e, "C05 C10", "ready-true-has-message",
                              "ready() returns True without a message")
                    self.rep.ok("C05", "ready-true")
                elif v == FALSE:
                    self.need(e.mon["closed0"], e, "C05 C01", "stop-while-open",
                              "ready() reports the end of an open channel")
                    self.need(not self.maybe(s1, who), e, "C05", "stop-hides-message",
                              "ready() reports the end although messages are pending")
        elif kind == "consume":
            pp, pa = pd[who]
            self.need(not pa and not qapp, e, "C01", "consume-inserts", "consume() inserts a message")
            p0 = dict(self.snap(st)[1])[who]
            if isinstance(v, Exc):
                self.need(not pp and not qpop, e, "C01", "consume-loses", "consume() fails but removes a message")
                if self.is_exc(e, v, "ReceiverStoppedError"):
                    self.need(e.mon["closed0"], e, "C05 C01", "stop-while-open",
                              "consume() reports the end of an open channel")
                    self.need(not p0, e, "C05", "stop-hides-message",
                              "consume() reports the end although a message is pending for the receiver")
                    self.stopped_error(e, v, who, "C05 C28")
                else:
                    self.need(not p0, e, "C01 C10", "consume-pending",
                              f"consume() raises {self.exc_name(e, v)} although it holds a message")
                    self.need(self.I.exc_is(e, v.ref, "AssertionError"), e, "C28", "consume-error",
                              f"consume() raises {self.exc_name(e, v)}")
            else:
                took = pp + qpop
                self.need(took == (v,), e, "C01 C10", "consume-returns-message",
                          f"consume() took {list(took)} but returned {v!r}")
                self.need(not (p0 and qpop), e, "C01", "consume-order", "consume() overtakes a pending message")
        elif kind in ("receive", "__anext__"):
            pp, pa = pd[who]
            self.need(not qapp, e, "C01", "ready-drops", f"{kind} inserts a message")
            took = pp + qpop
            keeps = all(x in took for x in pa)
            self.receive_contract(e, op, v, tuple(x for x in took if x not in pa), keeps, "C01")
        elif kind == "close":
            self.need(not qpop and not qapp and others and all(x == ((), ()) for x in pd.values()), e, "C05 C01",
                      "close-drops", "close() drops or changes pending messages")
            if not canc:
                self.need(not isinstance(v, Exc), e, "C05 C28", "close-raises",
                          f"close() raises {self.exc_name(e, v)}")

    def maybe(self, sn, who):
        return [x for x in self.pending(sn, who)]


class BroadcastScn(ChanScn):
    name, delivery = "broadcast", "C06"
    chan_cls = "Broadcast"
    shared = False
    nrecv = 2

    def __init__(self, prog, rep, resend, default_limit=False):
        super().__init__(prog, rep)
        self.resend, self.default_limit = resend, default_limit
        self.name = f"broadcast(resend_latest={resend}{', default limit' if default_limit else ''})"
        self.lims = {}

    def held_latest(self, st):
        return (st.mon["latest"],) if isinstance(st.mon["latest"], V) and not st.mon["closed"] else ()

    def truths(self, st, ref):
        out = super().truths(st, ref)
        if ref == st.roots["ch"]:
            self.truth_resend(st)
        else:
            for k in self.receivers(st):
                if ref == st.roots[k] and self.resend and not self.default_limit:
                    out["__repr__"] = ("shows", K("same"))
        return out

    def truth_resend(self, st):
        v = self.attr(st, st.roots["ch"], "resend_latest")
        self.need(v == K(self.resend), st, "C34", "accessor-truth", f"resend_latest is {v!r} instead of {self.resend}",
                  f"{self.cls(self.chan_cls).mod.rel}:{self.chan_cls}.resend_latest")

    def check_truth(self, st, ref, n, v):
        super().check_truth(st, ref, n, v)
        if n == "__len__" and not isinstance(v, Top):
            k = next(k for k in self.receivers(st) if st.roots[k] == ref)
            _, priv, fld, _ = self.places(st)
            q = st.heap[priv[k][0]] if len(priv[k]) == 1 else None
            if q is not None and not fld[k] and ("lenatom" in q.x or not any(isinstance(x, Seg) for x in q.items)):
                for z, w in c_len(self.I, st.clone(), Ref(priv[k][0])):
                    a, b = tonum(v), tonum(w)
                    self.need(v == w or a is not None and b is not None and
                              (a.lin_eq(b) or entails_ge(z.facts, a - b) and entails_ge(z.facts, b - a)), z, "C34",
                              "accessor-truth", f"len() of a receiver is {v!r}, but {w!r} messages are buffered")

    def limit_of(self, k):
        return K(50) if self.default_limit else iatom("limit" + k[1:])

    def plimit(self, st, k):
        return self.limit_of(k)

    def start(self):
        sts = []
        for st, ch in self.new_chan(self.base.clone(), name=Tok("str", "name"), resend_latest=K(self.resend)):
            st.roots["ch"] = ch
            st.mon.update(closed=False, latest=NONE)
            sts.append(st)
        for k in ("S1", "S2", "S3"):
            sts = self.actor(sts, k, "new_sender")
        return sts

    def add_receiver(self, sts, k):
        lim = self.limit_of(k)
        kw = {}
        if not self.default_limit:
            for st in sts:
                st.facts = add_fact(st.facts, lim - Num((), 1, True))
            kw = {"limit": lim}
            if self.resend:
                kw["name"] = K("same")  # names need not be unique
        return self.actor(sts, k, "new_receiver", **kw)

    def initial_states(self):
        sts = self.start()
        for i in range(self.nrecv):
            sts = self.add_receiver(sts, f"R{i + 1}")
        return sts

    def gc(self, st):
        # limits stay meaningful even when the receiver is gone
        return super().gc(st)

    def bfs_ops(self, st):
        out = super().bfs_ops(st)
        for k in self.receivers(st):
            out.append(("drop", k))
        return out

    def run(self, st, op):
        if op[0] == "drop":
            return self.drop(st, op[1])
        return super().run(st, op)

    def begin(self, st, op):
        st.mon["nwarn"] = 0
        if op[0] == "drop":
            st.mon.update(seg0=None, tot=((), (), ()), nsusp=0, cancel=None, closed0=st.mon["closed"])
            self.op = op
            self.fnname = self.chan_cls
            return st
        return super().begin(st, op)

    def seg_end(self, st, node=None):
        if self.op[0] != "drop":
            super().seg_end(st, node)

    def drop(self, st, k):
        """The user drops the last reference to receiver k."""
        r = st.roots.pop(k)
        alive = reach(st, self.roots_of(st))
        if r.oid in alive:
            return [(st, NONE)]
        st.w(r).x["dead"] = TRUE
        out = [(st, NONE)]
        m = self.I.find_method(st.o(r).cls, "__del__")
        if m and m[1] is not None:
            out = self.invoke(st, r, "__del__")
        res = []
        for s, _ in out:
            cur = [s]
            for oid, o in list(s.heap.items()):
                if o.kind == "wref" and o.f.get("target") == r and o.f.get("cb", NONE) != NONE:
                    cur = [z for c in cur for z, _ in self.callv(c, o.f["cb"], [Ref(oid)])]
            res += [(z, NONE) for z in cur]
        return res

    def after(self, st, op):
        if op[0] == "send" and not st.mon["closed"]:
            m = st.mon.get("m")
            if m is not None:
                st.mon["latest"] = m
        st = super().after(st, op)
        if op[0] == "close":
            st.mon["latest"] = NONE
        return st

    def e_log(self, st, node, d):
        lv = d["level"]
        lg = d["logger"]
        if lv in ("warning", "warn", "error", "critical", "exception"):
            st.mon["nwarn"] = st.mon.get("nwarn", 0) + 1
            if self.op and self.op[0] == "send":
                self.need(lg.name[0] == "get" if isinstance(lg.name, tuple) else lg.name != "detached", st, "C07",
                          "warning-visible", "the overflow warning goes to a logger outside the logging hierarchy",
                          node=node, construct=self.where_fn(st, node))

    def done(self, e):
        e.mon.pop("nwarn", None)
        for k in [k for k in e.mon if k.startswith("full")]:
            e.mon.pop(k)
        return super().done(e)

    def refine(self, st):
        """Split by which queues are full."""
        sts = [st.clone()]
        for k in self.receivers(st):
            nxt = []
            for s in sts:
                pl = self.places(s)[1][k]
                if not pl:
                    s.mon["full" + k] = False
                    nxt.append(s)
                    continue
                for a, n in c_len(self.I, s, Ref(pl[0])):
                    for z, t in num_eq0(a, tonum(self.limit_of(k)) - tonum(n)):
                        z.mon["full" + k] = t
                        nxt.append(z)
            sts = nxt
        return sts

    # ---- checks -----------------------------------------------------------------------------------
    def state_checks(self, st):
        super().state_checks(st)
        rk = self.receivers(st)
        keep = reach(st, [v for k, v in st.roots.items() if k not in rk]
                     + [Ref(o) for o in self.I.modoid.values()] + [Ref(o) for o in self.I.clsoid.values()])
        for k in rk:
            self.need(st.roots[k].oid not in keep, st, "C09", "channel-keeps-receiver",
                      "the channel (or module state) holds a strong reference to a receiver",
                      f"{self.cls(self.chan_cls).mod.rel}:{self.chan_cls}.new_receiver")
            for j in rk:
                if j != k:
                    self.need(st.roots[k].oid not in reach(st, [st.roots[j]]), st, "C09", "receiver-keeps-receiver",
                              "one receiver keeps another one alive",
                              f"{self.cls(self.chan_cls).mod.rel}:{self.chan_cls}.new_receiver")
        self.check_new_receiver(st)

    def check_new_receiver(self, st):
        for toggle in (False, True):
            s = st.clone()
            on = self.resend
            if toggle:
                if self.resend or st.o(st.roots["ch"]).f.get("resend_latest") not in (TRUE, FALSE):
                    continue
                s.w(s.roots["ch"]).f["resend_latest"] = TRUE
                on = True
            fn = self.fnname = self.method_key(s, s.roots["ch"], "new_receiver")
            lat = s.mon["latest"]
            want = (lat,) if on and lat != NONE and not s.mon["closed"] else ()
            cur = [s]
            for new in ("R8", "R9"):  # a second one must get it just the same
                nxt = []
                for a in cur:
                    before = self.snap(a)
                    lim = iatom("limit" + new[1:])
                    a.facts = add_fact(a.facts, lim - Num((), 1, True))
                    for e, v in self.invoke(a, a.roots["ch"], "new_receiver", (),
                                            {} if self.default_limit else {"limit": lim}):
                        if isinstance(v, Exc):
                            self.bad(e, "C08 C28", "new-receiver-raises",
                                     f"new_receiver() raises {self.exc_name(e, v)}")
                            continue
                        e.roots[new] = v
                        sn = self.snap(e)
                        got = dict(sn[1])[new]
                        self.need(got == want, e, "C08", "resend-latest",
                                  f"a new receiver starts with {list(got)} instead of {list(want)}", fn)
                        rest = tuple((k, x) for k, x in sn[1] if k != new)
                        self.need(rest == before[1], e, "C06 C29", "new-receiver-disturbs",
                                  "creating a receiver changes what others have pending", fn)
                        e.note("a receiver is created")
                        nxt.append(e)
                cur = nxt

    def seg_check(self, st, a, b, qd, pd):
        """All receivers get a message in the same atomic segment."""
        if self.op[0] != "send":
            return
        m = st.mon.get("m")
        got = [k for k, (p, q) in pd.items() if m in q]
        self.need(not got or len(got) == len(pd), st, "C06", "send-atomic",
                  "the message is queued to some receivers only when the send suspends or ends")

    def rejected(self, e, m):
        """A receiver created after a rejected send does not get its message either."""
        self.rep.ok("C04", "rejected-message-delivered")
        if m not in self.held_msgs(e, [e.roots["ch"]]):
            return
        z = e.clone()
        z.frames, z.hand, z.heads = (), (), frozenset()
        old, self.susp = self.susp, None
        for x, r in self.invoke(z, z.roots["ch"], "new_receiver"):
            if isinstance(r, Exc):
                continue
            q = [i for o in reach(x, [r]) if x.heap[o].kind in ("deque", "list") for i in x.heap[o].items]
            self.need(m not in q, x, "C04", "rejected-message-delivered",
                      "a message rejected by the closed channel is pending for a new receiver")
        self.susp = old

    def contract(self, st, e, op, v):
        kind, who = op
        qpop, qapp, priv = e.mon["tot"]
        pd = {k: (p, q) for k, p, q in priv}
        canc = e.mon["cancel"] is not None
        if kind == "drop":
            return
        self.need(not qapp and not qpop, e, "C06", "foreign-queue", "messages are kept outside the receivers")
        others = all(x == ((), ()) for k, x in pd.items() if k != who)
        if kind == "send":
            m = e.mon["m"]
            if not canc:
                if e.mon["closed0"]:
                    self.sender_error(e, v, who)
                    self.rejected(e, m)
                else:
                    self.need(not isinstance(v, Exc), e, "C04 C06", "open-send-raises",
                              f"send on an open channel raises {self.exc_name(e, v)}")
            self.need(not e.mon["nsusp"], e, "C07", "send-waits", "a broadcast send waits")
            nfull = 0
            for k, (p, q) in pd.items():
                full = st.mon.get("full" + k)
                if not isinstance(v, Exc):
                    self.need(q == (m,), e, "C06", "send-reaches-all",
                              f"a completed send queued {list(q)} to a live receiver instead of its message")
                    if full:
                        nfull += 1
                        self.need(len(p) == 1, e, "C07", "overflow-drops-one",
                                  f"overflow discards {len(p)} messages instead of the oldest one")
                    else:
                        self.need(not p, e, "C07", "drop-without-overflow",
                                  "a message is discarded although the receiver is not full")
                else:
                    self.need(not p and (canc or not q), e, "C04 C06", "failed-send-has-effect",
                              "a failing send changes what receivers have pending")
            if not isinstance(v, Exc):
                self.need(nfull == 0 or e.mon["nwarn"] >= nfull, e, "C07", "overflow-warned",
                          "a message is discarded without a warning")
                dead = [i for i in reach(e, [e.roots["ch"]], weak=True)
                        if e.heap[i].kind == "wref" and isinstance(e.heap[i].f.get("target"), Ref)
                        and e.o(e.heap[i].f["target"]).x.get("dead")]
                self.need(not dead, e, "C09", "stale-registration",
                          "the registration of a dropped receiver survives a send")
        elif kind == "ready":
            self.need(others, e, "C06", "foreign-receiver", "ready() changes what another receiver has pending")
            pp, pa = pd.get(who, ((), ()))
            self.need(not pp and not pa, e, "C06 C13", "ready-changes-queue",
                      f"ready() {'drops ' + str(list(pp)) if pp else 'inserts ' + str(list(pa))}")
            if not canc:
                p1 = dict(self.snap(e)[1])[who]
                if v == TRUE:
                    self.need(bool(p1), e, "C05 C10", "ready-true-has-message", "ready() returns True without a message")
                elif v == FALSE:
                    self.need(e.mon["closed0"], e, "C05 C06", "stop-while-open",
                              "ready() reports the end of an open channel")
                    self.need(not p1, e, "C05", "stop-hides-message",
                              "ready() reports the end although messages are pending")
        elif kind == "consume":
            self.need(others, e, "C06", "foreign-receiver", "consume() changes what another receiver has pending")
            pp, pa = pd[who]
            p0 = dict(self.snap(st)[1])[who]
            self.need(not pa, e, "C06", "consume-inserts", "consume() inserts a message")
            if isinstance(v, Exc):
                self.need(not pp, e, "C06", "consume-loses", "consume() fails but removes a message")
                if self.is_exc(e, v, "ReceiverStoppedError"):
                    self.need(e.mon["closed0"], e, "C05 C06", "stop-while-open",
                              "consume() reports the end of an open channel")
                    self.need(not p0, e, "C05", "stop-hides-message",
                              "consume() reports the end although messages are pending")
                    self.stopped_error(e, v, who, "C05 C28")
                else:
                    self.need(not p0, e, "C06 C10", "consume-pending",
                              f"consume() raises {self.exc_name(e, v)} although a message is pending")
                    self.need(self.I.exc_is(e, v.ref, "AssertionError"), e, "C28", "consume-error",
                              f"consume() raises {self.exc_name(e, v)}")
            else:
                self.need(pp == (v,), e, "C06 C10", "consume-returns-message",
                          f"consume() took {list(pp)} but returned {v!r}")
        elif kind in ("receive", "__anext__"):
            pp, pa = pd.get(who, ((), ()))
            self.need(others, e, "C06", "foreign-receiver", f"{kind} changes what another receiver has pending")
            self.receive_contract(e, op, v, pp, not pa, "C06")
        elif kind == "close":
            self.need(all(x == ((), ()) for x in pd.values()), e, "C05 C06", "close-drops",
                      "close() drops or changes pending messages")
            if not canc:
                self.need(not isinstance(v, Exc), e, "C05 C28", "close-raises",
                          f"close() raises {self.exc_name(e, v)}")

    # ---- registries with dropped receivers in every position ---------------------------------------
    def registries(self, nmax):
        for n in range(nmax + 1):
            for mask in range(2 ** n):
                cur = self.start()
                for i in range(n):
                    cur = self.add_receiver(cur, f"R{i + 1}")
                for i in range(n):
                    if mask >> i & 1:
                        cur = [z for c in cur for z, _ in self.drop(c, f"R{i + 1}")]
                for c in cur:
                    c = self.gc(c)
                    c.note(f"registry of {n} receivers, dropped: {[i + 1 for i in range(n) if mask >> i & 1]}")
                    for k in self.receivers(c):
                        c.mon["full" + k] = False
                    for presend in (True, False):
                        cur = [c.clone()]
                        if presend:
                            cur = self.registry_send(cur)
                        # a receiver created afterwards must not displace another one
                        nxt = []
                        for e in cur:
                            for z in self.add_receiver([e.clone()], f"R{n + 1}"):
                                z.note("then new_receiver()")
                                nxt.append(z)
                        self.registry_send(nxt)

    def thresholds(self):
        """Registries larger than any number the code under analysis compares a length with."""
        for n in size_literals(self.I.prog, "_broadcast"):
            cur = self.start()
            for i in range(n + 1):
                cur = self.add_receiver(cur, f"R{i + 1}")
            for c in cur:
                c = self.gc(c)
                c.note(f"registry of {n + 1} receivers")
                for k in self.receivers(c):
                    c.mon["full" + k] = False
                self.registry_send([c])

    def registry_send(self, cur):
        out = []
        for c in cur:
            for z in self.refine(c):
                for e, _v in self.monitored(z, ("send", "S1")):
                    self.rep.ok("C06", "registry-pattern")
                    self.rep.ok("C09", "registry-pattern")
                    self.after(e, ("send", "S1"))
                    for z2 in self.done(e):
                        z2.note("then send(S1)")
                        self.state_checks(z2)
                        out.append(z2)
        return out


def size_literals(prog, mod, lo=4, hi=40):
    """Integer literals written in comparisons or remainders in the functions of a module."""
    import ast
    out = set()
    for name, m in prog.mods.items():
        if not name.endswith("." + mod):
            continue
        consts = {t.id: n.value.value for n in ast.walk(m.tree) if isinstance(n, (ast.Assign, ast.AnnAssign))
                  and isinstance(n.value, ast.Constant) and type(n.value.value) is int
                  for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Compare) or isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.Sub)):
                for c in ast.walk(n):
                    if isinstance(c, ast.Constant) and type(c.value) is int:
                        out.add(c.value)
                    elif isinstance(c, (ast.Name, ast.Attribute)):
                        out.add(consts.get(c.id if isinstance(c, ast.Name) else c.attr))
    return sorted(v for v in out if v is not None and lo <= v <= hi)


def _guard(rep, s, f):
    try:
        f()
    except Gap as g:
        s.I.gap(NODE, f"{s.name}: {g}")
        rep.vacuous.append(s.name)
    except TimeoutError:
        s.I.gap(NODE, f"{s.name}: time budget used up")
        rep.vacuous.append(s.name)
        s.finish()
        raise
    except (RecursionError, KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError) as e:
        import traceback
        t = traceback.extract_tb(e.__traceback__)[-1]
        s.I.gap(NODE, f"{s.name}: construct not understood ({type(e).__name__}: {e} at {t.name}:{t.lineno})")
        rep.vacuous.append(s.name)
    s.finish()


def run_anycast(prog, rep, tier):
    s = AnycastScn(prog, rep)
    _guard(rep, s, lambda: s.waiters(s.explore(), 3 if tier == "thorough" else 2))


def run_broadcast(prog, rep, tier):
    for resend in (False, True):
        s = BroadcastScn(prog, rep, resend)

        def go():
            st = s.explore()
            if not resend or tier == "thorough":
                s.waiters(st, 3 if tier == "thorough" else 2)
            if resend:
                s.registries(4 if tier == "thorough" else 3)
                s.thresholds()
        _guard(rep, s, go)
    s = BroadcastScn(prog, rep, True, default_limit=True)
    s.nrecv = 1
    _guard(rep, s, s.explore)
