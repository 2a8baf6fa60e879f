"""Timer (C23, C24), missed-tick policies (C25).

The loop clock is an arbitrary non-decreasing sequence of readings (exact microseconds); the policy's answers
are arbitrary; interval and delays are arbitrary integers.  Arithmetic facts are decided by linear normal forms.
"""
from __future__ import annotations

from fractions import Fraction

from .interp import Gap
from .models import fdiv, mul, num_ge0, tmo_scopes
from .recv import SrcScn
from .scn import HARNESS, NODE
from .values import (FALSE, NONE, TRUE, Aw, ClsV, Exc, K, Num, Ref, Td, Tok, Tup, _T, add_fact, entails_ge, fromnum,
                     iatom, num_subst_atoms, tonum)

TM = "frequenz.channels.timer"
MAXSTATES = 800
ONE = Num((), 1, True)


def lin_same(a, b):
    """Same number for all values of the atoms."""
    if isinstance(a, Td) and isinstance(b, Td):
        a, b = a.us, b.us
    elif isinstance(a, Td) or isinstance(b, Td):
        return False
    a, b = tonum(a), tonum(b)
    return a is not None and b is not None and a.lin_eq(b)


class TimerScn(SrcScn):
    name = "timer"
    clocked = ("clock", "reads")

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.iv = iatom("interval")
        self.op = None
        self.nseen = 0

    # ---- environment ------------------------------------------------------------------------------
    def loop_time(self, I, st, v, node):
        self.rep.ok("C23", "clock-reading")
        if v != st.mon["loop"]:
            self.bad(st, "C23 C24", "wrong-loop", "reads the clock of another loop than the timer's", node=node)
        a = iatom(st.fresh("t"))
        c = st.mon["clock"]
        if c != NONE:
            st.facts = add_fact(st.facts, a - c) or st.facts
        st.mon["clock"] = a
        st.mon["reads"] = st.mon["reads"] + (a,)
        if st.mon.get("autostart") and self.op == "ready":
            # the first wait starts the timer: scheduled one interval after this reading
            st.mon.update(autostart=False, sched=a + self.iv, running=True)
        return [(st, Num(a.t, 0, False).scale(Fraction(1, 10 ** 6)))]

    def tok_method(self, I, st, v, name, args, kwargs, node):
        if v == Tok("policy", "user") and name == "calculate_next_tick_time":
            return self.policy(st, args, kwargs, node)
        raise Gap(f"method {name} of {v!r}")

    def policy(self, st, args, kwargs, node):
        m = st.mon
        self.need(not args and sorted(kwargs) == ["interval", "now", "scheduled_tick_time"], st, "C23",
                  "policy-arguments", f"the policy is called with {sorted(kwargs)} and {len(args)} positional "
                  "arguments", node=node)
        now, sched = tonum(kwargs.get("now", NONE)), kwargs.get("scheduled_tick_time", NONE)
        self.need(m["asked"] == 0, st, "C23", "policy-once", "the policy is asked twice for one tick", node=node)
        self.need(self.op == "ready", st, "C23", "policy-once", f"the policy is asked by {self.op}", node=node)
        m["asked"] += 1
        self.need(lin_same(kwargs.get("interval", NONE), self.iv), st, "C23", "policy-interval",
                  f"the policy gets {kwargs.get('interval')!r} as interval", node=node)
        self.need(m["sched"] != NONE and lin_same(sched, m["sched"]), st, "C23", "policy-scheduled",
                  f"the policy gets {sched!r}, not the scheduled time in force, {m['sched']!r}", node=node)
        isread = now is not None and any(now.lin_eq(r) for r in m["reads"])
        self.need(isread, st, "C23", "policy-now", f"the policy gets {now!r}, not a clock reading of this trigger",
                  node=node)
        if isread and m["sched"] != NONE:
            self.need(entails_ge(st.facts, now - m["sched"]), st, "C23", "never-early",
                      "triggers although the clock may not have reached the scheduled time", node=node)
            m["tick"] = Td(now - m["sched"])
        nx = iatom(st.fresh("next"))
        m["next"] = nx
        return [(st, nx)]

    # ---- construction -----------------------------------------------------------------------------
    def start(self):
        st = self.base.clone()
        st.mon.update(clock=NONE, reads=(), sched=NONE, pend=NONE, running=False, asked=0, tick=NONE, next=NONE,
                      cancel=None, loop=Tok("loop", "given"))
        return st

    def timer(self, st):
        v = self.glob(st, "Timer", TM)
        if not isinstance(v, ClsV):
            raise Gap("Timer not found")
        return v

    def delay(self, st, name="delay", nonneg=True):
        d = iatom(st.fresh(name))
        if nonneg:
            st.facts = add_fact(st.facts, d)
        return d

    def constructions(self):
        """Constructed timers and the rejection of invalid arguments."""
        out = []
        for auto in (True, False, None):
            for dl in (None, "delay"):
                for loop in (True, False):
                    st = self.start()
                    if not loop:
                        st.mon["loop"] = Tok("loop", "running")
                    kw = {}
                    iv = self.iv
                    d = Num((), 0, True)
                    if auto is not None:
                        kw["auto_start"] = K(auto)
                    if dl:
                        d = self.delay(st, nonneg=False)
                        kw["start_delay"] = Td(d)
                    if loop:
                        kw["loop"] = st.mon["loop"]
                    T = self.timer(st)
                    self.op = "construction"
                    fn = self.fnname = f"{T.cls.mod.rel}:{T.cls.qual}.__init__"
                    for e, v in self.callv(st, T, [Td(iv), Tok("policy", "user")], kw):
                        self.fnname = fn
                        e.frames, e.hand, e.heads = (), (), frozenset()
                        for z, bad in self.invalid(e, iv, d, auto is not False):
                            if bad:
                                self.need(isinstance(v, Exc) and self.I.exc_is(z, v.ref, "builtins.ValueError"), z,
                                          "C24 C28", "bad-argument-accepted",
                                          f"a timer with {bad} is not rejected with ValueError "
                                          f"({self.exc_name(z, v)})")
                                continue
                            if not self.need(not isinstance(v, Exc), z, "C24", "valid-rejected",
                                             f"valid arguments are rejected with {self.exc_name(z, v)}"):
                                continue
                            z.roots["t"] = v
                            if auto is not False:
                                self.started(z, d)
                            self.check_attrs(z)
                            out.append(z)
        return out

    def invalid(self, st, iv, d, auto):
        """Split by which argument is invalid."""
        res = []
        for z, t in num_ge0(st, iv - ONE):
            if not t:
                res.append((z, "an interval below 1 microsecond"))
                continue
            for y, t2 in num_ge0(z, d):
                if not t2:
                    res.append((y, "a negative start delay"))
                    continue
                if auto:
                    res.append((y, None))
                    continue
                for x, t3 in num_ge0(y, -d):
                    res.append((x, None if t3 else "a start delay without auto_start"))
        return res

    def started(self, st, d):
        """Ghost effect of a (re)start that read the clock last."""
        m = st.mon
        m["running"], m["pend"] = True, NONE
        if not self.need(len(m["reads"]) >= 1, st, "C24", "start-reads-clock", "starting does not read the clock"):
            m["sched"] = NONE
            return
        m["sched"] = m["reads"][-1] + d + self.iv

    # ---- state checks -----------------------------------------------------------------------------
    def check_attrs(self, st):
        t = st.roots["t"]
        fn = self.fnname
        for name, want, prop in (("is_running", K(bool(st.mon["running"])), "C24 C34"), ("loop", st.mon["loop"], "C24 C34"),
                                 ("interval", Td(self.iv), "C24 C34"),
                                 ("missed_tick_policy", Tok("policy", "user"), "C24 C34")):
            self.fnname = self.method_key(st, t, name)
            for z, v in self.getp(st.clone(), t, name):
                ok = v == want or isinstance(want, Td) and lin_same(v, want)
                self.need(ok, z, prop, "attribute", f"{name} is {v!r} instead of {want!r}")
        self.fnname = fn

    def norm(self, st):
        """Forget how the schedule came about."""
        st.frames, st.hand, st.heads = (), (), frozenset()
        m = st.mon
        m.update(reads=(), asked=0, tick=NONE, next=NONE, cancel=None)
        m.pop("resets", None)
        t = st.o(st.roots["t"])
        keep = []
        for k in ("sched", "pend"):
            g = m[k]
            n = g.us if isinstance(g, Td) else g if isinstance(g, Num) else None
            if n is None:
                continue
            a = iatom(st.fresh(k))
            w = st.w(st.roots["t"])
            for f, v in list(w.f.items()):
                u = v.us if isinstance(v, Td) else v if isinstance(v, Num) else None
                if u is not None and u.lin_eq(n):
                    w.f[f] = Td(a) if isinstance(v, Td) else Num(a.t, a.c, v.isint)
            m[k] = Td(a) if isinstance(g, Td) else a
            if k == "pend":
                keep.append((a, False))
        m["clock"] = NONE
        st.facts = frozenset(keep + [(self.iv - ONE, False)])
        return self.gc(st)

    # ---- operations -------------------------------------------------------------------------------
    def do_reset(self, st, withdelay=True):
        t = st.roots["t"]
        st.mon["reads"] = ()
        kw = {}
        d = Num((), 0, True)
        if withdelay:
            d = self.delay(st)
            kw = {"start_delay": Td(d)}
        fn = self.fnname
        self.fnname = self.method_key(st, t, "reset")
        op, self.op = self.op, "reset"
        out = []
        for e, v in self.invoke(st, t, "reset", (), kw):
            if self.need(not isinstance(v, Exc), e, "C24", "reset-raises", f"reset() raises {self.exc_name(e, v)}"):
                self.started(e, d)
                out.append(e)
        self.op, self.fnname = op, fn
        return out

    def do_stop(self, st):
        t = st.roots["t"]
        fn = self.fnname
        self.fnname = self.method_key(st, t, "stop")
        op, self.op = self.op, "stop"
        out = []
        again = not st.mon["running"] and st.mon.get("started")
        before = self.outlook(st, t) if again else None
        for e, v in self.invoke(st, t, "stop"):
            if again:
                self.need(not isinstance(v, Exc), e, "C39", "repeat-raises",
                          f"stopping a stopped timer raises {self.exc_name(e, v)}")
                self.need(isinstance(v, Exc) or self.outlook(e, t) == before, e, "C39", "repeat-changes",
                          "stopping a stopped timer changes what it reports")
            if self.need(not isinstance(v, Exc), e, "C24", "stop-raises", f"stop() raises {self.exc_name(e, v)}"):
                e.mon["running"] = False
                if e.mon["sched"] == NONE:
                    e.mon["never"] = False
                e.mon["started"] = True
                out.append(e)
        self.op, self.fnname = op, fn
        return out

    def interfere(self, st, depth=2):
        """Sequences of the timer's own reset()/stop() by other tasks."""
        out, cur = [(st, ())], [(st, ())]
        for _ in range(depth):
            nxt = []
            for s, ops in cur:
                for name, f in (("stop", self.do_stop), ("reset", self.do_reset)):
                    z0 = s.clone()
                    frames, hand, heads = z0.frames, z0.hand, z0.heads
                    z0.frames, z0.hand, z0.heads = (), (), frozenset()
                    reads = z0.mon["reads"]
                    for z in f(z0):
                        z.frames, z.hand, z.heads = frames, hand, heads
                        z.mon["reads"] = reads
                        z.note(f"meanwhile: {name}()")
                        nxt.append((z, ops + (name,)))
            out += nxt
            cur = nxt
        return out

    def t_susp(self, st, aw, node):
        m = st.mon
        if aw.kind not in ("sleep", "evwait"):
            raise Gap(f"waits on {aw.kind}")
        st.note(f"sleeps at {self.I.where(node)}")
        self.need(not m["asked"], st, "C13 C23", "tick-across-suspension",
                  "waits between taking a tick and reporting it", node=node)
        self.need(m["pend0"] == NONE, st, "C10 C24", "waits-with-pending-tick", "ready() waits although a tick is pending",
                  node=node)
        self.need(m["running0"] or m["fresh0"], st, "C24", "waits-when-stopped",
                  "ready() waits although the timer was stopped", node=node)
        arg = tonum(aw.a[1]) if aw.kind == "sleep" else None
        if arg is None and aw.kind == "sleep":
            raise Gap(f"sleep({aw.a[1]!r})")
        if arg is None:
            self.need(bool(tmo_scopes(st)), st, "C23", "wait-bounded", "waits without a time limit", node=node)
        elif not m["reads"]:
            self.bad(st, "C23", "wait-bounded", "waits without reading the clock", node=node)
        elif m["running"]:
            rest = m["sched"] - m["reads"][-1] if m["sched"] != NONE else None
            us = arg.scale(10 ** 6)
            self.need(rest is not None and entails_ge(st.facts, rest - us), st, "C23", "wait-bounded",
                      f"sleeps for {arg!r} seconds, longer than needed to reach the schedule", node=node)
            self.need(entails_ge(st.facts, us, True) or us.const == 0 and False, st, "C30", "sleep-positive",
                      "may sleep for no time at all", node=node)
        m["nsusp"] = 1
        m["reads"] = ()
        out = []
        fn = self.fnname
        for s, ops in self.interfere(st.clone()):
            self.fnname = fn
            if s.mon["cancel"] is None:
                c = s.clone()
                e = self.I.mkexc(c, "asyncio.exceptions.CancelledError")
                c.mon["cancel"] = e
                c.note("cancelled here")
                out.append((c, Exc(e)))
            if aw.kind == "sleep" or s.o(aw.a[1]).x["flag"] == TRUE:
                out.append((s, NONE))
        return out

    def op_ready(self, st):
        t = st.roots["t"]
        m = st.mon
        self.op = "ready"
        fn = self.fnname = self.method_key(st, t, "ready")
        m.update(reads=(), asked=0, tick=NONE, next=NONE, pend0=m["pend"], running0=m["running"],
                 fresh0=not m.get("started", False) and not m["running"], nsusp=0)
        m["autostart"] = m["fresh0"]
        self.susp = self.t_susp
        out = []
        for e, v in self.invoke(st, t, "ready"):
            self.op, self.fnname = "ready", fn
            e.mon.pop("autostart", None)
            e.frames, e.hand, e.heads = (), (), frozenset()
            x = e.mon
            canc = self.cancel_outcome(e, v, "ready() of a timer")
            if canc:
                self.need(not x["asked"], e, "C13", "cancel-takes", "a cancelled wait used up a tick")
                out.append(e)
                continue
            if not self.need(v in (TRUE, FALSE), e, "C10 C24", "ready-bool", f"ready() ends as {self.exc_name(e, v)}"):
                continue
            if x["pend0"] != NONE:
                self.need(v == TRUE and not x["asked"], e, "C10 C23", "pending-tick",
                          "ready() with a pending tick does something else than returning True")
            elif v == TRUE:
                self.need(x["asked"] == 1, e, "C23", "policy-once",
                          f"a tick is reported after asking the policy {x['asked']} times")
                self.need(x["running"], e, "C24", "tick-after-stop", "a tick is reported although the timer was stopped")
                if x["asked"]:
                    x["pend"], x["sched"] = x["tick"], x["next"]
            else:
                self.need(not x["running"], e, "C24 C10", "stop-while-running",
                          "ready() reports the stop of a running timer")
                self.need(not x["asked"], e, "C23", "policy-once", "the policy is asked although no tick is reported")
            self.check_attrs(e)
            self.promise(e, v)
            out.append(e)
        self.susp = None
        return out

    def promise(self, e, v):
        """C10: what ready() reported still holds whatever public methods are called before consume()."""
        t = e.roots["t"]
        fn = self.fnname
        for s, ops in self.interfere(e.clone(), 1):
            if v == FALSE and "reset" in ops:
                continue  # restarting is the documented end of a stop
            sfx = f" after {' and '.join(o + '()' for o in ops)}" if ops else ""

            def nosusp(z, aw, node):
                self.bad(z, "C10", "ready-again-suspends" + sfx,
                         f"ready() waits again although a previous ready() already returned {v!r}{sfx}", fn)
                return []
            self.susp = nosusp
            if "reset" not in ops:
                self.op = "ready again"
                for z, w in self.invoke(s.clone(), t, "ready"):
                    self.need(w == v, z, "C10", "ready-again" + sfx,
                              f"ready() returns {w!r} after it returned {v!r}{sfx}", fn)
            cfn = self.method_key(s, t, "consume")
            self.op = "consume"
            for z, w in self.invoke(s.clone(), t, "consume"):
                if v == TRUE:
                    if self.need(not isinstance(w, Exc), z, "C10", "consume-after-ready" + sfx,
                                 f"consume() raises {self.exc_name(z, w)} although ready() returned True{sfx}", cfn):
                        self.need(lin_same(w, e.mon["pend"]), z, "C23 C10", "drift",
                                  f"the message is {w!r} instead of {e.mon['pend']!r}{sfx}", cfn)
                else:
                    self.need(self.is_exc(z, w, "ReceiverStoppedError"), z, "C10 C24", "consume-after-stop" + sfx,
                              f"consume() gives {self.exc_name(z, w)} although ready() returned False{sfx}", cfn)
        self.susp = None
        self.op, self.fnname = "ready", fn

    def op_consume(self, st):
        t = st.roots["t"]
        self.op = "consume"
        fn = self.fnname = self.method_key(st, t, "consume")
        p = st.mon["pend"]
        st.mon["reads"] = ()
        out = []

        def nosusp(z, aw, node):
            return []
        self.susp = nosusp
        for e, v in self.invoke(st, t, "consume"):
            self.fnname = fn
            if p != NONE:
                if self.need(not isinstance(v, Exc), e, "C24 C10", "pending-tick-lost",
                             f"consume() raises {self.exc_name(e, v)} although a tick is pending"):
                    self.need(lin_same(v, p), e, "C23", "drift", f"the message is {v!r} instead of {p!r}")
                    n = v.us if isinstance(v, Td) else tonum(v)
                    self.need(n is not None and entails_ge(e.facts, n), e, "C23", "drift-nonnegative",
                              "the drift may be negative")
                e.mon["pend"] = NONE
            else:
                self.need(isinstance(v, Exc), e, "C10 C23", "consume-invents", f"consume() returns {v!r} without a tick")
                if self.is_exc(e, v, "ReceiverStoppedError"):
                    self.need(not e.mon["running"], e, "C24", "stop-while-running",
                              "consume() reports the stop of a running timer")
                    self.need(self.attrv(e, v.ref, "receiver") == t, e, "C24 C28", "stop-attributed",
                              "the ReceiverStoppedError does not carry the timer")
                elif isinstance(v, Exc):
                    self.need(self.I.exc_is(e, v.ref, "AssertionError"), e, "C28", "consume-error",
                              f"consume() raises {self.exc_name(e, v)}")
                    self.need(e.mon["running"] or not e.mon.get("started"), e, "C24", "stopped-consume",
                              f"consume() on a stopped timer raises {self.exc_name(e, v)}")
            self.check_attrs(e)
            out.append(e)
        self.susp = None
        return out

    def op_stop(self, st):
        st.mon["reads"] = ()
        out = self.do_stop(st)
        for e in out:
            self.check_attrs(e)
        return out

    def op_reset(self, st):
        out = self.do_reset(st, True) + self.do_reset(st.clone(), False)
        for e in out:
            e.mon["started"] = True
            self.check_attrs(e)
        return out

    def reset_negative(self, st):
        d = self.delay(st, nonneg=False)
        st.facts = add_fact(st.facts, -d - ONE)
        t = st.roots["t"]
        self.op = "reset"
        fn = self.fnname = self.method_key(st, t, "reset")
        before = {k: self.osnap(v) for k, v in st.heap.items()}
        for e, v in self.invoke(st, t, "reset", (), {"start_delay": Td(d)}):
            self.need(isinstance(v, Exc) and self.I.exc_is(e, v.ref, "builtins.ValueError"), e, "C24 C28",
                      "bad-argument-accepted", f"reset() with a negative delay gives {self.exc_name(e, v)}", fn)
            ch = self.changed(before, e)
            self.need(ch is None, e, "C24", "bad-argument-effect", f"a rejected reset() changes {ch}", fn)

    # ---- exploration ------------------------------------------------------------------------------
    def explore(self):
        work, seen = [], set()
        for s in self.constructions():
            s.mon["started"] = bool(s.mon["running"])
            s = self.norm(s)
            k = self.I.key(s)
            if k not in seen:
                seen.add(k)
                work.append(s)
        reached = 0
        n = 0
        while work:
            s = work.pop()
            reached += 1
            if reached > MAXSTATES:
                raise Gap("too many states")
            self.op = "observe"
            self.check_observers(s, [s.roots["t"]])
            self.reset_negative(s.clone())
            for op in ("ready", "consume", "stop", "reset"):
                try:
                    ends = getattr(self, "op_" + op)(s.clone())
                except Gap as g:
                    self.I.gap(NODE, f"{self.name}/{op}: {g}")
                    continue
                n += len(ends)
                for e in ends:
                    if op != "consume" and e.mon["running"]:
                        e.mon["started"] = True
                    e = self.norm(e)
                    k = self.I.key(e)
                    if k not in seen:
                        seen.add(k)
                        e.note(f"then {op}")
                        work.append(e)
        self.rep.states[self.name] = reached
        if not n:
            self.rep.vacuous.append(self.name)


class PolicyScn(SrcScn):
    name = "policies"
    known = ("TriggerAllMissed", "SkipMissedAndResync", "SkipMissedAndDrift")

    def run(self):
        base = self.cls("MissedTickPolicy", TM)
        if base is None:
            raise Gap("MissedTickPolicy not found")
        n = 0
        for c in self.prog.all_classes():
            if c is base or c.mod.name == HARNESS or not hasattr(c, "oid") or not self.I.is_sub(c, base):
                continue
            if c.name not in self.known:
                self.I.gap(c.node, f"policy {c.name} has no documented next tick to compare with")
                continue
            n += 1
            self.one(c)
        self.rep.states[self.name] = n
        if not n:
            self.rep.vacuous.append(self.name)

    def susp0(self, st, aw, node):
        self.bad(st, "C30", "policy-suspends", "a policy waits")
        return []

    def one(self, c):
        self.susp = self.susp0
        now, sched, iv = iatom("now"), iatom("scheduled"), iatom("interval")
        variants = [((), None)]
        if c.name == "SkipMissedAndDrift":
            variants = [((), Num((), 0, True)), (("tol",), iatom("tol"))]
        for args, tol in variants:
            st = self.base.clone()
            kw = {"delay_tolerance": Td(tol)} if args else {}
            self.fnname = f"{c.mod.rel}:{c.qual}.__init__"
            if args:
                z = st.clone()
                z.facts = add_fact(z.facts, -tol - ONE)
                for e, v in self.callv(z, ClsV(c), [], kw):
                    self.need(isinstance(v, Exc) and self.I.exc_is(e, v.ref, "builtins.ValueError"), e, "C25 C28",
                              "negative-tolerance", f"a negative tolerance gives {self.exc_name(e, v)}")
                st.facts = add_fact(st.facts, tol)
            for e, v in self.callv(st, ClsV(c), [], kw):
                if not self.need(not isinstance(v, Exc), e, "C25", "construction",
                                 f"{c.name}() raises {self.exc_name(e, v)}"):
                    continue
                e.roots["p"] = v
                e.frames, e.hand = (), ()
                if tol is not None:
                    self.fnname = self.method_key(e, v, "delay_tolerance")
                    for z, w in self.getp(e.clone(), v, "delay_tolerance"):
                        self.need(lin_same(w, Td(tol)), z, "C25 C34", "tolerance",
                                  f"delay_tolerance is {w!r} instead of {tol!r}")
                self.check_observers(e, [v])
                fn = self.fnname = self.method_key(e, v, "calculate_next_tick_time")
                for f in (now - sched, iv - ONE):
                    e.facts = add_fact(e.facts, f)
                kw2 = {"now": now, "scheduled_tick_time": sched, "interval": iv}
                # asked twice: the answer does not depend on earlier ones
                cur = [e]
                before = {k: self.osnap(o) for k, o in e.heap.items()}
                for z, r in self.invoke(e.clone(), v, "calculate_next_tick_time", (), kw2):
                    self.fnname = fn
                    ch = self.changed(before, z)
                    self.need(ch is None, z, "C25 C29", "stateless", f"asking the policy changes {ch}")
                    self.answer(c, z, r, now, sched, iv, tol)

    def answer(self, c, st, r, now, sched, iv, tol):
        rn = tonum(r) if not isinstance(r, Exc) else None
        if not self.need(rn is not None and rn.integral(), st, "C25", "integer",
                         f"the next tick is {self.exc_name(st, r)}, not an integer"):
            return
        if c.name == "TriggerAllMissed":
            self.need(rn.lin_eq(sched + iv), st, "C25", "trigger-all-missed",
                      f"the next tick is {rn!r} instead of scheduled + interval")
        elif c.name == "SkipMissedAndDrift":
            late = now - sched - tol
            for cond, want, txt in (((late - ONE), now + iv, "now + interval"),
                                    ((-late), sched + iv, "scheduled + interval")):
                f = add_fact(st.facts, cond)
                if f is None:
                    continue
                d = rn - want
                ok = entails_ge(f, d) and entails_ge(f, -d)
                self.need(ok, st, "C25", "skip-and-drift", f"the next tick is {rn!r} instead of {txt}")
        else:
            z = st
            self.need(entails_ge(z.facts, rn - now, True), z, "C25", "resync-future",
                      f"the next tick {rn!r} may not lie after now")
            self.need(entails_ge(z.facts, now + iv - rn), z, "C25", "resync-next",
                      f"the next tick {rn!r} may lie more than an interval after now")
            self.need(self.multiple(z, rn - sched, iv), z, "C25", "resync-aligned",
                      f"the next tick {rn!r} is not scheduled plus a multiple of the interval")

    def multiple(self, st, n, iv):
        """n is an integer multiple of iv for all values of the atoms."""
        if n.c:
            return False
        ia = iv.t[0][0]
        for a, q in n.t:
            if q.denominator != 1:
                return False
            if a == ia:
                continue
            if a[0] == "prod" and iv in a[1:] and all(x.integral() for x in a[1:]):
                continue
            return False
        return True


def run_timer(prog, rep, tier):
    from .chan import _guard
    s = TimerScn(prog, rep)
    _guard(rep, s, s.explore)


def run_policies(prog, rep, tier):
    from .chan import _guard
    s = PolicyScn(prog, rep)
    _guard(rep, s, s.run)
