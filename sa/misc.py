"""Event (C22) and FileWatcher (C26, C27)."""
from __future__ import annotations

from .interp import Gap
from .scn import NODE
from .recv import SrcScn
from .sel import TaskScn
from .state import reach
from .values import FALSE, NONE, TRUE, App, Aw, ClsV, EnumM, Exc, Ext, K, Ref, Tok, Tup

CANC = "asyncio.exceptions.CancelledError"
EV = "frequenz.channels.event"
FW = "frequenz.channels.file_watcher"
MAXSTATES = 600


class EventScn(SrcScn):
    name = "event"

    def start(self):
        st = self.base.clone()
        st.mon.update(set=False, stopped=False, cancel=None, waiters=())
        return st

    def check_attrs(self, st):
        ev, fn = st.roots["ev"], self.fnname
        for n, want in (("is_set", K(st.mon["set"])), ("is_stopped", K(st.mon["stopped"])), ("name", st.mon["name"])):
            self.fnname = self.method_key(st, ev, n)
            for z, v in self.getp(st.clone(), ev, n):
                if want is not None:
                    self.need(v == want, z, "C22 C34", "attribute", f"{n} is {self.exc_name(z, v)} instead of {want!r}")
        self.fnname = fn

    def truths(self, st, ref):
        name = st.mon["name"]
        out = {"is_set": ("is", K(bool(st.mon["set"]))), "is_stopped": ("is", K(bool(st.mon["stopped"])))}
        if name is not None:
            out.update({"name": ("is", name), "__str__": ("shows", name), "__repr__": ("shows", name)})
        return out

    def settle(self, st):
        st.frames, st.hand, st.heads = (), (), frozenset()
        st.mon.update(cancel=None, waiters=())
        return self.gc(st)

    def act(self, st, name):
        """set() or stop() by anybody.  A set() after the stop is not specified."""
        ev = st.roots["ev"]
        if name == "set" and st.mon["stopped"]:
            return []
        fn = self.fnname
        self.fnname = self.method_key(st, ev, name)
        st = st.clone()
        frames, hand, heads = st.frames, st.hand, st.heads
        st.frames, st.hand, st.heads = (), (), frozenset()

        saved, self.susp = self.susp, self.nosusp(name)
        out = []
        again = name == "stop" and st.mon["stopped"]
        before = self.outlook(st, ev) if again else None
        for e, v in self.invoke(st, ev, name):
            if again:
                self.need(not isinstance(v, Exc), e, "C39", "repeat-raises",
                          f"stopping a stopped event raises {self.exc_name(e, v)}")
                self.need(isinstance(v, Exc) or self.outlook(e, ev) == before, e, "C39", "repeat-changes",
                          "stopping a stopped event changes what it reports")
            if self.need(not isinstance(v, Exc), e, "C22", "action-raises", f"{name}() raises {self.exc_name(e, v)}"):
                e.mon["set" if name == "set" else "stopped"] = True
                e.frames, e.hand, e.heads = frames, hand, heads
                e.note(f"{name}()")
                out.append(e)
        self.susp, self.fnname = saved, fn
        return out

    def nosusp(self, what):
        def f(z, aw, node):
            self.bad(z, "C30 C22", "suspends", f"{what} suspends", node=node)
            return []
        return f

    def acts(self, st, depth):
        out, cur = [(st, ())], [(st, ())]
        for _ in range(depth):
            cur = [(z, ops + (n,)) for s, ops in cur for n in ("set", "stop") for z in self.act(s, n)]
            out += cur
        return out

    def w_susp(self, st, aw, node):
        if aw.kind not in ("evwait", "cvwait", "sleep"):
            raise Gap(f"waits on {aw.kind}")
        sleep = aw.kind == "sleep"
        st.note(f"waits at {self.I.where(node)}")
        self.need(not st.mon["set"] and not st.mon["stopped"], st, "C22", "waits-when-ready",
                  "ready() waits although the event is set or stopped", node=node)
        st.mon["waiters"] = () if sleep else (("w", aw.a[1], False),)
        out = []
        fn = self.fnname
        for s, ops in self.acts(st.clone(), 2):
            self.fnname = fn
            woken = sleep or s.mon["waiters"][0][2]
            if ops:
                self.need(woken, s, "C22", "lost-wakeup",
                          f"{ops[0]}() does not wake a receiver that waits for the event", node=node)
            if s.mon["cancel"] is None:
                c = s.clone()
                e = self.I.mkexc(c, CANC)
                c.mon.update(cancel=e, waiters=())
                c.note("cancelled here")
                out.append((c, Exc(e)))
            if woken:
                s.mon["waiters"] = ()
                out.append((s, NONE))
        return out

    def op_ready(self, st):
        ev = st.roots["ev"]
        fn = self.fnname = self.method_key(st, ev, "ready")
        self.susp = self.w_susp
        out = []
        for e, v in self.invoke(st, ev, "ready"):
            self.fnname = fn
            canc = self.cancel_outcome(e, v, "ready() of an event")
            e.frames, e.hand, e.heads = (), (), frozenset()
            if canc:
                for n, f in (("is_set", "set"), ("is_stopped", "stopped")):
                    self.need(self.attrv(e, ev, n) == K(e.mon[f]), e, "C13", "cancel-takes",
                              "a cancelled wait changes the event")
            else:
                if not self.need(v in (TRUE, FALSE), e, "C10 C22", "ready-bool",
                                 f"ready() ends as {self.exc_name(e, v)}"):
                    continue
                if v == TRUE:
                    self.need(e.mon["set"], e, "C22 C10", "ready-unset", "ready() returns True although nothing is set")
                else:
                    self.need(e.mon["stopped"], e, "C22 C10", "stop-too-early",
                              "ready() reports a stop although stop() was not called")
                    self.need(not e.mon["set"], e, "C22 C18 C10", "stop-hides-set",
                              "ready() reports a stop although a set event was not received")
                self.promise(e, v)
            out.append(e)
        return out

    def promise(self, e, v):
        ev, fn = e.roots["ev"], self.fnname
        for s, ops in self.acts(e.clone(), 2):
            sfx = f" after {' and '.join(o + '()' for o in ops)}" if ops else ""

            def again(z, aw, node):
                self.bad(z, "C10", "ready-again-suspends", f"ready() waits again although a previous ready() "
                         f"already returned {v!r}{sfx}", fn)
                return []
            self.susp = again
            for z, w in self.invoke(s.clone(), ev, "ready"):
                self.need(w == v, z, "C10", "ready-again", f"ready() returns {w!r} after it returned {v!r}{sfx}", fn)
            cfn = self.method_key(s, ev, "consume")
            for z, w in self.invoke(s.clone(), ev, "consume"):
                if v == TRUE:
                    self.need(w == NONE, z, "C10", "consume-after-ready",
                              f"consume() gives {self.exc_name(z, w)} although ready() returned True{sfx}", cfn)
                else:
                    self.need(self.is_exc(z, w, "ReceiverStoppedError"), z, "C10 C22", "consume-after-stop",
                              f"consume() gives {self.exc_name(z, w)} although ready() returned False{sfx}", cfn)
        self.fnname = fn

    def op_consume(self, st):
        ev = st.roots["ev"]
        fn = self.fnname = self.method_key(st, ev, "consume")
        was = st.mon["set"]
        self.susp = self.nosusp("consume()")
        out = []
        for e, v in self.invoke(st, ev, "consume"):
            self.fnname = fn
            if was:
                self.need(v == NONE, e, "C22 C10", "set-lost", f"consume() gives {self.exc_name(e, v)} although the "
                          "event is set")
                e.mon["set"] = False
            elif self.need(isinstance(v, Exc), e, "C22 C10", "consume-invents", "consume() succeeds without a set"):
                if self.is_exc(e, v, "ReceiverStoppedError"):
                    self.need(e.mon["stopped"], e, "C22", "stop-too-early",
                              "consume() reports a stop although stop() was not called")
                    self.need(self.attrv(e, v.ref, "receiver") == ev, e, "C22 C28", "stop-attributed",
                              "the ReceiverStoppedError does not carry the event")
                else:
                    self.need(self.I.exc_is(e, v.ref, "AssertionError"), e, "C28", "consume-error",
                              f"consume() raises {self.exc_name(e, v)}")
                    self.need(not e.mon["stopped"], e, "C22", "stopped-consume",
                              f"consume() on a stopped event raises {self.exc_name(e, v)}")
            out.append(e)
        return out

    def op_set(self, st):
        return self.act(st, "set")

    def op_stop(self, st):
        return self.act(st, "stop")

    def explore(self):
        c = self.glob(self.base, "Event", EV)
        if not isinstance(c, ClsV):
            raise Gap("Event not found")
        work, seen = [], set()
        self.susp = self.nosusp("construction")
        for kw in ({}, {"name": NONE}, {"name": Tok("str", "given")}):
            self.fnname = f"{c.cls.mod.rel}:{c.cls.qual}.__init__"
            for e, v in self.callv(self.start(), c, [], kw):
                if self.need(not isinstance(v, Exc), e, "C22", "construction", f"Event() raises {self.exc_name(e, v)}"):
                    e.roots["ev"] = v
                    e.mon["name"] = kw["name"] if isinstance(kw.get("name"), Tok) else None
                    work.append(self.settle(e))
        for s in work:
            seen.add(self.I.key(s))
        n = reached = 0
        while work:
            s = work.pop()
            reached += 1
            if reached > MAXSTATES:
                raise Gap("too many states")
            self.check_attrs(s)
            self.check_observers(s, [s.roots["ev"]])
            for op in ("ready", "consume", "set", "stop"):
                try:
                    ends = getattr(self, "op_" + op)(s.clone())
                except Gap as g:
                    self.I.gap(NODE, f"{self.name}/{op}: {g}")
                    continue
                n += len(ends)
                for e in ends:
                    self.check_attrs(e)
                    e = self.settle(e)
                    k = self.I.key(e)
                    if k not in seen:
                        seen.add(k)
                        e.note(f"then {op}")
                        work.append(e)
        self.rep.states[self.name] = reached
        if not n:
            self.rep.vacuous.append(self.name)


KINDS = {"added": "CREATE", "modified": "MODIFY", "deleted": "DELETE"}


class WatchScn(TaskScn):
    """FileWatcher over an abstract watch: arbitrary filtered batches until it ends."""
    name = "file watcher"

    # ---- the abstract watch -----------------------------------------------------------------------
    def call_ext(self, I, st, path, args, kwargs, node):
        if path == "watchfiles.awatch":
            r = st.new("xagen", None, {"args": Tup(*args), "stop": kwargs.get("stop_event", NONE),
                                       "filter": kwargs.get("watch_filter", Ext("watchfiles.DefaultFilter"))})
            st.mon["watches"] = st.mon["watches"] + (r,)
            for k in kwargs:
                if k in ("recursive", "yield_on_timeout", "ignore_permission_denied", "debounce", "step",
                         "rust_timeout", "force_polling", "poll_delay_ms", "debug", "stop_event", "watch_filter",
                         "raise_interrupt"):
                    continue
                raise Gap(f"awatch({k}=...)")
            self.need(kwargs.get("recursive", TRUE) == TRUE, st, "C26", "watches-recursively",
                      "directories are not watched recursively", node=node)
            st.mon["timeouts"] = kwargs.get("yield_on_timeout", FALSE) == TRUE
            return [(st, r)]
        return super().call_ext(I, st, path, args, kwargs, node)

    def await_other(self, I, st, v, node):
        if v.kind != "xagen":
            return super().await_other(I, st, v, node)
        if v.a[2] != "__anext__":
            raise Gap(f"{v.a[2]} of the watch")
        if self.probe is not None:
            self.probe.append("watch")
            return []
        m = st.mon
        self.need(v.a[1] == m["watches"][0], st, "C26", "one-watch", "waits for another watch than the first",
                  node=node)
        if m["ended"]:
            return self.stop_iteration(st)
        out = []
        starts = [(st, NONE)]
        if self.cur is None:
            starts = self.I.suspend(st, v, node)
        elif self.cur[1]:
            z = st.clone()
            z.mon["ended"] = True
            z.mon["killed"] = True
            out.append((z, Exc(self.I.mkexc(z, CANC))))
        for s, x in starts:
            if isinstance(x, Exc):
                out.append((s, x))
                continue
            z = s.clone()
            z.mon["ended"] = True
            z.note("the watch ends")
            out += self.stop_iteration(z)
            out += self.batches(s, v.a[1], node)
        return out

    def stop_iteration(self, st):
        e = self.I.mkexc(st, "builtins.StopAsyncIteration")
        st.mon["end"] = e
        return [(st, Exc(e))]

    def raw(self):
        p, q = "p", "q"
        yield from ([(k, p)] for k in KINDS)
        yield [("added", p), ("modified", p)]
        yield [("modified", p), ("modified", q)]
        yield [("deleted", p), ("added", q)]
        if self.deep:
            yield [("added", p), ("modified", p), ("deleted", q)]
            yield [("added", p), ("added", q), ("modified", q), ("deleted", p)]

    def batches(self, st, watch, node):
        out = []
        for raw in self.raw():
            s = st.clone()
            paths = {n: Tok("str", s.fresh("path")) for n in sorted({n for _, n in raw})}
            cur = [(s, [])]
            for k, n in raw:
                nxt = []
                for a, got in cur:
                    for b, r in self.filtered(a, watch, k, paths[n], node):
                        want = k in self.requested
                        self.need(not want or r, b, "C26", "change-filtered-out",
                                  f"a {KINDS[k]} change is filtered out although it was requested", node=node)
                        ch = Tup(Ext("watchfiles.Change." + k), paths[n])
                        if want and r:
                            b.mon["und"] = b.mon["und"] + (ch,)
                        nxt.append((b, got + [ch] if r else got))
                cur = nxt
            for a, got in cur:
                if got:
                    a.note(f"the watch reports {len(got)} changes")
                    out.append((a, a.new("set", items=got)))
        if st.mon["timeouts"]:
            z = st.clone()
            out.append((z, z.new("set", items=[])))
        return out

    def filtered(self, st, watch, k, path, node):
        f = st.o(watch).f["filter"]
        if f == NONE:
            return [(st, True)]
        if isinstance(f, Ext):
            self.bad(st, "C26", "change-filtered-out", f"changes are filtered by {f.path}", node=node)
            return [(st, True)]
        frames, hand, heads = st.frames, st.hand, st.heads
        st.frames, st.hand, st.heads = (), (), frozenset()
        out = []
        for s, v in self.callv(st, f, [Ext("watchfiles.Change." + k), path]):
            if not self.need(not isinstance(v, Exc), s, "C26", "filter-raises",
                             f"the change filter raises {self.exc_name(s, v)}", node=node):
                continue
            from .models import truth
            for z, t in truth(self.I, s, v, node):
                z.frames, z.hand, z.heads = frames, hand, heads
                out.append((z, t is True))
        return out

    # ---- waiting ----------------------------------------------------------------------------------
    def first_wait(self, st, coro):
        return {"watch"} if len(super().first_wait(st, coro)) == 1 else set()

    def at_wait(self, st, aw, node):
        if self.op != "ready":
            self.bad(st, "C30", "suspends", f"{self.op} suspends", node=node)
            return
        self.need(not st.mon["und"], st, "C26 C10", "message-delayed",
                  "ready() waits although a change was not handed out", node=node)
        self.need(not st.mon["ended"] or st.mon["cancel"] is not None, st, "C27", "waits-after-end",
                  "ready() waits although the watch has ended", node=node)

    def t_susp(self, st, aw, node):
        if aw.kind != "xagen":
            return super().t_susp(st, aw, node)
        st.note(f"waits at {self.I.where(node)}")
        self.at_wait(st, aw, node)
        out = [(st.clone(), NONE)]
        if self.may_cancel(st, aw):
            c, x = self.cancelled(st.clone(), aw)
            # a cancelled asynchronous generator is finished
            c.mon["ended"] = c.mon["killed"] = True
            out.append((c, x))
        return out

    # ---- operations -------------------------------------------------------------------------------
    def nosusp(self, what):
        def f(z, aw, node):
            self.bad(z, "C10 C26", "suspends", f"{what} suspends", node=node)
            return []
        return f

    def op_ready(self, st):
        fw = st.roots["fw"]
        self.op = "ready"
        fn = self.fnname = self.method_key(st, fw, "ready")
        self.susp = self.t_susp
        ended0 = st.mon["ended"]
        und0 = st.mon["und"]
        out = []
        for e, v in self.invoke(st, fw, "ready"):
            self.fnname = fn
            canc = self.cancel_outcome(e, v, "ready() of a file watcher")
            e.frames, e.hand, e.heads = (), (), frozenset()
            m = e.mon
            if canc:
                self.need(not m.get("killed") or ended0, e, "C13", "cancel-ends-watch",
                          "cancelling a wait finishes the underlying watch: later receives report a stop and no "
                          "further change is received")
            elif self.need(v in (TRUE, FALSE), e, "C10", "ready-bool", f"ready() ends as {self.exc_name(e, v)}"):
                if v == TRUE:
                    self.need(bool(m["und"]), e, "C10 C26", "ready-true-has-change",
                              "ready() returns True although there is no change to hand out")
                else:
                    self.need(m["ended"], e, "C27", "stop-too-early",
                              "ready() reports a stop although the watch is active")
                    self.need(not m["und"], e, "C27 C26", "stop-hides-change",
                              "ready() reports a stop although a change was not handed out")
                self.promise(e, v)
            if und0:
                self.need(m["und"] == und0, e, "C26", "change-overwritten",
                          "ready() takes another batch although changes are pending")
            self.held(e)
            out.append(e)
        return out

    def promise(self, e, v):
        fw, fn = e.roots["fw"], self.fnname
        self.susp = self.nosusp("a repeated ready()")
        self.op = "ready again"
        for z, w in self.invoke(e.clone(), fw, "ready"):
            self.need(w == v and z.mon["und"] == e.mon["und"], z, "C10", "ready-again",
                      f"ready() returns {w!r} after it returned {v!r}", fn)
        cfn = self.method_key(e, fw, "consume")
        for z, w in self.invoke(e.clone(), fw, "consume"):
            if v == TRUE:
                self.need(not isinstance(w, Exc), z, "C10", "consume-after-ready",
                          f"consume() raises {self.exc_name(z, w)} although ready() returned True", cfn)
            else:
                self.need(self.is_exc(z, w, "ReceiverStoppedError"), z, "C10 C27", "consume-after-stop",
                          f"consume() gives {self.exc_name(z, w)} although ready() returned False", cfn)
        self.op, self.fnname = "ready", fn
        self.susp = self.t_susp

    def held(self, st):
        keep = []
        for ch in st.mon["und"]:
            if self.need(self.holds(st, ch), st, "C26", "change-lost",
                         "a change delivered by the watch is no longer held by the watcher"):
                keep.append(ch)
        st.mon["und"] = tuple(keep)  # what was lost is reported once

    def holds(self, st, ch):
        """The watcher reaches the path of the change."""
        for i in reach(st, [st.roots["fw"]]):
            o = st.heap[i]
            for v in list(o.f.values()) + list(o.items or ()) + list(o.x.values()):
                if ch.a[1] in _paths(v):
                    return True
        return False

    def op_consume(self, st):
        fw = st.roots["fw"]
        self.op = "consume"
        fn = self.fnname = self.method_key(st, fw, "consume")
        self.susp = self.nosusp("consume()")
        und = st.mon["und"]
        ec = self.glob(st, "Event", FW)
        et = self.glob(st, "EventType", FW)
        out = []
        for e, v in self.invoke(st, fw, "consume"):
            self.fnname = fn
            if isinstance(v, Exc):
                if self.is_exc(e, v, "ReceiverStoppedError"):
                    self.need(e.mon["ended"], e, "C27", "stop-too-early",
                              "consume() reports a stop although the watch is active")
                    self.need(not und, e, "C27 C26", "stop-hides-change",
                              "consume() reports a stop although a change was not handed out")
                    self.need(self.attrv(e, v.ref, "receiver") == fw, e, "C27 C28", "stop-attributed",
                              "the ReceiverStoppedError does not carry the watcher")
                    ch = self.chain(e, v.ref, onlycause=True)
                    self.need(e.mon["end"] in ch or any(self.I.exc_is(e, x, "StopAsyncIteration") for x in ch), e, "C27 C28", "stop-cause",
                              "the stop is not caused by the end of the watch")
                else:
                    self.need(self.I.exc_is(e, v.ref, "AssertionError"), e, "C28 C26", "consume-error",
                              f"consume() raises {self.exc_name(e, v)}")
                    self.need(not und, e, "C26 C10", "consume-after-ready",
                              "consume() fails although a change is pending")
                out.append(e)
                continue
            ok = self.need(isinstance(v, Ref) and isinstance(ec, ClsV) and e.o(v).cls is ec.cls, e, "C26",
                           "hands-out-events", f"consume() returns {v!r}, not an Event")
            if not ok:
                continue
            typ, path = self.attrv(e, v, "type"), self.attrv(e, v, "path")
            hit = None
            for ch in und:
                if path == App("Path", ch.a[1]):
                    k = ch.a[0].path.rsplit(".", 1)[1]
                    if typ == EnumM(et.cls, KINDS[k]):
                        hit = ch
            if self.need(hit is not None, e, "C26", "event-matches-change",
                         f"the event ({typ!r}, {path!r}) matches no undelivered change"):
                u = list(und)
                u.remove(hit)
                e.mon["und"] = tuple(u)
            self.held(e)
            out.append(e)
        return out

    def op_tick(self, st):
        self.op = "tick"
        return [z for t in self.pending(st) for z in self.complete(st, t)]

    # ---- exploration ------------------------------------------------------------------------------
    def settle(self, st):
        st.frames, st.hand, st.heads = (), (), frozenset()
        st.mon["cancel"] = None
        return self.gc(st)

    def construct(self, st, paths, kw):
        c = self.glob(st, "FileWatcher", FW)
        if not isinstance(c, ClsV):
            raise Gap("FileWatcher not found")
        st.mon.update(tasks=(), cancel=None, watches=(), ended=False, end=NONE, killed=False, und=(), timeouts=False)
        self.op = "construction"
        self.fnname = f"{c.cls.mod.rel}:{c.cls.qual}.__init__"
        self.susp = self.nosusp("construction")
        pl = st.new("list", items=list(paths))
        out = []
        for e, v in self.callv(st, c, [pl], kw):
            if not self.need(not isinstance(v, Exc), e, "C26", "construction",
                             f"FileWatcher() raises {self.exc_name(e, v)}"):
                continue
            e.roots["fw"] = v
            if not self.need(len(e.mon["watches"]) == 1, e, "C26", "one-watch",
                             f"{len(e.mon['watches'])} watches are started"):
                continue
            w = e.o(e.mon["watches"][0])
            got = {self.strip(a) for a in w.f["args"].items}
            self.need(all(self.strip(p) in got for p in paths), e, "C26", "all-paths-watched",
                      f"not all given paths are watched ({len(paths)} given)")
            et = self.attrv(e, v, "event_types")
            if isinstance(et, Ref) and all(isinstance(x, EnumM) for x in e.o(et).items or ()):
                names = sorted(x.a[1] for x in e.o(et).items or ())
                self.need(names == sorted(n for k, n in KINDS.items() if k in self.requested), e, "C34 C26",
                          "accessor-truth", f"event_types is {names}")
            self.rep.ok("C26", "constructed")
            out.append(e)
        return out

    @staticmethod
    def strip(p):
        while isinstance(p, App) and p.a[0] in ("Path", "str", "strop"):
            p = p.a[1]
        return p

    def etypes(self, st, names, oneshot=False):
        et = self.glob(st, "EventType", FW)
        r = st.new("list", items=[EnumM(et.cls, n) for n in names])
        if oneshot:
            s, r = self.I.call(st, Ext("builtins.iter"), [r], {}, NODE)[0]
        return r

    def truths(self, st, ref):
        return {"__repr__": ("shows", *[Tok("str", f"path{i}") for i in range(self.npaths)])} if self.npaths else {}

    def state_check(self, st):
        fw = st.roots["fw"]
        self.op = "observe"
        self.check_observers(st, [fw])
        self.held(st)
        sev = st.o(st.mon["watches"][0]).f["stop"]
        fn = self.method_key(st, fw, "__del__")
        if not self.need(isinstance(sev, Ref) and st.o(sev).kind == "aevent", st, "C27", "drop-stops-watch",
                         "the watch is started without a stop event: destroying the watcher does not end it", fn):
            return
        self.need(st.o(sev).x["flag"] == FALSE, st, "C27", "stop-event-set-early",
                  "the watch is told to end although the watcher is alive", fn)
        s = st.clone()
        self.op = "del"
        m = self.I.find_method(s.o(fw).cls, "__del__")
        if not self.need(bool(m and m[1] is not None), s, "C27", "drop-stops-watch",
                         "destroying the watcher does not signal the watch to end", fn):
            return
        self.fnname = fn
        for e, v in self.invoke(s, fw, "__del__"):
            self.need(not isinstance(v, Exc), e, "C27", "drop-stops-watch", "destroying the watcher raises")
            self.need(e.o(sev).x["flag"] == TRUE, e, "C27", "drop-stops-watch",
                      "destroying the watcher does not signal the watch to end")

    def explore(self, label, kw, requested, paths=1, oneshot=False):
        self.name = f"file watcher ({label})"
        self.requested = {k for k, n in KINDS.items() if n in requested}
        self.op = "construction"
        self.npaths = paths
        st = self.base.clone()
        if kw is not None:
            kw = {"event_types": self.etypes(st, kw, oneshot)}
        ps = [Tok("str", f"path{i}") if i % 2 else App("Path", Tok("str", f"path{i}")) for i in range(paths)]
        work = [self.settle(e) for e in self.construct(st, ps, kw or {})]
        seen = {self.I.key(s) for s in work}
        n = reached = 0
        while work:
            s = work.pop()
            reached += 1
            if reached > MAXSTATES:
                raise Gap("too many states")
            self.state_check(s)
            for op in ("ready", "consume", "tick"):
                try:
                    ends = getattr(self, "op_" + op)(s.clone())
                except Gap as g:
                    self.I.gap(NODE, f"{self.name}/{op}: {g}")
                    continue
                n += len(ends)
                for e in ends:
                    if len(e.mon["und"]) > 8:
                        self.I.gap(NODE, f"{self.name}: collects changes without bound")
                        continue
                    e = self.settle(e)
                    k = self.I.key(e)
                    if k not in seen:
                        seen.add(k)
                        e.note(f"then {op}")
                        work.append(e)
        self.rep.states[self.name] = reached
        if not n:
            self.rep.vacuous.append(self.name)


def _paths(v):
    if isinstance(v, Tok):
        return [v]
    out = []
    for x in getattr(v, "a", ()) if not isinstance(v, (tuple, list)) else v:
        if not isinstance(x, (str, int)):
            out += _paths(x)
    return out


def run_event(prog, rep, tier):
    from .chan import _guard
    s = EventScn(prog, rep)
    _guard(rep, s, s.explore)


def run_watcher(prog, rep, tier):
    from .chan import _guard
    al = list(KINDS.values())
    cfgs = [("default", None, al, 1, False), ("no path", None, al, 0, False), ("several paths", None, al, 5, False),
            ("CREATE", ["CREATE"], ["CREATE"], 2, False), ("MODIFY, once", ["MODIFY"], ["MODIFY"], 1, True),
            ("DELETE", ["DELETE"], ["DELETE"], 1, False), ("none", [], [], 1, False)]
    for label, kw, req, n, one in cfgs:
        s = WatchScn(prog, rep)
        s.deep = tier == "thorough"
        _guard(rep, s, lambda: s.explore(label, kw, req, n, one))
