"""Objects are created while no event loop runs: constructors must not need one (unless documented)."""
from __future__ import annotations

from .chan import AnycastScn, BroadcastScn, _guard
from .interp import Gap
from .misc import EventScn, WatchScn
from .recv import ReceiverScn
from .tim import TimerScn
from .values import FALSE, NONE, ClsV, Exc, K, Td, Tok, iatom


class NoLoop:
    def made(self, res, what, fn):
        """The normal outcomes of a creation."""
        out = []
        for s, v in res:
            self.need(not isinstance(v, Exc), s, "C37", "creation-needs-no-loop",
                      f"{what} raises {self.exc_name(s, v)} while no event loop runs", fn)
            if not isinstance(v, Exc):
                s.frames, s.hand, s.heads = (), (), frozenset()
                out.append((s, v))
        return out

    def nosuspend(self, st, aw, node):
        return []

    def key(self, v):
        return f"{v.cls.mod.rel}:{v.cls.qual}"

    def gc(self, st):
        return st


class NoLoopChannel(NoLoop):
    def make(self, **kw):
        self.I.noloop, self.susp = True, self.nosuspend
        c = self.glob(self.base, self.chan_cls)
        if not isinstance(c, ClsV):
            raise Gap(f"{self.chan_cls} not found")
        for st, ch in self.made(self.callv(self.base.clone(), c, [], {"name": Tok("str", "name"), **kw}),
                                f"{self.chan_cls}()", self.key(c)):
            st.roots["ch"] = ch
            for m in ("new_sender", "new_receiver"):
                for s, v in self.made(self.invoke(st.clone(), ch, m), f"{m}()", self.method_key(st, ch, m)):
                    if m == "new_receiver":
                        self.made(self.invoke(s, v, "map", [Tok("fn", "mapping")]), "map()",
                                  self.method_key(s, v, "map"))
                        self.made(self.invoke(s.clone(), v, "__aiter__"), "aiter()",
                                  self.method_key(s, v, "__aiter__"))
        self.rep.states[self.name] = 1


class NoLoopAnycast(NoLoopChannel, AnycastScn):
    name = "anycast without a loop"


class NoLoopBroadcast(NoLoopChannel, BroadcastScn):
    def __init__(self, prog, rep):
        BroadcastScn.__init__(self, prog, rep, True)
        self.name = "broadcast without a loop"


class NoLoopEvent(NoLoop, EventScn):
    name = "event without a loop"

    def make(self):
        self.I.noloop, self.susp = True, self.nosuspend
        c = self.glob(self.base, "Event", "frequenz.channels.event")
        if not isinstance(c, ClsV):
            raise Gap("Event not found")
        for st, ev in self.made(self.callv(self.start(), c, [], {"name": Tok("str", "name")}), "Event()", self.key(c)):
            for m in ("set", "stop"):
                self.made(self.invoke(st.clone(), ev, m), f"{m}()", self.method_key(st, ev, m))
            for s, _ in self.invoke(st.clone(), ev, "set"):
                self.made(self.invoke(s, ev, "consume"), "consume()", self.method_key(s, ev, "consume"))
        self.rep.states[self.name] = 1


class NoLoopWatcher(NoLoop, WatchScn):
    name = "file watcher without a loop"

    def make(self):
        self.I.noloop, self.susp = True, self.nosuspend
        c = self.glob(self.base, "FileWatcher", "frequenz.channels.file_watcher")
        if not isinstance(c, ClsV):
            raise Gap("FileWatcher not found")
        st = self.base.clone()
        st.mon.update(tasks=(), cancel=None, watches=(), ended=False, end=NONE, killed=False, und=(), timeouts=False)
        self.op = "construction"
        pl = st.new("list", items=[Tok("str", "path0")])
        self.made(self.callv(st, c, [pl], {}), "FileWatcher()", self.key(c))
        self.rep.states[self.name] = 1


class NoLoopTimer(NoLoop, TimerScn):
    name = "timer without a loop"

    def make(self):
        self.I.noloop, self.susp = True, self.nosuspend
        T = self.timer(self.base)
        self.op = "construction"
        from .values import Num, add_fact
        iv = iatom("iv")
        for auto, loop in ((False, True), (False, False), (True, False)):
            st = self.start()
            st.facts = add_fact(st.facts, iv - Num((), 1, True))
            kw = {"auto_start": K(auto)}
            if loop:
                kw["loop"] = Tok("loop", "given")
            else:
                st.mon["loop"] = Tok("loop", "running")
            res = self.callv(st, T, [Td(iv), Tok("policy", "user")], kw)
            if loop:
                self.made(res, f"Timer(auto_start={auto}, loop=...)", self.key(T))
            else:
                for s, v in res:
                    self.need(isinstance(v, Exc) and self.I.exc_is(s, v.ref, "builtins.RuntimeError"), s, "C37",
                              "no-loop-reported", "Timer() without a loop is not rejected with RuntimeError while no "
                              "event loop runs", self.key(T))
        self.rep.states[self.name] = 3


def run_creation(prog, rep, tier):
    for c in (NoLoopAnycast, NoLoopBroadcast, NoLoopEvent, NoLoopWatcher, NoLoopTimer):
        s = c(prog, rep)
        _guard(rep, s, s.make)
