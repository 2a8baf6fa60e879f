"""Shape of the package: exception classes (C28), state created at import (C29)."""
from __future__ import annotations

from .recv import SrcScn
from .scn import HARNESS
from .values import NONE, ClsV, Exc, K, Ref, Tok, Tup

# class -> (direct documented parents, constructor arguments, attribute carried)
TREE = {
    "Error": ("builtins.RuntimeError",),
    "ChannelError": ("Error",), "ChannelClosedError": ("ChannelError",),
    "SenderError": ("Error",), "ReceiverError": ("Error",), "ReceiverStoppedError": ("ReceiverError",),
    "SelectError": ("Error",), "UnhandledSelectedError": ("SelectError",),
}


class ShapeScn(SrcScn):
    name = "exception classes"

    def run(self):
        self.susp = lambda z, aw, node: []
        base = self.cls("Error")
        n = 0
        for name, parents in TREE.items():
            c = self.cls(name)
            self.fnname = f"src/frequenz/channels/__init__.py:{name}"
            if not self.need(c is not None, None, "C28", "error-exported", f"{name} is not a class of the package"):
                continue
            n += 1
            self.fnname = f"{c.mod.rel}:{c.qual}"
            for p in parents:
                pc = p if "." in p else self.cls(p)
                self.need(pc is not None and self.I.is_sub(c, pc), None, "C28", "hierarchy",
                          f"{name} is not a {p.rsplit('.', 1)[-1]}")
        for c in self.prog.all_classes():
            if c.mod.name == HARNESS or not hasattr(c, "oid") or not self.I.is_sub(c, "builtins.BaseException"):
                continue
            self.fnname = f"{c.mod.rel}:{c.qual}"
            if c.name.startswith("_"):
                continue
            n += 1
            self.need(base is not None and self.I.is_sub(c, base), None, "C28", "hierarchy",
                      f"{c.name} does not derive from Error")
        self.rep.states[self.name] = n
        if not n:
            self.rep.vacuous.append(self.name)
        self.attributes()

    def make(self, st, name, args, want):
        c = self.cls(name)
        if c is None:
            return
        fn = self.fnname = f"{c.mod.rel}:{c.qual}.__init__"
        self.susp = lambda z, aw, node: []
        for e, v in self.callv(st.clone(), ClsV(c), args):
            if not self.need(not isinstance(v, Exc), e, "C28", "constructible",
                             f"creating a {name} raises {self.exc_name(e, v)}"):
                continue
            for a, w in want.items():
                self.need(self.attrv(e, v, a) == w, e, "C28", "attributed",
                          f"{name}.{a} is not the object it was created for", fn)
            self.need(e.o(v).f.get("__cause__", NONE) == NONE, e, "C28", "cause", f"a fresh {name} has a cause", fn)

    def attributes(self):
        st = self.base.clone()
        st.mon["cancel"] = None
        st, src = self.new_src(st, "src")
        msg = Tok("str", "message")
        ch = self.one(st, "Anycast", {"name": Tok("str", "chan")})
        self.make(st, "Error", [msg], {})
        if ch is not None:
            self.make(st, "ChannelError", [msg, ch], {"channel": ch})
            self.make(st, "ChannelClosedError", [ch], {"channel": ch})
            for e, snd in self.invoke(st.clone(), ch, "new_sender"):
                self.make(e, "SenderError", [msg, snd], {"sender": snd})
        self.make(st, "ReceiverError", [msg, src], {"receiver": src})
        self.make(st, "ReceiverStoppedError", [src], {"receiver": src})
        self.make(st, "SelectError", [msg], {})
        st.mon["r:src"] = True
        for e, sel in self.callv(st.clone(), self.glob(st, "Selected"), [src]):
            if not isinstance(sel, Exc):
                self.make(e, "UnhandledSelectedError", [sel], {"selected": sel})

    def one(self, st, name, kw):
        c = self.glob(st, name)
        if not isinstance(c, ClsV):
            return None
        for e, v in self.callv(st, c, [], kw):
            if isinstance(v, Ref):
                st.heap, st.nxt, st.facts, st.mon = dict(e.heap), e.nxt, e.facts, dict(e.mon)
                st.own = set()
                return v
        return None


def run_shape(prog, rep, tier):
    from .chan import _guard
    s = ShapeScn(prog, rep)
    _guard(rep, s, s.run)
