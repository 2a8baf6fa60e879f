"""Scenario base: default hooks, violation collection, running operations, interference, observation."""
from __future__ import annotations

import ast
from collections import Counter

from .interp import Gap, Interp
from .models import norm_items, nexp
from .state import Seg, canon, reach, toks_in
from .values import (FALSE, NONE, TRUE, App, Aw, Bound, ClsV, Coro, EnumM, Exc, Ext, ExtM, Fn, K, Mod, Num, Partial,
                     Ref, SuperV, Td, Tok, Top, Tup, V, _T, add_fact, basic_atoms, entails_ge, fromnum, iatom,
                     kb, tonum)

NODE = ast.Pass()
NODE.lineno = 0
SEQ = ("deque", "list")
CACHE = ("lenatom", "full")


class Viol:
    """One violation: property, rule, construct it is anchored at, what fails, how it is reached."""

    def __init__(self, prop, rule, construct, msg, where="", trace=()):
        self.prop, self.rule, self.construct, self.msg = prop, rule, construct, msg
        self.where, self.trace = where, list(trace)

    @property
    def key(self):
        return f"{self.prop}|{self.rule}|{self.construct}"


class Report:
    """Everything a run of some scenarios established."""

    def __init__(self):
        self.viol = {}
        self.gaps = []
        self.fns, self.sites, self.susp = set(), set(), set()
        self.count = Counter()       # property -> obligations decided
        self.samples = Counter()     # rule -> obligations
        self.states = Counter()      # scenario -> abstract states
        self.vacuous = []

    def add(self, v):
        self.viol.setdefault(v.key, v)

    def ok(self, prop, rule, n=1):
        self.count[prop] += n
        self.samples[f"{prop}:{rule}"] += n


def msg_holder(v):
    return isinstance(v, Tok) and v.kind == "msg" or isinstance(v, Seg) and v.kind == "msg"


class Scn:
    """Hooks of the interpreter plus helpers; scenario classes derive from it."""
    clocked = ()  # ghost names that only record clock readings
    name = "?"

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        add_harness(prog)
        self.I = Interp(prog, self)
        self.base = self.I.initial()
        self.susp = None            # function(st, aw, node) -> results, or None
        self.opname = None
        self.fnname = ""
        self.collect = None
        self.cviol, self.uviol = {}, set()

    def finish(self):
        r, I = self.rep, self.I
        # what only goes wrong after a cancelled wait: the receiver does not work as if it had not been made
        for (rule, con), (msg, where, notes) in self.cviol.items():
            if (rule, con) not in self.uviol:
                r.add(Viol("C13", "after-cancel:" + rule, con, "after a cancelled wait: " + msg, where, notes))
        for g in I.gaps:
            if g not in r.gaps:
                r.gaps.append(g)
        r.fns |= I.fnseen
        r.sites |= I.sites
        r.susp |= I.nsusp
        # effect rules are evaluated at every call and loop the scenario reached
        r.ok("C30", "call-does-not-block", len(I.sites))
        r.ok("C30", "wait-suspends", len(I.nsusp))
        r.ok("C31", "message-not-inspected", len(I.sites))

    # ---- reporting --------------------------------------------------------------------------------
    def bad(self, st, props, rule, msg, construct=None, node=None):
        con, notes = construct or self.fnname or self.name, st.notes() if st else ()
        where = self.I.where(node) if node is not None else ""
        for p in props.split():
            self.rep.add(Viol(p, rule, con, msg, where, notes))
        if any("cancelled here" in x for x in notes):
            self.cviol.setdefault((rule, con), (msg, where, notes))
        else:
            self.uviol.add((rule, con))

    def need(self, cond, st, props, rule, msg, construct=None, node=None):
        """Record an obligation; report it if it does not hold."""
        for p in props.split():
            self.rep.ok(p, rule)
        if not cond:
            self.bad(st, props, rule, msg, construct, node)
        return bool(cond)

    # ---- package access ---------------------------------------------------------------------------
    def glob(self, st, name, mod="frequenz.channels"):
        if mod not in self.I.modoid:
            return None
        return st.o(self.I.modoid[mod]).f.get(name)

    def cls(self, name, mod="frequenz.channels"):
        v = self.glob(self.base, name, mod)
        return v.cls if isinstance(v, ClsV) else None

    def method_key(self, st, ref, meth):
        o = st.o(ref)
        if isinstance(o.cls, str):
            return f"{o.cls}.{meth}"
        m = self.I.find_method(o.cls, meth)
        if m and m[1] is not None:
            return f"{m[1].mod.rel}:{m[1].qual}"
        return f"{getattr(o.cls, 'key', o.cls)}.{meth}"

    # ---- default hooks ----------------------------------------------------------------------------
    def event(self, I, st, kind, node, d):
        f = getattr(self, "e_" + kind, None)
        if f is not None:
            f(st, node, d)
        self.common_event(st, kind, node, d)

    def fn_at(self, st):
        return self.I.func_of(st)

    def where_fn(self, st, node):
        m = getattr(node, "_mod", None)
        return f"{m.rel if m else '?'}:{self.fn_at(st)}"

    def in_repr(self, st):
        for f in st.frames:
            fn = st.heap[f].x.get("fn")
            if fn is not None and fn.name in ("__repr__", "__str__", "__format__"):
                return True
        return False

    def common_event(self, st, kind, node, d):
        if getattr(node, "_mod", None) is None or getattr(node._mod, "synthetic", False):
            return
        w = self.where_fn(st, node)
        if kind == "inspect":
            if not self.in_repr(st):
                self.bad(st, "C31", "message-inspected", f"{d['how']} of a message", w, node)
        elif kind == "format":
            if not self.in_repr(st) and any(toks_in(v) for v in d["vals"]):
                self.bad(st, "C31", "message-formatted", "a message is formatted", w, node)
        elif kind == "log":
            if any(toks_in(v) for v in d["args"]):
                self.bad(st, "C31", "message-formatted", "a message is passed to a logger", w, node)
        elif kind == "blocking":
            self.bad(st, "C30", "blocking-call", f"blocking call of {d['path']}", w, node)
        elif kind == "busy":
            self.bad(st, "C30", "busy-loop", "a loop can iterate forever without suspending or consuming work",
                     w, node)
        elif kind == "deadlock":
            self.bad(st, "C30 C03", "lock-held", "waits for a lock that is held across a suspension", w, node)
        elif kind == "classstore":
            self.bad(st, "C29", "class-state", f"stores the attribute {d['attr']} on class {d['cls'].name}", w, node)
        elif kind == "globalstore":
            self.bad(st, "C29", "module-state", f"rebinds the module global {d['name']}", w, node)
        elif kind == "raise":
            self.check_raise(st, node, d["exc"], w)

    def check_raise(self, st, node, ref, w):
        pass

    def on_suspend(self, I, st, aw, node):
        return self.susp(st, aw, node)

    def on_yield(self, I, st, v, node):
        raise Gap("yield outside a driven generator")

    def on_notify(self, I, st, obj, n, node):
        w = st.mon.get("waiters")
        if not w:
            return
        left = None if n == K("all") else n.v if isinstance(n, K) and isinstance(n.v, int) else None
        out = []
        for name, obj2, noted in w:
            if obj2 == obj and not noted and (left is None or left > 0):
                noted = True
                if left is not None:
                    left -= 1
            out.append((name, obj2, noted))
        st.mon["waiters"] = tuple(out)

    def on_event_set(self, I, st, obj, node):
        self.on_notify(I, st, obj, K("all"), node)

    def on_task(self, I, st, t, coro, node):
        pass

    def call_ext(self, I, st, path, args, kwargs, node):
        return None

    def call_tok(self, I, st, fv, args, kwargs, node):
        raise Gap(f"call of {fv!r}")

    def tok_method(self, I, st, v, name, args, kwargs, node):
        raise Gap(f"method {name} of {v!r}")

    def loop_time(self, I, st, v, node):
        raise Gap("loop.time()")

    def await_agen(self, I, st, v, node):
        raise Gap("awaiting an async generator step")

    def await_other(self, I, st, v, node):
        return None

    # ---- running ----------------------------------------------------------------------------------
    def guarded(self, f):
        try:
            return f()
        except Gap as g:
            self.I.gap(NODE, f"{self.name}/{self.fnname}: {g}")
            return []

    def invoke(self, st, ref, meth, args=(), kwargs=None):
        """Call obj.meth(*args), awaiting it if it is a coroutine.  [(st, value|Exc)]"""
        I = self.I

        def aw(s, v):
            if isinstance(v, (Coro, Aw)):
                return I.await_(s, v, NODE)
            return [(s, v)]
        return self.guarded(lambda: I.then(I.call_method(st, ref, meth, list(args), dict(kwargs or {}), NODE), aw))

    def outlook(self, st, ref):
        """What ready() and consume() of a receiver would do next, as a comparable value."""
        saved, self.susp = self.susp, lambda z, aw, node: []
        out = []
        for m in ("ready", "consume"):
            s = st.clone()
            s.frames, s.hand, s.heads = (), (), frozenset()
            out.append(tuple(sorted({self.exc_name(e, v) for e, v in self.invoke(s, ref, m)})))
        self.susp = saved
        return tuple(out)

    def callv(self, st, fv, args=(), kwargs=None):
        I = self.I

        def aw(s, v):
            if isinstance(v, (Coro, Aw)):
                return I.await_(s, v, NODE)
            return [(s, v)]
        return self.guarded(lambda: I.then(I.call(st, fv, list(args), dict(kwargs or {}), NODE), aw))

    def getp(self, st, ref, name):
        return self.guarded(lambda: self.I.getattr(st, ref, name, NODE))

    def segment(self, st, run):
        """All end states of the atomic segment `run(st)` of another task: it ends by finishing or at its
        first suspension.  The current task's frames are kept."""
        frames, hand, heads = st.frames, st.hand, st.heads
        ends = []
        saved = self.susp

        def stop(s, aw, node):
            ends.append((s, "suspended"))
            return []
        st = st.clone()
        st.frames, st.hand, st.heads = frames[:1], (), frozenset()
        st.mute += 1
        self.susp = stop
        try:
            for s, v in run(st):
                ends.append((s, v))
        finally:
            self.susp = saved
        out = []
        for s, v in ends:
            s.frames, s.hand, s.heads = frames, hand, heads
            s.mute -= 1
            out.append((s, v))
        return out

    # ---- normal forms -----------------------------------------------------------------------------
    def roots_of(self, st):
        rs = [Ref(f) for f in st.frames] + [v for v in st.roots.values()]
        rs += [Ref(o) for o in self.I.modoid.values()] + [Ref(o) for o in self.I.clsoid.values()]
        rs += [v for v in st.hand]
        rs += [v for k, v in st.mon.items() if k != "memo"]
        return rs

    def unshared(self, st):
        """C29: nothing that exists since import was changed by operations on instances."""
        b = self.base.heap
        self.rep.ok("C29", "import-time-state-unchanged")
        for i, o in b.items():
            n = st.heap.get(i)
            if n is None or n is o or o.kind in ("frame", "iter") or (n.f == o.f and n.items == o.items
                                                                     and self.osnap(n) == self.osnap(o)):
                continue
            if o.kind == "module" or o.kind == "clsobj" and o.x.get("synthetic"):
                d = sorted(k for k in set(o.f) | set(n.f) if o.f.get(k) != n.f.get(k))
                self.bad(st, "C29", "module-state", f"an operation rebinds {', '.join(d)} of a module", self.owner(i))
            elif o.kind == "clsobj":
                d = sorted(k for k in set(o.f) | set(n.f) if o.f.get(k) != n.f.get(k))
                self.bad(st, "C29", "class-state", f"an operation stores {', '.join(d)} on a class", self.owner(i))
            else:
                self.bad(st, "C29", "shared-object", f"an operation changes a {o.kind} created at import time, which "
                         "all instances share", self.owner(i))

    def owner(self, oid):
        """Which class, module or function default holds an object created at import."""
        for m in self.prog.mods.values():
            if self.I.modoid.get(m.name) == oid:
                return m.rel
        for c in self.prog.all_classes():
            if getattr(c, "oid", None) == oid:
                return f"{c.mod.rel}:{c.qual}"
        for i, o in self.base.heap.items():
            if i != oid and o.kind in ("module", "clsobj"):
                for k, v in o.f.items():
                    if isinstance(v, Ref) and v.oid == oid or isinstance(v, Fn) and oid in _refs(v):
                        return f"{self.owner(i)}:{k}"
        return "src/frequenz/channels"

    def gc(self, st):
        self.unshared(st)
        rs = self.roots_of(st)
        for c in self.prog.all_classes():
            if hasattr(c, "oid"):
                rs.append(Ref(c.oid))
        keep = reach(st, rs, weak=True)
        st.heap = {k: v for k, v in st.heap.items() if k in keep}
        st.own = set()
        self.prune(st)
        m = st.mon.get("memo")
        if m:
            toks = set()
            for o in st.heap.values():
                for v in list(o.f.values()) + list(o.items or ()) + list(o.x.values()):
                    toks.update(toks_in(v))
            for k, v in st.mon.items():
                if k != "memo":
                    toks.update(toks_in(v))
            for v in st.roots.values():
                toks.update(toks_in(v))
            st.mon["memo"] = frozenset(e for e in m if all(t in toks for t in toks_in(e[0])))
        return st

    def prune(self, st):
        """Drop inequalities about numbers that are no longer stored anywhere."""
        atoms = set()

        def push(v):
            if isinstance(v, Num):
                basic_atoms(v, atoms)
            elif isinstance(v, _T):
                for x in v.a:
                    push(x)
            elif isinstance(v, (tuple, list, frozenset)):
                for x in v:
                    push(x)
        for o in st.heap.values():
            if o.kind in ("module", "clsobj"):
                continue
            for v in o.f.values():
                push(v)
            for v in o.items or ():
                push(v)
            for v in o.x.values():
                push(v)
        for v in st.roots.values():
            push(v)
        for v in st.mon.values():
            push(v)
        st.facts = frozenset((n, s) for n, s in st.facts if basic_atoms(n) <= atoms)

    def containers(self, st, oids):
        return [i for i in sorted(oids) if st.heap[i].items is not None and st.heap[i].kind not in ("view", "iter")
                and any(msg_holder(x) or isinstance(x, Tup) and toks_in(x) for x in st.heap[i].items)]

    def normalise(self, st, oids, limit=None):
        """Forget the exact content of message queues: empty, or a run of unknown length >= 1."""
        for i in oids:
            o = st.heap[i]
            if o.kind not in SEQ or not o.items or not all(msg_holder(x) for x in o.items):
                continue
            w = st.w(i)
            lens = self.length(st, w, limit)
            n = iatom(st.fresh("n"))
            f = add_fact(st.facts, n - Num((), 1, True))
            if lens is not None:
                f = add_fact(f, tonum(lens) - n)
            st.facts = f
            w.items[:] = [Seg("msg", st.fresh("q"), 0, 0, 1)]
            w.x["lenatom"] = n
            w.x["full"] = None
        return st

    def length(self, st, o, limit):
        """A provable bound of the length of container o: its capacity, or `limit` if that can be shown."""
        cap = o.x.get("cap")
        if cap not in (None, NONE):
            return cap
        if limit is None:
            return None
        n = Num((), nexp(o), True)
        if any(isinstance(x, Seg) for x in o.items):
            if "lenatom" not in o.x:
                return None
            n = tonum(o.x["lenatom"])
        return limit if entails_ge(st.facts, tonum(limit) - n) else None

    def vkey(self, st, extra=()):
        return self.I.key(st, extra)

    # ---- observers (C32) --------------------------------------------------------------------------
    def observers(self, st, ref):
        """Names of observers of an instance: public properties and the str/repr/len protocols."""
        o = st.o(ref)
        if isinstance(o.cls, str):
            return []
        out = []
        for c in self.I.mro(o.cls):
            if isinstance(c, str):
                continue
            for n, f in c.methods.items():
                if f.has("property") and not n.startswith("_") and n not in out:
                    out.append(n)
                if n in ("__str__", "__repr__", "__len__", "__bool__") and n not in out:
                    out.append(n)
        return out

    def observe(self, st, ref, name):
        o = st.o(ref)
        m = self.I.find_method(o.cls, name)
        if m and m[1] is not None and m[1].has("property"):
            return self.getp(st, ref, name)
        return self.invoke(st, ref, name)

    def check_observers(self, st, refs, allow=()):
        for ref in refs:
            for n in self.observers(st, ref):
                if n in allow:
                    continue
                s0 = st.clone()
                before = {k: self.osnap(v) for k, v in st.heap.items()}
                self.fnname = self.method_key(s0, ref, n)

                def nosusp(s, aw, node):
                    return []
                saved, self.susp = self.susp, nosusp
                for s, v in self.observe(s0, ref, n):
                    self.need(not isinstance(v, Exc), s, "C32", "observer-total",
                              f"observing {n} raises {self.exc_name(s, v)}")
                    if not isinstance(v, Exc):
                        self.check_truth(s, ref, n, v)
                    ch = self.changed(before, s)
                    self.need(ch is None, s, "C32", "observer-pure", f"observing {n} changes {ch}")
                self.susp = saved

    # ---- what observers say (C34) -----------------------------------------------------------------
    def truths(self, st, ref):
        """{observer: ("is", value) | ("shows", value, ...)} for a library object."""
        return {}

    def check_truth(self, st, ref, n, v):
        want = self.truths(st, ref).get(n)
        if want is None or isinstance(v, Top):
            return
        if want[0] == "is":
            a, b = tonum(v), tonum(want[1])
            ok = v == want[1] or a is not None and b is not None and a.lin_eq(b)
            self.need(ok, st, "C34", "accessor-truth", f"{n} is {v!r} instead of {want[1]!r}")
        else:
            self.need(any(shows(st, v, w) for w in want[1:]), st, "C34", "representation-shows",
                      f"{n} does not show {want[1]!r}")

    def held_msgs(self, st, roots):
        """Messages (tokens) that objects reachable from the roots hold on to."""
        out = []
        for i in reach(st, roots):
            o = st.heap[i]
            if o.kind == "frame":
                continue
            for v in list(o.f.values()) + list(o.items or ()) + list(o.x.values()):
                out += held_in(v)
        return out

    def osnap(self, o):
        return (o.kind, dict(o.f), None if o.items is None else list(o.items),
                {k: v for k, v in o.x.items() if k not in CACHE})

    def changed(self, before, s):
        for k, (kind, f, items, x) in before.items():
            o = s.heap.get(k)
            if o is None or kind == "frame":
                continue
            if o.f != f:
                d = [n for n in set(f) | set(o.f) if f.get(n) != o.f.get(n)]
                return f"attribute {', '.join(map(str, d))} of {getattr(o.cls, 'name', kind)}"
            if items is not None and norm_items([y for y in o.items]) != norm_items(items):
                a = [y.with_lo(0) if isinstance(y, Seg) else y for y in norm_items(o.items)]
                b = [y.with_lo(0) if isinstance(y, Seg) else y for y in norm_items(items)]
                if a != b and a != [y for y in b if not isinstance(y, Seg)]:
                    return f"the content of a {kind}"
            nx = {k2: v for k2, v in o.x.items() if k2 not in CACHE}
            if nx != x and kind != "iter":
                return f"the state of a {kind}"
        return None

    def exc_name(self, st, v):
        if not isinstance(v, Exc):
            return repr(v)
        c = st.o(v.ref).cls
        return c if isinstance(c, str) else c.name

    def attr(self, st, ref, name):
        """Value of an attribute/property without side conditions (first result)."""
        r = self.getp(st.clone(), ref, name)
        if len(r) == 1 and not isinstance(r[0][1], Exc):
            return r[0][1]
        return None


def held_in(v):
    if isinstance(v, Tok):
        return [v] if v.kind == "msg" else []
    if isinstance(v, Tup):
        return [t for x in v.items for t in held_in(x)]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in held_in(x)]
    return []


def shows(st, v, w):
    """A string made from v: does it contain w (in any conversion)?"""
    if v == w or isinstance(v, Top):
        return True
    if isinstance(v, Ref):
        o = st.o(v)
        return o.items is not None and any(isinstance(x, Seg) or shows(st, x, w) for x in o.items)
    if isinstance(v, K) and isinstance(w, K) and isinstance(v.v, str):
        return str(w.v) in v.v
    if isinstance(v, _T):
        return any(shows(st, x, w) for x in v.a if isinstance(x, (V, tuple)))
    if isinstance(v, tuple):
        return any(shows(st, x, w) for x in v)
    return False


def _refs(v):
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            out.add(x.oid)
        elif isinstance(x, _T):
            todo.extend(x.a)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x.values())
    return out


def add_harness(prog):
    """Add the abstract receivers to the program."""
    if HARNESS in prog.mods:
        return
    import os
    from .loader import ModuleInfo
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "src_receivers.py")
    m = ModuleInfo(HARNESS, path, "harness")
    m.synthetic = True
    prog.mods[HARNESS] = m


HARNESS = "sa_harness"


def strip(items):
    """Queue content without knowledge about emptiness."""
    return tuple(x.with_lo(0) if isinstance(x, Seg) else x for x in norm_items(items))


def seqdiff(b0, b1, maxpop=3):
    """(popped, appended) such that b1 == b0 without the first entries, plus appended entries; else None."""
    b0, b1 = list(strip(b0)), list(strip(b1))
    cands = [((), b0)]
    seen = 0
    while seen < len(cands) and len(cands) < 40:
        pops, rest = cands[seen]
        seen += 1
        if len(pops) <= maxpop:
            r = rest
            for a in match(r, b1):
                return pops, a
            if r:
                h = r[0]
                if isinstance(h, Seg):
                    cands.append((pops, r[1:]))
                    t, s2 = h.popl()
                    cands.append((pops + (t,), [s2.with_lo(0)] + r[1:]))
                else:
                    cands.append((pops + (h,), r[1:]))
    return None


def match(r, b1):
    """Appended parts with b1 == norm(r) + appended (runs in r may have turned out empty)."""
    r = list(strip(r))
    opts = [r]
    if any(isinstance(x, Seg) for x in r):
        opts.append([x for x in r if not isinstance(x, Seg)])
    for o in opts:
        n = len(o)
        # an explicit entry may have merged back into its run
        if list(b1[:n]) == o and not any(isinstance(x, Seg) for x in b1[n:]):
            return [tuple(b1[n:])]
    return []
