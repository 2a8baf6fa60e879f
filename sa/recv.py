"""Receiver-level scenarios over an abstract source: receive/iteration (C11), map (C12), Selected (C21),
selected_from (C19)."""
from __future__ import annotations

import ast
import builtins

from .interp import Gap
from .scn import HARNESS, NODE, Scn
from .state import reach
from .values import (FALSE, NONE, TRUE, Aw, ClsV, Exc, Fn, K, Ref, Tok, Tup)

ERRS = ("builtins.ValueError", "builtins.RuntimeError", "builtins.IndexError", "builtins.KeyboardInterrupt")


class SrcScn(Scn):
    """Abstract sources: what ready() and consume() of a source may do."""
    ready_errors = ("builtins.ValueError",)
    consume_errors = ERRS
    stop_variants = False  # sources may raise their own subclass of ReceiverStoppedError

    def new_src(self, st, tag, cls="Src"):
        r = self.callv(st, self.glob(st, cls, HARNESS), [K(tag)])
        if len(r) != 1 or isinstance(r[0][1], Exc):
            raise Gap("abstract source construction")
        st, v = r[0]
        st.roots[tag] = v
        st.mon["r:" + tag] = "?"
        return st, v

    def tag(self, st, ref):
        return st.o(ref).f["tag"].v

    def inc(self, st, k):
        st.mon[k] = st.mon.get(k, 0) + 1

    def extra_errors(self):
        """Builtin exceptions the package's source tells apart: user code may raise each of them."""
        if not hasattr(self, "_extra"):
            names = set()
            for m in self.prog.mods.values():
                if getattr(m, "synthetic", False):
                    continue
                for n in ast.walk(m.tree):
                    e = []
                    if isinstance(n, ast.ExceptHandler) and n.type is not None:
                        e = [n.type]
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                            "isinstance", "issubclass", "suppress"):
                        e = n.args
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "suppress":
                        e = n.args
                    elif isinstance(n, ast.MatchClass):
                        e = [n.cls]
                    elif isinstance(n, ast.Compare):
                        e = n.comparators
                    for x in e:
                        names |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
                        names |= {y.attr for y in ast.walk(x) if isinstance(y, ast.Attribute)}
            skip = ("Exception", "BaseException", "StopIteration", "StopAsyncIteration", "GeneratorExit",
                    "BaseExceptionGroup", "ExceptionGroup")
            self._extra = tuple(
                f"builtins.{n}" for n in sorted(names)
                if isinstance(c := getattr(builtins, n, None), type) and issubclass(c, Exception) and n not in skip)
        return self._extra

    def errors(self, base):
        return base + ("SrcError", "SrcLibError") + tuple(x for x in self.extra_errors() if x not in base)

    def mkerr(self, st, en, src=NONE):
        """An error raised by user code: a builtin, or a subclass of a library error; it has a cause of its own."""
        if "." in en:
            e = self.I.mkexc(st, en)
        else:
            r = self.callv(st, self.glob(st, en, HARNESS), [src])
            if len(r) != 1 or isinstance(r[0][1], Exc):
                raise Gap(f"construction of {en}")
            st, e = r[0]
        if "origcause" in st.mon:
            st.w(e).f["__cause__"] = st.mon["origcause"]
        return st, e

    def same_error(self, st, v, x):
        """v raises exactly the error x, with the cause it had."""
        return v == Exc(x) and st.o(x).f.get("__cause__", NONE) == st.mon.get("origcause", NONE)

    def call_ext(self, I, st, path, args, kwargs, node):
        if path == "sa.abs_ready":
            return [(st, Aw("absready", args[0]))]
        if path == "sa.abs_consume":
            return self.abs_consume(st, args[0], node)
        if path == "sa.abs_len":
            s2 = st.clone()
            return [(st, K(0)), (s2, K(3))]
        if path == "sa.abs_eq":
            s2 = st.clone()
            return [(st, TRUE), (s2, FALSE)]
        return None

    def await_other(self, I, st, v, node):
        if v.kind == "absready":
            return self.abs_ready(st, v.a[1], node)
        return None

    def abs_ready(self, st, src, node):
        t = self.tag(st, src)
        self.inc(st, "nready:" + t)
        if st.mon.get("again:" + t):  # still ready: answers the same without waiting
            return [(st, K(st.mon["r:" + t]))]
        out = []
        starts = [(st.clone(), NONE)] + list(self.I.suspend(st, Aw("absready", src), node))
        for s, x in starts:
            if isinstance(x, Exc):
                out.append((s, x))
                continue
            for r in (TRUE, FALSE):
                z = s.clone()
                z.mon["r:" + t] = r.v
                z.note(f"source {t}: ready() -> {r!r}")
                out.append((z, r))
            for en in self.errors(self.ready_errors):
                z, e = self.mkerr(s.clone(), en, src)
                z.mon["rexc:" + t] = e
                z.note(f"source {t}: ready() raises {en}")
                out.append((z, Exc(e)))
        return out

    def stop_error(self, st, ref):
        r = self.I.call(st, ClsV(self.cls("ReceiverStoppedError")), [ref], {}, NODE)
        if len(r) != 1 or isinstance(r[0][1], Exc):
            raise Gap("construction of ReceiverStoppedError")
        return r[0]

    def abs_consume(self, st, src, node):
        t = self.tag(st, src)
        self.inc(st, "ncons:" + t)
        out = []
        if st.mon["r:" + t] is not False:
            z = st.clone()
            m = Tok("msg", z.fresh("m"))
            z.mon["msg:" + t] = m
            out.append((z, m))
            for en in self.errors(self.consume_errors):
                z, e = self.mkerr(st.clone(), en, src)
                z.mon["cexc:" + t] = e
                z.note(f"source {t}: consume() raises {en}")
                out.append((z, Exc(e)))
        if st.mon["r:" + t] is not True:
            z, e = self.stop_error(st.clone(), src)
            z.w(e).f["__cause__"] = z.mon["origcause"] if "origcause" in z.mon else NONE
            z.mon["cexc:" + t] = e
            z.note(f"source {t}: consume() reports the stop")
            out.append((z, Exc(e)))
            if self.stop_variants:
                z, e = self.mkerr(st.clone(), "SrcStop", src)
                z.mon["cexc:" + t] = e
                z.note(f"source {t}: consume() reports the stop by an error of its own type")
                out.append((z, Exc(e)))
            if "other" in st.roots:
                z, e = self.stop_error(st.clone(), st.roots["other"])
                if "origcause" in z.mon:
                    z.w(e).f["__cause__"] = z.mon["origcause"]
                z.mon["cexc:" + t] = e
                z.note(f"source {t}: consume() reports the stop of an inner receiver")
                out.append((z, Exc(e)))
        return out

    def cancel_susp(self, st, aw, node):
        """Every suspension may end normally or by cancellation."""
        if st.mon.get("cancel") is not None:
            return [(st, NONE)]
        c = st.clone()
        e = self.I.mkexc(c, "asyncio.exceptions.CancelledError")
        c.mon["cancel"] = e
        c.note("cancelled while waiting")
        return [(st, NONE), (c, Exc(e))]

    def is_exc(self, st, v, clsname):
        c = self.cls(clsname)
        return isinstance(v, Exc) and c is not None and self.I.is_sub(st.o(v.ref).cls, c)

    def chain(self, st, ref, onlycause=False):
        seen, todo = [], [ref]
        while todo:
            r = todo.pop()
            if not isinstance(r, Ref) or r in seen:
                continue
            seen.append(r)
            f = st.o(r).f
            todo.append(f.get("__cause__", NONE))
            if not onlycause:
                todo.append(f.get("__context__", NONE))
        return seen

    def attrv(self, st, ref, name):
        r = self.getp(st.clone(), ref, name)
        return r[0][1] if len(r) == 1 else None

    def cancel_outcome(self, e, v, what):
        c = e.mon.get("cancel")
        isc = isinstance(v, Exc) and self.I.exc_is(e, v.ref, "asyncio.exceptions.CancelledError")
        if c is not None:
            self.need(isc, e, "C14", "cancellation-propagates",
                      f"a cancellation delivered inside {what} ends as {self.exc_name(e, v)}")
        else:
            self.need(not isc, e, "C14", "no-spontaneous-cancel", f"{what} raises CancelledError uncancelled")
        return c is not None


class ReceiverScn(SrcScn):
    name = "receiver"
    stop_variants = True

    def start(self):
        st = self.base.clone()
        st, _ = self.new_src(st, "other")
        st, src = self.new_src(st, "src")
        oc = self.I.mkexc(st, "builtins.OSError")
        st.mon["origcause"] = oc
        st.mon["cancel"] = None
        return st, src

    def c11(self):
        for meth in ("receive", "__anext__"):
            st, src = self.start()
            self.c11_on(st, src, src, meth)
            # a receiver derived from another one: the stop it reports stems from an object of another
            # receiver, possibly of the same type (a map of a map)
            st, src = self.start()
            st.mon["ncalls"] = 0
            self.fnname = self.method_key(st, src, "map")
            for s, mp in self.invoke(st, src, "map", [Tok("fn", "mapping")]):
                if isinstance(mp, Exc):
                    continue  # reported by map()
                s.roots["map"] = mp
                self.c11_on(self.idle(s), src, mp, meth)
                for s2, mp2 in self.invoke(self.idle(s), mp, "map", [Tok("fn", "mapping2")]):
                    if isinstance(mp2, Exc):
                        continue
                    s2.roots["map2"] = mp2
                    self.c11_on(self.idle(s2), src, mp2, meth)

    def c11_on(self, st, src, rcv, meth):
        fn = self.fnname = self.method_key(st, rcv, meth)
        self.susp = self.cancel_susp
        what = meth if rcv == src else f"{meth} of a mapped receiver"
        n = 0
        for e, v in self.invoke(st, rcv, meth):
            n += 1
            self.fnname = fn
            nr, nc = e.mon.get("nready:src", 0), e.mon.get("ncons:src", 0)
            canc = self.cancel_outcome(e, v, what)
            self.need(nr == 1, e, "C11", "waits-once", f"{what} calls ready() {nr} times")
            if canc:
                self.need(nc == 0, e, "C13", "cancel-takes", f"a cancelled {what} consumed a message")
                continue
            if "rexc:src" in e.mon:
                self.need(self.same_error(e, v, e.mon["rexc:src"]), e, "C11", "error-unchanged",
                          f"an error of ready() surfaces from {what} as {self.exc_name(e, v)}")
                continue
            self.need(nc == 1, e, "C11", "consumes-once", f"{what} calls consume() {nc} times")
            if "fexc" in e.mon:
                x = e.mon["fexc"]
                if not any(self.I.exc_is(e, x, c) for c in ("StopIteration", "StopAsyncIteration")):
                    self.need(self.same_error(e, v, x), e, "C11 C12", "error-unchanged",
                              f"an error of the mapping function surfaces from {what} as {self.exc_name(e, v)}")
                continue
            if "msg:src" in e.mon:
                want = e.mon["msg:src"] if rcv == src else e.mon.get("fres")
                self.need(v == want, e, "C11", "returns-message",
                          f"{what} does not return the message it consumed but {v!r}")
                continue
            x = e.mon.get("cexc:src")
            if x is None:
                continue
            stop = self.is_exc(e, Exc(x), "ReceiverStoppedError")
            if not stop:
                self.need(self.same_error(e, v, x), e, "C11", "error-unchanged",
                          f"an error of consume() surfaces from {what} as {self.exc_name(e, v)}")
            elif meth == "__anext__":
                self.need(isinstance(v, Exc) and self.I.exc_is(e, v.ref, "StopAsyncIteration"), e, "C11",
                          "stop-ends-iteration", f"a stop surfaces from iteration as {self.exc_name(e, v)}")
            else:
                ok = self.need(self.is_exc(e, v, "ReceiverStoppedError"), e, "C11 C28", "stop-raises",
                               f"a stop surfaces from {what} as {self.exc_name(e, v)}")
                if ok:
                    self.need(self.attrv(e, v.ref, "receiver") == rcv, e, "C11 C28", "stop-attributed",
                              f"{what} raises a ReceiverStoppedError of another receiver")
                    ch = self.chain(e, v.ref, onlycause=True)
                    self.need(x in ch, e, "C11", "stop-cause",
                              f"the original stop is not in the cause chain of the error of {what}")
                    oc = e.o(x).f.get("__cause__", NONE)
                    if oc != NONE:
                        self.need(oc in ch, e, "C11 C28", "stop-cause",
                                  "the original cause of the stop is not in the cause chain")
        if not n:
            self.rep.vacuous.append(f"{self.name}/{meth}")
        st, src = self.start()
        self.fnname = self.method_key(st, src, "__aiter__")
        for e, v in self.invoke(st, src, "__aiter__"):
            self.need(v == src, e, "C11", "aiter-self", "iterating a receiver yields from another object")
            self.need(not e.mon.get("nready:src") and not e.mon.get("ncons:src"), e, "C11", "aiter-pure",
                      "__aiter__ waits or consumes")
        # no receiver type of the library overrides the generic entry points unanalysed
        rc = self.cls("Receiver")
        for c in self.prog.all_classes():
            if c is rc or c.mod.name == HARNESS or not hasattr(c, "oid") or not self.I.is_sub(c, rc):
                continue
            for m in ("receive", "__anext__", "__aiter__", "map"):
                self.rep.ok("C11", "override-scan")
                if m in c.methods:
                    self.overrides = getattr(self, "overrides", []) + [(c, m)]
                    self.I.gap(c.methods[m].node, f"{c.name}.{m} overrides Receiver.{m}; not covered by C11")

    # ---- map --------------------------------------------------------------------------------------
    def call_tok(self, I, st, fv, args, kwargs, node):
        if fv.kind == "fn":
            self.inc(st, "ncalls")
            st.mon["fargs"] = tuple(args)
            out = []
            z = st.clone()
            r = Tok("res", z.fresh("res"))
            z.mon["fres"] = r
            out.append((z, r))
            for en in self.errors(ERRS + ("builtins.StopIteration", "builtins.StopAsyncIteration",
                                          "builtins.AttributeError", "builtins.TypeError")):
                z, e = self.mkerr(st.clone(), en)
                z.mon["fexc"] = e
                z.note(f"the mapping function raises {en}")
                out.append((z, Exc(e)))
            return out
        raise Gap(f"call of {fv!r}")

    def common_event(self, st, kind, node, d):
        if kind == "inspect" and d["tok"].kind == "res" and not self.in_repr(st):
            self.bad(st, "C12 C31", "result-inspected", f"{d['how']} of the mapped message",
                     self.where_fn(st, node), node)
            return
        super().common_event(st, kind, node, d)

    def c12(self):
        st, src = self.start()
        st.mon["ncalls"] = 0
        f = Tok("fn", "mapping")
        self.fnname = self.method_key(st, src, "map")
        self.susp = self.cancel_susp
        made = self.invoke(st, src, "map", [f])
        if not made:
            self.rep.vacuous.append("map")
        for st, mp in made:
            if isinstance(mp, Exc):
                self.bad(st, "C12", "map-raises", f"map() raises {self.exc_name(st, mp)}")
                continue
            self.need(isinstance(mp, Ref) and st.o(mp).kind == "inst" and not isinstance(st.o(mp).cls, str)
                      and self.I.is_sub(st.o(mp).cls, self.cls("Receiver")), st, "C12", "map-receiver",
                      "map() does not return a receiver")
            zero = lambda s: not s.mon.get("nready:src") and not s.mon.get("ncons:src") and not s.mon["ncalls"]
            self.need(zero(st), st, "C12", "map-lazy", "creating a mapped receiver waits, consumes or maps")
            self.need(src.oid in reach(st, [mp]), st, "C09", "derived-keeps-source",
                      "a mapped receiver does not keep its source alive")
            st.roots["map"] = mp
            self.check_observers(st, [mp])
            self.susp = self.cancel_susp
            seen, work = set(), [st]
            while work:
                x = work.pop()
                k = self.I.key(x)
                if k in seen:
                    continue
                seen.add(k)
                if len(seen) > 200:
                    raise Gap("the states of a mapped receiver do not converge")
                work += self.map_round(x, mp)
            self.rep.states["map()"] = len(seen)

    def truths(self, st, ref):
        if ref == st.roots.get("map"):
            return {"__str__": ("shows", st.roots["src"], K("src")), "__repr__": ("shows", st.roots["src"], K("src"))}
        return {}

    def idle(self, e):
        """The state between two rounds: only what the objects hold is kept."""
        e = e.clone()
        e.frames, e.hand, e.heads = (), (), frozenset()
        for k in list(e.mon):
            if k.split(":")[0] in ("msg", "cexc", "rexc", "fres", "fexc", "fargs", "nready", "ncons", "again"):
                e.mon.pop(k)
        e.mon.update({"r:src": "?", "ncalls": 0, "cancel": None})
        return self.gc(e)

    def map_round(self, st, mp):
        """One ready() and, from each of its ends, one consume(); returns the states left behind."""
        fn = self.fnname = self.method_key(st, mp, "ready")
        ends, left = [], []
        for e, v in self.invoke(st.clone(), mp, "ready"):
            self.fnname = fn
            canc = self.cancel_outcome(e, v, "ready of a mapped receiver")
            self.need(e.mon.get("nready:src") == 1, e, "C12 C10", "ready-delegates",
                      f"ready() waits for the source {e.mon.get('nready:src', 0)} times")
            self.need(not e.mon.get("ncons:src") and not e.mon["ncalls"], e, "C12 C13", "ready-lazy",
                      "waiting on a mapped receiver consumes from the source or calls the function")
            if canc:
                e.note("cancelled here")
                left.append(self.idle(e))
                continue
            if "rexc:src" in e.mon:
                self.need(self.same_error(e, v, e.mon["rexc:src"]), e, "C12", "error-unchanged",
                          f"an error of the source's ready() surfaces as {self.exc_name(e, v)}")
                left.append(self.idle(e))
                continue
            self.need(v == K(e.mon["r:src"]), e, "C12 C10", "ready-same",
                      f"ready() of the mapped receiver is {v!r}, the source's is {e.mon['r:src']!r}")
            e.frames, e.hand, e.heads = (), (), frozenset()
            ends.append((e, v))
        for e, v in ends:
            # ready() again before consuming leaves the pending message alone
            z0 = e.clone()
            z0.mon["again:src"] = True
            again = [e]
            for z, w in self.invoke(z0, mp, "ready"):
                self.fnname = fn
                self.need(w == v, z, "C10 C12", "ready-again", f"ready() returns {w!r} after it returned {v!r}")
                self.need(not z.mon.get("ncons:src") and not z.mon["ncalls"], z, "C10 C12", "ready-again-takes",
                          "calling ready() again without consuming consumes from the source")
                z.mon.pop("again:src")
                z.mon["nready:src"] = 1
                z.frames, z.hand, z.heads = (), (), frozenset()
                if self.I.key(z) != self.I.key(e):
                    again.append(z)
            for e2 in again:
                left += self.map_consume(e2, mp)
        return left

    def map_consume(self, e, mp):
        left = []
        cfn = self.method_key(e, mp, "consume")
        for z, v in self.invoke(e.clone(), mp, "consume"):
            self.fnname = cfn
            left.append(self.idle(z))
            m = z.mon.get("msg:src")
            self.need(m is None or m not in self.held_msgs(z, [mp]), z, "C35", "message-retained",
                      "a mapped receiver keeps a reference to the message it handed out")
            self.need(z.mon.get("ncons:src") == 1, z, "C12 C10", "consumes-once",
                      f"consume() takes {z.mon.get('ncons:src', 0)} messages of the source")
            self.need(z.mon.get("nready:src") == 1, z, "C12", "consume-no-wait", "consume() waits")
            if "cexc:src" in z.mon:
                self.need(self.same_error(z, v, z.mon["cexc:src"]), z, "C12 C10", "error-unchanged",
                          f"an error of the source surfaces as {self.exc_name(z, v)}")
                self.need(not z.mon["ncalls"], z, "C12", "no-message-no-call",
                          "the function is called although there is no message")
                continue
            self.need(z.mon["ncalls"] == 1, z, "C12", "maps-once",
                      f"the mapping function is called {z.mon['ncalls']} times for a message")
            if z.mon["ncalls"]:
                self.need(z.mon["fargs"] == (z.mon["msg:src"],), z, "C12", "maps-message",
                          "the mapping function is not called with the message itself")
            if "fexc" in z.mon:
                self.need(self.same_error(z, v, z.mon["fexc"]), z, "C12", "function-error-unchanged",
                          f"an error of the mapping function surfaces as {self.exc_name(z, v)}")
            elif "fres" in z.mon:
                self.need(v == z.mon["fres"], z, "C12", "returns-result",
                          f"consume() does not return the function's result but {v!r}")
        return left

    # ---- Selected ---------------------------------------------------------------------------------
    def c21(self):
        self.susp = self.cancel_susp
        sc = self.glob(self.base, "Selected")
        self.consume_errors = ("builtins.ValueError", "builtins.RuntimeError", "builtins.StopIteration")
        n = 0
        for ready in (True, False):
            st, src = self.start()
            st.mon["r:src"] = ready
            self.fnname = f"{sc.cls.mod.rel}:Selected.__init__"
            fn = self.fnname
            for e, sel in self.callv(st, sc, [src]):
                n += 1
                self.fnname = fn
                if not self.need(not isinstance(sel, Exc), e, "C21", "creation-raises",
                                 f"creating a Selected raises {self.exc_name(e, sel)}"):
                    continue
                self.need(e.mon.get("ncons:src") == 1, e, "C21 C17", "consumes-once",
                          f"creating a Selected consumes {e.mon.get('ncons:src', 0)} times")
                self.need(not e.mon.get("nready:src"), e, "C21", "creation-waits", "creating a Selected waits")
                e.roots["sel"] = sel
                x = e.mon.get("cexc:src")
                m = e.mon.get("msg:src")
                e.frames, e.hand = (), ()
                self.check_observers(e, [sel], allow=("message",))
                cur = [e]
                for _ in range(2):
                    nxt = []
                    for s in cur:
                        self.fnname = self.method_key(s, sel, "message")
                        for z, v in self.getp(s.clone(), sel, "message"):
                            if x is None:
                                self.need(v == m, z, "C21", "message", f"message is {v!r}, not what was received")
                            else:
                                self.need(self.same_error(z, v, x), z, "C21", "message-raises",
                                          f"message gives {self.exc_name(z, v)} instead of raising what was received")
                            z.frames, z.hand = (), ()
                            nxt.append(z)
                    cur, cur2 = [], nxt
                    for s in cur2:
                        self.fnname = self.method_key(s, sel, "exception")
                        for z, v in self.getp(s, sel, "exception"):
                            self.need(v == (x if x is not None else NONE), z, "C21", "exception",
                                      f"exception is {v!r}, not what was received")
                            cur.append(z)
                    cur2, cur = cur, []
                    for s in cur2:
                        self.fnname = self.method_key(s, sel, "was_stopped")
                        want = x is not None and self.is_exc(s, Exc(x), "ReceiverStoppedError")
                        for z, v in self.getp(s, sel, "was_stopped"):
                            self.need(v == K(bool(want)), z, "C21 C18", "was-stopped",
                                      f"was_stopped is {v!r} with exception "
                                      f"{self.exc_name(z, Exc(x)) if x is not None else None}")
                            cur.append(z)
                for s in cur:
                    self.need(s.mon.get("ncons:src") == 1, s, "C21", "consumes-once",
                              "reading a Selected consumes again")
                self.selected_from(e, sel, src)
        if not n:
            self.rep.vacuous.append("Selected")

    def selected_from(self, st, sel, src):
        sf = self.glob(st, "selected_from")
        st = st.clone()
        st, host = self.new_src(st, "hostile", "HostileSrc")
        self.fnname = f"{sf.a[0].mod.rel}:{sf.a[0].qual}" if isinstance(sf, Fn) else "selected_from"
        fn = self.fnname
        keep = [(k, v) for k, v in st.heap.items()]
        before = {k: self.osnap(v) for k, v in keep}
        for r, want in ((src, True), (st.roots["other"], False), (host, False)):
            for e, v in self.callv(st.clone(), sf, [sel, r]):
                self.need(v == K(want), e, "C19", "attribution",
                          f"selected_from() is {self.exc_name(e, v)} for {'the' if want else 'another'} receiver")
                if not want:
                    ch = self.changed(before, e)
                    self.need(ch is None, e, "C19", "no-effect", f"a non-matching selected_from() changes {ch}")
                self.need(not e.mon.get("nready:" + self.tag(e, r)), e, "C19", "no-wait", "selected_from() waits")
        # a Selected of a receiver with its own equality
        for cls, tag in (("HostileSrc", "h2"),):
            z, h2 = self.new_src(st.clone(), tag, cls)
            z.mon["r:" + tag] = True
            for e, s2 in self.callv(z, self.glob(z, "Selected"), [h2]):
                if isinstance(s2, Exc):
                    continue
                for r, want in ((h2, True), (src, False)):
                    for y, v in self.callv(e.clone(), sf, [s2, r]):
                        self.need(v == K(want), y, "C19", "attribution",
                                  f"selected_from() is {self.exc_name(y, v)} for "
                                  f"{'the' if want else 'another'} receiver that defines its own equality", fn)


def run_receiver(prog, rep, tier):
    from .chan import _guard
    for part in ("c11", "c12", "c21"):
        s = ReceiverScn(prog, rep)
        s.name = f"receiver/{part}"
        _guard(rep, s, getattr(s, part))
