"""select() and merge(): families of abstract sources whose internal tasks may finish in any order.

Tasks are heap objects; whenever the analysed coroutine is suspended (or its consumer has control) any subset
of them may finish, each with every outcome the receiver contract allows.  Ghost automata per source record
what was taken, reported, re-armed and retired.
"""
from __future__ import annotations

from .interp import Gap
from .models import m_task, memo_put
from .recv import SrcScn
from .scn import NODE, shows
from .state import reach, toks_in
from .values import FALSE, NONE, TRUE, Aw, ClsV, Coro, Exc, Ext, K, Ref, Tok, Tup

CANC = "asyncio.exceptions.CancelledError"
MAXSTATES = 6000


class TaskScn(SrcScn):
    """Tasks of the package over abstract sources."""
    ready_errors = ("builtins.ValueError",)
    consume_errors = ("builtins.ValueError",)

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.cur = None      # (task, cancel requested) while a task's coroutine is interpreted
        self.probe = None    # collects the tag a coroutine waits for first
        self.susp = self.t_susp

    # ---- sources ----------------------------------------------------------------------------------
    def errors(self, base):
        # the full variety of errors is explored with one source only
        return super().errors(base) if len(getattr(self, "tags", "")) == 1 else base + tuple(
            x for x in self.extra_errors() if x not in base)

    def inc(self, st, k):
        pass

    def abs_ready(self, st, src, node):
        t = self.tag(st, src)
        if self.probe is not None:
            self.probe.append(t)
            return []
        if self.cur is None:
            return self.direct_ready(st, src, node)
        out = []
        creq = self.cur[1]
        for r in (TRUE, FALSE):
            z = st.clone()
            z.mon["r:" + t] = r.v
            z.note(f"source {t}: ready() -> {r!r}")
            out.append((z, r))
        for en in self.errors(self.ready_errors):
            z, e = self.mkerr(st.clone(), en, src)
            z.note(f"source {t}: ready() raises {en}")
            self.src_failed(z, t, e, creq)
            out.append((z, Exc(e)))
        if creq:
            z = st.clone()
            out.append((z, Exc(self.I.mkexc(z, CANC))))
        return out

    def direct_ready(self, st, src, node):
        raise Gap("waits for a source outside a task")

    def src_failed(self, st, t, e, creq):
        pass

    def on_task(self, I, st, t, coro, node):
        tags = self.first_wait(st, coro)
        if len(tags) != 1:
            raise Gap(f"task with {len(tags)} first waits")
        tag = tags.pop()
        st.w(t).x["src"] = K(tag)
        st.mon["tasks"] = st.mon["tasks"] + (t,)
        self.created(st, t, tag, node)

    def created(self, st, t, tag, node):
        pass

    def first_wait(self, st, coro):
        s = st.clone()
        s.frames, s.hand, s.heads = (), (), frozenset()
        s.mute += 1
        self.probe, save, saved = [], self.probe, self.susp
        self.susp = lambda z, aw, node: []
        try:
            self.I.await_(s, coro, NODE)
            return set(self.probe)
        finally:
            self.probe, self.susp = save, saved

    def pending(self, st):
        return [t for t in st.mon["tasks"] if st.o(t).x["status"] == K("pending")]

    def pending_of(self, st, tag):
        return [t for t in self.pending(st) if st.o(t).x["src"].v == tag]

    def complete(self, st, t):
        """Every way task t may finish now."""
        s = st.clone()
        frames, hand, heads = s.frames, s.hand, s.heads
        s.frames, s.hand, s.heads = (), (), frozenset()
        creq = s.o(t).x["creq"] == TRUE
        tag = s.o(t).x["src"].v
        save, saved, fn = self.cur, self.susp, self.fnname
        self.cur = (t, creq)

        def susp(z, aw, node):
            raise Gap(f"an internal task suspends on {aw.kind}")
        self.susp = susp
        out = []
        try:
            res = list(self.I.await_(s, s.o(t).f["coro"], NODE))
            if creq:  # cancelled before its first step
                z = st.clone()
                z.frames, z.hand, z.heads = (), (), frozenset()
                res.append((z, Exc(self.I.mkexc(z, CANC))))
        finally:
            self.cur, self.susp, self.fnname = save, saved, fn
        for z, v in res:
            w = z.w(t)
            if isinstance(v, Exc) and self.I.exc_is(z, v.ref, CANC):
                w.x["status"] = K("cancelled")
                z.note(f"the task waiting for {tag} is cancelled")
            elif isinstance(v, Exc):
                w.x["status"], w.x["exc"] = K("done"), v.ref
            else:
                w.x["status"], w.x["result"] = K("done"), v
            w.f.pop("coro", None)
            self.finished(z, t, tag, v)
            z.mon["tasks"] = tuple(x for x in z.mon["tasks"] if x != t)
            cur = [z]
            for cb in z.o(t).f.get("callbacks", Tup()).items:
                cur = [b for a in cur for b, _ in self.callv(a, cb, [t])]
            for b in cur:
                b.frames, b.hand, b.heads = frames, hand, heads
                out.append(b)
        return out

    def finished(self, st, t, tag, v):
        pass

    def completions(self, st):
        """All states after any subset of the pending tasks finished."""
        cur = [st]
        for t in self.pending(st):
            cur = cur + [z for s in cur for z in self.complete(s, t)]
        return cur

    # ---- suspension -------------------------------------------------------------------------------
    def waited(self, st, aw):
        k = aw.kind
        if k in ("wait", "gather"):
            return [t for t in aw.a[1].items if isinstance(t, Ref) and st.o(t).kind == "task"]
        if k in ("task", "shield"):
            return [aw.a[1]]
        return []

    def wakes(self, st, aw):
        k = aw.kind
        if k in ("sleep",):
            return True
        ts = self.waited(st, aw)
        left = [t for t in ts if st.o(t).x["status"] == K("pending")]
        if k == "wait":
            if aw.a[3] != NONE:
                return True
            if aw.a[2] == Ext("asyncio.FIRST_COMPLETED"):
                return len(left) < len(ts)
            if aw.a[2] == Ext("asyncio.FIRST_EXCEPTION"):
                return not left or any(st.o(t).x["exc"] != NONE for t in ts)
            return not left
        if k == "gather":
            return not left or aw.a[2] != TRUE and any(
                st.o(t).x["exc"] != NONE or st.o(t).x["status"] == K("cancelled") for t in ts)
        if k in ("task", "shield"):
            return not left
        if k == "evwait":
            return st.o(aw.a[1]).x["flag"] == TRUE
        raise Gap(f"waits on {k}")

    def env(self, st):
        return self.completions(st)

    def at_wait(self, st, aw, node):
        pass

    def may_cancel(self, st, aw):
        return st.mon["cancel"] is None

    def t_susp(self, st, aw, node):
        st.note(f"suspends at {self.I.where(node)}")
        if aw.kind not in ("wait", "gather", "task", "shield", "sleep", "evwait"):
            raise Gap(f"waits on {aw.kind}")
        self.at_wait(st, aw, node)
        fn = self.fnname
        out, seen = [], set()
        states = self.env(st.clone())
        self.fnname = fn
        for s in states:
            k = self.I.key(s)
            if k in seen:
                continue
            seen.add(k)
            if self.wakes(s, aw):
                out.append((s, NONE))
            if self.may_cancel(s, aw) and aw.kind not in ("gather", "task"):
                out.append(self.cancelled(s.clone(), aw))
        if self.may_cancel(st, aw) and aw.kind in ("gather", "task"):
            # the cancellation is passed on to the children first
            c = st.clone()
            for t in self.waited(c, aw):
                if c.o(t).x["status"] == K("pending"):
                    c.w(t).x["creq"] = TRUE
            for s in self.env(c):
                if not any(s.o(t).x["status"] == K("pending") for t in self.waited(s, aw)):
                    z = self.cancelled(s, aw)
                    if aw.kind == "task" and z[0].o(aw.a[1]).x["status"] != K("cancelled"):
                        z = (z[0], NONE)
                    out.append(z)
        res = []
        for s, x in out:
            if aw.kind in ("task", "shield") and x == NONE:
                r = m_task(self.I, s, aw.a[1], s.o(aw.a[1]), "result", [], {}, node)
                res += r
            else:
                res.append((s, x))
        return res

    def cancelled(self, c, aw):
        e = self.I.mkexc(c, CANC)
        c.mon["cancel"] = e
        c.note("the waiting task is cancelled")
        self.on_cancel(c)
        return c, Exc(e)

    def on_cancel(self, st):
        pass

    def family(self, tags):
        st = self.base.clone()
        st.mon.update(tasks=(), cancel=None)
        srcs = []
        for t in tags:
            st, v = self.new_src(st, t)
            srcs.append(v)
        memo_put(st, Tok("loop", "running"), "running", True)
        return st, srcs

    def find(self, st, val, roots):
        """Whether a token or object is held by something reachable from roots."""
        r = reach(st, roots)
        if isinstance(val, Ref):
            return val.oid in r
        for i in r:
            o = st.heap[i]
            for v in list(o.f.values()) + list(o.items or ()) + list(o.x.values()):
                if val in toks_in(v):
                    return True
        return False


class SelectScn(TaskScn):
    consume_errors = ("builtins.ValueError", "builtins.KeyboardInterrupt")

    def ph(self, st, tag):
        return st.mon["ph:" + tag]

    def setph(self, st, tag, p):
        st.mon["ph:" + tag] = p

    def inphase(self, st, *ps):
        return [t for t in self.tags if self.ph(st, t) in ps]

    def abs_consume(self, st, src, node):
        t = self.tag(st, src)
        p = self.ph(st, t)
        if not self.need(p == "ready", st, "C17", "consumes-once",
                         f"a receiver is consumed although it is {p}", node=node):
            st.mon["r:" + t] = st.mon["r:" + t] if st.mon["r:" + t] != "?" else True
        for k in ("msg:", "cexc:"):
            st.mon.pop(k + t, None)
        self.setph(st, t, "consumed")
        foreign = []
        if st.mon["r:" + t] is True and t == self.tags[0]:
            # such as a mapping function that passes on the stop of another receiver
            z, e = self.stop_error(st.clone(), st.roots["foreign"])
            z.mon["cexc:" + t] = e
            z.note(f"source {t}: consume() raises the stop of another receiver")
            foreign = [(z, Exc(e))]
        out = super().abs_consume(st, src, node) + foreign
        for z, v in out:
            if isinstance(v, Exc) and not self.I.exc_is(z, v.ref, "Exception"):
                z.mon["end"] = "raised"
                z.mon["endexc"] = v.ref
        return out

    def created(self, st, t, tag, node):
        p = self.ph(st, tag)
        n = len(self.pending_of(st, tag)) - 1
        self.need(not n, st, "C17", "one-outstanding-wait", "a second wait for the same receiver is started",
                  node=node)
        if st.mon["end"] is not None:
            self.bad(st, "C20 C17", "wait-after-end", "a wait is started although the iteration is ending", node=node)
        elif p == "retired" or p in ("consumed", "yielded") and st.mon["r:" + tag] is False:
            self.bad(st, "C18", "stopped-rearmed", "a stopped receiver is waited for again", node=node)
        else:
            self.need(p in ("new", "handled"), st, "C17", "rearm-order",
                      f"a receiver is waited for again while it is {p}", node=node)
        self.setph(st, tag, "armed")

    def src_failed(self, st, t, e, creq):
        if creq and st.mon["end"] is not None:
            st.mon["cexcs"] = st.mon["cexcs"] + (e,)
        st.mon["rexc:" + t] = e

    def finished(self, st, t, tag, v):
        if isinstance(v, Exc):
            self.setph(st, tag, "cancelled" if self.I.exc_is(st, v.ref, CANC) else "failed")
        else:
            self.setph(st, tag, "ready")

    def e_task_cancel(self, st, node, d):
        if st.mon.get("end") is None and self.inphase(st, "failed"):
            st.mon["end"] = "failed"
        if st.mon.get("end") is None:
            self.bad(st, "C20", "cancels-in-operation", "an internal wait is cancelled during normal operation",
                     node=node)

    def on_cancel(self, st):
        if st.mon["end"] is None:
            st.mon["end"] = "cancelled"
        else:
            st.mon["endcancel"] = True

    def at_wait(self, st, aw, node):
        if st.mon["end"] is not None:
            return
        fails = [st.mon["rexc:" + t] for t in self.inphase(st, "failed")]
        if any(st.o(h).f.get("__cause__", NONE) in fails for h in st.hand):
            return  # cleaning up while the failure is on its way out
        w = self.waited(st, aw)
        anyc = aw.kind == "wait" and aw.a[2] == Ext("asyncio.FIRST_COMPLETED")
        fin = [t for t in w if st.o(t).x["status"] != K("pending")]
        done = {st.o(t).x["src"].v for t in fin} if anyc or len(fin) == len(w) else set()
        rdy = [t for t in self.inphase(st, "ready") if t not in done]
        self.need(not rdy, st, "C17", "ready-not-reported",
                  "waits although a ready receiver was not reported", node=node)
        self.need(not self.inphase(st, "consumed"), st, "C17 C13", "consumed-not-reported",
                  "waits although a consumed message was not reported", node=node)
        fl = [t for t in self.inphase(st, "failed") if t not in done]
        self.need(not fl, st, "C20", "failure-not-reported",
                  "waits although the failure of a receiver was not reported", node=node)
        act = self.inphase(st, "armed")
        self.need(bool(act) or bool(done), st, "C18", "ends-when-all-stopped", "waits although every receiver has stopped",
                  node=node)
        self.need(not self.inphase(st, "new"), st, "C17", "waits-for-all",
                  "a receiver is not waited for from the start", node=node)
        self.need(not self.inphase(st, "handled", "yielded"), st, "C17", "rearmed",
                  "an active receiver is not waited for again", node=node)
        for tag in act:
            p = self.pending_of(st, tag)
            ok = bool(p) and (aw.kind == "wait" and aw.a[3] != NONE or p[0] in w and (anyc or len(w) == 1))
            self.need(ok, st, "C17 C18", "wakes-on-any",
                      "a receiver becoming ready does not wake the selection", node=node)
            self.need(st.roots[tag].oid in reach(st, [Ref(f) for f in st.frames]), st, "C09",
                      "derived-keeps-source", "select() does not keep a source alive", node=node)

    # ---- the consumer -----------------------------------------------------------------------------
    def hook(self, I, st, v, node):
        fn = self.fnname
        if st.mon["end"] is not None:
            self.bad(st, "C20 C19" if st.mon["end"] == "unhandled" else "C20", "yields-after-end",
                     f"yields although the iteration must end ({st.mon['end']})", node=node)
            return []
        sel = self.glob(st, "Selected")
        if not self.need(isinstance(v, Ref) and st.o(v).kind == "inst" and not isinstance(st.o(v).cls, str)
                         and I.is_sub(st.o(v).cls, sel.cls), st, "C17", "yields-selected",
                         "yields something that is not a Selected", node=node):
            return []
        cons = self.inphase(st, "consumed")
        self.need(len(cons) == 1, st, "C17", "one-per-selected",
                  f"a Selected is yielded after consuming {len(cons)} receivers", node=node)
        if len(cons) != 1:
            return []
        tag = cons[0]
        frames, hand, heads = st.frames, st.hand, st.heads
        st.frames, st.hand, st.heads = (), (), frozenset()
        sf = self.glob(st, "selected_from")
        owners = [t for t in self.tags if all(r == TRUE for _, r in self.callv(st.clone(), sf, [v, st.roots[t]]))]
        self.need(owners == [tag], st, "C17 C19", "attribution",
                  f"the Selected of receiver {tag} is attributed to {owners}", node=node)
        want = st.mon.get("cexc:" + tag)
        k0, looked = self.I.key(st, (v,)), []
        for z, m in self.getp(st.clone(), v, "message"):
            looked.append(z)
            ok = m == (Exc(want) if want is not None else st.mon.get("msg:" + tag))
            self.need(ok, z, "C17 C21", "selected-content",
                      f"the Selected does not hold what was consumed but {m!r}", node=node)
        stop = st.mon["r:" + tag] is False
        for z, m in self.getp(st.clone(), v, "was_stopped"):
            looked.append(z)
            self.need(m == K(stop or want is not None and self.is_exc(z, Exc(want), "ReceiverStoppedError")), z,
                      "C18 C21", "was-stopped",
                      f"was_stopped is {m!r} for a receiver that has {'' if stop else 'not '}stopped", node=node)
        looked += [z for z, _ in self.getp(st.clone(), v, "exception")]
        # the body may read the Selected before doing anything else
        looked = [z for z in looked if self.I.key(z, (v,)) != k0]
        for z in looked:
            z.note("the body reads the Selected")
        out = []
        self.n_yield += 1
        for z in [st] + looked:
            self.setph(z, tag, "yielded")
            z.roots["sel"] = v
        for s in [y for z in [st] + looked for y in self.completions(z.clone())]:
            # the body may also compare with another receiver, before or after
            k0 = self.I.key(s, (v,))
            wrong = [t for t in self.tags if t != tag][:1]
            compared = [z for t in wrong for z, _ in self.callv(s.clone(), sf, [v, s.roots[t]])]
            compared = [z for z in compared if self.I.key(z, (v,)) != k0]
            # handled
            done = [z for p in [s] + compared for z, _ in self.callv(p.clone(), sf, [v, s.roots[tag]])]
            for z in list(done):
                kz = self.I.key(z, (v,))
                for t in wrong:
                    for y, _ in self.callv(z.clone(), sf, [v, z.roots[t]]):
                        if self.I.key(y, (v,)) != kz:
                            y.note(f"the body also compares with {t}")
                            done.append(y)
            for z in done:
                self.setph(z, tag, "retired" if stop else "handled")
                z.roots.pop("sel", None)
                for k in ("msg:", "cexc:"):
                    z.mon.pop(k + tag, None)
                z.note(f"the body handles the Selected of {tag}")
                out.append((z, NONE))
            # not handled, or compared with the wrong receiver only
            for z in [s.clone()] + compared:
                z.mon["end"] = "unhandled"
                z.note(f"the body does not handle the Selected of {tag}")
                out.append((z, NONE))
            # closed
            z = s.clone()
            z.mon["end"] = "closed"
            z.note("the consumer breaks out and closes the generator")
            out.append((z, Exc(I.mkexc(z, "GeneratorExit"))))
        for z, _ in out:
            z.frames, z.hand, z.heads = frames, hand, heads
            if z.mon["end"] is not None:
                z.mon["left"] = tuple(self.pending(z))
        self.fnname = fn
        return out

    def group(self, st, v):
        """Flattened members of an exception group."""
        if not isinstance(v, Exc) or "exceptions" not in st.o(v.ref).f:
            return None
        out, todo = [], list(st.o(v.ref).f["exceptions"].items)
        while todo:
            x = todo.pop()
            out.append(x)
            if isinstance(x, Ref) and "exceptions" in st.o(x).f:
                todo += list(st.o(x).f["exceptions"].items)
        return out

    def run(self, args, name):
        self.name = name
        self.n_yield = 0
        self.tags = sorted(set(args))
        st, _ = self.family(self.tags)
        st, _ = self.new_src(st, "foreign")
        for t in self.tags:
            st.mon["ph:" + t] = "new"
        st.mon.update(end=None, cexcs=(), endexc=NONE, endcancel=False, left=())
        sel = self.glob(st, "select")
        from .values import Fn
        self.fnname = fn = f"{sel.a[0].mod.rel}:{sel.a[0].qual}" if isinstance(sel, Fn) else "select"
        r = self.callv(st, sel, [st.roots[t] for t in args])
        if len(r) != 1 or not isinstance(r[0][1], Ref) or r[0][0].o(r[0][1]).kind != "agen":
            raise Gap("select() is not an async generator")
        st, ag = r[0]
        o = st.o(ag)
        kw = {p.a[0].v: p.a[1] for p in o.f["kw"].items}
        ends = self.guarded(lambda: self.I.run_fn(st, o.f["fn"], list(o.f["args"].items), kw, NODE,
                                                  yieldhook=self.hook))
        if not ends or args and not self.n_yield:
            self.rep.vacuous.append(name)
        self.rep.states[name] = len(ends)
        for e, v in ends:
            self.fnname = fn
            self.end(e, v)

    def end(self, e, v):
        m = e.mon
        end = m["end"]
        left = self.pending(e)
        if not m["endcancel"]:
            self.need(not left, e, "C20", "no-task-left",
                      f"the iteration ended ({end or 'exhausted'}) but {len(left)} internal waits are still running")
        else:
            self.need(all(e.o(t).x["creq"] == TRUE for t in left), e, "C20", "no-task-left",
                      "the iteration ended without cancelling its waits")
        ce = m["cexcs"]
        g = self.group(e, v)
        if end != "unhandled" and isinstance(v, Exc):
            self.need(not any(self.is_exc(e, Exc(r), "UnhandledSelectedError") for r in self.chain(e, v.ref)), e,
                      "C19", "handled-accepted", "a handled Selected is reported as unhandled")
        if (end is None or end == "failed" and not m["endcancel"]) and isinstance(v, Exc):
            # a failing receiver ends the iteration
            fl = [t for t in self.tags if "rexc:" + t in m]
            se = self.cls("SelectError")
            if g is not None and not fl:
                self.bad(e, "C20", "error-invented", "an exception group without a failing receiver")
                return
            top = v
            if g is not None and all(x in ce or x in [m["rexc:" + t] for t in fl] for x in g):
                c = e.o(v.ref).f.get("__context__", NONE)
                top = Exc(c) if isinstance(c, Ref) else v
            ok = self.need(bool(fl) and self.is_exc(e, top, "SelectError") and
                           not self.is_exc(e, top, "UnhandledSelectedError"), e, "C20 C28", "select-error",
                           f"{'a failing ready()' if fl else 'normal operation'} surfaces as "
                           f"{self.exc_name(e, v)}")
            if ok and se is not None:
                cause = e.o(top.ref).f.get("__cause__", NONE)
                self.need(cause in [m["rexc:" + t] for t in fl], e, "C20 C28", "select-error-cause",
                          "the SelectError is not caused by the receiver's error")
        elif end is None or end == "failed" and not m["endcancel"]:
            rest = [t for t in self.tags if self.ph(e, t) != "retired"]
            self.need(not rest, e, "C18 C17", "ends-when-all-stopped",
                      f"the iteration ends normally although {len(rest)} receivers are still "
                      f"{', '.join(self.ph(e, t) for t in rest)}")
            self.need(not ce, e, "C20", "cleanup-error", "an error raised during cleanup is dropped")
            return
        if m["endcancel"] or end == "cancelled":
            isc = isinstance(v, Exc) and self.I.exc_is(e, v.ref, CANC)
            if g is not None and (ce or any(self.ph(e, t) == "failed" for t in self.tags)):
                self.need(m["cancel"] in self.chain(e, v.ref), e, "C14", "cancellation-context",
                          "a cancellation is lost although cleaning up failed")
            else:
                self.need(isc, e, "C14", "cancellation-propagates",
                          f"a cancellation delivered inside select() ends as {self.exc_name(e, v)}")
            self.need(end == "raised" or not self.inphase(e, "consumed"), e, "C13", "cancel-takes",
                      "a cancelled selection consumed a message it did not report")
            if m["endcancel"]:
                return
        else:
            isc = isinstance(v, Exc) and self.I.exc_is(e, v.ref, CANC)
            self.need(not isc, e, "C14", "no-spontaneous-cancel", "select() raises CancelledError uncancelled")
        if ce:
            self.need(g is not None and all(x in g for x in ce), e, "C20", "cleanup-error",
                      f"an error raised during cleanup is dropped (the iteration ends as {self.exc_name(e, v)})")
            return
        self.rep.ok("C20", "cleanup-error")
        fails = [m["rexc:" + t] for t in self.tags if self.ph(e, t) == "failed"]
        if g is not None and fails and all(x in fails for x in g):
            return
        if end == "unhandled":
            ok = self.need(self.is_exc(e, v, "UnhandledSelectedError"), e, "C19 C28", "unhandled-raises",
                           f"an unhandled Selected ends as {self.exc_name(e, v)}")
            if ok:
                self.need(self.attrv(e, v.ref, "selected") == e.roots["sel"], e, "C19 C28", "unhandled-carries",
                          "the UnhandledSelectedError does not carry the Selected")
        elif end == "closed":
            self.need(not isinstance(v, Exc) or self.I.exc_is(e, v.ref, "GeneratorExit"), e, "C20",
                      "close-clean", f"closing the iteration raises {self.exc_name(e, v)}")
        elif end == "raised":
            self.need(v == Exc(m["endexc"]), e, "C21 C20", "base-exception",
                      f"a KeyboardInterrupt raised while consuming ends as {self.exc_name(e, v)}")


class MergeScn(TaskScn):
    def it(self, st, tag):
        return st.mon["it:" + tag]

    def src_failed(self, st, t, e, creq):
        self.take(st, t, e, creq)

    def take(self, st, t, item, creq):
        st.mon["it:" + t] = self.it(st, t) + (item,)
        st.mon["un:" + t] = True
        if creq:  # taken by a task that is being cancelled: may be handed out, need not
            st.mon["opt:" + t] = True

    def abs_consume(self, st, src, node):
        t = self.tag(st, src)
        creq = self.cur is not None and self.cur[1]
        for k in ("msg:", "cexc:"):
            st.mon.pop(k + t, None)
        out = super().abs_consume(st, src, node)
        for z, v in out:
            z.mon.pop("msg:" + t, None)
            z.mon.pop("cexc:" + t, None)
            if not isinstance(v, Exc):
                self.take(z, t, v, creq)
            elif self.is_exc(z, v, "ReceiverStoppedError"):
                z.mon["ended:" + t] = True
            else:
                self.take(z, t, v.ref, creq)
            z.mon["r:" + t] = "?"
        return out

    def created(self, st, t, tag, node):
        n = len(self.pending_of(st, tag)) - 1
        self.need(not n, st, "C15", "one-outstanding-receive", "a second receive of the same source is started",
                  node=node)
        self.need(not st.mon["stopped"], st, "C16", "task-after-stop", "an internal task is started after stop()",
                  node=node)
        self.need(not st.mon["ended:" + tag], st, "C16", "stopped-source-rearmed",
                  "a source that stopped is waited for again", node=node)
        st.mon["un:" + tag] = False
        st.mon["armed:" + tag] = True

    def e_task_cancel(self, st, node, d):
        if not st.mon["stopped"] and not st.mon["dead"]:
            self.bad(st, "C15 C13", "cancels-in-operation",
                     "an outstanding receive is cancelled although stop() was not called", node=node)

    def active(self, st):
        return [t for t in self.tags if not st.mon["ended:" + t]]

    def collected(self, st, tag):
        """Undelivered items of a source that must be handed out next: all but an uncollected last one."""
        i = self.it(st, tag)
        return i[:-1] if st.mon["un:" + tag] and i else i

    def at_wait(self, st, aw, node):
        if self.op == "ready":
            if st.mon["cancel"] is not None:
                return
            self.need(not st.mon["stopped"], st, "C16", "waits-after-stop", "ready() waits after stop()", node=node)
            if st.mon["stopped"]:
                return
            act = self.active(st)
            w = self.waited(st, aw)
            now = [t for t in w if st.o(t).x["status"] != K("pending")]
            self.need(bool(act) or bool(now), st, "C16", "ends-when-all-stopped",
                      "ready() waits although every source has stopped", node=node)
            anyc = aw.kind == "wait" and (aw.a[3] != NONE or aw.a[2] == Ext("asyncio.FIRST_COMPLETED"))
            for t in self.tags:
                self.need(not self.collected(st, t), st, "C15", "message-delayed",
                          "ready() waits although a collected message is undelivered", node=node)
            for t in act:
                p = self.pending_of(st, t)
                if st.mon["un:" + t] and not p:
                    # finished but not collected yet: the wait returns at once if it is waited for
                    h = [x for x in w if st.o(x).x["src"].v == t]
                    self.need(bool(h) and anyc or h == w, st, "C15", "message-delayed",
                              "ready() waits although a source has a message", node=node)
                    continue
                ok = self.need(len(p) == 1, st, "C15", "source-waited-for",
                               "a source that has not stopped is not waited for", node=node)
                self.need(not ok or p[0] in w and (anyc or len(w) == 1), st, "C15",
                          "wakes-on-any", "a message of a source does not wake the merged receiver", node=node)
        elif self.op == "stop":
            self.need(all(st.o(t).x["creq"] == TRUE for t in self.pending(st)), st, "C16", "stop-cancels",
                      "stop() waits for a task it did not cancel", node=node)

    def env(self, st):
        out = self.completions(st)
        if self.op == "ready" and not st.mon["stopped"]:
            for s in list(out):
                out += [y for z in self.stop_segment(s) for y in self.completions(z)]
        if self.op == "stop":
            op = self.op
            for s in list(out):
                for meth in ("ready", "consume"):
                    for z, v in self.segment(s, lambda x, meth=meth: self.invoke(x, x.roots["mg"], meth)):
                        if meth == "consume":
                            if not self.delivered(z, v):
                                continue
                        out.append(z)
            self.op = op
        return out

    def stop_segment(self, s):
        out = []
        s = s.clone()
        self.begin_stop(s)
        op, self.op = self.op, "other"
        s.note("meanwhile: stop()")
        for z, v in self.segment(s, lambda x: self.invoke(x, x.roots["mg"], "stop")):
            out.append(z)
        self.op = op
        return out

    def begin_stop(self, s):
        s.mon["stopped"] = True
        for t in self.tags:
            if s.mon["un:" + t] and self.it(s, t):
                s.mon["opt:" + t] = True

    def delivered(self, st, v):
        """Account for the outcome of consume(); False if it delivered something it must not."""
        item = v.ref if isinstance(v, Exc) else v
        for t in self.tags:
            i = self.it(st, t)
            if i and i[0] == item:
                st.mon["it:" + t] = i[1:]
                if not i[1:]:
                    st.mon["opt:" + t] = False
                    st.mon["un:" + t] = False if st.mon["un:" + t] and self.pending_of(st, t) else st.mon["un:" + t]
                return True
        return False

    def must(self, st):
        """Items that still have to be handed out."""
        out = []
        for t in self.tags:
            i = self.it(st, t)
            out += i[:-1] if st.mon["opt:" + t] else i
        return out

    def may_cancel(self, st, aw):
        return st.mon["cancel"] is None and self.op in ("ready", "stop")

    # ---- exploration ------------------------------------------------------------------------------
    def run(self, tags, name):
        self.name, self.tags = name, list(tags)
        self.op = "merge"
        st, srcs = self.family(tags)
        for t in tags:
            st.mon.update({"it:" + t: (), "un:" + t: False, "opt:" + t: False, "ended:" + t: False,
                           "armed:" + t: False})
        st.mon.update(stopped=False, dead=False)
        self.named(st.clone(), srcs)
        mg = self.glob(st, "merge")
        from .values import Fn
        self.fnname = f"{mg.a[0].mod.rel}:{mg.a[0].qual}" if isinstance(mg, Fn) else "merge"

        def nosusp(z, aw, node):
            return []
        r = self.callv(st, mg, srcs)
        if not tags:
            for e, v in r:
                self.need(isinstance(v, Exc) and self.I.exc_is(e, v.ref, "builtins.ValueError"), e, "C16 C28",
                          "merge-nothing", f"merge() without receivers gives {self.exc_name(e, v)}")
            return
        work, seen = [], set()
        for e, v in r:
            if not self.need(not isinstance(v, Exc), e, "C15 C16", "merge-raises", f"merge() raises {self.exc_name(e, v)}"):
                continue
            e.roots["mg"] = v
            for t in tags:
                self.rep.ok("C15", "source-waited-for")
            work.append(self.settle(e))
        n = 0
        reached = []
        for s in work:
            seen.add(self.I.key(s))
        while work:
            s = work.pop()
            reached.append(s)
            if len(reached) > MAXSTATES:
                raise Gap("too many states")
            self.state_check(s)
            for op in ("ready", "consume", "stop", "tick"):
                try:
                    ends = getattr(self, "op_" + op)(s.clone())
                except Gap as g:
                    self.I.gap(NODE, f"{self.name}/{op}: {g}")
                    continue
                n += len(ends)
                for e in ends:
                    e = self.settle(e)
                    k = self.I.key(e)
                    if k not in seen:
                        seen.add(k)
                        e.note(f"then {op}")
                        work.append(e)
        self.rep.states[name] = len(reached)
        if not n:
            self.rep.vacuous.append(name)

    def settle(self, e):
        e.frames, e.hand, e.heads = (), (), frozenset()
        e.mon["cancel"] = None
        return self.gc(e)

    def truths(self, st, ref):
        return {"__str__": ("shows", K("src"), *[st.roots[t] for t in self.tags]),
                "__repr__": ("shows", K("src"), *[st.roots[t] for t in self.tags])}

    def named(self, st, srcs):
        """The name given to a Merger is shown by it."""
        mc = self.glob(st, "Merger")
        if len(self.tags) != 1 or not isinstance(mc, ClsV):
            return
        name = Tok("str", "name")
        for e, v in self.callv(st.clone(), mc, srcs, {"name": NONE}):
            self.fnname = f"{mc.cls.mod.rel}:{mc.cls.qual}.__init__"
            self.need(not isinstance(v, Exc), e, "C15 C16", "merge-raises", f"Merger() raises {self.exc_name(e, v)}")
        for e, v in self.callv(st, mc, srcs, {"name": name}):
            self.fnname = f"{mc.cls.mod.rel}:{mc.cls.qual}.__init__"
            if not self.need(not isinstance(v, Exc), e, "C15 C16", "merge-raises",
                             f"Merger() raises {self.exc_name(e, v)}"):
                continue
            for n in ("__str__", "__repr__"):
                for z, w in self.observe(e.clone(), v, n):
                    self.need(not isinstance(w, Exc) and shows(z, w, name), z, "C34", "representation-shows",
                              f"{n} of a merged receiver does not show the name it was given",
                              self.method_key(z, v, n))

    def state_check(self, st):
        mg = st.roots["mg"]
        self.op = "observe"
        if len(self.tags) < 3:
            self.check_observers(st, [mg])
        self.fnname = self.method_key(st, mg, "ready")
        r = reach(st, [mg])
        if not st.mon["stopped"]:
            for t in self.active(st):
                self.need(st.roots[t].oid in r, st, "C09", "derived-keeps-source",
                          "a merged receiver does not keep a source alive")
        self.held(st)
        # dropping the merged receiver
        s = st.clone()
        s.mon["dead"] = True
        self.op = "del"
        m = self.I.find_method(s.o(mg).cls, "__del__")
        ends = [(s, NONE)]
        if m and m[1] is not None:
            self.fnname = self.method_key(s, mg, "__del__")
            ends = self.invoke(s, mg, "__del__")
        for e, v in ends:
            self.need(not isinstance(v, Exc), e, "C16", "drop-cancels", "dropping the merged receiver raises")
            self.need(all(e.o(t).x["creq"] == TRUE for t in self.pending(e)), e, "C16", "drop-cancels",
                      "dropping the merged receiver leaves its tasks running")

    def held(self, st):
        mg = st.roots["mg"]
        for i in self.must(st):
            self.need(self.find(st, i, [mg]), st, "C15 C13" if not st.mon["stopped"] else "C15 C16", "message-lost",
                      "a message received from a source is no longer held by the merged receiver")
        if not st.mon["stopped"]:
            for t in self.active(st):
                if not st.mon["un:" + t]:
                    p = self.pending_of(st, t)
                    self.need(len(p) == 1, st, "C15", "source-waited-for",
                              "a source that has not stopped is not waited for")

    def op_tick(self, s):
        self.op = "tick"
        return [z for t in self.pending(s) for z in self.complete(s, t)]

    def op_ready(self, s):
        mg = s.roots["mg"]
        self.op = "ready"
        fn = self.fnname = self.method_key(s, mg, "ready")
        s.mon["had"] = bool(sum(len(self.collected(s, t)) for t in self.tags))
        out = []
        for e, v in self.invoke(s, mg, "ready"):
            self.fnname = fn
            e.mon.pop("had", None)
            canc = self.cancel_outcome(e, v, "ready of a merged receiver")
            e.frames, e.hand, e.heads = (), (), frozenset()
            if not canc:
                if not self.need(v in (TRUE, FALSE), e, "C10", "ready-bool",
                                 f"ready() ends as {self.exc_name(e, v)}"):
                    continue
                if v == FALSE:
                    self.may_stop(e, "ready() returns False")
                else:
                    self.need(any(self.it(e, t) for t in self.tags), e, "C10 C15", "ready-true-has-message",
                              "ready() returns True although no source delivered a message")
                self.promise(e, v, fn)
            out.append(e)
            self.op = "ready"
        return out

    def may_stop(self, e, what):
        ok = e.mon["stopped"] or not self.active(e)
        self.need(ok, e, "C16", "stop-too-early", f"{what} although a source has not stopped")
        if ok:
            self.need(not self.must(e), e, "C16 C15", "stop-hides-message",
                      f"{what} although a message was not handed out")

    def promise(self, e, v, fn):
        """C10: what ready() reported still holds after stop() or sources finishing."""
        mg = e.roots["mg"]
        sts = self.completions(e.clone())
        if not e.mon["stopped"]:
            for s in list(sts):
                sts += self.stop_segment(s)
        for s in sts:
            s.note(f"after ready() returned {v!r}")
            save, held = self.susp, dict((t, self.it(s, t)) for t in self.tags)

            def nosusp(z, aw, node):
                self.bad(z, "C10", "ready-again-suspends",
                         f"ready() waits again although a previous ready() already returned {v!r}", fn)
                return []
            self.susp = nosusp
            for z, w in self.invoke(s.clone(), mg, "ready"):
                self.need(w == v, z, "C10", "ready-again", f"ready() returns {w!r} after it returned {v!r}", fn)
            cfn = self.method_key(s, mg, "consume")
            for z, w in self.invoke(s.clone(), mg, "consume"):
                if v == TRUE:
                    ok = any(i and i[0] == (w.ref if isinstance(w, Exc) else w) for i in held.values())
                    self.need(ok, z, "C10", "consume-after-ready",
                              f"consume() gives {self.exc_name(z, w)} although ready() returned True", cfn)
                else:
                    self.need(self.is_exc(z, w, "ReceiverStoppedError"), z, "C10 C16", "consume-after-stop",
                              f"consume() gives {self.exc_name(z, w)} although ready() returned False", cfn)
            self.susp = save
        self.fnname = fn

    def op_consume(self, s):
        mg = s.roots["mg"]
        self.op = "consume"
        fn = self.fnname = self.method_key(s, mg, "consume")
        out = []

        def nosusp(z, aw, node):
            return []
        heads = {t: self.it(s, t)[:1] for t in self.tags}
        for e, v in self.invoke(s, mg, "consume"):
            self.fnname = fn
            if self.delivered(e, v):
                z = e.clone()
                z.frames, z.hand, z.heads = (), (), frozenset()
                self.need(isinstance(v, Exc) or v not in self.held_msgs(z, [mg]), e, "C35", "message-retained",
                          "a merged receiver keeps a reference to the message it handed out")
                self.rep.ok("C15", "delivers-head")
                self.rep.ok("C10", "consume-yields-once")
                out.append(e)
                continue
            if isinstance(v, Exc) and self.is_exc(e, v, "ReceiverStoppedError"):
                self.need(self.attrv(e, v.ref, "receiver") == mg, e, "C16 C28", "stop-attributed",
                          "the ReceiverStoppedError does not carry the merged receiver")
                self.may_stop(e, "consume() reports the end")
            elif isinstance(v, Exc):
                self.need(self.I.exc_is(e, v.ref, "AssertionError"), e, "C15 C28", "consume-error",
                          f"consume() raises {self.exc_name(e, v)} that no source raised next")
            else:
                self.bad(e, "C15", "delivers-head", f"consume() returns {v!r}, not the next message of a source")
            out.append(e)
        return out

    def op_stop(self, s):
        mg = s.roots["mg"]
        self.op = "stop"
        fn = self.fnname = self.method_key(s, mg, "stop")
        again = s.mon["stopped"]
        self.begin_stop(s)
        out = []
        held = [i for i in self.must(s) if again and self.find(s, i, [mg])]
        for e, v in self.invoke(s, mg, "stop"):
            self.fnname = fn
            if again and e.mon["cancel"] is None:
                self.need(not isinstance(v, Exc), e, "C39", "repeat-raises",
                          f"stopping a stopped merged receiver raises {self.exc_name(e, v)}")
                self.need(all(self.find(e, i, [mg]) for i in held), e, "C39", "repeat-changes",
                          "stopping a stopped merged receiver drops messages")
            canc = self.cancel_outcome(e, v, "stop() of a merged receiver")
            if not canc:
                self.need(not isinstance(v, Exc), e, "C16 C28", "stop-raises", f"stop() raises {self.exc_name(e, v)}")
                self.need(again or not self.pending(e), e, "C16", "stop-awaits",
                          "stop() returns while an internal task is still running")
            else:
                self.need(all(e.o(t).x["creq"] == TRUE for t in self.pending(e)), e, "C16", "stop-cancels",
                          "a cancelled stop() leaves a task uncancelled")
            self.op = "stop"
            out.append(e)
        return out


def run_select(prog, rep, tier):
    from .chan import _guard
    fams = ["", "A", "AB", "AA"] + (["ABC"] if tier == "thorough" else [])
    for f in fams:
        s = SelectScn(prog, rep)
        if f == "ABC":
            s.ready_errors = ("builtins.ValueError",)
            s.consume_errors = ()
        s.name = f"select({', '.join(f)})"
        _guard(rep, s, lambda: s.run(list(f), s.name))


def run_merge(prog, rep, tier):
    from .chan import _guard
    fams = ["", "A", "AB"] + (["ABC"] if tier == "thorough" else [])
    for f in fams:
        s = MergeScn(prog, rep)
        if f == "ABC":
            s.consume_errors = ()
        s.name = f"merge({', '.join(f)})"
        _guard(rep, s, lambda: s.run(list(f), s.name))
