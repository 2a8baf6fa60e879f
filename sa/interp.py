"""Abstract interpreter for the package's Python subset.

Big-step, path-sensitive over finite abstract states; loops are run to a fixpoint of canonical states;
calls into the package are inlined; anything external is a model (models.py) or a reported gap.
Every possible suspension calls the scenario's hooks, which apply interference and cancellation.
"""
from __future__ import annotations

import ast
import builtins
import importlib

from .loader import AnalysisError, ClassInfo, FuncInfo, PKG
from .state import Obj, Seg, State, canon
from .values import (FALSE, NONE, TRUE, App, Aw, Bound, ClsV, Coro, EnumM, Exc, Ext, ExtM, Fn, K, Mod, Num,
                     Partial, Ref, Slice, SuperV, Td, Tok, Top, Tup, V, _T, add_fact, entails_ge, fromnum,
                     iatom, kb, tonum)

BRK, CONT = ("brk",), ("cont",)
STDLIB = {"asyncio", "collections", "abc", "enum", "datetime", "pathlib", "typing", "logging", "weakref",
          "itertools", "contextlib", "dataclasses", "functools", "time", "math", "collections.abc",
          "operator", "copy", "sys", "os", "threading", "queue", "types", "warnings", "inspect", "random",
          "heapq", "uuid", "string", "re", "builtins", "concurrent.futures", "numbers", "traceback"}


class Gap(Exception):
    """A construct the interpreter has no model for."""


_extcache = {}


def extobj(path):
    """The real object an external dotted path names (allow-listed stdlib only), for class relations."""
    if path in _extcache:
        return _extcache[path]
    res = None
    parts = path.split(".")
    for i in range(len(parts) - 1, 0, -1):
        m = ".".join(parts[:i])
        if m in STDLIB or parts[0] in STDLIB and m.split(".")[0] in STDLIB:
            try:
                o = importlib.import_module(m)
                for p in parts[i:]:
                    o = getattr(o, p)
                res = o
                break
            except (ImportError, AttributeError):
                continue
    _extcache[path] = res
    return res


def ext_is_class(path):
    return isinstance(extobj(path), type)


class ModuleFrame:
    pass


class Interp:
    def __init__(self, prog, hooks):
        self.prog, self.hooks = prog, hooks
        self.gaps = []
        self.gapkeys = set()
        self.modoid = {}      # module name -> oid of its globals object
        self.clsoid = {}      # class key -> oid of its class-attribute object
        self.loaded = set()
        self.fnseen = set()   # functions interpreted
        self.sites = set()    # call sites interpreted
        self.npaths = 0
        self.nsusp = set()
        self.noloop = False     # whether the code runs outside of any event loop
        self.clsnodes = {}
        self.glob_roots = ()
        self.rich = {}
        from . import models
        self.models = models
        self.mrocache = {}
        self.steps = 0

    # ---- bookkeeping ------------------------------------------------------------------------------
    def where(self, node, st=None):
        m = getattr(node, "_mod", None)
        return f"{m.rel if m else '?'}:{getattr(node, 'lineno', 0)}"

    def func_of(self, st):
        for f in reversed(st.frames):
            fn = st.heap[f].x.get("fn")
            if fn is not None:
                return fn.qual
        return "<module>"

    def gap(self, node, why):
        k = (self.where(node), why)
        if k not in self.gapkeys:
            self.gapkeys.add(k)
            self.gaps.append(k)

    def ev_event(self, st, kind, node, **d):
        if not st.mute:
            self.hooks.event(self, st, kind, node, d)

    # ---- initial state ----------------------------------------------------------------------------
    def initial(self):
        st = State()
        for name in self.prog.mods:
            st = self.load_module(st, name)
        st.frames = ()
        self.glob_roots = tuple(
            oid for oid in list(self.modoid.values()) + list(self.clsoid.values())
            if any(isinstance(v, Ref) for v in st.heap[oid].f.values()))
        return st

    def load_module(self, st, name):
        if name in self.loaded:
            return st
        self.loaded.add(name)
        m = self.prog.mods[name]
        r = st.new("module", None, {"__name__": K(name)}, mod=m)
        self.modoid[name] = r.oid
        saved = st.frames
        st.frames = saved + (r.oid,)
        res = []
        for s in m.tree.body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.do_import(st, s, m)
                continue
            try:
                outs = self.stmt(s, st)
            except Gap as g:
                self.gap(s, f"module level: {g}")
                continue
            outs = [o for o in outs if o[1] is None]
            if len(outs) != 1:
                self.gap(s, "module-level statement without a single normal outcome")
                if not outs:
                    continue
            st = outs[0][0]
        st.frames = saved
        return st

    def do_import(self, st, s, m):
        g = st.w(st.frames[-1]).f
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name.split(".")[0] == PKG.split(".")[0]:
                    if a.asname:
                        g[a.asname] = self.pkgmod(st, a.name)
                    else:
                        g[a.name.split(".")[0]] = Mod(a.name.split(".")[0])
                else:
                    g[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])
            return
        mod = s.module or ""
        if s.level:
            base = m.name.split(".")
            if not m.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        for a in s.names:
            nm = a.asname or a.name
            if mod.split(".")[0] == PKG.split(".")[0]:
                sub = f"{mod}.{a.name}"
                if sub in self.prog.mods:
                    self.load_module(st, sub)
                    g = st.w(st.frames[-1]).f
                    g[nm] = Mod(sub)
                elif mod in self.prog.mods:
                    self.load_module(st, mod)
                    g = st.w(st.frames[-1]).f
                    mo = st.heap[self.modoid[mod]].f
                    if a.name == "*":
                        for k, v in mo.items():
                            if not k.startswith("_"):
                                g[k] = v
                    elif a.name in mo:
                        g[nm] = mo[a.name]
                    else:
                        g[nm] = Top(f"unresolved import {mod}.{a.name}")
                        self.gap(s, f"unresolved import {mod}.{a.name}")
                else:
                    g[nm] = Mod(sub)
            elif mod == "__future__":
                continue
            else:
                g[nm] = mkext(f"{mod}.{a.name}")

    def pkgmod(self, st, name):
        if name in self.prog.mods:
            self.load_module(st, name)
        return Mod(name)

    # ---- classes ----------------------------------------------------------------------------------
    def classinfo(self, st, node):
        """ClassInfo of a ClassDef being executed in the current frame."""
        m = node._mod
        if node.name in m.classes and m.classes[node.name].node is node:
            return m.classes[node.name]
        if id(node) not in self.clsnodes:
            self.clsnodes[id(node)] = ClassInfo(m, node, node.name)
        return self.clsnodes[id(node)]

    def decorate(self, st, s, v):
        """(st, value): the function v decorated by the decorators of s that are not built in."""
        for d in reversed(user_decs(s)):
            rs = self.then(self.ev(d, st), lambda a, f, v=v: self.call(a, f, [v], {}, d))
            if len(rs) != 1 or isinstance(rs[0][1], Exc):
                raise Gap(f"decorator {ast.unparse(d)}")
            st, v = rs[0]
        return st, v

    def do_classdef(self, st, node):
        ci = self.classinfo(st, node)
        outs = self.evs(list(node.bases), st)
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise Gap(f"bases of class {node.name}")
        st, bases = outs[0]
        ci.bases = []
        for b in bases:
            if isinstance(b, ClsV):
                ci.bases.append(b.cls)
            elif isinstance(b, Ext):
                ci.bases.append(b.path)
            else:
                ci.bases.append(f"?{b!r}")
        self.mrocache.clear()
        r = st.new("clsobj", ci)
        self.clsoid[ci.key + (f"@{id(node)}" if ci is not node._mod.classes.get(node.name) else "")] = r.oid
        ci.oid = r.oid
        fr = st.new("frame", None, {}, mod=node._mod,
                    clo=st.frames[-1] if st.heap[st.frames[-1]].kind == "frame" else None)
        st.frames = st.frames + (fr.oid,)
        isenum = any(isinstance(b, str) and b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag")
                     for b in self.mro(ci)[1:])
        ci.is_enum = isenum
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = ci.setters.get(s.name) if any(ast.unparse(d).endswith(".setter") for d in s.decorator_list) \
                    else ci.methods.get(s.name)
                if f is not None and f.node is s and user_decs(s):
                    st, v = self.decorate(st, s, Fn(raw_fn(f), None))
                    st.w(r).f["@" + s.name] = v
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                if isinstance(s, ast.AnnAssign) and s.value is None:
                    continue
                if isenum and isinstance(s.value, ast.Call) and \
                        ast.unparse(s.value.func).split(".")[-1] == "auto" and not s.value.args:
                    rs = [(st, K(1 + sum(1 for k in st.o(r).f if not k.startswith("_"))))]
                else:
                    rs = self.ev(s.value, st)
                if len(rs) != 1 or isinstance(rs[0][1], Exc):
                    raise Gap("class attribute initialiser")
                st, v = rs[0]
                tg = [s.target] if isinstance(s, ast.AnnAssign) else s.targets
                for t in tg:
                    if isinstance(t, ast.Name):
                        st.w(fr).f[t.id] = v
                        st.w(r).f[t.id] = v
                continue
            if isinstance(s, (ast.Expr, ast.Pass)):
                continue
            if isinstance(s, ast.ClassDef):
                st = self.do_classdef(st, s)
                st.w(r).f[s.name] = st.o(fr).f[s.name]
                continue
            raise Gap(f"class-level statement {type(s).__name__}")
        st.frames = st.frames[:-1]
        v = ClsV(ci)
        st.w(st.frames[-1]).f[node.name] = v
        return st

    def mro(self, cls):
        """[ClassInfo|str] linearisation."""
        if isinstance(cls, str):
            c = extobj(cls)
            if isinstance(c, type):
                return [cls] + [f"{b.__module__}.{b.__qualname__}" for b in c.__mro__[1:]]
            return [cls]
        if cls in self.mrocache:
            return self.mrocache[cls]

        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                seqs = [[x for x in s if x != c] for s in seqs]
                seqs = [s for s in seqs if s]
            return res
        out = [cls] + merge([self.mro(b) for b in cls.bases] + [list(cls.bases)])
        self.mrocache[cls] = out
        return out

    def is_sub(self, cls, of):
        """Whether class value cls (ClassInfo|path) is a subclass of `of`; None if unknown."""
        if cls is of or cls == of:
            return True
        m = self.mro(cls)
        if isinstance(of, str):
            oc = extobj(of)
            for b in m:
                if isinstance(b, str):
                    if b == of:
                        return True
                    bc = extobj(b)
                    if isinstance(bc, type) and isinstance(oc, type):
                        try:
                            if issubclass(bc, oc):
                                return True
                        except TypeError:
                            pass
            return False
        return of in m

    def find_method(self, cls, name, after=None):
        """(owner ClassInfo, FuncInfo) in the MRO, or external class path, or None."""
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if isinstance(c, str):
                if c.split(".")[-1] in ("Generic", "ABC", "Protocol"):
                    continue
                oc = extobj(c)
                if oc is not None and hasattr(oc, name) and c not in ("builtins.object", "object"):
                    return c, None
                continue
            if name in c.methods:
                return c, c.methods[name]
            if getattr(c, "is_enum", False):
                continue
        return None

    # ---- exceptions -------------------------------------------------------------------------------
    def mkexc(self, st, cls, *args):
        if isinstance(cls, str) and "." not in cls:
            cls = "builtins." + cls
        return st.new("inst", cls, {"args": Tup(*args), "__cause__": NONE, "__context__": NONE})

    def rz(self, st, cls, *args, node=None):
        """[(st, Exc)] raising a fresh builtin exception."""
        r = self.mkexc(st, cls, *args)
        if st.hand:
            st.w(r).f["__context__"] = st.hand[-1]
        return [(st, Exc(r))]

    def exc_is(self, st, ref, *names):
        c = st.o(ref).cls
        return any(self.is_sub(c, n if "." in n else "builtins." + n) for n in names)

    def cls_of(self, st, v):
        """Class of a value: ClassInfo | ext path | None."""
        if isinstance(v, Ref):
            o = st.o(v)
            if o.kind == "inst":
                return o.cls
            return self.models.KINDCLS.get(o.kind)
        if isinstance(v, K):
            return "builtins." + type(v.v).__name__
        if isinstance(v, Num):
            return "builtins.int" if v.isint else "builtins.float"
        if isinstance(v, Tup):
            return "builtins.tuple"
        if isinstance(v, Td):
            return "datetime.timedelta"
        if isinstance(v, EnumM):
            return v.a[0]
        if isinstance(v, Tok):
            return self.models.TOKCLS.get(v.kind)
        if isinstance(v, App):
            return self.models.APPCLS.get(v.a[0])
        if isinstance(v, (Fn, Bound, ExtM, Partial)):
            return "types.FunctionType"
        if isinstance(v, ClsV):
            return "builtins.type"
        if isinstance(v, Coro):
            return "types.CoroutineType"
        return None

    # ---- statements -------------------------------------------------------------------------------
    def block(self, stmts, st):
        """Execute statements; [(state, outcome)]; outcome None or a tuple."""
        cur, done = [st], []
        for s in stmts:
            nxt = []
            for x in cur:
                self.steps += 1
                try:
                    rs = self.stmt(s, x)
                except Gap as g:
                    self.gap(s, str(g))
                    continue
                for (y, o) in rs:
                    if o is None:
                        nxt.append(y)
                    else:
                        done.append((y, o))
            if len(nxt) > 1:
                nxt = self.dedupe_states(nxt)
            cur = nxt
            if not cur:
                break
        return done + [(x, None) for x in cur]

    def key(self, st, extra=()):
        return canon(st, extra, self.glob_roots)

    def dedupe_states(self, sts):
        seen, out = set(), []
        for s in sts:
            k = (self.key(s), s.heads)
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def dedupe(self, res):
        if len(res) < 2:
            return res
        seen, out = set(), []
        for s, o in res:
            k = (self.key(s, (o,) if not isinstance(o, Exc) else o), s.heads)
            if k not in seen:
                seen.add(k)
                out.append((s, o))
        return out

    def stmt(self, s, st):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Gap(f"statement {type(s).__name__}")
        return m(s, st)

    def fin(self, results, f=None):
        """Turn expression results into statement results."""
        out = []
        for st, v in results:
            if isinstance(v, Exc):
                out.append((st, ("exc", v.ref)))
            elif f is None:
                out.append((st, None))
            else:
                out.extend(f(st, v))
        return out

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return self.fin(self.ev(s.value, st))

    def st_Pass(self, s, st):
        return [(st, None)]

    def st_Import(self, s, st):
        self.do_import(st, s, s._mod)
        return [(st, None)]
    st_ImportFrom = st_Import

    def st_Global(self, s, st):
        fr = st.w(st.frames[-1])
        fr.x["global"] = fr.x.get("global", ()) + tuple(s.names)
        return [(st, None)]

    def st_Nonlocal(self, s, st):
        fr = st.w(st.frames[-1])
        fr.x["nonlocal"] = fr.x.get("nonlocal", ()) + tuple(s.names)
        return [(st, None)]

    def st_FunctionDef(self, s, st):
        key = id(s)
        fi = None
        for f in s._mod.funcs.values():
            if f.node is s:
                fi = f
        if fi is None:
            if key not in self.clsnodes:
                parent = self.func_of(st)
                self.clsnodes[key] = FuncInfo(s._mod, s, f"{parent}.<locals>.{s.name}")
                outer = st.heap[st.frames[-1]].x.get("fn")
                self.clsnodes[key].cls = outer.cls if outer is not None else None
            fi = self.clsnodes[key]
        clo = st.frames[-1] if st.heap[st.frames[-1]].kind == "frame" else None
        v = Fn(fi, clo)
        res = [(st, v)]
        if user_decs(s):
            res = [self.decorate(st, s, Fn(raw_fn(fi), clo))]
        out = []
        for a, v in res:
            self.bind_name(a, s.name, v, s)
            out.append((a, None))
        return out
    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, s, st):
        return [(self.do_classdef(st, s), None)]

    def st_Return(self, s, st):
        if s.value is None:
            return [(st, ("ret", NONE))]
        return self.fin(self.ev(s.value, st), lambda a, v: [(a, ("ret", v))])

    def st_Break(self, s, st):
        return [(st, BRK)]

    def st_Continue(self, s, st):
        return [(st, CONT)]

    def st_TypeAlias(self, s, st):
        return [(st, None)]

    def st_Assign(self, s, st):
        def go(a, v):
            return self.assign_all(s.targets, v, a)
        return self.fin(self.ev(s.value, st), go)

    def assign_all(self, targets, v, st):
        cur = [(st, None)]
        for t in targets:
            nxt = []
            for a, o in cur:
                if o is not None:
                    nxt.append((a, o))
                else:
                    nxt.extend(self.assign(t, v, a))
            cur = nxt
        return cur

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, None)]
        return self.fin(self.ev(s.value, st), lambda a, v: self.assign(s.target, v, a))

    def st_AugAssign(self, s, st):
        load = ast.copy_location(_as_load(s.target), s.target)

        def go(a, cur):
            def go2(b, rhs):
                def store(c, v):
                    return self.assign(s.target, v, c)
                return self.fin(self.binop(b, s.op, cur, rhs, s, inplace=True), store)
            return self.fin(self.ev(s.value, a), go2)
        return self.fin(self.ev(load, st), go)

    def st_Delete(self, s, st):
        cur = [(st, None)]
        for t in s.targets:
            nxt = []
            for a, o in cur:
                if o is not None:
                    nxt.append((a, o))
                elif isinstance(t, ast.Name):
                    fr = a.w(a.frames[-1])
                    fr.f.pop(t.id, None)
                    nxt.append((a, None))
                elif isinstance(t, ast.Attribute):
                    def go(b, ov, t=t):
                        if not isinstance(ov, Ref):
                            raise Gap("del attribute of a non-object")
                        b.w(ov).f.pop(self.mangle(t.attr, b), None)
                        return [(b, None)]
                    nxt.extend(self.fin(self.ev(t.value, a), go))
                elif isinstance(t, ast.Subscript):
                    def go(b, vs, t=t):
                        return self.fin(self.models.delitem(self, b, vs[0], vs[1], t))
                    nxt.extend(self.fin(self.evs([t.value, t.slice], a), go))
                else:
                    raise Gap("del target")
            cur = nxt
        return cur

    def st_Assert(self, s, st):
        def go(a, v):
            out = []
            for b, t in self.truth(a, v, s):
                if isinstance(t, Exc):
                    out.append((b, ("exc", t.ref)))
                elif t:
                    out.append((b, None))
                else:
                    r = self.mkexc(b, "AssertionError")
                    out.append((b, ("exc", r)))
            return out
        return self.fin(self.ev(s.test, st), go)

    def st_If(self, s, st):
        out = []
        for a, t in self.cond(s.test, st):
            if isinstance(t, Exc):
                out.append((a, ("exc", t.ref)))
            else:
                out.extend(self.block(s.body if t else s.orelse, a))
        return self.dedupe(out)

    def st_While(self, s, st):
        return self.loop(s, st, lambda a: self.cond(s.test, a))

    def st_For(self, s, st):
        out = []
        for a, it in self.fin_iter(s.iter, st):
            if isinstance(it, Exc):
                out.append((a, ("exc", it.ref)))
                continue
            a.w(a.frames[-1]).x[("it", id(s))] = it

            def step(b, it=it):
                res = []
                for c, v in self.models.iter_next(self, b, it, s):
                    if v is None:
                        res.append((c, False))
                    elif isinstance(v, Exc):
                        res.append((c, v))
                    else:
                        for d, o in self.assign(s.target, v, c):
                            res.append((d, True) if o is None else (d, Exc(o[1])))
                return res
            for b, o in self.loop(s, a, step):
                b.w(b.frames[-1]).x.pop(("it", id(s)), None)
                out.append((b, o))
        return self.dedupe(out)

    def fin_iter(self, e, st):
        out = []
        for a, v in self.ev(e, st):
            if isinstance(v, Exc):
                out.append((a, v))
            else:
                out.extend(self.models.get_iter(self, a, v, e))
        return out

    def st_AsyncFor(self, s, st):
        out = []
        for a, v in self.ev(s.iter, st):
            if isinstance(v, Exc):
                out.append((a, ("exc", v.ref)))
                continue
            if isinstance(v, Ref) and a.o(v).kind == "agen":
                out.extend(self.async_for_agen(s, a, v))
                continue
            for b, it in self.call_method(a, v, "__aiter__", [], {}, s.iter):
                if isinstance(it, Exc):
                    out.append((b, ("exc", it.ref)))
                    continue

                def step(c, it=it):
                    res = []
                    for d, cv in self.call_method(c, it, "__anext__", [], {}, s.iter):
                        if isinstance(cv, Exc):
                            res.append((d, cv))
                            continue
                        for e, x in self.await_(d, cv, s):
                            if isinstance(x, Exc):
                                if self.exc_is(e, x.ref, "StopAsyncIteration"):
                                    res.append((e, False))
                                else:
                                    res.append((e, x))
                            else:
                                for f, o in self.assign(s.target, x, e):
                                    res.append((f, True) if o is None else (f, Exc(o[1])))
                    return res
                out.extend(self.loop(s, b, step))
        return self.dedupe(out)

    def loop(self, s, st, test):
        out, seen, work = [], set(), [st]
        n = 0
        while work:
            a = work.pop()
            n += 1
            if n > 100000:
                raise Gap("loop did not reach a fixpoint")
            key = self.key(a)
            hk = (id(s), key)
            if hk in a.heads:
                self.ev_event(a, "busy", s)
                continue
            if key in seen:
                continue
            seen.add(key)
            a.heads = a.heads | {hk}
            if self.hooks.clocked:
                # the same loop head again where nothing but the reading of the clock is new
                bk = (id(s), "clock", canon(a, (), self.glob_roots, ("memo", *self.hooks.clocked), False))
                if bk in a.heads:
                    self.ev_event(a, "busy", s)
                    continue
                a.heads = a.heads | {bk}
            for b, t in test(a):
                if isinstance(t, Exc):
                    out.append((b, ("exc", t.ref)))
                elif not t:
                    out.extend(self.block(s.orelse, b))
                else:
                    for c, o in self.block(s.body, b):
                        if o is None or o == CONT:
                            work.append(c)
                        elif o == BRK:
                            out.append((c, None))
                        else:
                            out.append((c, o))
        return self.dedupe(out)

    def st_Raise(self, s, st):
        if s.exc is None:
            if st.hand:
                return [(st, ("exc", st.hand[-1]))]
            return [(a, ("exc", v.ref)) for a, v in self.rz(st, "RuntimeError")]

        def go(a, vs):
            cur = self.instantiate_exc(a, vs[0], s)
            out = []
            for b, ev in cur:
                if isinstance(ev, Exc):
                    out.append((b, ("exc", ev.ref)))
                    continue
                o = b.w(ev)
                if s.cause is not None:
                    for c, cv in self.instantiate_exc(b, vs[1], s):
                        c.w(ev).f["__cause__"] = cv.ref if isinstance(cv, Exc) else cv
                        if c.hand and c.hand[-1] != ev:
                            c.w(ev).f["__context__"] = c.hand[-1]
                        self.ev_event(c, "raise", s, exc=ev)
                        out.append((c, ("exc", ev)))
                    continue
                if b.hand and b.hand[-1] != ev:
                    o.f["__context__"] = b.hand[-1]
                self.ev_event(b, "raise", s, exc=ev)
                out.append((b, ("exc", ev)))
            return out
        return self.fin(self.evs([s.exc] + ([s.cause] if s.cause is not None else []), st), go)

    def instantiate_exc(self, st, v, node):
        if v == NONE:
            return [(st, NONE)]
        if isinstance(v, (ClsV, Ext)):
            return self.call(st, v, [], {}, node)
        if isinstance(v, Ref) and st.o(v).kind == "inst":
            return [(st, v)]
        if isinstance(v, Top):
            raise Gap(f"raise of an unknown value {v!r}")
        return self.rz(st, "TypeError")

    def st_Try(self, s, st):
        out = []
        for a, o in self.block(s.body, st):
            if o is None:
                out.extend(self.block(s.orelse, a))
            elif o[0] == "exc":
                out.extend(self.handlers(s, a, o[1]))
            else:
                out.append((a, o))
        if not s.finalbody:
            return self.dedupe(out)
        res = []
        for a, o in self.dedupe(out):
            hand = a.hand
            if o is not None and o[0] == "exc":
                a.hand = a.hand + (o[1],)
            # keep the pending outcome visible to canonicalisation while the finaliser runs
            fr = a.w(a.frames[-1])
            fr.x[("fin", id(s))] = o[1] if o is not None and len(o) > 1 else NONE
            for b, p in self.block(s.finalbody, a):
                b.hand = hand
                b.w(b.frames[-1]).x.pop(("fin", id(s)), None)
                res.append((b, o if p is None else p))
        return self.dedupe(res)

    def st_TryStar(self, s, st):
        raise Gap("except*")

    def handlers(self, s, st, ref):
        cur, out = [st], []
        for h in s.handlers:
            nxt = []
            for a in cur:
                if h.type is None:
                    ms = [(a, True)]
                else:
                    ms = []
                    for b, tv in self.ev(h.type, a):
                        if isinstance(tv, Exc):
                            out.append((b, ("exc", tv.ref)))
                            continue
                        ms.append((b, self.matches_exc(b, ref, tv, h)))
                for b, t in ms:
                    if not t:
                        nxt.append(b)
                        continue
                    if h.name:
                        self.bind_name(b, h.name, ref, h)
                    hand = b.hand
                    b.hand = b.hand + (ref,)
                    self.ev_event(b, "caught", h, exc=ref)
                    for c, o in self.block(h.body, b):
                        c.hand = hand
                        if h.name:
                            c.w(c.frames[-1]).f.pop(h.name, None)
                        out.append((c, o))
            cur = nxt
        out.extend((a, ("exc", ref)) for a in cur)
        return out

    def matches_exc(self, st, ref, tv, node):
        if isinstance(tv, Tup):
            return any(self.matches_exc(st, ref, t, node) for t in tv.items)
        c = st.o(ref).cls
        if isinstance(tv, ClsV):
            return self.is_sub(c, tv.cls)
        if isinstance(tv, Ext):
            return self.is_sub(c, tv.path)
        raise Gap(f"except clause type {tv!r}")

    def st_With(self, s, st):
        return self.with_items(s, list(s.items), st, False)

    def st_AsyncWith(self, s, st):
        return self.with_items(s, list(s.items), st, True)

    def with_items(self, s, items, st, isasync):
        if not items:
            return self.block(s.body, st)
        it, rest = items[0], items[1:]
        out = []
        for a, cm in self.ev(it.context_expr, st):
            if isinstance(cm, Exc):
                out.append((a, ("exc", cm.ref)))
                continue
            if isinstance(cm, Ref) and a.o(cm).kind == "cmgen":
                out.extend(self.with_cmgen(s, it, rest, a, cm, isasync))
                continue
            # keep the manager alive for canonicalisation
            a.w(a.frames[-1]).x[("cm", id(it))] = cm
            for b, v in self.models.cm_enter(self, a, cm, isasync, it.context_expr):
                if isinstance(v, Exc):
                    out.append((b, ("exc", v.ref)))
                    continue
                cur = [(b, None)]
                if it.optional_vars is not None:
                    cur = self.assign(it.optional_vars, v, b)
                for c, o in cur:
                    inner = self.with_items(s, rest, c, isasync) if o is None else [(c, o)]
                    for d, p in inner:
                        exc = p[1] if p is not None and p[0] == "exc" else None
                        hand = d.hand
                        if exc is not None:
                            d.hand = d.hand + (exc,)
                        fr = d.w(d.frames[-1])
                        fr.x[("fin", id(it))] = p[1] if p is not None and len(p) > 1 else NONE
                        for e, r in self.models.cm_exit(self, d, cm, exc, isasync, it.context_expr):
                            e.hand = hand
                            e.w(e.frames[-1]).x.pop(("fin", id(it)), None)
                            e.w(e.frames[-1]).x.pop(("cm", id(it)), None)
                            if isinstance(r, Exc):
                                out.append((e, ("exc", r.ref)))
                            elif r is True and exc is not None:
                                out.append((e, None))
                            else:
                                out.append((e, p))
        return self.dedupe(out)

    def with_cmgen(self, s, it, rest, st, cm, isasync):
        """with-statement over a @contextmanager generator: the body runs at its yield."""
        o = st.o(cm)
        outer, ohand = st.frames, st.hand
        st.w(outer[-1]).x[("cm", id(it))] = cm

        def hook(I, a, v, node):
            gframes, ghand = a.frames, a.hand
            a.frames, a.hand = outer, ohand
            cur = [(a, None)]
            if it.optional_vars is not None:
                cur = self.assign(it.optional_vars, v, a)
            res = []
            for c, p in cur:
                for d, q in (self.with_items(s, rest, c, isasync) if p is None else [(c, p)]):
                    d.frames, d.hand = gframes, ghand
                    if q is not None and q[0] == "exc":
                        d.w(cm).x["pend"] = ()
                        res.append((d, Exc(q[1])))
                    else:
                        d.w(cm).x["pend"] = q if q is not None else ()
                        res.append((d, NONE))
            return res
        out = []
        kw = {p.a[0].v: p.a[1] for p in o.f["kw"].items}
        for a, v in self.run_fn(st, o.f["fn"], list(o.f["args"].items), kw, s, yieldhook=hook):
            a.w(a.frames[-1]).x.pop(("cm", id(it)), None)
            pend = a.w(cm).x.pop("pend", ())
            out.append((a, ("exc", v.ref)) if isinstance(v, Exc) else (a, pend or None))
        return self.dedupe(out)

    def async_for_agen(self, s, st, ag):
        """async for over a package async generator: the loop body runs at its yields."""
        o = st.o(ag)
        outer, ohand = st.frames, st.hand
        escaped = []
        st.w(outer[-1]).x[("cm", id(s))] = ag

        def hook(I, a, v, node):
            gframes, ghand = a.frames, a.hand
            a.frames, a.hand = outer, ohand
            res = []
            for c, p in self.assign(s.target, v, a):
                for d, q in (self.block(s.body, c) if p is None else [(c, p)]):
                    if q is None or q == CONT:
                        d.frames, d.hand = gframes, ghand
                        res.append((d, NONE))
                    else:
                        # the generator is abandoned: its cleanup does not run before we go on
                        self.ev_event(d, "agen_abandoned", s)
                        escaped.append((d, None if q == BRK else q))
            return res
        out = []
        kw = {p.a[0].v: p.a[1] for p in o.f["kw"].items}
        for a, v in self.run_fn(st, o.f["fn"], list(o.f["args"].items), kw, s, yieldhook=hook):
            if isinstance(v, Exc):
                out.append((a, ("exc", v.ref)))
            else:
                out.extend(self.block(s.orelse, a))
        out.extend(escaped)
        for a, _ in out:
            a.w(a.frames[-1]).x.pop(("cm", id(s)), None)
        return self.dedupe(out)

    def st_Match(self, s, st):
        def go(a, subj):
            cur, out = [a], []
            for case in s.cases:
                nxt = []
                for b in cur:
                    for c, t in self.pattern(case.pattern, subj, b):
                        if isinstance(t, Exc):
                            out.append((c, ("exc", t.ref)))
                        elif not t:
                            nxt.append(c)
                        elif case.guard is not None:
                            for d, g in self.cond(case.guard, c):
                                if isinstance(g, Exc):
                                    out.append((d, ("exc", g.ref)))
                                elif g:
                                    out.extend(self.block(case.body, d))
                                else:
                                    nxt.append(d)
                        else:
                            out.extend(self.block(case.body, c))
                cur = nxt
            return out + [(b, None) for b in cur]
        return self.dedupe(self.fin(self.ev(s.subject, st), go))

    def pattern(self, p, v, st):
        """[(st, bool|Exc)]"""
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.bind_name(st, p.name, v, p)
                return [(st, True)]
            out = []
            for a, t in self.pattern(p.pattern, v, st):
                if t is True and p.name:
                    self.bind_name(a, p.name, v, p)
                out.append((a, t))
            return out
        if isinstance(p, ast.MatchOr):
            cur, out = [st], []
            for q in p.patterns:
                nxt = []
                for a in cur:
                    for b, t in self.pattern(q, v, a):
                        (nxt.append(b) if t is False else out.append((b, t)))
                cur = nxt
            return out + [(a, False) for a in cur]
        if isinstance(p, ast.MatchSingleton):
            return self.is_op(st, v, K(p.value), p)
        if isinstance(p, ast.MatchValue):
            out = []
            for a, w in self.ev(p.value, st):
                out.extend([(a, w)] if isinstance(w, Exc) else self.eq_op(a, v, w, p))
            return out
        if isinstance(p, ast.MatchClass):
            if p.patterns and not (len(p.patterns) == 1 and ast.unparse(p.cls) in (
                    "int", "str", "float", "bool", "bytes", "tuple", "list", "dict", "set", "frozenset")):
                ci = None
            out = []
            for a, c in self.ev(p.cls, st):
                if isinstance(c, Exc):
                    out.append((a, c))
                    continue
                for b, t in self.models.isinstance_(self, a, v, c, p):
                    if t is not True:
                        out.append((b, t))
                        continue
                    names = list(p.kwd_attrs)
                    pats = list(p.kwd_patterns)
                    if p.patterns:
                        if isinstance(c, ClsV) and c.cls.is_dataclass:
                            fl = [n for n, _, ann in c.cls.assigns if ann]
                            names = fl[:len(p.patterns)] + names
                            pats = list(p.patterns) + pats
                        else:
                            raise Gap("positional class pattern")
                    cur = [(b, True)]
                    for n, q in zip(names, pats):
                        nxt = []
                        for d, u in cur:
                            if u is not True:
                                nxt.append((d, u))
                                continue
                            for e, av in self.getattr(d, v, n, p):
                                nxt.extend([(e, av)] if isinstance(av, Exc) else self.pattern(q, av, e))
                        cur = nxt
                    out.extend(cur)
            return out
        if isinstance(p, ast.MatchSequence):
            items = None
            if isinstance(v, Tup):
                items = list(v.items)
            elif isinstance(v, Ref) and st.o(v).kind in ("list", "deque") and not any(
                    isinstance(x, Seg) for x in st.o(v).items):
                items = list(st.o(v).items)
            if items is None:
                if isinstance(v, Ref) or isinstance(v, K):
                    return [(st, False)]
                raise Gap("sequence pattern")
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Gap("star pattern")
            if len(items) != len(p.patterns):
                return [(st, False)]
            cur = [(st, True)]
            for q, x in zip(p.patterns, items):
                nxt = []
                for d, u in cur:
                    nxt.extend([(d, u)] if u is not True else self.pattern(q, x, d))
                cur = nxt
            return cur
        raise Gap(f"pattern {type(p).__name__}")

    # ---- assignment -------------------------------------------------------------------------------
    def bind_name(self, st, name, v, node):
        oid = st.frames[-1]
        fr = st.o(oid)
        if fr.kind == "frame":
            # walrus inside comprehensions binds in the enclosing frame
            if name in fr.x.get("global", ()):
                moid = self.modoid[node._mod.name]
                st.w(moid).f[name] = v
                self.ev_event(st, "globalstore", node, name=name)
                return
            if name in fr.x.get("nonlocal", ()):
                c = fr.x.get("clo")
                while c is not None:
                    if name in st.o(c).f:
                        st.w(c).f[name] = v
                        return
                    c = st.o(c).x.get("clo")
        st.w(oid).f[name] = v

    def mangle(self, name, st):
        if name.startswith("__") and not name.endswith("__"):
            for f in reversed(st.frames):
                fn = st.heap[f].x.get("fn")
                if fn is not None and fn.cls is not None:
                    return f"_{fn.cls.name.lstrip('_')}{name}"
        return name

    def assign(self, t, v, st):
        """Statement-style results."""
        if isinstance(t, ast.Name):
            self.bind_name(st, t.id, v, t)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            return self.fin(self.ev(t.value, st),
                            lambda a, o: self.fin(self.setattr(a, o, self.mangle(t.attr, a), v, t)))
        if isinstance(t, ast.Subscript):
            return self.fin(self.evs([t.value, t.slice], st),
                            lambda a, vs: self.fin(self.models.setitem(self, a, vs[0], vs[1], v, t)))
        if isinstance(t, (ast.Tuple, ast.List)):
            def go(a, items):
                if not any(isinstance(x, ast.Starred) for x in t.elts):
                    if len(items) != len(t.elts):
                        return [(b, ("exc", e.ref)) for b, e in self.rz(a, "ValueError")]
                    cur = [(a, None)]
                    for x, y in zip(t.elts, items):
                        nxt = []
                        for b, o in cur:
                            nxt.extend([(b, o)] if o is not None else self.assign(x, y, b))
                        cur = nxt
                    return cur
                i = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred))
                after = len(t.elts) - i - 1
                if len(items) < i + after:
                    return [(b, ("exc", e.ref)) for b, e in self.rz(a, "ValueError")]
                mid = a.new("list", items=list(items[i:len(items) - after]))
                tv = list(items[:i]) + [mid] + list(items[len(items) - after:])
                cur = [(a, None)]
                for x, y in zip([z.value if isinstance(z, ast.Starred) else z for z in t.elts], tv):
                    nxt = []
                    for b, o in cur:
                        nxt.extend([(b, o)] if o is not None else self.assign(x, y, b))
                    cur = nxt
                return cur
            out = []
            for a, items in self.models.to_items(self, st, v, t):
                out.extend([(a, ("exc", items.ref))] if isinstance(items, Exc) else go(a, items))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        raise Gap(f"assignment target {type(t).__name__}")

    # ---- expressions ------------------------------------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Gap(f"expression {type(e).__name__}")
        return m(e, st)

    def evs(self, es, st):
        """Evaluate left to right: [(st, [values])|(st, Exc)].  Values computed so far are pinned."""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for a, vs in cur:
                if isinstance(vs, Exc):
                    nxt.append((a, vs))
                    continue
                for b, v in self.ev(e, a):
                    nxt.append((b, v) if isinstance(v, Exc) else (b, vs + [v]))
            cur = nxt
        return cur

    def then(self, res, f):
        out = []
        for a, v in res:
            out.extend([(a, v)] if isinstance(v, Exc) else f(a, v))
        return out

    def ev_Constant(self, e, st):
        return [(st, K(e.value))]

    def ev_Name(self, e, st):
        name = e.id
        oid = st.frames[-1]
        while oid is not None:
            fr = st.o(oid)
            if name in fr.f:
                return [(st, fr.f[name])]
            if fr.kind != "frame":
                break
            oid = fr.x.get("clo")
        fn_frame = st.o(st.frames[-1])
        mod = fn_frame.x.get("mod")
        if mod is not None:
            g = st.o(self.modoid[mod.name]).f if mod.name in self.modoid else {}
            if name in g:
                # a name assigned in the function shadows globals even before it is bound
                fn = fn_frame.x.get("fn")
                if fn is not None and name in local_names(fn.node) and \
                        name not in fn_frame.x.get("global", ()):
                    return self.rz(st, "UnboundLocalError")
                return [(st, g[name])]
            if name in self.prog.mods.get(mod.name, mod).classes if hasattr(mod, "classes") else False:
                pass
        if name in ("True", "False", "None"):
            return [(st, K({"True": True, "False": False, "None": None}[name]))]
        if name == "__name__":
            return [(st, K(getattr(mod, "name", "?")))]
        if hasattr(builtins, name):
            return [(st, Ext("builtins." + name))]
        if name.startswith("__sa_"):
            return [(st, Ext("sa." + name[5:]))]
        return self.rz(st, "NameError", K(name))

    def ev_NamedExpr(self, e, st):
        def go(a, v):
            # comprehension frames are transparent for :=
            oid = a.frames[-1]
            while a.o(oid).x.get("comp"):
                oid = a.o(oid).x["clo"]
            a.w(oid).f[e.target.id] = v
            return [(a, v)]
        return self.then(self.ev(e.value, st), go)

    def ev_Attribute(self, e, st):
        return self.then(self.ev(e.value, st), lambda a, v: self.getattr(a, v, self.mangle(e.attr, a), e))

    def ev_Tuple(self, e, st):
        return self.seq_items(e.elts, st, lambda a, vs: [(a, Tup(*vs))])

    def ev_List(self, e, st):
        return self.seq_items(e.elts, st, lambda a, vs: [(a, a.new("list", items=vs))])

    def ev_Set(self, e, st):
        def go(a, vs):
            return [(a, self.models.mkset(self, a, "set", vs, e))]
        return self.seq_items(e.elts, st, go)

    def seq_items(self, elts, st, f):
        cur = [(st, [])]
        for x in elts:
            nxt = []
            for a, vs in cur:
                if isinstance(vs, Exc):
                    nxt.append((a, vs))
                elif isinstance(x, ast.Starred):
                    for b, v in self.ev(x.value, a):
                        if isinstance(v, Exc):
                            nxt.append((b, v))
                            continue
                        for c, items in self.models.to_items(self, b, v, x):
                            nxt.append((c, items) if isinstance(items, Exc) else (c, vs + list(items)))
                else:
                    for b, v in self.ev(x, a):
                        nxt.append((b, v) if isinstance(v, Exc) else (b, vs + [v]))
            cur = nxt
        return self.then(cur, f)

    def ev_Dict(self, e, st):
        def go(a, vs):
            n = len(e.keys)
            d = a.new("dict", items=[])
            cur = [(a, None)]
            i = 0
            for k in e.keys:
                if k is None:
                    src = vs[i]
                    i += 1
                    if not (isinstance(src, Ref) and a.o(src).kind == "dict"):
                        raise Gap("dict unpacking")
                    for p in a.o(src).items:
                        self.models.dict_put(self, a, d, p.a[0], p.a[1], e)
                else:
                    self.models.dict_put(self, a, d, vs[i], vs[i + 1], e)
                    i += 2
            return [(a, d)]
        es = []
        for k, v in zip(e.keys, e.values):
            es += [v] if k is None else [k, v]
        return self.then(self.evs(es, st), go)

    def ev_JoinedStr(self, e, st):
        es = [p.value for p in e.values if isinstance(p, ast.FormattedValue)]
        tmpl = tuple(K(p.value) if isinstance(p, ast.Constant)
                     else K(f"{{{p.conversion}:{ast.unparse(p.format_spec) if p.format_spec else ''}}}")
                     for p in e.values)

        def go(a, vs):
            self.ev_event(a, "format", e, vals=vs)
            vs = [self.models.formatted(self, a, v) for v in vs]
            if all(isinstance(v, K) and isinstance(v.v, (str, int)) for v in vs) and all(
                    p.conversion == -1 and p.format_spec is None
                    for p in e.values if isinstance(p, ast.FormattedValue)):
                it = iter(vs)
                return [(a, K("".join(p.value if isinstance(p, ast.Constant) else str(next(it).v)
                                      for p in e.values)))]
            if self.rich.get("fmt"):
                return self.rich["fmt"](self, a, e, vs)
            if len(vs) == 1 and len(e.values) == 1 and e.values[0].conversion in (-1, 115) \
                    and e.values[0].format_spec is None:
                return [(a, App("str", vs[0]))]
            return [(a, App("fstr", *tmpl, *vs))]
        return self.then(self.evs(es, st), go)

    def ev_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def ev_IfExp(self, e, st):
        out = []
        for a, t in self.cond(e.test, st):
            out.extend([(a, t)] if isinstance(t, Exc) else self.ev(e.body if t else e.orelse, a))
        return out

    def ev_Lambda(self, e, st):
        k = id(e)
        if k not in self.clsnodes:
            fi = FuncInfo(e._mod, e, f"{self.func_of(st)}.<lambda>")
            outer = st.heap[st.frames[-1]].x.get("fn")
            fi.cls = outer.cls if outer is not None else None
            self.clsnodes[k] = fi
        clo = st.frames[-1] if st.heap[st.frames[-1]].kind == "frame" else None
        return [(st, Fn(self.clsnodes[k], clo))]

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        cur = self.ev(e.values[0], st)
        for nx in e.values[1:]:
            out = []
            for a, v in cur:
                if isinstance(v, Exc) or getattr(v, "_short", False):
                    out.append((a, v))
                    continue
                for b, t in self.truth(a, v, e):
                    if isinstance(t, Exc):
                        out.append((b, t))
                    elif t == isand:
                        out.extend(self.ev(nx, b))
                    else:
                        out.append((b, _Short(v)))
            cur = [(a, v) for a, v in out]
            cur2 = []
            for a, v in cur:
                cur2.append((a, v))
            cur = cur2
        return [(a, v.v if isinstance(v, _Short) else v) for a, v in cur]

    def cond(self, e, st):
        """Evaluate as a condition: [(st, bool|Exc)]."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, out = [st], []
            for x in e.values:
                nxt = []
                for a in cur:
                    for b, t in self.cond(x, a):
                        if isinstance(t, Exc):
                            out.append((b, t))
                        elif t == isand:
                            nxt.append(b)
                        else:
                            out.append((b, t))
                cur = nxt
            return out + [(a, isand) for a in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(a, t if isinstance(t, Exc) else not t) for a, t in self.cond(e.operand, st)]
        out = []
        for a, v in self.ev(e, st):
            out.extend([(a, v)] if isinstance(v, Exc) else self.truth(a, v, e))
        return out

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(a, t if isinstance(t, Exc) else kb(t)) for a, t in self.cond(e, st)]

        def go(a, v):
            if isinstance(v, Td):
                return [(a, Td(-v.us))] if isinstance(e.op, ast.USub) else [(a, v)]
            n = tonum(v)
            if n is None:
                raise Gap(f"unary {type(e.op).__name__} on {v!r}")
            if isinstance(e.op, ast.USub):
                return [(a, fromnum(-n))]
            if isinstance(e.op, ast.UAdd):
                return [(a, fromnum(n))]
            raise Gap("unary invert")
        return self.then(self.ev(e.operand, st), go)

    def ev_BinOp(self, e, st):
        return self.then(self.evs([e.left, e.right], st),
                         lambda a, vs: self.binop(a, e.op, vs[0], vs[1], e))

    def ev_Compare(self, e, st):
        def chain(a, left, ops, comps):
            out = []
            for b, r in self.ev(comps[0], a):
                if isinstance(r, Exc):
                    out.append((b, r))
                    continue
                for c, t in self.compare(b, ops[0], left, r, e):
                    if isinstance(t, Exc) or isinstance(t, V):
                        out.append((c, t))
                    elif not t or len(ops) == 1:
                        out.append((c, kb(t)))
                    else:
                        out.extend(chain(c, r, ops[1:], comps[1:]))
            return out
        return self.then(self.ev(e.left, st), lambda a, v: chain(a, v, e.ops, e.comparators))

    def ev_Subscript(self, e, st):
        return self.then(self.ev(e.value, st), lambda a, v: self._sub(a, v, e))

    def _sub(self, st, v, e):
        if isinstance(v, (ClsV, Ext)) or (isinstance(v, Tok) and v.kind == "typing"):
            if isinstance(v, Ext) and v.path not in ("os.environ",) or isinstance(v, (ClsV, Tok)):
                if isinstance(v, ClsV) and getattr(v.cls, "is_enum", False):
                    return self.then(self.ev(e.slice, st), lambda a, i: [(a, EnumM(v.cls, i.v))])
                return [(st, v)]
        return self.then(self.ev(e.slice, st), lambda a, i: self.models.getitem(self, a, v, i, e))

    def ev_Slice(self, e, st):
        es = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        return self.then(self.evs(es, st), lambda a, vs: [(a, Slice(*vs))])

    def ev_Starred(self, e, st):
        raise Gap("starred expression")

    def ev_ListComp(self, e, st):
        return self.comp(e, st, lambda a, vs: [(a, a.new("list", items=vs))])

    def ev_SetComp(self, e, st):
        return self.comp(e, st, lambda a, vs: [(a, self.models.mkset(self, a, "set", vs, e))])

    def ev_GeneratorExp(self, e, st):
        return self.comp(e, st, lambda a, vs: [(a, a.new("iter", items=vs, gen=TRUE))])

    def ev_DictComp(self, e, st):
        def go(a, vs):
            d = a.new("dict", items=[])
            for p in vs:
                self.models.dict_put(self, a, d, p.a[0], p.a[1], e)
            return [(a, d)]
        return self.comp(e, st, go)

    def comp(self, e, st, f):
        """Comprehensions, evaluated eagerly.  Elements are collected in a heap list (kept alive)."""
        isdict = isinstance(e, ast.DictComp)
        elt = ast.Tuple([e.key, e.value], ast.Load()) if isdict else e.elt
        cur = st.frames[-1]
        fr = st.new("frame", None, {}, clo=cur if st.o(cur).kind == "frame" else None, comp=True,
                    mod=st.o(cur).x.get("mod"), fn=st.o(cur).x.get("fn"))
        acc = st.new("list", items=[])
        st.w(fr).x["acc"] = acc
        st.frames = st.frames + (fr.oid,)

        def gen(a, gens):
            if not gens:
                out = []
                for b, v in self.ev(elt, a):
                    if isinstance(v, Exc):
                        out.append((b, v))
                    else:
                        b.w(acc).items.append(v)
                        out.append((b, True))
                return out
            g = gens[0]
            if g.is_async:
                raise Gap("async comprehension")
            out = []
            for b, it in self.fin_iter(g.iter, a):
                if isinstance(it, Exc):
                    out.append((b, it))
                    continue
                b.w(fr).x[("it", id(g))] = it
                work = [b]
                n = 0
                while work:
                    c = work.pop()
                    n += 1
                    if n > 3000:
                        raise Gap("comprehension did not terminate")
                    for d, v in self.models.iter_next(self, c, it, e):
                        if v is None:
                            out.append((d, True))
                            continue
                        if isinstance(v, Exc):
                            out.append((d, v))
                            continue
                        for x, o in self.assign(g.target, v, d):
                            if o is not None:
                                out.append((x, Exc(o[1])))
                                continue
                            sts = [(x, True)]
                            for i in g.ifs:
                                nx = []
                                for y, t in sts:
                                    if t is not True:
                                        nx.append((y, t))
                                    else:
                                        nx.extend(self.cond(i, y))
                                sts = nx
                            for y, t in sts:
                                if isinstance(t, Exc):
                                    out.append((y, t))
                                elif not t:
                                    work.append(y)
                                else:
                                    for z, u in gen(y, gens[1:]):
                                        if isinstance(u, Exc):
                                            out.append((z, u))
                                        else:
                                            work.append(z)
            return out
        res = []
        for a, r in gen(st, e.generators):
            a.frames = tuple(x for x in a.frames if x != fr.oid)
            res.extend([(a, r)] if isinstance(r, Exc) else f(a, list(a.o(acc).items)))
        return res

    def ev_Await(self, e, st):
        return self.then(self.ev(e.value, st), lambda a, v: self.await_(a, v, e))

    def ev_Yield(self, e, st):
        res = self.ev(e.value, st) if e.value is not None else [(st, NONE)]
        return self.then(res, lambda a, v: self.do_yield(a, v, e))

    def do_yield(self, st, v, node):
        for f in reversed(st.frames):
            fr = st.o(f)
            if fr.x.get("comp"):
                continue
            if "yields" in fr.x:
                st.w(fr.x["yields"]).items.append(v)
                return [(st, NONE)]
            h = fr.x.get("yieldhook")
            if h is not None:
                return h(self, st, v, node)
            break
        return self.hooks.on_yield(self, st, v, node)

    def ev_YieldFrom(self, e, st):
        def go(a, v):
            out = []
            for b, items in self.models.to_items(self, a, v, e):
                if isinstance(items, Exc):
                    out.append((b, items))
                    continue
                cur = [(b, NONE)]
                for x in items:
                    cur = self.then(cur, lambda c, _, x=x: self.do_yield(c, x, e))
                out.extend(cur)
            return out
        return self.then(self.ev(e.value, st), go)

    # ---- calls ------------------------------------------------------------------------------------
    def ev_Call(self, e, st):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            for f in reversed(st.frames):
                fr = st.o(f)
                fn = fr.x.get("fn")
                if fr.x.get("comp"):
                    continue
                if fn is not None and fn.cls is not None:
                    a0 = fn.node.args.posonlyargs + fn.node.args.args
                    return [(st, SuperV(fn.cls, fr.f.get(a0[0].arg) if a0 else NONE))]
            raise Gap("super() outside a method")

        def go(a, fv):
            cur = [(a, ([], {}))]
            for x in e.args:
                nxt = []
                for b, av in cur:
                    if isinstance(av, Exc):
                        nxt.append((b, av))
                        continue
                    pos, kw = av
                    if isinstance(x, ast.Starred):
                        for c, v in self.ev(x.value, b):
                            if isinstance(v, Exc):
                                nxt.append((c, v))
                                continue
                            for d, items in self.models.to_items(self, c, v, x):
                                nxt.append((d, items) if isinstance(items, Exc)
                                           else (d, (pos + list(items), kw)))
                    else:
                        for c, v in self.ev(x, b):
                            nxt.append((c, v) if isinstance(v, Exc) else (c, (pos + [v], kw)))
                cur = nxt
            for k in e.keywords:
                nxt = []
                for b, av in cur:
                    if isinstance(av, Exc):
                        nxt.append((b, av))
                        continue
                    pos, kw = av
                    for c, v in self.ev(k.value, b):
                        if isinstance(v, Exc):
                            nxt.append((c, v))
                        elif k.arg is None:
                            if not (isinstance(v, Ref) and c.o(v).kind == "dict"):
                                raise Gap("** of a non-dict")
                            nk = dict(kw)
                            for p in c.o(v).items:
                                nk[p.a[0].v] = p.a[1]
                            nxt.append((c, (pos, nk)))
                        else:
                            nxt.append((c, (pos, {**kw, k.arg: v})))
                cur = nxt
            return self.then(cur, lambda b, av: self.call(b, fv, av[0], av[1], e))
        return self.then(self.ev(e.func, st), go)

    def call_method(self, st, obj, name, args, kwargs, node):
        return self.then(self.getattr(st, obj, name, node),
                         lambda a, f: self.call(a, f, list(args), dict(kwargs), node))

    def call(self, st, fv, args, kwargs, node):
        self.sites.add(self.where(node))
        if isinstance(fv, Fn):
            return self.call_fn(st, fv, args, kwargs, node)
        if isinstance(fv, Bound):
            return self.call(st, fv.fnv, [fv.selfv] + list(args), kwargs, node)
        if isinstance(fv, Partial):
            return self.call(st, fv.a[0], list(fv.a[1]) + list(args), {**dict(fv.a[2]), **kwargs}, node)
        if isinstance(fv, ClsV):
            return self.instantiate(st, fv.cls, args, kwargs, node)
        if isinstance(fv, ExtM):
            return self.models.call_extm(self, st, fv, args, kwargs, node)
        if isinstance(fv, Ext):
            return self.models.call_ext(self, st, fv.path, args, kwargs, node)
        if isinstance(fv, Tok) and fv.kind in ("loop", "str", "path", "int", "bool", "logger"):
            return self.rz(st, "TypeError")
        if isinstance(fv, Tok):
            return self.models.call_tok(self, st, fv, args, kwargs, node)
        if isinstance(fv, Ref):
            o = st.o(fv)
            if o.kind == "wref":
                return self.models.wref_call(self, st, fv, node)
            if o.kind == "inst" and not isinstance(o.cls, str):
                m = self.find_method(o.cls, "__call__")
                if m and m[1]:
                    return self.call_fn(st, Fn(m[1], None), [fv] + list(args), kwargs, node)
        if isinstance(fv, (K, Num, Td, Tup)) or (
                isinstance(fv, Ref) and st.o(fv).kind in self.models.PYTYPE):
            return self.rz(st, "TypeError")
        raise Gap(f"call of {fv!r}")

    def bind_args(self, st, fi, args, kwargs, node, clo):
        """[(st, dict|Exc)]"""
        A = fi.node.args
        pos = A.posonlyargs + A.args
        loc = {}
        args = list(args)
        for p in pos:
            if args:
                loc[p.arg] = args.pop(0)
        if args:
            if A.vararg:
                loc[A.vararg.arg] = Tup(*args)
            else:
                return self.rz(st, "TypeError", K(f"{fi.qual}: too many arguments"))
        elif A.vararg:
            loc[A.vararg.arg] = Tup()
        kw = dict(kwargs)
        ponly = {p.arg for p in A.posonlyargs}
        for k in list(kw):
            if k in loc and k not in ponly and not (A.vararg and k == A.vararg.arg):
                return self.rz(st, "TypeError", K(f"{fi.qual}: multiple values for {k}"))
            if any(p.arg == k for p in A.args + A.kwonlyargs):
                loc[k] = kw.pop(k)
        if A.kwarg:
            d = st.new("dict", items=[Tup(K(k), v) for k, v in kw.items()])
            loc[A.kwarg.arg] = d
        elif kw:
            return self.rz(st, "TypeError", K(f"{fi.qual}: unexpected keyword {sorted(kw)}"))
        missing = []
        for p, d in zip(pos[len(pos) - len(A.defaults):], A.defaults):
            if p.arg not in loc:
                missing.append((p.arg, d))
        for p, d in zip(A.kwonlyargs, A.kw_defaults):
            if p.arg not in loc and d is not None:
                missing.append((p.arg, d))
        cur = [(st, loc)]
        if missing:
            frames = st.frames
            home = clo if clo is not None else self.modoid.get(fi.mod.name)
            if home is None:
                raise Gap("defaults of a harness function")
            st.frames = frames + (home,)
            for n, d in missing:
                nxt = []
                for a, l in cur:
                    for b, v in self.ev(d, a):
                        nxt.append((b, v) if isinstance(v, Exc) else (b, {**l, n: v}))
                cur = nxt
            for a, l in cur:
                a.frames = frames
        for p in pos + A.kwonlyargs:
            if any(not isinstance(l, Exc) and p.arg not in l for _, l in cur):
                return self.rz(cur[0][0], "TypeError", K(f"{fi.qual}: missing argument {p.arg}"))
        return cur

    def call_fn(self, st, fv, args, kwargs, node):
        fi, clo = fv.a[0], fv.a[1]
        if any(d.split(".")[-1] in ("asynccontextmanager", "contextmanager") for d in fi.decs) \
                and fi.is_gen:
            return [(st, st.new("cmgen", None, {"fn": fv, "args": Tup(*args),
                                                "kw": Tup(*[Tup(K(k), v) for k, v in kwargs.items()])}))]
        return self.call_fn_raw(st, fv, args, kwargs, node)

    def call_fn_raw(self, st, fv, args, kwargs, node):
        fi, clo = fv.a[0], fv.a[1]
        for d in fi.decs:
            if d.split(".")[-1] not in PLAINDECS:
                home = getattr(fi.cls, "oid", None)
                v = st.heap[home].f.get("@" + fi.name) if home in st.heap else None
                if v is None or isinstance(v, Fn) and v.a[0] is fi:
                    raise Gap(f"decorator {d}")
                return self.call(st, v, list(args), dict(kwargs), node)
        if fi.is_async and not fi.is_gen:
            # argument errors surface at the call
            out = []
            for a, loc in self.bind_args(st, fi, args, kwargs, node, clo):
                if isinstance(loc, Exc):
                    out.append((a, loc))
                else:
                    out.append((a, Coro(fv, tuple(args), tuple(sorted(kwargs.items())))))
            return out
        if fi.is_async:
            r = st.new("agen", None, {"fn": fv, "args": Tup(*args),
                                      "kw": Tup(*[Tup(K(k), v) for k, v in sorted(kwargs.items())])},
                       status=K("new"))
            return [(st, r)]
        if fi.is_gen:
            return self.run_gen(st, fv, args, kwargs, node)
        return self.run_fn(st, fv, args, kwargs, node)

    def run_gen(self, st, fv, args, kwargs, node):
        """Synchronous generators are run eagerly."""
        acc = st.new("list", items=[])
        out = []
        for a, v in self.run_fn(st, fv, args, kwargs, node, yields=acc):
            if isinstance(v, Exc):
                out.append((a, v))
            else:
                out.append((a, a.new("iter", items=list(a.o(acc).items), gen=TRUE)))
        return out

    def run_fn(self, st, fv, args, kwargs, node, yields=None, yieldhook=None):
        fi, clo = fv.a[0], fv.a[1]
        if len(st.frames) > 70:
            raise Gap("call depth")
        self.fnseen.add(fi.key)
        out = []
        for a, loc in self.bind_args(st, fi, args, kwargs, node, clo):
            if isinstance(loc, Exc):
                out.append((a, loc))
                continue
            fr = a.new("frame", None, loc, fn=fi, clo=clo, mod=fi.mod)
            if yields is not None:
                a.w(fr).x["yields"] = yields
            if yieldhook is not None:
                a.w(fr).x["yieldhook"] = yieldhook
            saved = a.frames
            a.frames = saved + (fr.oid,)
            hand = a.hand
            if isinstance(fi.node, ast.Lambda):
                res = [(b, ("ret", v)) if not isinstance(v, Exc) else (b, ("exc", v.ref))
                       for b, v in self.ev(fi.node.body, a)]
            else:
                res = self.block(fi.node.body, a)
            rs = []
            for b, o in res:
                b.frames = saved
                b.hand = hand
                if o is None:
                    rs.append((b, NONE))
                elif o[0] == "ret":
                    rs.append((b, o[1]))
                elif o[0] == "exc":
                    x = Exc(o[1])
                    if fi.is_gen and fi.is_async and self.exc_is(b, o[1], "StopAsyncIteration") or \
                            (fi.is_async or fi.is_gen) and self.exc_is(b, o[1], "StopIteration"):
                        r = self.mkexc(b, "RuntimeError")
                        b.w(r).f["__cause__"] = o[1]
                        x = Exc(r)
                    rs.append((b, x))
                else:
                    raise Gap("break/continue outside a loop")
            out.extend(self.dedupe(rs))
        return out

    def instantiate(self, st, cls, args, kwargs, node):
        if getattr(cls, "is_enum", False):
            return self.models.enum_call(self, st, cls, args, node)
        exc = self.is_sub(cls, "builtins.BaseException")
        f = {"args": Tup(*args), "__cause__": NONE, "__context__": NONE} if exc else {}
        r = st.new("inst", cls, f)
        m = self.find_method(cls, "__new__")
        if m and m[1]:
            raise Gap("__new__")
        if not exc:
            bad = [b for b in self.mro(cls) if isinstance(b, str) and b.split(".")[-1] not in (
                "object", "Generic", "ABC", "Protocol", "NamedTuple", "TypedDict", "AbstractAsyncContextManager",
                "AbstractContextManager") and not b.startswith(("collections.abc", "_collections_abc", "typing."))]
            if any("NamedTuple" in b for b in self.mro(cls) if isinstance(b, str)):
                return self.dataclass_init(st, cls, r, args, kwargs, node)
            if bad:
                raise Gap(f"instance of a class deriving from {bad}")
        m = self.find_method(cls, "__init__")
        if m and m[1]:
            out = []
            for a, v in self.call_fn(st, Fn(m[1], None), [r] + list(args), kwargs, node):
                out.append((a, v) if isinstance(v, Exc) else (a, r))
            return out
        if any(not isinstance(c, str) and c.is_dataclass for c in self.mro(cls)):
            return self.dataclass_init(st, cls, r, args, kwargs, node)
        if not exc and (args or kwargs):
            return self.rz(st, "TypeError")
        return [(st, r)]

    def dataclass_init(self, st, cls, r, args, kwargs, node):
        fields = []
        for c in reversed([c for c in self.mro(cls) if not isinstance(c, str)]):
            for n, val, ann in c.assigns:
                if ann:
                    fields = [x for x in fields if x[0] != n] + [(n, val, c)]
        args, kw = list(args), dict(kwargs)
        cur = [(st, None)]
        for n, val, c in fields:
            nxt = []
            for a, x in cur:
                if isinstance(x, Exc):
                    nxt.append((a, x))
                    continue
                nxt.append((a, None))
            cur = nxt
            isf = isinstance(val, ast.Call) and ast.unparse(val.func).split(".")[-1] == "field"
            if isf and any(k.arg == "init" and ast.unparse(k.value) == "False" for k in val.keywords):
                given = None
            elif args:
                given = args.pop(0)
            elif n in kw:
                given = kw.pop(n)
            else:
                given = None
            nxt = []
            for a, x in cur:
                if given is not None:
                    a.w(r).f[n] = given
                    nxt.append((a, None))
                    continue
                if val is None:
                    nxt.extend(self.rz(a, "TypeError"))
                    continue
                e = val
                call = False
                if isf:
                    e = None
                    for k in val.keywords:
                        if k.arg == "default":
                            e = k.value
                        elif k.arg == "default_factory":
                            e, call = k.value, True
                    if e is None:
                        nxt.extend(self.rz(a, "TypeError"))
                        continue
                frames = a.frames
                a.frames = frames + (self.modoid[c.mod.name],)
                res = self.ev(e, a)
                if call:
                    res = self.then(res, lambda b, fv: self.call(b, fv, [], {}, node))
                for b, v in res:
                    b.frames = frames
                    if isinstance(v, Exc):
                        nxt.append((b, v))
                    else:
                        b.w(r).f[n] = v
                        nxt.append((b, None))
            cur = nxt
        if args or kw:
            return self.rz(st, "TypeError")
        out = []
        for a, x in cur:
            if isinstance(x, Exc):
                out.append((a, x))
                continue
            m = self.find_method(cls, "__post_init__")
            if m and m[1]:
                out.extend((b, v if isinstance(v, Exc) else r)
                           for b, v in self.call_fn(a, Fn(m[1], None), [r], {}, node))
            else:
                out.append((a, r))
        return out

    # ---- attributes -------------------------------------------------------------------------------
    def proxied(self, st, o, fn):
        """An operation on a weak proxy."""
        t = o.f["target"]
        if st.o(t).x.get("dead"):
            return self.rz(st, "ReferenceError", K("weakly-referenced object no longer exists"))
        return fn(t)

    def getattr(self, st, v, name, node):
        if isinstance(v, Ref):
            o = st.o(v)
            if o.kind == "inst":
                return self.inst_getattr(st, v, o, name, node)
            if o.kind == "module":
                if name in o.f:
                    return [(st, o.f[name])]
            if o.kind == "wref" and o.x.get("proxy"):
                return self.proxied(st, o, lambda t: self.getattr(st, t, name, node))
            if o.kind == "wref" and name == "__call__":
                return [(st, v)]
            return self.models.obj_getattr(self, st, v, o, name, node)
        if isinstance(v, Mod):
            if v.a[0] in self.modoid and name in st.o(self.modoid[v.a[0]]).f:
                return [(st, st.o(self.modoid[v.a[0]]).f[name])]
            sub = f"{v.a[0]}.{name}"
            if sub in self.prog.mods or any(m.startswith(sub + ".") for m in self.prog.mods):
                return [(st, Mod(sub))]
            return self.rz(st, "AttributeError", K(name))
        if isinstance(v, Ext):
            return [(st, mkext(f"{v.path}.{name}"))]
        if isinstance(v, ClsV):
            return self.cls_getattr(st, v.cls, name, node)
        if isinstance(v, SuperV):
            cls, sv = v.a
            if isinstance(sv, ClsV):
                inst_cls = sv.cls
            else:
                inst_cls = st.o(sv).cls
            m = self.find_method(inst_cls, name, after=cls)
            if m is None:
                if name in ("__init__", "__init_subclass__", "__del__", "__aexit__", "__post_init__"):
                    return [(st, Ext("sa.noop"))]
                return [(st, ExtM(sv, "super." + name))]
            if m[1] is None:
                if name == "__init__":
                    return [(st, Partial(Ext("sa.super_init"), (sv,), ()))]
                return [(st, ExtM(sv, "super." + name))]
            if m[1].has("property"):
                return self.call_fn(st, Fn(m[1], None), [sv], {}, node)
            return [(st, Bound(Fn(m[1], None), sv))]
        if isinstance(v, EnumM):
            if name == "name" or name == "_name_":
                return [(st, K(v.a[1]))]
            if name in ("value", "_value_"):
                return [(st, st.o(v.a[0].oid).f[v.a[1]])]
            m = self.find_method(v.a[0], name)
            if m and m[1]:
                if m[1].has("property"):
                    return self.call_fn(st, Fn(m[1], None), [v], {}, node)
                return [(st, Bound(Fn(m[1], None), v))]
        return self.models.val_getattr(self, st, v, name, node)

    def cls_getattr(self, st, cls, name, node):
        if name == "__name__" or name == "__qualname__":
            return [(st, K(cls.name))]
        if getattr(cls, "is_enum", False):
            f = st.o(cls.oid).f
            if name in f and not name.startswith("_"):
                return [(st, EnumM(cls, name))]
            if name == "__members__":
                return [(st, st.new("dict", items=[Tup(K(n), EnumM(cls, n)) for n in f
                                                   if not n.startswith("_")]))]
        for c in self.mro(cls):
            if isinstance(c, str):
                continue
            if name in st.o(c.oid).f:
                return [(st, st.o(c.oid).f[name])]
            if name in c.methods:
                fi = c.methods[name]
                if fi.has("classmethod"):
                    return [(st, Bound(Fn(fi, None), ClsV(cls)))]
                return [(st, Fn(fi, None))]
        if name in ("__module__", "__doc__"):
            return [(st, App("str", K(name)))]
        return self.rz(st, "AttributeError", K(name))

    def inst_getattr(self, st, v, o, name, node):
        if isinstance(o.cls, str):
            if name in o.f:
                return [(st, o.f[name])]
            return self.models.ext_inst_getattr(self, st, v, o, name, node)
        # data descriptors first (properties)
        for c in self.mro(o.cls):
            if isinstance(c, str):
                continue
            if name in c.methods:
                fi = c.methods[name]
                if fi.has("property"):
                    return self.call_fn(st, Fn(fi, None), [v], {}, node)
                if fi.has("cached_property"):
                    if name in o.f:
                        return [(st, o.f[name])]
                    out = []
                    for a, x in self.call_fn(st, Fn(fi, None), [v], {}, node):
                        if not isinstance(x, Exc):
                            a.w(v).f[name] = x
                        out.append((a, x))
                    return out
                if name in o.f:
                    return [(st, o.f[name])]
                if fi.has("staticmethod"):
                    return [(st, Fn(fi, None))]
                if fi.has("classmethod"):
                    return [(st, Bound(Fn(fi, None), ClsV(o.cls)))]
                return [(st, Bound(Fn(fi, None), v))]
            if name in o.f:
                break
            if hasattr(c, "oid") and name in st.o(c.oid).f:
                cv = st.o(c.oid).f[name]
                if isinstance(cv, Fn):
                    return [(st, Bound(cv, v))]
                return [(st, cv)]
        if name in o.f:
            return [(st, o.f[name])]
        if name == "__class__":
            return [(st, ClsV(o.cls))]
        m = self.find_method(o.cls, name)
        if m is not None and m[1] is None:
            return self.models.ext_inst_getattr(self, st, v, o, name, node)
        m = self.find_method(o.cls, "__getattr__")
        if m and m[1]:
            return self.call_fn(st, Fn(m[1], None), [v, K(name)], {}, node)
        if name in ("__dict__", "__weakref__", "__hash__", "__doc__", "__module__"):
            return [(st, ExtM(v, name))]
        return self.rz(st, "AttributeError", K(f"{o.cls.name}.{name}"))

    def setattr(self, st, ov, name, v, node):
        if isinstance(ov, Ref):
            o = st.o(ov)
            if o.kind == "wref" and o.x.get("proxy"):
                return self.proxied(st, o, lambda t: self.setattr(st, t, name, v, node))
            if o.kind == "inst" and not isinstance(o.cls, str):
                for c in self.mro(o.cls):
                    if isinstance(c, str):
                        continue
                    if name in c.setters:
                        return self.call_fn(st, Fn(c.setters[name], None), [ov, v], {}, node)
                    if name in c.methods and c.methods[name].has("property"):
                        return self.rz(st, "AttributeError", K(name))
                fz = any(not isinstance(c, str) and c.is_dataclass and any(
                    "frozen=True" in ast.unparse(d).replace(" ", "") for d in c.node.decorator_list)
                    for c in self.mro(o.cls))
                if fz:
                    return self.rz(st, "AttributeError", K("frozen"))
                st.w(ov).f[name] = v
                self.ev_event(st, "store", node, obj=ov, attr=name, val=v)
                return [(st, NONE)]
            if o.kind == "inst":
                st.w(ov).f[name] = v
                return [(st, NONE)]
            raise Gap(f"attribute store on {o.kind}")
        if isinstance(ov, ClsV):
            st.w(ov.cls.oid).f[name] = v
            self.ev_event(st, "classstore", node, cls=ov.cls, attr=name)
            return [(st, NONE)]
        if isinstance(ov, Mod):
            st.w(self.modoid[ov.a[0]]).f[name] = v
            self.ev_event(st, "globalstore", node, name=name)
            return [(st, NONE)]
        if isinstance(ov, Tok) and ov.kind in ("msg",):
            self.ev_event(st, "inspect", node, tok=ov, how=f"attribute {name} set")
            return [(st, NONE)]
        raise Gap(f"attribute store on {ov!r}")

    # ---- operators --------------------------------------------------------------------------------
    def truth(self, st, v, node):
        return self.models.truth(self, st, v, node)

    def compare(self, st, op, a, b, node):
        m = self.models
        if isinstance(op, ast.Is):
            return m.is_op(self, st, a, b, node)
        if isinstance(op, ast.IsNot):
            return [(s, t if isinstance(t, Exc) else not t) for s, t in m.is_op(self, st, a, b, node)]
        if isinstance(op, ast.Eq):
            return m.eq_op(self, st, a, b, node)
        if isinstance(op, ast.NotEq):
            return [(s, t if isinstance(t, Exc) else not t) for s, t in m.eq_op(self, st, a, b, node)]
        if isinstance(op, ast.In):
            return m.in_op(self, st, a, b, node)
        if isinstance(op, ast.NotIn):
            return [(s, t if isinstance(t, Exc) else not t) for s, t in m.in_op(self, st, a, b, node)]
        return m.order_op(self, st, op, a, b, node)

    def is_op(self, st, a, b, node):
        return self.models.is_op(self, st, a, b, node)

    def eq_op(self, st, a, b, node):
        return self.models.eq_op(self, st, a, b, node)

    def binop(self, st, op, a, b, node, inplace=False):
        return self.models.binop(self, st, op, a, b, node, inplace)

    # ---- awaiting ---------------------------------------------------------------------------------
    def await_(self, st, v, node):
        if isinstance(v, Coro):
            fv, args, kw = v.a
            if isinstance(fv, Bound):
                args, fv = (fv.selfv,) + tuple(args), fv.fnv
            return self.run_fn(st, fv, list(args), dict(kw), node)
        return self.models.await_(self, st, v, node)

    def suspend(self, st, aw, node):
        """A point where the current task really suspends.  [(st, value|Exc)]"""
        self.nsusp.add(self.where(node))
        st.heads = frozenset()
        if not self.models.tmo_scopes(st):
            return self.hooks.on_suspend(self, st, aw, node)
        st0 = st.clone()
        return list(self.hooks.on_suspend(self, st, aw, node)) + self.models.timeouts(self, st0, aw, node)


PLAINDECS = ("staticmethod", "classmethod", "property", "abstractmethod", "override", "final", "no_type_check",
             "overload", "setter", "asynccontextmanager", "contextmanager", "deprecated", "cached_property", "wraps",
             "coroutine")


def user_decs(node):
    """The decorators of a function that must be called to know what the name is bound to."""
    return [d for d in node.decorator_list
            if ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1] not in PLAINDECS]


def raw_fn(fi):
    """The undecorated function (built-in decorators still apply)."""
    import copy
    r = copy.copy(fi)
    r.decs = [d for d in fi.decs if d.split(".")[-1] in PLAINDECS]
    return r


_EXTALIAS = {"watchfiles.main.": "watchfiles.", "asyncio.locks.": "asyncio.", "asyncio.tasks.": "asyncio."}


def mkext(path):
    """External value by its canonical dotted path."""
    for a, b in _EXTALIAS.items():
        if path.startswith(a):
            path = b + path[len(a):]
    return Ext(path)


class _Short:
    """Marks a short-circuited BoolOp operand."""
    __slots__ = ("v",)
    _short = True

    def __init__(self, v):
        self.v = v.v if isinstance(v, _Short) else v


_localcache = {}


def local_names(fn):
    r = _localcache.get(id(fn))
    if r is None:
        r = set()
        if not isinstance(fn, ast.Lambda):
            todo = list(fn.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    r.add(n.name)
                    continue
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    r.add(n.id)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        r.add((a.asname or a.name).split(".")[0])
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    r -= set(n.names)
                todo.extend(ast.iter_child_nodes(n))
        _localcache[id(fn)] = r
    return r


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
