"""Models of builtins, containers, asyncio, weakref, datetime and logging for the abstract interpreter."""
from __future__ import annotations

import ast
import asyncio
import collections
import itertools
import types
from fractions import Fraction

from .state import WEAKKEY, Obj, Seg, State
from .values import (FALSE, NONE, TRUE, App, Aw, Bound, ClsV, Coro, EnumM, Exc, Ext, ExtM, Fn, K, Mod, Num,
                     Partial, Ref, Slice, SuperV, Td, Tok, Top, Tup, V, _T, add_fact, entails_ge, fatom,
                     fromnum, iatom, kb, tonum)

KINDCLS = {"deque": "collections.deque", "list": "builtins.list", "set": "builtins.set",
           "dict": "builtins.dict", "frozenset": "builtins.frozenset", "cond": "asyncio.Condition",
           "lock": "asyncio.Lock", "aevent": "asyncio.Event", "task": "asyncio.Task", "fut": "asyncio.Future",
           "wref": "weakref.ReferenceType", "iter": "types.GeneratorType",
           "agen": "types.AsyncGeneratorType", "xagen": "types.AsyncGeneratorType"}
TOKCLS = {"str": "builtins.str", "path": "pathlib.Path", "loop": "asyncio.AbstractEventLoop",
          "logger": "logging.Logger", "fn": "types.FunctionType", "int": "builtins.int",
          "bool": "builtins.bool"}
APPCLS = {"str": "builtins.str", "fstr": "builtins.str", "repr": "builtins.str", "hash": "builtins.int",
          "id": "builtins.int", "Path": "pathlib.Path", "strop": "builtins.str"}
CONTAINERS = ("deque", "list", "set", "dict", "frozenset", "iter", "view")


def _gap(why):
    from .interp import Gap
    raise Gap(why)


# ---- memoised nondeterministic facts about opaque values ----------------------------------------

def memo_get(st, v, what):
    for (a, w, r) in st.mon.get("memo", frozenset()):
        if a == v and w == what:
            return r
    return None


def memo_put(st, v, what, r):
    st.mon["memo"] = st.mon.get("memo", frozenset()) | {(v, what, r)}


def fork_bool(st, v, what):
    """Nondeterministic truth of an unknown predicate of an opaque value, remembered."""
    r = memo_get(st, v, what)
    if r is not None:
        return [(st, r)]
    o = st.clone()
    memo_put(st, v, what, True)
    memo_put(o, v, what, False)
    return [(st, True), (o, False)]


def fork2(st):
    o = st.clone()
    return [(st, True), (o, False)]


# ---- numbers ------------------------------------------------------------------------------------

def num_ge0(st, n, strict=False):
    """[(st, bool)] whether n >= 0 (n > 0), adding what is learnt."""
    if entails_ge(st.facts, n, strict):
        return [(st, True)]
    if entails_ge(st.facts, -n, not strict):
        return [(st, False)]
    o = st.clone()
    out = []
    f = add_fact(st.facts, n, strict)
    if f is not None:
        st.facts = f
        out.append((st, True))
    f = add_fact(o.facts, -n, not strict)
    if f is not None:
        o.facts = f
        out.append((o, False))
    return out


def num_eq0(st, n):
    if not n.t:
        return [(st, n.c == 0)]
    if entails_ge(st.facts, n, True) or entails_ge(st.facts, -n, True):
        return [(st, False)]
    if entails_ge(st.facts, n) and entails_ge(st.facts, -n):
        return [(st, True)]
    if n.isint and n.integral() is False and all(q.denominator == 1 for _, q in n.t) and n.c.denominator != 1:
        return [(st, False)]
    out = []
    o = st.clone()
    f = add_fact(st.facts, n)
    f = add_fact(f, -n) if f is not None else None
    if f is not None:
        st.facts = f
        out.append((st, True))
    # not equal: strict in the known direction
    if entails_ge(o.facts, n):
        f = add_fact(o.facts, n, True)
        if f is not None:
            o.facts = f
            out.append((o, False))
    elif entails_ge(o.facts, -n):
        f = add_fact(o.facts, -n, True)
        if f is not None:
            o.facts = f
            out.append((o, False))
    else:
        p = o.clone()
        f = add_fact(o.facts, n, True)
        if f is not None:
            o.facts = f
            out.append((o, False))
        f = add_fact(p.facts, -n, True)
        if f is not None:
            p.facts = f
            out.append((p, False))
    return out


def order_op(I, st, op, a, b, node):
    x, y = tonum(a), tonum(b)
    if isinstance(a, Td) and isinstance(b, Td):
        x, y = a.us, b.us
    if x is not None and y is not None:
        d = y - x
        if isinstance(op, ast.Lt):
            return num_ge0(st, d, True)
        if isinstance(op, ast.LtE):
            return num_ge0(st, d, False)
        if isinstance(op, ast.Gt):
            return num_ge0(st, -d, True)
        if isinstance(op, ast.GtE):
            return num_ge0(st, -d, False)
    for v in (a, b):
        if isinstance(v, Tok) and v.kind == "msg":
            I.ev_event(st, "inspect", node, tok=v, how="ordering comparison")
            return fork2(st)
    if isinstance(a, K) and a.v is None or isinstance(b, K) and b.v is None:
        return I.rz(st, "TypeError")
    if isinstance(a, Ref) and isinstance(b, Ref) and st.o(a).kind in ("set", "frozenset") and \
            st.o(b).kind in ("set", "frozenset"):
        A, B = st.o(a).items, st.o(b).items
        sub = all(x in B for x in A)
        sup = all(x in A for x in B)
        r = {ast.LtE: sub, ast.GtE: sup, ast.Lt: sub and not sup, ast.Gt: sup and not sub}[type(op)]
        return [(st, r)]
    if isinstance(a, Top) or isinstance(b, Top):
        return fork2(st)
    if isinstance(a, (Tok, App)) and isinstance(b, (Tok, App, K)):
        return fork_bool(st, Tup(a, b), type(op).__name__)
    _gap(f"ordering of {a!r} and {b!r}")


def rnd(st, n, how):
    """Integer conversion of a real linear form."""
    if n.integral():
        return Num(n.t, n.c, True)
    it, ft = [], []
    for a, q in n.t:
        (it if q.denominator == 1 and _aint(a) else ft).append((a, q))
    ci = Fraction(int(n.c // 1))
    cf = n.c - ci
    rest = Num(ft, cf, False)
    if not ft:
        v = {"round": Fraction(round(cf)), "floor": Fraction(0), "trunc": None,
             "ceil": Fraction(0 if cf == 0 else 1)}[how]
        if v is None:
            v = Fraction(int(n.c)) - ci if not it else None
        if v is not None:
            return Num(it, ci + v, True)
    if how == "trunc":
        r = Num([(("trunc", n), 1)], 0, True)
        for s, lin in ((False, n - r + Num((), 1, False)), (False, r - n + Num((), 1, False))):
            st.facts = add_fact(st.facts, lin, s) or st.facts
        return r
    r0 = Num([((how, rest), 1)], 0, True)
    # |round(x)-x| <= 1/2, floor <= x, ...
    half = Num((), Fraction(1, 2), False)
    fs = {"round": [rest - r0 + half, r0 - rest + half], "floor": [rest - r0, r0 - rest + Num((), 1, False)],
          "ceil": [r0 - rest, rest - r0 + Num((), 1, False)]}[how]
    for lin in fs:
        st.facts = add_fact(st.facts, lin) or st.facts
    return Num(it, ci, True) + r0


def _aint(a):
    from .values import atom_int
    return atom_int(a)


def fdiv(st, x, y):
    """Floor quotient as a Num, with its defining facts if y >= 1."""
    if not x.t and not y.t and y.c != 0:
        return Num((), x.c // y.c, True)
    k = Fraction(0)
    rest = x
    if not y.t and y.c > 0 and x.integral() and y.c.denominator == 1:
        # split multiples of a constant divisor
        mult = Num([(a, Fraction(q // y.c)) for a, q in x.t], x.c // y.c, True)
        rest = x - mult.scale(y.c)
        if not rest.t:
            return mult
    elif len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1:
        ya = y.t[0][0]
        q = dict(x.t).get(ya, Fraction(0))
        k = Fraction(q // 1)
        rest = x - y.scale(k)
        # products with the divisor
        mult = Num((), k, True)
        for a, qq in list(rest.t):
            if a[0] == "prod" and qq.denominator == 1:
                fs = list(a[1:])
                if y in fs:
                    fs.remove(y)
                    other = fs[0] if len(fs) == 1 else None
                    if other is not None and other.integral():
                        mult = mult + other.scale(qq)
                        rest = rest - Num([(a, qq)], 0, True)
        if not rest.t and rest.c == 0:
            return mult
    else:
        mult = Num((), 0, True)
    q = Num([(("fdiv", rest, y), 1)], 0, True)
    if entails_ge(st.facts, y, True):
        r = rest - mul(y, q)
        for lin, s in ((r, False), (y - r, True)):
            st.facts = add_fact(st.facts, lin, s) or st.facts
        if entails_ge(st.facts, rest):
            st.facts = add_fact(st.facts, q) or st.facts
    return mult + q


def mul(a, b):
    if not a.t:
        r = b.scale(a.c)
        return Num(r.t, r.c, a.isint and b.isint)
    if not b.t:
        r = a.scale(b.c)
        return Num(r.t, r.c, a.isint and b.isint)
    # distribute over atoms
    out = Num((), 0, a.isint and b.isint)
    for x, p in list(a.t) + [(None, a.c)]:
        for y, q in list(b.t) + [(None, b.c)]:
            c = p * q
            if c == 0:
                continue
            if x is None and y is None:
                out = out + Num((), c, True)
            elif x is None:
                out = out + Num([(y, c)], 0, True)
            elif y is None:
                out = out + Num([(x, c)], 0, True)
            else:
                fs = []
                for z in (x, y):
                    fs += list(z[1:]) if z[0] == "prod" else [Num([(z, 1)], 0, _aint(z))]
                fs.sort(key=repr)
                out = out + Num([(("prod", *fs), c)], 0, True)
    return Num(out.t, out.c, a.isint and b.isint)


def binop(I, st, op, a, b, node, inplace=False):
    if isinstance(a, Td) or isinstance(b, Td):
        return td_binop(I, st, op, a, b, node)
    x, y = tonum(a), tonum(b)
    if x is not None and y is not None:
        if isinstance(op, ast.Add):
            r = x + y
        elif isinstance(op, ast.Sub):
            r = x - y
        elif isinstance(op, ast.Mult):
            r = mul(x, y)
        elif isinstance(op, ast.Div):
            if y.const is not None and y.c != 0:
                r = Num([(k, q / y.c) for k, q in x.t], x.c / y.c, False)
            elif y.const == 0:
                return I.rz(st, "ZeroDivisionError")
            else:
                r = Num([(("div", x, y), 1)], 0, False)
            r = Num(r.t, r.c, False)
        elif isinstance(op, ast.FloorDiv):
            if y.const == 0:
                return I.rz(st, "ZeroDivisionError")
            if not (x.isint and y.isint):
                q = x.scale(1 / y.c) if y.const is not None else Num([(("div", x, y), 1)], 0, False)
                r = rnd(st, q, "floor")
            else:
                r = fdiv(st, x, y)
        elif isinstance(op, ast.Mod):
            if y.const == 0:
                return I.rz(st, "ZeroDivisionError")
            r = x - mul(y, fdiv(st, x, y))
        elif isinstance(op, ast.Pow) and y.const is not None and x.const is not None:
            return [(st, K(a.v ** b.v))]
        else:
            _gap(f"arithmetic {type(op).__name__}")
        return [(st, fromnum(r))]
    if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str) and \
            isinstance(op, ast.Add):
        return [(st, K(a.v + b.v))]
    if isinstance(op, ast.Mod) and isinstance(a, K) and isinstance(a.v, str):
        I.ev_event(st, "format", node, vals=[b])
        return [(st, App("fstr", a, b))]
    sa, sb = I.cls_of(st, a), I.cls_of(st, b)
    if sa == "builtins.str" and sb == "builtins.str" and isinstance(op, ast.Add):
        return [(st, App("fstr", a, b))]
    if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
        return [(st, Tup(*a.items, *b.items))]
    if isinstance(a, Ref):
        o = st.o(a)
        if o.kind in ("list", "deque") and isinstance(op, ast.Add):
            if inplace:
                return [(s, v if isinstance(v, Exc) else a)
                        for s, v in call_extm(I, st, ExtM(a, "extend"), [b], {}, node)]
            if isinstance(b, Ref) and st.o(b).kind == o.kind:
                return [(st, st.new(o.kind, items=list(o.items) + list(st.o(b).items), **_capx(o)))]
        if o.kind in ("set", "frozenset", "view") and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            name = {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference",
                    ast.BitXor: "symmetric_difference"}[type(op)]
            if inplace and o.kind == "set":
                name = {"union": "update", "intersection": "intersection_update",
                        "difference": "difference_update"}.get(name, name)
                if name == "symmetric_difference":
                    _gap("^=")
                return [(s, v if isinstance(v, Exc) else a)
                        for s, v in call_extm(I, st, ExtM(a, name), [b], {}, node)]
            out = []
            for s, A in to_items(I, st, a, node, ordered=True):
                for s2, B in to_items(I, s, b, node, ordered=True):
                    out.append((s2, mkset(I, s2, "frozenset" if o.kind == "frozenset" else "set",
                                          setop(I, s2, name, A, B), node)))
            return out
        if o.kind == "dict" and isinstance(op, ast.BitOr):
            d = st.new("dict", items=list(o.items))
            for p in st.o(b).items:
                dict_put(I, st, d, p.a[0], p.a[1], node)
            return [(st, d)]
    for v in (a, b):
        if isinstance(v, Tok) and v.kind == "msg":
            I.ev_event(st, "inspect", node, tok=v, how="arithmetic")
            return [(st, Top("msg op"))]
    if isinstance(a, (ClsV, Ext)) or isinstance(b, (ClsV, Ext)) or a == NONE or b == NONE:
        if isinstance(op, ast.BitOr):
            return [(st, Tup(a, b))]      # type union
        return I.rz(st, "TypeError")
    _gap(f"operator {type(op).__name__} on {a!r}, {b!r}")


def td_binop(I, st, op, a, b, node):
    if isinstance(a, Td) and isinstance(b, Td):
        if isinstance(op, ast.Add):
            return [(st, Td(a.us + b.us))]
        if isinstance(op, ast.Sub):
            return [(st, Td(a.us - b.us))]
        if isinstance(op, ast.FloorDiv):
            return [(st, fromnum(fdiv(st, a.us, b.us)))]
        if isinstance(op, ast.Mod):
            return [(st, Td(a.us - mul(b.us, fdiv(st, a.us, b.us))))]
        if isinstance(op, ast.Div):
            if b.us.const:
                r = a.us.scale(1 / b.us.c)
                return [(st, fromnum(Num(r.t, r.c, False)))]
            return [(st, Num([(("div", a.us, b.us), 1)], 0, False))]
    n = tonum(b) if isinstance(a, Td) else tonum(a)
    t = a if isinstance(a, Td) else b
    if n is not None:
        if isinstance(op, ast.Mult):
            return [(st, Td(rnd(st, mul(t.us, n), "round")))]
        if isinstance(op, ast.Div) and n.const and isinstance(a, Td):
            return [(st, Td(rnd(st, t.us.scale(1 / n.c), "round")))]
        if isinstance(op, ast.FloorDiv) and isinstance(a, Td):
            return [(st, Td(fdiv(st, t.us, n)))]
        return I.rz(st, "TypeError")
    _gap(f"timedelta operator {type(op).__name__} with {a!r}, {b!r}")


# ---- truth, identity, equality ------------------------------------------------------------------

def truth(I, st, v, node):
    if isinstance(v, K):
        return [(st, bool(v.v))]
    if isinstance(v, bool):
        return [(st, v)]
    if isinstance(v, Num):
        return [(s, not t) for s, t in num_eq0(st, v)]
    if isinstance(v, Td):
        return [(s, not t) for s, t in num_eq0(st, v.us)]
    if isinstance(v, Tup):
        return [(st, len(v.items) > 0)]
    if isinstance(v, Ref):
        o = st.o(v)
        if o.kind == "inst":
            if isinstance(o.cls, str):
                return [(st, True)]
            for name in ("__bool__", "__len__"):
                m = I.find_method(o.cls, name)
                if m and m[1]:
                    return I.then(I.call_fn(st, Fn(m[1], None), [v], {}, node),
                                  lambda a, x: truth(I, a, x, node))
            if o.x.get("user"):
                return fork_bool(st, v, "truth")
            return [(st, True)]
        if o.kind in CONTAINERS and o.kind != "iter":
            return c_nonempty(I, st, v)
        return [(st, True)]
    if isinstance(v, Tok):
        if v.kind in ("msg", "res"):
            I.ev_event(st, "inspect", node, tok=v, how="truth value")
            return fork_bool(st, v, "truth")
        if v.kind in ("fn", "loop", "path", "logger"):
            return [(st, True)]
        return fork_bool(st, v, "truth")
    if isinstance(v, (Fn, Bound, ClsV, Ext, ExtM, Coro, EnumM, Partial, Mod)):
        return [(st, True)]
    if isinstance(v, App):
        if v.a[0] in ("Path",):
            return [(st, True)]
        return fork_bool(st, v, "truth")
    if isinstance(v, Top):
        return fork2(st)
    _gap(f"truth of {v!r}")


def is_op(I, st, a, b, node):
    if isinstance(a, Top) or isinstance(b, Top):
        return fork2(st)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Tok) and x.kind in ("msg", "res"):
            if isinstance(y, Tok) and y.kind in ("msg", "res"):
                if x == y:
                    return [(st, True)]
                return fork_bool(st, Tup(*sorted((x, y), key=repr)), "is")
            if isinstance(y, K) or isinstance(y, (Ext, EnumM)):
                I.ev_event(st, "inspect", node, tok=x, how=f"identity with {y!r}")
                if isinstance(y, K) and y.v is None and memo_get(st, x, "truth") is True:
                    return [(st, False)]
                return fork_bool(st, x, f"is {y!r}")
            if isinstance(y, ClsV):
                if y.cls.name.startswith("_"):
                    return [(st, False)]
                I.ev_event(st, "inspect", node, tok=x, how=f"identity with class {y.cls.name}")
                return fork_bool(st, x, f"is {y.cls.name}")
            return [(st, False)]
    if isinstance(a, Tok) and isinstance(b, Tok):
        if a == b:
            return [(st, True)]
        if a.kind == b.kind:
            return fork_bool(st, Tup(*sorted((a, b), key=repr)), "is")
        return [(st, False)]
    if isinstance(a, Num) and isinstance(b, Num):
        return eq_op(I, st, a, b, node)
    return [(st, a == b)]


def veq(I, st, a, b):
    """Equality if it is definite: True/False/None."""
    if isinstance(a, App) and isinstance(b, App) and a.a[0] == b.a[0] == "strop" and a != b and len(a.a) == 3 \
            and a.a[1] == b.a[1] and memo_get(st, K("paths"), ("same", a.a[1].v)) is False:
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return True
        oa, ob = st.o(a), st.o(b)
        if oa.kind == "inst" and ob.kind == "inst" and oa.cls is ob.cls and not isinstance(oa.cls, str) \
                and oa.cls.is_dataclass:
            rs = [veq(I, st, oa.f.get(k), ob.f.get(k)) for k in oa.f]
            return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
        if oa.kind in ("task", "inst", "cond", "lock", "aevent", "wref", "iter", "agen"):
            return False
        if oa.kind != ob.kind and not {oa.kind, ob.kind} <= {"set", "frozenset"}:
            return False
        if oa.kind in ("list", "deque"):
            if len(oa.items) != len(ob.items) and not any(isinstance(x, Seg) for x in oa.items + ob.items):
                return False
            rs = [veq(I, st, x, y) for x, y in zip(oa.items, ob.items)]
            return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
        if oa.kind in ("set", "frozenset", "dict"):
            if len(oa.items) == 0 or len(ob.items) == 0:
                return len(oa.items) == len(ob.items)
            if set(oa.items) == set(ob.items):
                return True
            return None
        return None
    if isinstance(a, (Num,)) or isinstance(b, Num):
        x, y = tonum(a), tonum(b)
        if x is None or y is None:
            return False
        d = x - y
        if not d.t:
            return d.c == 0
        if entails_ge(st.facts, d, True) or entails_ge(st.facts, -d, True):
            return False
        if entails_ge(st.facts, d) and entails_ge(st.facts, -d):
            return True
        return None
    if isinstance(a, Td) and isinstance(b, Td):
        return veq(I, st, fromnum(a.us), fromnum(b.us))
    if isinstance(a, K) and isinstance(b, K):
        return a.v == b.v
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        rs = [veq(I, st, x, y) for x, y in zip(a.items, b.items)]
        return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
    if type(a) is type(b) and a == b:
        if isinstance(a, Tok) and a.kind in ("msg", "res"):
            return None
        return True
    if isinstance(a, Seg) or isinstance(b, Seg):
        return None
    if isinstance(a, Tok) or isinstance(b, Tok):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Tok):
                if x.kind in ("msg", "res"):
                    return None
                if y == NONE:
                    return None if x.kind == "any" else False
                if isinstance(y, (Ref, ClsV, Fn, Bound, Coro)):
                    return False
        if isinstance(a, Tok) and isinstance(b, Tok):
            return None if a.kind == b.kind else False
        return None
    if isinstance(a, Top) or isinstance(b, Top):
        return None
    if isinstance(a, App) and isinstance(b, App):
        if a.a[0] == b.a[0] and len(a.a) == len(b.a) == 2:
            r = veq(I, st, a.a[1], b.a[1])
            return r if a.a[0] in ("str", "hash", "id", "Path", "repr") else (True if r else None)
        if a.a[0] == b.a[0] == "fstr" and len(a.a) == len(b.a) == 3 and a.a[1] == b.a[1]:
            x, y = a.a[2], b.a[2]
            if isinstance(x, App) and isinstance(y, App) and x.a[0] == y.a[0] and x.a[0] in ("id", "hash"):
                return veq(I, st, x, y)  # formatting integers is injective
        return None if a.a[0] == b.a[0] else False
    if isinstance(a, App) and isinstance(b, K) or isinstance(a, K) and isinstance(b, App):
        k = b if isinstance(b, K) else a
        ap = a if isinstance(a, App) else b
        if k.v is None:
            return False
        if APPCLS.get(ap.a[0]) == "builtins.str" and not isinstance(k.v, str):
            return False
        if APPCLS.get(ap.a[0]) == "builtins.int" and not isinstance(k.v, int):
            return False
        return None
    return False


def eq_op(I, st, a, b, node):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Tok) and x.kind in ("msg", "res"):
            I.ev_event(st, "inspect", node, tok=x, how="equality comparison")
            return fork_bool(st, Tup(a, b), "eq")
        if isinstance(x, Ref) and st.o(x).kind == "inst" and not isinstance(st.o(x).cls, str):
            m = I.find_method(st.o(x).cls, "__eq__")
            if m and m[1]:
                return I.then(I.call_fn(st, Fn(m[1], None), [x, y], {}, node),
                              lambda s, v: truth(I, s, v, node))
    x, y = tonum(a), tonum(b)
    if isinstance(a, Td) and isinstance(b, Td):
        x, y = a.us, b.us
    if x is not None and y is not None:
        return num_eq0(st, x - y)
    r = veq(I, st, a, b)
    if r is not None:
        return [(st, r)]
    if isinstance(a, Top) or isinstance(b, Top):
        return fork2(st)
    if isinstance(a, Ref) or isinstance(b, Ref):
        _gap(f"equality of {a!r} and {b!r}")
    return fork_bool(st, Tup(a, b), "eq")


def in_op(I, st, a, b, node):
    if isinstance(b, K) and isinstance(b.v, str):
        if isinstance(a, K):
            return [(st, a.v in b.v)]
        return fork_bool(st, Tup(a, b), "in")
    if isinstance(b, Ref) and st.o(b).kind == "inst" and not isinstance(st.o(b).cls, str):
        m = I.find_method(st.o(b).cls, "__contains__")
        if m and m[1]:
            return I.then(I.call_fn(st, Fn(m[1], None), [b, a], {}, node), lambda s, v: truth(I, s, v, node))
    if isinstance(b, ClsV) and getattr(b.cls, "is_enum", False):
        if isinstance(a, EnumM):
            return [(st, a.a[0] is b.cls)]
    out = []
    keys = isinstance(b, Ref) and st.o(b).kind == "dict"
    if isinstance(b, Ref) and st.o(b).kind == "dict" and isinstance(a, Tok) and a.kind == "msg":
        I.ev_event(st, "inspect", node, tok=a, how="hash")
    for s, items in to_items(I, st, b, node, ordered=True):
        if isinstance(items, Exc):
            out.append((s, items))
            continue
        res, unknown = False, None
        for x in items:
            if x == a and not isinstance(x, Seg):
                res = True
                break
            if isinstance(x, Seg):
                unknown = x
                continue
            if isinstance(x, Tok) and x.kind == "msg" or isinstance(a, Tok) and a.kind == "msg":
                I.ev_event(s, "inspect", node, tok=a if isinstance(a, Tok) else x, how="membership test")
                unknown = x
                continue
            r = veq(I, s, x, a)
            if r:
                res = True
                break
            if r is None:
                unknown = x
        if res:
            out.append((s, True))
        elif unknown is not None:
            out.extend(fork_bool(s, Tup(a, *[x for x in items if not isinstance(x, Seg)]), "in"))
        else:
            out.append((s, False))
    return out


def isinstance_(I, st, v, c, node):
    if isinstance(c, Tup):
        cur, out = [st], []
        for x in c.items:
            nxt = []
            for a in cur:
                for b, t in isinstance_(I, a, v, x, node):
                    (nxt.append(b) if t is False else out.append((b, t)))
            cur = nxt
        return out + [(a, False) for a in cur]
    if c == NONE:
        return is_op(I, st, v, NONE, node)
    of = c.cls if isinstance(c, ClsV) else c.path if isinstance(c, Ext) else None
    if of is None:
        _gap(f"isinstance with {c!r}")
    if isinstance(v, Tok) and v.kind in ("msg", "res"):
        if isinstance(c, ClsV) and c.cls.name.startswith("_"):
            return [(st, False)]
        I.ev_event(st, "inspect", node, tok=v, how=f"isinstance {of if isinstance(of, str) else of.name}")
        return fork_bool(st, v, f"isinstance {of if isinstance(of, str) else of.key}")
    if isinstance(v, Top):
        return fork2(st)
    if isinstance(v, Tok) and v.kind == "any":
        return fork_bool(st, v, f"isinstance {of if isinstance(of, str) else of.key}")
    cl = I.cls_of(st, v)
    if isinstance(v, Tup) and isinstance(of, str) and of.split(".")[-1] in ("Iterable", "Sequence", "Collection"):
        return [(st, True)]
    if cl is None:
        if isinstance(v, (Ext, Mod)):
            return [(st, False)]
        _gap(f"isinstance of {v!r}")
    if isinstance(v, K) and v.v is None:
        return [(st, isinstance(of, str) and of.split(".")[-1] in ("NoneType", "object"))]
    return [(st, bool(I.is_sub(cl, of)))]


# ---- containers ---------------------------------------------------------------------------------

def _capx(o):
    return {k: v for k, v in o.x.items() if k in ("cap",)}


def touch(st, r, shrunk=False, delta=None):
    """Container r changed (by `delta` entries, if known): adjust or forget its cached length; invalidate
    live iterators."""
    o = st.w(r)
    la = o.x.pop("lenatom", None)
    if la is not None and delta is not None:
        o.x["lenatom"] = fromnum(tonum(la) + Num((), delta, True))
    for oid, it in list(st.heap.items()):
        if it.kind == "iter" and it.x.get("src") == r and it.x.get("mode") == "live":
            st.w(oid).x["dirty"] = TRUE
    if shrunk:
        st.heads = frozenset()
    return o


def segs(o):
    return [x for x in o.items if isinstance(x, Seg)]


def nexp(o):
    return sum(1 for x in o.items if not isinstance(x, Seg))


def live_items(st, o):
    """Entries of a container; weak containers only show live referents."""
    if o.x.get("weak"):
        def alive(x):
            t = x.a[o.x["weak"] != WEAKKEY] if isinstance(x, Tup) else x
            return not (isinstance(t, Ref) and st.o(t).x.get("dead"))
        return [x for x in o.items if alive(x)]
    return o.items


def c_nonempty(I, st, r):
    o = st.o(r)
    if o.kind == "view":
        return c_nonempty(I, st, o.x["src"])
    its = live_items(st, o)
    if nexp(Obj("x", items=its)):
        return [(st, True)]
    sg = [x for x in its if isinstance(x, Seg)]
    if not sg:
        return [(st, False)]
    if any(x.lo for x in sg):
        return [(st, True)]
    z = seg_empty(st.clone(), r)
    w = st.w(r)
    i = next(i for i, x in enumerate(w.items) if isinstance(x, Seg))
    w.items[i] = w.items[i].with_lo(1)
    res = [(st, True)] if seg_nonempty(st, r) else []
    if z is not None:
        res.append((z, False))
    return res


def seg_nonempty(st, r):
    """Learn that the run of unknown length in r has an entry (lo was set); False if that contradicts."""
    o = st.o(r)
    if "lenatom" in o.x:
        f = add_fact(st.facts, tonum(o.x["lenatom"]) - Num((), nexp(o) + 1, True))
        if f is None:
            return False
        st.facts = f
    return True


def seg_empty(z, r):
    """z with the run(s) of unknown length in r known to be empty; None if that contradicts what is known."""
    o = z.o(r)
    if any(x.lo for x in segs(o)):
        return None
    n = Num((), nexp(o), True)
    cap = o.x.get("cap")
    if "lenatom" in o.x:
        d = tonum(o.x["lenatom"]) - n
        f = add_fact(z.facts, d)
        f = add_fact(f, -d) if f is not None else None
        if f is None:
            return None
        z.facts = f
    if o.x.get("full") is True and cap not in (None, NONE):
        d = tonum(cap) - n
        f = add_fact(z.facts, d)
        f = add_fact(f, -d) if f is not None else None
        if f is None:
            return None
        z.facts = f
    w = z.w(r)
    w.items = [x for x in w.items if not isinstance(x, Seg)]
    w.x["full"] = None
    w.x.pop("lenatom", None)
    return z


def c_len(I, st, r):
    """[(st, value)]"""
    o = st.o(r)
    if o.kind == "view":
        return c_len(I, st, o.x["src"])
    its = live_items(st, o)
    n = sum(1 for x in its if not isinstance(x, Seg))
    sg = [x for x in its if isinstance(x, Seg)]
    if not sg:
        return [(st, K(n))]
    if "lenatom" in o.x:
        return [(st, o.x["lenatom"])]
    cap = o.x.get("cap")
    capn = tonum(cap) if cap is not None and cap != NONE else None
    out = []
    lo = sum(x.lo for x in sg)
    full = o.x.get("full")
    if not lo:
        z = seg_empty(st.clone(), r)
        if z is not None:
            out.extend(c_len(I, z, r))
    if capn is not None and full is not False:
        f = st.clone()
        fa = add_fact(f.facts, capn - Num((), n + max(lo, 1), True))
        if fa is not None:
            f.facts = fa
            w = f.w(r)
            w.x["full"] = True
            w.x["lenatom"] = cap
            if len(sg) == 1:
                w.items = [x.with_lo(max(1, x.lo)) if isinstance(x, Seg) else x for x in w.items]
            out.append((f, cap))
    if full is not True:
        p = st.clone()
        a = iatom(p.fresh("n"))
        fa = add_fact(p.facts, a - Num((), n + max(lo, 1), True))
        if fa is not None and capn is not None:
            fa = add_fact(fa, capn - a, True)
        if fa is not None:
            p.facts = fa
            w = p.w(r)
            w.x["full"] = False if capn is not None else None
            w.x["lenatom"] = a
            if len(sg) == 1:
                w.items = [x.with_lo(max(1, x.lo)) if isinstance(x, Seg) else x for x in w.items]
            out.append((p, a))
    return out


def c_full(I, st, r):
    """[(st, bool)] whether a capped container is at capacity."""
    o = st.o(r)
    cap = o.x.get("cap")
    if cap is None or cap == NONE:
        return [(st, False)]
    if o.x.get("full") in (True, False) and segs(o):
        return [(st, o.x["full"])]
    out = []
    for s, n in c_len(I, st, r):
        d = tonum(cap) - tonum(n)
        for s2, t in num_eq0(s, d):
            s2.w(r).x["full"] = t
            out.append((s2, t))
    return out


def mat(I, st, r, side="l"):
    """Make the first (last) entry explicit: [(st, True)|(st, False)] (False: empty)."""
    o = st.o(r)
    if not o.items:
        return [(st, False)]
    i = 0 if side == "l" else len(o.items) - 1
    x = o.items[i]
    if not isinstance(x, Seg):
        return [(st, True)]
    out = []
    if not x.lo:
        z = seg_empty(st.clone(), r)
        if z is not None:
            out.extend(mat(I, z, r, side))
        if not seg_nonempty(st, r):
            return out
    w = st.w(r)
    if side == "l":
        t, rest = x.popl()
        w.items[i:i + 1] = [t, rest]
    else:
        t, rest = x.popr()
        w.items[i:i + 1] = [rest, t]
    out.append((st, True))
    return out


def norm_items(items):
    """Canonical content: explicit entries adjacent to the segment they were split from are merged back."""
    out = list(items)
    ch = True
    while ch:
        ch = False
        for i in range(len(out) - 1):
            a, b = out[i], out[i + 1]
            if isinstance(b, Seg) and isinstance(a, Tok) and isinstance(a.name, tuple) and a.name[0] == "s":
                if a.name[1] == b.a[1] and a.name[2] == b.a[2] - 1 and b.a[2] > 0:
                    out[i:i + 2] = [Seg(b.a[0], b.a[1], b.a[2] - 1, b.a[3], b.a[4] + 1)]
                    ch = True
                    break
            if isinstance(a, Seg) and isinstance(b, Tok) and isinstance(b.name, tuple) and b.name[0] == "s":
                if b.name[1] == a.a[1] and b.name[2] == -a.a[3] and a.a[3] > 0:
                    out[i:i + 2] = [Seg(a.a[0], a.a[1], a.a[2], a.a[3] - 1, a.a[4] + 1)]
                    ch = True
                    break
    return out


def append(I, st, r, v, node, side="r"):
    """deque/list append with maxlen semantics."""
    out = []
    for s, full in c_full(I, st, r):
        if full:
            for s2, ne in mat(I, s, r, "l" if side == "r" else "r"):
                o = touch(s2, r, delta=0)
                if ne:
                    old = o.items.pop(0 if side == "r" else -1)
                    I.ev_event(s2, "evict", node, obj=r, val=old)
                    o.items.insert(0 if side == "l" else len(o.items), v)
                    o.x["full"] = True if segs(o) else None
                else:
                    I.ev_event(s2, "evict", node, obj=r, val=v)
                out.append((s2, NONE))
        else:
            o = touch(s, r, delta=1)
            if side == "r":
                o.items.append(v)
            else:
                o.items.insert(0, v)
            o.x["full"] = None
            I.ev_event(s, "append", node, obj=r, val=v, side=side)
            out.append((s, NONE))
    return out


def pop(I, st, r, side, node):
    out = []
    for s, ne in mat(I, st, r, side):
        if not ne:
            out.extend(I.rz(s, "IndexError"))
            continue
        o = touch(s, r, shrunk=True, delta=-1)
        v = o.items.pop(0 if side == "l" else -1)
        o.x["full"] = False if o.x.get("cap") not in (None, NONE) and segs(o) else None
        I.ev_event(s, "pop", node, obj=r, val=v, side=side)
        out.append((s, v))
    return out


def mkset(I, st, kind, vals, node):
    out = []
    for v in vals:
        if isinstance(v, Tok) and v.kind == "msg":
            I.ev_event(st, "inspect", node, tok=v, how="hash")
        if any(x == v or veq(I, st, x, v) for x in out):
            continue
        out.append(v)
    return st.new(kind, items=out)


def setop(I, st, name, A, B):
    def inn(x, ys):
        return any(x == y or (not isinstance(x, Seg) and not isinstance(y, Seg) and veq(I, st, x, y)) for y in ys)
    if name in ("union", "update"):
        return A + [b for b in B if not inn(b, A)]
    if name.startswith("intersection"):
        return [a for a in A if inn(a, B)]
    if name.startswith("difference"):
        return [a for a in A if not inn(a, B)]
    return [a for a in A if not inn(a, B)] + [b for b in B if not inn(b, A)]


def dict_put(I, st, d, k, v, node):
    if isinstance(k, Tok) and k.kind == "msg":
        I.ev_event(st, "inspect", node, tok=k, how="hash")
    o = st.o(d)
    for i, p in enumerate(o.items):
        e = True if p.a[0] == k else veq(I, st, p.a[0], k)
        if e:
            st.w(d).items[i] = Tup(p.a[0], v)
            return
        if e is None and not isinstance(k, Tok):
            _gap(f"dict key equality of {p.a[0]!r} and {k!r}")
    touch(st, d).items.append(Tup(k, v))


def dict_find(I, st, d, k, node):
    """[(st, index|None)]"""
    if isinstance(k, Tok) and k.kind == "msg":
        I.ev_event(st, "inspect", node, tok=k, how="hash")
    its = st.o(d).items
    unk = []
    for i, p in enumerate(its):
        t = p.a[st.o(d).x.get("weak") != WEAKKEY]
        if st.o(d).x.get("weak") and isinstance(t, Ref) and st.o(t).x.get("dead"):
            continue
        e = True if p.a[0] == k else veq(I, st, p.a[0], k)
        if e:
            return [(st, i)]
        if e is None:
            unk.append(i)
    if unk:
        out = []
        cur = st
        for i in unk:
            nx = cur.clone()
            memo_put(cur, Tup(its[i].a[0], k), "eq", True)
            out.append((cur, i))
            cur = nx
        return out + [(cur, None)]
    return [(st, None)]


def getitem(I, st, v, i, node):
    if isinstance(v, Tup):
        if isinstance(i, K) and isinstance(i.v, int):
            if -len(v.items) <= i.v < len(v.items):
                return [(st, v.items[i.v])]
            return I.rz(st, "IndexError")
        if isinstance(i, Slice) and all(isinstance(x, K) for x in i.a):
            return [(st, Tup(*v.items[slice(*[x.v for x in i.a])]))]
        _gap("tuple index")
    if isinstance(v, Ref):
        o = st.o(v)
        if o.kind == "inst":
            nt = ntuple(I, st, v)
            if nt is not None:
                return getitem(I, st, Tup(*nt), i, node)
            m = None if isinstance(o.cls, str) else I.find_method(o.cls, "__getitem__")
            if m and m[1]:
                return I.call_fn(st, Fn(m[1], None), [v, i], {}, node)
            return I.rz(st, "TypeError")
        if o.kind == "dict":
            out = []
            for s, j in dict_find(I, st, v, i, node):
                if j is not None:
                    out.append((s, s.o(v).items[j].a[1]))
                elif "factory" in s.o(v).x:
                    for s2, nv in I.call(s, s.o(v).x["factory"], [], {}, node):
                        if not isinstance(nv, Exc):
                            dict_put(I, s2, v, i, nv, node)
                        out.append((s2, nv))
                else:
                    out.extend(I.rz(s, "KeyError", i))
            return out
        if o.kind in ("list", "deque"):
            if isinstance(i, K) and isinstance(i.v, int):
                side = "r" if i.v < 0 else "l"
                if (i.v in (0, -1)) or not segs(o):
                    out = []
                    for s, ne in (mat(I, st, v, side) if i.v in (0, -1) else [(st, True)]):
                        its = s.o(v).items
                        if not ne or not -len(its) <= i.v < len(its):
                            out.extend(I.rz(s, "IndexError"))
                        else:
                            out.append((s, its[i.v]))
                    return out
            if isinstance(i, Slice) and all(isinstance(x, K) for x in i.a) and o.kind == "list":
                if not segs(o):
                    return [(st, st.new("list", items=list(o.items[slice(*[x.v for x in i.a])])))]
                if i.a[0].v in (None, 0) and i.a[1].v is None and i.a[2].v in (None, 1):
                    return [(st, st.new("list", items=list(o.items)))]
            _gap("sequence index")
    if isinstance(v, Tok) and v.kind in ("msg", "res"):
        I.ev_event(st, "inspect", node, tok=v, how="indexing")
        return [(st, Top("msg item"))]
    if isinstance(v, ClsV) or isinstance(v, Ext):
        return [(st, v)]
    if isinstance(v, (App, Tok)) and I.cls_of(st, v) == "builtins.str":
        return [(st, App("strop", K("getitem"), v, i))]
    if isinstance(v, K) and isinstance(v.v, str) and isinstance(i, K):
        try:
            return [(st, K(v.v[i.v]))]
        except IndexError:
            return I.rz(st, "IndexError")
    _gap(f"indexing of {v!r}")


def setitem(I, st, v, i, x, node):
    if isinstance(v, Ref):
        o = st.o(v)
        if o.kind == "dict":
            dict_put(I, st, v, i, x, node)
            return [(st, NONE)]
        if o.kind in ("list", "deque") and isinstance(i, K) and not segs(o):
            if -len(o.items) <= i.v < len(o.items):
                st.w(v).items[i.v] = x
                return [(st, NONE)]
            return I.rz(st, "IndexError")
        if o.kind == "inst" and not isinstance(o.cls, str):
            m = I.find_method(o.cls, "__setitem__")
            if m and m[1]:
                return I.call_fn(st, Fn(m[1], None), [v, i, x], {}, node)
        if o.kind == "list" and isinstance(i, Slice) and all(a == NONE for a in i.a):
            out = []
            for s, items in to_items(I, st, x, node):
                if not isinstance(items, Exc):
                    touch(s, v).items[:] = items
                    out.append((s, NONE))
                else:
                    out.append((s, items))
            return out
    _gap(f"item store on {v!r}")


def delitem(I, st, v, i, node):
    if isinstance(v, Ref):
        o = st.o(v)
        if o.kind == "dict":
            out = []
            for s, j in dict_find(I, st, v, i, node):
                if j is None:
                    out.extend(I.rz(s, "KeyError", i))
                else:
                    del touch(s, v, True).items[j]
                    out.append((s, NONE))
            return out
        if o.kind in ("list", "deque") and isinstance(i, K) and isinstance(i.v, int):
            if i.v == 0 or i.v == -1:
                return [(s, x if isinstance(x, Exc) else NONE)
                        for s, x in pop(I, st, v, "l" if i.v == 0 else "r", node)]
            if not segs(o) and -len(o.items) <= i.v < len(o.items):
                del touch(st, v, True).items[i.v]
                return [(st, NONE)]
        if o.kind == "list" and isinstance(i, Slice) and not segs(o) and all(isinstance(x, K) for x in i.a):
            del touch(st, v, True).items[slice(*[x.v for x in i.a])]
            return [(st, NONE)]
    _gap("del item")


# ---- iteration ----------------------------------------------------------------------------------

def get_iter(I, st, v, node):
    """[(st, iterator Ref|Exc)]"""
    if isinstance(v, Ref):
        o = st.o(v)
        if o.kind == "iter":
            return [(st, v)]
        if o.kind == "view":
            src = st.o(o.x["src"])
            its = _view_items(st, o)
            return [(st, st.new("iter", items=its, src=o.x["src"], mode="live"))]
        if o.kind == "dict":
            return [(st, st.new("iter", items=[p.a[0] if isinstance(p, Tup) else p for p in live_items(st, o)],
                                src=v, mode="live"))]
        if o.kind in ("set", "frozenset"):
            return [(st, st.new("iter", items=list(live_items(st, o)), src=v, mode="live", unordered=TRUE))]
        if o.kind == "deque":
            return [(st, st.new("iter", items=list(o.items), src=v, mode="live"))]
        if o.kind == "list":
            return [(st, st.new("iter", items=[], src=v, mode="index", idx=K(0)))]
        if o.kind == "inst" and not isinstance(o.cls, str):
            m = I.find_method(o.cls, "__iter__")
            if m and m[1]:
                return I.call_fn(st, Fn(m[1], None), [v], {}, node)
            nt = ntuple(I, st, v)
            if nt is not None:
                return [(st, st.new("iter", items=nt))]
            return I.rz(st, "TypeError")
    if isinstance(v, Tup):
        return [(st, st.new("iter", items=list(v.items)))]
    if isinstance(v, ClsV) and getattr(v.cls, "is_enum", False):
        return [(st, st.new("iter", items=enum_members(st, v.cls)))]
    if isinstance(v, Tok) and v.kind == "iterable":
        return [(st, st.new("iter", items=list(v.a[2]) if len(v.a) > 2 else []))]
    if isinstance(v, Tok) and v.kind in ("msg", "res"):
        I.ev_event(st, "inspect", node, tok=v, how="iteration")
        return [(st, st.new("iter", items=[]))]
    if isinstance(v, K):
        if isinstance(v.v, (str, bytes)):
            return [(st, st.new("iter", items=[K(x) for x in v.v]))]
        return I.rz(st, "TypeError")
    if isinstance(v, Num) or isinstance(v, Fn):
        return I.rz(st, "TypeError")
    _gap(f"iteration over {v!r}")


def _view_items(st, o):
    src = st.o(o.x["src"])
    m = o.x["what"]
    its = live_items(st, src)
    if any(isinstance(p, Seg) for p in its):
        _gap("iteration over an abstract dict")
    return [p.a[0] if m == "keys" else p.a[1] if m == "values" else Tup(p.a[0], p.a[1]) for p in its]


def enum_members(st, cls):
    return [EnumM(cls, n) for n in st.o(cls.oid).f if not n.startswith("_")]


def iter_next(I, st, it, node):
    """[(st, value | None (exhausted) | Exc)]"""
    o = st.o(it)
    if o.kind != "iter":
        if o.kind == "inst":
            m = I.find_method(o.cls, "__next__")
            if m and m[1]:
                out = []
                for s, v in I.call_fn(st, Fn(m[1], None), [it], {}, node):
                    if isinstance(v, Exc) and I.exc_is(s, v.ref, "StopIteration"):
                        out.append((s, None))
                    else:
                        out.append((s, v))
                return out
        _gap("next() of an unknown iterator")
    if o.x.get("mode") == "index":
        src = st.o(o.x["src"])
        i = o.x["idx"].v
        if segs(src):
            _gap("indexed iteration over an abstract list")
        if i >= len(src.items):
            return [(st, None)]
        st.w(it).x["idx"] = K(i + 1)
        return [(st, src.items[i])]
    if o.x.get("dirty") == TRUE:
        # CPython raises RuntimeError for dict/set/deque mutated during iteration
        if not (o.x.get("mode") == "live" and False):
            if o.items or st.o(o.x["src"]).kind != "deque":
                return I.rz(st, "RuntimeError", K("changed size during iteration")) \
                    if (o.items or _grew(st, o)) else [(st, None)]
    if not o.items:
        return [(st, None)]
    if o.x.get("unordered") == TRUE and len(o.items) > 1:
        if any(isinstance(x, Seg) for x in o.items):
            _gap("iteration over an abstract set")
        out = []
        n = len(o.items)
        for i in range(n):
            s = st.clone() if i < n - 1 else st
            v = s.w(it).items.pop(i)
            out.append((s, v))
        return out
    if isinstance(o.items[0], Seg):
        out = []
        x = o.items[0]
        if not x.lo:
            z = st.clone()
            z.w(it).items.pop(0)
            out.extend(iter_next(I, z, it, node))
        t, rest = x.popl()
        w = st.w(it)
        w.items[0] = rest
        st.heads = frozenset()
        return out + [(st, t)]
    w = st.w(it)
    v = w.items.pop(0)
    return [(st, v)]


def _grew(st, o):
    return True


def ntuple(I, st, v):
    """The fields of an instance of a typing.NamedTuple, or None."""
    o = st.o(v)
    if o.kind != "inst" or isinstance(o.cls, str) or not any(
            isinstance(b, str) and b.split(".")[-1] == "NamedTuple" for b in I.mro(o.cls)):
        return None
    names = [n for c in reversed([c for c in I.mro(o.cls) if not isinstance(c, str)])
             for n, _, ann in c.assigns if ann]
    return [o.f[n] for n in names]


def to_items(I, st, v, node, ordered=False):
    """[(st, python list of entries (may contain Seg)|Exc)].  ordered: order does not matter to the caller."""
    if isinstance(v, Tup):
        return [(st, list(v.items))]
    if isinstance(v, Ref):
        o = st.o(v)
        if o.kind in ("list", "deque"):
            return [(st, list(o.items))]
        if o.kind == "dict":
            return [(st, [p.a[0] if isinstance(p, Tup) else p for p in live_items(st, o)])]
        if o.kind == "view":
            return [(st, _view_items(st, o))]
        if o.kind in ("set", "frozenset"):
            its = list(live_items(st, o))
            if ordered or len(its) < 2 or any(isinstance(x, Seg) for x in its):
                return [(st, its)]
            out = []
            for p in itertools.permutations(its):
                out.append((st.clone(), list(p)))
            return out
        if o.kind == "iter":
            if o.x.get("mode") == "index":
                src = st.o(o.x["src"])
                its = list(src.items[o.x["idx"].v:])
                st.w(it_ref(v)).x["idx"] = K(len(src.items))
                return [(st, its)]
            its = list(o.items)
            un = o.x.get("unordered") == TRUE and len(its) > 1 and not ordered
            out = []
            for p in (itertools.permutations(its) if un else [its]):
                s = st.clone()
                s.w(v).items = []
                out.append((s, list(p)))
            return out
        if o.kind == "inst":
            out = []
            for s, it in get_iter(I, st, v, node):
                if isinstance(it, Exc):
                    out.append((s, it))
                else:
                    if s.o(it).kind != "iter":
                        _gap("materialising a user iterator")
                    out.extend(to_items(I, s, it, node, ordered))
            return out
    if isinstance(v, ClsV) and getattr(v.cls, "is_enum", False):
        return [(st, enum_members(st, v.cls))]
    if isinstance(v, Tok) and v.kind == "iterable":
        return [(st, list(v.a[2]))]
    if isinstance(v, K) and isinstance(v.v, (tuple, str)):
        return [(st, [K(x) for x in v.v])]
    if isinstance(v, Tok) and v.kind in ("msg", "res"):
        I.ev_event(st, "inspect", node, tok=v, how="iteration")
        return [(st, [])]
    if isinstance(v, K):
        return I.rz(st, "TypeError")
    _gap(f"iterating {v!r}")


def it_ref(v):
    return v


# ---- context managers ---------------------------------------------------------------------------

def _lock(st, r):
    o = st.o(r)
    return o.x["lock"] if o.kind == "cond" else r


def acquire(I, st, r, node):
    lk = _lock(st, r)
    if st.o(lk).x.get("held") == TRUE:
        I.ev_event(st, "deadlock", node, obj=r)
        return []          # this path never continues
    st.w(lk).x["held"] = TRUE
    I.ev_event(st, "acquire", node, obj=r)
    return [(st, TRUE)]


def release(I, st, r, node):
    lk = _lock(st, r)
    if st.o(lk).x.get("held") != TRUE:
        return I.rz(st, "RuntimeError", K("lock not acquired"))
    st.w(lk).x["held"] = FALSE
    I.ev_event(st, "release", node, obj=r)
    return [(st, NONE)]


def cm_enter(I, st, cm, isasync, node):
    if isinstance(cm, Ref):
        o = st.o(cm)
        if o.kind in ("cond", "lock"):
            if not isasync:
                return I.rz(st, "TypeError")
            return [(s, NONE if not isinstance(v, Exc) else v) for s, v in acquire(I, st, cm, node)]
        if o.kind == "suppress":
            return [(st, NONE)]
        if o.kind == "nullcm":
            return [(st, o.x.get("val", NONE))]
        if o.kind == "tmo":
            return [(st, cm)] if isasync else I.rz(st, "TypeError")
        if o.kind == "inst" and not isinstance(o.cls, str):
            nm = "__aenter__" if isasync else "__enter__"
            res = I.call_method(st, cm, nm, [], {}, node)
            return I.then(res, lambda s, v: I.await_(s, v, node)) if isasync else res
        if o.kind == "cmgen":
            return _cmgen_enter(I, st, cm, isasync, node)
    _gap(f"context manager {cm!r}")


def cm_exit(I, st, cm, exc, isasync, node):
    """[(st, True (suppress)|other|Exc)]"""
    o = st.o(cm)
    if o.kind in ("cond", "lock"):
        return release(I, st, cm, node)
    if o.kind == "suppress":
        if exc is not None and any(I.matches_exc(st, exc, t, node) for t in o.items):
            I.ev_event(st, "caught", node, exc=exc)
            return [(st, True)]
        return [(st, NONE)]
    if o.kind == "nullcm":
        return [(st, NONE)]
    if o.kind == "tmo":
        if exc is not None and st.o(exc).f.get("~tmo") == cm:
            r = I.rz(st, "TimeoutError")
            st.w(r[0][1].ref).f["__cause__"] = exc
            return r
        return [(st, NONE)]
    if o.kind == "inst":
        nm = "__aexit__" if isasync else "__exit__"
        a = [NONE, NONE, NONE]
        if exc is not None:
            c = st.o(exc).cls
            a = [Ext(c) if isinstance(c, str) else ClsV(c), exc, NONE]
        res = I.call_method(st, cm, nm, a, {}, node)
        if isasync:
            res = I.then(res, lambda s, v: I.await_(s, v, node))
        out = []
        for s, v in res:
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend((s2, t if isinstance(t, Exc) else (True if t else NONE))
                           for s2, t in truth(I, s, v, node))
        return out
    _gap("context manager exit")


def _cmgen_enter(I, st, cm, isasync, node):
    _gap("generator based context manager")


# ---- attributes of modelled objects --------------------------------------------------------------

DATA = {"deque": {"maxlen": "cap"}}
PYTYPE = {"deque": collections.deque, "list": list, "set": set, "frozenset": frozenset, "dict": dict,
          "aevent": asyncio.Event, "lock": asyncio.Lock, "cond": asyncio.Condition, "task": asyncio.Task,
          "agen": types.AsyncGeneratorType, "xagen": types.AsyncGeneratorType}
INST_ATTRS = {"cond": ("locked", "acquire", "release")}  # set by __init__, so not attributes of the class



def obj_getattr(I, st, v, o, name, node):
    if o.kind == "deque" and name == "maxlen":
        return [(st, o.x.get("cap", NONE))]
    if o.kind == "task" and name == "_state":
        _gap("task internals")
    if o.kind in ("frame", "module", "clsobj"):
        return I.rz(st, "AttributeError", K(name))
    t = PYTYPE.get(o.kind)
    if t is not None and not hasattr(t, name) and name not in INST_ATTRS.get(o.kind, ()):
        return I.rz(st, "AttributeError", K(name))
    return [(st, ExtM(v, name))]


def val_getattr(I, st, v, name, node):
    if isinstance(v, Td):
        if name == "total_seconds":
            return [(st, ExtM(v, name))]
        if name in ("days", "seconds", "microseconds"):
            if v.us.const is not None:
                import datetime
                return [(st, K(getattr(datetime.timedelta(microseconds=int(v.us.c)), name)))]
            day = Num((), 86400 * 10 ** 6, True)
            sec = Num((), 10 ** 6, True)
            d = fdiv(st, v.us, day)
            if name == "days":
                return [(st, fromnum(d))]
            r = v.us - d.scale(86400 * 10 ** 6)
            s = fdiv(st, r, sec)
            return [(st, fromnum(s if name == "seconds" else r - s.scale(10 ** 6)))]
    if isinstance(v, Tok) and v.kind in ("msg", "res"):
        I.ev_event(st, "inspect", node, tok=v, how=f"attribute {name}")
        return [(st, Top(f"msg.{name}"))]
    if isinstance(v, App) and v.a[0] == "Path":
        if name in ("name", "stem", "suffix", "anchor", "root", "drive"):
            # different paths may have the same last component
            return [(s, App("strop", K(name), App("Path", K("<any>"))) if same else App("strop", K(name), v))
                    for s, same in fork_bool(st, K("paths"), ("same", name))]
        if name == "parent":
            return [(st, App("Path", App("strop", K(name), v)))]
        if name in ("parts", "suffixes", "parents"):
            _gap(f"Path.{name}")
    if isinstance(v, (Tok, App)):
        return [(st, ExtM(v, name))]
    if isinstance(v, K):
        if v.v is None:
            return I.rz(st, "AttributeError", K(f"None.{name}"))
        return [(st, ExtM(v, name))]
    if isinstance(v, (Num, Tup, Coro, Aw)):
        return [(st, ExtM(v, name))]
    if isinstance(v, (Fn, Bound, ExtM, Partial)):
        if name == "__self__" and isinstance(v, Bound):
            return [(st, v.selfv)]
        if name in ("__name__", "__qualname__"):
            return [(st, K(v.a[0].name) if isinstance(v, Fn) else App("str", K(repr(v))))]
        return [(st, App("fnattr", K(name)))]
    if isinstance(v, Top):
        return [(st, Top(f"{v!r}.{name}"))]
    if isinstance(v, EnumM):
        return I.rz(st, "AttributeError", K(name))
    _gap(f"attribute {name} of {v!r}")


def ext_inst_getattr(I, st, v, o, name, node):
    if name in o.f:
        return [(st, o.f[name])]
    if name in ("__traceback__", "__notes__", "__suppress_context__"):
        return [(st, NONE)]
    if name == "value" and I.exc_is(st, v, "StopIteration"):
        a = o.f.get("args", Tup()).items
        return [(st, a[0] if a else NONE)]
    return [(st, ExtM(v, name))]


# ---- calls --------------------------------------------------------------------------------------

def call_extm(I, st, fv, args, kwargs, node):
    v, name = fv.recv, fv.name
    if isinstance(v, Ref):
        o = st.o(v)
        f = globals().get(f"m_{o.kind}")
        if f is not None:
            return f(I, st, v, o, name, args, kwargs, node)
        if o.kind == "inst":
            return m_inst(I, st, v, o, name, args, kwargs, node)
        _gap(f"method {name} of {o.kind}")
    if isinstance(v, Tok):
        if v.kind == "logger":
            if name in ("debug", "info", "warning", "error", "critical", "exception", "log", "warn"):
                if name == "log":
                    lv = args[0] if args else NONE
                    if isinstance(lv, Ext) and lv.path.startswith("logging."):
                        name = lv.path.split(".")[-1].lower()
                    elif isinstance(lv, K) and isinstance(lv.v, int):
                        name = "warning" if lv.v >= 30 else "info"
                    else:
                        _gap(f"log level {lv!r}")
                    args = args[1:]
                I.ev_event(st, "log", node, logger=v, level=name, args=args)
                return [(st, NONE)]
            if name == "isEnabledFor":
                return [(st, TRUE)]  # what is logged matters only where somebody listens
            if name in ("getChild",):
                return [(st, v)]
        if v.kind == "loop":
            if name in ("is_running",):
                return [(s, kb(t)) for s, t in fork_bool(st, v, "running")]
            if name in ("is_closed",):
                return [(s, kb(t)) for s, t in fork_bool(st, v, "loopclosed")]
            if name == "create_future":
                return x_future(I, st, (), {"loop": v}, node)
            if name == "create_task":
                return x_create_task(I, st, args, kwargs, node)
            if name == "time":
                return I.hooks.loop_time(I, st, v, node)
        if v.kind in ("str",):
            return [(st, App("strop", K(name), v, *args))]
        if v.kind in ("msg", "res"):
            I.ev_event(st, "inspect", node, tok=v, how=f"call of method {name}")
            return [(st, Top("msg method"))]
        return I.hooks.tok_method(I, st, v, name, args, kwargs, node)
    if isinstance(v, K) and isinstance(v.v, str):
        if name == "join":
            out = []
            for s, items in to_items(I, st, args[0], node, ordered=True):
                if isinstance(items, Exc):
                    out.append((s, items))
                elif all(isinstance(x, K) for x in items):
                    out.append((s, K(v.v.join(x.v for x in items))))
                else:
                    I.ev_event(s, "format", node, vals=items)
                    out.append((s, App("strop", K("join"), v, Tup(*items))))
            return out
        if all(isinstance(a, K) for a in args) and not kwargs and hasattr("", name):
            try:
                r = getattr(v.v, name)(*[a.v for a in args])
            except Exception:
                return I.rz(st, "ValueError")
            if isinstance(r, (str, bool, int)):
                return [(st, K(r))]
        I.ev_event(st, "format", node, vals=list(args) + list(kwargs.values()))
        return [(st, App("strop", K(name), v, *args, *kwargs.values()))]
    if isinstance(v, App) and I.cls_of(st, v) == "builtins.str":
        return [(st, App("strop", K(name), v, *args))]
    if isinstance(v, App) and v.a[0] == "Path":
        if name in ("resolve", "exists", "is_file", "is_dir", "stat", "read_text", "read_bytes", "open",
                    "iterdir", "glob", "mkdir", "touch", "unlink", "is_symlink"):
            I.ev_event(st, "blocking", node, path=f"pathlib.Path.{name}")
        if name in ("resolve", "absolute", "expanduser", "with_name", "with_suffix", "joinpath", "relative_to"):
            return [(st, App("Path", App("strop", K(name), v, *args)))]
        if name in ("as_posix", "__str__", "__fspath__"):
            return [(st, App("str", v) if name != "as_posix" else App("strop", K(name), v))]
        return [(st, App("pathop", K(name), v, *args))]
    if isinstance(v, Td) and name == "total_seconds":
        r = v.us.scale(Fraction(1, 10 ** 6))
        return [(st, fromnum(Num(r.t, r.c, False)))]
    if isinstance(v, (Num, K)) and name == "is_integer":
        n = tonum(v)
        if n.integral():
            return [(st, TRUE)]
        return [(s, kb(t)) for s, t in fork2(st)]
    if isinstance(v, Coro) and name in ("close",):
        return [(st, NONE)]
    if isinstance(v, Tup) and name == "index":
        for i, x in enumerate(v.items):
            r = veq(I, st, x, args[0])
            if r:
                return [(st, K(i))]
            if r is None:
                _gap("tuple.index")
        return I.rz(st, "ValueError")
    if isinstance(v, Ext):
        return call_ext(I, st, f"{v.path}.{name}", args, kwargs, node)
    _gap(f"method {name} of {v!r}")


def call_tok(I, st, fv, args, kwargs, node):
    return I.hooks.call_tok(I, st, fv, args, kwargs, node)


def wref_call(I, st, r, node):
    t = st.o(r).f.get("target")
    if t is None or t == NONE or st.o(t).x.get("dead"):
        return [(st, NONE)]
    return [(st, t)]


def m_inst(I, st, v, o, name, args, kwargs, node):
    if name in ("with_traceback",):
        return [(st, v)]
    if name in ("add_note",):
        return [(st, NONE)]
    if name in ("__str__", "super.__str__"):
        return [(st, App("str", v))]
    if name in ("__repr__", "super.__repr__"):
        return [(st, App("repr", v))]
    if name in ("__hash__", "super.__hash__"):
        return [(st, App("hash", v))]
    if name in ("__eq__", "super.__eq__"):
        return [(st, kb(v == args[0]))]
    if name == "super.__init__":
        return [(st, NONE)]
    _gap(f"method {name} of an instance of {getattr(o.cls, 'name', o.cls)}")


def m_deque(I, st, v, o, name, args, kwargs, node):
    if name == "append":
        return append(I, st, v, args[0], node)
    if name == "appendleft":
        return append(I, st, v, args[0], node, "l")
    if name == "popleft":
        return pop(I, st, v, "l", node)
    if name == "pop" and not args:
        return pop(I, st, v, "r", node)
    if name == "clear":
        o = touch(st, v, True)
        o.items = []
        o.x["full"] = None
        I.ev_event(st, "clear", node, obj=v)
        return [(st, NONE)]
    if name in ("extend", "extendleft"):
        return _extend(I, st, v, args[0], node, "r" if name == "extend" else "l")
    if name == "copy":
        return [(st, st.new("deque", items=list(o.items), **{k: x for k, x in o.x.items() if k in ("cap", "full")}))]
    if name == "__len__":
        return c_len(I, st, v)
    if name == "remove":
        return m_list(I, st, v, o, name, args, kwargs, node)
    if name == "insert":
        if args[0] == K(0):
            return append(I, st, v, args[1], node, "l")
    if name == "rotate" and not segs(o):
        n = args[0].v if args else 1
        its = o.items
        if its:
            n %= len(its)
            touch(st, v).items = its[-n:] + its[:-n] if n else its
        return [(st, NONE)]
    _gap(f"deque.{name}")


def _extend(I, st, v, src, node, side):
    out = []
    for s, items in to_items(I, st, src, node):
        if isinstance(items, Exc):
            out.append((s, items))
            continue
        o = s.o(v)
        if any(isinstance(x, Seg) for x in items):
            if o.x.get("cap") not in (None, NONE):
                if o.items or side == "l" or not isinstance(src, Ref):
                    _gap("extend of a bounded container by an abstract one")
                out += _fill(I, s, v, src, node)
                continue
            if side == "l":
                _gap("extend of a container by an abstract one on the left")
            touch(s, v).items.extend(items)
            out.append((s, NONE))
            continue
        cur = [(s, NONE)]
        for x in items:
            cur = I.then(cur, lambda a, _, x=x: append(I, a, v, x, node, side))
        out.extend(cur)
    return out


def _fill(I, st, v, src, node):
    """An empty bounded container takes the content of another one: what exceeds its capacity is discarded."""
    out = []
    for s, n in c_len(I, st, src):
        d = tonum(s.o(v).x["cap"]) - tonum(n)
        for s2, fits in num_ge0(s, d):
            items = [x for x in s2.o(src).items]
            if fits:
                w = touch(s2, v)
                w.items = items
                if segs(w) and not isinstance(n, K):
                    w.x["lenatom"] = n
                w.x["full"] = None
                out.append((s2, NONE))
                continue
            if d.t or -d.c > 3:
                _gap("extend of a bounded container by an abstract one")
            cur = [(s2, items)]
            for _ in range(int(-d.c)):
                nxt = []
                for s3, its in cur:
                    if isinstance(its[0], Seg):
                        s3 = s3.clone()
                        tok, rest = its[0].popl()
                        its = [tok, rest] + its[1:]
                    I.ev_event(s3, "evict", node, obj=v, val=its[0])
                    nxt.append((s3, its[1:]))
                cur = nxt
            for s3, its in cur:
                w = touch(s3, v)
                w.items = its
                w.x["full"] = True
                out.append((s3, NONE))
    return out


def m_list(I, st, v, o, name, args, kwargs, node):
    if name == "append":
        return append(I, st, v, args[0], node)
    if name == "extend":
        return _extend(I, st, v, args[0], node, "r")
    if name == "insert" and isinstance(args[0], K) and not segs(o):
        touch(st, v).items.insert(args[0].v, args[1])
        return [(st, NONE)]
    if name == "insert" and args[0] == K(0):
        return append(I, st, v, args[1], node, "l")
    if name == "pop":
        i = args[0].v if args else -1
        if i in (0, -1):
            return pop(I, st, v, "l" if i == 0 else "r", node)
        if not segs(o) and -len(o.items) <= i < len(o.items):
            x = touch(st, v, True).items.pop(i)
            return [(st, x)]
        return I.rz(st, "IndexError")
    if name == "clear":
        touch(st, v, True).items = []
        return [(st, NONE)]
    if name == "copy":
        return [(st, st.new("list", items=list(o.items)))]
    if name in ("remove", "index", "count"):
        for i, x in enumerate(o.items):
            if isinstance(x, Seg):
                break
            r = True if x == args[0] else veq(I, st, x, args[0])
            if isinstance(x, Tok) and x.kind == "msg":
                I.ev_event(st, "inspect", node, tok=x, how=f"list.{name}")
            if r and name == "remove":
                del touch(st, v, True).items[i]
                return [(st, NONE)]
            if r and name == "index":
                return [(st, K(i))]
            if r is None:
                _gap(f"list.{name}")
        else:
            if name == "count":
                _gap("list.count")
            return I.rz(st, "ValueError")
        _gap(f"list.{name}")
    if name == "sort":
        if len(o.items) < 2:
            return [(st, NONE)]
        if segs(o):
            _gap("sort of an abstract list")
        out = []
        for p in itertools.permutations(o.items):
            s = st.clone()
            s.w(v).items = list(p)
            out.append((s, NONE))
        return out
    if name == "reverse" and not segs(o):
        st.w(v).items.reverse()
        return [(st, NONE)]
    if name == "__len__":
        return c_len(I, st, v)
    _gap(f"list.{name}")


def m_set(I, st, v, o, name, args, kwargs, node):
    if name == "add":
        if isinstance(args[0], Tok) and args[0].kind == "msg":
            I.ev_event(st, "inspect", node, tok=args[0], how="hash")
        for x in o.items:
            if x == args[0] or veq(I, st, x, args[0]):
                return [(st, NONE)]
        touch(st, v).items.append(args[0])
        return [(st, NONE)]
    if name in ("discard", "remove"):
        for i, x in enumerate(o.items):
            r = True if x == args[0] else veq(I, st, x, args[0])
            if r:
                del touch(st, v, True).items[i]
                return [(st, NONE)]
            if r is None:
                _gap("set.discard of an unknown element")
        return I.rz(st, "KeyError") if name == "remove" else [(st, NONE)]
    if name == "pop":
        if not o.items:
            return I.rz(st, "KeyError")
        out = []
        n = len(o.items)
        for i in range(n):
            s = st.clone() if i < n - 1 else st
            w = touch(s, v, True)
            x = w.items[i]
            if isinstance(x, Seg):
                if not x.lo:
                    z = s.clone()
                    del z.w(v).items[i]
                    out.extend(m_set(I, z, v, z.o(v), name, args, kwargs, node))
                t, rest = x.popl()
                w.items[i] = rest
                I.ev_event(s, "pop", node, obj=v, val=t, side="any")
                out.append((s, t))
            else:
                del w.items[i]
                I.ev_event(s, "pop", node, obj=v, val=x, side="any")
                out.append((s, x))
        return out
    if name == "clear":
        touch(st, v, True).items = []
        I.ev_event(st, "clear", node, obj=v)
        return [(st, NONE)]
    if name == "copy":
        return [(st, st.new(o.kind, items=list(live_items(st, o))))]
    if name in ("update", "difference_update", "intersection_update"):
        cur = [(st, NONE)]
        for a in args:
            def go(s, _, a=a):
                out = []
                for s2, B in to_items(I, s, a, node, ordered=True):
                    if isinstance(B, Exc):
                        out.append((s2, B))
                        continue
                    A = s2.o(v).items
                    new = setop(I, s2, name, list(A), B)
                    if new != A:
                        touch(s2, v, len(new) < len(A)).items = new
                    out.append((s2, NONE))
                return out
            cur = I.then(cur, go)
        return cur
    if name in ("union", "difference", "intersection", "symmetric_difference"):
        cur = [(st, list(live_items(st, o)))]
        for a in args:
            def go2(s, A, a=a):
                return [(s2, B if isinstance(B, Exc) else setop(I, s2, name, A, B))
                        for s2, B in to_items(I, s, a, node, ordered=True)]
            cur = I.then(cur, go2)
        return I.then(cur, lambda s, A: [(s, s.new(o.kind if o.kind != "view" else "set", items=A))])
    if name in ("issubset", "issuperset", "isdisjoint"):
        out = []
        for s, B in to_items(I, st, args[0], node, ordered=True):
            A = s.o(v).items
            r = {"issubset": all(x in B for x in A), "issuperset": all(x in A for x in B),
                 "isdisjoint": not any(x in B for x in A)}[name]
            out.append((s, kb(r)))
        return out
    if name == "__len__":
        return c_len(I, st, v)
    _gap(f"set.{name}")


m_frozenset = m_set


def m_dict(I, st, v, o, name, args, kwargs, node):
    if name in ("items", "keys", "values"):
        return [(st, st.new("view", src=v, what=name))]
    if name == "get":
        out = []
        for s, j in dict_find(I, st, v, args[0], node):
            out.append((s, s.o(v).items[j].a[1] if j is not None else (args[1] if len(args) > 1 else NONE)))
        return out
    if name == "pop":
        out = []
        for s, j in dict_find(I, st, v, args[0], node):
            if j is not None:
                p = s.o(v).items[j]
                del touch(s, v, True).items[j]
                out.append((s, p.a[1]))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                out.extend(I.rz(s, "KeyError", args[0]))
        return out
    if name == "setdefault":
        out = []
        for s, j in dict_find(I, st, v, args[0], node):
            if j is not None:
                out.append((s, s.o(v).items[j].a[1]))
            else:
                dict_put(I, s, v, args[0], args[1] if len(args) > 1 else NONE, node)
                out.append((s, args[1] if len(args) > 1 else NONE))
        return out
    if name == "clear":
        touch(st, v, True).items = []
        return [(st, NONE)]
    if name == "copy":
        return [(st, st.new("dict", items=list(o.items)))]
    if name == "popitem":
        if not o.items:
            return I.rz(st, "KeyError")
        p = touch(st, v, True).items.pop()
        return [(st, Tup(p.a[0], p.a[1]))]
    if name == "update":
        for k, x in kwargs.items():
            dict_put(I, st, v, K(k), x, node)
        if args:
            if isinstance(args[0], Ref) and st.o(args[0]).kind == "dict":
                for p in st.o(args[0]).items:
                    dict_put(I, st, v, p.a[0], p.a[1], node)
            else:
                out = []
                for s, items in to_items(I, st, args[0], node):
                    if isinstance(items, Exc):
                        out.append((s, items))
                        continue
                    for p in items:
                        dict_put(I, s, v, p.a[0], p.a[1], node)
                    out.append((s, NONE))
                return out
        return [(st, NONE)]
    if name == "__len__":
        return c_len(I, st, v)
    _gap(f"dict.{name}")


def m_view(I, st, v, o, name, args, kwargs, node):
    if name in ("isdisjoint", "union", "difference", "intersection"):
        return m_set(I, st, v, Obj("view", items=_view_items(st, o)), name, args, kwargs, node)
    _gap(f"dict view method {name}")


def m_iter(I, st, v, o, name, args, kwargs, node):
    if name == "__next__":
        return x_next(I, st, [v], {}, node)
    if name == "__iter__":
        return [(st, v)]
    if name == "close":
        st.w(v).items = []
        return [(st, NONE)]
    _gap(f"iterator method {name}")


def m_cond(I, st, v, o, name, args, kwargs, node):
    lk = st.o(_lock(st, v))
    if name == "acquire":
        return [(st, Aw("acquire", v))]
    if name == "release":
        return release(I, st, v, node)
    if name == "locked":
        return [(st, kb(lk.x.get("held") == TRUE))]
    if name == "wait":
        return [(st, Aw("cvwait", v))]
    if name == "wait_for":
        return [(st, Aw("cvwaitfor", v, args[0]))]
    if name in ("notify", "notify_all"):
        if lk.x.get("held") != TRUE:
            return I.rz(st, "RuntimeError", K("cannot notify on un-acquired lock"))
        n = K(1)
        if name == "notify":
            n = args[0] if args else kwargs.get("n", K(1))
        else:
            n = K("all")
        I.ev_event(st, "notify", node, obj=v, n=n)
        I.hooks.on_notify(I, st, v, n, node)
        return [(st, NONE)]
    _gap(f"Condition.{name}")


def m_lock(I, st, v, o, name, args, kwargs, node):
    if name == "acquire":
        return [(st, Aw("acquire", v))]
    if name == "release":
        return release(I, st, v, node)
    if name == "locked":
        return [(st, kb(o.x.get("held") == TRUE))]
    _gap(f"Lock.{name}")


def m_aevent(I, st, v, o, name, args, kwargs, node):
    if name == "set":
        st.w(v).x["flag"] = TRUE
        I.ev_event(st, "event_set", node, obj=v)
        I.hooks.on_event_set(I, st, v, node)
        return [(st, NONE)]
    if name == "clear":
        st.w(v).x["flag"] = FALSE
        I.ev_event(st, "event_clear", node, obj=v)
        return [(st, NONE)]
    if name == "is_set":
        return [(st, o.x["flag"])]
    if name == "wait":
        return [(st, Aw("evwait", v))]
    _gap(f"Event.{name}")


def m_task(I, st, v, o, name, args, kwargs, node):
    s = o.x["status"].v
    if name == "done":
        return [(st, kb(s != "pending"))]
    if name == "cancelled":
        return [(st, kb(s == "cancelled"))]
    if name == "cancel":
        if s != "pending":
            return [(st, FALSE)]
        st.w(v).x["creq"] = TRUE
        I.ev_event(st, "task_cancel", node, task=v)
        return [(st, TRUE)]
    if name in ("result", "exception"):
        if s == "pending":
            return I.rz(st, "asyncio.exceptions.InvalidStateError")
        if s == "cancelled":
            return I.rz(st, "asyncio.exceptions.CancelledError")
        I.ev_event(st, "task_" + name, node, task=v)
        if name == "result":
            st.w(v).x["retrieved"] = TRUE
            if o.x.get("exc", NONE) != NONE:
                return [(st, Exc(o.x["exc"]))]
            return [(st, o.x["result"])]
        return [(st, o.x.get("exc", NONE))]
    if name == "get_name":
        return [(st, o.x["name"])]
    if name == "set_name":
        st.w(v).x["name"] = to_str(I, st, args[0])
        return [(st, NONE)]
    if name in ("get_loop",):
        return [(st, Tok("loop", "running"))]
    if name == "get_coro":
        return [(st, o.f["coro"])]
    if name == "add_done_callback":
        if s != "pending":
            _gap("add_done_callback on a finished task")
        w = st.w(v)
        w.f["callbacks"] = Tup(*w.f.get("callbacks", Tup()).items, args[0])
        return [(st, NONE)]
    if name == "remove_done_callback":
        w = st.w(v)
        w.f["callbacks"] = Tup(*[c for c in w.f.get("callbacks", Tup()).items if c != args[0]])
        return [(st, K(1))]
    if name == "cancelling":
        return [(st, K(int(o.x["creq"] == TRUE)))]
    if name == "uncancel":
        st.w(v).x["creq"] = FALSE
        return [(st, K(0))]
    _gap(f"Task.{name}")


def m_agen(I, st, v, o, name, args, kwargs, node):
    if name == "__aiter__":
        return [(st, v)]
    if name in ("__anext__", "aclose", "asend", "athrow"):
        return [(st, Aw("agen", v, name, Tup(*args)))]
    _gap(f"async generator method {name}")


def m_xagen(I, st, v, o, name, args, kwargs, node):
    if name == "__aiter__":
        return [(st, v)]
    if name in ("__anext__", "aclose"):
        return [(st, Aw("xagen", v, name))]
    _gap(f"async generator method {name}")


def m_wref(I, st, v, o, name, args, kwargs, node):
    if name == "__call__":
        return wref_call(I, st, v, node)
    _gap(f"weakref method {name}")


# ---- external functions -------------------------------------------------------------------------

def to_str(I, st, v):
    if I.cls_of(st, v) == "builtins.str":
        return v
    if isinstance(v, K) and isinstance(v.v, (int, bool)) or v == NONE:
        return K(str(v.v))
    return App("str", v)


def call_ext(I, st, path, args, kwargs, node):
    f = EXT.get(path)
    if f is not None:
        return f(I, st, args, kwargs, node)
    r = I.hooks.call_ext(I, st, path, args, kwargs, node)
    if r is not None:
        return r
    from .interp import extobj
    c = extobj(path)
    if isinstance(c, type) and issubclass(c, BaseException):
        canonpath = f"{c.__module__}.{c.__qualname__}"
        if issubclass(c, BaseExceptionGroup):
            return x_excgroup(I, st, canonpath, args, node)
        r = I.mkexc(st, canonpath, *args)
        return [(st, r)]
    if path in BLOCKING or path.split(".")[0] in ("socket", "subprocess", "requests", "urllib", "shutil"):
        I.ev_event(st, "blocking", node, path=path)
        return [(st, Top(path))]
    if path.startswith(("typing.", "typing_extensions.")):
        return [(st, Tok("typing", path))]
    if path in ("time.monotonic", "time.time", "time.perf_counter"):
        n = fatom(st.fresh("walltime"))
        return [(st, n)]
    if path in ("time.monotonic_ns", "time.time_ns", "time.perf_counter_ns"):
        return [(st, iatom(st.fresh("walltime")))]
    for a in [*args, *kwargs.values()]:
        if isinstance(a, Tok) and a.kind in ("msg", "res"):
            I.ev_event(st, "inspect", node, tok=a, how=f"{path}()")
    if path == "itertools.chain.from_iterable" and len(args) == 1:
        return I.then(x_list(I, st, args, {}, node),
                      lambda s, r: x_chain(I, s, list(s.o(r).items), {}, node))
    _gap(f"call of external {path}")


BLOCKING = {"time.sleep", "builtins.open", "builtins.input", "asyncio.run", "os.system", "os.popen",
            "threading.Lock", "threading.Event", "threading.Condition", "queue.Queue", "os.stat",
            "os.listdir", "os.path.exists", "os.scandir", "select.select", "threading.Thread"}


def x_excgroup(I, st, path, args, node):
    out = []
    if len(args) != 2 or isinstance(args[0], K) and not isinstance(args[0].v, str):
        return I.rz(st, "TypeError")
    for s, items in to_items(I, st, args[1], node, ordered=True):
        if isinstance(items, Exc):
            out.append((s, items))
            continue
        if not items:
            out.extend(I.rz(s, "ValueError"))
            continue
        if path.endswith(".ExceptionGroup") and any(
                not I.exc_is(s, x, "Exception") for x in items if isinstance(x, Ref)):
            out.extend(I.rz(s, "TypeError"))
            continue
        r = I.mkexc(s, path, *args)
        s.w(r).f["exceptions"] = Tup(*items)
        out.append((s, r))
    return out


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


EXT = {}


@ext("sa.noop", "builtins.print", "warnings.warn", "typing.final", "typing.overload")
def x_noop(I, st, args, kwargs, node):
    return [(st, NONE)]


@ext("sa.super_init")
def x_super_init(I, st, args, kwargs, node):
    r = args[0]
    st.w(r).f["args"] = Tup(*args[1:])
    return [(st, NONE)]


@ext("builtins.len")
def x_len(I, st, args, kwargs, node):
    v = args[0]
    if isinstance(v, Tup):
        return [(st, K(len(v.items)))]
    if isinstance(v, Ref):
        o = st.o(v)
        if o.kind == "inst" and not isinstance(o.cls, str):
            m = I.find_method(o.cls, "__len__")
            if m and m[1]:
                return I.call_fn(st, Fn(m[1], None), [v], {}, node)
            return I.rz(st, "TypeError")
        if o.kind in CONTAINERS and o.kind != "iter":
            return c_len(I, st, v)
    if isinstance(v, K) and isinstance(v.v, str):
        return [(st, K(len(v.v)))]
    if isinstance(v, Tok) and v.kind == "msg":
        I.ev_event(st, "inspect", node, tok=v, how="len")
        return [(st, iatom(st.fresh("n")))]
    if isinstance(v, ClsV) and getattr(v.cls, "is_enum", False):
        return [(st, K(len(enum_members(st, v.cls))))]
    if isinstance(v, (Tok, App)) and I.cls_of(st, v) == "builtins.str":
        n = iatom(st.fresh("n"))
        st.facts = add_fact(st.facts, n) or st.facts
        return [(st, n)]
    _gap(f"len of {v!r}")


@ext("builtins.isinstance")
def x_isinstance(I, st, args, kwargs, node):
    return [(s, t if isinstance(t, Exc) else kb(t)) for s, t in isinstance_(I, st, args[0], args[1], node)]


@ext("builtins.issubclass")
def x_issubclass(I, st, args, kwargs, node):
    a, b = [x.cls if isinstance(x, ClsV) else x.path if isinstance(x, Ext) else None for x in args]
    if a is None or b is None:
        _gap("issubclass")
    return [(st, kb(bool(I.is_sub(a, b))))]


@ext("builtins.type")
def x_type(I, st, args, kwargs, node):
    v = args[0]
    if isinstance(v, Tok) and v.kind in ("msg", "res"):
        I.ev_event(st, "inspect", node, tok=v, how="type()")
        return [(st, Tok("type", st.fresh("type")))]
    c = I.cls_of(st, v)
    if c is None:
        _gap(f"type of {v!r}")
    return [(st, Ext(c) if isinstance(c, str) else ClsV(c))]


@ext("builtins.id")
def x_id(I, st, args, kwargs, node):
    return [(st, App("id", args[0]))]


@ext("builtins.hash")
def x_hash(I, st, args, kwargs, node):
    v = args[0]
    if isinstance(v, Tok) and v.kind in ("msg", "res"):
        I.ev_event(st, "inspect", node, tok=v, how="hash")
    if isinstance(v, Ref) and st.o(v).kind == "inst" and not isinstance(st.o(v).cls, str):
        m = I.find_method(st.o(v).cls, "__hash__")
        if m and m[1]:
            return I.call_fn(st, Fn(m[1], None), [v], {}, node)
    return [(st, App("hash", v))]


@ext("builtins.str")
def x_str(I, st, args, kwargs, node):
    if not args:
        return [(st, K(""))]
    I.ev_event(st, "format", node, vals=args)
    m = str_method(I, st, args[0], "__str__") or str_method(I, st, args[0], "__repr__")
    if m:
        return I.call_fn(st, Fn(m, None), [args[0]], {}, node)
    return [(st, to_str(I, st, args[0]))]


@ext("builtins.repr", "builtins.ascii")
def x_repr(I, st, args, kwargs, node):
    I.ev_event(st, "format", node, vals=args)
    m = str_method(I, st, args[0], "__repr__")
    if m:
        return I.call_fn(st, Fn(m, None), [args[0]], {}, node)
    return [(st, App("repr", args[0]))]


def str_method(I, st, v, name):
    """The __str__/__repr__ an analysed class defines."""
    if isinstance(v, Ref) and st.o(v).kind == "inst" and not isinstance(st.o(v).cls, str):
        m = I.find_method(st.o(v).cls, name)
        return m[1] if m else None
    return None


def formatted(I, st, v):
    """Abstract sources all look the same when formatted."""
    if isinstance(v, Ref) and st.o(v).kind == "inst" and not isinstance(st.o(v).cls, str):
        m = I.find_method(st.o(v).cls, "__str__")
        if m and m[1] is not None and getattr(m[1].mod, "synthetic", False):
            return K("src")
    return v


@ext("builtins.format")
def x_format(I, st, args, kwargs, node):
    I.ev_event(st, "format", node, vals=args)
    return [(st, App("fstr", *args))]


@ext("builtins.bool")
def x_bool(I, st, args, kwargs, node):
    if not args:
        return [(st, FALSE)]
    return [(s, t if isinstance(t, Exc) else kb(t)) for s, t in truth(I, st, args[0], node)]


@ext("builtins.int", "math.trunc")
def x_int(I, st, args, kwargs, node):
    n = tonum(args[0]) if args else None
    if n is not None:
        return [(st, fromnum(rnd(st, n, "trunc")))]
    if isinstance(args[0], App):
        return [(st, App("int", args[0]))]
    _gap(f"int of {args[0]!r}")


@ext("builtins.float")
def x_float(I, st, args, kwargs, node):
    n = tonum(args[0])
    if n is None:
        _gap("float()")
    return [(st, fromnum(Num(n.t, n.c, False)))]


@ext("builtins.round")
def x_round(I, st, args, kwargs, node):
    n = tonum(args[0])
    if n is None or len(args) > 1:
        _gap("round()")
    return [(st, fromnum(rnd(st, n, "round")))]


@ext("math.floor")
def x_floor(I, st, args, kwargs, node):
    n = tonum(args[0])
    if n is None:
        _gap("floor")
    return [(st, fromnum(rnd(st, n, "floor")))]


@ext("math.ceil")
def x_ceil(I, st, args, kwargs, node):
    n = tonum(args[0])
    if n is None:
        _gap("ceil")
    return [(st, fromnum(rnd(st, n, "ceil")))]


@ext("builtins.divmod")
def x_divmod(I, st, args, kwargs, node):
    if isinstance(args[0], Td):
        q = fdiv(st, args[0].us, args[1].us)
        return [(st, Tup(fromnum(q), Td(args[0].us - mul(args[1].us, q))))]
    x, y = tonum(args[0]), tonum(args[1])
    if x is None or y is None:
        _gap("divmod")
    q = fdiv(st, x, y)
    return [(st, Tup(fromnum(q), fromnum(x - mul(y, q))))]


@ext("builtins.abs")
def x_abs(I, st, args, kwargs, node):
    v = args[0]
    n = v.us if isinstance(v, Td) else tonum(v)
    if n is None:
        _gap("abs")
    mk = Td if isinstance(v, Td) else fromnum
    return [(s, mk(n) if t else mk(-n)) for s, t in num_ge0(st, n)]


def _minmax(I, st, args, node, ismax, kwargs=None):
    kwargs = kwargs or {}
    if "key" in kwargs:
        _gap("min/max with key")
    if len(args) == 1:
        out = []
        for s, items in to_items(I, st, args[0], node, ordered=True):
            if isinstance(items, Exc):
                out.append((s, items))
            elif not items:
                out.extend([(s, kwargs["default"])] if "default" in kwargs else I.rz(s, "ValueError"))
            else:
                out.extend(_minmax(I, s, items, node, ismax) if len(items) > 1 else [(s, items[0])])
        return out
    cur = [(st, args[0])]
    for b in args[1:]:
        def go(s, a, b=b):
            op = ast.Gt() if ismax else ast.Lt()
            return [(s2, t if isinstance(t, Exc) else (b if t else a))
                    for s2, t in order_op(I, s, op, b, a, node)]
        cur = I.then(cur, go)
    return cur


@ext("builtins.min")
def x_min(I, st, args, kwargs, node):
    return _minmax(I, st, args, node, False, kwargs)


@ext("builtins.max")
def x_max(I, st, args, kwargs, node):
    return _minmax(I, st, args, node, True, kwargs)


@ext("builtins.sum")
def x_sum(I, st, args, kwargs, node):
    out = []
    for s, items in to_items(I, st, args[0], node, ordered=True):
        if isinstance(items, Exc):
            out.append((s, items))
            continue
        cur = [(s, args[1] if len(args) > 1 else K(0))]
        for x in items:
            cur = I.then(cur, lambda a, v, x=x: binop(I, a, ast.Add(), v, x, node))
        out.extend(cur)
    return out


def _anyall(I, st, v, node, isany):
    out = []
    for s, items in to_items(I, st, v, node, ordered=True):
        if isinstance(items, Exc):
            out.append((s, items))
            continue
        cur = [s]
        for x in items:
            nxt = []
            for a in cur:
                for b, t in truth(I, a, x, node):
                    if isinstance(t, Exc):
                        out.append((b, t))
                    elif t == isany:
                        out.append((b, kb(isany)))
                    else:
                        nxt.append(b)
            cur = nxt
        out.extend((a, kb(not isany)) for a in cur)
    return out


@ext("builtins.any")
def x_any(I, st, args, kwargs, node):
    return _anyall(I, st, args[0], node, True)


@ext("builtins.all")
def x_all(I, st, args, kwargs, node):
    return _anyall(I, st, args[0], node, False)


@ext("builtins.list", "builtins.tuple", "builtins.sorted")
def x_list(I, st, args, kwargs, node):
    name = ast.unparse(node.func).split(".")[-1] if isinstance(node, ast.Call) else "list"
    if not args:
        return [(st, Tup() if name == "tuple" else st.new("list", items=[]))]
    out = []
    for s, items in to_items(I, st, args[0], node):
        if isinstance(items, Exc):
            out.append((s, items))
        elif name == "tuple":
            if any(isinstance(x, Seg) for x in items):
                _gap("tuple of an abstract container")
            out.append((s, Tup(*items)))
        else:
            if name == "sorted" and len(items) > 1:
                if any(isinstance(x, Seg) for x in items):
                    _gap("sorted of an abstract container")
                for p in itertools.permutations(items):
                    s2 = s.clone()
                    out.append((s2, s2.new("list", items=list(p))))
            else:
                out.append((s, s.new("list", items=list(items))))
    return out


def _x_tuple(I, st, args, kwargs, node):
    if not args:
        return [(st, Tup())]
    out = []
    for s, items in to_items(I, st, args[0], node):
        if not isinstance(items, Exc) and any(isinstance(x, Seg) for x in items):
            _gap("tuple of an abstract container")
        out.append((s, items if isinstance(items, Exc) else Tup(*items)))
    return out


def _x_sorted(I, st, args, kwargs, node):
    out = []
    for s, items in to_items(I, st, args[0], node, ordered=True):
        if isinstance(items, Exc):
            out.append((s, items))
            continue
        if any(isinstance(x, Seg) for x in items):
            _gap("sorted of an abstract container")
        for p in itertools.permutations(items):
            s2 = s.clone()
            out.append((s2, s2.new("list", items=list(p))))
    return out


def _x_list(I, st, args, kwargs, node):
    if not args:
        return [(st, st.new("list", items=[]))]
    return [(s, items if isinstance(items, Exc) else s.new("list", items=list(items)))
            for s, items in to_items(I, st, args[0], node)]


EXT["builtins.tuple"], EXT["builtins.sorted"], EXT["builtins.list"] = _x_tuple, _x_sorted, _x_list


@ext("builtins.set")
def x_set(I, st, args, kwargs, node):
    return _mkset(I, st, "set", args, node)


@ext("builtins.frozenset")
def x_frozenset(I, st, args, kwargs, node):
    return _mkset(I, st, "frozenset", args, node)


def _mkset(I, st, kind, args, node):
    if not args:
        return [(st, st.new(kind, items=[]))]
    return [(s, items if isinstance(items, Exc) else mkset(I, s, kind, items, node))
            for s, items in to_items(I, st, args[0], node, ordered=True)]


@ext("builtins.dict", "collections.OrderedDict")
def x_dict(I, st, args, kwargs, node):
    d = st.new("dict", items=[])
    return [(s, v if isinstance(v, Exc) else d) for s, v in m_dict(I, st, d, st.o(d), "update", args, kwargs, node)]


@ext("builtins.dict.fromkeys")
def x_fromkeys(I, st, args, kwargs, node):
    out = []
    val = args[1] if len(args) > 1 else NONE
    for s, items in to_items(I, st, args[0], node, ordered=True):
        if isinstance(items, Exc):
            out.append((s, items))
            continue
        cur = [(s, s.new("dict", items=[]))]
        for k in items:
            cur = [(z, x if isinstance(x, Exc) else d)
                   for t, d in cur for z, x in ([(t, d)] if isinstance(d, Exc) else
                                                setitem(I, t, d, k, val, node))]
        out += cur
    return out


@ext("collections.defaultdict")
def x_defaultdict(I, st, args, kwargs, node):
    return [(st, st.new("dict", items=[], factory=args[0]))]


@ext("weakref.WeakValueDictionary")
def x_wvd(I, st, args, kwargs, node):
    return [(st, st.new("dict", items=[], weak=TRUE))]


@ext("weakref.WeakKeyDictionary")
def x_wkd(I, st, args, kwargs, node):
    return [(st, st.new("dict", items=[], weak=WEAKKEY))]


@ext("weakref.WeakSet")
def x_ws(I, st, args, kwargs, node):
    return [(st, st.new("set", items=[], weak=TRUE))]


@ext("collections.deque")
def x_deque(I, st, args, kwargs, node):
    cap = kwargs.get("maxlen", args[1] if len(args) > 1 else NONE)
    it = kwargs.get("iterable", args[0] if args else None)
    r = st.new("deque", items=[], cap=cap)
    if it is None:
        return [(st, r)]
    return [(s, v if isinstance(v, Exc) else r) for s, v in _extend(I, st, r, it, node, "r")]


@ext("builtins.iter", "builtins.aiter")
def x_iter(I, st, args, kwargs, node):
    if isinstance(node, ast.Call) and ast.unparse(node.func).endswith("aiter"):
        return I.call_method(st, args[0], "__aiter__", [], {}, node)
    return get_iter(I, st, args[0], node)


@ext("builtins.aiter")
def x_aiter(I, st, args, kwargs, node):
    return I.call_method(st, args[0], "__aiter__", [], {}, node)


@ext("builtins.next")
def x_next(I, st, args, kwargs, node):
    out = []
    for s, v in iter_next(I, st, args[0], node):
        if v is None:
            out.extend([(s, args[1])] if len(args) > 1 else I.rz(s, "StopIteration"))
        else:
            out.append((s, v))
    return out


@ext("builtins.anext")
def x_anext(I, st, args, kwargs, node):
    if len(args) > 1:
        return [(s, v if isinstance(v, Exc) else Aw("anextdef", v, args[1]))
                for s, v in I.call_method(st, args[0], "__anext__", [], {}, node)]
    return I.call_method(st, args[0], "__anext__", [], {}, node)


@ext("builtins.enumerate")
def x_enumerate(I, st, args, kwargs, node):
    start = args[1].v if len(args) > 1 else kwargs.get("start", K(0)).v
    return [(s, items if isinstance(items, Exc) else
             s.new("iter", items=[Tup(K(i + start), x) for i, x in enumerate(items)]))
            for s, items in to_items(I, st, args[0], node)]


@ext("builtins.zip")
def x_zip(I, st, args, kwargs, node):
    cur = [(st, [])]
    for a in args:
        cur = I.then(cur, lambda s, acc, a=a: [(s2, it if isinstance(it, Exc) else acc + [it])
                                               for s2, it in to_items(I, s, a, node)])
    return I.then(cur, lambda s, ls: [(s, s.new("iter", items=[Tup(*t) for t in zip(*ls)]))])


@ext("builtins.map")
def x_map(I, st, args, kwargs, node):
    if len(args) != 2:
        _gap("map() of several iterables")

    def go(s, items):
        cur = [(s, [])]
        for x in items:
            cur = I.then(cur, lambda a, acc, x=x: [(b, v if isinstance(v, Exc) else acc + [v])
                                                   for b, v in I.call(a, args[0], [x], {}, node)])
        return I.then(cur, lambda a, vs: [(a, a.new("iter", items=vs))])
    return I.then(to_items(I, st, args[1], node), go)


@ext("builtins.filter")
def x_filter(I, st, args, kwargs, node):
    def go(s, items):
        cur = [(s, [])]
        for x in items:
            def one(a, acc, x=x):
                res = [(a, x)] if args[0] == NONE else I.call(a, args[0], [x], {}, node)
                return I.then(res, lambda b, v: [(c, t if isinstance(t, Exc) else (acc + [x] if t else acc))
                                                 for c, t in truth(I, b, v, node)])
            cur = I.then(cur, one)
        return I.then(cur, lambda a, vs: [(a, a.new("iter", items=vs))])
    return I.then(to_items(I, st, args[1], node), go)


@ext("builtins.reversed")
def x_reversed(I, st, args, kwargs, node):
    return [(s, items if isinstance(items, Exc) else s.new("iter", items=items[::-1]))
            for s, items in to_items(I, st, args[0], node)]


@ext("builtins.range")
def x_range(I, st, args, kwargs, node):
    if not all(isinstance(a, K) for a in args):
        _gap("range of an unknown bound")
    return [(st, st.new("iter", items=[K(i) for i in range(*[a.v for a in args])]))]


@ext("itertools.islice")
def x_islice(I, st, args, kwargs, node):
    if not all(isinstance(a, K) for a in args[1:]):
        _gap("islice")
    return [(s, items if isinstance(items, Exc) else
             s.new("iter", items=list(itertools.islice(items, *[a.v for a in args[1:]]))))
            for s, items in to_items(I, st, args[0], node)]


@ext("itertools.chain")
def x_chain(I, st, args, kwargs, node):
    cur = [(st, [])]
    for a in args:
        cur = I.then(cur, lambda s, acc, a=a: [(s2, it if isinstance(it, Exc) else acc + it)
                                               for s2, it in to_items(I, s, a, node)])
    return I.then(cur, lambda s, ls: [(s, s.new("iter", items=ls))])


@ext("builtins.getattr")
def x_getattr(I, st, args, kwargs, node):
    if not isinstance(args[1], K):
        _gap("getattr with a computed name")
    out = []
    for s, v in I.getattr(st, args[0], args[1].v, node):
        if isinstance(v, Exc) and len(args) > 2 and I.exc_is(s, v.ref, "AttributeError"):
            out.append((s, args[2]))
        else:
            out.append((s, v))
    return out


@ext("builtins.setattr")
def x_setattr(I, st, args, kwargs, node):
    if not isinstance(args[1], K):
        _gap("setattr with a computed name")
    return I.setattr(st, args[0], args[1].v, args[2], node)


@ext("object.__setattr__", "builtins.object.__setattr__")
def x_osetattr(I, st, args, kwargs, node):
    st.w(args[0]).f[args[1].v] = args[2]
    return [(st, NONE)]


@ext("builtins.hasattr")
def x_hasattr(I, st, args, kwargs, node):
    out = []
    for s, v in I.getattr(st, args[0], args[1].v, node):
        if isinstance(v, Exc):
            out.append((s, FALSE) if I.exc_is(s, v.ref, "AttributeError") else (s, v))
        else:
            out.append((s, TRUE))
    return out


@ext("builtins.callable")
def x_callable(I, st, args, kwargs, node):
    v = args[0]
    if isinstance(v, (Fn, Bound, ExtM, Partial, ClsV, Ext)) or isinstance(v, Tok) and v.kind == "fn":
        return [(st, TRUE)]
    if isinstance(v, K):
        return [(st, FALSE)]
    return [(s, kb(t)) for s, t in fork2(st)]


@ext("builtins.object")
def x_object(I, st, args, kwargs, node):
    return [(st, st.new("inst", "builtins.object", {}))]


@ext("builtins.super")
def x_super(I, st, args, kwargs, node):
    return [(st, SuperV(args[0].cls, args[1]))]


@ext("typing.cast")
def x_cast(I, st, args, kwargs, node):
    return [(st, args[1])]


@ext("typing.TypeVar", "typing.ParamSpec", "typing.NewType", "typing_extensions.TypeVar")
def x_typevar(I, st, args, kwargs, node):
    return [(st, Tok("typing", "TypeVar"))]


@ext("functools.lru_cache", "functools.cache")
def x_lru_cache(I, st, args, kwargs, node):
    if args and not isinstance(args[0], K):
        return [(st, Partial(Ext("sa.cached"), (args[0],), ()))]
    return [(st, Ext("functools.cache"))]


@ext("sa.cached")
def x_cached(I, st, args, kwargs, node):
    """A call of a memoised function: the arguments are hashed, an earlier result may be returned instead."""
    fn, args = args[0], args[1:]
    for a in args:
        if isinstance(a, Tok) and a.kind in ("msg", "res"):
            I.ev_event(st, "inspect", node, tok=a, how="cache key")
    if any(isinstance(a, Tok) and a.kind in ("msg", "res") for a in args):
        x = st.clone()
        x.note("the cache already holds a result for an equal argument")
        return I.call(st, fn, args, kwargs, node) + [(x, Tok("res", x.fresh("cached")))]
    out = []
    for s, hit in fork2(st):
        if not hit:
            out += I.call(s, fn, args, kwargs, node)
            continue
        t = s.clone()
        t.mute += 1
        for z, v in I.call(t, fn, args, kwargs, node):
            if not isinstance(v, Exc):
                z.mute -= 1
                out.append((z, v))
    return out


@ext("functools.partial")
def x_partial(I, st, args, kwargs, node):
    return [(st, Partial(args[0], tuple(args[1:]), tuple(kwargs.items())))]


@ext("contextlib.suppress")
def x_suppress(I, st, args, kwargs, node):
    return [(st, st.new("suppress", items=list(args)))]


@ext("contextlib.nullcontext")
def x_nullcm(I, st, args, kwargs, node):
    return [(st, st.new("nullcm", val=args[0] if args else NONE))]


@ext("copy.copy", "copy.deepcopy")
def x_copy(I, st, args, kwargs, node):
    v = args[0]
    if isinstance(v, Tok) and v.kind in ("msg", "res"):
        I.ev_event(st, "inspect", node, tok=v, how="copy")
        return [(st, Tok("msg", st.fresh("copy")))]
    if isinstance(v, Ref) and st.o(v).kind in ("list", "deque", "set", "dict"):
        return call_extm(I, st, ExtM(v, "copy"), [], {}, node)
    _gap("copy of an object")


@ext("logging.getLogger")
def x_getlogger(I, st, args, kwargs, node):
    return [(st, Tok("logger", ("get", repr(args))))]


@ext("logging.Logger")
def x_logger(I, st, args, kwargs, node):
    return [(st, Tok("logger", ("detached", repr(args))))]


# asyncio ------------------------------------------------------------------------------------------

@ext("asyncio.Condition", "asyncio.locks.Condition")
def x_cond(I, st, args, kwargs, node):
    lk = args[0] if args else kwargs.get("lock", NONE)
    if lk == NONE:
        lk = st.new("lock", held=FALSE)
    return [(st, st.new("cond", lock=lk, waiters=K(0)))]


@ext("asyncio.Lock", "asyncio.locks.Lock")
def x_lock(I, st, args, kwargs, node):
    return [(st, st.new("lock", held=FALSE))]


@ext("asyncio.Event", "asyncio.locks.Event")
def x_aevent(I, st, args, kwargs, node):
    return [(st, st.new("aevent", flag=FALSE))]


@ext("asyncio.Future", "asyncio.futures.Future")
def x_future(I, st, args, kwargs, node):
    if I.noloop and "loop" not in kwargs:
        return I.rz(st, "RuntimeError", K("no running event loop"))
    return [(st, st.new("fut", flag=FALSE, cancelled=FALSE, result=NONE, exc=NONE))]


def m_fut(I, st, v, o, name, args, kwargs, node):
    x = o.x
    if name == "done":
        return [(st, x["flag"])]
    if name == "cancelled":
        return [(st, x["cancelled"])]
    if name in ("set_result", "set_exception", "cancel"):
        if x["flag"] == TRUE:
            return [(st, FALSE)] if name == "cancel" else I.rz(st, "asyncio.exceptions.InvalidStateError")
        w = st.w(v).x
        w["flag"] = TRUE
        if name == "cancel":
            w["cancelled"] = TRUE
        elif name == "set_result":
            w["result"] = args[0]
        elif isinstance(args[0], Ref):
            w["exc"] = args[0]
        else:
            _gap("set_exception of an exception class")
        I.ev_event(st, "event_set", node, obj=v)
        I.hooks.on_event_set(I, st, v, node)
        return [(st, TRUE if name == "cancel" else NONE)]
    if name in ("result", "exception"):
        if x["flag"] != TRUE:
            return I.rz(st, "asyncio.exceptions.InvalidStateError")
        if x["cancelled"] == TRUE:
            return I.rz(st, "asyncio.exceptions.CancelledError")
        if name == "exception":
            return [(st, x["exc"])]
        return [(st, Exc(x["exc"]) if x["exc"] != NONE else x["result"])]
    if name == "get_loop":
        return [(st, Tok("loop", "running"))]
    _gap(f"Future.{name}")


def await_fut(I, st, v, node):
    if st.o(v).x["flag"] == TRUE:
        return m_fut(I, st, v, st.o(v), "result", [], {}, node)
    out = []
    for s, x in I.suspend(st, Aw("evwait", v), node):
        if not isinstance(x, Exc):
            if s.o(v).x["flag"] == TRUE:  # else it is not woken yet
                out += m_fut(I, s, v, s.o(v), "result", [], {}, node)
            continue
        if s.o(v).x["flag"] != TRUE:  # cancelling the waiting task cancels the future
            s.w(v).x.update(flag=TRUE, cancelled=TRUE)
        out.append((s, x))
    return out


@ext("asyncio.create_task", "asyncio.ensure_future")
def x_create_task(I, st, args, kwargs, node):
    c = args[0]
    if I.noloop:
        return I.rz(st, "RuntimeError", K("no running event loop"))
    if isinstance(c, Ref) and st.o(c).kind == "task":
        return [(st, c)]
    if not isinstance(c, (Coro, Aw)):
        _gap(f"create_task of {c!r}")
    nm = kwargs.get("name", NONE)
    nm = to_str(I, st, nm) if nm != NONE else Tok("str", st.fresh("taskname"))
    r = st.new("task", None, {"coro": c}, status=K("pending"), name=nm, creq=FALSE, result=NONE, exc=NONE)
    I.ev_event(st, "task_create", node, task=r, coro=c)
    I.hooks.on_task(I, st, r, c, node)
    return [(st, r)]


@ext("asyncio.wait")
def x_wait(I, st, args, kwargs, node):
    fs = args[0] if args else kwargs.get("fs")
    rw = kwargs.get("return_when", Ext("asyncio.ALL_COMPLETED"))
    to = kwargs.get("timeout", NONE)
    return [(st, Aw("wait", fs, rw, to))]


@ext("asyncio.gather")
def x_gather(I, st, args, kwargs, node):
    out = [(st, [])]
    for a in args:
        if isinstance(a, (Coro, Aw)):
            out = I.then(out, lambda s, acc, a=a: [(s2, acc + [t]) for s2, t in x_create_task(I, s, [a], {}, node)])
        else:
            out = [(s, acc + [a]) for s, acc in out]
    re = kwargs.get("return_exceptions", FALSE)
    return I.then(out, lambda s, ts: [(s, Aw("gather", Tup(*ts), re))])


@ext("asyncio.sleep")
def x_sleep(I, st, args, kwargs, node):
    return [(st, Aw("sleep", args[0] if args else kwargs.get("delay", K(0))))]


@ext("asyncio.timeout", "asyncio.timeout_at")
def x_timeout(I, st, args, kwargs, node):
    d = args[0] if args else kwargs.get("delay", kwargs.get("when", NONE))
    if d == NONE:
        return [(st, st.new("nullcm", val=NONE))]
    return [(st, st.new("tmo", delay=d))]


@ext("asyncio.wait_for")
def x_wait_for(I, st, args, kwargs, node):
    d = args[1] if len(args) > 1 else kwargs.get("timeout", NONE)
    return [(st, Aw("waitfor", args[0] if args else kwargs["fut"], d))]


def tmo_scopes(st):
    """The timeouts the current task is inside of."""
    return [v for f in st.frames for v in st.heap[f].x.values()
            if isinstance(v, Ref) and st.o(v).kind == "tmo"]


def timeouts(I, st0, aw, node):
    """The outcomes of a suspension inside asyncio.timeout() / wait_for() that the timeout cuts short: a sleep."""
    out = []
    for t in tmo_scopes(st0):
        for z, v in I.hooks.on_suspend(I, st0.clone(), Aw("sleep", st0.o(t).x["delay"]), node):
            if isinstance(v, Exc):
                continue
            if aw.kind == "task" and z.o(aw.a[1]).x["status"] == K("pending"):
                z.w(aw.a[1]).x["status"] = K("cancelled")
            e = I.mkexc(z, "asyncio.exceptions.CancelledError")
            z.w(e).f["~tmo"] = t
            z.note(f"the wait at {I.where(node)} is cut short by a timeout")
            out.append((z, Exc(e)))
    return out


@ext("asyncio.shield")
def x_shield(I, st, args, kwargs, node):
    c = args[0]
    if isinstance(c, Ref):
        return [(st, Aw("shield", c))]
    return I.then(x_create_task(I, st, [c], {}, node), lambda s, t: [(s, Aw("shield", t))])


@ext("asyncio.get_running_loop", "asyncio.get_event_loop")
def x_loop(I, st, args, kwargs, node):
    if I.noloop:
        return I.rz(st, "RuntimeError", K("no running event loop"))
    return [(st, Tok("loop", "running"))]


@ext("asyncio.current_task")
def x_curtask(I, st, args, kwargs, node):
    if I.noloop:
        return I.rz(st, "RuntimeError", K("no running event loop"))
    return [(st, Tok("curtask", "me"))]


@ext("asyncio.iscoroutine", "inspect.isawaitable", "inspect.iscoroutine")
def x_iscoro(I, st, args, kwargs, node):
    if isinstance(args[0], Tok) and args[0].kind in ("msg", "res"):
        I.ev_event(st, "inspect", node, tok=args[0], how="awaitable test")
        s2 = st.clone()
        return [(st, TRUE), (s2, FALSE)]
    return [(st, kb(isinstance(args[0], (Coro, Aw))))]


@ext("weakref.ref", "weakref.ReferenceType")
def x_wref(I, st, args, kwargs, node):
    return [(st, st.new("wref", None, {"target": args[0], "cb": args[1] if len(args) > 1 else NONE}))]


@ext("weakref.proxy")
def x_wproxy(I, st, args, kwargs, node):
    r = st.new("wref", None, {"target": args[0], "cb": args[1] if len(args) > 1 else NONE})
    st.w(r).x["proxy"] = TRUE
    return [(st, r)]


@ext("datetime.timedelta")
def x_timedelta(I, st, args, kwargs, node):
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    kw = dict(zip(names, args))
    kw.update(kwargs)
    mult = {"days": 86400 * 10 ** 6, "seconds": 10 ** 6, "microseconds": 1, "milliseconds": 1000,
            "minutes": 60 * 10 ** 6, "hours": 3600 * 10 ** 6, "weeks": 7 * 86400 * 10 ** 6}
    tot = Num((), 0, True)
    for k, v in kw.items():
        n = tonum(v)
        if n is None:
            if v == NONE:
                return I.rz(st, "TypeError")
            _gap("timedelta()")
        tot = tot + Num([(a, q * mult[k]) for a, q in n.t], n.c * mult[k], True)
    return [(st, Td(rnd(st, tot, "round") if not tot.integral() else Num(tot.t, tot.c, True)))]


@ext("pathlib.Path")
def x_path(I, st, args, kwargs, node):
    v = args[0]
    if I.cls_of(st, v) == "pathlib.Path":
        return [(st, v)]
    return [(st, App("Path", v))]


@ext("os.fspath")
def x_fspath(I, st, args, kwargs, node):
    return [(st, args[0] if I.cls_of(st, args[0]) == "builtins.str" else App("str", args[0]))]


def enum_call(I, st, cls, args, node):
    f = st.o(cls.oid).f
    v = args[0]
    if isinstance(v, EnumM) and v.a[0] is cls:
        return [(st, v)]
    unk = False
    for n in f:
        if n.startswith("_"):
            continue
        r = veq(I, st, f[n], v)
        if r:
            return [(st, EnumM(cls, n))]
        if r is None:
            unk = True
    if unk:
        _gap("enum lookup of an unknown value")
    return I.rz(st, "ValueError")


# ---- awaiting -----------------------------------------------------------------------------------

def await_(I, st, v, node):
    if isinstance(v, Ref):
        o = st.o(v)
        if o.kind == "task":
            if o.x["status"].v != "pending":
                return m_task(I, st, v, o, "result", [], {}, node)
            return I.suspend(st, Aw("task", v), node)
        if o.kind == "fut":
            return await_fut(I, st, v, node)
        if o.kind == "inst" and not isinstance(o.cls, str):
            m = I.find_method(o.cls, "__await__")
            if m:
                _gap("__await__")
        return I.rz(st, "TypeError")
    if isinstance(v, K):
        return I.rz(st, "TypeError")
    if not isinstance(v, Aw):
        _gap(f"await of {v!r}")
    k = v.kind
    if k == "acquire":
        return acquire(I, st, v.a[1], node)
    if k == "done":
        return [(st, v.a[1])]
    if k == "cvwait":
        lk = _lock(st, v.a[1])
        if st.o(lk).x.get("held") != TRUE:
            return I.rz(st, "RuntimeError", K("cannot wait on un-acquired lock"))
        st.w(lk).x["held"] = FALSE
        I.ev_event(st, "cvwait", node, obj=v.a[1])
        out = []
        for s, x in I.suspend(st, v, node):
            s.w(_lock(s, v.a[1])).x["held"] = TRUE
            out.append((s, x if isinstance(x, Exc) else TRUE))
        return out
    if k == "cvwaitfor":
        out, work, seen = [], [st], set()
        while work:
            s = work.pop()
            key = I.key(s)
            if key in seen:
                continue
            seen.add(key)
            for a, r in I.call(s, v.a[2], [], {}, node):
                if isinstance(r, Exc):
                    out.append((a, r))
                    continue
                for b, t in truth(I, a, r, node):
                    if isinstance(t, Exc) or t:
                        out.append((b, t if isinstance(t, Exc) else r))
                        continue
                    for c, x in await_(I, b, Aw("cvwait", v.a[1]), node):
                        if isinstance(x, Exc):
                            out.append((c, x))
                        else:
                            work.append(c)
        return out
    if k == "evwait":
        if st.o(v.a[1]).x["flag"] == TRUE:
            return [(st, TRUE)]
        return [(s, x if isinstance(x, Exc) else TRUE) for s, x in I.suspend(st, v, node)]
    if k == "anextdef":
        out = []
        for s, x in I.await_(st, v.a[1], node):
            if isinstance(x, Exc) and I.exc_is(s, x.ref, "StopAsyncIteration"):
                out.append((s, v.a[2]))
            else:
                out.append((s, x))
        return out
    if k == "wait":
        out = []
        for s, items in to_items(I, st, v.a[1], node, ordered=True):
            if isinstance(items, Exc):
                out.append((s, items))
                continue
            if not items:
                out.extend(I.rz(s, "ValueError"))
                continue
            if any(isinstance(x, (Coro,)) for x in items):
                out.extend(I.rz(s, "TypeError"))
                continue
            for s2, x in I.suspend(s, Aw("wait", Tup(*items), v.a[2], v.a[3]), node):
                if isinstance(x, Exc):
                    out.append((s2, x))
                    continue
                d = [t for t in items if s2.o(t).x["status"].v != "pending"]
                p = [t for t in items if s2.o(t).x["status"].v == "pending"]
                dr = s2.new("set", items=d)
                pr = s2.new("set", items=p)
                out.append((s2, Tup(dr, pr)))
        return out
    if k == "gather":
        ts = v.a[1].items
        if not ts:
            return [(st, st.new("list", items=[]))]
        out = []
        for s, x in I.suspend(st, v, node):
            if isinstance(x, Exc):
                out.append((s, x))
                continue
            vals, exc = [], None
            for t in ts:
                o = s.o(t)
                if o.x["status"].v == "pending":
                    continue
                s.w(t).x["retrieved"] = TRUE
                if o.x["status"].v == "cancelled":
                    e = I.mkexc(s, "asyncio.exceptions.CancelledError")
                    vals.append(e)
                    exc = exc or e
                elif o.x["exc"] != NONE:
                    vals.append(o.x["exc"])
                    exc = exc or o.x["exc"]
                else:
                    vals.append(o.x["result"])
            if v.a[2] == TRUE:
                out.append((s, s.new("list", items=vals)))
            elif exc is not None:
                out.append((s, Exc(exc)))
            else:
                out.append((s, s.new("list", items=vals)))
        return out
    if k == "sleep":
        return I.suspend(st, v, node)
    if k == "waitfor":
        if v.a[2] == NONE:
            return I.await_(st, v.a[1], node)
        t, key = st.new("tmo", delay=v.a[2]), ("cm", "wf", id(node))
        st.w(st.frames[-1]).x[key] = t
        out = []
        for s, x in I.await_(st, v.a[1], node):
            s.w(s.frames[-1]).x.pop(key, None)
            if isinstance(x, Exc):
                out.extend((s2, y if isinstance(y, Exc) else x)
                           for s2, y in cm_exit(I, s, t, x.ref, True, node))
            else:
                out.append((s, x))
        return out
    if k in ("agen",):
        return I.hooks.await_agen(I, st, v, node)
    r = I.hooks.await_other(I, st, v, node)
    if r is not None:
        return r
    _gap(f"await of {k}")
