"""Abstract values.

Values are immutable.  Mutable things live in the abstract heap (see state.py) and are `Ref`s.
Integers that are not constants are linear forms over named atoms; what is known about atoms is a
set of linear inequalities in the state (a small, solver-free linear-inequality domain).
"""
from __future__ import annotations

from fractions import Fraction
from typing import NamedTuple


class V:
    __slots__ = ()


class K(V):
    """A constant; equality is type-sensitive."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def _k(self):
        return ("K", type(self.v).__name__, self.v)

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = K(None), K(True), K(False)


def kb(b):
    return TRUE if b else FALSE


class Ref(V):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("Ref", self.oid))

    def __repr__(self):
        return f"#{self.oid}"


class _T(V):
    """Tuple-like immutable value base."""
    __slots__ = ("a",)

    def __init__(self, *a):
        self.a = a

    def __eq__(self, o):
        return type(o) is type(self) and self.a == o.a

    def __hash__(self):
        return hash((type(self).__name__, self.a))

    def __repr__(self):
        return f"{type(self).__name__}{self.a!r}"


class Tok(_T):
    """An opaque immutable value: Tok(kind, name)."""
    __slots__ = ()
    kind = property(lambda s: s.a[0])
    name = property(lambda s: s.a[1])

    def __repr__(self):
        return f"<{self.a[0]} {self.a[1]}>"


class Ext(_T):
    """Something external, by its dotted path."""
    __slots__ = ()
    path = property(lambda s: s.a[0])

    def __repr__(self):
        return f"<ext {self.a[0]}>"


class ExtM(_T):
    """Method `name` of a modelled receiver value."""
    __slots__ = ()
    recv = property(lambda s: s.a[0])
    name = property(lambda s: s.a[1])


class Mod(_T):
    """A module of the package."""
    __slots__ = ()


class Fn(_T):
    """Function of the program: (FuncInfo, closure frame oid or None, defaults)."""
    __slots__ = ()
    fn = property(lambda s: s.a[0])
    clo = property(lambda s: s.a[1])


class Bound(_T):
    __slots__ = ()
    fnv = property(lambda s: s.a[0])
    selfv = property(lambda s: s.a[1])


class Partial(_T):
    __slots__ = ()


class ClsV(_T):
    __slots__ = ()
    cls = property(lambda s: s.a[0])


class SuperV(_T):
    __slots__ = ()


class EnumM(_T):
    """Enum member: (ClassInfo, name)."""
    __slots__ = ()


class Tup(_T):
    __slots__ = ()

    @property
    def items(self):
        return self.a

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.a)) + ")"


class Slice(_T):
    __slots__ = ()


class App(_T):
    """Result of an injective pure application: App(fname, args...)."""
    __slots__ = ()

    def __repr__(self):
        return f"{self.a[0]}({', '.join(map(repr, self.a[1:]))})"


class Coro(_T):
    """A not yet started coroutine: (callable value, args tuple, kwargs tuple)."""
    __slots__ = ()


class Aw(_T):
    """External awaitable: (kind, ...)."""
    __slots__ = ()
    kind = property(lambda s: s.a[0])


class Top(_T):
    """Unknown value."""
    __slots__ = ()

    def __repr__(self):
        return f"?{self.a[0] if self.a else ''}"


class Td(_T):
    """timedelta of a Num of microseconds."""
    __slots__ = ()
    us = property(lambda s: s.a[0])


class Exc(NamedTuple):
    """An expression or statement ended by raising the exception object `ref`."""
    ref: Ref


def _num(x):
    return Fraction(x)


class Num(V):
    """Linear form sum(coef*atom)+c.  Atoms are hashable tuples; `isint` tells the Python type."""
    __slots__ = ("t", "c", "isint", "_h")

    def __init__(self, terms, c, isint):
        if isinstance(terms, dict):
            terms = terms.items()
        self.t = tuple(sorted(((a, q) for a, q in terms if q != 0), key=lambda x: repr(x[0])))
        self.c = Fraction(c)
        self.isint = isint
        self._h = hash((self.t, self.c, self.isint))

    def __eq__(self, o):
        return isinstance(o, Num) and self.t == o.t and self.c == o.c and self.isint == o.isint

    def __hash__(self):
        return self._h

    def lin_eq(self, o):
        return self.t == o.t and self.c == o.c

    @property
    def const(self):
        return self.c if not self.t else None

    def __add__(self, o):
        d = dict(self.t)
        for a, q in o.t:
            d[a] = d.get(a, 0) + q
        return Num(d, self.c + o.c, self.isint and o.isint)

    def scale(self, k):
        return Num([(a, q * k) for a, q in self.t], self.c * k,
                   self.isint and Fraction(k).denominator == 1)

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def atoms(self):
        return [a for a, _ in self.t]

    def integral(self):
        """Whether the value is an integer for all values of its (integer) atoms."""
        return self.c.denominator == 1 and all(
            q.denominator == 1 and atom_int(a) for a, q in self.t)

    def __repr__(self):
        s = [f"{'' if q == 1 else '-' if q == -1 else str(q) + '*'}{atom_str(a)}" for a, q in self.t]
        if self.c != 0 or not s:
            s.append(str(self.c))
        return " + ".join(s).replace("+ -", "- ")


def atom_int(a):
    return a[0] in ("i", "round", "floor", "trunc", "ceil", "fdiv") or (
        a[0] == "prod" and all(x.integral() for x in a[1:]))


def atom_str(a):
    if a[0] in ("i", "f"):
        return str(a[1])
    return f"{a[0]}({', '.join(map(repr, a[1:]))})"


def iatom(name):
    """Integer-valued atom."""
    return Num([(("i", name), 1)], 0, True)


def fatom(name):
    """Real-valued atom."""
    return Num([(("f", name), 1)], 0, False)


def tonum(v):
    """Num of a numeric value, or None."""
    if isinstance(v, Num):
        return v
    if isinstance(v, K) and isinstance(v.v, (int, float)) :
        try:
            return Num((), Fraction(v.v), not isinstance(v.v, float))
        except (ValueError, OverflowError):
            return None
    return None


def fromnum(n):
    """Value of a Num (constants become K)."""
    if not n.t:
        if n.isint and n.c.denominator == 1:
            return K(int(n.c))
        return K(float(n.c))
    return n


def num_subst_atoms(n, f):
    """Rename atoms (recursively) by f(atom)->atom for basic atoms."""
    def ra(a):
        if a[0] in ("i", "f"):
            return f(a)
        return (a[0],) + tuple(num_subst_atoms(x, f) if isinstance(x, Num) else x for x in a[1:])
    return Num([(ra(a), q) for a, q in n.t], n.c, n.isint)


def basic_atoms(n, out=None):
    out = set() if out is None else out
    for a in n.atoms():
        if a[0] in ("i", "f"):
            out.add(a)
        else:
            for x in a[1:]:
                if isinstance(x, Num):
                    basic_atoms(x, out)
    return out


# ---- entailment ---------------------------------------------------------------------------------
# A fact is (Num, strict): Num >= 0 (or > 0).


def _norm_fact(n, strict):
    if strict and n.integral():
        return (Num(n.t, n.c - 1, n.isint), False)
    return (n, strict)


def entails_ge(facts, n, strict=False, depth=3):
    """facts |- n >= 0 (n > 0 if strict): search for n = sum(positive*fact) + nonneg constant."""
    n, strict = _norm_fact(n, strict)
    if not n.t:
        return n.c > 0 or (n.c == 0 and not strict)
    k = (facts, n, strict, depth)
    r = _entcache.get(k)
    if r is None:
        if len(_entcache) > 200000:
            _entcache.clear()
        r = _entcache[k] = _ent(sorted(facts, key=repr), n, strict, depth, set())
    return r


_entcache = {}


def _ent(facts, n, strict, depth, seen):
    if not n.t:
        return n.c > 0 or (n.c == 0 and not strict)
    if depth == 0:
        return False
    k = (n, strict, depth)
    if k in seen:
        return False
    seen.add(k)
    a, q = n.t[0]
    for (f, fs) in facts:
        for fa, fq in f.t:
            if fa == a and (fq > 0) == (q > 0):
                lam = q / fq
                if _ent(facts, n - f.scale(lam), strict and not fs, depth - 1, seen):
                    return True
    # also try the other atoms first
    for a, q in n.t[1:]:
        for (f, fs) in facts:
            for fa, fq in f.t:
                if fa == a and (fq > 0) == (q > 0):
                    if _ent(facts, n - f.scale(q / fq), strict and not fs, depth - 1, seen):
                        return True
    return False


def add_fact(facts, n, strict=False):
    """facts plus n>=0; returns None if it contradicts what is known."""
    n, strict = _norm_fact(n, strict)
    if not n.t:
        ok = n.c > 0 or (n.c == 0 and not strict)
        return facts if ok else None
    # contradiction: facts |- -n > 0 (or >= 0 if strict)
    if entails_ge(facts, -n, not strict):
        return None
    return facts | {(n, strict)}
