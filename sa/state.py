"""Abstract machine state: heap of abstract objects, frames, ghost monitors, known inequalities."""
from __future__ import annotations

from .values import (Aw, App, Bound, ClsV, Coro, EnumM, Exc, Ext, ExtM, Fn, K, Mod, Num, Partial, Ref,
                     Slice, SuperV, Td, Tok, Top, Tup, V, _T, basic_atoms, num_subst_atoms)


class Seg(_T):
    """A run of unknown length in a container: Seg(kind, id, lpos, rpos, lo); len >= lo."""
    __slots__ = ()
    kind = property(lambda s: s.a[0])
    sid = property(lambda s: s.a[1])
    lo = property(lambda s: s.a[4])

    def with_lo(self, lo):
        return Seg(*self.a[:4], lo)

    def popl(self):
        k, i, l, r, lo = self.a
        return Tok(k, ("s", i, l)), Seg(k, i, l + 1, r, max(lo - 1, 0))

    def popr(self):
        k, i, l, r, lo = self.a
        return Tok(k, ("s", i, -1 - r)), Seg(k, i, l, r + 1, max(lo - 1, 0))

    def __repr__(self):
        return f"{self.kind}*[{self.sid}+{self.a[2]}-{self.a[3]}]{'≥1' if self.lo else ''}"


class Obj:
    __slots__ = ("kind", "cls", "f", "items", "x")

    def __init__(self, kind, cls=None, f=None, items=None, x=None):
        self.kind, self.cls = kind, cls
        self.f = f if f is not None else {}
        self.items = items
        self.x = x if x is not None else {}

    def copy(self):
        return Obj(self.kind, self.cls, dict(self.f), None if self.items is None else list(self.items),
                   dict(self.x))

    def __repr__(self):
        c = getattr(self.cls, "name", self.cls)
        return f"{self.kind}{':' + str(c) if c else ''}{self.f if self.f else ''}" \
               f"{self.items if self.items is not None else ''}{self.x if self.x else ''}"


class State:
    __slots__ = ("heap", "nxt", "own", "frames", "roots", "mon", "facts", "hand", "trace", "mute",
                 "heads", "depth")

    def __init__(self):
        self.heap, self.nxt, self.own = {}, 1, set()
        self.frames = ()          # oids of active frames
        self.roots = {}           # scenario-visible values
        self.mon = {}             # ghost monitor values (hashable)
        self.facts = frozenset()  # known inequalities
        self.hand = ()            # exceptions being handled
        self.trace = None         # linked list of notes
        self.mute = 0             # >0: executing somebody else's segment (no monitoring)
        self.heads = frozenset()  # loop heads passed since the last suspension
        self.depth = 0

    def clone(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.nxt = self.nxt
        s.own = set()
        self.own = set()
        s.frames, s.hand = self.frames, self.hand
        s.roots, s.mon = dict(self.roots), dict(self.mon)
        s.facts, s.trace, s.mute, s.heads, s.depth = self.facts, self.trace, self.mute, self.heads, self.depth
        return s

    def new(self, kind, cls=None, f=None, items=None, **x):
        oid = self.nxt
        self.nxt += 1
        self.heap[oid] = Obj(kind, cls, f, items, x)
        self.own.add(oid)
        return Ref(oid)

    def fresh(self, hint="v"):
        self.nxt += 1
        return ("~", hint, self.nxt - 1)

    def o(self, r):
        return self.heap[r.oid if isinstance(r, Ref) else r]

    def w(self, r):
        oid = r.oid if isinstance(r, Ref) else r
        if oid not in self.own:
            self.heap[oid] = self.heap[oid].copy()
            self.own.add(oid)
        return self.heap[oid]

    def note(self, msg):
        self.trace = (msg, self.trace)

    def notes(self):
        out, t = [], self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        return out[::-1]


_ATOMIC = (Ext, Mod, ClsV, EnumM, K)
_XSKIP = ("mod", "fn")


def canon(st, extra=(), glob=(), skip=("memo",), facts=True):
    """Hashable key of a state modulo object identities, fresh names and garbage."""
    ids, order, names = {}, [], {}

    def nm(n):
        """Rename fresh names."""
        if isinstance(n, tuple) and n:
            if n[0] == "~":
                k = names.get(n)
                if k is None:
                    k = names[n] = ("~", n[1], len(names))
                return k
            if n[0] == "s":
                k = names.get(n)
                if k is None:
                    k = names[n] = ("s", len(names))
                return k
            return tuple(nm(x) for x in n)
        return n

    def atom(a):
        return (a[0], nm(a[1]))

    def val(v):
        if isinstance(v, Ref):
            i = ids.get(v.oid)
            if i is None:
                i = ids[v.oid] = len(ids)
                order.append(v.oid)
            return ("R", i)
        if isinstance(v, K):
            return v._k()
        if isinstance(v, _ATOMIC):
            return v
        if isinstance(v, Num):
            return num_subst_atoms(v, atom)
        if isinstance(v, Tok):
            return ("Tok", v.a[0], nm(v.a[1]), *map(val, v.a[2:]))
        if isinstance(v, Seg):
            k, i, l, r, lo = v.a
            return ("Seg", k, nm(("s", i, l)), nm(("s", i, -1 - r)), lo)
        if isinstance(v, Fn):
            return ("Fn", v.a[0], val(Ref(v.a[1])) if v.a[1] else None)
        if isinstance(v, _T):
            return (type(v).__name__, *map(val, v.a))
        if isinstance(v, Exc):
            return ("Exc", val(v.ref))
        if isinstance(v, (tuple, list)):
            return tuple(map(val, v))
        if isinstance(v, frozenset):
            return frozenset(map(val, v))
        if isinstance(v, dict):
            return tuple((k, val(x)) for k, x in sorted(v.items(), key=lambda i: str(i[0])))
        return v

    out = [val(extra)]
    out.append(tuple(val(Ref(f)) for f in st.frames))
    out.append(val(st.hand))
    out.append(tuple((k, val(v)) for k, v in sorted(st.roots.items())))
    memo = st.mon.get("memo")
    out.append(tuple((k, val(v)) for k, v in sorted(st.mon.items()) if k not in skip))
    for g in glob:
        val(Ref(g))
    i = 0
    while i < len(order):
        o = st.heap[order[i]]
        i += 1
        if o.kind == "wref":
            # the target is reached weakly; keep identity if otherwise known
            t = o.f.get("target")
            out.append(("wref", val(t)))
            continue
        fs = tuple((k, val(v)) for k, v in sorted(o.f.items()))
        its = None
        if o.items is not None:
            its = tuple(val(x) for x in o.items)
        xs = tuple((str(k), val(v)) for k, v in sorted(o.x.items(), key=lambda i: str(i[0])) if k not in _XSKIP)
        out.append((o.kind, o.cls if isinstance(o.cls, str) else id(o.cls), fs, its, xs))
    if memo:
        out.append(frozenset(val(m) for m in memo if _known(m[0], ids, names)))
    fk = []
    for n, s in st.facts if facts else ():
        if all((a[1][0] if isinstance(a[1], tuple) else None) != "~" or a[1] in names
               for a in basic_atoms(n)):
            fk.append((num_subst_atoms(n, atom), s))
    return hash((tuple(out), frozenset(fk))), len(out), len(fk)


def _known(v, ids, names):
    """Whether every object and fresh name in v is reachable."""
    if isinstance(v, Ref):
        return v.oid in ids
    if isinstance(v, Tok):
        n = v.a[1]
        return not (isinstance(n, tuple) and n and n[0] in ("~", "s")) or n in names
    if isinstance(v, _T):
        return all(_known(x, ids, names) for x in v.a)
    if isinstance(v, (tuple, list)):
        return all(_known(x, ids, names) for x in v)
    return True


WEAKKEY = K("key")


def reach(st, roots, weak=False, stop=()):
    """oids reachable from the values `roots` through strong references."""
    seen, todo = set(), list(roots)

    def push(v):
        if isinstance(v, Ref):
            todo.append(v)
        elif isinstance(v, Fn):
            if v.a[1]:
                todo.append(Ref(v.a[1]))
        elif isinstance(v, App):
            if weak:  # hash(x), str(x), id(x) ... do not keep x alive
                for x in v.a:
                    push(x)
        elif isinstance(v, _T):
            for x in v.a:
                push(x)
        elif isinstance(v, (tuple, list, frozenset)):
            for x in v:
                push(x)
        elif isinstance(v, dict):
            for x in v.values():
                push(x)

    todo2, todo = todo, []
    for v in todo2:
        push(v)
    while todo:
        r = todo.pop()
        if r.oid in seen or r.oid in stop:
            continue
        seen.add(r.oid)
        o = st.heap[r.oid]
        if o.kind == "wref" and not weak:
            continue
        for v in o.f.values():
            push(v)
        if not (o.x.get("weak") and not weak):
            for v in o.items or ():
                push(v)
        elif o.x["weak"] == WEAKKEY:
            for v in o.items:
                push(v.a[1])
        for v in o.x.values():
            push(v)
    return seen


def toks_in(v, kind="msg"):
    """Tokens of a kind contained in a value."""
    if isinstance(v, Tok):
        return [v] if v.a[0] == kind else []
    if isinstance(v, _T):
        out = []
        for x in v.a:
            if isinstance(x, (V, tuple)):
                out += toks_in(x, kind)
        return out
    if isinstance(v, (tuple, list)):
        out = []
        for x in v:
            out += toks_in(x, kind)
        return out
    return []
