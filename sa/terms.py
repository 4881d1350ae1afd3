"""Hash-consed dataflow terms: a value is described by the operations that produced it, not by how the
source spells them (locals, helper functions, statement order and call style are normalised away)."""
from __future__ import annotations


class T:
    __slots__ = ("k", "a", "_h", "id", "__weakref__")
    _tab: dict = {}
    _n = 0

    def __new__(cls, k, *a):
        key = (k,) + tuple(((type(x).__name__, x) if not isinstance(x, T) else x) for x in a)
        r = cls._tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.k = k
            r.a = a
            T._n += 1
            r.id = T._n
            r._h = r.id * 1000003 & 0x7FFFFFFF
            cls._tab[key] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def const(v):
    return T("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, v=...):
    return t.k == "const" and (v is ... or (t.a[0] == v and type(t.a[0]) is type(v)))


def op(name, args=(), kw=()):
    return T("op", name, tuple(args), tuple(kw))


def kwd(t):
    """keyword dict of an op/call term"""
    if t.k == "op":
        return dict(t.a[2])
    if t.k == "call":
        return dict(t.a[2])
    return {}


def opname(t):
    return t.a[0] if t.k == "op" else None


def children(t):
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)

    for x in t.a:
        rec(x)
    return out


def walk(t, into=None):
    """All subterms, each once. `into(t)` False => do not descend."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if into is None or into(x):
            st.extend(children(x))


def contains(t, pred):
    if isinstance(pred, T):
        return any(x is pred for x in walk(t))
    return any(pred(x) for x in walk(t))


def alts(t, limit=64):
    """Non-phi alternatives of a term (strips outer phis)."""
    out, st, seen = [], [t], set()
    while st and len(out) < limit:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "phi":
            st.append(x.a[2])
            st.append(x.a[1])
        else:
            out.append(x)
    return out


def galts(t, guards=(), limit=128):
    """(guards, term) alternatives: strips outer phis keeping the conditions."""
    out = []
    st = [(tuple(guards), t)]
    while st and len(out) < limit:
        g, x = st.pop()
        if x.k == "phi":
            c = x.a[0]
            st.append((g + ((c, False),), x.a[2]))
            st.append((g + ((c, True),), x.a[1]))
        else:
            out.append((g, x))
    return out


def subst(t, m, memo=None):
    memo = {} if memo is None else memo

    def rec(x):
        if isinstance(x, T):
            if x in m:
                return m[x]
            r = memo.get(x)
            if r is None:
                r = T(x.k, *[rec(y) for y in x.a])
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x

    return rec(t)


def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    k, a = t.k, t.a
    if k == "const":
        return repr(a[0])
    if k == "param":
        return a[1]
    if k == "self":
        return "self"
    if k == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if k == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if k == "global":
        return str(a[0]).split(".")[-1] if "." in str(a[0]) else str(a[0])
    if k == "call":
        return f"{show(a[0], d)}({', '.join([show(x, d) for x in a[1]] + [f'{n}={show(v, d)}' for n, v in a[2]])})"
    if k == "op":
        return f"{a[0]}({', '.join([show(x, d) for x in a[1]] + [f'{n}={show(v, d)}' for n, v in a[2]])})"
    if k == "phi":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if k == "elem":
        return f"each({show(a[0], d)})"
    if k == "idx":
        return f"idx({show(a[0], d)})"
    if k in ("tuple", "list", "set"):
        return f"{k}[{', '.join(show(x, d) for x in a[0])}]"
    if k == "comp":
        return f"{{{show(a[1], d)} for {', '.join(show(x, d) for x in a[2])}}}"
    if k == "store":
        return f"store({show(a[0], d)}[{show(a[1], d)}]={show(a[2], d)})"
    if k == "slice":
        return ":".join("" if is_const(x, None) else show(x, d) for x in a)
    return f"{k}({', '.join(show(x, d) for x in a)})"
