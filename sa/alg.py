"""Algebraic normal form of estimator terms: rational functions over atoms, with sums over rows kept linear.
Two formulas are equal iff their normal forms are (field axioms + linearity of the row sum); nothing is evaluated."""
from __future__ import annotations
from fractions import Fraction
from .lib import *

IDENT = CAST | {"rearrange", "unsqueeze", "expand", "expand_as", "permute", "transpose", "view", "reshape", "contiguous", "squeeze", "flatten", "unflatten", "movedim", "broadcast_to", "T",
                "clone", "detach", "nan_to_num", "repeat", "repeat_e", "as_tensor", "tensor", "new_tensor", "broadcast_tensors"}


class Need(Exception):
    def __init__(self, c):
        self.c = c


class RF:
    """rational function; polynomials are {monomial: Fraction}, monomial = frozenset((atom, exponent))"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = {m: c for m, c in n.items() if c}
        self.d = d if d is not None else {ONE: Fraction(1)}


ONE = frozenset()


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for k, e in b.items():
            x = dict(m)
            for at, p in k:
                x[at] = x.get(at, 0) + p
            mm = frozenset((i, j) for i, j in x.items() if j)
            out[mm] = out.get(mm, 0) + c * e
    return {m: c for m, c in out.items() if c}


def padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


def rconst(x):
    return RF({ONE: Fraction(x)})


def add(a, b, s=1):
    if a.d == b.d:
        return RF(padd(a.n, b.n, s), a.d)
    return RF(padd(pmul(a.n, b.d), pmul(b.n, a.d), s), pmul(a.d, b.d))


def mul(a, b):
    return RF(pmul(a.n, b.n), pmul(a.d, b.d))


def div(a, b):
    if not b.n:
        return None
    return RF(pmul(a.n, b.d), pmul(a.d, b.n))


def eq(a, b):
    return a is not None and b is not None and pmul(a.n, b.d) == pmul(b.n, a.d)


class Alg:
    """Atoms: ('x', rows) data, ('w', rows) weights, ('N', rows) number of rows, ('f', name, i) functions of interned
    arguments, ('S', monomial) row sums, ('o', term) opaque."""

    def __init__(self, is_data, is_weight):
        self.is_data, self.is_weight = is_data, is_weight
        self.args = {}
        self.memo = {}
        self.opaque = set()
        self.total = {}

    # -- atoms
    def atom(self, a):
        return RF({frozenset({(a, 1)}): Fraction(1)})

    def rowvar(self, a):
        if a[0] in ("x", "w"):
            return True
        if a[0] == "f":
            return self.args[a[1]][a[2]][1]
        if a[0] == "o":
            return contains(a[1], lambda s: self.is_data(s) or self.is_weight(s))
        return False

    def rowvar_rf(self, r):
        return any(self.rowvar(a) for p in (r.n, r.d) for m in p for a, _ in m)

    def fn(self, name, arg):
        lst = self.args.setdefault(name, [])
        for i, (r, _) in enumerate(lst):
            if eq(r, arg) or name == "abs" and eq(r, add(rconst(0), arg, -1)):
                return self.atom(("f", name, i))
        lst.append((arg, self.rowvar_rf(arg)))
        return self.atom(("f", name, len(lst) - 1))

    def rows(self, *rs):
        out = set()

        def rec(a):
            if a[0] in ("x", "w"):
                out.add(a[1])
            elif a[0] == "f":
                r = self.args[a[1]][a[2]][0]
                scan(r)

        def scan(r):
            for p in (r.n, r.d):
                for m in p:
                    for a, _ in m:
                        if a[0] == "S":
                            for b, _ in a[1]:
                                rec(b)
                        else:
                            rec(a)
        for r in rs:
            scan(r)
        return out

    def sum_rows(self, r, rows):
        if any(self.rowvar(a) for m in r.d for a, _ in m):
            i = self.fn("recip", RF(r.d))
            return self.sum_rows(mul(RF(r.n), i), rows)
        out = RF({})
        for m, c in r.n.items():
            rv = frozenset((a, p) for a, p in m if self.rowvar(a))
            cs = frozenset((a, p) for a, p in m if not self.rowvar(a))
            s = self.atom(("S", rv)) if rv else self.atom(("N",))
            out = add(out, mul(RF({cs: c}), s))
        return RF(out.n, pmul(out.d, r.d))

    # -- terms
    def ev(self, t, ch):
        key = t
        if key in self.memo:
            return self.memo[key]
        r = self._ev(t, ch)
        self.memo[key] = r
        return r

    def opq(self, t):
        self.opaque.add(t)
        return self.atom(("o", t))

    def rowsel(self, t, ch):
        """(base, rows) of a row selection chain"""
        rows = ()
        while True:
            if t.k == "phi":
                if t.a[0] not in ch:
                    raise Need(t.a[0])
                t = t.a[1] if ch[t.a[0]] else t.a[2]
            elif t.k == "item" and not self.is_data(t) and not (t.a[1].k == "const" or t.a[1].k in ("tuple",) or t.a[1].k == "slice"):
                rows = (resolve(t.a[1], ch),) + rows
                t = t.a[0]
            elif t.k == "op" and t.a[0] in IDENT | {"index_select"} and t.a[1]:
                t = t.a[1][0]
            else:
                return t, rows

    def log_arg(self, r):
        """q when r is exactly log(q)"""
        if r.d == {ONE: Fraction(1)} and len(r.n) == 1:
            (m, c), = r.n.items()
            if c == 1 and len(m) == 1:
                (a, e), = m
                if e == 1 and a[0] == "f" and a[1] == "log":
                    return self.args["log"][a[2]][0]
        return None

    def indicator(self, t):
        if t.k == "op" and t.a[0] in ("eq", "ne"):
            return True
        if t.k == "op" and t.a[0] in ("and_", "not_"):
            return all(self.indicator(x) for x in t.a[1])
        return t.k == "op" and t.a[0] in IDENT and bool(t.a[1]) and self.indicator(t.a[1][0])

    def flag(self, t, ch):
        """number a decided boolean stands for"""
        if t.k == "const" and isinstance(t.a[0], bool):
            return rconst(int(t.a[0]))
        if t.k == "param" and t in ch:
            return rconst(int(ch[t]))
        return None

    def _ev(self, t, ch):
        if t.k == "phi":
            c = t.a[0]
            if c in ch:
                return self.ev(t.a[1] if ch[c] else t.a[2], ch)
            try:
                a, b = self.ev(t.a[1], ch), self.ev(t.a[2], ch)
            except Need:
                raise
            if eq(a, b):
                return a
            raise Need(c)
        if t.k == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
            f = Fraction(t.a[0]).limit_denominator(10 ** 9)
            return rconst(f)
        if self.is_data(t) or self.is_weight(t):
            return self.atom(("x" if self.is_data(t) else "w", ()))
        if t.k == "store":
            g = guard_store(t)
            if g is not None:
                return self.ev(t.a[0], ch)
            return self.opq(t)
        if t.k == "item":
            if t.a[0].k == "attr" and t.a[0].a[1] == "shape" and is_const(t.a[1], 0):
                return self.atom(("N",))
            if t.a[1].k == "tuple" and all(is_const(x, None) or x.k == "slice" and all(is_const(y, None) for y in x.a) for x in t.a[1].a[0]):
                return self.ev(t.a[0], ch)      # only adds axes
            b, rows = self.rowsel(t, ch)
            if rows and b is not t:
                if self.is_data(b) or self.is_weight(b):
                    return self.atom(("x" if self.is_data(b) else "w", rows))
                v = self.ev(b, ch)
                if not self.rowvar_rf(v):
                    return v
            return self.opq(t)
        if t.k == "op":
            n, a, kw = t.a[0], t.a[1], dict(t.a[2])
            if n in ("ones", "ones_like", "new_ones"):
                return rconst(1)
            if n in ("zeros", "zeros_like", "new_zeros"):
                return rconst(0)
            if n in ("full", "full_like", "new_full"):
                v = kw.get("fill_value") or (a[1] if len(a) > 1 else None)
                return self.ev(v, ch) if v is not None else self.opq(t)
            if n in ("clamp", "clip") and a:
                lo, hi = kw.get("min"), kw.get("max")
                if hi is None and lo is not None and num(lo) is not None and 0 <= num(lo) <= 1e-6:
                    return self.ev(a[0], ch)
                return self.opq(t)
            if n in ("maximum", "max") and len(a) == 2 and not kw:
                for i in (0, 1):
                    if num(a[i]) is not None and 0 < num(a[i]) <= 1e-6:
                        return self.ev(a[1 - i], ch)
                return self.opq(t)
            if n in ("where",) and len(a) == 3:
                g = guard_where(t)
                if g is not None:
                    return self.ev(g, ch)
                if self.indicator(a[0]):      # where(mask, v, u) == u + mask * (v - u)
                    u = self.ev(a[2], ch)
                    return add(u, mul(self.ev(a[0], ch), add(self.ev(a[1], ch), u, -1)))
                return self.opq(t)
            if n == "masked_fill" and len(a) == 3:
                if a[1].k == "op" and a[1].a[0] in CMP and contains(a[1], lambda s: s is strip_guards(a[0])):
                    return self.ev(a[0], ch)
                if self.indicator(a[1]):
                    u = self.ev(a[0], ch)
                    return add(u, mul(self.ev(a[1], ch), add(self.ev(a[2], ch), u, -1)))
                return self.opq(t)
            if n == "and_" and len(a) == 2 and all(self.indicator(x) for x in a):
                return mul(self.ev(a[0], ch), self.ev(a[1], ch))
            if n == "not_" and len(a) == 1 and self.indicator(a[0]):
                return add(rconst(1), self.ev(a[0], ch), -1)
            if n == "ne" and len(a) == 2:
                return add(rconst(1), self.opq(op("eq", a)), -1)
            if n == "einsum" and len(a) == 3 and a[0].k == "const" and isinstance(a[0].a[0], str):
                l, _, o = a[0].a[0].replace(" ", "").partition("->")
                ins = l.split(",")
                if len(ins) == 2 and ins[0] == ins[1] and len(set(ins[0])) == len(ins[0]) and o in (ins[0], ins[0][1:]):
                    v = mul(self.ev(a[1], ch), self.ev(a[2], ch))
                    return v if o == ins[0] else self.sum_rows(v, None)
                return self.opq(t)
            if n in IDENT and a:
                return self.ev(a[0], ch)
            if n in ("add", "sub", "mul", "div") and len(a) >= 2:
                x, y = self.ev(a[0], ch), self.ev(a[1], ch)
                al = kw.get("alpha")
                if al is not None:
                    y = mul(y, self.ev(al, ch))
                p, q = self.log_arg(x), self.log_arg(y)
                if p is not None and q is not None and n in ("add", "sub"):
                    z = mul(p, q) if n == "add" else div(p, q)
                    if z is not None:
                        return self.fn("log", z)
                r = add(x, y) if n == "add" else add(x, y, -1) if n == "sub" else mul(x, y) if n == "mul" else div(x, y)
                return r if r is not None else self.opq(t)
            if n == "neg" and a:
                return add(rconst(0), self.ev(a[0], ch), -1)
            if n == "square" and a:
                x = self.ev(a[0], ch)
                return mul(x, x)
            if n in ("pow", "float_power") and len(a) == 2 and num(a[1]) is not None:
                e = num(a[1])
                x = self.ev(a[0], ch)
                if e == int(e) and abs(e) <= 4:
                    r = rconst(1)
                    for _ in range(abs(int(e))):
                        r = mul(r, x)
                    return r if e >= 0 else (div(rconst(1), r) or self.opq(t))
                if e == 0.5:
                    return self.fn("sqrt", x)
                if e == -0.5:
                    return div(rconst(1), self.fn("sqrt", x))
                return self.opq(t)
            if n == "reciprocal" and a:
                return div(rconst(1), self.ev(a[0], ch)) or self.opq(t)
            if n == "rsqrt" and a:
                return div(rconst(1), self.fn("sqrt", self.ev(a[0], ch)))
            if n == "xlogy" and len(a) == 2:
                return mul(self.ev(a[0], ch), self.fn("log", self.ev(a[1], ch)))
            if n == "exp" and a:
                x = self.ev(a[0], ch)
                for i, (r, _) in enumerate(self.args.get("log", [])):
                    if eq(x, self.atom(("f", "log", i))):
                        return r
                return self.fn("exp", x)
            if n == "abs" and a:
                return self.fn("abs", self.ev(a[0], ch))
            if n == "sigmoid" and a:
                x = self.ev(a[0], ch)
                for i, (r, _) in enumerate(self.args.get("log", [])):
                    if eq(x, self.atom(("f", "log", i))):
                        return div(r, add(rconst(1), r)) or self.opq(t)
                return self.fn("sigmoid", x)
            if n == "logit" and len(a) == 1 and not kw:
                x = self.ev(a[0], ch)
                q = div(x, add(rconst(1), x, -1))
                return self.fn("log", q) if q is not None else self.opq(t)
            if n == "log1p" and a:
                return self.fn("log", add(rconst(1), self.ev(a[0], ch)))
            if n in ("sqrt", "log", "expm1") and a:
                return self.fn(n, self.ev(a[0], ch))
            if n in ("float", "int") and len(a) == 1 and self.flag(a[0], ch) is not None:
                return self.flag(a[0], ch)
            if n in ("eq",) and len(a) == 2:
                return self.fn("eq", self.ev(a[0], ch)) if False else self.opq(t)
            if n in ("sum", "mean") and a:
                if n == "sum" and a[0].k == "item" and self.indicator(a[0].a[1]):      # v[mask].sum(0) == (v * mask).sum(0)
                    a = (op("mul", (a[0].a[0], a[0].a[1])),)
                d = kw.get("dim", kw.get("axis"))
                if d is None or not (is_const(d, 0) or (d.k in ("tuple", "list") and len(d.a[0] if d.a and isinstance(d.a[0], tuple) else d.a) == 1 and contains(d, lambda s: is_const(s, 0)))):
                    x = self.ev(a[0], ch)      # sum over everything: one number, no row axis left
                    return self.fn(n + ":all", self.sum_rows(x, None)) if d is None else self.opq(t)
                s = self.sum_rows(self.ev(a[0], ch), None)
                return s if n == "sum" else div(s, self.atom(("N",)))
            return self.opq(t)
        if t.k == "call":
            h = t.a[0]
            nm = str(h.a[-1]).split(".")[-1] if h.k in ("attr", "global") else ""
            if nm in ("float", "int") and len(t.a[1]) == 1 and self.flag(t.a[1][0], ch) is not None:
                return self.flag(t.a[1][0], ch)
            if nm == "clamp_min" and h.k == "attr":
                m = num(t.a[1][0]) if t.a[1] else None
                if m is not None and 0 <= m <= 1e-6:
                    return self.ev(h.a[0], ch)
            return self.opq(t)
        return self.opq(t)


def strip_unit(t):
    """t without shape changes, multiplication by one and addition of zero"""
    while True:
        if t.k == "op" and t.a[0] in IDENT and t.a[1]:
            t = t.a[1][0]
        elif t.k == "op" and t.a[0] in ("mul", "div") and len(t.a[1]) == 2 and num(t.a[1][1]) == 1:
            t = t.a[1][0]
        elif t.k == "op" and t.a[0] in ("add", "sub") and len(t.a[1]) == 2 and num(t.a[1][1]) == 0:
            t = t.a[1][0]
        else:
            return t


def resolve(t, ch):
    """t with all decided conditions applied"""
    m = {}
    for s in walk(t):
        if s.k == "phi" and s.a[0] in ch:
            m[s] = s.a[1] if ch[s.a[0]] else s.a[2]
    if not m:
        return t
    r = subst(t, m)
    return resolve(r, ch) if r is not t else r


CMP = {"le", "lt", "ge", "gt", "isclose", "isnan", "isinf", "isposinf", "isneginf", "not_", "or_", "and_", "isfinite", "eq"}


def guard_store(t):
    """`v[mask] = bound` where mask compares v itself: (kind, mask); None for any other store"""
    m = t.a[1]
    if m.k == "op" and m.a[0] in CMP:
        base = strip_guards(t.a[0])
        if contains(m, lambda s: s is base or (s is core(base))):
            return m
    return None


def strip_guards(t):
    while True:
        if t.k == "op" and t.a[0] in ("clone", "detach") and t.a[1]:
            t = t.a[1][0]
        elif t.k == "store" and t.a[1].k == "op" and t.a[1].a[0] in CMP:
            t = t.a[0]
        elif t.k == "phi":
            a, b = strip_guards(t.a[1]), strip_guards(t.a[2])
            if a is b:
                return a
            return t
        else:
            return t


LIKE = ("expand_as", "type_as", "view_as", "reshape_as", "gather", "take_along_dim", "index_select")


def values(t, seen=None):
    """subterms t takes its element values from (selection indices and shape donors excluded)"""
    seen = set() if seen is None else seen
    if t in seen or shape_only(t):
        return
    seen.add(t)
    yield t
    if t.k == "op":
        n, a = t.a[0], t.a[1]
        if n.endswith("_like") or n.startswith("new_"):
            return
        kids = a[:1] if n in LIKE else list(a) + [x for _, x in t.a[2]]
    elif t.k == "item":
        kids = [t.a[0]]
    elif t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in LIKE:
        kids = [t.a[0].a[0]]
    elif t.k == "phi":
        kids = t.a[1:]
    else:
        kids = children(t)
    for x in kids:
        yield from values(x, seen)


def guard_where(t):
    m, a, b = t.a[1]
    if m.k == "op" and m.a[0] in CMP:
        for x, y in ((a, b), (b, a)):
            if (num(x) is not None or not any(s is strip_guards(y) or s.k == "param" and s.a[-1] in ("data", "weights") for s in values(x))) and contains(m, lambda s: s is strip_guards(y)):
                return y
    return None


def cases(fn, limit=256, start=None):
    """run fn(choice) for every consistent assignment of the conditions it asks for"""
    out, st = [], [dict(start or {})]
    while st and len(out) < limit:
        ch = st.pop()
        try:
            out.append((ch, fn(ch)))
        except Need as n:
            for v in (False, True):
                st.append({**ch, n.c: v})
    return out
