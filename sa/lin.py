"""Linear normal form of losses and averages: polynomials with rational coefficients over terms, linear under mean/sum."""
from __future__ import annotations
from fractions import Fraction
from .lib import *
from .alg import Need, cases, pmul, padd

KEEP = {"to", "float", "double", "contiguous", "squeeze", "view", "reshape", "flatten", "unsqueeze", "cpu"}


def poly(c):
    return {frozenset(): Fraction(c)} if c else {}


def atom(t):
    return {frozenset({(t, 1)}): Fraction(1)}


def scalar(t):
    """loss weights, hyperparameters and sizes: constant under the batch mean"""
    if t.k == "T":
        return False
    t = core(t)
    if t.k == "sym":
        return t.a[0] == "N"
    if t.k == "param":
        return t.a[-1] not in ("data", "x", "batch")
    return t.k == "attr" and not contains(t, lambda s: s.k in ("call", "op"))


def is_size(t):
    t = core(t)
    if t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] in ("int", "float") and t.a[1]:
        return is_size(t.a[1][0])
    if t.k == "op" and t.a[0] in ("int", "float") and t.a[1]:
        return is_size(t.a[1][0])
    if t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "shape":
        return is_const(t.a[1], 0)
    if t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] == "len":
        return True
    return t.k == "op" and (t.a[0] == "len" or t.a[0] == "size" and (len(t.a[1]) > 1 and is_const(t.a[1][1], 0) or is_const(dict(t.a[2]).get("dim", NONE), 0)))


class Lin:
    def __init__(self, ident=(), rename=None):
        self.ident = KEEP | set(ident)
        self.rename = rename

    def ev(self, t, ch):
        if self.rename is not None:
            r = self.rename(t, ch)
            if r is not None:
                return atom(r)
        if t.k == "phi":
            if t.a[0] in ch:
                return self.ev(t.a[1] if ch[t.a[0]] else t.a[2], ch)
            v = known(t.a[0], ch)
            if v is not None:
                return self.ev(t.a[1] if v else t.a[2], ch)
            raise Need(t.a[0])
        if t.k == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
            return poly(Fraction(t.a[0]).limit_denominator(10 ** 9))
        if is_size(t):
            return atom(T("sym", "N"))
        if t.k == "op":
            n, a, kw = t.a[0], t.a[1], dict(t.a[2])
            if n in self.ident and a:
                return self.ev(a[0], ch)
            if n in ("zeros", "zeros_like", "new_zeros"):
                return {}
            if n in ("add", "sub") and len(a) == 2:
                y = self.ev(a[1], ch)
                if kw.get("alpha") is not None:
                    y = pmul(y, self.ev(kw["alpha"], ch))
                return {m: c for m, c in padd(self.ev(a[0], ch), y, 1 if n == "add" else -1).items() if c}
            if n in ("neg", "negative") and a:
                return {m: -c for m, c in self.ev(a[0], ch).items()}
            if n == "mul" and len(a) == 2:
                return pmul(self.ev(a[0], ch), self.ev(a[1], ch))
            if n == "div" and len(a) == 2:
                d = self.ev(a[1], ch)
                if len(d) == 1:
                    (m, c), = d.items()
                    return pmul(self.ev(a[0], ch), {frozenset((x, -e) for x, e in m): 1 / c})
                return atom(self.res(t, ch))
            if n in ("mean", "sum") and a and (kw.get("dim") is None and kw.get("axis") is None and len(a) == 1):
                out = {}
                for m, c in self.ev(a[0], ch).items():
                    s = frozenset(x for x in m if scalar(x[0]))
                    r = frozenset(x for x in m if not scalar(x[0]))
                    f = atom(T("red", n, tuple(sorted(((x.id, e) for x, e in r))), *[x for x, _ in sorted(r, key=lambda z: z[0].id)])) if r else (poly(1) if n == "mean" else atom(T("sym", "N")))
                    out = padd(out, pmul({s: c}, f))
                return {m: c for m, c in out.items() if c}
        if t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] in ("float",) and len(t.a[1]) == 1:
            return self.ev(t.a[1][0], ch)
        return atom(self.res(t, ch))

    def res(self, t, ch):
        """t with decided branches applied"""
        for _ in range(12):
            m = {}
            for s in walk(t):
                if s.k == "phi":
                    v = ch.get(s.a[0])
                    if v is None:
                        v = known(s.a[0], ch)
                    if v is not None:
                        m[s] = s.a[1] if v else s.a[2]
            if not m:
                return t
            t = subst(t, m)
        return t


def known(c, ch):
    """truth of a compound condition from decided atoms"""
    if c in ch:
        return ch[c]
    if c.k == "const":
        return bool(c.a[0])
    if c.k == "op" and c.a[0] in ("and", "or") and c.a[1]:
        vs = [known(x, ch) for x in c.a[1]]
        if c.a[0] == "and":
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)
    if c.k == "op" and c.a[0] == "not":
        v = known(c.a[1][0], ch)
        return None if v is None else not v
    if c.k == "op" and c.a[0] == "isnot":
        v = known(op("is", c.a[1]), ch)
        return None if v is None else not v
    return None
