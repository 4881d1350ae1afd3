"""Normal form of closed-form density integrals: exp/log/power expressions over parameters with explicit axis layouts.

A value is a sum of (rational function) * exp(rational function).  Logarithms are split over products, exponentials over sums,
so `exp(a) * exp(b)`, `exp(a + b)` and `exp(a) / exp(-b)` have one form; sums over an axis and comparison masks are atoms.
Two formulas are equal iff their normal forms are.  Nothing is evaluated."""
from __future__ import annotations
from fractions import Fraction
from math import gcd
from .lib import *
from .alg import RF, ONE, pmul, padd, rconst

PI = 3.141592653589793
STRIP = {"to", "float", "double", "contiguous", "clone", "detach", "nan_to_num", "as_tensor", "type_as", "requires_grad_", "cpu", "broadcast_to", "expand", "expand_as"}
VIEW = {"rearrange", "unsqueeze", "permute", "transpose", "view", "reshape", "squeeze", "flatten", "movedim"}
ELEM = {"exp", "log", "sqrt", "rsqrt", "pow", "abs", "lgamma", "i0", "i0e", "i1", "expm1", "log1p", "neg", "add", "sub", "mul", "div", "maximum", "minimum", "max", "min", "clamp", "where", "sum", "mean", "prod",
        "logsumexp", "square", "reciprocal", "le", "lt", "ge", "gt", "eq", "ne", "and_", "or_", "not_", "isclose", "sign", "floor", "ceil", "round", "sin", "cos", "tanh", "sigmoid", "digamma", "erf", "item", "slice",
        "logaddexp", "xlogy", "erfc", "logit", "cumsum", "amax", "amin"}


class Stuck(Exception):
    pass


def uncast(t):
    while True:
        if t.k == "op" and t.a[0] == "cast" and len(t.a[1]) == 2:
            t = t.a[1][1]
        elif t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] == "cast" and len(t.a[1]) == 2:
            t = t.a[1][1]
        else:
            return t


def each(t):
    """(source, value) of a list holding one value per element of the source: a comprehension or an append loop"""
    t = uncast(t)
    if t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] in ("list", "tuple") and len(t.a[1]) == 1:
        return each(t.a[1][0])
    if t.k == "comp" and len(t.a[2]) == 1 and not t.a[3]:
        src = t.a[2][0]
        while True:
            s = each(src)
            if s is None:
                return src, t.a[1]
            src = s[0]
    if t.k == "phi" and t.a[0].k == "ran":
        src, st, base = t.a[0].a[0], t.a[1], t.a[2]
        if st.k == "store" and is_const(st.a[1], "#append") and base.k == "list" and not base.a[0]:
            prev = st.a[0]
            if prev.k == "phi" and prev.a[0].k == "loopcarried" and prev.a[0].a[0] is src:
                v = st.a[2]
                return src, (v.a[0][0] if v.k == "tuple" and len(v.a[0]) == 1 else v)
    return None


class IP:
    def __init__(self, ren=None, hook=None, pull=(), flat=False, assume=None):
        self.hook, self.pullnames, self.flat, self.assume = hook, set(pull), flat, assume or (lambda c: None)
        self.vals = []          # interned values
        self.names = set()      # structural operators met
        self.memo = {}
        self.ren = ren or {}

    # ---- interning
    def intern(self, v):
        for i, w in enumerate(self.vals):
            if self.same(v, w):
                return i
        self.vals.append(v)
        return len(self.vals) - 1

    # ---- rational functions with fractional powers of interned polynomials ('B', i)
    def expand(self, r):
        """integer powers of ('B', i) atoms multiplied out"""
        for _ in range(8):
            hit = None
            for p in (r.n, r.d):
                for m in p:
                    for a, e in m:
                        if a[0] == "B" and abs(e) >= 1:
                            hit = True
            if not hit:
                return r
            n, d = r.n, r.d
            # common factor out of every monomial first: smallest exponent of each B atom
            out_n, out_d = self._exp_poly(n), self._exp_poly(d)
            r = RF(pmul(out_n[0], out_d[1]), pmul(out_d[0], out_n[1]))
        return r

    def _exp_poly(self, p):
        bs = {}
        for m in p:
            for a, e in m:
                if a[0] == "B":
                    lo = int(e) if e == int(e) else (int(e) if e > 0 else int(e))
                    bs[a] = min(bs.get(a, 0), lo if e < 0 else 0)
        den = {ONE: Fraction(1)}
        for a, e in bs.items():
            for _ in range(-e):
                den = pmul(den, self.vals[a[1]][0][0].n)
        out = {}
        for m, c in p.items():
            x = {}
            pol = {ONE: c}
            for a, e in m:
                if a[0] == "B":
                    e = e - bs.get(a, 0)
                    k = int(e)
                    for _ in range(k):
                        pol = pmul(pol, self.vals[a[1]][0][0].n)
                    e = e - k
                if e:
                    x[a] = e
            mm = frozenset(x.items())
            out = padd(out, pmul(pol, {mm: Fraction(1)}))
        return {m: c for m, c in out.items() if c}, den

    def rr(self, n):
        return {m: c for m, c in n.items() if c}

    def radd(self, a, b, s=1):
        if a.d == b.d:
            return RF(padd(a.n, b.n, s), a.d)
        return RF(padd(pmul(a.n, b.d), pmul(b.n, a.d), s), pmul(a.d, b.d))

    def rmul(self, a, b):
        return RF(pmul(a.n, b.n), pmul(a.d, b.d))

    def req(self, a, b):
        a, b = self.expand(a), self.expand(b)
        x = padd(pmul(a.n, b.d), pmul(b.n, a.d), -1)
        x = self.idem({m: c for m, c in x.items() if c})
        if not x:
            return True
        if any(at[0] == "B" for m in x for at, _ in m):
            y = self._exp_poly(x)[0]
            return not y
        return False

    def idem(self, p):
        """indicator atoms are idempotent"""
        out = {}
        for m, c in p.items():
            mm = frozenset((a, 1 if a[0] == "ind" and e > 0 else e) for a, e in m)
            out[mm] = out.get(mm, 0) + c
        return {m: c for m, c in out.items() if c}

    def rzero(self, r):
        return not self.idem(r.n)

    # ---- values: list of (coef RF, expo RF)
    def atom(self, a):
        return [(RF({frozenset({(a, 1)}): Fraction(1)}), rconst(0))]

    def const(self, c):
        return [(rconst(c), rconst(0))]

    def norm(self, v):
        out = []
        for c, e in v:
            if self.rzero(c):
                continue
            for i, (c2, e2) in enumerate(out):
                if self.req(e, e2):
                    out[i] = (self.radd(c2, c), e2)
                    break
            else:
                out.append((c, e))
        return [(c, e) for c, e in out if not self.rzero(c)]

    def add(self, a, b, s=1):
        return self.norm(a + [(RF({m: c * s for m, c in x.n.items()}, x.d), e) for x, e in b])

    def mul(self, a, b):
        if len(a) * len(b) > 64:
            raise Stuck("expression too large")
        return self.norm([(self.clean(self.rmul(x, y)), self.radd(e, f)) for x, e in a for y, f in b])

    def clean(self, r):
        return RF(self.idem(r.n), r.d)

    def inv(self, a):
        if len(a) == 1:
            (c, e), = a
            if not c.n:
                raise Stuck("division by zero")
            return [(RF(c.d, c.n), RF({m: -x for m, x in e.n.items()}, e.d))]
        if not a:
            raise Stuck("division by zero")
        return [(RF({frozenset({(("V", self.intern(a)), -1)}): Fraction(1)}), rconst(0))]

    def same(self, a, b):
        d = self.norm(a + [(RF({m: -c for m, c in x.n.items()}, x.d), e) for x, e in b])
        return not d

    def plain(self, v):
        """the rational function v, or None"""
        if not v:
            return rconst(0)
        if len(v) == 1 and self.rzero(v[0][1]):
            return v[0][0]
        return None

    # ---- log / exp
    def logpoly(self, p):
        """log of a polynomial as an RF: constants, single atoms and the rest separately"""
        out = {}
        ms = list(p.items())
        common = dict(ms[0][0])
        for m, _ in ms[1:]:
            d = dict(m)
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)}
        lead = sorted(((self.key(m), c) for m, c in ms), key=lambda x: x[0])[0][1]
        cont = abs(lead)
        prim = {}
        for m, c in ms:
            x = dict(m)
            for a, e in common.items():
                x[a] = x[a] - e
            prim[frozenset((a, e) for a, e in x.items() if e)] = c / cont
        res = self.logconst(cont)
        for a, e in common.items():
            t = self.logatom(a)
            for m, c in t.items():
                res[m] = res.get(m, 0) + c * e
        if prim != {ONE: Fraction(1)}:
            i = self.intern([(RF(prim), rconst(0))])
            m = frozenset({(("log", i), 1)})
            res[m] = res.get(m, 0) + 1
        return self.rr(res)

    def key(self, m):
        return sorted((repr(a), e) for a, e in m)

    def logatom(self, a):
        if a[0] == "B":
            return {frozenset({(("log", a[1]), 1)}): Fraction(1)}
        i = self.intern([(RF({frozenset({(a, 1)}): Fraction(1)}), rconst(0))])
        return {frozenset({(("log", i), 1)}): Fraction(1)}

    def logconst(self, c):
        out = {}
        if c == 1:
            return out
        n, d = c.numerator, c.denominator
        for x, s in ((n, 1), (d, -1)):
            p = 2
            while x > 1 and p < 100:
                while x % p == 0:
                    m = frozenset({(("logc", p), 1)})
                    out[m] = out.get(m, 0) + s
                    x //= p
                p += 1
            if x > 1:
                m = frozenset({(("logc", x), 1)})
                out[m] = out.get(m, 0) + s
        return out

    def log(self, v):
        if not v:
            return self.atom(("neginf",))
        if len(v) == 1:
            (c, e), = v
            c = self.expand(c)
            lead = sorted(((self.key(m), x) for m, x in c.n.items()), key=lambda x: x[0])[0]
            r = RF(padd(self.logpoly(c.n), self.logpoly(c.d), -1))
            return self.norm([(self.radd(r, e), rconst(0))])
        return self.atom(("log", self.intern(v)))

    def exp(self, v):
        r = self.plain(v)
        if r is None:
            return self.atom(("exp", self.intern(v)))
        coef = {ONE: Fraction(1)}
        rest = {}
        if r.d and list(r.d) == [ONE]:
            k = r.d[ONE]
            x = {}
            for m, c in r.n.items():
                c = c / k
                if len(m) == 1:
                    (a, e), = m
                    if e == 1 and a == ("neginf",) and c > 0:
                        return []
                    if e == 1 and a[0] == "log":
                        self.powinto(x, a[1], c)
                        continue
                    if e == 1 and a[0] == "logc":
                        if c == int(c):
                            coef = {mm: q * Fraction(a[1]) ** int(c) for mm, q in coef.items()}
                        else:
                            b = ("B", self.intern([(rconst(a[1]), rconst(0))]))
                            x[b] = x.get(b, 0) + c
                        continue
                rest[m] = rest.get(m, 0) + c
            mm = frozenset((a, e) for a, e in x.items() if e)
            coef = pmul(coef, {mm: Fraction(1)})
            return self.norm([(self.expand(RF(coef)), RF(rest))])
        # terms c * log(x) over a common denominator: pull them out before splitting
        n, pulled = dict(r.n), {}
        for at in sorted({a for m in n for a, e in m if e == 1 and a[0] in ("log", "logc")}, key=repr):
            part = {frozenset(y for y in m if y[0] != at): c for m, c in n.items() if (at, 1) in m}
            (dm, dc) = sorted(r.d.items(), key=lambda y: self.key(y[0]))[0]
            c = part.get(dm, 0) / dc
            if c and not {m: q for m, q in padd(part, {m: c * q for m, q in r.d.items()}, -1).items() if q}:
                pulled[at] = c
                n = {m: q for m, q in n.items() if (at, 1) not in m}
        if pulled:
            return self.mul(self.exp([(RF({frozenset({(a, 1)}): c for a, c in pulled.items()}), rconst(0))]), self.exp([(RF(n, r.d), rconst(0))]))
        return self.norm([(rconst(1), r)])

    def powinto(self, x, i, c):
        v = self.vals[i]
        if len(v) == 1 and self.rzero(v[0][1]):
            q = v[0][0]
            if len(q.n) == 1 and list(q.d) == [ONE] and q.d[ONE] == 1:
                (m, k), = q.n.items()
                if k == 1 and len(m) == 1:
                    (a, e), = m
                    x[a] = x.get(a, 0) + c * e
                    return
            if list(q.d) == [ONE] and q.d[ONE] == 1:
                x[("B", i)] = x.get(("B", i), 0) + c
                return
        x[("V", i)] = x.get(("V", i), 0) + c

    def pow(self, v, e):
        e = Fraction(e).limit_denominator(1000)
        if e == int(e) and abs(e) <= 4:
            r = self.const(1)
            for _ in range(abs(int(e))):
                r = self.mul(r, v)
            return r if e >= 0 else self.inv(r)
        l = self.log(v)
        return self.exp([(self.rmul(c, rconst(e)), x) for c, x in l])

    def isnum(self, v):
        p = self.plain(v)
        if p is None:
            return None
        if not p.n:
            return Fraction(0)
        if list(p.n) == [ONE] and list(p.d) == [ONE]:
            return p.n[ONE] / p.d[ONE]
        return None

    # ---- layouts: views is a tuple applied innermost first
    def layout(self, views):
        lay = None
        for v in views:
            if v[0] == "rearrange":
                l, r = v[1].split("->")
                l, r = l.split(), r.split()
                if any("(" in x or "." in x for x in l + r):
                    return ("views",) + tuple(views)
                if lay is None:
                    lay = tuple(range(len(l)))
                if len(lay) != len(l):
                    return ("views",) + tuple(views)
                pos = {n: lay[i] for i, n in enumerate(l) if not n.isdigit()}
                try:
                    lay = tuple("1" if n.isdigit() else pos[n] for n in r)
                except KeyError:
                    return ("views",) + tuple(views)
            elif v[0] == "unsqueeze" and lay is not None:
                d = v[1] % (len(lay) + 1)
                lay = lay[:d] + ("1",) + lay[d:]
            elif v[0] == "unsqueeze":
                return self.layout((("base", views),)) if False else ("views",) + tuple(views)
            elif v[0] == "permute" and lay is not None and len(v[1]) == len(lay):
                lay = tuple(lay[i] for i in v[1])
            elif v[0] == "rank":
                lay = tuple(range(v[1])) if lay is None else lay
            else:
                return ("views",) + tuple(views)
        return lay if lay is not None else ()

    RANK = {"loc": 3, "scale": 3, "rate": 3, "probs": 3, "low": 3, "high": 3, "concentration": 3, "total_count": 3, "K": 3, "N": 3, "n": 3}

    # ---- terms
    def ev(self, t, views=()):
        k = (t, views)
        if k not in self.memo:
            self.memo[k] = self._ev(t, views)
        return self.memo[k]

    def rankof(self, v):
        """length of the layouts of the atoms in v"""
        out = set()

        def rec(v):
            for c, e in v:
                for p in (c.n, c.d, e.n, e.d):
                    for m in p:
                        for a, _ in m:
                            if a[0] == "p" and a[2]:
                                out.add(len(a[2]))
                            elif a[0] in ("f",):
                                for i in a[2]:
                                    if isinstance(i, int):
                                        rec(self.vals[i])
                            elif a[0] in ("log", "B", "V", "ind", "exp"):
                                rec(self.vals[a[-1]])
        rec(v)
        return max(out) if out else None

    def fn(self, name, args, views, sym=False):
        ids = [self.intern(self.ev(x, views)) for x in args]
        if sym:
            ids = sorted(ids)
        return self.atom(("f", name, tuple(ids)))

    def flat_einsum(self, t, cnt):
        """([(operand id, letters)], output letters), nested contractions merged"""
        spec = str(t.a[1][0].a[0]).replace(" ", "")
        if "->" not in spec or "." in spec:
            return None
        l, o = spec.split("->")
        ins = l.split(",")
        if len(ins) != len(t.a[1]) - 1:
            return None
        cnt[0] += 1
        tag = cnt[0]
        ren = lambda c: c + str(tag)
        res = []
        for x, ls in zip(t.a[1][1:], ins):
            while x.k == "op" and x.a[0] in STRIP and x.a[1]:
                x = x.a[1][0]
            if x.k == "op" and x.a[0] == "einsum" and x.a[1] and x.a[1][0].k == "const":
                f = self.flat_einsum(x, cnt)
                if f is None or len(f[1]) != len(ls):
                    return None
                m = {a: ren(b) for a, b in zip(f[1], ls)}
                res += [(i, [m.get(c, c) for c in q]) for i, q in f[0]]
            else:
                res.append((self.intern(self.ev(x, ())), [ren(c) for c in ls]))
        return res, [ren(c) for c in o]

    def lattice(self, name, args, views):
        """max/min of several values: flattened, sorted, without duplicates"""
        ids = set()

        def rec(t, vw):
            if t.k == "op" and t.a[0] in VIEW | STRIP and t.a[1]:
                vv = self.view(t, vw)
                if vv is not None:
                    return rec(t.a[1][0], vv)
            if t.k == "op" and t.a[0] == name and len(t.a[1]) == 2:
                rec(t.a[1][0], vw)
                rec(t.a[1][1], vw)
            else:
                ids.add(self.intern(self.ev(t, vw)))
        for x in args:
            rec(x, views)
        if len(ids) == 1:
            return self.vals[ids.pop()]
        return self.atom(("f", name, tuple(sorted(ids))))

    def view(self, t, views):
        """views after pushing t's own view operator down, or None"""
        n, a, kw = t.a[0], t.a[1], dict(t.a[2])
        if n in STRIP:
            return views
        if n == "rearrange":
            p = kw.get("pattern") or (a[1] if len(a) > 1 else None)
            if p is not None and p.k == "const" and isinstance(p.a[0], str):
                return (("rearrange", p.a[0]),) + views
            return None
        if n == "unsqueeze":
            d = kw.get("dim") or (a[1] if len(a) > 1 else None)
            if d is not None and num(d) is not None:
                return (("unsqueeze", int(num(d))),) + views
        if n == "squeeze":
            d = kw.get("dim") or (a[1] if len(a) > 1 else None)
            return (("squeeze", None if d is None else num(d)),) + views
        if n == "permute":
            ds = [num(x) for x in (a[1:] if len(a) > 2 else (a[1].a[0] if len(a) > 1 and a[1].k in ("tuple", "list") else ()))]
            if ds and all(x is not None for x in ds):
                return (("permute", tuple(int(x) for x in ds)),) + views
        return None

    def ind(self, kind, a, b, views):
        d = self.add(self.ev(b, views), self.ev(a, views), -1)
        return self.atom(("ind", kind, self.intern(d)))

    def bool(self, t, views):
        if t.k == "op":
            n, a = t.a[0], t.a[1]
            if n in STRIP and a:
                return self.bool(a[0], views)
            if n in VIEW and a:
                v = self.view(t, views)
                if v is not None:
                    return self.bool(a[0], v)
            if n in ("le", "lt") and len(a) == 2:
                return self.ind(n, a[0], a[1], views)
            if n in ("ge", "gt") and len(a) == 2:
                return self.ind("le" if n == "ge" else "lt", a[1], a[0], views)
            if n in ("and_", "mul") and len(a) >= 2:
                r = self.const(1)
                for x in a:
                    r = self.mul(r, self.bool(x, views))
                return r
            if n == "or_" and len(a) == 2:
                x, y = self.bool(a[0], views), self.bool(a[1], views)
                return self.add(self.add(x, y), self.mul(x, y), -1)
            if n == "not_" and len(a) == 1:
                return self.add(self.const(1), self.bool(a[0], views), -1)
            if n == "isclose":
                ids = sorted(self.intern(self.ev(x, views)) for x in a[:2])
                return self.atom(("ind", "close", self.intern(self.add(self.vals[ids[0]], self.vals[ids[1]], -1))))
        raise Stuck("condition " + show(t, 3))

    def isbool(self, t):
        if t.k != "op":
            return False
        if t.a[0] in ("le", "lt", "ge", "gt", "isclose", "not_", "or_", "and_"):
            return True
        if t.a[0] == "mul":
            return all(self.isbool(x) for x in t.a[1])
        return t.a[0] in STRIP | VIEW and bool(t.a[1]) and self.isbool(t.a[1][0])

    def expev(self, t, views):
        """exp of the term t, with masked -inf entries giving zero"""
        if t.k == "op":
            n, a = t.a[0], t.a[1]
            if n in STRIP and a:
                return self.expev(a[0], views)
            if n in VIEW and a:
                v = self.view(t, views)
                if v is not None:
                    return self.expev(a[0], v)
            if n == "where" and len(a) == 3:
                try:
                    c = self.bool(a[0], views)
                except Stuck:
                    return self.exp(self.ev(t, views))
                x, y = self.expev(a[1], views), self.expev(a[2], views)
                return self.add(self.mul(c, x), self.mul(self.add(self.const(1), c, -1), y))
            if n == "masked_fill" and len(a) == 3:
                c = self.bool(a[1], views)
                x, y = self.expev(a[0], views), self.expev(a[2], views)
                return self.add(self.mul(c, y), self.mul(self.add(self.const(1), c, -1), x))
            if n == "logsumexp":
                return self.summed(t, self.expev(a[0], views), views)
            if n == "logaddexp" and len(a) == 2:
                return self.add(self.expev(a[0], views), self.expev(a[1], views))
            if n in ("full_like", "full", "new_full", "tensor", "new_tensor") and any(x.k == "const" and x.a[0] == float("-inf") for x in list(a) + [v for _, v in t.a[2]]):
                return []
            if n == "log":
                return self.ev(a[0], views)
        if t.k == "const" and t.a[0] == float("-inf"):
            return []
        return self.exp(self.ev(t, views))

    def summed(self, t, inner, views, red=None):
        kw = dict(t.a[2])
        if self.pullnames and len(inner) == 1:
            (c, e), = inner
            keep, out = {}, {}
            for m, q in e.n.items():
                (out if m and all(a[0] == "f" and a[1] in self.pullnames for a, _ in m) else keep)[m] = q
            if out and list(e.d) == [ONE]:
                return self.mul([(rconst(1), RF(out, e.d))], self.summed2(t, [(c, RF(keep, e.d))], views, kw))
        return self.summed2(t, inner, views, kw)

    def summed2(self, t, inner, views, kw):
        q, inner = self.content(inner)
        r = self.summed3(t, inner, views, kw)
        return r if q == 1 else self.mul(self.const(q), r)

    def content(self, v):
        """rational content of a sum's argument, pulled in front of the sum"""
        if len(v) != 1:
            return 1, v
        (c, e), = v
        if not c.n or any(not isinstance(q, (int, Fraction)) for p in (c.n, c.d) for q in p.values()):
            return 1, v
        def cont(p):
            g = None
            for q in p.values():
                q = Fraction(q)
                g = abs(q) if g is None else Fraction(gcd(g.numerator * q.denominator, q.numerator * g.denominator), g.denominator * q.denominator)
            return g
        a, b = cont(c.n), cont(c.d)
        if a in (0, None) or b in (0, None):
            return 1, v
        s = -1 if all(q < 0 for q in c.n.values()) else 1
        if s * a / b == 1:
            return 1, v
        return s * a / b, [(RF({m: q / (s * a) for m, q in c.n.items()}, {m: q / b for m, q in c.d.items()}), e)]

    def summed3(self, t, inner, views, kw):
        d = kw.get("dim", kw.get("axis"))
        if d is None and len(t.a[1]) > 1:
            d = t.a[1][1]
        if d is None:
            return self.atom(("S", "all", self.intern(inner), ()))
        if num(d) is None:
            return self.atom(("S", "sym", self.intern(inner), self.intern(self.ev(d))))
        d = num(d)
        rk = self.rankof(inner)
        d = int(d)
        if d < 0:
            if rk is None:
                raise Stuck("rank")
            d += rk
        if views and not self.flat:
            raise Stuck("view of a sum")
        if kw.get("keepdim") is not None and is_const(kw["keepdim"], True) and not self.flat:
            return self.atom(("S", d, self.intern(inner), ("keep",)))
        return self.atom(("S", d, self.intern(inner), ()))

    def listed(self, t):
        """(source id, value) of stack/cat of one value per source element"""
        t = uncast(t)
        while t.k == "op" and t.a[0] in STRIP and t.a[1]:
            t = uncast(t.a[1][0])
        if t.k == "op" and t.a[0] == "stack" and t.a[1]:
            e = each(t.a[1][0])
            if e is not None:
                d = dict(t.a[2]).get("dim") or (t.a[1][1] if len(t.a[1]) > 1 else None)
                return e[0], e[1], 0 if d is None else num(d)
        return None

    def over(self, src, v):
        return self.atom(("S", "over", self.intern(self.ev(src)), self.intern(v)))

    def _ev(self, t, views):
        t = uncast(t)
        if self.hook:
            h = self.hook(self, t)
            if h is not None:
                return h
        if self.flat:
            views = ()
        if t.k == "const":
            if isinstance(t.a[0], bool):
                raise Stuck("bool")
            if isinstance(t.a[0], (int, float)):
                if t.a[0] == float("-inf"):
                    return self.atom(("neginf",))
                if t.a[0] != t.a[0] or t.a[0] == float("inf"):
                    raise Stuck("const")
                if abs(t.a[0] - PI) < 1e-9:
                    return self.atom(("pi",))
                return self.const(Fraction(t.a[0]).limit_denominator(10 ** 9))
            return self.atom(("o", repr(t.a[0])))
        if t.k == "global" and t.a[0].split(".")[-1] == "pi":
            return self.atom(("pi",))
        if t.k == "attr" and t.a[0].k not in ("param", "self"):
            b = uncast(t.a[0])
            if b is not t.a[0]:
                return self.ev(T("attr", b, t.a[1]), views)
        if t.k == "attr" and t.a[0].k in ("param", "self"):
            nm = t.a[0].a[1] if t.a[0].k == "param" else "self"
            if t.a[1] in self.RANK and not (views and views[0][0] == "rearrange"):
                rk = 4 if any(True for _ in ()) else self.RANK[t.a[1]]
                views = (("rank", rk),) + views
            return self.atom(("p", self.ren.get(nm, nm) + "." + t.a[1], self.layout(views)))
        if t.k == "phi" and self.assume(t.a[0]) is not None:
            return self.ev(t.a[1] if self.assume(t.a[0]) else t.a[2], views)
        if t.k == "comp" or t.k == "phi" and t.a[0].k == "ran":
            e = each(t)
            if e is not None:
                return self.atom(("each", self.intern(self.ev(e[0])), self.intern(self.ev(e[1]))))
            raise Stuck("loop")
        if t.k == "phi":
            # getattr fallbacks and the like: both sides must agree
            x = self.ev(t.a[1], views)
            y = self.ev(t.a[2], views)
            if self.same(x, y):
                return x
            raise Stuck("branch on " + show(t.a[0], 3))
        if t.k in ("param", "self", "elem", "idx", "loopcarried", "unknown"):
            return self.atom(("p", self.name(t), self.layout(views)))
        if t.k == "item":
            i = t.a[1]
            if i.k == "tuple" and all(is_const(x, None) or x.k == "slice" and all(is_const(y, None) for y in x.a) for x in i.a[0]):
                vs = views
                for p, x in reversed(list(enumerate(i.a[0]))):
                    if is_const(x, None):
                        vs = (("unsqueeze", p),) + vs
                # positions are in the result: apply left to right
                ins = tuple(("unsqueeze", p) for p, x in enumerate(i.a[0]) if is_const(x, None))
                return self.ev(t.a[0], ins + views)
            return self.struct("item", [t.a[0], i], views)
        if t.k == "op":
            n, a, kw = t.a[0], t.a[1], dict(t.a[2])
            if n in STRIP and a:
                return self.ev(a[0], views)
            if n in VIEW and a:
                v = self.view(t, views)
                if v is None:
                    raise Stuck("view " + show(t, 2))
                return self.ev(a[0], v)
            if n in ("ones", "ones_like", "new_ones"):
                return self.const(1)
            if n in ("zeros", "zeros_like", "new_zeros"):
                return []
            if n in ("tensor", "new_tensor", "full", "full_like", "new_full"):
                x = kw.get("fill_value") or (a[1] if n in ("full", "full_like", "new_full", "new_tensor") and len(a) > 1 else a[0])
                return self.ev(x, views)
            if n in ("add", "sub"):
                return self.add(self.ev(a[0], views), self.ev(a[1], views), 1 if n == "add" else -1)
            if n == "mul":
                return self.mul(self.bool(a[0], views) if self.isbool(a[0]) else self.ev(a[0], views), self.bool(a[1], views) if self.isbool(a[1]) else self.ev(a[1], views))
            if n == "div":
                return self.mul(self.ev(a[0], views), self.inv(self.ev(a[1], views)))
            if n == "neg":
                return self.add([], self.ev(a[0], views), -1)
            if n == "reciprocal":
                return self.inv(self.ev(a[0], views))
            if n == "square":
                return self.pow(self.ev(a[0], views), 2)
            if n in ("pow", "float_power") and num(a[1]) is not None:
                return self.pow(self.ev(a[0], views), num(a[1]))
            if n == "sqrt":
                return self.pow(self.ev(a[0], views), Fraction(1, 2))
            if n == "rsqrt":
                return self.pow(self.ev(a[0], views), Fraction(-1, 2))
            if n == "exp":
                return self.expev(a[0], views)
            if n == "expm1":
                return self.add(self.expev(a[0], views), self.const(1), -1)
            if n in ("log",):
                return self.log(self.ev(a[0], views))
            if n == "log1p":
                return self.log(self.add(self.const(1), self.ev(a[0], views)))
            if n == "xlogy":
                return self.mul(self.ev(a[0], views), self.log(self.ev(a[1], views)))
            if n == "logsumexp":
                return self.log(self.summed(t, self.expev(a[0], views), views))
            if n == "logaddexp" and len(a) == 2:
                return self.log(self.add(self.expev(a[0], views), self.expev(a[1], views)))
            if n in ("sum", "reduce_e", "logsumexp") and a:
                l = self.listed(a[0])
                red = kw.get("reduction")
                if l is not None and (n != "reduce_e" or red is not None and is_const(red, "sum")):
                    src, v, d = l
                    if n == "reduce_e":
                        pat = kw.get("pattern")
                        ls, rs = (x.split() for x in pat.a[0].split("->"))
                        ok = ls[:1] + ls[1:] == [x for x in ls] and (rs == ls[1:] or rs == [])
                    else:
                        dd = kw.get("dim") or (a[1] if len(a) > 1 else None)
                        ok = dd is not None and num(dd) == d or dd is None and n == "sum"
                    if ok:
                        r = self.over(src, self.expev(v, ()) if n == "logsumexp" else self.ev(v))
                        return self.log(r) if n == "logsumexp" else r
            if n == "reduce_e" and self.flat:
                return self.struct("reduce " + "".join(str(x.a[0]) for k, x in sorted(kw.items()) if x.k == "const"), list(a[:1]), views)
            if n == "sum" and self.flat is False and False:
                pass
            if n == "sum":
                return self.summed(t, self.ev(a[0], views), views)
            if n in ("abs", "sign"):
                v = self.ev(a[0], views)
                if len(v) == 1 and not self.rzero(v[0][1]):
                    c, e = v[0]
                    x = self.atom(("f", n, (self.intern([(c, rconst(0))]),)))
                    return self.mul(x, [(rconst(1), e)]) if n == "abs" else x
            if n == "sign":
                return self.atom(("f", "sign", (self.intern(v),)))
            if n == "abs":
                w = self.add([], v, -1)
                i = self.intern(v)
                for j, u in enumerate(self.vals):
                    if j < i and self.same(u, w):
                        i = j
                return self.atom(("f", "abs", (i,)))
            if n in ("clamp", "clamp_min", "clamp_max", "clip"):
                lo = kw.get("min") or (a[1] if n in ("clamp", "clip", "clamp_min") and len(a) > 1 else None)
                hi = kw.get("max") or (a[1] if n == "clamp_max" and len(a) > 1 else a[2] if len(a) > 2 else None)
                v = self.ev(a[0], views)
                lo = None if lo is None or is_const(lo, None) else lo
                hi = None if hi is None or is_const(hi, None) else hi
                r = self.plain(v)
                single = r is not None and len(r.n) == 1 and all(c > 0 for c in r.n.values()) and all(c > 0 for c in r.d.values())
                if lo is not None:
                    l = num(lo)
                    if l is None:
                        v = self.atom(("f", "maximum", tuple(sorted({self.intern(v), self.intern(self.ev(lo, ()))}))))
                    elif 0 < l <= 1e-6 or l == 0 and single:
                        pass
                    else:
                        v = self.atom(("f", "maximum", tuple(sorted({self.intern(v), self.intern(self.const(Fraction(l).limit_denominator(10 ** 9)))}))))
                if hi is not None:
                    h = num(hi)
                    if h is not None and 1 - 1e-6 <= h <= 1 and single and all(a_[0] == "p" and a_[1].split(".")[-1] == "probs" for m in r.n for a_, _ in m):
                        pass
                    elif h is None:
                        v = self.atom(("f", "minimum", tuple(sorted({self.intern(v), self.intern(self.ev(hi, ()))}))))
                    else:
                        v = self.atom(("f", "minimum", tuple(sorted({self.intern(v), self.intern(self.const(Fraction(h).limit_denominator(10 ** 9)))}))))
                return v
            if n in ("relu",):
                return self.atom(("f", "maximum", tuple(sorted({self.intern(self.ev(a[0], views)), self.intern([])}))))
            if n in ("maximum", "minimum") or n in ("max", "min") and len(a) == 2 and num(a[1]) is None and not kw:
                return self.lattice({"max": "maximum", "min": "minimum"}.get(n, n), a, views)
            if n == "where" and len(a) == 3:
                c = self.bool(a[0], views)
                x, y = self.ev(a[1], views), self.ev(a[2], views)
                return self.add(y, self.mul(c, self.add(x, y, -1)))
            if n in ("lgamma", "i0", "digamma", "erf", "floor", "ceil", "round", "sin", "cos", "sigmoid", "tanh"):
                return self.fn(n, a[:1], views)
            if n == "isclose" or self.isbool(t):
                return self.bool(t, views)
            if n == "einsum" and a and a[0].k == "const" and isinstance(a[0].a[0], str) and not views:
                f = self.flat_einsum(t, [0])
                if f is not None:
                    ops, out = f
                    ops = sorted(ops, key=lambda x: x[0])
                    occ = {}
                    for i, (o, ls) in enumerate(ops):
                        for p, l in enumerate(ls):
                            occ.setdefault(l, []).append((o, p))
                    nm = lambda l: ("O", out.index(l)) if l in out else ("C",) + tuple(sorted(occ[l]))
                    return self.atom(("f", "einsum", tuple((o,) + tuple(nm(l) for l in ls) for o, ls in ops) + (len(out),)))
            if n == "index_select" and a:
                d = kw.get("dim") or (a[1] if len(a) > 2 else None)
                ix = kw.get("index") or a[-1]
                if d is not None and num(d) == -1 and all(v[0] == "rearrange" and v[1].split()[-1] == v[1].split("->")[0].split()[-1] for v in views):
                    return self.atom(("f", "take", (self.intern(self.ev(a[0], views)), self.intern(self.ev(ix)))))
            return self.struct(n, list(a), views, kw)
        if t.k == "call":
            h = t.a[0]
            nm = str(h.a[-1]).split(".")[-1] if h.k in ("attr", "global") else h.a[0] if h.k == "param" else ""
            if h.k == "phi":
                g = [x for x in walk(h) if x.k == "global"]
                nm = str(g[0].a[0]).split(".")[-1] if g and len({str(x.a[0]).split(".")[-1] for x in g}) == 1 else ""
            if nm in ("float", "int") and len(t.a[1]) == 1:
                return self.ev(t.a[1][0], views)
            if nm in ("i0", "lgamma", "gammaln", "digamma"):
                return self.fn({"gammaln": "lgamma"}.get(nm, nm), t.a[1][:1], views)
            if h.k == "attr":
                return self.struct("." + nm, [h.a[0]] + list(t.a[1]), views, dict(t.a[2]))
            return self.struct(nm or show(h, 2), list(t.a[1]), views, dict(t.a[2]))
        if t.k in ("tuple", "list"):
            return self.struct("list", list(t.a[0]), views)
        if t.k == "slice":
            return self.struct("slice", list(t.a), views)
        if t.k == "attr":
            return self.struct("attr " + t.a[1], [t.a[0]], views)
        raise Stuck(t.k + " " + show(t, 2))

    def name(self, t):
        if t.k == "param":
            return self.ren.get(t.a[1], t.a[1])
        if t.k in self.ren:
            return self.ren[t.k]
        return repr(t)

    def struct(self, n, args, views, kw=None):
        """any other operator: an atom keyed by its normalised operands"""
        self.names.add(n)
        ids = []
        for x in args:
            ids.append(self.intern(self.ev(x, ())))
        for k, x in sorted((kw or {}).items()):
            if k in ("dtype", "device"):
                continue
            ids.append((k, self.intern(self.ev(x, ())) if not (x.k == "const" and isinstance(x.a[0], bool)) else x.a[0]))
        return self.atom(("f", n, tuple(ids)) + ((self.layout(views),) if views else ()))
