"""Named-axis inference: which axis of which base tensor does each dimension of a value stem from?

An axis is a set of origins (base term, index). Broadcasting unions origins, reductions remove the axis,
einops patterns / permutes move it. So `log_softmax(dim=1)` on a parameter and `logsumexp(dim=2)` on a
value the parameter was broadcast into can be compared without running anything.
"""
from __future__ import annotations
import re
from .terms import T, op, is_const, kwd, walk

ELEMENTWISE = {"add", "sub", "mul", "div", "exp", "log", "log1p", "expm1", "sqrt", "sigmoid", "logit", "softplus", "abs", "neg", "sign",
               "square", "logaddexp", "tanh", "where", "clamp", "masked_fill", "nan_to_num", "maximum", "minimum", "eq", "ne", "lt", "le", "and_",
               "or_", "not_", "pow", "isnan", "isfinite", "isinf", "clone", "detach", "to", "float", "double", "long", "int", "bool",
               "contiguous", "cpu", "relu", "softmax", "log_softmax", "cumsum", "cumprod", "zeros_like", "ones_like", "full_like",
               "empty_like", "rand_like", "type_as", "floordiv", "mod", "requires_grad_", "remainder", "round", "floor", "ceil", "lgamma",
               "digamma", "masked_fill_", "clamp_", "add_", "sub_", "mul_", "div_", "xor", "flip", "roll", "dropout", "erf", "bernoulli",
               "logcumsumexp", "numpy", "cuda", "as_tensor", "retain_grad", "gumbel_softmax"}
REDUCE = {"logsumexp", "sum", "mean", "prod", "max", "min", "amax", "amin", "argmax", "argmin", "any", "all", "var", "std", "median",
          "nansum", "nanmean", "norm"}


def parse_pattern(p):
    def side(s):
        toks = re.findall(r"\(|\)|[^\s()]+", s)
        out, grp = [], None
        for t in toks:
            if t == "(":
                grp = []
            elif t == ")":
                out.append(tuple(grp))
                grp = None
            elif grp is not None:
                grp.append(t)
            else:
                out.append((t,))
        return out
    l, r = p.split("->")
    return side(l), side(r)


class Axes:
    def __init__(self, rank_hint=None):
        self.memo = {}
        self.rank_hint = rank_hint or (lambda t: None)  # base term -> rank
        self.ranks = {}

    def learn_ranks(self, terms):
        """collect ranks of base tensors from einops patterns anywhere in the given terms"""
        for t in terms:
            for x in walk(t):
                if x.k == "op" and x.a[0] in ("rearrange", "repeat_e", "reduce_e"):
                    p = kwd(x).get("pattern")
                    if p is not None and p.k == "const" and isinstance(p.a[0], str) and x.a[1]:
                        l, _ = parse_pattern(p.a[0])
                        if ("...",) not in l and not any("..." in g for g in l):
                            self.learn(x.a[1][0], len(l))

    SAME_RANK1 = {"log_softmax", "softmax", "exp", "log", "to", "detach", "clone", "float", "double", "contiguous", "clamp", "neg", "sigmoid",
                  "requires_grad_", "abs", "log1p", "long"}

    def learn(self, t, n, d=0):
        if d > 12:
            return
        if t.k == "op" and t.a[0] in self.SAME_RANK1 and t.a[1]:
            self.learn(t.a[1][0], n, d + 1)
        elif t.k == "phi":
            self.learn(t.a[1], n, d + 1)
            self.learn(t.a[2], n, d + 1)
        elif t.k == "op" and t.a[0] == "flatten":
            k = kwd(t)
            s, e = k.get("start_dim"), k.get("end_dim")
            if s is not None and s.k == "const" and s.a[0] < 0 and (e is None or is_const(e, -1)):
                self.learn(t.a[1][0], n - s.a[0] - 1, d + 1)
        elif t.k == "op" and t.a[0] == "unflatten":
            sz = kwd(t).get("sizes")
            if sz is not None and sz.k in ("tuple", "list"):
                self.learn(t.a[1][0], n - len(sz.a[0]) + 1, d + 1)
        elif t.k in ("attr", "item", "call", "param", "elem", "store", "val"):
            self.ranks.setdefault(self.base(t), n)

    def base(self, t):
        from .engine import root
        return canon_ll(root(t))

    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._of(t)
        self.memo[t] = r
        return r

    def _base_axes(self, t):
        b = canon_ll(t)
        n = self.rank_hint(b)
        if n is None:
            n = self.ranks.get(b)
        if n is None and b.k == "LL":
            n = 4
        if n is None:
            return None
        return tuple(frozenset([(b, i)]) for i in range(n))

    def norm(self, d, n):
        return d if d >= 0 else d + n

    def dims(self, t, key="dim"):
        d = kwd(t).get(key)
        if d is None:
            return None
        if d.k == "const" and isinstance(d.a[0], int) and not isinstance(d.a[0], bool):
            return [d.a[0]]
        if d.k in ("tuple", "list") and all(x.k == "const" for x in d.a[0]):
            return [x.a[0] for x in d.a[0]]
        return "?"

    def bcast(self, xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        n = max(len(x) for x in xs)
        out = []
        for i in range(n):
            s = frozenset()
            for x in xs:
                j = i - (n - len(x))
                if j >= 0:
                    s |= x[j]
            out.append(s)
        return tuple(out)

    def scalarish(self, t):
        return t.k in ("const", "nan") or (t.k == "attr" and t.a[1] in ("dtype", "device"))

    def _of(self, t):
        if t.k == "store":
            a = self.of(t.a[0])
            return a
        if t.k == "phi":
            a, b = self.of(t.a[1]), self.of(t.a[2])
            if a is None or b is None:
                return a if b is None else b
            if len(a) == len(b):
                return tuple(x | y for x, y in zip(a, b))
            return None
        if t.k == "op":
            n, args = t.a[0], t.a[1]
            if n in ("rearrange", "repeat_e", "reduce_e"):
                return self.einops(t)
            if n in REDUCE:
                a = self.of(args[0]) if args else None
                ds = self.dims(t)
                if a is None or ds == "?":
                    return None
                if ds is None:
                    return ()
                ds = {self.norm(d, len(a)) for d in ds}
                kd = kwd(t).get("keepdim")
                if kd is not None and is_const(kd, True):
                    return tuple(frozenset() if i in ds else x for i, x in enumerate(a))
                return tuple(x for i, x in enumerate(a) if i not in ds)
            if n in ELEMENTWISE:
                xs = []
                for x in args:
                    if self.scalarish(x):
                        continue
                    y = self.of(x)
                    if y is None:
                        if n in ("to", "type_as"):
                            continue
                        if x.k in ("param", "attr", "call", "item") and n in ("add", "sub", "mul", "div", "where", "pow", "maximum", "minimum", "clamp"):
                            # unknown operand: may broadcast; treat as carrying no known axes
                            continue
                        continue
                    xs.append(y)
                    if n in ("to", "type_as", "softmax", "log_softmax"):
                        break
                return self.bcast(xs)
            if n == "unsqueeze":
                a = self.of(args[0])
                ds = self.dims(t)
                if a is None or ds in (None, "?"):
                    return None
                d = ds[0] if ds[0] >= 0 else ds[0] + len(a) + 1
                return a[:d] + (frozenset(),) + a[d:]
            if n == "squeeze":
                a = self.of(args[0])
                ds = self.dims(t)
                if a is None or ds in (None, "?"):
                    return None
                ds = {self.norm(d, len(a)) for d in ds}
                return tuple(x for i, x in enumerate(a) if i not in ds)
            if n == "select":
                a = self.of(args[0])
                ds = self.dims(t)
                if a is None or ds in (None, "?"):
                    return None
                d = self.norm(ds[0], len(a))
                return a[:d] + a[d + 1:]
            if n in ("gather", "index_select", "narrow", "topk", "sort", "argsort", "scatter"):
                return self.of(args[0])
            if n in ("transpose", "swapaxes"):
                a = self.of(args[0])
                d0, d1 = self.dims(t, "dim0"), self.dims(t, "dim1")
                if a is None or d0 in (None, "?") or d1 in (None, "?"):
                    return None
                i, j = self.norm(d0[0], len(a)), self.norm(d1[0], len(a))
                l = list(a)
                l[i], l[j] = l[j], l[i]
                return tuple(l)
            if n == "permute":
                a = self.of(args[0])
                ds = args[1:] if len(args) > 2 else (args[1].a[0] if len(args) == 2 and args[1].k in ("tuple", "list") else args[1:])
                if a is None or not all(x.k == "const" for x in ds):
                    return None
                try:
                    return tuple(a[x.a[0]] for x in ds)
                except IndexError:
                    return None
            if n in ("expand", "broadcast_to", "expand_as", "view_as"):
                a = self.of(args[0])
                sizes = args[1:]
                if len(sizes) == 1 and sizes[0].k in ("tuple", "list"):
                    sizes = sizes[0].a[0]
                if a is None:
                    return None
                if n == "expand" and len(sizes) > len(a):
                    return tuple(frozenset() for _ in range(len(sizes) - len(a))) + a
                return a
            if n == "flatten":
                a = self.of(args[0])
                k = kwd(t)
                sd, ed = k.get("start_dim"), k.get("end_dim")
                if a is None or (sd is not None and sd.k != "const") or (ed is not None and ed.k != "const"):
                    return None
                i = self.norm(sd.a[0] if sd is not None else 0, len(a))
                j = self.norm(ed.a[0] if ed is not None else -1, len(a))
                u = frozenset().union(*a[i:j + 1]) if a else frozenset()
                return a[:i] + (u,) + a[j + 1:]
            if n == "unflatten":
                a = self.of(args[0])
                ds, sz = self.dims(t), kwd(t).get("sizes")
                if a is None or ds in (None, "?") or sz is None or sz.k not in ("tuple", "list"):
                    return None
                i = self.norm(ds[0], len(a))
                x = args[0]
                while x.k == "op" and x.a[0] in ELEMENTWISE and len(x.a[1]) == 1:
                    x = x.a[1][0]
                if x.k == "op" and x.a[0] == "flatten" and x.a[1]:
                    b = self.of(x.a[1][0])
                    if b is not None and len(b) == len(a) + len(sz.a[0]) - 1 and b[:i] == a[:i] and b[i + len(sz.a[0]):] == a[i + 1:]:
                        return b  # undoes the flatten
                return a[:i] + tuple(a[i] for _ in sz.a[0]) + a[i + 1:]
            if n == "stack":
                xs = self.seq(args[0])
                a = self.bcast([self.of(x) for x in xs]) if xs else None
                ds = self.dims(t) or [0]
                if a is None or ds == "?":
                    return None
                d = ds[0] if ds[0] >= 0 else ds[0] + len(a) + 1
                return a[:d] + (frozenset([(T("stacked", args[0]), 0)]),) + a[d:]
            if n == "einsum":
                m = self.einsum_letters(t)
                if m is None:
                    return None
                lets, out = m
                return tuple(lets.get(c, frozenset()) for c in out)
            if n == "cat":
                xs = self.seq(args[0])
                return self.bcast([self.of(x) for x in xs]) if xs else None
            return self._base_axes(t)
        if t.k == "call":
            nm = callname(t)
            k = kwd(t)
            if nm in ("index_tensor", "index_one_hot") and "tensor" in k:
                a = self.of(k["tensor"])
                d = k.get("dim")
                if a is None or d is None or d.k != "const":
                    return None
                i = self.norm(d.a[0], len(a))
                return a[:i] + a[i + 1:]
            return self._base_axes(t)
        if t.k == "item":
            b = canon_ll(t)
            if b.k == "LL":
                return self._base_axes(t)
            a = self.of(t.a[0])
            if a is None:
                return self._base_axes(t)
            return self.index(a, t.a[1])
        if t.k == "attr" and t.a[1] in ("values", "indices", "data", "grad"):
            return self.of(t.a[0])
        return self._base_axes(t)

    def einsum_letters(self, t):
        """(letter -> origins, output letters) of an einsum with a constant equation"""
        eq = [x for x in t.a[1] if x.k == "const" and isinstance(x.a[0], str)]
        if not eq or "->" not in eq[0].a[0] or "..." in eq[0].a[0]:
            return None
        l, r = eq[0].a[0].replace(" ", "").split("->")
        ops_ = [x for x in t.a[1] if x is not eq[0]]
        lets = {}
        for spec, x in zip(l.split(","), ops_):
            a = self.of(x)
            if a is None or len(a) != len(spec):
                continue
            for c, o in zip(spec, a):
                lets[c] = lets.get(c, frozenset()) | o
        return lets, r

    def reduced(self, t):
        """origins summed out by this op (None if not a reduction)"""
        if t.k != "op":
            return None
        if t.a[0] in ("logsumexp", "sum", "mean", "nansum"):
            a = self.of(t.a[1][0]) if t.a[1] else None
            ds = self.dims(t)
            if a is None or ds == "?":
                return None
            if ds is None:
                return frozenset().union(*a) if a else frozenset()
            try:
                return frozenset().union(*[a[d] for d in ds])
            except IndexError:
                return None
        if t.a[0] == "einsum":
            m = self.einsum_letters(t)
            if m is None:
                return None
            lets, out = m
            return frozenset().union(*[o for c, o in lets.items() if c not in out]) if lets else frozenset()
        if t.a[0] == "reduce_e":
            l, r = parse_pattern(kwd(t)["pattern"].a[0])
            a = self.of(t.a[1][0])
            if a is None or len(a) != len(l):
                return None
            keep = {n for g in r for n in g}
            return frozenset().union(*[o for g, o in zip(l, a) if not (set(g) & keep)])
        return None

    def seq(self, t):
        if t.k in ("list", "tuple"):
            return [x.a[0] if x.k == "star" else x for x in t.a[0]]
        if t.k == "comp":
            return [t.a[1]]
        if t.k == "store":  # list built by append in a loop
            out = []
            while t.k == "store":
                if t.a[2].k == "tuple" and t.a[2].a[0]:
                    out.append(t.a[2].a[0][0])
                t = t.a[0]
            return out
        if t.k == "phi":
            return self.seq(t.a[1]) + self.seq(t.a[2])
        return [T("elem", t)]

    def index(self, a, i):
        idx = list(i.a[0]) if i.k == "tuple" else [i]
        out, p = [], 0
        nell = len(a) - sum(1 for x in idx if not (x.k == "const" and (x.a[0] is None)) and not is_ellipsis(x))
        for x in idx:
            if x.k == "const" and x.a[0] is None:
                out.append(frozenset())
            elif is_ellipsis(x):
                out.extend(a[p:p + nell])
                p += nell
            elif x.k == "slice":
                if p >= len(a):
                    return None
                out.append(a[p])
                p += 1
            elif x.k == "const" and isinstance(x.a[0], int):
                p += 1
            elif x.k in ("idx", "elem", "loopcarried"):
                p += 1
            else:
                return None
        out.extend(a[p:])
        return tuple(out)

    def einops(self, t):
        p = kwd(t).get("pattern")
        if p is None or p.k != "const" or not t.a[1]:
            return None
        try:
            l, r = parse_pattern(p.a[0])
        except ValueError:
            return None
        a = self.of(t.a[1][0])
        if a is None:
            if not any("..." in g for g in l):
                b = self.base(t.a[1][0])
                a = tuple(frozenset([(b, i)]) for i in range(len(l)))
            else:
                return None
        m = {}
        if ("...",) in l:
            i = l.index(("...",))
            ne = len(a) - (len(l) - 1)
            if ne < 0:
                return None
            m["..."] = a[i:i + ne]
            pairs = list(zip(l[:i], a[:i])) + list(zip(l[i + 1:], a[i + ne:]))
        else:
            if len(l) != len(a):
                return None
            pairs = zip(l, a)
        for g, ax in pairs:
            for nm in g:
                if nm == "1":
                    continue
                m[nm] = ax
        out = []
        for g in r:
            if g == ("...",):
                out.extend(m.get("...", ()))
                continue
            s = frozenset()
            for nm in g:
                if nm == "...":
                    for x in m.get("...", ()):
                        s |= x
                elif nm in m:
                    s |= m[nm]
            out.append(s)
        return tuple(out)

    def axis(self, t, d):
        """origins of axis d (int) of value t"""
        a = self.of(t)
        if a is None:
            return None
        try:
            return a[d]
        except IndexError:
            return None


def is_ellipsis(x):
    return x.k == "unknown" and x.a and "Ellipsis" in str(x.a[0])


def callname(t):
    if t.k != "call":
        return None
    f = t.a[0]
    if f.k == "attr":
        return f.a[1]
    if f.k == "global":
        return str(f.a[0]).split(".")[-1]
    if f.k == "func":
        return str(f.a[0]).split(".")[-1]
    return None


def canon_ll(t):
    """child.log_likelihood(...), cache['log_likelihood'][child], cache['log_likelihood'].get(child) -> LL(child)"""
    if t.k == "call" and t.a[0].k == "attr":
        nm = t.a[0].a[1]
        if nm == "log_likelihood":
            return T("LL", t.a[0].a[0])
        if nm == "get" and t.a[1]:
            b = t.a[0].a[0]
            if b.k == "item" and is_const(b.a[1], "log_likelihood"):
                return T("LL", t.a[1][0])
            if len(t.a[1]) >= 2 and is_const(t.a[1][0], "log_likelihood"):
                return T("LL", t.a[1][1])
        if nm == "get":
            k = kwd(t)
            if "method_name" in k and is_const(k["method_name"], "log_likelihood") and "module" in k:
                return T("LL", k["module"])
    if t.k == "item" and t.a[0].k == "item" and is_const(t.a[0].a[1], "log_likelihood"):
        return T("LL", t.a[1])
    if t.k == "attr" and t.a[1] in ("grad",):
        return t
    return t
