"""Row-major layout of tensor axes.

Every axis of a tensor is described by the ordered tuple of elementary axes ("atoms") it enumerates in row-major order: an axis of length F*S that
lists, for every feature, all splits is ("f", "s"); the tiled order is ("s", "f").  The rules below follow the reshaping operations for all sizes at once.
`Lay.of(term)` returns a list of such tuples, None when the term is not understood, and raises Scrambled when an operation provably re-cuts the
row-major order at a place that is not an atom border (a reshape that mixes elements)."""
import re
from .lib import *
from .ctx import self_attr

SAME = {"clone", "contiguous", "detach", "to", "float", "double", "long", "int", "bool", "type", "type_as", "requires_grad_", "copy", "asarray", "as_tensor", "tensor", "abs", "neg", "exp", "log", "eq", "ne", "not_"}


class Scrambled(Exception):
    pass


def parse(side):
    """'b (f s) ... 1' -> [['b'], ['f','s'], '...', []]"""
    out = []
    for tok in re.findall(r"\([^)]*\)|\.\.\.|[A-Za-z_]\w*|\d+", side):
        if tok == "...":
            out.append("...")
        elif tok[0] == "(":
            out.append([x for x in tok[1:-1].split() if x != "1"])
        elif tok.isdigit():
            if tok != "1":
                return None
            out.append([])
        else:
            out.append([tok])
    return out


def ival(t):
    v = num(t) if isinstance(t, T) else t
    return int(v) if isinstance(v, (int, float)) and not isinstance(v, bool) and int(v) == v else None


def deph(t):
    return t


class Lay:
    """env: function term -> list of dims or None (the known tensors); size: function term -> atom or None (known axis lengths)"""

    def __init__(self, env, size=None, guards=()):
        self.env, self.size_of, self.memo, self.fresh = env, size or (lambda t: None), {}, {}

    def atom(self, key):
        return self.fresh.setdefault(key, f"#{len(self.fresh)}")

    def of(self, t, d=0):
        if t in self.memo:
            return self.memo[t]
        v = self.env(t)
        if v is None and d < 60:
            v = self.step(t, d + 1)
        self.memo[t] = v
        return v

    # -- sizes ------------------------------------------------------------------------------------------------
    def size(self, t):
        """an atom, () for 1, tuple of atoms, or None"""
        if is_const(t, 1):
            return ()
        a = self.size_of(t)
        if a is not None:
            return (a,) if isinstance(a, str) else tuple(a)
        if t.k == "call" and isinstance(t.a[0], T) and str(t.a[0].a[-1]).split(".")[-1] == "int" and t.a[1]:
            return self.size(t.a[1][0])
        if t.k == "op" and t.a[0] in ("int", "size") and t.a[1]:
            if t.a[0] == "size" and len(t.a[1]) == 2:
                return self.shape_size(t.a[1][0], t.a[1][1])
            return self.size(t.a[1][0])
        if t.k == "op" and t.a[0] == "mul":
            xs = [self.size(x) for x in t.a[1]]
            return None if None in xs else tuple(y for x in xs for y in x)
        if t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "shape":
            return self.shape_size(t.a[0].a[0], t.a[1])
        if t.k == "call" and isinstance(t.a[0], T) and t.a[0].k == "attr" and t.a[0].a[1] == "size" and len(t.a[1]) == 1:
            return self.shape_size(t.a[0].a[0], t.a[1][0])
        if opname(t) == "len" and t.a[1]:
            return self.shape_size(t.a[1][0], const(0))
        if t.k == "call" and isinstance(t.a[0], T) and str(t.a[0].a[-1]) == "len" and t.a[1]:
            return self.shape_size(t.a[1][0], const(0))
        return None

    def shape_size(self, x, i):
        ds, i = self.of(x), ival(i)
        return None if ds is None or i is None or not -len(ds) <= i < len(ds) else tuple(ds[i])

    # -- operations -------------------------------------------------------------------------------------------
    def einops(self, x, t, new):
        ds = self.of(x)
        k = kwd(t)
        pat = k.get("pattern")
        if ds is None or pat is None or pat.k != "const" or "->" not in str(pat.a[0]):
            return None
        lhs, rhs = [parse(s) for s in pat.a[0].split("->")]
        if lhs is None or rhs is None:
            return None
        n_ell = 0
        if "..." in lhs:
            n_ell = len(ds) - (len(lhs) - 1)
            if n_ell < 0:
                return None
            i = lhs.index("...")
            lhs = lhs[:i] + [("ell", j) for j in range(n_ell)] + lhs[i + 1:]
        if len(lhs) != len(ds):
            return None
        bind = {}
        for g, dim in zip(lhs, ds):
            if isinstance(g, tuple):
                bind[g] = tuple(dim)
            elif len(g) == 1:
                bind[g[0]] = tuple(dim)
            elif not g:
                if dim:
                    return None
            else:
                parts = self.cut(tuple(dim), [self.size(k[n]) if n in k else None for n in g])
                if parts is None:
                    return None
                for n, p in zip(g, parts):
                    bind[n] = p
        out = []
        for g in rhs:
            if g == "...":
                out += [bind[("ell", j)] for j in range(n_ell)]
                continue
            atoms = []
            for n in g:
                if n not in bind:
                    if not new or n not in k:
                        return None
                    s = self.size(k[n])
                    bind[n] = s if s is not None else (self.atom(("len", k[n])),)
                atoms += bind[n]
            out.append(tuple(atoms))
        return out

    def cut(self, atoms, sizes):
        """split the row-major run `atoms` into consecutive pieces of the given sizes (tuples of atoms; None = the rest)"""
        if sizes.count(None) > 1:
            return [(a,) for a in atoms] if len(atoms) == len(sizes) and all(s is None or s == (a,) for s, a in zip(sizes, atoms)) else None
        if None not in sizes:
            flat = tuple(x for s in sizes for x in s)
            if flat == atoms:
                return [tuple(s) for s in sizes]
            if sorted(flat) == sorted(atoms):
                raise Scrambled(f"{'*'.join(atoms)} re-cut as {'*'.join(flat)}")
            return None
        i = sizes.index(None)
        pre = tuple(x for s in sizes[:i] for x in s)
        post = tuple(x for s in sizes[i + 1:] for x in s)
        n = len(atoms)
        if len(pre) + len(post) > n:
            return None
        if atoms[:len(pre)] != pre or (post and atoms[n - len(post):] != post):
            if set(pre) | set(post) <= set(atoms):
                raise Scrambled(f"{'*'.join(atoms)} re-cut with borders {'*'.join(pre)} | {'*'.join(post)}")
            return None
        return [tuple(s) for s in sizes[:i]] + [atoms[len(pre):n - len(post)]] + [tuple(s) for s in sizes[i + 1:]]

    def args(self, t):
        xs = list(t.a[1][1:])
        if len(xs) == 1 and xs[0].k in ("tuple", "list"):
            xs = list(xs[0].a[0])
        return xs

    def dim(self, t, n, pos=1, default=None, key=("dim", "axis")):
        k = kwd(t)
        d = next((k[x] for x in key if x in k), None)
        if d is None:
            d = t.a[1][pos] if len(t.a[1]) > pos else default
        i = ival(d) if d is not None else None
        return None if i is None or not -n <= i < n else i % n

    def step(self, t, d):
        if t.k == "phi":
            x, y = self.of(t.a[1], d), self.of(t.a[2], d)
            return x if x == y else (x or y) if (x is None or y is None) and t.a[0].k in ("ran", "loopcarried") else None
        if t.k == "store":
            base = self.of(t.a[0], d)
            if base is not None:
                return base
        if t.k == "attr" and t.a[1] == "T":
            ds = self.of(t.a[0], d)
            return ds[::-1] if ds is not None else None
        if t.k == "item":
            return self.index(t, d)
        if t.k != "op":
            return None
        o, k = t.a[0], kwd(t)
        x = t.a[1][0] if t.a[1] else None
        if x is None:
            return None
        if o in ("rearrange", "repeat_e"):
            return self.einops(x, t, o == "repeat_e")
        if o in SAME:
            return self.of(x, d)
        if o in ("add", "sub", "mul", "div", "and_", "or_", "where", "masked_fill", "lt", "le"):
            parts = [self.of(y, d) for y in t.a[1] if isinstance(y, T) and num(y) is None]
            known = [p for p in parts if p]
            if known and all(p == known[0] for p in known) and len(known) == len(parts):
                return known[0]
            return None
        if o in ("zeros_like", "ones_like", "empty_like", "full_like"):
            return self.of(x, d)
        if o in ("stack", "cat") and x.k == "op" and x.a[0] == "mul" and len(x.a[1]) == 2 and any(y.k in ("list", "tuple") and len(y.a[0]) == 1 for y in x.a[1]):
            one = next(y for y in x.a[1] if y.k in ("list", "tuple"))
            cnt = next(y for y in x.a[1] if y is not one)
            part = self.of(one.a[0][0], d)
            s = self.size(cnt)
            if part is None:
                return None
            s = s if s is not None else (self.atom(("len", cnt)),)
            i = self.dim(t, len(part) + (o == "stack"), 1, const(0))
            if i is None:
                return None
            return part[:i] + [s] + part[i:] if o == "stack" else part[:i] + [s + tuple(part[i])] + part[i + 1:]
        if o in ("stack", "cat") and x.k in ("star", "starred", "param", "list", "tuple", "phi", "comp"):
            return self.join(o, x, t, d)
        ds = self.of(x, d)
        if ds is None:
            return None
        n = len(ds)
        if o == "unsqueeze":
            i = ival(k.get("dim") or (t.a[1][1] if len(t.a[1]) > 1 else None))
            return None if i is None else ds[:i % (n + 1)] + [()] + ds[i % (n + 1):]
        if o == "squeeze":
            i = self.dim(t, n)
            return None if i is None else ds[:i] + ds[i + 1:] if not ds[i] else ds
        if o in ("flatten",):
            xs = self.args(t)
            a = ival(k.get("start_dim") or (xs[0] if xs else const(0)))
            b = ival(k.get("end_dim") or (xs[1] if len(xs) > 1 else const(-1)))
            if a is None or b is None:
                return None
            a, b = a % n, b % n
            return ds[:a] + [tuple(y for s in ds[a:b + 1] for y in s)] + ds[b + 1:]
        if o in ("transpose", "swapaxes", "swapdims"):
            xs = self.args(t)
            i = ival(k.get("dim0") or (xs[0] if xs else None)) if (k.get("dim0") or xs) else None
            j = ival(k.get("dim1") or (xs[1] if len(xs) > 1 else None)) if (k.get("dim1") or len(xs) > 1) else None
            if i is None or j is None:
                return ds[::-1] if not xs and not k and o == "transpose" else None
            out = list(ds)
            out[i], out[j] = ds[j], ds[i]
            return out
        if o == "t" and n == 2:
            return ds[::-1]
        if o in ("permute",):
            xs = [ival(y) for y in self.args(t)]
            return [ds[i] for i in xs] if None not in xs and len(xs) == n else None
        if o in ("reshape", "view"):
            xs = self.args(t)
            sizes = []
            for y in xs:
                if ival(y) == -1:
                    sizes.append(None)
                else:
                    s = self.size(y)
                    if s is None:
                        return None
                    sizes.append(s)
            return self.cut(tuple(y for s in ds for y in s), sizes)
        if o == "unflatten":
            xs = list(t.a[1][1:])
            i = self.dim(t, n)
            tgt = k.get("sizes") or next((y for y in xs if y.k in ("tuple", "list")), None)
            if i is None or tgt is None:
                return None
            sizes = [None if ival(y) == -1 else self.size(y) for y in tgt.a[0]]
            if any(s is None and ival(y) != -1 for s, y in zip(sizes, tgt.a[0])):
                return None
            parts = self.cut(tuple(ds[i]), sizes)
            return None if parts is None else ds[:i] + parts + ds[i + 1:]
        if o in ("expand", "broadcast_to"):
            xs = self.args(t)
            if len(xs) < n:
                return None
            out = []
            for y, dim in zip(xs, [()] * (len(xs) - n) + ds):
                if ival(y) == -1 or dim:
                    out.append(dim)
                else:
                    s = self.size(y)
                    out.append(s if s is not None else (self.atom(("len", y)),))
            return out
        if o in ("repeat", "tile"):
            xs = self.args(t)
            if len(xs) < n:
                return None
            out = []
            for y, dim in zip(xs, [()] * (len(xs) - n) + ds):
                if is_const(y, 1):
                    out.append(dim)
                    continue
                s = self.size(y)
                out.append((s if s is not None else (self.atom(("len", y)),)) + tuple(dim))
            return out
        if o == "repeat_interleave":
            i = self.dim(t, n, 2)
            y = k.get("repeats") or (t.a[1][1] if len(t.a[1]) > 1 else None)
            if i is None or y is None:
                return None
            s = self.size(y)
            return ds[:i] + [tuple(ds[i]) + (s if s is not None else (self.atom(("len", y)),))] + ds[i + 1:]
        if o in ("sum", "mean", "any", "all", "logsumexp", "max", "amax"):
            i = self.dim(t, n)
            return None if i is None else ds[:i] + ([()] if is_const(k.get("keepdim", const(False)), True) else []) + ds[i + 1:]
        if o == "select":
            i = self.dim(t, n)
            return None if i is None else ds[:i] + ds[i + 1:]
        return None

    def join(self, o, x, t, d):
        """stack / cat of equally laid out parts; the part axis is the atom 's'"""
        part = self.env(("parts", x)) if True else None
        if part is None:
            return None
        n = len(part) + (o == "stack")
        i = self.dim(t, n, 1, const(0))
        if i is None:
            return None
        if o == "stack":
            return part[:i] + [("s",)] + part[i:]
        return part[:i] + [("s",) + tuple(part[i])] + part[i + 1:]

    def index(self, t, d):
        base = self.of(t.a[0], d)
        ix = t.a[1]
        if base is None:
            return None
        parts = list(ix.a[0]) if ix.k == "tuple" else [ix]
        ell = [j for j, p in enumerate(parts) if "Ellipsis" in str(p.a[:1])]
        if ell:
            j = ell[0]
            nn = len([p for p in parts if not is_const(p, None)]) - 1
            parts = parts[:j] + [T("slice", const(None), const(None), const(None))] * (len(base) - nn) + parts[j + 1:]
        out, i = [], 0
        for p in parts:
            if is_const(p, None):
                out.append(())
                continue
            if i >= len(base):
                return None
            if p.k == "slice":
                if not all(is_const(y, None) for y in p.a):
                    return None
                out.append(base[i])
            elif ival(p) is not None or p.k in ("idx",):
                pass
            else:
                sub = self.of(p, d)
                if sub is None:
                    return None
                out += sub
            i += 1
        return out + base[i:]


def fmt(ds):
    return "?" if ds is None else "[" + ", ".join("*".join(x) if x else "1" for x in ds) + "]"
