"""Where does each position of an image-shaped routing tensor come from?

The value of an axis is a coordinate map: entry y of the axis is entry (y + off) // prod(scale) of the source grid's row (or column) axis.  Repeating positions
inside a row-major group multiplies the scale, slicing adds to the offset, "(h w)" merges a row and a column map into one flat axis.  Symbolic in all sizes."""
from .lib import *
from .layout import parse, ival


class Tiled(Exception):
    pass


class Ax:
    def __init__(self, kind, axis=None, scale=(), off=(), cut=None):
        self.kind, self.axis, self.scale, self.off, self.cut = kind, axis, tuple(scale), tuple(off), cut

    def key(self):
        return (self.kind, self.axis, tuple(sorted(show(x) for x in self.scale)), tuple(sorted(show(x) for x in self.off)), None if self.cut is None else show(self.cut))

    def __eq__(self, o):
        return isinstance(o, Ax) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Flat:
    def __init__(self, r, c):
        self.r, self.c = r, c

    def __eq__(self, o):
        return isinstance(o, Flat) and (self.r, self.c) == (o.r, o.c)

    def __hash__(self):
        return hash((self.r, self.c))


ROW, COL = Ax("map", "h"), Ax("map", "w")
VIEWS = {"contiguous", "clone", "to", "detach", "bool", "long", "float"}


class Grid:
    def __init__(self, env, choose=lambda cond: None):
        self.env, self.choose = env, choose

    def of(self, t, d=0):
        v = self.env(t)
        if v is not None or d > 40:
            return v
        if t.k == "phi":
            ch = self.choose(t.a[0])
            x = self.of(t.a[1], d + 1) if ch is not False else None
            y = self.of(t.a[2], d + 1) if ch is not True else None
            return x if ch is True else y if ch is False else x if x == y else None
        if t.k == "op" and t.a[1]:
            return self.op(t, t.a[0], kwd(t), d + 1)
        if t.k == "item":
            return self.index(t, d + 1)
        return None

    def args(self, t):
        return list(t.a[1][1:])

    def op(self, t, o, k, d):
        ds = self.of(t.a[1][0], d)
        if ds is None:
            return None
        if o in VIEWS:
            return ds
        if o in ("rearrange", "repeat_e"):
            return self.einops(ds, k, o == "repeat_e")
        xs = self.args(t)
        n = len(ds)
        if o == "unflatten":
            i = ival(k.get("dim") or (xs[0] if xs else None)) if (k.get("dim") or xs) else None
            s = k.get("sizes") or next((y for y in xs if y.k in ("tuple", "list")), None)
            if i is None or s is None or len(s.a[0]) != 2 or not isinstance(ds[i % n], Flat):
                return None
            f = ds[i % n]
            return ds[:i % n] + [f.r, f.c] + ds[i % n + 1:]
        if o == "flatten":
            a = ival(k.get("start_dim") or (xs[0] if xs else const(0)))
            b = ival(k.get("end_dim") or (xs[1] if len(xs) > 1 else const(-1)))
            if a is None or b is None or (b % n) - (a % n) != 1:
                return None
            f = self.merge([ds[a % n], ds[b % n]])
            return None if f is None else ds[:a % n] + [f] + ds[b % n + 1:]
        if o == "narrow" and len(xs) == 3:
            i = ival(xs[0])
            return None if i is None else self.cutdim(ds, i % n, xs[1], T("op", "add", (xs[1], xs[2]), ()))
        if o == "repeat_interleave":
            i = ival(k["dim"]) if "dim" in k else ival(xs[1]) if len(xs) > 1 else None
            s = k.get("repeats") or (xs[0] if xs else None)
            if i is None or s is None or not (isinstance(ds[i % n], Ax) and ds[i % n].kind == "map" and not ds[i % n].off):
                return None
            x = ds[i % n]
            return ds[:i % n] + [Ax("map", x.axis, x.scale + (s,))] + ds[i % n + 1:]
        return None

    def merge(self, parts):
        if len(parts) == 2 and all(isinstance(p, Ax) and p.kind == "map" for p in parts):
            if (parts[0].axis, parts[1].axis) == ("h", "w"):
                return Flat(*parts)
            if (parts[0].axis, parts[1].axis) == ("w", "h"):
                raise Tiled("positions are listed column by column")
        return None

    def einops(self, ds, k, new):
        pat = k.get("pattern")
        if pat is None or pat.k != "const" or "->" not in str(pat.a[0]) or "..." in str(pat.a[0]):
            return None
        lhs, rhs = [parse(s) for s in pat.a[0].split("->")]
        if lhs is None or rhs is None or len(lhs) != len(ds):
            return None
        bind = {}
        for g, x in zip(lhs, ds):
            if len(g) == 1:
                bind[g[0]] = x
            elif len(g) == 2 and isinstance(x, Flat):
                bind[g[0]], bind[g[1]] = x.r, x.c
            elif isinstance(x, Ax) and x.kind == "other":
                for n in g:
                    bind[n] = Ax("other", n)
            else:
                return None
        out = []
        for g in rhs:
            if not g or all(n in bind and isinstance(bind[n], Ax) and bind[n].kind == "other" for n in g) and len(g) > 1:
                out.append(Ax("other", " ".join(g)))
                continue
            if len(g) == 1 and new and g[0] in k and g[0] not in bind:
                out.append(Ax("other", g[0]))
                continue
            if len(g) == 1 and g[0] in bind:
                out.append(bind[g[0]])
                continue
            maps = [(n, bind[n]) for n in g if n in bind]
            fresh = [n for n in g if n not in bind]
            if any(n not in k for n in fresh) or fresh and not new:
                return None
            if len(maps) == 1 and isinstance(maps[0][1], Ax) and maps[0][1].kind == "map":
                x = maps[0][1]
                if g[0] != maps[0][0]:
                    raise Tiled("positions are tiled instead of repeated in place")
                if x.off:
                    return None
                out.append(Ax("map", x.axis, x.scale + tuple(k[n] for n in fresh)))
                continue
            if len(maps) == 2 and not fresh:
                f = self.merge([m[1] for m in maps])
                if f is None:
                    return None
                out.append(f)
                continue
            if len(maps) == 2:
                cur, acc = None, []
                for n in g:
                    if n in bind:
                        acc.append([bind[n], []])
                    elif acc:
                        acc[-1][1].append(k[n])
                    else:
                        raise Tiled("positions are tiled instead of repeated in place")
                xs = [Ax("map", x.axis, x.scale + tuple(s)) if isinstance(x, Ax) and x.kind == "map" and not x.off else None for x, s in acc]
                f = None if None in xs else self.merge(xs)
                if f is None:
                    return None
                out.append(f)
                continue
            return None
        return out

    def cutdim(self, ds, i, start, stop):
        x = ds[i]
        none = lambda y: y is None or is_const(y, None)
        if none(start) and none(stop):
            return ds
        if isinstance(x, Flat):
            raise Tiled("a slice of the flattened grid does not select a rectangle of positions")
        if x.kind != "map":
            return None
        off = () if none(start) or is_const(start, 0) else (start,)
        return ds[:i] + [Ax("map", x.axis, x.scale, x.off + off, None if none(stop) else stop)] + ds[i + 1:]

    @staticmethod
    def slice_of(p):
        if p.k == "call" and isinstance(p.a[0], T) and str(p.a[0].a[-1]).split(".")[-1] == "slice" or p.k == "op" and p.a[0] == "slice":
            a = list(p.a[1])
            if len(a) == 1:
                return T("slice", const(None), a[0], const(None))
            if len(a) in (2, 3):
                return T("slice", a[0], a[1], a[2] if len(a) == 3 else const(None))
        return p

    def index(self, t, d):
        ds = self.of(t.a[0], d)
        if ds is None:
            return None
        ix = t.a[1]
        parts = list(ix.a[0]) if ix.k == "tuple" else [ix]
        parts = [self.slice_of(p) for p in parts]
        if len(parts) > len(ds) or any(p.k != "slice" for p in parts):
            return None
        for i, p in enumerate(parts):
            if not is_const(p.a[2], None):
                return None
            ds = self.cutdim(ds, i, p.a[0], p.a[1])
            if ds is None:
                return None
        return ds
