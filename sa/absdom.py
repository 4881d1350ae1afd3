"""Finite abstract domain for validation code: tensors are (shape, dtype class, device, a few representative entries).

Conditions and stored values are terms extracted from the source; they are evaluated over this domain, so a check is judged by
which abstract inputs it rejects and not by how it is written. Anything the domain does not model is UNK (never an alarm)."""
from __future__ import annotations
import itertools
from .terms import *


class _Unk:
    def __repr__(self):
        return "UNK"


UNK = _Unk()
DT = {"long": "long", "int64": "long", "int": "int", "int32": "int", "int16": "int", "bool": "bool", "float": "float", "float32": "float",
      "float64": "double", "double": "double", "half": "float", "complex64": "complex", "cfloat": "complex"}


class Ten:
    """abstract tensor; v: representative entries (aligned across tensors of one state), or None"""
    def __init__(self, shape, dt="float", dev="cpu", v=None, tag=None):
        self.shape, self.dt, self.dev, self.v, self.tag = tuple(shape), dt, dev, v, tag

    def with_(self, **k):
        d = dict(shape=self.shape, dt=self.dt, dev=self.dev, v=self.v, tag=self.tag)
        d.update(k)
        return Ten(**d)

    def __repr__(self):
        return f"Ten{self.shape}:{self.dt}@{self.dev}{'' if self.v is None else self.v}"


class Abs:
    def __init__(self, params, attrs, extra=None):
        self.params, self.attrs, self.bind = params, attrs, {}
        self.extra = extra      # callback(term, self) -> value or UNK
        self.memo = {}

    def __call__(self, t):
        if self.bind:
            return self._ev(t)
        if t in self.memo:
            return self.memo[t]
        v = self.memo[t] = self._ev(t)
        return v

    def seq(self, xs):
        return [self(x) for x in xs]

    def truth(self, t):
        v = self(t)
        if v is UNK:
            return None
        if isinstance(v, Ten):
            if v.v is not None and len(v.v) == 1:
                return bool(v.v[0])
            return None
        return bool(v)

    def _ev(self, t):
        if self.extra is not None:
            v = self.extra(t, self)
            if v is not UNK:
                return v
        k = t.k
        if t in self.bind:
            return self.bind[t]
        if k == "const":
            return t.a[0]
        if k == "param":
            return self.params.get(t.a[-1], UNK)
        if k == "attr":
            if t.a[0].k == "self" and t.a[1] in self.attrs:
                return self.attrs[t.a[1]]
            b = self(t.a[0])
            if isinstance(b, dict):
                return b.get(t.a[1], UNK)
            if isinstance(b, Ten):
                n = t.a[1]
                if n == "shape":
                    return b.shape
                if n == "ndim":
                    return len(b.shape)
                if n == "dtype":
                    return b.dt
                if n == "device":
                    return b.dev
                if n == "T":
                    return b.with_(shape=b.shape[::-1])
                if n in ("data",):
                    return b
            return UNK
        if k == "global":
            n = str(t.a[0]).split(".")[-1]
            if n in DT:
                return DT[n]
            return UNK
        if k in ("tuple", "list"):
            return tuple(self.seq(t.a[0]))
        if k == "set":
            return frozenset(self.seq(t.a[0]))
        if k == "phi":
            c = self.truth(t.a[0])
            if c is None:
                a, b = self(t.a[1]), self(t.a[2])
                return a if self._same(a, b) else UNK
            return self(t.a[1] if c else t.a[2])
        if k == "ran":
            v = self(t.a[0])
            return UNK if not isinstance(v, (tuple, list)) else len(v) > 0
        if k == "slice":
            return slice(*self.seq(t.a))
        if k == "item":
            return self.item(self(t.a[0]), self(t.a[1]), t)
        if k == "comp":
            return self.comp(t)
        if k == "store":
            b = self(t.a[0])
            if t.a[1].k == "const" and str(t.a[1].a[0]).startswith("#"):
                v = self(t.a[2])
                n = t.a[1].a[0]
                if b is UNK or not isinstance(b, (tuple, frozenset)) or not isinstance(v, tuple) or any(x is UNK or isinstance(x, Ten) for x in v):
                    return UNK
                if n in ("#append", "#add") and len(v) == 1:
                    return b | {v[0]} if isinstance(b, frozenset) else b + v
                if n in ("#extend", "#update") and len(v) == 1 and isinstance(v[0], (tuple, frozenset)):
                    return b | frozenset(v[0]) if isinstance(b, frozenset) else b + tuple(v[0])
                return UNK
            return b
        if k == "call":
            return self.call(t)
        if k == "op":
            return self.opv(t)
        return UNK

    @staticmethod
    def _same(a, b):
        if a is UNK or b is UNK:
            return False
        if isinstance(a, Ten) and isinstance(b, Ten):
            return (a.shape, a.dt, a.dev, a.v) == (b.shape, b.dt, b.dev, b.v)
        return type(a) is type(b) and a == b

    def item(self, b, i, t):
        if b is UNK or i is UNK:
            return UNK
        if isinstance(b, (tuple, list)):
            try:
                return b[i]
            except (TypeError, IndexError):
                return UNK
        if isinstance(b, dict):
            return b.get(i, UNK)
        if isinstance(b, Ten):
            if isinstance(i, Ten):
                if i.dt == "bool" and b.v is not None and i.v is not None and len(b.v) == len(i.v):
                    v = tuple(x for x, m in zip(b.v, i.v) if m)
                    return b.with_(shape=(len(v),) + b.shape[len(i.shape):], v=v)
                return UNK
            idx = i if isinstance(i, tuple) else (i,)
            shape, ax = [], 0
            if any(x is UNK for x in idx):
                return UNK
            for x in idx:
                if x is None:
                    shape.append(1)
                    continue
                if x is Ellipsis or ax >= len(b.shape):
                    return UNK
                if isinstance(x, slice):
                    if any(y is UNK for y in (x.start, x.stop, x.step)):
                        return UNK
                    shape.append(len(range(*x.indices(b.shape[ax]))))
                    ax += 1
                elif isinstance(x, int) and not isinstance(x, bool):
                    ax += 1
                else:
                    return UNK
            shape += b.shape[ax:]
            return b.with_(shape=shape)
        return UNK

    def comp(self, t):
        kind, elt, srcs, conds = t.a
        out = []

        flat, cs = [], list(conds)

        def expand(x):
            """a comprehension over a comprehension ranges over the inner sources"""
            if x.k == "comp" and x.a[0] in ("list", "gen"):
                for y in x.a[2]:
                    expand(y)
                cs.extend(x.a[3])
            else:
                flat.append(x)
        for x in srcs:
            expand(x)

        def rec(i):
            if i == len(flat):
                for c in cs:
                    b = self.truth(c)
                    if b is None:
                        raise LookupError
                    if not b:
                        return
                out.append(tuple(self.seq(elt)) if isinstance(elt, tuple) else self(elt))
                return
            s = self(flat[i])
            if not isinstance(s, (tuple, list, frozenset, set, range)):
                raise LookupError
            es = {x for x in walk(t) if x.k == "elem" and x.a[0] is flat[i]} | {T("elem", flat[i])}
            ix = T("idx", flat[i])
            for n, v in enumerate(s):
                for e in es:
                    self.bind[e] = v
                self.bind[ix] = n
                rec(i + 1)
            for e in es:
                self.bind.pop(e, None)
            self.bind.pop(ix, None)
        save = dict(self.bind)
        try:
            rec(0)
        except LookupError:
            return UNK
        finally:
            self.bind = save
        return frozenset(x for x in out) if kind == "set" and not any(isinstance(x, Ten) or x is UNK for x in out) else tuple(out)

    def call(self, t):
        f = t.a[0]
        n = str(f.a[-1]).split(".")[-1]
        if f.k == "attr" and not t.a[1]:
            b = self(f.a[0])
            if isinstance(b, Ten):
                if n == "is_floating_point":
                    return b.dt in ("float", "double")
                if n == "is_complex":
                    return b.dt == "complex"
                if n in ("dim", "ndimension"):
                    return len(b.shape)
        args = self.seq(t.a[1])
        if n == "get_default_device":
            return "cpu"
        if n == "get_default_dtype":
            return "float"
        if any(a is UNK for a in args):
            return UNK
        return self.builtin(n, args, t)

    def builtin(self, n, args, t):
        try:
            if n in ("tuple", "list"):
                return tuple(args[0]) if args else ()
            if n in ("set", "frozenset"):
                return frozenset(args[0]) if args else frozenset()
            if n == "sorted":
                return tuple(sorted(args[0]))
            if n == "range":
                return tuple(range(*args))
            if n == "len":
                return args[0].shape[0] if isinstance(args[0], Ten) else len(args[0])
            if n in ("int", "float", "bool", "abs"):
                x = args[0]
                if isinstance(x, Ten):
                    return x.v[0] if x.v is not None and len(x.v) == 1 else UNK
                return {"int": int, "float": float, "bool": bool, "abs": abs}[n](x)
            if n in ("any", "all", "sum", "max", "min"):
                xs = args[0] if len(args) == 1 else args
                if isinstance(xs, Ten) or any(x is UNK or isinstance(x, Ten) for x in xs):
                    return UNK
                if n in ("max", "min") and not xs:
                    return UNK
                return {"any": any, "all": all, "sum": sum, "max": max, "min": min}[n](xs)
            if n == "isinstance":
                return UNK
        except (TypeError, ValueError, IndexError):
            return UNK
        return UNK

    def opv(self, t):
        n, args, kw = t.a[0], t.a[1], dict(t.a[2])
        if n in ("and", "or"):
            unk = False
            for a in args:
                b = self.truth(a)
                if b is None:
                    unk = True
                elif b == (n == "or"):
                    return b
            return UNK if unk else n == "and"
        if n == "not":
            b = self.truth(args[0])
            return UNK if b is None else not b
        if n in ("is", "isnot"):
            a, b = self.seq(args)
            if a is UNK or b is UNK:
                return UNK
            same = a is b or (isinstance(a, (bool, str)) and a == b)
            return same == (n == "is")
        xs = self.seq(args)
        if n in ("in", "notin"):
            if any(x is UNK for x in xs) or not isinstance(xs[1], (tuple, list, frozenset, set, dict)) or any(y is UNK for y in xs[1]):
                return UNK
            return (xs[0] in xs[1]) == (n == "in")
        if n in ("int", "float", "bool", "len", "any", "all", "sum", "max", "min", "sorted", "tuple", "list", "set", "range", "abs") and xs and xs[0] is not UNK \
                and not isinstance(xs[0], Ten):
            if not any(x is UNK for x in xs):
                return self.builtin(n, xs, t)
        b = xs[0] if xs else None
        if n in ("eq", "ne", "lt", "le"):
            x, y = xs
            if x is UNK or y is UNK:
                return UNK
            return self.lift(lambda p, q: {"eq": p == q, "ne": p != q, "lt": n == "lt" and p < q, "le": n == "le" and p <= q}[n], x, y, "bool")
        if n in ("add", "sub", "mul", "div", "floordiv", "mod", "neg", "pow"):
            if any(x is UNK for x in xs):
                return UNK
            if n == "neg":
                return self.lift(lambda p, q: -p, b, 0, None)
            if n == "add" and all(isinstance(x, tuple) for x in xs):
                return xs[0] + xs[1]
            if n == "mul" and isinstance(xs[0], tuple) and isinstance(xs[1], int):
                return xs[0] * xs[1]
            fs = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q, "div": lambda p, q: p / q, "floordiv": lambda p, q: p // q,
                  "mod": lambda p, q: p % q, "pow": lambda p, q: p ** q}
            if n in ("add", "mul") and len(xs) > 2:
                r = xs[0]
                for y in xs[1:]:
                    r = self.lift(fs[n], r, y, None)
                    if r is UNK:
                        return UNK
                return r
            return self.lift(fs[n], xs[0], xs[1], None)
        if n in ("or_", "and_", "not_", "logical_or", "logical_and", "logical_not", "xor_"):
            if any(x is UNK for x in xs):
                return UNK
            if n in ("not_", "logical_not"):
                return self.lift(lambda p, q: not p, b, 0, "bool")
            isset = all(isinstance(x, frozenset) for x in xs)
            if isset:
                return xs[0] | xs[1] if n == "or_" else xs[0] & xs[1]
            f = (lambda p, q: bool(p) or bool(q)) if "or" in n and n != "xor_" else (lambda p, q: bool(p) and bool(q)) if "and" in n else (lambda p, q: bool(p) != bool(q))
            return self.lift(f, xs[0], xs[1], "bool")
        if n in ("zeros", "ones", "empty", "full", "rand", "randn"):
            if any(x is UNK for x in xs):
                return UNK
            fill = {"zeros": 0, "ones": 1}.get(n)
            if n == "full":
                shp, fill = (xs[0] if isinstance(xs[0], tuple) else (xs[0],)), (xs[1] if len(xs) > 1 else self(kw["fill_value"]))
            else:
                shp = xs[0] if xs and isinstance(xs[0], tuple) else tuple(xs)
            if not all(isinstance(s, int) for s in shp):
                return UNK
            dt = self(kw["dtype"]) if "dtype" in kw else ("bool" if isinstance(fill, bool) else "float")
            dev = self(kw["device"]) if "device" in kw else "cpu"
            return Ten(shp, dt, "cpu" if dev is None else dev, None if fill is None else (fill,), tag=n)
        if not isinstance(b, Ten):
            return UNK
        if n in ("zeros_like", "ones_like", "full_like", "empty_like", "rand_like"):
            return b.with_(v=None, tag=n, dt=self(kw["dtype"]) if "dtype" in kw else b.dt)
        if n in ("new_zeros", "new_ones", "new_full", "new_empty"):
            if any(x is UNK for x in xs):
                return UNK
            shp = xs[1] if isinstance(xs[1], tuple) else tuple(x for x in xs[1:] if isinstance(x, int))
            return Ten(shp, self(kw["dtype"]) if "dtype" in kw else b.dt, b.dev, {"new_zeros": (0,), "new_ones": (1,)}.get(n), tag=n)
        if n in ("to", "type", "long", "float", "double", "bool", "int"):
            dt, dev = b.dt, b.dev
            if n in ("long", "float", "double", "bool", "int"):
                dt = n
            for x in list(xs[1:]) + [self(kw[k]) for k in ("dtype", "device") if k in kw]:
                if isinstance(x, str) and x in DT.values():
                    dt = x
                elif isinstance(x, str):
                    dev = x
                elif isinstance(x, Ten):
                    dt, dev = x.dt, x.dev
                elif x is UNK:
                    return UNK
            return b.with_(dt=dt, dev=dev)
        if n in ("clone", "detach", "contiguous", "copy", "requires_grad_"):
            return b.with_(tag=n if n == "clone" else b.tag)
        if n in ("cpu",):
            return b.with_(dev="cpu")
        if n == "numel":
            p = 1
            for s in b.shape:
                p *= s
            return p
        if n in ("dim",):
            return len(b.shape)
        if n == "size":
            return b.shape if len(xs) == 1 else (b.shape[xs[1]] if isinstance(xs[1], int) and -len(b.shape) <= xs[1] < len(b.shape) else UNK)
        if n in ("any", "all") and len(xs) == 1 and not kw:
            if b.v is None:
                return UNK
            return Ten((), "bool", b.dev, ((any if n == "any" else all)(b.v),))
        if n in ("min", "max", "amin", "amax") and len(xs) == 1 and not kw:
            return UNK if not b.v else Ten((), b.dt, b.dev, ((max if "max" in n else min)(b.v),))
        if n == "item":
            return b.v[0] if b.v is not None and len(b.v) == 1 else UNK
        if n in ("isnan", "isinf", "isfinite"):
            if b.v is None:
                return UNK
            import math
            return self.lift(lambda p, q: getattr(math, n)(p), b, 0, "bool")
        if n in ("expand", "repeat", "view", "reshape", "squeeze", "unsqueeze", "flatten", "ravel"):
            if any(x is UNK for x in xs[1:]) or any(self(x) is UNK for x in kw.values()):
                return UNK
            a = xs[1] if len(xs) == 2 and isinstance(xs[1], tuple) else tuple(xs[1:])
            d = self(kw["dim"]) if "dim" in kw else (xs[1] if len(xs) > 1 else None)
            s = list(b.shape)
            try:
                if n == "expand":
                    pre = len(a) - len(s)
                    s = [1] * pre + s
                    for i, (x, y) in enumerate(zip(a, s)):
                        if x != -1 and y not in (1, x):
                            return UNK
                    return b.with_(shape=[y if x == -1 else x for x, y in zip(a, s)])
                if n == "repeat":
                    s = [1] * (len(a) - len(s)) + s
                    return b.with_(shape=[x * y for x, y in zip(a, s)])
                if n == "unsqueeze":
                    s.insert(d if d >= 0 else d + len(s) + 1, 1)
                    return b.with_(shape=s)
                if n == "squeeze":
                    if d is None:
                        return b.with_(shape=[x for x in s if x != 1])
                    if s[d] == 1:
                        s.pop(d)
                    return b.with_(shape=s)
                if n in ("view", "reshape"):
                    tot = 1
                    for x in s:
                        tot *= x
                    r = 1
                    for x in a:
                        r *= x if x != -1 else 1
                    if -1 in a:
                        return b.with_(shape=[tot // r if x == -1 else x for x in a]) if r and tot % r == 0 else UNK
                    return b.with_(shape=a) if r == tot else UNK
                if n in ("flatten", "ravel") and len(xs) == 1:
                    tot = 1
                    for x in s:
                        tot *= x
                    return b.with_(shape=[tot])
            except (TypeError, IndexError):
                return UNK
        return UNK

    def lift(self, f, x, y, dt):
        try:
            if not isinstance(x, Ten) and not isinstance(y, Ten):
                if isinstance(x, tuple) and any(z is UNK for z in x) or isinstance(y, tuple) and any(z is UNK for z in y):
                    return UNK
                return f(x, y)
            ref = x if isinstance(x, Ten) else y
            sh = bshape(x.shape if isinstance(x, Ten) else (), y.shape if isinstance(y, Ten) else ())
            if sh is None:
                return UNK
            xv = x.v if isinstance(x, Ten) else (x,)
            yv = y.v if isinstance(y, Ten) else (y,)
            v = None
            if xv is not None and yv is not None and (len(xv) == len(yv) or 1 in (len(xv), len(yv))):
                n = max(len(xv), len(yv)) if min(len(xv), len(yv)) else 0
                v = tuple(f(xv[i % len(xv)], yv[i % len(yv)]) for i in range(n))
            return Ten(sh, dt or ref.dt, ref.dev, v)
        except (TypeError, ZeroDivisionError, KeyError):
            return UNK


def bshape(a, b):
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x != y and 1 not in (x, y):
            return None
        out.append(max(x, y))
    return tuple(out)


class Outcome:
    def __init__(self):
        self.raised = None      # the raise event that definitely fires
        self.maybe = []         # raise events that may fire
        self.stores = []        # (event, value, certain) in order, before a raise
        self.late = None        # a raise that fires after something was stored


def judge(events, ab, stores=("store_attr",), target=None):
    """which raise fires first on this abstract input, and what was stored before it"""
    o = Outcome()
    for e in events:
        if e.kind not in ("raise",) + tuple(stores):
            continue
        if e.kind == "raise" and any(getattr(h, "k", None) == "handler" for h in ()):
            continue
        for _ in loop_binds(e, ab):
            st = True
            for c, b in e.guards:
                if c.k == "forall":
                    v = None
                    body = ab.truth(c.a[0]) if False else None
                else:
                    v = ab.truth(c)
                if v is None:
                    st = None
                elif v != b:
                    st = False
                    break
            if st is False:
                continue
            if e.kind == "raise":
                if st is None:
                    o.maybe.append(e)
                else:
                    o.raised = e
                    if any(s[2] for s in o.stores):
                        o.late = e
                    return o
            elif target is None or target(e):
                o.stores.append((e, ab(e.term) if e.term is not None else UNK, st is True))
    return o


def loop_binds(e, ab):
    its = [t for t in e.loops]
    if not its:
        yield None
        return
    vals = []
    save = dict(ab.bind)

    def rec(i):
        if i == len(its):
            yield None
            return
        s = ab(its[i])
        if not isinstance(s, (tuple, list, frozenset)):
            yield None
            return
        terms = [T("elem", its[i])] + [x for g in e.guards for x in walk(g[0]) if x.k == "elem" and x.a[0] is its[i]]
        for n, v in enumerate(s):
            for x in terms:
                ab.bind[x] = v
            ab.bind[T("idx", its[i])] = n
            yield from rec(i + 1)
    try:
        yield from rec(0)
    finally:
        ab.bind = save
