"""Abstract interpreter for small pure methods over finite sets (Venn-region domain) and abstract objects.

Elements of a set stand for Venn regions; a method built from set algebra acts uniformly on regions, so its result on the
free configuration (one element per region) determines it on every input. Anything outside the supported language makes the
question undecided, never an alarm."""
from __future__ import annotations
import ast
import functools
import itertools


class Undecided(Exception):
    pass


class Raised(Exception):
    def __init__(self, node, exc):
        self.node, self.exc = node, exc


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Obj:
    """abstract instance of the analysed class"""
    def __init__(self, cls):
        self.cls, self.f = cls, {}

    def key(self):
        return (self.cls.name, tuple(sorted((k, hk(v)) for k, v in self.f.items())))


def hk(v):
    if isinstance(v, Obj):
        return v.key()
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, map(hk, v)))))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(hk(x) for x in v))
    if isinstance(v, Hash):
        return ("hash", v.k)
    return v


class Hash:
    def __init__(self, v):
        self.k = hk(v)

    def __eq__(self, o):
        return isinstance(o, Hash) and self.k == o.k

    def __hash__(self):
        return hash(self.k)


class Fn:
    def __init__(self, fi=None, lam=None, env=None, bound=None):
        self.fi, self.lam, self.env, self.bound = fi, lam, env, bound


PURE = {"len": len, "set": set, "frozenset": frozenset, "list": list, "tuple": tuple, "sorted": sorted, "any": any, "all": all, "sum": sum, "min": min, "max": max,
        "range": range, "int": int, "bool": bool, "str": str, "abs": abs, "enumerate": enumerate, "zip": zip, "reversed": reversed, "iter": iter, "repr": repr, "next": next}
TYPES = {"int": int, "list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "str": str, "float": float, "bool": bool}
METHODS = {set: {"isdisjoint", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "add", "discard", "remove", "update", "copy", "difference_update", "intersection_update"},
           list: {"append", "extend", "remove", "index", "count", "copy", "pop", "insert", "sort"}, tuple: {"index", "count"}}
METHODS[frozenset] = METHODS[set]


class SetDom:
    def __init__(self, ix, cls, fuel=4000):
        self.ix, self.cls, self.fuel = ix, cls, fuel

    def method(self, name):
        f = self.ix.find_method(self.cls, name)
        if f is None:
            raise Undecided(name)
        return f

    def call_method(self, name, recv, *args, **kw):
        f = self.method(name)
        return self.call_fn(f, ([] if f.kind == "static" else [self.cls] if f.kind == "classmethod" else [recv]) + list(args), kw)

    def new(self, *args, **kw):
        o = Obj(self.cls)
        init = self.ix.find_method(self.cls, "__init__")
        if init is None:
            names = [f for f, _, _ in self.cls.fields]
            o.f.update(zip(names, args))
            o.f.update(kw)
        else:
            self.call_fn(init, [o] + list(args), kw)
        return o

    def call_fn(self, fi, args, kw):
        node = fi.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(names, args))
        if len(args) > len(names):
            raise Undecided("varargs")
        env.update(kw)
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in env:
                env[n] = self.ev(d, {})
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                if d is None:
                    raise Undecided("missing argument")
                env[x.arg] = self.ev(d, {})
        try:
            self.block(node.body, env)
        except _Ret as r:
            return r.v
        return None

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("fuel")
        if isinstance(s, ast.Return):
            raise _Ret(None if s.value is None else self.ev(s.value, env))
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            self.assign(s.target, self.binop(s.op, self.ev(s.target_load if hasattr(s, "target_load") else self._load(s.target), env), self.ev(s.value, env)), env)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.For):
            try:
                for v in self.iter(self.ev(s.iter, env)):
                    self.assign(s.target, v, env)
                    try:
                        self.block(s.body, env)
                    except _Cont:
                        pass
                else:
                    self.block(s.orelse, env)
            except _Brk:
                pass
        elif isinstance(s, ast.While):
            try:
                while self.truth(self.ev(s.test, env)):
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise Undecided("fuel")
                    try:
                        self.block(s.body, env)
                    except _Cont:
                        pass
            except _Brk:
                pass
        elif isinstance(s, ast.Continue):
            raise _Cont()
        elif isinstance(s, ast.Break):
            raise _Brk()
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Raise):
            raise Raised(s, None)
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, env)):
                raise Raised(s, None)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            pass
        else:
            raise Undecided(type(s).__name__)

    @staticmethod
    def _load(t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
            v = list(self.iter(v))
            if len(v) != len(t.elts):
                raise Undecided("unpack")
            for x, y in zip(t.elts, v):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not isinstance(o, Obj):
                raise Undecided("attribute store")
            o.f[t.attr] = v
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env)[self.ev(t.slice, env)] = v
        else:
            raise Undecided("target")

    def iter(self, v):
        if isinstance(v, (Obj, int, bool, float)) or v is None:
            raise Raised(None, "TypeError")
        if isinstance(v, (set, frozenset)):     # no order may be assumed: take an inconvenient one
            return sorted(v, key=lambda x: hk(x) if isinstance(hk(x), int) else 0, reverse=True)
        return v

    def truth(self, v):
        if isinstance(v, Obj):
            f = self.ix.find_method(self.cls, "__bool__") or self.ix.find_method(self.cls, "__len__")
            return bool(self.call_fn(f, [v], {})) if f else True
        return bool(v)

    def binop(self, o, x, y):
        if isinstance(x, Obj) or isinstance(y, Obj):
            raise Undecided("operator on object")
        try:
            return {ast.BitOr: lambda: x | y, ast.BitAnd: lambda: x & y, ast.Sub: lambda: x - y, ast.Add: lambda: x + y, ast.BitXor: lambda: x ^ y, ast.Mult: lambda: x * y,
                    ast.Mod: lambda: x % y, ast.FloorDiv: lambda: x // y}[type(o)]()
        except TypeError:
            raise Raised(None, "TypeError")
        except KeyError:
            raise Undecided("operator")

    def eq(self, x, y):
        if isinstance(x, Obj):
            f = self.ix.find_method(self.cls, "__eq__")
            if f is not None:
                return self.truth(self.call_fn(f, [x, y], {}))
            return isinstance(y, Obj) and hk(x) == hk(y)
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            return type(x) is type(y) and len(x) == len(y) and all(self.eq(a, b) for a, b in zip(x, y))
        return x == y

    def ev(self, e, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("fuel")
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id == self.cls.name:
                return self.cls
            if e.id in PURE or e.id in TYPES or e.id in ("isinstance", "hash", "type", "object", "reduce", "map", "filter", "NotImplemented"):
                return ("builtin", e.id)
            raise Undecided(e.id)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += list(self.iter(self.ev(x.value, env)))
                else:
                    out.append(self.ev(x, env))
            return tuple(out) if isinstance(e, ast.Tuple) else out if isinstance(e, ast.List) else set(out)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.ev(x, env)
                if self.truth(v) == isinstance(e.op, ast.Or):
                    return v
            return v
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(e.op, ast.USub):
                return -v
            raise Undecided("unary")
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
        if isinstance(e, ast.Compare):
            l = self.ev(e.left, env)
            for o, r in zip(e.ops, e.comparators):
                r = self.ev(r, env)
                if not self.cmp(o, l, r):
                    return False
                l = r
            return True
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env)
            if isinstance(o, Obj):
                if e.attr in o.f:
                    return o.f[e.attr]
                f = self.ix.find_method(self.cls, e.attr)
                if f is None:
                    raise Undecided(e.attr)
                if f.kind == "property":
                    return self.call_fn(f, [o], {})
                return Fn(f, bound=None if f.kind == "static" else self.cls if f.kind == "classmethod" else o)
            if o is self.cls:
                f = self.ix.find_method(self.cls, e.attr)
                if f is not None:
                    return Fn(f, bound=self.cls if f.kind == "classmethod" else None)
            if e.attr == "__setattr__" and o == ("builtin", "object"):
                return ("builtin", "__setattr__")
            for ty, ms in METHODS.items():
                if type(o) is ty and e.attr in ms:
                    return ("m", o, e.attr)
            if isinstance(o, tuple) and len(o) == 2 and o[0] == "mod":
                return ("builtin", e.attr)
            raise Undecided(e.attr)
        if isinstance(e, ast.Subscript):
            o, i = self.ev(e.value, env), self.ev(e.slice, env)
            try:
                return o[i]
            except (IndexError, KeyError):
                raise Raised(None, "IndexError")
            except TypeError:
                raise Undecided("subscript")
        if isinstance(e, ast.Slice):
            return slice(*[None if x is None else self.ev(x, env) for x in (e.lower, e.upper, e.step)])
        if isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            out = []

            def rec(i, en):
                if i == len(e.generators):
                    out.append(self.ev(e.elt, en))
                    return
                g = e.generators[i]
                for v in self.iter(self.ev(g.iter, en)):
                    en2 = dict(en)
                    self.assign(g.target, v, en2)
                    if all(self.truth(self.ev(c, en2)) for c in g.ifs):
                        rec(i + 1, en2)
            rec(0, env)
            return set(out) if isinstance(e, ast.SetComp) else out
        if isinstance(e, ast.Lambda):
            return Fn(lam=e, env=env)
        if isinstance(e, ast.JoinedStr):
            return "text"
        if isinstance(e, ast.Starred):
            raise Undecided("starred")
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Call):
            return self.call(e, env)
        raise Undecided(type(e).__name__)

    def cmp(self, o, l, r):
        if isinstance(o, (ast.Is, ast.IsNot)):
            return (l is r or (isinstance(l, tuple) and l == r and l[:1] == ("builtin",))) == isinstance(o, ast.Is)
        if isinstance(o, (ast.Eq, ast.NotEq)):
            return self.eq(l, r) == isinstance(o, ast.Eq)
        if isinstance(o, (ast.In, ast.NotIn)):
            return any(self.eq(x, l) for x in self.iter(r)) == isinstance(o, ast.In)
        try:
            return {ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r}[type(o)]()
        except TypeError:
            raise Raised(None, "TypeError")

    def apply(self, fn, args, kw=None):
        kw = kw or {}
        if isinstance(fn, Fn):
            if fn.lam is not None:
                env = dict(fn.env)
                env.update(zip([x.arg for x in fn.lam.args.args], args))
                return self.ev(fn.lam.body, env)
            return self.call_fn(fn.fi, ([fn.bound] if fn.bound is not None else []) + list(args), kw)
        if fn is self.cls:
            return self.new(*args, **kw)
        if isinstance(fn, tuple) and fn[0] == "m":
            _, o, name = fn
            try:
                return getattr(o, name)(*args, **kw)
            except (ValueError, KeyError, IndexError):
                raise Raised(None, "ValueError")
            except TypeError:
                raise Raised(None, "TypeError")
        if isinstance(fn, tuple) and fn[0] == "builtin":
            n = fn[1]
            if n == "isinstance":
                ts = args[1] if isinstance(args[1], tuple) and args[1][:1] != ("builtin",) else (args[1],)
                r = False
                for t in ts:
                    if t is self.cls:
                        r = r or isinstance(args[0], Obj)
                    elif isinstance(t, tuple) and t[1] in TYPES:
                        r = r or isinstance(args[0], TYPES[t[1]])
                    else:
                        raise Undecided("isinstance")
                return r
            if n == "hash":
                return Hash(args[0])
            if n == "type":
                return self.cls if isinstance(args[0], Obj) else ("builtin", type(args[0]).__name__)
            if n == "__setattr__":
                args[0].f[args[1]] = args[2]
                return None
            if n == "reduce":
                xs = list(self.iter(args[1]))
                if len(args) > 2:
                    acc = args[2]
                elif xs:
                    acc, xs = xs[0], xs[1:]
                else:
                    raise Raised(None, "TypeError")
                for x in xs:
                    acc = self.apply(args[0], [acc, x])
                return acc
            if n == "map":
                return [self.apply(args[0], list(t)) for t in zip(*[self.iter(a) for a in args[1:]])]
            if n == "filter":
                return [x for x in self.iter(args[1]) if self.truth(self.apply(args[0], [x]))]
            if n == "combinations":
                return list(itertools.combinations(list(self.iter(args[0])), args[1]))
            if n in ("pairwise",):
                return list(itertools.pairwise(list(self.iter(args[0]))))
            if n == "chain":
                return [x for a in args for x in self.iter(a)]
            if n in ("len", "bool") and args and isinstance(args[0], Obj):
                f = self.ix.find_method(self.cls, "__len__")
                if f is None:
                    raise Undecided(n)
                v = self.call_fn(f, [args[0]], {})
                return v if n == "len" else bool(v)
            if n in PURE:
                if any(isinstance(a, Obj) for a in args):
                    raise Undecided(n)
                if n in ("any", "all"):
                    return PURE[n](self.truth(x) for x in self.iter(args[0]))
                if n in ("list", "tuple", "enumerate", "zip", "iter", "reversed"):
                    args = [self.iter(a) if isinstance(a, (set, frozenset)) else a for a in args]
                try:
                    return PURE[n](*args, **kw)
                except (TypeError, ValueError, StopIteration):
                    raise Raised(None, "TypeError")
        raise Undecided(str(fn))

    def call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" or isinstance(e.func, ast.Name) and e.func.id.endswith("Error"):
            raise Undecided("super")
        if isinstance(e.func, ast.Name) and e.func.id not in env and e.func.id in ("combinations", "pairwise", "chain"):
            fn = ("builtin", e.func.id)
        elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("itertools", "functools") and e.func.value.id not in env:
            fn = ("builtin", e.func.attr)
        else:
            fn = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iter(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Undecided("**")
            kw[k.arg] = self.ev(k.value, env)
        return self.apply(fn, args, kw)
