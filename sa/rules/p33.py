"""Assigning mixture weights: validated, all or nothing, read back, never served stale."""
import ast
from ..lib import *
from ..absdom import *
from ..terms import *

ID = "P33"
TITLE = "Mixture weights are accepted only as distributions and read back as assigned"
EXPL = ("Abstract interpretation of every weight and log-weight setter over a finite domain of shapes, signs and sums: malformed weights must reach a raise before the parameter is written, valid ones must be stored "
        "as the logits the getter maps back to them. Typestate rules: constructors hand the caller's weights to the setter, and a weight tensor kept between calls is recomputed whenever the logits, mode or gradient state changed.")
ASSUME = ("softmax(log w) = w for a distribution w", "torch version counters")
SH = (2, 3, 4, 5, 6)
NAN = float("nan")


def mkext(tol=True):
    def ext(t, ab):
        if t.k == "item" and t.a[1].k == "const" and isinstance(t.a[1].a[0], int):
            b = ab(t.a[0])
            if isinstance(b, Ten) and b.shape == (2,) and b.tag is None and b.v is not None:
                return Ten((), "float", b.dev, (b.v[t.a[1].a[0]] if len(b.v) > 1 and -2 <= t.a[1].a[0] < 2 else b.v[0],))
            return UNK
        if t.k != "op":
            return UNK
        n = t.a[0]
        if n == "sum" and t.a[1]:
            b = ab(t.a[1][0])
            if isinstance(b, Ten) and isinstance(b.tag, tuple):
                kw = dict(t.a[2])
                if len(t.a[1]) > 1 or "dim" in kw:
                    return Ten((2,), "float", b.dev, b.tag[1] if isinstance(b.tag[1], tuple) else (b.tag[1],))
            return UNK
        if n in ("mean", "median", "amax", "amin", "max", "min") and len(t.a[1]) == 1 and "dim" not in dict(t.a[2]):
            b = ab(t.a[1][0])
            if isinstance(b, Ten) and b.v is not None and b.tag is None and all(isinstance(x, (int, float)) for x in b.v):
                xs = sorted(b.v)
                return Ten((), "float", b.dev, ({"mean": sum(xs) / len(xs), "median": xs[(len(xs) - 1) // 2]}.get(n, xs[-1] if "max" in n else xs[0]),))
            return UNK
        if n in ("new_tensor", "tensor", "as_tensor") and t.a[1]:
            v = ab(t.a[1][-1] if n == "new_tensor" else t.a[1][0])
            return Ten((), "float", "cpu", (v,)) if isinstance(v, (int, float)) else v if isinstance(v, Ten) else UNK
        if n in ("ones_like", "zeros_like"):
            b = ab(t.a[1][0])
            return b.with_(v=((1.0 if n == "ones_like" else 0.0),), tag=n) if isinstance(b, Ten) else UNK
        if n in ("allclose", "isclose"):
            x, y = ab(t.a[1][0]), ab(t.a[1][1])
            kw = dict(t.a[2])
            rest = [ab(z) for z in t.a[1][2:]]
            rtol = ab(kw["rtol"]) if "rtol" in kw else rest[0] if rest else 1e-5
            atol = ab(kw["atol"]) if "atol" in kw else rest[1] if len(rest) > 1 else 1e-8
            if not isinstance(rtol, float) or not isinstance(atol, float):
                return UNK
            r = ab.lift(lambda p, q: abs(p - q) <= atol + rtol * abs(q), x, y, "bool") if x is not UNK and y is not UNK else UNK
            if isinstance(r, Ten) and n == "allclose":
                return all(r.v) if r.v is not None else UNK
            return r
        if n in ("log", "log_softmax", "softmax", "rearrange", "exp", "clone", "abs", "log1p", "flatten", "unflatten"):
            b = ab(t.a[1][0])
            if isinstance(b, Ten) and n == "abs":
                return ab.lift(lambda p, q: abs(p), b, 0, None)
            return b.with_(tag=None, v=None) if isinstance(b, Ten) else UNK
        return UNK
    return ext


def bad(kind):
    W = lambda **k: Ten(**dict(dict(shape=SH, dt="float", dev="cpu", v=(0.25, 0.75), tag=("S", 1.0)), **k))
    out = [("one axis too few", W(shape=SH[1:])), ("an extra axis", W(shape=SH + (1,))), ("a different size", W(shape=SH[:-1] + (7,))), ("a first axis of one", W(shape=(1,) + SH[1:])),
           ("a last axis of one", W(shape=SH[:-1] + (1,))), ("two axes swapped", W(shape=(SH[1], SH[0]) + SH[2:])), ("a middle axis of one", W(shape=SH[:1] + (1,) + SH[2:]))]
    if kind == "weights":
        out += [("a negative entry", W(v=(1.25, -0.25))), ("a negative last entry", W(v=(0.5, 0.75, -0.25))), ("a zero entry", W(v=(1.0, 0.0))), ("an undefined entry", W(v=(0.5, NAN), tag=("S", NAN))),
                ("sums of one half", W(v=(0.25, 0.25), tag=("S", 0.5))), ("sums of two", W(v=(1.0, 1.0), tag=("S", 2.0))), ("sums of one half and one and a half", W(v=(0.25, 0.75), tag=("S", (0.5, 1.5)))), ("one sum of two", W(v=(0.25, 1.0), tag=("S", (1.0, 2.0)))), ("sums slightly above one", W(v=(0.5, 0.51), tag=("S", 1.01))), ("sums slightly below one", W(v=(0.5, 0.49), tag=("S", 0.99)))]
    return out, W()


def check(ctx, chk):
    ix = ctx.ix
    und = []
    done = set()
    for c in ctx.modules():
        for name in ("weights", "log_weights"):
            f = ix.find_setter(c, name)
            if f is None or f.qual in done:
                continue
            done.add(f.qual)
            r = ctx.run_func(f, c)
            par = [p for p in f.all_param_names() if p != "self"][0]
            loc = f"{f.file}:{f.line}"
            writes = [e for e in r.events if e.kind == "store_attr" and e.target is not None and par_write(e)]
            raw = is_raw(ctx, c)
            bs, good = bad("log_weights" if raw else name)
            at = {a: Ten(SH) for a in ("logits", "_weights", "weights_param")}
            at["weights_shape"] = SH
            for n, v in bs:
                ab = Abs({par: v}, at, mkext())
                o = judge(r.events, ab)
                if o.raised is None and o.maybe:
                    und.append((f.qual, n))
                    continue
                early = [s for s in o.stores if par_write(s[0]) and s[2]]
                chk.ob("refused", f"{f.qual}:{n}", o.raised is not None and not early, loc if o.raised is None else early[0][0].where if early else loc,
                       f"{name} with {n} must be refused before the parameter is written" + (", the write comes first" if o.raised is not None else ", no check refuses it"))
            ab = Abs({par: good}, at, mkext())
            o = judge(r.events, ab)
            chk.ob("accepted", f"{f.qual}", o.raised is None, o.raised.where if o.raised is not None else loc, "a positive tensor of the right shape that sums to one must be accepted")
            near = good.with_(tag=("S", 1.0 + 3e-7))
            o = judge(r.events, Abs({par: near}, at, mkext()))
            chk.ob("accepted", f"{f.qual}:rounding", o.raised is None, loc, "sums that differ from one by floating-point rounding must be accepted")
            # what is written
            chk.ob("written", f"{f.qual}:present", len(writes) >= 1, loc, "the setter must write the parameter")
            for e in writes:
                okv = all(readback(x, par, name, raw) for _, x in galts(e.term))
                chk.ob("written", f"{f.qual}:value", okv, e.where, f"the value stored must read back as the {name} assigned, is {show(e.term, 6)}")
            memo(ctx, chk, c, f, r)
    # constructors
    for c in ctx.modules():
        init = ix.find_method(c, "__init__")
        if init is None or ix.find_setter(c, "weights") is None or is_raw(ctx, c):
            continue
        key = (init.qual, c.qual)
        if "weights" not in init.all_param_names():
            continue
        r = ctx.run(c, "__init__")
        st = [e for e in r.events if e.kind == "store_attr" and e.target is not None and e.target.k == "self" and (e.idx == "weights" or e.idx == "log_weights" or e.idx == "logits")]
        got = [e for e in st if contains(e.term, lambda x: x.k == "param" and x.a[-1] == "weights") and e.idx == "weights"]
        chk.ob("constructor", f"{c.name}.__init__", bool(got), f"{init.file}:{init.line}", "weights given to the constructor must be assigned through the checked setter")
        for e in got[:1]:
            bad_g = [g for g, b in flat(e.guards) if g.k == "op" and g.a[0] in ("is", "isnot") and b == (g.a[0] == "is") and is_const(g.a[1][1], None) and g.a[1][0].k == "param" and g.a[1][0].a[-1] == "weights"]
            chk.ob("constructor", f"{c.name}.__init__:path", not bad_g, e.where, "weights given to the constructor must be assigned")
    memos(ctx, chk)
    for u in und[:10]:
        chk.note(f"undecided: {u}")
    chk.floor("refused", 30)
    chk.floor("constructor", 3)
    if len(und) > 25:
        raise AnalysisError(f"{len(und)} weight checks could not be evaluated, e.g. {und[0]}")


def par_write(e):
    t = e.target
    if e.kind != "store_attr":
        return False
    if e.idx == "data" and t.k == "attr" and t.a[0].k == "self":
        return True
    return t.k == "self" and e.idx in ("logits", "_weights", "_logits")


def is_raw(ctx, c):
    """layer whose weights getter returns the stored tensor itself (no normalisation)"""
    f = ctx.ix.find_method(c, "weights")
    if f is None or f.kind != "property":
        return True
    r = ctx.run_func(f, c)
    vs = [core(v) for _, v in r.returns if v is not None]
    return bool(vs) and all(v.k == "attr" and v.a[0].k == "self" for v in vs)


def readback(t, par, name, raw):
    t = core(t)
    while t.k == "op" and t.a[0] in ("rearrange", "flatten", "unflatten", "reshape", "view", "permute", "clone", "detach", "to", "contiguous"):
        t = core(t.a[1][0])
    if t.k == "call" and str(t.a[0].a[-1]).endswith("Parameter"):
        return readback(t.a[1][0] if t.a[1] else dict(t.a[2]).get("data"), par, name, raw)
    if name == "weights" and not raw:
        if t.k == "op" and t.a[0] == "log":
            u = core(t.a[1][0])
            while u.k == "op" and u.a[0] in ("rearrange", "flatten", "unflatten", "reshape", "view", "permute"):
                u = core(u.a[1][0])
            return u.k == "param" and u.a[-1] == par
        return False
    if t.k == "op" and t.a[0] == "log_softmax":     # a renormalisation reads back the same normalised weights
        t = core(t.a[1][0])
    return t.k == "param" and t.a[-1] == par


def memo_attrs(ctx, c):
    """attributes outside the constructor that keep a tensor computed from a parameter"""
    out = {}
    for f in ctx.ix.functions.values():
        if f.cls is None or f.cls not in ctx.ix.mro(c) or f.name in ("__init__",) or f.kind == "nested":
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                out.setdefault(n.attr, []).append(f)
    return out


def params_of(t):
    return {x.a[1] for x in walk(t) if x.k == "attr" and x.a[0].k == "self" and x.a[1] in ("logits", "_weights", "weights")}


def memo(ctx, chk, c, f, r):
    """a setter must drop tensors kept from the old weights"""
    for a, fs in memos_of(ctx, c).items():
        cl = [e for e in r.events if e.kind == "store_attr" and e.target.k == "self" and e.idx == a and e.term is not None and is_const(e.term, None)]
        wr = [e for e in r.events if par_write(e) and e.target.k == "attr"]
        if not wr:
            continue
        ok = any(x.seq > 0 and not [g for g in x.guards if g not in wr[-1].guards] for x in cl)
        chk.ob("memo-cleared", f"{f.qual}:{a}", ok, wr[-1].where, f"writing .data does not advance the version counter, so the setter must clear {a}")


_M = {}


def memos_of(ctx, c):
    if c.qual in _M:
        return _M[c.qual]
    out = {}
    for a, fs in memo_attrs(ctx, c).items():
        for f in fs:
            if f.kind == "setter" and f.name == a:
                continue
            r = ctx.run_func(f, c)
            for e in r.events:
                if e.kind == "store_attr" and e.target.k == "self" and e.idx == a and e.term is not None and params_of(e.term) and not a.startswith("__"):
                    if any(x.k == "attr" and x.a[0].k == "self" and x.a[1] == a for _, v in r.returns if v is not None for x in walk(v)):
                        out.setdefault(a, []).append((f, r, e))
    _M[c.qual] = out
    return out


def memos(ctx, chk):
    seen = set()
    n = 0
    for c in ctx.modules():
        for a, uses in memos_of(ctx, c).items():
            for f, r, e in uses:
                if (f.qual, a) in seen:
                    continue
                seen.add((f.qual, a))
                n += 1
                for g, v in r.returns:
                    if v is None:
                        continue
                    for g2, x in galts(v, tuple(g)):
                        if not any(y.k == "attr" and y.a[0].k == "self" and y.a[1] == a for y in walk(x)):
                            continue
                        gs = list(g2)
                        sub = f"{f.qual}:{a}"
                        ver = any(b and gg.k == "op" and gg.a[0] == "eq" and any(contains(z, lambda q: q.k == "attr" and q.a[1] == "_version") for z in gg.a[1]) for gg, b in flat(gs))
                        chk.ob("memo-fresh", sub + ":version", ver, e.where, f"{a} may be reused only while the parameter's version is the one it was computed from")
                        for what, pred in (("training mode", lambda z: z.k == "attr" and z.a[1] == "training"), ("gradient recording", lambda z: z.k in ("call", "op") and "is_grad_enabled" in str(z.a[0].a[-1] if z.k == "call" else z.a[0]))):
                            ok = any(not b and pred(core(gg)) for gg, b in flat(gs))
                            chk.ob("memo-fresh", sub + ":" + what, ok, e.where, f"{a} carries no gradient, so it may not be reused under {what}")
                # the stored version must be the one of the parameter it was computed from
                if contains(e.term, lambda q: q.k == "attr" and q.a[1] == "_version"):
                    chk.ob("memo-fresh", f"{f.qual}:{a}:stored", True, e.where, "")
                else:
                    chk.ob("memo-fresh", f"{f.qual}:{a}:stored", False, e.where, f"{a} must be stored with the parameter's version")
    return n


def flat(gs):
    out = []
    for g, b in gs:
        if g.k == "op" and g.a[0] == "and" and b:
            out += flat([(x, True) for x in g.a[1]])
        elif g.k == "op" and g.a[0] == "or" and not b:
            out += flat([(x, False) for x in g.a[1]])
        elif g.k == "op" and g.a[0] == "not":
            out += flat([(g.a[1][0], not b)])
        else:
            out.append((g, b))
    return out
