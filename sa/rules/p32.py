"""Leaf parameters: read back what was given, valid range for every stored value, handed unchanged to the density."""
from ..lib import *
from ..alg import *
from .p30 import fname
from .p31 import params_of, writes, fam

ID = "P32"
TITLE = "A leaf's parameters read back as given and stay valid for every stored value"
EXPL = ("Construction, setter and getter of each leaf parameter are brought to algebraic normal form: getter(setter(v)) must equal v (or v normalised over the category axis), the constructor must store what the setter stores, "
        "the parameter object must be kept, the range of the expression handed to the distribution over all real stored values must lie in the argument's domain, and every distribution the leaf builds must get exactly these expressions.")
ASSUME = ("torch.distributions argument names and domains in the rule table", "exp > 0, 0 <= sigmoid <= 1, softmax sums to one over its axis")

POS = {"scale", "rate", "concentration", "concentration0", "concentration1", "df"}
UNIT = {"probs"}
TORCH_ARGS = {"Normal": {"loc", "scale"}, "LogNormal": {"loc", "scale"}, "Laplace": {"loc", "scale"}, "Gamma": {"concentration", "rate"}, "Exponential": {"rate"}, "Poisson": {"rate"},
              "Bernoulli": {"probs", "logits"}, "Binomial": {"total_count", "probs", "logits"}, "NegativeBinomial": {"total_count", "probs", "logits"}, "Geometric": {"probs", "logits"},
              "Categorical": {"probs", "logits"}, "Uniform": {"low", "high"}, "OneHotCategorical": {"probs", "logits"}}


def alg():
    return Alg(lambda t: False, lambda t: False)


def learnable(ctx, c):
    """{attribute: [init terms]} of nn.Parameter attributes"""
    out = {}
    r = ctx.run(c, "__init__")
    for e in r.events:
        if e.kind == "store_attr" and e.target is not None and e.target.k == "self" and e.term is not None:
            for x in alts(e.term):
                if x.k in ("call", "op") and fname(x) == "Parameter" and x.a[1]:
                    out.setdefault(e.idx, []).append((x.a[1][0], e.where))
        elif e.kind == "call" and e.name == "register_parameter" and len(e.args) > 1 and e.args[0].k == "const":
            for x in alts(e.args[1]):
                if x.k in ("call", "op") and fname(x) == "Parameter" and x.a[1]:
                    out.setdefault(e.args[0].a[0], []).append((x.a[1][0], e.where))
    made = {}
    for e in r.events:
        if e.kind == "store_attr" and e.target is not None and e.target.k == "self" and e.idx in out and e.term is not None:
            made[e.term] = T("attr", e.target, e.idx)
    for a, ws in writes(r).items():
        a = made.get(a, a)
        if a.k == "attr" and a.a[0].k == "self" and a.a[1] in out:
            late = [(v, e.where) for g, v, e in ws if e.kind != "store_attr" or e.idx == "data"]
            if late:
                out[a.a[1]] = late[-1:]
    return out


def fixed(ctx, c, ps):
    """{attribute: [final init term]} of the non-learnable attributes params() reads"""
    out = {}
    r = ctx.run(c, "__init__")
    read = {s.a[1] for t in ps.values() for s in walk(t) if s.k == "attr" and s.a[0].k == "self"}
    for e in r.events:
        if e.kind == "store_attr" and e.target is not None and e.target.k == "self" and e.idx in read and e.term is not None:
            out[e.idx] = [(e.term, e.where)]
        elif e.kind == "call" and e.name == "register_buffer" and len(e.args) > 1 and e.args[0].k == "const" and e.args[0].a[0] in read:
            out[e.args[0].a[0]] = [(e.args[1], e.where)]
    return out


strip = strip_unit


def simplex(t):
    """(inner, axis, log?) of a softmax/log_softmax"""
    t = strip(t)
    lg = False
    if t.k == "op" and t.a[0] == "log" and t.a[1]:
        lg, t = True, strip(t.a[1][0])
    if t.k == "op" and t.a[0] == "exp" and t.a[1]:
        t = strip(t.a[1][0])
    if t.k == "op" and t.a[0] in ("softmax", "log_softmax") and t.a[1]:
        d = dict(t.a[2]).get("dim")
        return strip(t.a[1][0]), (d.a[0] if d is not None and d.k == "const" else None), t.a[0] == "log_softmax" or lg
    return None


def rng(t, depth=0):
    """sign/interval of t over all real stored values: (lo, lo_open, hi, hi_open)"""
    INF = float("inf")
    full = (-INF, True, INF, True)
    if depth > 30:
        return full
    t = strip(t)
    v = num(t)
    if v is not None:
        return (v, False, v, False)
    if t.k == "phi":
        a, b = rng(t.a[1], depth + 1), rng(t.a[2], depth + 1)
        lo = min((a[0], a[1]), (b[0], b[1]), key=lambda z: (z[0], z[1]))
        hi = max((a[2], not a[3]), (b[2], not b[3]))
        return (lo[0], lo[1], hi[0], not hi[1])
    if t.k != "op":
        return full
    n, a, kw = t.a[0], t.a[1], dict(t.a[2])
    if n in ("exp", "softplus"):
        return (0.0, True, INF, True)
    if n in ("sigmoid",):
        return (0.0, True, 1.0, True)
    if n in ("softmax",):
        return (0.0, True, 1.0, False)
    if n in ("square", "abs"):
        return (0.0, False, INF, True)
    if n == "pow" and len(a) == 2 and num(a[1]) == 2:
        return (0.0, False, INF, True)
    if n == "clamp" and a:
        lo, lo_o, hi, hi_o = rng(a[0], depth + 1)
        m, M = (num(kw[k]) if kw.get(k) is not None else None for k in ("min", "max"))
        if m is not None and m > lo:
            lo, lo_o = m, False
        if M is not None and M < hi:
            hi, hi_o = M, False
        return (lo, lo_o, hi, hi_o)
    if n in ("add", "sub", "mul", "div") and len(a) == 2:
        x, y = rng(a[0], depth + 1), rng(a[1], depth + 1)
        if n == "add":
            return (x[0] + y[0], x[1] or y[1], x[2] + y[2], x[3] or y[3])
        if n == "sub":
            return (x[0] - y[2], x[1] or y[3], x[2] - y[0], x[3] or y[1]) if abs(y[2]) != INF or abs(y[0]) != INF else full
        if n == "mul":
            if y[0] == y[2] and abs(y[0]) != INF:
                x, y = y, x
            if x[0] == x[2] and abs(x[0]) != INF:
                k = x[0]
                if k > 0:
                    return (y[0] * k, y[1], y[2] * k, y[3])
                if k < 0:
                    return (y[2] * k, y[3], y[0] * k, y[1])
            if x[0] >= 0 and y[0] >= 0:
                return (0.0, x[1] and y[1], INF, True)
            return full
        if n == "div":
            if x[0] >= 0 and y[0] >= 0:
                return (0.0, x[1], INF, True)
            return full
    if n == "neg" and a:
        x = rng(a[0], depth + 1)
        return (-x[2], x[3], -x[0], x[1])
    if n == "sqrt" and a:
        x = rng(a[0], depth + 1)
        return (0.0, x[1] or x[0] > 0, INF, True)
    if n == "reciprocal" and a:
        x = rng(a[0], depth + 1)
        return (0.0, True, INF, True) if x[0] >= 0 else full
    return full


def same(p, q):
    """both terms denote the same function of the same atoms, in every branch case"""
    def one(ch):
        al = alg()
        a, b = al.ev(p, ch), al.ev(q, ch)
        return eq(a, b)
    try:
        return all(r for _, r in cases(one, limit=64))
    except RecursionError:
        return False


def unnorm(t):
    """t up to a tiny lower clamp and division by its own sum over the last axis"""
    t = strip(t)
    if t.k == "op" and t.a[0] == "clamp" and t.a[1] and set(dict(t.a[2])) == {"min"}:
        m = dict(t.a[2])["min"]
        if num(m) is None or 0 <= num(m) <= 1e-6:
            return unnorm(t.a[1][0])
    if t.k == "op" and t.a[0] == "div" and len(t.a[1]) == 2:
        d = unnorm(t.a[1][1])
        if d.k == "op" and d.a[0] == "sum" and d.a[1] and d.a[1][0] is t.a[1][0] and is_const(dict(d.a[2]).get("dim", NONE), -1):
            return unnorm(t.a[1][0])
    return t


def roundtrip(g, a, v, p):
    """getter g over stored attribute a, composed with the stored value v, gives parameter p back"""
    t = subst(g, {a: v})
    if same(t, p):
        return True, "reads back the value given"
    s = simplex(t)
    if s is not None and not s[2]:
        inner, ax, _ = s
        inner = strip(inner)
        if inner.k == "op" and inner.a[0] == "log" and inner.a[1] and same(unnorm(inner.a[1][0]), p):
            return ax == -1, "reads back the value given, normalised over the last axis" if ax == -1 else f"normalises over axis {ax} instead of the category axis"
    return False, "getter(setter(v)) is not v"


def check(ctx, chk):
    for c in ctx.leaves():
        ps = params_of(ctx, c)
        lp = learnable(ctx, c)
        where = f"{c.module.rel}:{c.name}"
        f = fam(ctx, c)
        fx = {a: v for a, v in fixed(ctx, c, ps).items() if a not in lp}
        setters(ctx, chk, c, lp, fx, where)
        density(ctx, chk, c, ps, lp, f, where)
        built(ctx, chk, c, ps, f, where)
    projections(ctx, chk)
    histogram(ctx, chk)
    cltree(ctx, chk)
    chk.floor("round-trip", 6)
    chk.floor("constructed", 6)
    chk.floor("valid-range", 6)
    chk.floor("same-parameters", 8)


def stored_by_setter(ctx, c, n, lp):
    """(attr, value, event, param) written by the setter of property n"""
    fs = ctx.ix.find_setter(c, n)
    if fs is None:
        return None
    r = ctx.run(c, fs)
    names = fs.all_param_names()
    if len(names) < 2:
        return None
    p = T("param", fs.qual, names[1])
    out = []
    made = {}
    for e in r.events:
        if e.kind == "store_attr" and e.target is not None and e.target.k == "self" and e.idx in out and e.term is not None:
            made[e.term] = T("attr", e.target, e.idx)
    for a, ws in writes(r).items():
        a = made.get(a, a)
        if a.k == "attr" and a.a[1] in lp:
            for g, v, e in ws:
                out.append((a, v, e, p))
    return fs, r, p, out


def setters(ctx, chk, c, lp, fx, where):
    ix = ctx.ix
    learn, lp = lp, {**fx, **lp}
    seen = set()
    for k in ix.mro(c):
        for n in k.setters:
            if n in seen:
                continue
            seen.add(n)
            g = ctx.run(c, n)
            if g is None or g.value is None or not any(contains(g.value, lambda s: s.k == "attr" and s.a[0].k == "self" and s.a[1] == a) for a in lp):
                continue
            fs, r, p, out = stored_by_setter(ctx, c, n, lp)
            name = f"{c.name}.{n}"
            w = f"{fs.module.rel}:{fs.name}"
            if not out:
                chk.ob("round-trip", name, False, w, "the setter stores nothing in the parameter the getter reads")
                continue
            for a, v, e, p in out:
                ok, d = roundtrip(g.value, a, v, p)
                chk.ob("round-trip", name, ok, e.where, d)
                if a.a[1] not in learn:
                    continue
                direct = e.kind == "store_attr" and e.target is not None and e.target.k == "self"
                chk.ob("kept-object", name, not direct, e.where, "only the value of the registered parameter changes" if not direct else "assignment replaces the parameter object an optimizer may hold")
            constructed(ctx, chk, c, n, lp, g.value, where)
    # plain learnable attributes named like a constructor argument
    ini = ix.find_method(c, "__init__")
    for a, ts in lp.items():
        if a in ini.all_param_names() and a not in seen:
            constructed(ctx, chk, c, a, lp, T("attr", self_term(ctx, c), a), where)
    for k, t in params_of(ctx, c).items():
        constructed(ctx, chk, c, k, lp, t, where, "distribution's ")


def self_term(ctx, c):
    r = ctx.run(c, "__init__")
    for e in r.events:
        if e.kind == "store_attr" and e.target is not None and e.target.k == "self":
            return e.target
    return T("self", c.qual)


def constructed(ctx, chk, c, n, lp, g, where, what=""):
    """the value passed to the constructor under this name is the value the getter reads"""
    ini = ctx.ix.find_method(c, "__init__")
    if n not in ini.all_param_names():
        return
    p = T("param", ini.qual, n)
    others = [T("param", ini.qual, x) for x in ("probs", "logits") if x != n and x in ini.all_param_names()]
    for a, ts in lp.items():
        if not contains(g, lambda s: s.k == "attr" and s.a[0].k == "self" and s.a[1] == a):
            continue
        for t, w in ts:
            v = decided(t, {p: False, **{o: True for o in others}})
            ga = next(s for s in walk(g) if s.k == "attr" and s.a[0].k == "self" and s.a[1] == a)
            ok, d = roundtrip(g, ga, v, p)
            chk.ob("constructed", f"{c.name}.{what}{n}", ok, w, "the constructor stores the value given" if ok else "the value passed to the constructor is not the value the leaf uses: " + d)


def density(ctx, chk, c, ps, lp, f, where):
    ix = ctx.ix
    names = dist_args(ctx, c)
    for k, t in ps.items():
        name = f"{c.name}.{k}"
        if names is not None:
            chk.ob("argument-name", name, k in names, where, f"'{k}' is an argument of the distribution" if k in names else f"the distribution has no argument '{k}'")
        g = ctx.run(c, k) if ix.find_method(c, k) is not None else None
        if g is not None and g.value is not None and ix.find_method(c, k).kind == "property":
            ok = same(t, g.value)
            chk.ob("same-value", name, ok, where, "the distribution gets the value the property reads" if ok else f"params() hands out another value than the property '{k}' reads")
        elif k in lp or any(contains(t, lambda s: s.k == "attr" and s.a[0].k == "self" and s.a[1] == a) for a in lp):
            ok = strip(t).k == "attr" and strip(t).a[1] == k
            if k in lp:
                chk.ob("same-value", name, ok, where, "the distribution gets the stored value" if ok else f"params() hands out another value than the parameter '{k}'")
        if any(contains(t, lambda s: s.k == "attr" and s.a[0].k == "self" and s.a[1] == a) for a in lp):
            r = rng(t)
            if k in POS:
                ok = r[0] > 0 or r[0] == 0 and r[1]
                chk.ob("valid-range", name, ok, where, "positive for every stored value" if ok else "not positive for every value the stored parameter can take")
            elif k in UNIT:
                s = simplex(t)
                ok = r[0] >= 0 and r[2] <= 1 and (f not in ("Categorical", "OneHotCategorical") or s is not None and s[1] == -1)
                chk.ob("valid-range", name, ok, where, "a probability for every stored value" if ok else "not a probability for every value the stored parameter can take")
            elif k == "logits" and f in ("Categorical", "Bernoulli", "Binomial", "Geometric", "NegativeBinomial"):
                ok = True
                chk.ob("valid-range", name, ok, where, "logits may be any real value")
    if f in TORCH_ARGS and lp:
        used = {a for a in lp if any(contains(t, lambda s: s.k == "attr" and s.a[0].k == "self" and s.a[1] == a) for t in ps.values())}
        for a in lp:
            chk.ob("reaches-density", f"{c.name}.{a}", a in used, where, "reaches the distribution" if a in used else "a learnable parameter never reaches the distribution")


def dist_classes(ctx, c):
    out = []
    for m in ("_torch_distribution_class", "_torch_distribution_class_with_differentiable_sampling"):
        r = ctx.run(c, m)
        if r is None or r.value is None:
            out.append(None)
            continue
        out.append([str(v.a[-1]) for v in alts(r.value) if v.k in ("global", "attr", "cls")])
    return out


def dist_args(ctx, c):
    d = dist_classes(ctx, c)[0]
    if not d:
        return None
    nm = torch_family(ctx, d[0])
    if nm in TORCH_ARGS:
        return TORCH_ARGS[nm]
    k = ctx.ix.cls(nm) if has(ctx.ix, nm) else None
    if k is not None:
        fi = ctx.ix.find_method(k, "__init__")
        return set(fi.all_param_names()) if fi else None
    return None


def has(ix, n):
    try:
        return ix.cls(n) is not None
    except Exception:
        return False


def root_dist(ctx, nm):
    """torch family a distribution class name belongs to (in-repo subclasses resolved)"""
    ix = ctx.ix
    last = nm.split(".")[-1]
    if "torch.distributions" in nm:
        return last
    if has(ix, nm) or has(ix, last):
        k = ix.cls(nm) if has(ix, nm) else ix.cls(last)
        m = ix.mro(k)
        for b in m[::-1]:
            for x in b.node.bases:
                s = ast.unparse(x)
                if "distributions." in s:
                    return s.split(".")[-1]
        return m[-1].name
    return last


def built(ctx, chk, c, ps, f, where):
    """every distribution the leaf builds gets params() unchanged; both sampling variants are the same family"""
    d = dist_classes(ctx, c)
    if d[0] and d[1]:
        fams = {root_dist(ctx, x) for x in d[0]} | {root_dist(ctx, x) for x in d[1]}
        chk.ob("same-family", c.name, len(fams) == 1, where, f"both variants are {sorted(fams)}" if len(fams) == 1 else f"the sampling variants are different families {sorted(fams)}")
    for m in ("log_likelihood", "_sample", "distribution", "mode"):
        r = ctx.run(c, m)
        if r is None:
            continue
        for e in r.events:
            if e.kind != "call" or not e.kwargs or not ps:
                continue
            kw = {k: v for k, v in e.kwargs.items() if isinstance(v, T)}
            if not (str(e.name).startswith("_torch_distribution_class") or e.term is not None and e.term.k == "call" and e.term.a[0].k == "cls" and "Dist" in str(e.term.a[0].a[-1])):
                continue
            if "**" in kw:
                src = kw["**"]
                ok = contains(src, lambda s: s.k == "attr" and s.a[1] == "parameter_fn") and src.k != "op"
                chk.ob("same-parameters", f"{c.name}.{m}.conditional", ok, e.where, "conditional parameters go to the distribution unchanged" if ok else "the conditional parameters are changed on the way to the distribution")
                continue
            bad = [k for k, t in ps.items() if k in (dist_args(ctx, c) or ps) and (k not in kw or not same(strip(kw[k]), strip(t)))]
            chk.ob("same-parameters", f"{c.name}.{m}", not bad, e.where, "the distribution is built from params()" if not bad else f"the distribution used in {m} gets another value for {bad}")


def projections(ctx, chk):
    ix = ctx.ix
    fs = [f for q, f in ix.functions.items() if f.cls is None and f.name in ("proj_real_to_bounded", "proj_bounded_to_real")]
    if len(fs) != 2:
        return
    fwd = next(f for f in fs if f.name == "proj_real_to_bounded")
    bwd = next(f for f in fs if f.name == "proj_bounded_to_real")
    rf, rb = ctx.run_func(fwd), ctx.run_func(bwd)
    P = lambda f, n: T("param", f.qual, n)
    x, lb, ub = P(bwd, "x"), P(bwd, "lb"), P(bwd, "ub")
    m = {P(fwd, "lb"): lb, P(fwd, "ub"): ub, P(fwd, "x"): rb.value}
    for nm, none in (("both", ()), ("lower", (ub,)), ("upper", (lb,))):
        t = subst(subst(rf.value, {P(fwd, "lb"): lb, P(fwd, "ub"): ub}), {P(fwd, "x"): rb.value})

        ok = same(decided(t, {lb: lb in none, ub: ub in none}), x)
        chk.ob("projection", f"proj_bounded:{nm}", ok, f"{fwd.module.rel}:{fwd.name}", "mapping to the reals and back is the identity" if ok else "mapping to the reals and back does not return the value")


def truth(c, isnone):
    """truth of a condition given which terms are None"""
    if c.k == "op" and c.a[0] in ("is", "isnot") and len(c.a[1]) == 2:
        for u, w in (c.a[1], c.a[1][::-1]):
            if is_const(w, None) and core(u) in isnone:
                return isnone[core(u)] == (c.a[0] == "is")
    if c.k == "op" and c.a[0] in ("and", "and_", "or", "or_"):
        vs = [truth(z, isnone) for z in c.a[1]]
        if c.a[0].startswith("and"):
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)
    if c.k == "op" and c.a[0] in ("not", "not_"):
        v = truth(c.a[1][0], isnone)
        return None if v is None else not v
    return None


def decided(y, isnone):
    """y with every branch decided by what is None resolved"""
    for _ in range(12):
        mm = {}
        for s in walk(y):
            if s.k == "phi":
                v = truth(s.a[0], isnone)
                if v is not None:
                    mm[s] = s.a[1] if v else s.a[2]
        if not mm:
            break
        y = subst(y, mm)
    return y


def histogram(ctx, chk):
    """in-repo distributions over stored logits normalise them over the last axis wherever they are used"""
    ix = ctx.ix
    if not has(ix, "HistogramDist"):
        return
    k = ix.cls("HistogramDist")
    for m in ("log_prob", "probs", "sample"):
        r = ctx.run(k, m)
        if r is None or r.value is None:
            continue
        lg = [s for s in walk(r.value) if s.k == "attr" and s.a[0].k == "self" and s.a[1] == "_logits"]
        if not lg:
            continue
        used = [y for y in values_norm(r.value)]
        ok = all(used) if used else None
        if ok is None:
            continue
        chk.ob("normalised-density", f"HistogramDist.{m}", ok, f"{k.module.rel}:HistogramDist.{m}", "bin probabilities are normalised over the bins" if ok else "bin values are used without normalising over the bins")


def values_norm(t, seen=None):
    """for every use of stored logits as a value: is it under a (log_)softmax over the last axis?"""
    seen = set() if seen is None else seen
    if t in seen or shape_only(t):
        return
    seen.add(t)
    if t.k == "op" and t.a[0] in ("softmax", "log_softmax"):
        d = dict(t.a[2]).get("dim")
        if contains(t, lambda s: s.k == "attr" and s.a[0].k == "self" and s.a[1] == "_logits"):
            yield d is not None and d.k == "const" and d.a[0] == -1
        return
    if t.k == "attr" and t.a[0].k == "self" and t.a[1] == "_logits":
        yield False
        return
    kids = children(t)
    if t.k == "op" and (t.a[0] in LIKE) and t.a[1]:
        kids = [t.a[1][0]] + ([dict(t.a[2])["index"]] if "index" in dict(t.a[2]) else [])
    elif t.k == "op" and (t.a[0].endswith("_like") or t.a[0].startswith("new_") or t.a[0] in ("to", "empty", "zeros", "ones")):
        kids = t.a[1][:1] if t.a[0] == "to" else []
    elif t.k == "attr" and t.a[1] in ("dtype", "device", "shape", "ndim"):
        kids = []
    for x in kids:
        yield from values_norm(x, seen)


def cltree(ctx, chk):
    """the stored table is normalised over the child axis [features, channels, repetitions, child, parent] wherever it is read as probabilities"""
    c = next((x for x in ctx.leaves() if x.name == "CLTree"), None)
    if c is None:
        return
    r = ctx.run(c, "__init__")
    attr = [a for a in learnable(ctx, c)]
    for m in ("log_likelihood", "_sample"):
        r = ctx.run(c, m)
        for a in attr:
            uses, bad = 0, []

            def norm(t, seen):
                nonlocal uses
                if t in seen or shape_only(t):
                    return
                seen.add(t)
                if t.k == "op" and t.a[0] in ("softmax", "log_softmax") and contains(t, lambda s: s.k == "attr" and s.a[0].k == "self" and s.a[1] == a):
                    d = dict(t.a[2]).get("dim")
                    uses += 1
                    if not (d is not None and d.k == "const" and d.a[0] in (-2, 3)):
                        bad.append(f"normalised over axis {d.a[0] if d is not None and d.k == 'const' else '?'}")
                    return
                if t.k == "attr" and t.a[1] in ("dtype", "device", "shape", "ndim", "grad", "requires_grad"):
                    return
                if t.k == "attr" and t.a[0].k == "self" and t.a[1] == a:
                    uses += 1
                    bad.append("read without normalisation")
                    return
                for x in children(t):
                    norm(x, seen)
            seen = set()
            for e in r.events:
                if e.kind in ("store_item", "store_attr", "return") and e.term is not None:
                    norm(e.term, seen)
            if r.value is not None:
                norm(r.value, seen)
            if uses:
                chk.ob("normalised-density", f"CLTree.{m}:{a}", not bad, f"{c.module.rel}:CLTree.{m}", "the conditional table is normalised over the child value where it is read" if not bad else f"the stored table is {bad[0]}: a gradient step leaves it unnormalised")
