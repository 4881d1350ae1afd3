"""Maximum-likelihood estimation: estimator formulas, row/weight pairing, open-domain guards, written parameters."""
from ..lib import *
from ..alg import *
from .p30 import fname

ID = "P31"
TITLE = "Fitting a leaf sets each parameter to its weighted estimate in the valid range"
EXPL = ("The value each leaf stores in its parameters during maximum_likelihood_estimation is read back through params() and brought to an algebraic normal form (rational functions over "
        "row sums of weights and data, linear row sum), which must equal the family's closed-form weighted estimator for every weights/missing-rows/bias-correction case; "
        "rows and weights must be selected by the same mask, estimates on an open parameter domain must be guarded at every finite end, and every learnable parameter must be written.")
ASSUME = ("torch.sort/gather/cumsum semantics for the weighted median", "the textbook estimator formulas in the rule table")

MLE = "maximum_likelihood_estimation"


def vdep(t, pred):
    """t's value depends on something satisfying pred (shape, dtype and `*_like` uses do not count)"""
    return any(pred(x) for x in walk(t, into=lambda y: not shape_only(y) and not (y.k == "op" and (y.a[0].endswith("_like") or y.a[0].startswith("new_")))) if not shape_only(x))


isd = lambda s: s.k == "param" and s.a[-1] == "data"
isw = lambda s: s.k == "param" and s.a[-1] == "weights"


def fam(ctx, c):
    r = ctx.run(c, "_torch_distribution_class")
    if r is None or r.value is None:
        return None
    for v in alts(r.value):
        if v.k in ("global", "attr", "cls", "const"):
            return torch_family(ctx, v.a[-1])
    return None


def params_of(ctx, c):
    """{distribution argument: term} as handed to the distribution"""
    r = ctx.run(c, "params")
    v = r.value if r else None
    if v is None or v.k != "dict":
        return {}
    return {k.a[0]: x for k, x in v.a[0] if isinstance(k, T) and k.k == "const"} if v.a and isinstance(v.a[0], tuple) and v.a[0] and isinstance(v.a[0][0], tuple) and isinstance(v.a[0][0][0], T) \
        else {k: x for k, x in (v.a[0] if v.a else ())}


def writes(run):
    """{attribute term: [(guards, value, event)]} of parameter values written in a run"""
    out = {}
    for e in run.events:
        if e.kind == "store_attr" and e.target is not None:
            t = e.target
            if e.idx == "data":
                out.setdefault(t, []).append((e.guards, e.term, e))
            elif t.k == "self" and not e.callee:
                out.setdefault(T("attr", t, e.idx), []).append((e.guards, e.term, e))
        if e.kind == "call" and e.name == "copy_" and e.recv is not None:
            t = e.recv
            while t.k == "attr" and t.a[1] == "data" or t.k == "op" and t.a[0] == "detach" and t.a[1]:
                t = t.a[0] if t.k == "attr" else t.a[1][0]
            if e.args:
                out.setdefault(t, []).append((e.guards, e.args[-1], e))
    return out


def mk(run):
    self_q = lambda t: t.k == "item" and t.a[0].k == "param" and t.a[0].a[-1] == "data" and contains(t.a[1], lambda s: s.k == "attr" and s.a[1] == "query")
    return Alg(self_q, lambda t: t.k == "param" and t.a[-1] == "weights")


def ref(al, fam, par, ch, x, w, rows):
    """reference estimator in normalised weights v = w*N/sum(w)"""
    N = al.atom(("N",))
    one = rconst(1)
    S = lambda r: al.sum_rows(r, rows)
    v = div(mul(w, N), S(w))
    W = N
    bias = any(c.k == "param" and c.a[-1] == "bias_correction" and p for c, p in ch.items())
    b = one if bias else rconst(0)
    f = lambda n, r: al.fn(n, r)
    mean = lambda r: div(S(mul(v, r)), W)
    attr = lambda n: al.atom(("o", n))
    if fam in ("Normal", "LogNormal"):
        y = f("log", x) if fam == "LogNormal" else x
        loc = mean(y)
        if par == "loc":
            return loc
        if par == "scale":
            c = add(y, loc, -1)
            return f("sqrt", div(S(mul(v, mul(c, c))), add(W, b, -1)))
    if fam == "Bernoulli" and par == "probs":
        return mean(x)
    if fam == "Poisson" and par == "rate":
        return mean(x)
    if fam == "Exponential" and par == "rate":
        return div(add(W, b, -1), S(mul(v, x)))
    if fam == "Geometric" and par == "probs":
        p = div(W, add(S(mul(v, x)), W))
        return add(p, div(mul(p, add(one, p, -1)), W), -1) if bias else p
    if fam == "Gamma":
        lx = f("log", x)
        th = add(mean(mul(x, lx)), mul(mean(x), mean(lx)), -1)
        k = div(mean(x), th)
        r = div(one, th)
        if par == "concentration":
            if not bias:
                return k
            t1 = mul(rconst(3), k)
            t2 = mul(rconst(Fraction(2 / 3).limit_denominator(10 ** 9)), div(k, add(one, k)))
            k1 = add(one, k)
            t3 = mul(rconst(Fraction(4 / 5).limit_denominator(10 ** 9)), div(k, mul(k1, k1)))
            return add(k, mul(div(one, W), add(add(t1, t2, -1), t3, -1)), -1)
        if par == "rate":
            return div(mul(r, add(W, one, -1)), W) if bias else r
    return None


def counted(al, fam, par, ch, x, w, rows, tc):
    """families with a trial count attribute"""
    N = al.atom(("N",))
    S = lambda r: al.sum_rows(r, rows)
    v = div(mul(w, N), S(w))
    n = al.atom(("o", tc))
    bias = any(c.k == "param" and c.a[-1] == "bias_correction" and p for c, p in ch.items())
    if fam == "Binomial":
        return div(S(mul(v, x)), mul(N, n))
    tot = add(mul(N, n), rconst(1 if bias else 0), -1)
    return div(S(mul(v, x)), add(S(mul(v, x)), tot))


DOMAIN = {"scale": (0, None), "rate": (0, None), "concentration": (0, None), "probs": (0, 1), "loc": (None, None)}
WANT = {"Normal": ("loc", "scale"), "LogNormal": ("loc", "scale"), "Laplace": ("loc", "scale"), "Bernoulli": ("probs",), "Binomial": ("probs",), "NegativeBinomial": ("probs",),
        "Geometric": ("probs",), "Poisson": ("rate",), "Exponential": ("rate",), "Gamma": ("concentration", "rate")}


def unproject(t):
    """the estimate under the final map to the stored parameter and back"""
    t = strip_unit(t)
    while t.k == "op" and t.a[0] in ("exp", "sigmoid") and t.a[1]:
        t = strip_unit(t.a[1][0])
    if t.k == "op" and t.a[0] == "sub" and len(t.a[1]) == 2:      # log(p) - log(1 - p)
        l = strip_unit(t.a[1][0])
        t = l if l.k == "op" and l.a[0] == "log" else t
    if t.k == "op" and t.a[0] == "logit" and t.a[1]:
        t = strip_unit(t.a[1][0])
    elif t.k == "op" and t.a[0] == "log" and t.a[1]:
        t = strip_unit(t.a[1][0])
        if t.k == "op" and t.a[0] == "div":
            t = strip_unit(t.a[1][0])
    return t


def sides(mask, v, pol=True):
    """which ends of v the mask covers: set of ('lo'|'hi'|'nan', bound, inclusive)"""
    out = set()
    if mask.k != "op":
        return out
    n, a = mask.a[0], mask.a[1]
    if n in ("or_", "and_"):
        for x in a:
            out |= sides(x, v)
    elif n == "isnan":
        out.add(("nan", None, True))
    elif n in ("le", "lt", "ge", "gt") and len(a) == 2:
        b = None
        vs = strip_guards(v)
        l, r = strip_guards(core(a[0])), strip_guards(core(a[1]))
        if l is vs:
            b, k = a[1], n
        elif r is vs:
            b, k = a[0], {"le": "ge", "lt": "gt", "ge": "le", "gt": "lt"}[n]
        if b is not None:
            out.add(("lo" if k in ("le", "lt") else "hi", bound(b), k in ("le", "ge")))
    elif n == "isclose" and a:
        out.add(("lo", bound(a[1]) if len(a) > 1 else None, True))
    return out


def bound(t):
    for x in alts(t):
        v = num(x)
        if v is not None:
            return v
        x = core(x)
        if x.k == "op" and x.a[0] in ("as_tensor", "tensor", "to", "new_tensor", "full_like", "full") and x.a[1]:
            for y in list(x.a[1]) + [z for _, z in x.a[2]]:
                v = num(y)
                if v is not None:
                    return v
    return None


def guards_on(t, lo, hi, memo=None):
    """ends of the open domain every alternative of t is moved away from: subset of {'lo','hi'}"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    g = lambda x: guards_on(x, lo, hi, memo)
    r = set()

    def clamp(side, b):
        return {side} if b is not None and (b > lo if side == "lo" else hi is not None and b < hi) else set()

    def covers(ss, rep):
        return {s[0] for s in ss if s[0] in ("lo", "hi") and s[1] == (lo if s[0] == "lo" else hi) and s[2] is True and moves_in(rep, s[0])}
    if t.k == "phi":
        a, b = g(t.a[1]), g(t.a[2])
        c = t.a[0]
        # `if mask.any(): x[mask] = ...`: the other branch has nothing to move
        if c.k == "op" and c.a[0] == "any" and c.a[1] and any(s.k == "store" and s.a[1] is core(c.a[1][0]) for s in alts(t.a[1])):
            r = a
        elif c.k == "call" and fname(c) == "any" and contains(c, lambda s: any(z.k == "store" and z.a[1] is s for z in alts(t.a[1]))):
            r = a
        else:
            r = a & b
    elif t.k == "op" and t.a[0] in IDENT and t.a[1]:
        r = g(t.a[1][0])
    elif t.k == "op" and t.a[0] in ("clamp", "clip") and t.a[1]:
        kw = dict(t.a[2])
        r = g(t.a[1][0]) | clamp("lo", num(kw["min"]) if kw.get("min") is not None else None) | clamp("hi", num(kw["max"]) if kw.get("max") is not None else None)
    elif t.k == "op" and t.a[0] in ("maximum", "minimum") and len(t.a[1]) == 2:
        for i in (0, 1):
            if num(t.a[1][i]) is not None:
                r = g(t.a[1][1 - i]) | clamp("lo" if t.a[0] == "maximum" else "hi", num(t.a[1][i]))
    elif t.k == "op" and t.a[0] == "masked_fill" and len(t.a[1]) == 3:
        r = g(t.a[1][0]) | covers(sides(t.a[1][1], t.a[1][0]), t.a[1][2])
    elif t.k == "op" and t.a[0] == "where" and len(t.a[1]) == 3:
        y = guard_where(t)
        if y is not None:
            x = t.a[1][1] if t.a[1][2] is y else t.a[1][2]
            r = g(y) | covers(sides(t.a[1][0], y), x)
    elif t.k == "store" and guard_store(t) is not None:
        r = g(t.a[0]) | covers(sides(t.a[1], t.a[0]), t.a[2])
    memo[t] = r
    return r


def moves_in(rep, side):
    """replacement value = bound moved inside the domain: 'add' for the lower end, 'sub' for the upper"""
    if rep is None:
        return True
    for x in alts(rep):
        x = core(x)
        if x.k == "op" and x.a[0] == ("add" if side == "lo" else "sub") and len(x.a[1]) == 2:
            continue
        v = bound(x)
        if v is not None and ((side == "lo" and v > 0) or (side == "hi" and v < 1)):
            continue
        return False
    return True


def check(ctx, chk):
    done = set()
    for c in ctx.leaves():
        r = ctx.run(c, MLE)
        f = fam(ctx, c)
        if r is None:
            continue
        ps = params_of(ctx, c)
        ws = writes(r)
        where = f"{c.module.rel}:{c.name}"
        if f in WANT:
            done.add(f)
            family(ctx, chk, c, f, ps, ws, where)
        elif f == "Categorical":
            done.add(f)
            categorical(ctx, chk, c, ws, where)
        reach(chk, c, ctx, r, ws, where)
    tables(ctx, chk)
    try:
        histogram(ctx, chk)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as e:
        chk.note(f"histogram: source shape not analysed ({type(e).__name__}: {e})")
    chk.floor("estimator", 8)


def family(ctx, chk, c, f, ps, ws, where):
    for par in WANT[f]:
        name = f"{c.name}.{par}"
        src = ps.get(par)
        logit = False
        if src is None and par == "probs":
            src, logit = ps.get("logits"), True
        if src is None:
            chk.ob("handed-over", name, False, where, f"params() does not hand '{par}' to the distribution")
            continue
        attrs = [a for a in ws if contains(src, lambda s: s is a)]
        chk.ob("written", name, bool(attrs), where, "the fit stores a new value in this parameter" if attrs else "the fit never stores a value in the parameter the distribution reads")
        for a in attrs:
            for g, v, e in ws[a]:
                st = subst(src, {a: v})
                formula(ctx, chk, c, f, par, st, logit, name, e.where if hasattr(e, "where") else where, [x for k, vs in ws.items() for _, x, _ in vs if ps.get("loc") is k])
                domain(chk, name, par, st, where)


def logit_arg(al, r):
    """r == log(q) -> q"""
    for i, (q, _) in enumerate(al.args.get("log", [])):
        if eq(r, al.atom(("f", "log", i))):
            return q
    return None


def formula(ctx, chk, c, f, par, st, logit, name, where, locs=()):
    if f == "Laplace" and par == "loc":
        return laplace(ctx, chk, c, par, st, name, where)
    bad, n = None, 0

    def one(ch):
        al = mk(None)
        return al, al.ev(st, ch)
    starts = [{}]
    fi = ctx.ix.find_method(c, MLE)
    if fi is not None:
        b = T("param", fi.qual, "bias_correction")
        starts = [{b: True}, {b: False}]
    for ch, (al, v) in [x for s0 in starts for x in cases(one, start=s0)]:
        n += 1
        if logit:
            v = logit_arg(al, v) or v
        rs = al.rows(v)
        if len(rs) > 1:
            chk.ob("same-rows", name, False, where, "data and weights are selected by different row masks")
            continue
        rows = next(iter(rs)) if rs else ()
        x = al.atom(("x", rows))
        w = rconst(1) if any(k.k == "op" and k.a[0] in ("is", "is_") and contains(k, lambda s: s.k == "param" and s.a[-1] == "weights") and p for k, p in ch.items()) else al.atom(("w", rows))
        if f in ("Binomial", "NegativeBinomial"):
            tc = [o for o in al.opaque if o.k == "attr" and o.a[0].k == "self"]
            want = counted(al, f, par, ch, x, w, rows, tc[0]) if tc else None
        elif f == "Laplace":
            loc = al.ev(locs[0], ch) if locs else None
            v0 = div(mul(w, al.atom(("N",))), al.sum_rows(w, rows))
            want = div(al.sum_rows(mul(v0, al.fn("abs", add(x, loc, -1))), rows), al.atom(("N",))) if loc is not None else None
        else:
            want = ref(al, f, par, ch, x, w, rows)
        if logit and want is not None:
            want = div(want, add(rconst(1), want, -1))
        if not eq(v, want):
            bad = bad or ("with " + ", ".join(f"{show(k, 3)}={p}" for k, p in ch.items()) if ch else "always")
    chk.ob("estimator", name, bad is None, where, f"{n} case(s) equal the weighted closed form" if bad is None else f"stored value is not the weighted closed-form estimate ({bad})")


def reach(chk, c, ctx, r, ws, where):
    """every learnable parameter is overwritten from both the rows and the weights, unless the leaf refuses or has none"""
    ini = ctx.run(c, "__init__")
    pars = [e for e in ini.events if e.kind == "store_attr" and e.target is not None and e.target.k == "self" and e.term is not None
            and any(x.k in ("call", "op") and fname(x) == "Parameter" for x in alts(e.term))]
    if not pars or not r.returns:
        return
    for e in pars:
        a = T("attr", e.target, e.idx)
        vs = ws.get(a, [])
        ok = bool(vs) and all(vdep(v, isd) and vdep(v, isw) for _, v, _ in vs)
        chk.ob("uses-rows-and-weights", f"{c.name}.{e.idx}", ok, where, "stored value depends on the rows and on the weights" if ok else
               ("never stored" if not vs else "the stored value ignores the rows or the weights"))


def loopvar(i):
    return [x for x in (i.a[0] if i.k in ("tuple", "list") and i.a and isinstance(i.a[0], tuple) else i.a if i.k in ("tuple", "list") else (i,)) if isinstance(x, T) and x.k in ("elem", "each")]


def categorical(ctx, chk, c, ws, where):
    """probability of category k = weighted share of rows equal to k, stored at index k"""
    for a, vs in ws.items():
        for g, v, e in vs:
            st = [s for s in walk(v) if s.k == "store" and loopvar(s.a[1])]
            for s in st:
                bad, n = None, 0

                def one(ch):
                    al = mk(None)
                    return al, al.ev(s.a[2], ch)
                for ch, (al, val) in cases(one):
                    n += 1
                    ind = [o for o in al.opaque if o.k == "op" and o.a[0] == "eq" and any(x in loopvar(s.a[1]) for x in map(core, o.a[1])) and contains(o, lambda y: y.k == "param" and y.a[-1] == "data")]
                    if len(ind) != 1:
                        bad = bad or "no comparison of the rows with the category being filled"
                        continue
                    rs = al.rows(val)
                    rows = next(iter(rs)) if rs else ()
                    none = any(k.k == "op" and k.a[0] in ("is", "is_") and contains(k, lambda y: y.k == "param" and y.a[-1] == "weights") and p for k, p in ch.items())
                    w = rconst(1) if none else al.atom(("w", rows))
                    want = div(al.sum_rows(mul(w, al.atom(("o", ind[0]))), rows), al.sum_rows(w, rows))
                    if not eq(val, want):
                        bad = bad or "stored share is not sum(w*[row==k])/sum(w)"
                chk.ob("estimator", f"{c.name}.probs", bad is None, where, bad or f"{n} case(s)")
            dens = [x for x in walk(v) if x.k == "op" and x.a[0] == "div" and x.a[1][1].k == "op" and x.a[1][1].a[0] == "sum" and x.a[1][1].a[1] and x.a[1][1].a[1][0] is x.a[1][0]
                    and is_const(kwd(x.a[1][1]).get("dim", NONE), -1)]
            sm = [x for x in walk(v) if x.k == "op" and x.a[0] in ("softmax", "log_softmax") and contains(x, lambda y: y.k == "param" and y.a[-1] == "data")]
            chk.ob("normalised", f"{c.name}.probs", bool(dens or sm), where, "category shares are renormalised over the categories" if dens or sm else "category shares are not normalised over the category axis")


def histogram(ctx, chk):
    """bin probabilities: the share of the weights of the rows falling into each bin"""
    c = next((x for x in ctx.leaves() if x.name == "Histogram"), None)
    r = ctx.run(c, MLE) if c is not None else None
    if r is None:
        return
    where = f"{c.module.rel}:{c.name}"
    for a, vs in writes(r).items():
        for g, v, e in vs:
            t, shares = v, False
            while True:
                t = strip_unit(t)
                if t.k != "op":
                    break
                n = t.a[0]
                if n in ("clamp", "log", "as_tensor", "to", "clamp_min", "rearrange", "reshape", "view", "softmax", "log_softmax", "permute", "transpose", "contiguous", "clone", "unsqueeze", "squeeze"):
                    t = t.a[1][0]
                    continue
                if n == "div" and len(t.a[1]) == 2:
                    x, y = t.a[1]
                    ys = [s for s in walk(y) if s.k == "op" and s.a[0] == "sum" and s.a[1] and (s.a[1][0] is x or s.a[1][0] == x)]
                    if ys:
                        d = kwd(ys[0]).get("dim", ys[0].a[1][1] if len(ys[0].a[1]) > 1 else NONE)
                        shares = shares or is_const(d, -1)
                    t = x
                    continue
                break
            hot = [s for s in walk(t) if s.k == "op" and s.a[0] == "one_hot"]
            if not hot or any(s.k == "phi" for s in (t,)):
                continue
            name = f"{c.name}.probs"
            if t.k == "op" and t.a[0] == "sum" and t.a[1][0].k == "op" and t.a[1][0].a[0] in ("matmul", "einsum", "mm"):
                chk.ob("bin-share", name, False, where, "the stored value is a total over the bins, not one share per bin")
                continue
            if t.k == "op" and t.a[0] in ("matmul", "einsum", "mm"):
                chk.ob("bin-share", name, shares, where, "" if shares else "bin shares are not normalised over the bins")
                bi = [s for s in walk(hot[0].a[1][0]) if s.k == "op" and s.a[0] == "bucketize"]
                if bi:
                    rt = kwd(bi[0]).get("right", NONE)
                    off = [s for s in walk(hot[0].a[1][0]) if s.k == "op" and s.a[0] == "sub" and num(s.a[1][1]) == 1 and any(z is bi[0] for z in walk(s.a[1][0]))]
                    add = [s for s in walk(hot[0].a[1][0], into=lambda y: y is not bi[0]) if s.k == "op" and s.a[0] in ("add", "sub")]
                    ok = is_const(rt, True) and len(off) == 1 and len(add) == 1 and contains(bi[0], isd)
                    chk.ob("bin-share", f"{name}:bin", ok, where, "" if ok else "rows are not counted in the bin whose half-open range holds them")
                pat = list({p for s in walk(v) if s.k == "op" and s.a[0] == "rearrange" and kwd(s).get("pattern", NONE).k == "const" for p in (str(kwd(s)["pattern"].a[0]),) if "(" in p.split("->")[0]})
                inner = [kwd(s)["pattern"].a[0] for s in walk(t) if s.k == "op" and s.a[0] == "rearrange" and "pattern" in kwd(s) and "(" in str(kwd(s)["pattern"].a[0]) and contains(s, isw)]
                grp = lambda x: [z.split(")")[0] for z in x.split("(")[1:]]
                if len(pat) == 1 and len(set(inner)) == 1:
                    l, rr = pat[0].split("->")[0], inner[0].split("->")[1]
                    if grp(l) and grp(rr):
                        ok = grp(l) == grp(rr)
                        chk.ob("bin-share", f"{name}:axes", ok, where, "" if ok else "channels and repetitions are unpacked in another order than the weights were packed")


def normaliser(r, idx):
    """axes over which the table filled at idx is divided by its own sum"""
    norm = set()
    for e2 in r.events:
        if e2.kind == "store_item" and e2.term is not None:
            for s in walk(e2.term):
                if s.k == "op" and s.a[0] == "div" and s.a[1][1].k != "const" and any(z.k == "store" and z.a[1] is idx for z in alts(s.a[1][0])):
                    for y in walk(s.a[1][1]):
                        if y.k == "op" and y.a[0] == "sum" and y.a[1] and y.a[1][0] is s.a[1][0]:
                            d = kwd(y).get("dim")
                            if d is not None and d.k == "const":
                                norm.add(d.a[0])
    return norm


def tables(ctx, chk):
    """conditional probability tables: joint counts indexed [.., child, parent], normalised over the child axis"""
    c = next((x for x in ctx.leaves() if x.name == "CLTree"), None)
    if c is None:
        return
    r = ctx.run(c, MLE)
    where = f"{c.module.rel}:{c.name}"
    for e in r.events:
        if e.kind != "store_item" or e.idx is None or e.term is None:
            continue
        idx = list(e.idx.a[0] if e.idx.k == "tuple" and isinstance(e.idx.a[0], tuple) else e.idx.a) if e.idx.k == "tuple" else [e.idx]
        eqs = []
        for s in walk(e.term, into=lambda y: y.k not in ("store", "phi")):
            if s.k == "op" and s.a[0] == "eq" and len(s.a[1]) == 2:
                for u, w in (s.a[1], s.a[1][::-1]):
                    if core(w).k in ("elem", "each") and core(u).k == "item":
                        eqs.append((core(u), core(w)))
        if len(eqs) < 1 or not any(i is w for i in idx for _, w in eqs):
            continue
        name = f"CLTree.counts[{len(idx)}]"
        val = e.term
        if val.k == "op" and val.a[0] == "add" and len(val.a[1]) == 2:
            tbl = [i for i in (0, 1) if val.a[1][i].k == "item" and val.a[1][i].a[1] is e.idx]
            if tbl:
                val = val.a[1][1 - tbl[0]]
        al = mk(None)
        try:
            v = al.ev(val, {})
        except Need:
            v = None
        ok = False
        if v is not None and len(v.n) == 1:
            (m, k), = v.n.items()
            monos = [a[1] for a, p in m if a[0] == "S" and p == 1]
            for a, p in m:
                if a[0] == "f" and a[1] == "sum:all" and p == 1:
                    for mm in al.args[a[1]][a[2]][0].n:
                        monos += [x[1] for x, q in mm if x[0] == "S" and q == 1]
            for mono in monos:
                terms = {x[1] if x[0] == "o" else x: p for x, p in mono}
                es = [x for x in terms if isinstance(x, T) and x.k == "op" and x.a[0] == "eq"]
                rest = [x for x in terms if x not in es]
                ok = ok or (len(es) == len(eqs) and len(rest) == 1 and all(p == 1 for p in terms.values()) and (rest[0] == ("w", ()) or isinstance(rest[0], T) and vdep(rest[0], isw)))
        chk.ob("weighted-count", name, ok, where, "each cell adds the weights of the matching rows" if ok else "a cell does not add exactly the weights of the rows with these values")
        lv = [i for i in idx if i.k in ("elem", "each")]
        free = [i for i in lv if not any(i is w or contains(u, lambda y: y is i) for u, w in eqs)]
        ok = all(any(i is w for i in idx) for _, w in eqs) and not free
        chk.ob("count-index", name, ok, where, "each compared value has its own index in the table" if ok else "a value the table is indexed by is not compared with the rows")
        if len(eqs) == 1:
            w1 = eqs[0][1]
            pos = next((j for j, i in enumerate(idx) if i is w1), None)
            norm = normaliser(r, e.idx)
            ok = pos is not None and norm <= {pos, pos - len(idx)}
            chk.ob("child-axis", name, ok, where, "normalised over the value axis" if ok else f"value indexes axis {pos} of {len(idx)} but the table is normalised over {sorted(map(str, norm))}")
        if len(eqs) == 2:
            # child column compared with the index on the normalised axis
            pos = {w: next(j for j, i in enumerate(idx) if i is w) for _, w in eqs if any(i is w for i in idx)}
            cols = {w: u for u, w in eqs}
            par = [w for w, u in cols.items() if contains(u.a[1], lambda y: y.k == "attr" and y.a[1] == "parents" or y.k == "item" and contains(y.a[0], lambda z: z.k == "attr" and z.a[1] == "parents"))]
            ch = [w for w in cols if w not in par]

            if len(par) == 1 and len(ch) == 1 and par[0] in pos and ch[0] in pos:
                norm = normaliser(r, e.idx)
                ok = norm == {pos[ch[0]]} or norm == {pos[ch[0]] - len(idx)}
                chk.ob("child-axis", name, ok and pos[ch[0]] == len(idx) - 2, where, "joint counts are [.., child value, parent value] and normalised over the child value" if ok else
                       f"table stored with child on axis {pos[ch[0]]} of {len(idx)} but normalised over {sorted(map(str, norm))}")


def laplace(ctx, chk, c, par, st, name, where):
    if par == "loc":
        ok = vdep(st, isd) and vdep(st, isw)
        for s in walk(st):
            if s.k in ("op", "call") and fname(s) == "cumsum":
                src = s.a[1][0] if s.k == "op" else s.a[0].a[0]
                ok = ok and any(isw(x) for x in values(src))
        chk.ob("estimator", name, ok, where, "location is picked by cumulated weights" if ok else "location ignores the sample weights")


def domain(chk, name, par, st, where):
    lo, hi = DOMAIN[par]
    if lo is None and hi is None:
        return
    # the estimate under the projection: argument of the (single) logarithm applied last
    v = unproject(st)
    gs = guards_on(v, lo, hi)
    for side, b in (("lo", lo), ("hi", hi)):
        if b is None:
            continue
        ok = side in gs
        chk.ob("open-domain", f"{name}:{side}", ok, where, f"estimates at the {'lower' if side == 'lo' else 'upper'} end {b} are moved inside" if ok
               else f"an estimate of exactly {b} (or beyond) is stored, which the projection maps to an infinite parameter")


