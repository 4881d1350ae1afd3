"""Image-shaped layers: the positions a window multiplies, the positions its routing is handed to and the positions its scope lists."""
from ..lib import *
from ..layout import ival
from ..grid import Grid, Ax, Flat, ROW, COL, Tiled

OTHER = lambda n: Ax("other", n)


def pair(t):
    if t is None:
        return None
    if t.k in ("tuple", "list") and len(t.a[0]) == 2:
        return tuple(t.a[0])
    return (t, t)


def convs(v):
    return [x for x in walk(v) if x.k == "call" and "conv2d" in str(x.a[0])]


def callargs(x):
    k = dict(x.a[2])
    pos = list(x.a[1])
    for i, n in enumerate(("input", "weight", "bias", "stride", "padding", "dilation", "groups")):
        if n not in k and i < len(pos):
            k[n] = pos[i]
    return k


def likelihood(ctx, chk, c):
    """(stride, padding) of the window product, after checking that it runs over rows and columns in the grid's own order"""
    r = ctx.run(c, "log_likelihood")
    fi = ctx.ix.find_method(c, "log_likelihood")
    got = None
    for g, v in r.returns:
        for x in convs(v):
            k = callargs(x)
            st, pd = pair(k.get("stride")), pair(k.get("padding", const(0)))
            if st is None or pd is None:
                continue
            got = (st, pd)

            def env(t):
                if t.k == "call" and t is not x and t.a[0] is not None and "log_likelihood" in str(t.a[0]):
                    return [OTHER("b"), Flat(ROW, COL), OTHER("c"), OTHER("r")]
                if t is x:
                    return [OTHER("n"), OTHER("c"), ROW, COL]
                return None
            con = f"{c.name}.log_likelihood"
            G = Grid(env)
            try:
                ds = G.of(k["input"])
                if ds is not None and len(ds) == 4:
                    chk.ob("grid-window", f"{con}:rows-and-columns", (ds[2], ds[3]) == (ROW, COL), fi, "the window must run over the rows and columns of the inputs' features")
                else:
                    chk.note(f"{con}: image layout of the window's input not understood")
                out = G.of(v)
                if out is not None and len(out) == 4 and isinstance(out[1], Flat):
                    chk.ob("grid-window", f"{con}:result", (out[1].r, out[1].c) == (ROW, COL), fi, "the products must be listed row by row")
                else:
                    chk.note(f"{con}: image layout of the result not understood")
            except Tiled as e:
                chk.ob("grid-window", f"{con}:order", False, fi, str(e))
    return got


def sampling(ctx, chk, c, st, pd):
    fi = ctx.ix.find_method(c, "_sample")
    r = ctx.run(c, "_sample")
    con = f"{c.name}._sample"
    pads = tuple(not is_const(core(p), 0) for p in pd)
    ev = [e for e in r.events if e.kind == "call" and e.name == "update" and e.recv is not None and e.recv.k == "param"]
    kids = [e for e in r.events if e.kind == "call" and e.name == "_sample"]
    if not ev or not kids:
        chk.note(f"{con}: no routing update found")
        return
    want = (tuple(sorted([show(core(st[0]))])), tuple(sorted([show(core(st[1]))])))
    for nm in ("channel_index", "mask"):
        base = [OTHER("b"), Flat(ROW, COL)]
        state, cropped, seen = base, None, False
        for e in sorted(ev, key=lambda e: e.seq):
            v = e.kwargs.get(nm)
            if v is None:
                continue
            cur = []
            for g, a in galts(v, tuple(e.guards)):
                if not live(g):
                    continue
                dg = next((p for q, p in g if q.k == "attr" and q.a[1] == "is_differentiable"), None)
                ranks = [2] if nm == "mask" else [3] if dg is True else [2] if dg is False else [2, 3]
                for rk in ranks:
                    env = lambda t, rk=rk: (state + [OTHER("c")] * (rk - 2)) if t.k == "attr" and t.a[1] in (nm, "_" + nm) else None
                    try:
                        ds = Grid(env, lambda q, rk=rk: rk == 3 if q.k == "attr" and q.a[1] == "is_differentiable" and nm != "mask" else None).of(a)
                    except Tiled as x:
                        chk.ob("grid-routing", f"{con}:{nm}", False, e.where, f"{x}")
                        return
                    if ds is None:
                        continue
                    if len(ds) >= 2 and isinstance(ds[1], Flat):
                        cur.append(ds[:2])
            if not cur:
                chk.note(f"{con}: layout of {nm} not understood at {e.where}")
                return
            if any(x != cur[0] for x in cur[1:]):
                chk.ob("grid-routing", f"{con}:{nm}", False, e.where, "the index and the differentiable routing must be spread alike")
                return
            state, seen = cur[0], True
            f = state[1]
            if f.r.axis != "h" or f.c.axis != "w":
                chk.ob("grid-routing", f"{con}:{nm}", False, e.where, "rows and columns are exchanged")
                return
            sc = (tuple(sorted(show(core(x)) for x in f.r.scale)), tuple(sorted(show(core(x)) for x in f.c.scale)))
            chk.ob("grid-routing", f"{con}:{nm}", sc == want, e.where, f"every output position's routing must reach exactly its window of {want[0][0]} x {want[1][0]} inputs, reaches {sc}")
            if f.r.off or f.c.off or f.r.cut is not None or f.c.cut is not None:
                off = (tuple(show(core(x)) for x in f.r.off), tuple(show(core(x)) for x in f.c.off))
                need = tuple((show(core(p)),) if not is_const(core(p), 0) else () for p in pd)
                cropped = off == need
                chk.ob("grid-crop", f"{con}:{nm}", cropped, e.where, f"routing of padded positions must be cut off at the padding ({need}), is cut at {off}")
        if seen and any(pads) and cropped is None:
            chk.ob("grid-crop", f"{con}:{nm}", False, fi, "the routing of positions that only exist as padding is not cut off before it reaches the inputs")


def poly(t, d=0):
    """integer polynomial: {sorted atoms: coefficient}"""
    t = core(t)
    v = ival(t)
    if v is not None:
        return {(): v} if v else {}
    if t.k == "op" and t.a[0] in ("add", "sub", "mul") and len(t.a[1]) == 2 and d < 12:
        x, y = poly(t.a[1][0], d + 1), poly(t.a[1][1], d + 1)
        o = {}
        if t.a[0] == "mul":
            for m, c in x.items():
                for n, e in y.items():
                    k = tuple(sorted(m + n))
                    o[k] = o.get(k, 0) + c * e
        else:
            o = dict(x)
            for m, c in y.items():
                o[m] = o.get(m, 0) + (c if t.a[0] == "add" else -c)
        return {k: c for k, c in o.items() if c}
    return {(show(t, 8),): 1}


def minus(x, y):
    o = dict(x)
    for m, c in y.items():
        o[m] = o.get(m, 0) - c
    return {k: c for k, c in o.items() if c}


def bound(t, fn):
    """max(0, x) / min(n, x) -> the candidates for x"""
    if opname(t) == fn or t.k == "call" and isinstance(t.a[0], T) and str(t.a[0].a[-1]).split(".")[-1] == fn:
        return [x for x in t.a[1]]
    return [t]


def scopes(ctx, chk, c, st, pd):
    """feature_to_scope joins, for output (oh, ow), exactly the inputs of its window"""
    r = ctx.run(c, "feature_to_scope")
    con = f"{c.name}.feature_to_scope"
    seen = False
    for e in r.events:
        if e.kind != "call" or e.name != "append" or not e.args:
            continue
        x = e.args[0]
        if x.k != "item" or x.a[1].k != "tuple" or len(x.a[1].a[0]) != 2:
            continue
        if not any(y.k == "attr" and y.a[1] == "feature_to_scope" for y in walk(x.a[0])):
            continue
        base = core(x.a[0])
        for i, nm in ((0, "rows"), (1, "columns")):
            p = x.a[1].a[0][i]
            rg = p.a[0] if p.k == "elem" else None
            if rg is None or not (opname(rg) == "range" or rg.k == "call" and "range" in str(rg.a[0])) or len(rg.a[1]) != 2:
                continue
            los, his = bound(rg.a[1][0], "max"), bound(rg.a[1][1], "min")
            want_k, want_p = poly(st[i]), poly(pd[i])
            ok = None
            for lo in los:
                for hi in his:
                    pl = poly(lo)
                    if not any(y.k in ("elem", "idx") for y in walk(lo)):
                        continue
                    rest = minus(pl, {m: -c for m, c in want_p.items()})
                    k1 = list(want_k)
                    good = len(rest) == 1 and list(rest.values()) == [1] and len(k1) == 1 and len(list(rest)[0]) == len(k1[0]) + 1 \
                        and all(list(rest)[0].count(a) >= k1[0].count(a) for a in k1[0]) and minus(poly(hi), pl) == want_k
                    if not good and any(y.k in ("phi", "loopcarried") or opname(y) in ("mod", "floordiv", "divmod") for z in (lo, hi) for y in walk(z)):
                        continue
                    ok = good or bool(ok)
            if ok is not None:
                seen = True
                chk.ob("grid-scope", f"{con}:{nm}", ok, e.where, "the scope of a product must list the inputs of its own window: start position times the window size minus the padding, window size long")
    if not seen:
        chk.note(f"{con}: window scopes not analysed")


def spatial(ctx, chk):
    for c in ctx.modules():
        if ctx.ix.find_method(c, "_sample") is None or ctx.ix.find_method(c, "log_likelihood") is None:
            continue
        src = ctx.ix.find_method(c, "log_likelihood")
        got = likelihood(ctx, chk, c) if uses_window(ctx, c) else None
        if got is None:
            continue
        sampling(ctx, chk, c, *got)
        scopes(ctx, chk, c, *got)


def uses_window(ctx, c):
    import ast
    fi = ctx.ix.find_method(c, "log_likelihood")
    return any(isinstance(n, (ast.Attribute, ast.Name)) and (getattr(n, "attr", None) or getattr(n, "id", "")) == "conv2d" for n in ast.walk(fi.node))


class Split2:
    """einops evaluation where an image axis is cut into blocks: ('h', 'block') counts windows, ('h', 'in') positions inside one"""

    def __init__(self, env, k):
        self.env, self.k = env, k

    def of(self, t, d=0):
        v = self.env(t)
        if v is not None or d > 40:
            return v
        if t.k != "op" or not t.a[1]:
            return None
        o, k = t.a[0], kwd(t)
        if o in ("add", "sub"):
            xs = [self.of(x, d + 1) for x in t.a[1]]
            if any(x is None for x in xs) or len({len(x) for x in xs}) != 1:
                return None
            return [tuple(y for y in dict.fromkeys(z for x in col for z in x)) for col in zip(*xs)]
        ds = self.of(t.a[1][0], d + 1)
        if ds is None:
            return None
        if o in ("log_softmax", "softmax") or o in ("contiguous", "to", "clone"):
            return ds
        if o in ("rearrange", "repeat_e"):
            return self.einops(ds, k)
        if o == "logsumexp":
            i = ival(k.get("dim") or t.a[1][1])
            return None if i is None else ds[:i % len(ds)] + ds[i % len(ds) + 1:]
        return None

    def einops(self, ds, k):
        pat = k.get("pattern")
        if pat is None or pat.k != "const" or "..." in str(pat.a[0]):
            return None
        lhs, rhs = [parse(s) for s in str(pat.a[0]).split("->")]
        if lhs is None or rhs is None or len(lhs) != len(ds):
            return None
        bind = {}
        for g, x in zip(lhs, ds):
            if len(g) == 1:
                bind[g[0]] = x
            elif not g:
                continue
            elif len(g) == 2 and len(x) == 1 and x[0] == "hw":
                bind[g[0]], bind[g[1]] = ("h",), ("w",)
            elif len(g) == 2 and len(x) == 1 and x[0] in ("h", "w"):
                a, b = k.get(g[0]), k.get(g[1])
                if b is not None and self.k(b):
                    bind[g[0]], bind[g[1]] = (x[0] + ".block",), (x[0] + ".in",)
                elif a is not None and self.k(a):
                    bind[g[0]], bind[g[1]] = (x[0] + ".strided",), (x[0] + ".stride",)
                else:
                    return None
            else:
                return None
        out = []
        for g in rhs:
            if any(n not in bind and n not in k for n in g):
                return None
            x = [bind.get(n, ("new",)) for n in g]
            out.append(x[0] if len(x) == 1 else () if not x else (tuple(x),))
        return out


from ..layout import parse


def kernels(ctx, chk):
    """mixtures with one weight per position inside a window: likelihood and sampling use the weight of the same position"""
    for c in ctx.modules():
        if "SumConv" not in [k.name for k in ctx.ix.mro(c)] and not c.name.endswith("SumConv"):
            continue
        isk = lambda t: t.k == "attr" and t.a[1] == "kernel_size"
        r = ctx.run(c, "log_likelihood")
        fi = ctx.ix.find_method(c, "log_likelihood")

        def env(t):
            if t.k == "attr" and t.a[0].k == "self" and t.a[1] == "logits":
                return [("co",), ("ci",), ("kh",), ("kw",), ("kr",)]
            if t.k == "call" and "log_likelihood" in str(t.a[0]):
                return [("b",), ("hw",), ("c",), ("r",)]
            return None
        for g, v in r.returns:
            for _, a in galts(v, tuple(g)):
                for x in walk(a):
                    if not (x.k == "op" and x.a[0] == "add"):
                        continue
                    ds = Split2(env, isk).of(x)
                    if ds is None:
                        continue
                    for w, ax in (("kh", "h"), ("kw", "w")):
                        hit = [d for d in ds if w in d]
                        if len(hit) == 1 and len(hit[0]) == 2:
                            other = next(z for z in hit[0] if z != w)
                            chk.ob("grid-kernel", f"{c.name}.log_likelihood:{w}", other == ax + ".in", fi,
                                   f"position {w} of the kernel must weight that position inside each window, weights {other}")
                ds = Split2(env, isk).of(a)
                if ds is not None and len(ds) == 4 and len(ds[1]) == 1 and isinstance(ds[1][0], tuple):
                    got = tuple(z[0] for z in ds[1][0])
                    chk.ob("grid-kernel", f"{c.name}.log_likelihood:order", [q for q in got] in (["h.block", "h.in", "w.block", "w.in"], ["h", "w"]), fi,
                           f"the mixtures must be listed in the order of the inputs' positions, are listed as {got}")
        r = ctx.run(c, "_sample")
        con = f"{c.name}._sample"
        done = False
        for e in r.events:
            if e.kind != "call" or e.name != "gather" or e.term is None:
                continue
            t = e.term
            ix = kwd(t).get("index") or (t.a[1][2] if len(t.a[1]) > 2 else None)
            if ix is None:
                continue
            while ix.k == "op" and ix.a[0] in ("repeat_e", "rearrange", "expand", "unsqueeze") and ix.a[1]:
                ix = ix.a[1][0]
            if not (ix.k == "op" and ix.a[0] == "add"):
                continue
            lin = {}
            for y in ix.a[1]:
                big = y.k == "op" and y.a[0] == "mul"
                z = next((q for q in y.a[1] if any(m.k == "op" and m.a[0] in ("mod", "remainder") for m in walk(q))), None) if big else y
                if z is None:
                    continue
                ax = None
                for q in walk(z):
                    if q.k == "op" and q.a[0] in ("repeat_e", "rearrange") and "pattern" in kwd(q) and kwd(q)["pattern"].k == "const":
                        s = str(kwd(q)["pattern"].a[0])
                        if "->" in s:
                            L, R = [p.split() for p in s.split("->")]
                            if len(L) == 1 and L[0] in R and len(R) == 3:
                                ax = "w" if R.index(L[0]) == 2 else "h" if R.index(L[0]) == 1 else None
                if ax and (not big or any(isk(core(q)) for q in y.a[1])):
                    lin["major" if big else "minor"] = ax
            src = t.a[1][0]
            order = None
            for q in walk(src):
                if q.k == "op" and q.a[0] in ("rearrange", "repeat_e") and kwd(q).get("pattern") is not None and kwd(q)["pattern"].k == "const":
                    s = str(kwd(q)["pattern"].a[0])
                    L, R = [parse(p) for p in s.split("->")]
                    if L is None or R is None:
                        continue
                    for gg in R:
                        if isinstance(gg, list) and len(gg) == 2 and all([n] in L for n in gg):
                            base = Split2(env, isk).of(q.a[1][0]) or None
                            pos = [L.index([n]) for n in gg]
                            if len(L) == 5 and len(pos) == 2 and set(pos) == {3, 4}:
                                order = ("h", "w") if pos[0] < pos[1] else ("w", "h")
            if order and set(lin) == {"major", "minor"}:
                done = True
                chk.ob("grid-kernel", f"{con}:position", (lin["major"], lin["minor"]) == order, e.where,
                       "a position's routing must be drawn with the kernel weights of its own place inside the window")
        if not done:
            chk.note(f"{con}: kernel position not understood")


def routed(ctx, chk):
    """the sampling half of the rules above, for the property that choices reach exactly the component they name"""
    for c in ctx.modules():
        if ctx.ix.find_method(c, "_sample") is not None and ctx.ix.find_method(c, "log_likelihood") is not None and uses_window(ctx, c):
            got = likelihood(ctx, chk, c)
            if got is not None:
                sampling(ctx, chk, c, *got)
    kernels(ctx, chk)
