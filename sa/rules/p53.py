"""Squared circuits: normalised density, signed evaluation, inner products, Metropolis-Hastings sampling."""
from ..lib import *
from ..terms import *
from ..ctx import *
from ..ip import *
from .. import ipref

ID = "P53"
TITLE = "Squared circuits report the normalised density of their squared components"
EXPL = ("Symbolic normal forms (sums of rational functions times exponentials, over named tensor axes) of every leaf product, contraction, signed evaluation, density and partition formula, computed from the source for each pair or "
        "triple of module classes and compared with the closed form; abstract matching of memo keys against axis permutations, of block offsets against running channel counts, and of the Metropolis-Hastings ratio as a linear form over target and proposal scores.")
ASSUME = ("formulas outside the normal form (series truncation, CLTree messages) are not decided", "the inputs of the squared components are themselves correct (other properties)")
CORE = "spflow.utils.inner_product_core"


def classes_in(t):
    return {str(s.a[0]).split(".")[-1] for s in walk(t) if s.k == "global"}


class Family:
    """decides isinstance tests when the parameters' classes are known"""

    def __init__(self, ctx, kinds):
        self.ctx = ctx
        self.mro = {}
        self.star = set()
        for p, k in kinds.items():
            c = next((x for x in ctx.ix.classes.values() if x.name == k), None)
            self.mro[p] = {m.name for m in ctx.ix.mro(c)} if c else {k}

    def decide(self, t):
        if t.k == "const" and isinstance(t.a[0], bool):
            return t.a[0]
        if t.k == "phi":
            c = self.decide(t.a[0])
            x, y = self.decide(t.a[1]), self.decide(t.a[2])
            return x if c is True else y if c is False else x if x == y else None
        if t.k == "op":
            n, a = t.a[0], t.a[1]
            if n == "isinstance" and len(a) == 2:
                b = core(a[0])
                if b.k == "param" and b.a[1] in self.mro:
                    return bool(self.mro[b.a[1]] & (classes_in(a[1]) | (self.star if any(x.k == "star" for x in walk(a[1])) else set())))
                return None
            if n in ("and_", "and", "or_", "or"):
                v = [self.decide(x) for x in a]
                bad = n.startswith("or")
                if any(x is bad for x in v):
                    return bad
                return None if None in v else not bad
            if n in ("not_", "not"):
                v = self.decide(a[0])
                return None if v is None else not v
            if n in ("is", "isnot") and len(a) == 2 and is_const(a[1], None):
                if any(s.k == "global" for s in walk(a[0])) and a[0].k in ("phi", "global"):
                    return n == "isnot"
        return None

    def pick(self, returns):
        out = []
        for g, v in returns:
            if all(self.decide(c) in (None, p) for c, p in g):
                out.append((g, self.reduce(v)))
        return out

    def reduce(self, t):
        m = {}
        for s in walk(t):
            if s.k == "phi":
                d = self.decide(s.a[0])
                if d is not None:
                    m[s] = s.a[1] if d else s.a[2]
        if not m:
            return t
        r = subst(t, m)
        return self.reduce(r) if r is not t else r


def series_fn(v):
    """(log term, symbolic index) of a truncated series: exp(logaddexp loop)"""
    for s in walk(v):
        if s.k == "op" and s.a[0] == "logaddexp":
            return s.a[1][1]
    return None


def compare(ctx, chk, rule, name, got, src, where, series=False):
    r = probe(ctx, CORE, src)
    want = r.returns[-1][1]
    ip = IP(ren={"elem": "kstep"} if series else {})
    try:
        w = ip.ev(want)
        n0 = set(ip.names)
    except Stuck as e:
        chk.note(f"{rule}: reference of {name} not normalised: {e}")
        return
    try:
        g = ip.ev(got)
    except (Stuck, RecursionError) as e:
        chk.note(f"{rule}: {name} not in closed form ({e})")
        return
    ok = ip.same(g, w)
    if not ok and ip.names - n0:
        chk.note(f"{rule}: {name} uses operators outside the reference: {sorted(ip.names - n0)}")
        return
    chk.ob(rule, name, ok, where, "" if ok else f"{name}: the formula is not the closed form of the product of the densities")


def leaves(ctx, chk):
    for fn, n, refs in (("leaf_inner_product", 2, ipref.REF2), ("triple_product_tensor", 3, ipref.REF3)):
        fi = ctx.ix.functions.get(f"{CORE}.{fn}")
        if fi is None:
            continue
        r = ctx.run_func(fi)
        todo = [((k,) * n, s) for k, s in refs.items()]
        if n == 2:
            todo += list(ipref.MIXED2.items())
        else:
            C, S = "Categorical", "SignedCategorical"
            todo += [((x, y, z), ipref.cat3((x, y, z))) for x in (C, S) for y in (C, S) for z in (C, S)]
        params = [p for p in ("a", "b", "c")][:n]
        for kinds, src in todo:
            fam = Family(ctx, dict(zip(params, kinds)))
            cand = [(g, v) for g, v in fam.pick(r.returns) if not (v.k == "const")]
            cand = [(g, v) for g, v in cand if not any(is_memo(s) for s in [v])]
            nm = "x".join(kinds) if len(set(kinds)) > 1 else kinds[0]
            if not cand:
                chk.note(f"{fn}: no result for {nm}")
                continue
            for g, v in cand:
                series = "kstep" in src
                t = v
                if series:
                    t = series_fn(v)
                    if t is None:
                        chk.note(f"{fn} {nm}: series not recognised")
                        continue
                compare(ctx, chk, "leaf product", f"{fn} {nm}", t, src, fi.where if hasattr(fi, "where") else "", series)


def is_memo(v):
    v = core(uncast(core(v)))
    if v.k == "phi":
        return is_memo(v.a[1]) or is_memo(v.a[2])
    return v.k == "call" and v.a[0].k == "attr" and v.a[0].a[1] == "get"


SOCSMOD = "spflow.modules.sos.socs"
EXPMOD = "spflow.zoo.sos.exp_socs"
SIGN = "spflow.utils.signed_semiring"
SE, IPM, TPS = SOCSMOD + "._signed_eval", "spflow.utils.inner_product.inner_product_matrix", "spflow.utils.inner_product.triple_product_scalar"
LSI = "spflow.utils.inner_product.log_self_inner_product_scalar"
OPQ = (SE, IPM, TPS, LSI, SOCSMOD + ".SOCS._log_partition", EXPMOD + ".ExpSOCS._log_partition")
RECUR = {"inner_product_matrix": 2, "triple_product_tensor": 3, "triple_product_scalar": 3, "leaf_inner_product": 2, "log_self_inner_product_scalar": 1}


def callargs(t, order):
    """arguments of a call by name"""
    out = dict(zip(order, t.a[1]))
    out.update({k: v for k, v in t.a[2]})
    return out


def hook(ip, t):
    """one atom per recursive evaluation, whatever its cache arguments"""
    if t.k == "global":
        return ip.atom(("f", "global " + str(t.a[0]).split(".")[-1], ()))
    if t.k != "call":
        return None
    h = t.a[0]
    nm = str(h.a[-1]).split(".")[-1] if h.k in ("attr", "global") else ""
    if nm in ("signed_logabs_and_sign", "log_likelihood") and h.k == "attr":
        c = callargs(t, ("data", "cache"))
        return ip.atom(("f", "signed" if nm[0] == "s" else nm, (ip.intern(ip.ev(h.a[0])), ip.intern(ip.ev(c["data"])) if "data" in c else None)))
    if nm == "_signed_eval":
        c = callargs(t, ("module", "data", "cache"))
        return ip.atom(("f", "signed", (ip.intern(ip.ev(c["module"])), ip.intern(ip.ev(c["data"])))))
    if nm in RECUR:
        c = callargs(t, ("a", "b", "c")[:RECUR[nm]] if RECUR[nm] > 1 else ("module",))
        ids = [ip.intern(ip.ev(c[k])) for k in (("a", "b", "c")[:RECUR[nm]] if RECUR[nm] > 1 else ("module",)) if k in c]
        st = c.get("signed_sum_types")
        return ip.atom(("f", nm, tuple(ids) + ((("t", ip.intern(ip.ev(st))),) if st is not None else ())))
    if nm == "_log_partition":
        return ip.atom(("f", nm, ()))
    if nm in ("int", "float") and len(t.a[1]) == 1:
        return ip.ev(t.a[1][0])
    return None


def same(ctx, chk, rule, name, got, mod, src, where, **kw):
    """the term equals one of the reference formulas"""
    srcs = (src,) if isinstance(src, str) else src
    for i, s in enumerate(srcs):
        if i == len(srcs) - 1:
            return same1(ctx, chk, rule, name, got, mod, s, where, **kw)
        c = Quiet()
        if same1(ctx, c, rule, name, got, mod, s, where, **kw):
            return same1(ctx, chk, rule, name, got, mod, s, where, **kw)


class Quiet:
    def note(self, *a):
        pass

    def ob(self, *a):
        pass


def same1(ctx, chk, rule, name, got, mod, src, where, cls=None, opq=OPQ, flat=True, part=None, detail="", assume=None, pull=(), kinds=None, hk=None):
    r = probe(ctx, mod, src, cls, opaque_quals=opq)
    want = r.returns[-1][1]
    if part is not None:
        want = want.a[0][part] if want.k == "tuple" else want
    ip = IP(hook=hk or hook, flat=flat, assume=assume, pull=pull)
    try:
        w = ip.ev(want)
        n0 = set(ip.names)
    except Stuck as e:
        chk.note(f"{rule}: reference of {name} not normalised: {e}")
        return None
    try:
        g = ip.ev(got)
    except (Stuck, RecursionError, KeyError) as e:
        chk.note(f"{rule}: {name} not normalised ({e})")
        return None
    ok = ip.same(g, w)
    if not ok and ip.names - n0 - KNOWN:
        chk.note(f"{rule}: {name} uses operators outside the reference: {sorted(ip.names - n0)}")
        return None
    chk.ob(rule, name, ok, where, "" if ok else f"{name}: {detail}")
    return ok


KNOWN = {"item", "list", "slice", "stack", "cat", "prod", "mean", "amax", "amin", "max", "min", "any", "all", "diagonal", "zip", "new_tensor", "sum", "cumsum", "cumprod", "norm", "sigmoid", "reduce sum", "reduce mean", "reduce max",
         "attr components", "attr inputs", "attr monotone", "attr out_shape", "attr channels", "attr scope"}


def uncached(returns):
    """returns of a freshly computed value"""
    return [(g, v) for g, v in returns if not is_memo(v)]


def where_of(ctx, K, m):
    f = ctx.ix.find_method(K, m) if K else None
    return f"{f.module.rel}:{f.node.lineno}" if f else ""


def densities(ctx, chk):
    for kn, mod in (("SOCS", SOCSMOD), ("ExpSOCS", EXPMOD)):
        K = next((c for c in ctx.ix.classes.values() if c.name == kn), None)
        if K is None:
            continue
        mono = "self.monotone.log_likelihood(data, cache=cache) + " if kn == "ExpSOCS" else ""
        r = ctx.run(K, "log_likelihood", opaque_quals=OPQ)
        for g, v in uncached(r.returns):
            same(ctx, chk, "density", f"{kn}.log_likelihood", v, mod,
                 f"def ref(self, data, cache):\n    return {mono}torch.logsumexp(torch.stack([2.0 * _signed_eval(c, data, cache)[0] for c in self.components], dim=0), dim=0) - self._log_partition(cache)\n",
                 where_of(ctx, K, "log_likelihood"), cls=K, detail="not log of the sum of all squared components" + (" times the monotone circuit" if mono else "") + " minus the log-partition function")
        r = ctx.run(K, "_log_partition", opaque_quals=(SE, IPM, TPS, LSI))
        ref = ("def ref(self, cache):\n    return torch.log(torch.sum(torch.stack([triple_product_scalar(c, c, self.monotone, cache=cache) for c in self.components]), dim=0))\n" if mono else
               "def ref(self, cache):\n    return torch.log(torch.sum(torch.stack([torch.diagonal(inner_product_matrix(c, c, cache=cache), dim1=1, dim2=2) for c in self.components], dim=0), dim=0))\n")
        for g, v in uncached(r.returns):
            ok = same(ctx, chk, "partition", f"{kn}._log_partition", v, mod, ref, where_of(ctx, K, "_log_partition"), cls=K, opq=(SE, IPM, TPS, LSI),
                      detail="not the log of the sum over all components of the component's own inner product" + (" with the monotone circuit" if mono else ""))
            if ok and not mono:
                d = [s for s in walk(v) if s.k == "op" and s.a[0] in ("permute", "rearrange", "transpose", "movedim") and s.a[1] and core(s.a[1][0], set()).k == "op" and s.a[1][0].a[0] == "diagonal"]
                e = [s for s in walk(v) if s.k == "op" and s.a[0] == "diagonal"]
                good = True
                for s in d:
                    if s.a[0] == "permute":
                        good = tuple(num(x) for x in s.a[1][1:]) in ((0, 2, 1), (0, -1, 1)) or s.a[1][1].k in ("tuple", "list") and tuple(num(x) for x in s.a[1][1].a[0]) == (0, 2, 1)
                if e and not d and not any(s.k == "op" and s.a[0] == "einsum" for s in walk(v)):
                    good = not any(True for s in walk(v) if s.k == "op" and s.a[0] == "reduce_e" and (dict(s.a[2]).get("pattern") is not None) and dict(s.a[2])["pattern"].a[0].split("->")[1].split()[-2:] == ["c", "r"])
                chk.ob("partition layout", f"{kn}._log_partition", good, where_of(ctx, K, "_log_partition"), "" if good else "channel and repetition axes of the partition function are exchanged")


def signed_eval(ctx, chk):
    fi = ctx.ix.functions.get(SE)
    if fi is None:
        return
    r = ctx.run_func(fi, opaque_quals=())
    wh = f"{fi.module.rel}:{fi.node.lineno}"
    refs = {
        "Sum": ("module.log_likelihood(data, cache=cache)", "torch.ones(1)"),
        "Normal": ("module.log_likelihood(data, cache=cache)", "torch.ones(1)"),
        "Cat": ("torch.cat([_signed_eval(c, data, cache)[0] for c in module.inputs], dim=module.dim)", "torch.cat([_signed_eval(c, data, cache)[1] for c in module.inputs], dim=module.dim)"),
        "Product": ("torch.sum(_signed_eval(module.inputs, data, cache)[0], dim=1, keepdim=True)", "torch.prod(_signed_eval(module.inputs, data, cache)[1], dim=1, keepdim=True)"),
    }
    for kind, (la, sg) in refs.items():
        fam = Family(ctx, {"module": kind})
        K = next((c for c in ctx.ix.classes.values() if c.name == kind), None)
        if K is None:
            continue
        has = ctx.ix.find_method(K, "signed_logabs_and_sign") is not None
        for g, v in fam.pick(uncached(r.returns)):
            if any(is_hasattr(c) and p != has for c, p in g):
                continue
            if core(v).k != "tuple" or len(core(v).a[0]) != 2:
                continue
            v = core(v)
            for part, what in ((0, la), (1, sg)):
                same(ctx, chk, "signed evaluation", f"_signed_eval {kind} {'magnitude' if part == 0 else 'sign'}", v.a[0][part], SOCSMOD, f"def ref(module, data, cache):\n    return {what}\n", wh, opq=(SE,), flat=False,
                     detail="not the exact " + ("log-magnitude" if part == 0 else "sign") + " of the signed value")
    for kind in ("SignedSum", "SignedCategorical"):
        fam = Family(ctx, {"module": kind})
        for g, v in fam.pick(uncached(r.returns)):
            if any(is_hasattr(c) and not p for c, p in g):
                continue
            ip = IP(hook=hook, flat=True)
            try:
                ok = ip.same(ip.ev(v), ip.atom(("f", "signed", (ip.intern(ip.ev(T("param", fi.qual, "module"))), ip.intern(ip.ev(T("param", fi.qual, "data")))))))
            except Stuck:
                continue
            chk.ob("signed evaluation", f"_signed_eval {kind}", ok, wh, "" if ok else f"{kind}: its own signed evaluation is not what is returned")
    # weighted sums
    K = next((c for c in ctx.ix.classes.values() if c.name == "SignedSum"), None)
    if K is not None:
        SL = SIGN + ".signed_logsumexp"
        r = ctx.run(K, "signed_logabs_and_sign", opaque_quals=(SE, SL))
        wh = where_of(ctx, K, "signed_logabs_and_sign")
        ent = set()
        for g, v in uncached(r.returns):
            for s in walk(v):
                if s.k == "call" and str(s.a[0].a[-1]).endswith("signed_logsumexp"):
                    ent.add(s)
            v = core(v)
            if v.k == "tuple" and len(v.a[0]) == 2:
                idx = [x.a[1].a[0] if x.k == "item" and x.a[1].k == "const" else None for x in v.a[0]]
                if None not in idx:
                    chk.ob("signed sum", "SignedSum result order", idx == [0, 1], wh, "" if idx == [0, 1] else "magnitude and sign are exchanged")
        for s in ent:
            c = callargs(s, ("logabs_terms", "sign_terms", "dim", "keepdim", "eps"))
            for has in (True, False):
                child_has = lambda c, has=has: has if is_hasattr(c) else None
                if "logabs_terms" in c:
                    same(ctx, chk, "signed sum", "SignedSum term magnitude", c["logabs_terms"], "spflow.modules.sums.signed_sum",
                         "def ref(self, data, cache):\n    return rearrange(self.inputs.signed_logabs_and_sign(data, cache=cache)[0], 'b f ci r -> b f ci 1 r') + torch.log(torch.abs(rearrange(self.weights, 'f ci co r -> 1 f ci co r')))\n",
                         wh, cls=K, flat=False, opq=(SE,), detail="a term's magnitude is not |input| times |weight| on the same channel", assume=child_has)
                if "sign_terms" in c:
                    same(ctx, chk, "signed sum", "SignedSum term sign", c["sign_terms"], "spflow.modules.sums.signed_sum",
                         "def ref(self, data, cache):\n    return torch.sign(rearrange(self.weights, 'f ci co r -> 1 f ci co r')) * rearrange(self.inputs.signed_logabs_and_sign(data, cache=cache)[1], 'b f ci r -> b f ci 1 r')\n",
                         wh, cls=K, flat=False, opq=(SE,), detail="a term's sign is not the input's sign times the weight's sign", assume=child_has)
            d = num(c["dim"]) if "dim" in c else None
            if d is not None:
                chk.ob("signed sum", "SignedSum sum axis", d in (2, -3), wh, "" if d in (2, -3) else f"terms are summed over axis {d}, not the input channels")
            kd = c.get("keepdim")
            if kd is not None and kd.k == "const":
                chk.ob("signed sum", "SignedSum keepdim", kd.a[0] is False, wh, "" if kd.a[0] is False else "the summed axis is kept")
            e = num(c["eps"]) if "eps" in c else 0
            if e is not None:
                chk.ob("signed sum", "SignedSum eps", e == 0, wh, "" if e == 0 else "a positive eps biases the magnitude")
    fi = ctx.ix.functions.get(SIGN + ".signed_logsumexp")
    if fi is not None:
        r = ctx.run_func(fi)
        wh = f"{fi.module.rel}:{fi.node.lineno}"
        for neg in (False, True):
            def assume(c, neg=neg):
                if opname(c) == "any" and any(opname(s) in ("isneginf", "isinf", "eq", "isfinite") for s in walk(c)):
                    return neg
                if c.k == "op" and c.a[0] in ("lt", "gt") and any(s.k == "param" and s.a[1] == "eps" for s in walk(c)):
                    return False
                if c.k == "param" and c.a[1] == "keepdim":
                    return True
                return None
            for g, v in r.returns:
                v = core(v)
                if v.k != "tuple" or len(v.a[0]) != 2:
                    continue
                hk = lambda ip, t, neg=neg: neg_hook(ip, t, neg)
                for part in (0, 1):
                    ip = IP(hook=hk, flat=True, assume=assume, pull={"mx"})
                    src = "def ref(logabs_terms, sign_terms, dim, keepdim, eps):\n    return " + ("torch.log(torch.abs(torch.sum(sign_terms * torch.exp(logabs_terms), dim=dim, keepdim=True)))" if part == 0 else
                                                                                        "torch.sign(torch.sum(sign_terms * torch.exp(logabs_terms), dim=dim, keepdim=True))") + "\n"
                    w = probe(ctx, SIGN, src).returns[-1][1]
                    try:
                        w = ip.ev(w) if not neg else ip.atom(("neginf",))
                        if neg and part == 1:
                            continue
                        q = ip.ev(v.a[0][part])
                    except Stuck as e:
                        chk.note(f"signed_logsumexp not normalised: {e}")
                        continue
                    ok = ip.same(q, w)
                    nm = f"signed_logsumexp {'magnitude' if part == 0 else 'sign'}{' of all-zero terms' if neg else ''}"
                    chk.ob("signed sum", nm, ok, wh, "" if ok else nm + ": not that of the signed sum of the terms")


def opname(t):
    """name of the function a term applies"""
    return t.a[0] if t.k == "op" else str(t.a[0].a[-1]).split(".")[-1] if t.k == "call" and t.a[0].k in ("global", "attr", "builtin") else ""


def is_hasattr(c):
    return c.k in ("call", "op") and str(c.a[0]).split(".")[-1] == "hasattr"


def neg_hook(ip, t, neg):
    """the maximum used for scaling is one atom, constant along the summed axis; masks of all-zero rows are decided"""
    b = t
    if b.k == "attr" and b.a[1] == "values":
        b = b.a[0]
    if b.k == "item" and is_const(b.a[1], 0):
        b = b.a[0]
    if b.k == "op" and b.a[0] in ("max", "amax") and b.a[1] and b.a[1][0].k == "param" and b.a[1][0].a[1] == "logabs_terms":
        return ip.atom(("neginf",)) if neg else ip.atom(("f", "mx", ()))
    if t.k == "op" and t.a[0] == "where" and any(opname(s) == "isneginf" or s.k == "op" and s.a[0] == "eq" and is_const(s.a[1][1], float("-inf")) for s in walk(t.a[1][0])):
        return ip.ev(t.a[1][1] if neg else t.a[1][2])
    if t.k == "op" and t.a[0] == "full_like" and len(t.a[1]) > 1 and is_const(t.a[1][1], float("-inf")):
        return ip.atom(("neginf",))
    return None


def seqhook(ip, t):
    """sorted grids, slices and interpolated values as atoms; clamps at zero have no effect on lengths"""
    if t.k == "op" and t.a[0] in ("clamp", "clamp_min") and t.a[1]:
        lo = [x for x in t.a[1][1:]] + [v for k, v in t.a[2] if k == "min"]
        hi = [v for k, v in t.a[2] if k == "max"]
        if not hi and len(lo) == 1 and num(lo[0]) is not None and 0 <= num(lo[0]) < 1e-6:
            return ip.ev(t.a[1][0])
    if t.k in ("item", "sub") and t.a[1].k == "slice":
        sl = tuple(None if x is None or is_const(x, None) else num(x) for x in t.a[1].a[:2])
        return ip.atom(("f", f"slice{(sl[0] or None, sl[1])}", (ip.intern(ip.ev(t.a[0])),)))
    if opname(t) == "interp":
        return ip.atom(("f", "interp", (("t", repr(t)),)))
    return None


def segments(ctx, chk):
    fi = ctx.ix.functions.get(f"{CORE}.leaf_inner_product")
    if fi is None:
        return
    wh = f"{fi.module.rel}:{fi.node.lineno}"
    r = ctx.run_func(fi, opaque_quals=("spflow.modules.leaves.piecewise_linear.interp",))
    fam = Family(ctx, {"a": "PiecewiseLinear", "b": "PiecewiseLinear"})
    seen = set()
    for e in r.events:
        if e.kind != "store_item" or not isinstance(e.idx, T) or any(fam.decide(c) not in (None, p) for c, p in e.guards):
            continue
        fs = {s for s in walk(e.term) if s.k == "call" and opname(s) == "interp"}
        if len(fs) != 2 or e.term in seen:
            continue
        seen.add(e.term)
        by = {}
        for f in fs:
            c = callargs(f, ("x", "xp", "fp", "dim", "extrapolate"))
            if not {"xp", "fp"} <= set(c):
                continue
            root = uncast(core(c["fp"]))
            while root.k == "item":
                root = uncast(root.a[0])
            ps = {s.a[1] for s in walk(root) if s.k == "param"} & {"a", "b"}
            if len(ps) == 1:
                by[ps.pop()] = (f, c)
        if set(by) != {"a", "b"}:
            chk.ob("leaf product", "leaf_inner_product PiecewiseLinear operands", False, e.where, "the integrand does not interpolate both leaves' values") if len(by) == 1 else chk.note("PiecewiseLinear: operands not recognised")
            continue
        fa, ca = by["a"]
        fb, cb = by["b"]
        ga, gb = ca.get("x"), cb.get("x")
        if ga is None or gb is None:
            continue
        if ga != gb:
            chk.ob("leaf product", "leaf_inner_product PiecewiseLinear grid", False, e.where, "the two leaves are interpolated on different grids")
            continue
        ref = probe(ctx, CORE, "def ref(grid, fa, fb):\n    h = grid[1:] - grid[:-1]\n    f0, f1 = fa[:-1], fa[1:]\n    g0, g1 = fb[:-1], fb[1:]\n    return torch.sum(h / 6.0 * (2 * f0 * g0 + f0 * g1 + f1 * g0 + 2 * f1 * g1))\n").returns[-1][1]
        m = {s: {"grid": ga, "fa": fa, "fb": fb}[s.a[1]] for s in walk(ref) if s.k == "param"}
        ref = subst(ref, m)
        ip = IP(hook=seqhook, flat=True)
        try:
            w = ip.ev(ref)
            g = ip.ev(e.term)
        except Stuck as s:
            chk.note(f"PiecewiseLinear: {s}")
            continue
        ok = ip.same(g, w)
        chk.ob("leaf product", "leaf_inner_product PiecewiseLinear", ok, e.where, "" if ok else "not the exact integral of the product of two piecewise linear functions over the merged knots")
        if e.idx.k == "tuple" and len(e.idx.a[0]) == 4:
            f, x, y, rr = e.idx.a[0]
            for nm, c, ch in (("a", ca, x), ("b", cb, y)):
                for q, arg in (("xs", "xp"), ("ys", "fp")):
                    path, t = [], uncast(core(c[arg]))
                    while t.k == "item":
                        path.insert(0, t.a[1])
                        t = uncast(t.a[0])
                    if len(path) >= 3:
                        ok = tuple(path[:3]) == (rr, ch, f) and t.k == "attr" and t.a[1] == q
                        chk.ob("leaf product", f"leaf_inner_product PiecewiseLinear {q} of {nm}", ok, e.where, "" if ok else "knots of another repetition, channel or feature are used")
    # axes indexed with a computed index keep their length
    for g, v in r.returns:
        for s in walk(v):
            if s.k == "op" and s.a[0] == "squeeze" and s.a[1]:
                d = num(s.a[1][1]) if len(s.a[1]) > 1 else num(dict(s.a[2]).get("dim", T("const", None)))
                b = s.a[1][0]
                if d is not None and b.k == "op" and b.a[0] == "index_select":
                    kw = callargs(T("call", b.a[0], b.a[1], b.a[2]), ("input", "dim", "index"))
                    if num(kw.get("dim", T("const", None))) == d:
                        chk.ob("leaf product", "leaf_inner_product segment axis", False, wh, "the axis of the selected segments is dropped when there is one segment")
    fam = Family(ctx, {"a": "Histogram", "b": "Histogram"})
    for g, v in fam.pick(r.returns):
        ref = probe(ctx, CORE, ipref.HIST).returns[-1][1]
        ip = IP(hook=histhook)
        try:
            w = ip.ev(ref)
            n0 = set(ip.names)
            q = ip.ev(v)
        except Stuck as s:
            chk.note(f"Histogram: {s}")
            continue
        ok = ip.same(q, w)
        if not ok and ip.names - n0:
            chk.note(f"Histogram: operators outside the reference {sorted(ip.names - n0)}")
            continue
        chk.ob("leaf product", "leaf_inner_product Histogram", ok, wh, "" if ok else "not the integral of the product of the two step densities over the merged bins")


def histhook(ip, t):
    h = seqhook(ip, t)
    if h is not None:
        return h
    if t.k == "op" and t.a[0] == "index_select" and t.a[1]:
        kw = callargs(T("call", t.a[0], t.a[1], t.a[2]), ("input", "dim", "index"))
        return ip.atom(("f", "take", (ip.intern(ip.ev(kw["input"])), ip.intern(ip.ev(kw["index"])))))
    if t.k == "op" and t.a[0] in ("clamp",) or opname(t) in ("bucketize", "unique", "numel", "sort", "cat"):
        kw = [ip.intern(ip.ev(v)) if not (v.k == "const") else ("c", v.a[0]) for k, v in t.a[2] if k not in ("dim", "sorted")]
        if opname(t) == "sort":
            return ip.ev(t.a[1][0])
        names = {"bucketize", "unique", "numel", "cat", "clamp"}
        return ip.atom(("f", opname(t), tuple(ip.intern(ip.ev(x)) for x in t.a[1]) + tuple(kw)))
    if t.k == "item" and t.a[1].k == "const" and opname(t.a[0]) == "sort":
        return ip.ev(t.a[0].a[1][0])
    if t.k == "item" and t.a[1].k == "const" and isinstance(t.a[1].a[0], int):
        return ip.atom(("f", f"at{t.a[1].a[0]}", (ip.intern(ip.ev(t.a[0])),)))
    if t.k == "list":
        return ip.atom(("f", "list", tuple(ip.intern(ip.ev(x)) for x in t.a[0])))
    return None


NAMES = ("a", "b", "c")


def strip_iter(t):
    """the sequence an iterator runs over"""
    t = uncast(t)
    while t.k == "call" and opname(t) in ("enumerate", "list", "tuple", "reversed_") and t.a[1]:
        t = uncast(t.a[1][0])
    return t


def idxsrc(t):
    return strip_iter(t.a[0]) if t.k == "idx" else None


def nested(t):
    """value of list[idx(I)] where the list was filled by appending one value per element of I"""
    t = uncast(t)
    if t.k == "item":
        L = nested(t.a[0])
        if L.k == "op" and L.a[0] == "wrongindex":
            return L
        e = each(L)
        src = idxsrc(t.a[1])
        if e is not None and src is not None and strip_iter(e[0]) == src:
            return nested(e[1])
        if e is not None and src is not None:
            return T("op", "wrongindex", (e[1],), ())
    return t


def perm_of(key):
    """order of the modules in a memo key"""
    if key.k != "tuple":
        return None
    out = []
    for x in key.a[0]:
        if opname(x) != "id" or len(x.a[1]) != 1 or x.a[1][0].k != "param":
            return None
        out.append(x.a[1][0].a[1])
    return tuple(out)


def plain(v):
    v = uncast(v)
    while v.k == "op" and v.a[0] in ("contiguous", "clone", "to", "detach") and v.a[1]:
        v = uncast(v.a[1][0])
    return v


def getkey(v):
    """(order, axes permutation) of a memoised result"""
    v = plain(v)
    pat = None
    if v.k == "op" and v.a[0] in ("rearrange", "permute", "transpose"):
        kw = dict(v.a[2])
        if v.a[0] == "rearrange" and "pattern" in kw and kw["pattern"].k == "const":
            pat = [x.split() for x in kw["pattern"].a[0].split("->")]
        elif v.a[0] == "permute":
            n = list(v.a[1][1:]) + ([kw["dims"]] if "dims" in kw else [])
            n = n[0].a[0] if len(n) == 1 and n[0].k in ("tuple", "list") else n
            n = [num(x) for x in n]
            if None in n or not n:
                return None
            n = [int(x) for x in n]
            pat = [[str(i) for i in range(len(n))], [str(i % len(n)) for i in n]]
        elif v.a[0] == "transpose":
            n = [num(x) for x in list(v.a[1][1:3]) + [kw[k] for k in ("dim0", "dim1") if k in kw]]
            if len(n) != 2 or None in n or min(n) < 0:
                return None
            n = [int(x) for x in n]
            r = list("01234")
            q = list(r)
            q[n[0]], q[n[1]] = r[n[1]], r[n[0]]
            pat = [r, q]
        else:
            return None
        v = plain(v.a[1][0])
    if v.k == "phi":
        alt = [x for x in v.a[1:3] if not is_const(x, None)]
        if len(alt) != 1:
            return None
        v = alt[0]
    key = None
    if v.k == "call" and v.a[0].k == "attr" and v.a[0].a[1] == "get" and v.a[1]:
        key = v.a[1][0]
    elif v.k == "item":
        key = v.a[1]
    o = perm_of(key) if key is not None else None
    return None if o is None else (o, pat)


def recursion(ctx, chk):
    for fn, n in (("inner_product_matrix", 2), ("triple_product_tensor", 3)):
        fi = ctx.ix.functions.get(f"{CORE}.{fn}")
        if fi is None:
            continue
        P = NAMES[:n]
        if not set(P) <= {x.arg for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs}:
            chk.note(f"{fn}: parameters renamed")
            continue
        wh = f"{fi.module.rel}:{fi.node.lineno}"
        r = ctx.run_func(fi, opaque_quals=(f"{CORE}.leaf_inner_product",))
        sig = "def ref(" + ", ".join(P) + ", cache, signed_sum_types):\n    return "
        rec = lambda f: f"{fn}(" + ", ".join(f(p) for p in P) + ", signed_sum_types=signed_sum_types)"
        for g, v in r.returns:
            if not is_memo(v) and getkey(v) is None:
                continue
            k = getkey(v)
            if k is None:
                continue
            o, pat = k
            if sorted(o) != list(P):
                chk.ob("product memo", f"{fn} lookup", False, wh, f"the memo is read under {o}")
                continue
            ch = list(o)
            if pat is not None:
                inn, out = pat
                if len(inn) < n + 2:
                    continue
                m = dict(zip(inn[1:1 + n], o))
                ch = [m.get(x) for x in out[1:1 + n]]
                if inn[0] != out[0] or inn[n + 1] != out[n + 1]:
                    ch = None
            ok = ch == list(P)
            chk.ob("product memo", f"{fn} lookup {'/'.join(o)}", ok, wh, "" if ok else f"the memo entry of ({', '.join(o)}) is returned for ({', '.join(P)}) without exchanging the channel axes")
        vals = {v for _, v in r.returns}
        for e in r.events:
            if e.kind == "store_item" and isinstance(e.idx, T):
                o = perm_of(e.idx)
                if o is not None and e.term in vals:
                    ok = o == tuple(P)
                    chk.ob("product memo", f"{fn} store", ok, e.where, "" if ok else f"the result for ({', '.join(P)}) is stored under ({', '.join(o)})")
        for kind in ("Sum", "SignedSum", "Product"):
            fam = Family(ctx, {p: kind for p in P})
            fam.star = {"SignedSum"}
            for g, v in fam.pick(r.returns):
                if is_memo(v) or getkey(v) is not None:
                    continue
                if kind == "Product":
                    src = f"torch.prod({rec(lambda p: p + '.inputs')}, dim=0, keepdim=True)"
                elif n == 2:
                    src = f"torch.einsum('fiar,fijr,fjbr->fabr', a.weights, {rec(lambda p: p + '.inputs')}, b.weights)"
                else:
                    src = f"torch.einsum('fiar,fjbr,fkcr,fijkr->fabcr', a.weights, b.weights, c.weights, {rec(lambda p: p + '.inputs')})"
                same(ctx, chk, "product recursion", f"{fn} {kind}", v, CORE, [sig + x + "\n" for x in ([src, src.replace("dim=0, keepdim=True)", "dim=0).unsqueeze(0)")] if kind == "Product" else [src])], wh, opq=(f"{CORE}.{fn}",), flat=True,
                     detail="not the contraction of the inputs' products with every circuit's weights" if kind != "Product" else "not the product over features of the inputs' products")
        fam = Family(ctx, {p: "Cat" for p in P})
        for g, v in fam.pick(r.returns):
            if is_memo(v) or getkey(v) is not None:
                continue
            w = core(v)
            if w.k == "op" and w.a[0] in ("cat", "concat", "concatenate"):
                zipped = ", ".join(p + "i" for p in P)
                src = f"torch.cat([{rec(lambda p: p + 'i')} for {zipped} in zip({', '.join(p + '.inputs' for p in P)})], dim=0)"
                same(ctx, chk, "product recursion", f"{fn} Cat over features", v, CORE, sig + src + "\n", wh, opq=(f"{CORE}.{fn}",), flat=True, detail="not the concatenation of the products of corresponding inputs along features")
        blocks(ctx, chk, fn, n, r, fam)
    fi = ctx.ix.functions.get(f"{CORE}.leaf_inner_product")
    # scalars
    for mod, q, src in ((CORE, "log_self_inner_product_scalar", "inner_product_matrix(module, module, signed_sum_types=signed_sum_types)[0, 0, 0, 0]"),
                        (CORE, "triple_product_scalar", "triple_product_tensor(a, b, c, signed_sum_types=signed_sum_types)[0, 0, 0, 0, 0]"),
                        ("spflow.utils.inner_product", "inner_product_matrix", "_inner_product_matrix(a, b, signed_sum_types=(SignedSum,))"),
                        ("spflow.utils.inner_product", "log_self_inner_product_scalar", "_log_self_inner_product_scalar(module, signed_sum_types=(SignedSum,))"),
                        ("spflow.utils.inner_product", "triple_product_tensor", "_triple_product_tensor(a, b, c, signed_sum_types=(SignedSum,))"),
                        ("spflow.utils.inner_product", "triple_product_scalar", "_triple_product_scalar(a, b, c, signed_sum_types=(SignedSum,))")):
        fi = ctx.ix.functions.get(f"{mod}.{q}")
        if fi is None:
            continue
        O = tuple(f"{CORE}.{x}" for x in RECUR) if mod != CORE else tuple(f"{CORE}.{x}" for x in ("inner_product_matrix", "triple_product_tensor"))
        r = ctx.run_func(fi, opaque_quals=O)
        for g, v in r.returns:
            t = v
            if q.startswith("log_") and mod == CORE:
                t = core(t)
                if t.k == "op" and t.a[0] == "log":
                    t = T("op", "log", (unclamp(t.a[1][0]),), t.a[2])
                else:
                    t = unclamp(t)
                src = f"torch.log({src})"
            same(ctx, chk, "product entry", f"{mod.split('.')[-1]}.{q}", t, mod, f"def ref(module, a, b, c, cache, signed_sum_types):\n    return {src}\n", f"{fi.module.rel}:{fi.node.lineno}", opq=O,
                 detail="not the (log) inner product of the given circuits")


def unclamp(t):
    while True:
        t = core(t)
        if t.k == "op" and t.a[0] in ("clamp", "clamp_min", "maximum", "relu") and t.a[1]:
            t = t.a[1][0]
        else:
            return t


def blocks(ctx, chk, fn, n, r, fam):
    """each pair of inputs fills the block of the output at the running channel offsets"""
    P = NAMES[:n]
    for e in r.events:
        if e.kind != "store_item" or not isinstance(e.idx, T) or e.idx.k != "tuple" or len(e.idx.a[0]) != n + 2:
            continue
        if any(fam.decide(c) not in (None, p) for c, p in e.guards):
            continue
        name = f"{fn} Cat over channels"
        order = []
        for ax, x in enumerate(e.idx.a[0][1:1 + n]):
            if x.k != "slice" or len(x.a) < 2 or x.a[0] is None or x.a[1] is None:
                chk.note(f"{name}: axis {ax + 1} of the stored block is not a slice")
                break
            lo, hi = x.a[0], x.a[1]
            step, src, ok, why = offset(lo)
            wid = minus(hi, lo)
            if wid is None:
                chk.note(f"{name}: block width of axis {ax + 1} not read off")
                break
            ws = width_of(wid)
            if ws is None:
                chk.note(f"{name}: block width of axis {ax + 1} not a channel count")
                break
            if not ok:
                chk.ob("block placement", name, False, e.where, f"axis {ax + 1}: {why}")
                break
            if step is None:
                chk.note(f"{name}: {why}")
                break
            ss = width_of(step)
            good = ss is not None and ss == ws and src == ws
            chk.ob("block placement", f"{name} axis {ax + 1} offset", good, e.where, "" if good else f"axis {ax + 1}: the offset advances by another channel count than the block is wide")
            order.append(ws)
        else:
            v = nested(e.term)
            if v.k == "op" and v.a[0] == "wrongindex":
                chk.ob("block placement", f"{name} block", False, e.where, "the block is taken from another position of the computed list")
                continue
            want = [T("attr", p_, "inputs") for p_ in (next((s for s in walk(o) if s.k == "param"), None) for o in order)]
            got = None
            if v.k == "call" and opname(v) == fn:
                c = callargs(v, P)
                if set(P) <= set(c):
                    got = [elem_src(c[p]) for p in P]
            if got is None or None in got:
                chk.note(f"{name}: stored block is not a recursive product")
                continue
            names = [next((s.a[1] for s in walk(o) if s.k == "param"), None) for o in order]
            gn = [next((s.a[1] for s in walk(o) if s.k == "param"), None) for o in got]
            ok = names == list(P) and gn == list(P)
            chk.ob("block placement", f"{name} block", ok, e.where, "" if ok else f"the product of the inputs of {gn} is stored in the block of {names}")


def elem_src(t):
    t = uncast(t)
    return strip_iter(t.a[0]) if t.k == "elem" and len(t.a) == 1 else None


def width_of(t):
    """sequence whose element's channel count t is"""
    t = uncast(t)
    if t.k == "attr" and t.a[1] == "channels":
        b = uncast(t.a[0])
        if b.k == "attr" and b.a[1] == "out_shape":
            return elem_src(b.a[0])
    return None


def minus(hi, lo):
    """hi - lo when hi is lo + w"""
    if hi.k == "op" and hi.a[0] == "add" and len(hi.a[1]) == 2:
        x, y = hi.a[1]
        if x == lo:
            return y
        if y == lo:
            return x
    return None


def offset(lo):
    """(step, sequence, fine, reason) of a running offset"""
    if lo.k == "const":
        return None, None, lo.a[0] != 0 and False, "every block is written at the same offset"
    if lo.k == "phi" and lo.a[0].k == "loopcarried":
        src = strip_iter(lo.a[0].a[0])
        a, b = lo.a[1], lo.a[2]
        if num(b) != 0:
            return None, None, False, "the offset does not start at 0"
        if a.k == "op" and a.a[0] == "add":
            x = [y for y in a.a[1] if not (num(y) == 0 or y.k == "phi" or y.k == "loop")]
            if len(x) == 1:
                return x[0], src, True, ""
    return None, None, True, "offset not a running sum"


def unview(t):
    t = uncast(core(uncast(t)))
    return t


class MH:
    """linear form of log acceptance ratios over target and proposal scores"""

    def lin(self, t):
        t = unview(t)
        if t.k == "op":
            n, a = t.a[0], t.a[1]
            if n in ("add", "sub") and len(a) == 2:
                return self.comb(self.lin(a[0]), self.lin(a[1]), 1 if n == "add" else -1)
            if n in ("neg",):
                return self.comb({}, self.lin(a[0]), -1)
            if n == "mul" and len(a) == 2:
                for x, y in (a, a[::-1]):
                    if num(x) is not None:
                        return self.comb({}, self.lin(y), num(x))
            if n in ("reduce_e", "sum", "reduce") and a:
                kw = dict(t.a[2])
                if n == "reduce_e" and not ("reduction" in kw and is_const(kw["reduction"], "sum")):
                    raise Stuck("reduction")
                return self.lin(a[0])
            if n == "zeros_like":
                return {}
        if num(t) is not None:
            return {(): num(t)} if num(t) else {}
        if t.k == "item" and is_const(t.a[1], 0) and opname(t.a[0]) in ("_signed_eval", "signed_logabs_and_sign"):
            c = t.a[0]
            if opname(c) == "_signed_eval":
                k = callargs(c, ("module", "data", "cache"))
                return {("t", uncast(k["module"]), k["data"]): 1}
            k = callargs(c, ("data", "cache"))
            return {("t", uncast(c.a[0].a[0]), k["data"]): 1}
        if t.k == "call" and opname(t) == "log_likelihood" and t.a[0].k == "attr":
            k = callargs(t, ("data", "cache"))
            return {("q", uncast(t.a[0].a[0]), k["data"]): 1}
        if t.k == "phi" and t.a[0].k == "loopcarried":
            u = unview(t.a[1])
            return {("s", t): 1}
        raise Stuck("score " + show(t, 3))

    def comb(self, x, y, s):
        out = dict(x)
        for k, v in y.items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v}


def choose(w):
    """(mask, value where true, value where false) with negations removed"""
    c, x, y = w.a[1][:3]
    m = unview(c)
    while m.k == "op" and m.a[0] in ("not_", "not", "invert", "logical_not"):
        m, x, y = unview(m.a[1][0]), y, x
    return m, x, y


def accepts(mask):
    """log acceptance ratio of a mask, and whether the comparison is the right way round"""
    m = unview(mask)
    neg = False
    while m.k == "op" and m.a[0] in ("not_", "not", "invert", "logical_not"):
        neg, m = not neg, unview(m.a[1][0])
    if not (m.k == "op" and m.a[0] in ("lt", "le") and len(m.a[1]) == 2):
        return None

    def rand(t):
        t = unview(t)
        lg = False
        if t.k == "op" and t.a[0] == "log":
            lg, t = True, unview(t.a[1][0])
        nm = opname(t)
        return lg if nm in ("rand", "rand_like", "random", "uniform_") else None

    for i in (0, 1):
        lg = rand(m.a[1][i])
        if lg is not None:
            y = unview(m.a[1][1 - i])
            if not lg:
                if y.k == "op" and y.a[0] in ("clamp", "clamp_max", "minimum"):
                    y = unview(y.a[1][0])
                if not (y.k == "op" and y.a[0] == "exp"):
                    return (y.a[1][0] if y.k == "op" and y.a[0] == "minimum" else y), None
                y = unview(y.a[1][0])
            if y.k == "op" and y.a[0] in ("minimum", "clamp", "clamp_max") and y.a[1]:
                rest = list(y.a[1][1:]) + [v for k, v in y.a[2] if k in ("max", "other")]
                ok0 = all(num(x) == 0 or x.k == "op" and x.a[0] == "zeros_like" for x in rest if not is_const(x, None))
                if y.a[0] == "minimum" and not ok0:
                    z = [x for x in y.a[1] if not (num(x) == 0 or x.k == "op" and x.a[0] == "zeros_like")]
                    if len(z) != 1:
                        return None
                    y = z[0]
                elif not ok0:
                    return None
                else:
                    y = y.a[1][0]
            return y, (i == 0) != neg
    return None


def sampling(ctx, chk):
    K = next((c for c in ctx.ix.classes.values() if c.name == "SOCS"), None)
    if K is None or ctx.ix.find_method(K, "_sample") is None:
        return
    wh = where_of(ctx, K, "_sample")
    r = ctx.run(K, "_sample", opaque_quals=(SE, LSI, CORE + ".log_self_inner_product_scalar", "spflow.learn.build_socs.build_abs_weight_proposal", SOCSMOD + "._contains_signed_sum"), site=("sample",))
    seen = False
    for e in r.events:
        if e.kind != "store_item" or not isinstance(e.idx, T):
            continue
        x = unview(e.term)
        if not (x.k == "phi" and x.a[0].k == "ran"):
            continue
        src, st, x0 = x.a[0].a[0], unview(x.a[1]), x.a[2]
        if not (st.k == "op" and st.a[0] == "where" and len(st.a[1]) == 3):
            continue
        seen = True

        def carried(t):
            t = unview(t)
            return t.k == "phi" and t.a[0].k == "loopcarried" and t.a[0].a[0] == src

        ac = accepts(st.a[1][0])
        if ac is None:
            chk.note("SOCS._sample: acceptance test not recognised")
            continue
        y, right = ac
        if right is None:
            try:
                MH().lin(y)
            except Stuck:
                chk.note("SOCS._sample: acceptance test not recognised")
                continue
            chk.ob("acceptance", "SOCS._sample scale", False, e.where, "a uniform number is compared with the log acceptance ratio")
            continue
        a, b = st.a[1][1], st.a[1][2]
        if carried(a) == carried(b):
            chk.note("SOCS._sample: chain update not recognised")
            continue
        good = right == carried(b)
        chk.ob("acceptance", "SOCS._sample orientation", good, e.where, "" if good else "the proposal is taken when it is rejected")
        xp, xs = (a, unview(b)) if carried(b) else (b, unview(a))
        mh = MH()
        try:
            L = mh.lin(y)
            q = opname(xp) == "sample" and xp.a[0].k == "attr" and uncast(xp.a[0].a[0])
            if not q:
                chk.note("SOCS._sample: proposals are not drawn from a module")
                continue
            comp = None
            tp = {k: v for k, v in L.items() if k and k[0] == "t"}
            if len(tp) == 1:
                comp = list(tp)[0][1]
            new = [k for k in L if k and k[0] in "tq"]
            for k in new:
                ok = k[2] == xp
                chk.ob("acceptance", f"SOCS._sample proposed {'target' if k[0] == 't' else 'proposal'} score", ok, e.where, "" if ok else "a proposed state's score is not evaluated at the proposal")
            cq = {k: v for k, v in L.items() if k and k[0] == "q"}
            ok = {v for v in tp.values()} == {2} and len(tp) == 1
            chk.ob("acceptance", "SOCS._sample target of the proposal", ok, e.where, "" if ok else "the proposed state's squared value does not enter the acceptance ratio once")
            ok = len(cq) == 1 and list(cq.values()) == [-1] and list(cq)[0][1] == q
            chk.ob("acceptance", "SOCS._sample proposal correction", ok, e.where, "" if ok else "the density the proposal was drawn from does not divide the acceptance ratio")
            states = [(k, v) for k, v in L.items() if k and k[0] == "s"]
            want = {("t", comp, x0): 2}, {("q", q, x0): 1}
            found = set()
            for k, v in states:
                ph = k[1]
                i0 = mh.lin(ph.a[2])
                kind = "t" if any(z and z[0] == "t" for z in i0) else "q"
                found.add(kind)
                full = {z: c * v for z, c in i0.items()}
                exp = {("t", comp, x0): -2} if kind == "t" else {("q", q, x0): 1}
                ok = full == exp
                chk.ob("acceptance", f"SOCS._sample current {'target' if kind == 't' else 'proposal'} score", ok, e.where, "" if ok else "the current state's score has the wrong sign, module or argument in the acceptance ratio")
                u = unview(ph.a[1])
                ux = unview(xs.a[1])
                if u.k == "op" and u.a[0] == "where" and ux.k == "op" and ux.a[0] == "where":
                    cu, cx = choose(u), choose(ux)
                    j = 1 if choose(st)[2] is b and carried(b) or choose(st)[2] is a and carried(a) else 2
                    same_mask = cu[0] == cx[0]
                    try:
                        p1 = mh.lin(cu[j])
                    except Stuck:
                        p1 = None
                    okp = p1 is None or p1 == {z: c for z, c in ((("t", comp, cx[j]), 2),)} if kind == "t" else p1 is None or p1 == {("q", q, cx[j]): 1}
                    ok = same_mask and okp
                    chk.ob("acceptance", f"SOCS._sample update of the {'target' if kind == 't' else 'proposal'} score", ok, e.where, "" if ok else "the cached score of the chain's state is not updated with the state")
                else:
                    chk.ob("acceptance", f"SOCS._sample update of the {'target' if kind == 't' else 'proposal'} score", False, e.where, "the cached score of the chain's state does not follow the accepted proposals")
            for kind, nm in (("t", "target"), ("q", "proposal")):
                if kind not in found:
                    stale = [k for k in L if k and k[0] == kind and k[2] != xp]
                    if not stale:
                        chk.ob("acceptance", f"SOCS._sample current {nm} score", False, e.where, f"the current state's {nm} score is missing from the acceptance ratio")
            if () in L:
                chk.ob("acceptance", "SOCS._sample constant", False, e.where, "a constant biases the acceptance ratio")
            m = unview(e.idx)
            src2 = elem_src(comp) if comp is not None else None
            if comp is not None and m.k == "op" and m.a[0] == "eq" and len(m.a[1]) == 2:
                ii = [z for z in m.a[1] if z.k == "idx"]
                cc = [z for z in m.a[1] if z.k != "idx"]
                if len(ii) == 1 and len(cc) == 1 and elem_src(comp) is not None:
                    ok = idxsrc(ii[0]) == elem_src(comp)
                    chk.ob("component choice", "SOCS._sample rows", ok, e.where, "" if ok else "the rows filled do not belong to the sampled component")
                    d = [z for z in walk(cc[0]) if opname(z) in ("Categorical", "OneHotCategorical", "multinomial")]
                    for z in d[:1]:
                        kw = callargs(z, ("probs", "logits"))
                        lg = kw.get("logits")
                        if lg is None and "probs" in kw:
                            pr = unview(kw["probs"])
                            if pr.k == "op" and pr.a[0] in ("softmax", "exp"):
                                lg = pr.a[1][0]
                            elif pr.k == "op" and pr.a[0] in ("stack",):
                                chk.ob("component choice", "SOCS._sample weights", False, e.where, "log partition terms are used as probabilities")
                        if lg is not None:
                            same(ctx, chk, "component choice", "SOCS._sample weights", lg, SOCSMOD, "def ref(self, cache):\n    return torch.stack([log_self_inner_product_scalar(c, cache=cache) for c in self.components])\n", e.where, cls=K,
                                 opq=(SE, LSI), detail="components are not drawn in proportion to their share of the partition function")
        except Stuck as s:
            chk.note(f"SOCS._sample: {s}")
    if not seen:
        chk.note("SOCS._sample: no Metropolis-Hastings chain found")


def check(ctx, chk):
    for part in (leaves, densities, signed_eval, recursion, sampling, segments, ordered):
        try:
            part(ctx, chk)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as e:
            chk.note(f"{part.__name__}: source shape not analysed ({type(e).__name__}: {e})")
    chk.floor("leaf product", 8)
    chk.floor("product recursion", 2)


def ordered(ctx, chk):
    """features are paired by position: the leaves of a product must list their variables in the same order"""
    def side(t):
        while (opname(t) in ("tuple", "list") or t.k == "call" and isinstance(t.a[0], T) and str(t.a[0].a[-1]) in ("tuple", "list", "numpy.asarray")) and t.a[1]:
            t = t.a[1][0]
        if t.k == "attr" and t.a[1] == "query" and t.a[0].k == "attr" and t.a[0].a[1] in ("scope", "_scope"):
            return t.a[0].a[0]
        if t.k == "attr" and t.a[1] == "feature_to_scope":
            return t.a[0]
        return None

    def fact(t, b):
        while opname(t) == "not":
            t, b = t.a[1][0], not b
        n = opname(t) or (str(t.a[0].a[-1]).split(".")[-1] if t.k == "call" and isinstance(t.a[0], T) else None)
        if n in ("eq", "ne", "array_equal") and len(t.a[1]) == 2:
            a, c = side(t.a[1][0]), side(t.a[1][1])
            if a is not None and c is not None and a is not c and b == (n != "ne"):
                return frozenset((a, c))
        return None
    for fn, n in (("leaf_inner_product", 2), ("triple_product_tensor", 3)):
        fi = ctx.ix.functions.get(f"{CORE}.{fn}")
        if fi is None:
            continue
        r = ctx.run_func(fi)
        pairs = set()
        for e in r.events:
            if e.kind != "raise" or not e.guards:
                continue
            for g, b in e.guards:
                for t, q in disjuncts(g, b):
                    p = fact(t, not q)
                    if p is not None and all(x is g or plain_guard(x) for x, _ in e.guards):
                        pairs.add(p)
        nodes = {x for p in pairs for x in p}
        if len(nodes) < n:
            chk.ob("feature order", fn, False, f"{fi.file}:{fi.line}", "leaves listing the same variables in different orders must be rejected: their features are paired by position")
            continue
        comp = {next(iter(nodes))}
        for _ in nodes:
            comp |= {y for p in pairs if p & comp for y in p}
        chk.ob("feature order", fn, comp == nodes, f"{fi.file}:{fi.line}", "the variable orders of all factors must be compared")


def disjuncts(g, b):
    if opname(g) == "not":
        return disjuncts(g.a[1][0], not b)
    if opname(g) in ("or", "or_") and b or opname(g) in ("and", "and_") and not b:
        return [x for y in g.a[1] for x in disjuncts(y, b)]
    return [(g, b)]


def plain_guard(g):
    """a condition about the cache or about scopes"""
    return contains(g, lambda s: s.k == "attr" and s.a[1] in ("scope", "query", "extras", "feature_to_scope") or s.k == "param" and s.a[-1] in ("cache", "memo_key")) 
