"""Mixture choices made while sampling with evidence follow the posterior."""
from ..lib import *
from ..axes import canon_ll

ID = "P11"
TITLE = "Sampling with evidence draws every mixture choice from its posterior"
EXPL = ("Dataflow at every mixture-choice site (categorical draw or arg-max over weights) of every module's sampling code: when the cache holds the inputs' "
        "likelihoods the chosen-from values must be the log-weights plus those inputs' log-likelihoods (weights times likelihoods), for draws and for "
        "the most-probable choice alike; without cached values, the weights alone. sample_with_evidence must evaluate the evidence into the same cache it samples with.")
ASSUME = ("modules that refuse evidence (raise) when sampling are exempt",)


def is_ll(s):
    return canon_ll(s).k == "LL"


def present(c, want=True):
    """truth of a cache-test condition when the inputs' likelihoods are cached (None: not a cache test)"""
    if c.k == "op":
        n, a = c.a[0], c.a[1]
        if n in ("not", "not_"):
            v = present(a[0])
            return None if v is None else not v
        if n == "and" or n == "or" or n in ("and_", "or_"):
            vs = [present(x) for x in a]
            if any(v is None for v in vs):
                return None
            return all(vs) if n.startswith("and") else any(vs)
        if n == "in" and is_const(a[0], "log_likelihood"):
            return True
        if n in ("is", "isnot") and any(is_const(x, None) for x in a):
            o = [x for x in a if not is_const(x, None)]
            if o and value_contains(o[0], is_ll):
                return n == "isnot"
            return None
        if n in ("all", "any") and a:
            return present(a[0])
        if n == "bool" and a:
            return present(a[0])
    if c.k == "call" and isinstance(c.a[0], T) and str(c.a[0].a[-1]).split(".")[-1] in ("all", "any", "bool") and c.a[1]:
        return present(c.a[1][0])
    if c.k == "comp":
        return present(c.a[1])
    if c.k in ("elem",):
        return present(c.a[0])
    return None


def choose(t, state):
    """resolve cache tests inside t, assuming inputs' likelihoods cached (True) or absent (False)"""
    memo = {}

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            if x.k == "phi":
                v = present(x.a[0])
                if v is not None:
                    r = rec(x.a[1] if v == state else x.a[2])
            if r is None:
                r = T(x.k, *[rec(y) for y in x.a])
            memo[x] = r
        return r

    return rec(t)


def sites(r):
    """(event, weights term, kind, is_arg_max)"""
    for e in r.events:
        if e.kind != "call":
            continue
        if e.name == "sample_from_logits" or e.name in ("sample_categorical_differentiably", "SIMPLE"):
            w = e.kwargs.get("logits") or e.kwargs.get("log_weights") or (e.args[0] if e.args else None)
            if w is not None:
                yield e, w, "log", False
        elif e.name == "sample" and e.recv is not None:
            d = e.recv
            for g, x in galts(d):
                nm = str(x.a[0].a[-1]) if x.k == "call" and isinstance(x.a[0], T) else (x.a[0] if x.k == "op" else "")
                if str(nm).split(".")[-1] in ("Categorical", "OneHotCategorical"):
                    k = kwd(x)
                    if "logits" in k:
                        yield e, k["logits"], "log", False
                    elif "probs" in k:
                        yield e, k["probs"], "lin", False
                    elif x.a[1]:
                        yield e, x.a[1][0], "lin", False
        elif e.name == "multinomial" and e.term is not None and e.term.k == "op":
            yield e, e.term.a[1][0], "lin", False
        elif e.name == "argmax" and e.term is not None and e.term.k == "op" and any("is_mpe" in show(g, 6) for g, b in e.guards):
            yield e, e.term.a[1][0], None, True


def own_weight(s):
    return s.k == "attr" and s.a[0].k == "self" and ("logits" in str(s.a[1]) or "weights" in str(s.a[1]))


def weighty(t):
    return value_contains(t, lambda s: s.k == "attr" and ("logits" in str(s.a[1]) or "weights" in str(s.a[1])))


def sign_of_ll(t, sign=1, is_ll=is_ll):
    """factors with which likelihoods (or whatever is_ll picks) enter t additively (log); 0 = not additively"""
    if not value_contains(t, is_ll):
        return set()
    if is_ll(t):
        return {sign}
    if t.k == "phi":
        return sign_of_ll(t.a[1], sign, is_ll) | sign_of_ll(t.a[2], sign, is_ll)
    if t.k == "op":
        n, a = t.a[0], t.a[1]
        if n == "add":
            return set().union(*[sign_of_ll(x, sign, is_ll) for x in a])
        if n == "sub":
            b = a[1]
            if b.k == "op" and b.a[0] in ("logsumexp", "max", "amax") or b.k == "item" or b.k == "attr":
                return sign_of_ll(a[0], sign, is_ll)
            return sign_of_ll(a[0], sign, is_ll) | sign_of_ll(b, -sign, is_ll)
        if n == "neg":
            return sign_of_ll(a[0], -sign, is_ll)
        if n == "mul" and sum(1 for x in a if value_contains(x, is_ll)) == 1:
            o = [x for x in a if not value_contains(x, is_ll)]
            v = num(o[0]) if o else None
            if v is not None:
                return sign_of_ll([x for x in a if value_contains(x, is_ll)][0], sign * v, is_ll)
            y = [x for x in a if value_contains(x, is_ll)][0]
            z = core(y)
            if z.k == "op" and z.a[0] in ("exp", "softmax"):
                return sign_of_ll(z.a[1][0], sign, is_ll)
            return {0}
        if n == "div":
            return sign_of_ll(a[0], sign, is_ll) if value_contains(a[0], is_ll) else {-sign}
        if n in ("log_softmax", "softmax", "exp", "log", "logsumexp", "where", "nan_to_num", "clamp", "stack", "cat", "gather", "index_select", "clamp_min", "masked_fill"):
            return set().union(*[sign_of_ll(x, sign, is_ll) for x in a[:3]])
        return set().union(*[sign_of_ll(x, sign, is_ll) for x in a]) if a else set()
    if t.k == "call":
        k = kwd(t)
        if "tensor" in k:
            return sign_of_ll(k["tensor"], sign, is_ll)
        return set().union(set(), *[sign_of_ll(x, sign, is_ll) for x in list(t.a[1]) + [v for _, v in t.a[2]]])
    if t.k == "store":
        return sign_of_ll(t.a[0], sign, is_ll) | sign_of_ll(t.a[2], sign, is_ll)
    return set().union(set(), *[sign_of_ll(x, sign, is_ll) for x in children(t)])


def rank_of(t):
    """number of axes, read from the innermost einops pattern"""
    while t.k == "op" and t.a[1]:
        if t.a[0] in ("rearrange", "repeat_e"):
            p = kwd(t).get("pattern")
            if p is None or p.k != "const" or "->" not in str(p.a[0]) or "..." in str(p.a[0]):
                return None
            import re
            return len(re.findall(r"\([^)]*\)|\S+", str(p.a[0]).split("->")[1]))
        if t.a[0] not in ("to", "contiguous", "clone", "detach", "exp", "log", "nan_to_num", "float", "double"):
            return None
        t = t.a[1][0]
    return None


def shifts(v):
    """axes (from the end, where known) along which the maximum of likelihoods subtracted from themselves is taken"""
    out = set()
    for x in value_walk(v):
        if not (x.k == "op" and x.a[0] == "sub" and len(x.a[1]) == 2):
            continue
        a, b = x.a[1]
        if b.k in ("item", "attr") and b.a[0].k == "op":
            b = b.a[0]
        if not (b.k == "op" and b.a[0] in ("max", "amax", "logsumexp") and b.a[1] and core(b.a[1][0]) is core(a) and value_contains(a, is_ll)):
            continue
        k = kwd(b)
        d = k.get("dim") or k.get("axis") or (b.a[1][1] if len(b.a[1]) > 1 else None)
        n = num(d) if d is not None else None
        if n is None or not is_const(k.get("keepdim", const(False)), True):
            continue
        n = int(n)
        rk = rank_of(a)
        if n < 0:
            out.add(n)
        elif rk is not None:
            out.add(n - rk)
    return out


def refuses_evidence(ctx, c, r):
    f = ctx.ix.find_method(c, "log_likelihood")
    rl = ctx.run(c, "log_likelihood")
    if not rl.returns and any(e.kind == "raise" for e in rl.events):
        return True
    for e in r.events:
        if e.kind == "raise":
            for g, b in e.guards:
                if b and contains(g, lambda s: s.k == "op" and s.a[0] in ("isfinite", "isnan")) and mentions_data(g) and \
                        not contains(g, lambda s: s.k == "attr" and s.a[1] in ("channel_index", "mask")):
                    return True
    return False


def check(ctx, chk):
    ix = ctx.ix
    seen_classes = set()
    for c in ctx.modules():
        if ctx.Leaf in ix.mro(c):
            continue
        for m in ("_sample", "sample"):
            f = ix.find_method(c, m)
            if f is None or f.cls is ctx.Module:
                continue
            r = ctx.run(c, m)
            ss = [s for s in sites(r) if weighty(s[1])]
            if not ss:
                continue
            if refuses_evidence(ctx, c, r):
                chk.ob("posterior", f"{c.name}.{m}", True, f"{f.file}:{f.line}", "refuses evidence")
                continue
            seen_classes.add(c.name)
            for e, w, kind, mx in ss:
                con = f"{c.name}.{m}:{'mpe' if mx else 'draw'}"
                yes, no = choose(w, True), choose(w, False)
                has = value_contains(yes, is_ll)
                chk.ob("posterior", con, has, e.where, "the mixture choice ignores the cached likelihoods of the inputs" if not has else "")
                if has:
                    sg = sign_of_ll(yes)
                    wr = {x for x in sign_of_ll(yes, 1, own_weight)}
                    if wr and all(isinstance(x, (int, float)) for x in wr) and 0 not in wr:
                        chk.ob("posterior-prior-once", con, wr == {1}, e.where, f"the weights must enter the posterior exactly once, enter {sorted(wr)} times in log space")
                    for g, y in galts(yes)[:16]:
                        if value_contains(y, is_ll) or not weighty(y):
                            continue
                        gs = [c for c, b in g if not mentions_data(c) and not contains(c, lambda s: s.k == "const" and s.a[0] == "log_likelihood")]
                        why = [c for c in gs if contains(c, lambda s: s.k == "attr" and s.a[1] in ("is_mpe", "is_differentiable", "training", "repetition_index"))]
                        chk.ob("posterior-always", con, not why, e.where, f"the posterior is used only when {show(why[0], 4)}" if why else "")
                    chk.ob("posterior-combines", con, sg == {1} and weighty(yes), e.where,
                           f"posterior must be weights times input likelihoods (signs {sorted(sg)})")
                    for dm in shifts(yes):
                        chk.ob("posterior-shift", con, dm == -1, e.where, "a shift of the scores must be the same for every alternative of one choice, but is taken along another axis")
                    kids = {canon_ll(x).a[0] for x in value_walk(yes) if is_ll(x)}
                    sampled = {k.recv for k in r.events if k.kind == "call" and k.name == "_sample" and k.recv is not None}
                    roots = lambda ts: {attr_root(y) for k in ts for y in (alts(k))}
                    ok = bool(roots(kids) & roots(sampled)) or any(contains(k, lambda s: s.k == "attr" and s.a[1] == "inputs") for k in kids)
                    ok = ok and not any(k.k == "self" for k in kids)
                    miss = [k for k in direct_inputs(sampled) if k not in kids]
                    part = halves(yes)
                    chk.ob("posterior-of-inputs", con, ok and not miss and part != {0} and part != {1}, e.where,
                           "the likelihoods used must be those of every input being chosen from"
                           + (f"; missing {', '.join(show(k, 4) for k in miss)}" if miss else ""))
                bad = weighty(no) and not value_contains(no, lambda s: is_ll(s))
                chk.ob("prior-without-evidence", con, bad, e.where, "without cached likelihoods the choice must follow the weights")
    # entry point
    f = ix.find_method(ctx.Module, "sample_with_evidence")
    for c in sorted({ix.owner(c, "sample_with_evidence") if hasattr(ix, "owner") else ctx.owner(c, "sample_with_evidence") for c in ctx.modules()}, key=lambda c: c.qual):
        r = ctx.run(c, "sample_with_evidence")
        f = ix.find_method(c, "sample_with_evidence")
        lls = [e for e in r.events if e.kind == "call" and e.name == "log_likelihood"]
        ss = [e for e in r.events if e.kind == "call" and e.name == "sample" and not e.inlined or e.kind == "call" and e.name == "sample"]
        ok = bool(lls) and bool(ss)
        if ok:
            lc, sc = lls[0].kwargs.get("cache"), ss[0].kwargs.get("cache")
            le = lls[0].kwargs.get("data") or (lls[0].args[0] if lls[0].args else None)
            se = ss[0].kwargs.get("data")
            ok = lc is not None and lc is sc and le is not None and le is se and lls[0].seq < ss[0].seq and not conditional(lls[0])
        chk.ob("evidence-before-sampling", f"{c.name}.sample_with_evidence", ok, f"{f.file}:{f.line}",
               "the evidence must be evaluated into the cache handed to the sampler, before sampling")
    chk.floor("posterior", 9)
    chk.floor("posterior-combines", 8)


def conditional(e):
    return any(not contains(g, lambda s: is_const(s, None)) for g, b in e.guards)


def direct_inputs(sampled):
    """the self.inputs / self.inputs[i] receivers a layer hands the choice on to"""
    out = []
    for t in sampled:
        for y in alts(t):
            if self_attr(y, "inputs") or y.k == "item" and self_attr(y.a[0], "inputs") and y.a[1].k == "const":
                out.append(y)
    return out


def halves(t):
    """constant positions of a split input's likelihood list that are used"""
    return {s.a[1].a[0] for s in value_walk(t) if s.k == "item" and is_ll(s.a[0]) and s.a[1].k == "const" and isinstance(s.a[1].a[0], int)}


def attr_root(t):
    while t.k in ("item", "elem"):
        t = t.a[0]
    return t
