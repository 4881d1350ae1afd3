"""NaN evidence is marginalised by every leaf."""
from ..lib import *

ID = "P02"
TITLE = "NaN evidence is integrated out exactly at every leaf"
EXPL = ("For every concrete leaf class the result of its likelihood is reduced to a dataflow term; on every path on "
        "which a missing entry can occur the value must be the density with exactly the isnan positions of the leaf's "
        "own columns replaced by 0, the density must be evaluated on data whose NaN positions were replaced by an "
        "in-support constant, and the unmasked path is admissible only under the proven absence of NaN. "
        "For the tree leaf, the unobserved branch must log-sum-exp the very table and axis the observed branch indexes. "
        "Inner modules must hand NaN through untouched.")
ASSUME = ("torch distributions return NaN/raise only for NaN or out-of-support inputs",)

# numeric support of the distribution families (closed bounds; strict lower bound flagged)
SUPPORT = {"Normal": (None, None), "Laplace": (None, None), "Exponential": (0, None), "Gamma": (1e-300, None),
           "LogNormal": (1e-300, None), "Bernoulli": (0, 1), "Binomial": (0, 0), "Categorical": (0, 0), "Geometric": (0, None),
           "NegativeBinomial": (0, None), "Poisson": (0, None)}


def own_columns(t):
    """subject is this leaf's query columns of the caller's data"""
    c = data_root(t)
    return is_param(c, "data") and (contains(t, lambda s: s.k == "attr" and s.a[1] == "query") or contains(t, lambda s: is_param(s, "data")))


def density(t):
    """innermost density call in a term"""
    for s in walk(t):
        if s.k == "call" and s.a[0].k == "attr" and s.a[0].a[1] == "log_prob":
            yield s


def masked(t):
    """t = D with NaN positions replaced: returns (D, mask subject, ok, why)"""
    if t.k == "store":
        s, x = nan_mask(t.a[1])
        return t.a[0], x, s == 1 and is_zero(t.a[2]), (s, t.a[2])
    if t.k == "op" and t.a[0] == "where":
        a = list(t.a[1]) + [None] * 3
        kw = kwd(t)
        c, i, o = a[0] or kw.get("cond"), kw.get("input", a[1]), kw.get("other", a[2])
        s, x = nan_mask(c)
        if s == 1:
            return o, x, is_zero(i), (s, i)
        if s == -1:
            return i, x, is_zero(o), (s, o)
    if t.k == "op" and t.a[0] in ("masked_fill", "masked_fill_"):
        kw = kwd(t)
        m = kw.get("mask") or t.a[1][1]
        v = kw.get("value") or (t.a[1][2] if len(t.a[1]) > 2 else None)
        s, x = nan_mask(m)
        return t.a[1][0], x, s == 1 and v is not None and is_zero(v), (s, v)
    return None


def nan_guard(c):
    """condition deciding whether any NaN is present: returns (+1/-1, subject)"""
    if c.k == "op" and c.a[0] in ("any", "bool", "item"):
        if c.a[0] == "any":
            if "dim" in kwd(c):
                return 0, None
            return nan_mask(c.a[1][0])
        return nan_guard(c.a[1][0])
    if c.k == "op" and c.a[0] == "all":
        s, x = nan_mask(c.a[1][0])
        return (-1, x) if s == -1 else (0, None)
    if c.k == "op" and c.a[0] in ("not_", "not"):
        s, x = nan_guard(c.a[1][0])
        return -s, x
    if c.k == "op" and c.a[0] == "lt" and is_zero(c.a[1][0]) and c.a[1][1].k == "op" and c.a[1][1].a[0] == "sum":
        return nan_mask(c.a[1][1].a[1][0])
    if c.k == "call" and c.a[1]:
        return nan_guard(c.a[1][0])
    return 0, None


def absent(guards):
    """guards prove that the leaf's columns hold no NaN"""
    return any(((s == 1 and not b) or (s == -1 and b)) and own_columns(x)
               for c, b in guards for s, x in [nan_guard(c)] if s)


def clean_input(x, guards):
    """data handed to the density has its NaN positions filled"""
    for g, a in galts(core(x), guards):
        if not live(g):
            continue
        if absent(g):
            continue
        a = core(a)
        if a.k == "phi":
            if not clean_input(a, g):
                return False
            continue
        m = None
        if a.k == "store":
            s, sub = nan_mask(a.a[1])
            m = (s == 1 and own_columns(sub) and not isnan_const(a.a[2]))
        elif a.k == "op" and a.a[0] == "where":
            s, sub = nan_mask(a.a[1][0])
            other = a.a[1][1] if s == 1 else a.a[1][2]
            m = bool(s) and own_columns(sub) and not isnan_const(other)
        elif a.k == "op" and a.a[0] in ("masked_fill", "masked_fill_"):
            s, sub = nan_mask(kwd(a).get("mask") or a.a[1][1])
            m = s == 1 and own_columns(sub)
        elif a.k == "op" and a.a[0] in ("nan_to_num", "nan_to_num_"):
            m = True
        if not m:
            return False
    return True


def pattern_of(t):
    """rearrange pattern applied to the leaf columns, outermost last"""
    out = []
    while t.k == "op" and t.a[1]:
        if t.a[0] == "rearrange":
            out.append(str(kwd(t).get("pattern", NONE).a[0]))
        elif t.a[0] not in CAST and t.a[0] not in ("not_", "isnan"):
            break
        t = t.a[1][0]
    return out


def rhs(p):
    return p.split("->")[-1].split()


def aligned(mask, x):
    """mask axes line up with the axes of the data handed to the density"""
    pm, px = pattern_of(mask), None
    for a in alts(x):
        p = pattern_of(a)
        if p:
            px = p[0]
    if not pm or px is None:
        return True
    def pos(p):
        l, r = p.split("->")
        names = l.split()
        rr = r.split()
        return [rr.index(n) if n in rr else None for n in names]
    return pos(pm[0]) == pos(px)


def check(ctx, chk):
    ix = ctx.ix
    leaves = ctx.leaves()
    for c in leaves:
        f = ix.find_method(c, "log_likelihood")
        where = f"{f.file}:{f.line}"
        r = ctx.run(c, "log_likelihood")
        conds = phi_conds(r.value, lambda t: nan_guard(t)[0] != 0 or (t.k == "call" and "isinstance" in show(t, 2)) or (t.k == "op" and t.a[0] == "isinstance"))
        tree = [s for s in walk(r.value) if s.k == "phi" and contains(s.a[0], lambda t: t.k == "op" and t.a[0] in ("isfinite", "isnan"))
                and any(a.k == "op" and a.a[0] == "logsumexp" for x in (s.a[1], s.a[2]) for a in alts(x))]
        if any(True for _ in density(r.value)) and not tree:
            generic(ctx, chk, c, r, where)
        else:
            tree_leaf(ctx, chk, c, r, where, tree)
        support(ctx, chk, c)
    chk.floor("masked-zero", 12)
    chk.floor("clean-density-input", 12)
    # inner modules pass NaN through
    for c in ctx.modules():
        if c in leaves:
            continue
        f = ix.find_method(c, "log_likelihood")
        r = ctx.run(c, "log_likelihood")
        bad = None
        for e in r.events if not contains_density(r.value) else ():
            if e.kind != "call" or e.term is None or e.term.k != "op":
                continue
            t = e.term
            if t.a[0] in ("nan_to_num", "nan_to_num_", "nansum", "nanmean", "where", "masked_fill", "masked_fill_") and t.a[1]:
                if any(value_contains(x, lambda s: is_param(s, "data")) for x in (t.a[1][:1] if t.a[0] != "where" else t.a[1][1:])) and \
                        not any(True for s in value_walk(t) if s.k == "call" and s.a[0].k == "attr" and s.a[0].a[1] in ("log_likelihood", "signed_logabs_and_sign")):
                    m = masked(t)
                    if not (m is not None and m[1] is not None and own_columns(m[1])):
                        bad = (e, f"{t.a[0]} rewrites evidence")
            if t.a[0] in ("nan_to_num", "nan_to_num_", "nansum", "nanmean") and t.a[1] and \
                    any(s.k == "call" and s.a[0].k == "attr" and s.a[0].a[1] == "log_likelihood" for s in value_walk(t.a[1][0])):
                bad = (e, f"{t.a[0]} masks missing-value likelihoods")
        chk.ob("pass-through", f"{c.name}.log_likelihood", bad is None, bad[0].where if bad else f"{f.file}:{f.line}",
               bad[1] if bad else "evidence reaches the children unmodified")
        direct(ctx, chk, c, r, f)
    chk.floor("pass-through", 20)


LLN = ("log_likelihood", "signed_logabs_and_sign")


def is_child_ll(t):
    if t.k != "call":
        return False
    if t.a[0].k == "attr" and t.a[0].a[1] in LLN:
        return True
    return any(contains(v, lambda s: is_param(s, "cache")) for v in list(t.a[1]) + [v for _, v in t.a[2]])


def direct(ctx, chk, c, r, f):
    """inner modules that evaluate densities themselves must mask missing entries too"""
    def data_leaks(t):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if shape_only(x) or is_child_ll(x):
                continue
            if x.k == "call" and x.a[0].k == "global" and x.a[0].a[0] in ctx.ix.classes:
                continue
            m = masked(x)
            if m is not None and m[2] and m[1] is not None and is_param(data_root(m[1]), "data"):
                if x.k == "store" or True:
                    continue
            if nan_mask(x)[0]:
                continue
            if is_param(x, "data") or (x.k == "param" and x.a[1] == "x"):
                return True
            if x.k == "phi":
                st.extend(x.a[1:])
            else:
                st.extend(children(x))
        return False
    if r.value is None:
        return
    uses = value_contains(r.value, lambda s: is_param(s, "data") and True)
    dens = contains_density(r.value)
    if not dens:
        return
    chk.ob("direct-density-masked", f"{c.name}.log_likelihood", not data_leaks(r.value), f"{f.file}:{f.line}",
           "missing entries of directly evaluated densities must contribute 0")


def contains_density(t):
    """data values (not only shapes) enter the result outside child likelihood calls"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or shape_only(x) or is_child_ll(x):
            continue
        seen.add(x)
        if x.k == "call" and x.a[0].k == "global" and x.a[0].a[0] in ():
            continue
        if is_param(x, "data"):
            return True
        st.extend(x.a[1:] if x.k == "phi" else children(x))
    return False


def generic(ctx, chk, c, r, where):
    n = 0
    for g, a in value_alts(r.value):
        if any(cc.k in ("op", "call") and "isinstance" in show(cc, 2) and "IntervalEvidence" in show(cc, 5) and b for cc, b in g):
            continue
        n += 1
        ab = absent(g)
        m = masked(a)
        if m is None:
            chk.ob("masked-zero", f"{c.name}.log_likelihood", ab, where,
                   "a path where an entry may be NaN returns the unmasked density" if not ab else "no NaN on this path")
            D = a
        else:
            D, subj, ok, (s, v) = m
            sub_ok = subj is not None and own_columns(subj)
            chk.ob("masked-zero", f"{c.name}.log_likelihood", ok and sub_ok, where,
                   "exactly the missing entries of the leaf's own columns must contribute 0" +
                   ("" if ok else f" (mask sign {s}, value {show(v, 3) if v is not None else None})"))
            mk = a.a[1] if a.k == "store" else a.a[1][0]
            ds = list(density(D))
            if ds:
                chk.ob("mask-aligned", f"{c.name}.log_likelihood", aligned(core_mask(mk), ds[0].a[1][0]), where,
                       "the mask must be broadcast along the same axes as the data")
        # nothing else may change the density value: unmasked part is exactly the density
        for d in density(D):
            x = d.a[1][0] if d.a[1] else None
            if x is None:
                continue
            chk.ob("clean-density-input", f"{c.name}.log_likelihood", clean_input(x, g), where,
                   "the density must not be evaluated on NaN entries")
            chk.ob("own-columns", f"{c.name}.log_likelihood", contains(x, lambda s: s.k == "attr" and s.a[1] == "query"), where,
                   "the density must be evaluated on the leaf's own scope columns")
        if m is not None or ab:
            chk.ob("density-only", f"{c.name}.log_likelihood", core(D).k == "call" and core(D) in set(density(D)), where,
                   "observed entries must contribute exactly the density")
    return n


def core_mask(m):
    while m.k == "op" and m.a[0] in ("broadcast_to", "expand", "expand_as", "not_"):
        m = m.a[1][0]
    return m


def item_axis(t):
    """(base, first non-full-slice axis, rank indexed) of an item term"""
    ix_ = t.a[1]
    parts = ix_.a[0] if ix_.k == "tuple" else (ix_,)
    for i, p in enumerate(parts):
        if p.k == "slice" and all(is_const(x, None) for x in p.a):
            continue
        return i, len(parts)
    return None, len(parts)


def tree_leaf(ctx, chk, c, r, where, tree):
    if not tree:
        # no masked density and no per-variable branch: the likelihood must be proven NaN-free or reject NaN
        for g, a in value_alts(r.value):
            chk.ob("masked-zero", f"{c.name}.log_likelihood", absent(g), where, "missing entries are neither masked nor summed out")
        return
    for s in tree:
        ll = [a for x in (s.a[1], s.a[2]) for a in alts(x) if a.k == "op" and a.a[0] == "logsumexp"]
        ob = [a for x in (s.a[1], s.a[2]) for a in alts(x) if a.k == "item"]
        pos = contains(s.a[0], lambda t: t.k == "op" and t.a[0] == "isfinite")
        for l in ll:
            base = l.a[1][0]
            same = [o for o in ob if o.a[0] is base]
            chk.ob("tree-sum-out", f"{c.name}.log_likelihood:{'root' if 'index(-1)' in show(base, 12) else 'edge'}", bool(same), where,
                   "the unobserved branch must sum out the table the observed branch indexes")
            d = kwd(l).get("dim")
            for o in same:
                axis, rank = item_axis(o)
                dv = d.a[0] if d is not None and d.k == "const" else None
                okd = dv is not None and axis is not None and (dv == axis or dv == axis - rank or (isinstance(dv, int) and dv < 0 and rank + dv == axis))
                chk.ob("tree-sum-axis", f"{c.name}.log_likelihood:{'root' if 'index(-1)' in show(base, 12) else 'edge'}", okd, where,
                       f"summed axis {dv} must be the indexed state axis {axis}")
        # polarity: observed => index
        for o in ob:
            on_true = any(o is a for a in alts(s.a[1]))
            neg = s.a[0].k == "op" and s.a[0].a[0] in ("not", "not_")
            isn = contains(s.a[0], lambda t: t.k == "op" and t.a[0] == "isnan") and not pos
            want = (not isn) != neg
            chk.ob("tree-polarity", f"{c.name}.log_likelihood", on_true == want, where, "observed variables are looked up, unobserved ones summed")
    # unmasked fast path only without NaN
    fast = [(g, a) for g, a in value_alts(r.value) if not contains(a, lambda t: t.k == "op" and t.a[0] == "logsumexp")]
    for g, a in fast:
        if any(not b and "ran(" in show(cc, 3) for cc, b in g):
            continue
        chk.ob("masked-zero", f"{c.name}.log_likelihood", absent(g), where, "the complete-data path is only valid without NaN")


def support(ctx, chk, c):
    ix = ctx.ix
    f = ix.find_method(c, "_supported_value")
    if f is None:
        return
    r = ctx.run(c, "_supported_value")
    fam = None
    g = ix.find_method(c, "_torch_distribution_class")
    if g is not None:
        rr = ctx.run(c, "_torch_distribution_class")
        fam = torch_family(ctx, rr.value.a[-1]) if rr.value is not None and rr.value.k in ("global", "cls") else None
    if fam not in SUPPORT:
        return
    lo, hi = SUPPORT[fam]
    for a in alts(r.value):
        v = num(a)
        ok = v is not None and v == v and (lo is None or v >= lo) and (hi is None or v <= hi)
        chk.ob("fill-in-support", f"{c.name}._supported_value", ok, f"{f.file}:{f.line}",
               f"imputation value {show(a, 3)} must lie in the support of {fam}")
