"""One mixture axis per sum layer, shared by parameterisation, validation, inference, sampling and learning."""
from ..lib import *
from ..axes import Axes

ID = "P07"
TITLE = "Mixture weights are a distribution over one axis, the same one everywhere"
EXPL = ("Named-axis inference (which parameter axis each dimension of each intermediate value stems from, through einops "
        "patterns, broadcasts, einsum letters, gathers and reductions) for every layer with mixture logits: the axis "
        "normalised by the weight getters, checked by the setter, normalised at initialisation, summed out by the likelihood, "
        "sampled, and re-normalised by EM must be the same parameter axis; likelihoods may use the logits only normalised.")
ASSUME = ("einops/torch broadcasting semantics",)


def mix_classes(ctx):
    for c in ctx.modules():
        if ctx.Leaf in ctx.ix.mro(c):
            continue
        if ctx.ix.find_method(c, "log_weights") is None and ctx.ix.find_method(c, "weights") is None:
            continue
        yield c


def new_axes(ctx, c, param, rank=None):
    ix = ctx.ix
    terms = []
    for m in ("log_likelihood", "_sample", "_expectation_maximization_step", "weights", "log_weights", "__init__"):
        f = ix.find_method(c, m)
        if f is None:
            continue
        r = ctx.run(c, m)
        terms += [e.term for e in r.events if e.term is not None]
        if r.value is not None:
            terms.append(r.value)
    ax = Axes()
    ax.learn_ranks(terms)
    # shape declared by the constructor
    r = ctx.run(c, "__init__")
    for e in r.events:
        if e.kind == "store_attr" and e.idx in ("weights_shape", "_weights_shape") and e.term.k in ("tuple", "list"):
            ax.ranks.setdefault(param, len(e.term.a[0]))
    for e in r.events:
        if e.kind == "store_attr" and e.idx in ("weights_shape", "_weights_shape"):
            ax.shape = e.term
    return ax


def paxes(s, param):
    return {i for b, i in s if b is param}


def norm_axes(ax, t, param):
    """parameter axes normalised by softmax ops applied (through shape ops) to the parameter within t"""
    out = []
    for x in value_walk(t):
        if x.k == "op" and x.a[0] in ("softmax", "log_softmax") and x.a[1] and value_contains(x.a[1][0], param):
            if not all(s is param or s.k == "op" and s.a[0] in CAST or s.k in ("const", "tuple", "list") or shape_only(s) or s.k in ("self", "attr", "item")
                       for s in value_walk(x.a[1][0])):
                continue
            a = ax.of(x.a[1][0])
            d = ax.dims(x)
            if a is None or d in (None, "?"):
                out.append(None)
                continue
            try:
                out.append(frozenset(paxes(frozenset().union(*[a[i] for i in d]), param)))
            except IndexError:
                out.append(None)
        # a - logsumexp(a, dim)
        if x.k == "op" and x.a[0] == "sub" and len(x.a[1]) == 2:
            l = x.a[1][1]
            if l.k == "op" and l.a[0] == "logsumexp" and core(l.a[1][0]) is core(x.a[1][0]) and value_contains(l.a[1][0], param):
                rd = ax.reduced(l)
                out.append(frozenset(paxes(rd, param)) if rd is not None else None)
    return out


def raw_uses(t, param):
    """does the value use the parameter outside a softmax?"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or shape_only(x):
            continue
        seen.add(x)
        if x is param:
            return True
        if x.k == "op" and x.a[0] in ("softmax", "log_softmax"):
            continue
        if x.k == "op" and x.a[0] == "sub" and len(x.a[1]) == 2 and x.a[1][1].k == "op" and x.a[1][1].a[0] == "logsumexp" \
                and core(x.a[1][1].a[1][0]) is core(x.a[1][0]):
            continue
        st.extend(x.a[1:] if x.k == "phi" else children(x))
    return False


def check(ctx, chk):
    ix = ctx.ix
    n = 0
    for c in mix_classes(ctx):
        ini = ctx.run(c, "__init__")
        names = {e.idx for e in ini.events if e.kind == "store_attr" and e.target is not None and e.target.k == "self"}
        self_t = next((e.target for e in ini.events if e.kind == "store_attr" and e.target.k == "self"), None)
        getter = ix.find_method(c, "log_weights") or ix.find_method(c, "weights")
        gr = ctx.run(c, getter.name)
        params = [x for x in value_walk(gr.value) if self_attr(x) and "logits" in x.a[1]]
        if not params:
            continue
        param = params[0]
        n += 1
        ax = new_axes(ctx, c, param)
        W = f"{c.module.rel}:{c.node.lineno}"
        ns = norm_axes(ax, gr.value, param)
        N = ns[0] if ns and ns[0] else None
        chk.ob("getter-normalised", f"{c.name}.{getter.name}", N is not None and all(x == N for x in ns) and not raw_uses(gr.value, param), f"{getter.file}:{getter.line}",
               f"weights must be the softmax of the logits over one mixture axis (found {ns})")
        if N is None:
            continue
        g2 = ix.find_method(c, "weights")
        if g2 is not None:
            r2 = ctx.run(c, "weights")
            ns2 = norm_axes(ax, r2.value, param)
            chk.ob("getter-normalised", f"{c.name}.weights", bool(ns2) and all(x == N for x in ns2) and not raw_uses(r2.value, param),
                   f"{g2.file}:{g2.line}", f"weights and log_weights must normalise the same axis {sorted(N)}, got {ns2}")
        # likelihood
        f = ix.find_method(c, "log_likelihood")
        r = ctx.run(c, "log_likelihood")
        red, unk = set(), 0
        for x in value_walk(r.value):
            if x.k == "op" and x.a[0] in ("logsumexp", "sum", "mean", "einsum", "reduce_e", "nansum"):
                if not value_contains(x, param):
                    continue
                if x.a[0] == "logsumexp" and any(y.k == "op" and y.a[0] == "sub" and x in y.a[1] and core(y.a[1][0]) is core(x.a[1][0]) for y in value_walk(r.value)):
                    continue
                rd = ax.reduced(x)
                if rd is None:
                    unk += 1
                else:
                    red |= paxes(rd, param)
                if x.a[0] == "mean":
                    chk.ob("likelihood-sums", f"{c.name}.log_likelihood", not paxes(rd or (), param), f"{f.file}:{f.line}", "weights may not be averaged")
        if red or not unk:
            chk.ob("likelihood-axis", f"{c.name}.log_likelihood", red == set(N), f"{f.file}:{f.line}",
                   f"likelihood sums out parameter axes {sorted(red)}, weights are normalised over {sorted(N)}")
        chk.ob("likelihood-normalised", f"{c.name}.log_likelihood", not raw_uses(r.value, param), f"{f.file}:{f.line}",
               "the likelihood must use normalised weights")
        # sampling
        f = ix.find_method(c, "_sample")
        r = ctx.run(c, "_sample")
        got = set()
        for e in r.events:
            if e.kind == "call" and e.name == "sample_from_logits":
                lg, d = e.kwargs.get("logits"), e.kwargs.get("dim")
                if lg is None or d is None or d.k != "const":
                    continue
                a = ax.axis(lg, d.a[0])
                if a is not None and value_contains(lg, param):
                    p = paxes(a, param)
                    got |= p
                    chk.ob("sample-axis", f"{c.name}._sample", bool(p) and p <= set(N), e.where,
                           f"routing is sampled over parameter axes {sorted(p)}, weights are normalised over {sorted(N)}")
                    # no other summation of the parameter before routing
                    for x in value_walk(lg):
                        if x.k == "op" and x.a[0] in ("sum", "mean", "amax", "max") and value_contains(x, param):
                            rd = ax.reduced(x)
                            chk.ob("sample-axis", f"{c.name}._sample", not (rd and paxes(rd, param)), e.where,
                                   "weights of different outputs may not be aggregated when routing")
        # learning
        f = ix.find_method(c, "_expectation_maximization_step")
        r = ctx.run(c, "_expectation_maximization_step")
        for e in em_updates(r, param):
            x = e.term
            norm = [y for y in value_walk(x) if y.k == "op" and y.a[0] in ("log_softmax", "softmax") and y.a[1]
                    and value_contains(y.a[1][0], lambda s: s.k == "attr" and s.a[1] == "grad")]
            for y in norm:
                a, d = ax.of(y.a[1][0]), ax.dims(y)
                if a is None or d in (None, "?"):
                    continue
                try:
                    o = paxes(frozenset().union(*[a[i] for i in d]), param)
                except IndexError:
                    continue
                if o:
                    chk.ob("em-axis", f"{c.name}._expectation_maximization_step", o == set(N), e.where,
                           f"EM normalises parameter axes {sorted(o)}, weights are normalised over {sorted(N)}")
        # setter validation and initialisation use positional dims of a tensor shaped like the parameter
        st = ix.find_setter(c, "weights")
        if st is not None:
            rs = ctx.run(c, st)
            rank = ax.ranks.get(param)
            for e in rs.events:
                if e.kind != "raise":
                    continue
                for g, b in e.guards:
                    for x in walk(g):
                        if x.k == "op" and x.a[0] == "sum" and x.a[1] and is_param(core(x.a[1][0])):
                            d = ax.dims(x)
                            if d in (None, "?") or rank is None:
                                ok = False
                            else:
                                ok = {i % rank for i in d} == set(N)
                            chk.ob("setter-axis", f"{c.name}.weights.setter", ok, f"{st.file}:{st.line}",
                                   f"the setter must require sums of one over {sorted(N)}, checks {d}")
        rank = ax.ranks.get(param)
        for e in ini.events:
            if e.kind in ("store_attr",) or e.kind == "call":
                pass
        for x in {y for e in ini.events if e.term is not None for y in walk(e.term)}:
            if x.k == "op" and x.a[0] in ("div", "div_") and len(x.a[1]) == 2:
                num_, den = x.a[1]
                if den.k == "op" and den.a[0] == "sum" and den.a[1] and core(den.a[1][0]) is core(num_) and \
                        value_contains(num_, lambda s: s.k == "op" and s.a[0] in ("rand", "rand_like")):
                    d = ax.dims(den)
                    if d in (None, "?") or rank is None:
                        continue
                    chk.ob("init-axis", f"{c.name}.__init__", {i % rank for i in d} == set(N), W,
                           f"initial weights are normalised over {d}, the mixture axis is {sorted(N)}")
                    kd = kwd(den).get("keepdim")
                    chk.ob("init-axis", f"{c.name}.__init__:keepdim", kd is not None and is_const(kd, True), W, "normaliser must broadcast along the mixture axis")
    chk.floor("getter-normalised", 8)
    chk.floor("likelihood-axis", 5)
    chk.floor("sample-axis", 5)


def em_updates(r, param=None):
    """events that write mixture parameters in an EM step"""
    for e in r.events:
        if e.kind == "store_attr" and e.target is not None and (e.target.k == "self" or (param is not None and e.target is param)) \
                and e.idx in ("log_weights", "weights", "data", "logits", "_logits"):
            yield e
        elif e.kind == "call" and e.name == "copy_" and e.recv is not None and param is not None and contains(e.recv, param):
            yield e
