"""Expectation maximisation: E-step algebra, reach, leaf responsibilities and driver typestate."""
import ast
from ..lib import *
from ..axes import Axes, canon_ll, parse_pattern
from .p07 import em_updates, mix_classes, new_axes, norm_axes, paxes
from .p08 import covers, held_children
from .p15 import child_of, truncating

ID = "P30"
TITLE = "One EM step re-estimates every part of the circuit from its posterior use"
EXPL = ("Linear-form analysis of the value each mixture stores in its EM step (own log-weights + log of its likelihood's gradient + the inputs' likelihoods - own likelihood, "
        "log-summed over the batch, normalised), with named axes paired exactly as in the layer's log_likelihood; call coverage of the step over all inputs; responsibilities and arguments "
        "of the leaf update; and ordering/freshness (typestate) of the evaluate - retain - backward - step protocol in the training loops.")
ASSUME = ("autograd gradients", "each sub-circuit has one parent for the weight update (shared mixtures are a recorded finding)")
PLAIN = {"to", "float", "double", "clone", "detach", "contiguous"}
STEP = "_expectation_maximization_step"
SHAPES = CAST | {"rearrange", "unsqueeze", "expand", "expand_as", "permute", "transpose", "view", "reshape", "contiguous", "stack", "cat", "repeat_e", "repeat", "squeeze", "flatten", "unflatten",
                 "movedim", "broadcast_to", "T"}


def is_grad(x):
    return x.k == "attr" and x.a[1] == "grad" and any(canon_ll(s).k == "LL" for s in walk(x.a[0]))


def lls(t):
    """children whose likelihood enters the value"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen or shape_only(x):
            continue
        seen.add(x)
        c = canon_ll(x)
        if c.k == "LL":
            out.add(c.a[0])
            continue
        st += [x.a[1], x.a[2]] if x.k == "phi" else children(x)
    return out


def linear(t, param, sign=1, out=None, via=(), g=()):
    """additive decomposition: (sign, kind, detail, ops applied)"""
    if out is None:
        out = []
    if t.k == "op":
        n, a = t.a[0], t.a[1]
        if n in ("add", "sub") and len(a) == 2:
            linear(a[0], param, sign, out, via)
            linear(a[1], param, sign if n == "add" else -sign, out, via)
            return out
        if n == "neg":
            return linear(a[0], param, -sign, out, via)
        if n == "log" and a and a[0].k == "op" and a[0].a[0] in ("mul", "div") and len(a[0].a[1]) == 2:
            x, y = a[0].a[1]
            linear(op("log", (x,)), param, sign, out, via)
            linear(op("log", (y,)), param, sign if a[0].a[0] == "mul" else -sign, out, via)
            return out
        if n == "log" and a and a[0].k == "op" and a[0].a[0] == "exp":
            return linear(a[0].a[1][0], param, sign, out, via)
        if n in SHAPES and a and not (n in ("stack", "cat")):
            return linear(a[0], param, sign, out, via)
    out.append((sign, t))
    return out


def classify(t, param):
    """(kind, problem) of one summand"""
    if t.k == "op" and t.a[0] in ("zeros", "zeros_like", "new_zeros"):
        return "zero", None
    if value_contains(t, is_grad):
        x = t
        bad = None
        if not (x.k == "op" and x.a[0] == "log"):
            # shape operations are already peeled
            return "grad", "the gradient must enter through its logarithm"
        y = x.a[1][0]
        while True:
            if y.k == "op" and y.a[0] in SHAPES | {"clamp", "clamp_min", "maximum", "relu", "nan_to_num"} and y.a[1]:
                y = y.a[1][0]
            elif y.k == "op" and y.a[0] == "add" and len(y.a[1]) == 2 and any(num(z) is not None and 0 <= num(z) <= 1e-6 for z in y.a[1]):
                y = next(z for z in y.a[1] if num(z) is None)
            else:
                break
        ys = [z for _, z in galts(y)] if y.k == "phi" else [y]
        for z in ys:
            if not (is_grad(z) or is_zero(z) or num(z) == 1.0 or is_const(z, None)):
                bad = f"the gradient is changed by {show(z, 3)} before taking its logarithm"
        return "grad", bad
    if value_contains(t, param):
        x = t
        while x.k == "op" and x.a[0] in SHAPES and x.a[1]:
            x = x.a[1][0]
        if x.k == "op" and x.a[0] in ("log_softmax",):
            return "weight", None
        if x.k == "op" and x.a[0] == "log" and x.a[1]:
            y = x.a[1][0]
            while y.k == "op" and (y.a[0] in SHAPES or y.a[0] in ("add", "clamp", "clamp_min")) and y.a[1]:
                y = y.a[1][0]
            if y.k == "op" and y.a[0] == "softmax":
                return "weight", None
        if x.k == "op" and x.a[0] == "mean":
            return "weight", "the weights are averaged"
        return "weight", f"weights enter as {show(x, 3)}"
    ks = lls(t)
    if any(k.k == "self" for k in ks):
        return "own", None if len(ks) == 1 else "mixes own and input likelihoods"
    if ks:
        for x in value_walk(t):
            if canon_ll(x).k == "LL":
                continue
            if x.k == "op" and x.a[0] in ("mean", "exp", "sum", "max", "min", "amax", "detach_", "flip", "roll", "mul", "div", "clamp", "logsumexp", "nan_to_num", "neg", "sub") and lls(x):
                return "child", f"input likelihoods pass through {x.a[0]}"
        return "child", None
    return ("zero", None) if is_zero(t) or num(t) is not None else ("other", None)


def peel_norm(t):
    """(normalisers, batch-summed value): stored value down to the logsumexp over rows"""
    n = []
    while True:
        if t.k == "op" and t.a[0] in ("log_softmax", "softmax") and t.a[1]:
            n.append(t)
            t = t.a[1][0]
        elif t.k == "op" and t.a[0] == "sub" and len(t.a[1]) == 2 and t.a[1][1].k == "op" and t.a[1][1].a[0] == "logsumexp" and core(t.a[1][1].a[1][0]) is core(t.a[1][0]):
            n.append(t)
            t = t.a[1][0]
        elif t.k == "op" and t.a[0] in ("exp", "log") and t.a[1]:
            t = t.a[1][0]
        elif t.k == "op" and t.a[0] in SHAPES and t.a[1]:
            t = t.a[1][0]
        else:
            return n, t


def sources(t):
    """the inputs (with their constant position) whose likelihood enters the value"""
    out, seen, st = set(), set(), [(t, None)]
    while st:
        x, pos = st.pop()
        if (x, pos) in seen or shape_only(x):
            continue
        seen.add((x, pos))
        c = canon_ll(x)
        if c.k == "LL":
            k = c.a[0]
            out.add(show(k, 3) + (f"#{pos}" if pos is not None else ""))
            continue
        if x.k == "item" and x.a[1].k == "const" and isinstance(x.a[1].a[0], int) and canon_ll(x.a[0]).k == "LL":
            st.append((x.a[0], x.a[1].a[0]))
            continue
        st += [(y, None) for y in ((x.a[1], x.a[2]) if x.k == "phi" else children(x))]
    return {x for x in out if x != "self"}


def whole_summand(y, x):
    """(gradients replaced) summand including its outer shape operations"""
    return y


def degrad(t, memo=None):
    """replace X.grad by X so that axes are tracked through gradients"""
    m = {x: x.a[0] for x in walk(t) if x.k == "attr" and x.a[1] == "grad"}
    return subst(t, m) if m else t


def who(b):
    return "own" if b.a[0].k == "self" else show(b.a[0], 3)


def pair_dims(dims, param):
    out = set()
    for d in dims or ():
        ps = {i for b, i in d if b is param}
        for b, j in d:
            if b.k == "LL":
                for i in ps:
                    out.add((i, who(b), j))
    return out


def cases(t):
    return [x for _, x in split_on(t, phi_conds(t, self_attr, 3))]


def pairs(ax, t, param):
    return {p for x in cases(t) for p in pair_dims(ax.of(x), param)}


def ll_pairs(ctx, c, ax, param):
    """axis pairing the layer's likelihood uses"""
    r = ctx.run(c, "log_likelihood")
    out = set()
    for x in {y for z in cases(r.value) for y in value_walk(z)}:
        if x.k == "op" and x.a[0] in ("add", "mul") and value_contains(x, param) and lls(x):
            out |= {p for p in pairs(ax, x, param) if p[1] != "own"}
        if x.k == "op" and x.a[0] == "einsum" and value_contains(x, param):
            m = ax.einsum_letters(x)
            if m:
                out |= pair_dims(m[0].values(), param)
    a = ax.of(r.value)
    for j, d in enumerate(a or ()):
        out |= {(i, "own", j) for b, i in d if b is param}
    return out


def groups(ax, t, param, split, ctxdims=None):
    """order of the parameter axes inside merged (split=False) or split (split=True) channel groups"""
    out = set()
    for x in value_walk(t):
        if not (x.k == "op" and x.a[0] == "rearrange" and x.a[1]):
            continue
        p = kwd(x).get("pattern")
        if p is None or p.k != "const":
            continue
        l, r = parse_pattern(p.a[0])
        src, dst = (r, l) if not split else (l, r)
        a = ax.of(x.a[1][0]) if not split else ctxdims
        if a is None or len(a) != len(dst):
            continue
        where = {g[0]: i for i, g in enumerate(dst) if len(g) == 1}
        for g in src:
            if len(g) > 1 and all(n in where for n in g):
                order = tuple(tuple(sorted(i for b, i in a[where[n]] if b is param)) for n in g)
                if all(order):
                    out.add(order)
    return out


def em_raises(r):
    return not r.returns


def check(ctx, chk):
    ix = ctx.ix
    mixtures = {}
    for c in mix_classes(ctx):
        gr = ctx.run(c, (ix.find_method(c, "log_weights") or ix.find_method(c, "weights")).name)
        ps = [x for x in value_walk(gr.value) if self_attr(x) and "logits" in x.a[1]]
        if ps:
            mixtures[c] = ps[0]
    for c in ctx.modules():
        f = ix.find_method(c, STEP)
        if f is None or ctx.Leaf in ix.mro(c):
            continue
        r = ctx.run(c, STEP)
        W = f"{f.file}:{f.line}"
        con = f"{c.name}.{STEP}"
        if not r.returns:
            continue
        # ---- reach
        calls, seen = {}, set()
        for e in r.events:
            if e.kind != "call" or e.name != STEP or e.recv is None or e.recv.k == "self":
                continue
            for g, rc in galts(e.recv, e.guards)[:8]:
                k = child_of(rc)
                if k is None and rc.k == "attr" and rc.a[0].k == "self":
                    k = (rc.a[1], None)
                if k is not None:
                    calls.setdefault(k[0], []).append((k[1], g, e))
            kw = e.kwargs
            dt = kw.get("data")
            ref = [x.kwargs.get("data") for x in ctx.run(c, "log_likelihood").events if x.kind == "call" and x.name == "log_likelihood" and x.recv is e.recv and x.kwargs.get("data") is not None]
            raw = any(is_param(core(z, PLAIN)) for y in ref for _, z in galts(y)) or not ref
            okd = dt is not None and (is_param(core(dt, PLAIN), "data") and raw or any(subst_params(y) is subst_params(dt) or fname(y) is not None and fname(y) == fname(dt) and not raw for y in ref))
            chk.ob("step-data", con, okd, e.where, f"an input's EM step must get the same data the likelihood was computed on, gets {show(dt, 4) if dt is not None else None}")
            chk.ob("step-cache", con, is_param(kw.get("cache", T("none")), "cache"), e.where, "an input's EM step must read the same cache")
            chk.ob("step-options", con, is_param(kw.get("bias_correction", T("none")), "bias_correction"), e.where, "bias_correction must be handed on")
        held = [h.split(".")[-1] for h in held_children(ctx, c)] or list(calls)
        for h in held:
            for e in truncating(r, h, f) if h in calls else []:
                chk.ob("all-inputs-reached", f"{con}:{h}", False, e.where, "the iteration over the inputs is cut short by a counter of another length")
            if h not in calls:
                if f.cls is ctx.Module and not any(k in held for k in calls):
                    continue  # unsupported: the inherited step raises
                if h in ("components", "monotone") or calls and h == "inputs" and any(k in ("root_node", "module") for k in calls):
                    continue
                chk.ob("input-reached", f"{con}:{h}", False, W, f"the EM step never reaches {h}")
                continue
            ks = calls[h]
            for st, v in r.returns:
                gs = list(st)
                ok = covered(gs, [k[1] for k in ks], no_inputs)
                if not ok:
                    # a fixed wrapper weight may be left alone when its only learnable input is reached
                    alt = [k[1] for h2, k2 in calls.items() if h2 != h for k in k2]
                    flags = {x for _, g, _ in ks for q, _ in g for x in bool_atoms(q) if self_attr(x) and ("learn" in x.a[1] or "train" in x.a[1])}
                    ok = bool(alt) and covered(gs, [k[1] for k in ks] + alt, no_inputs) and any(
                        (x, False) in gs or covered(gs + [(x, True)], [k[1] for k in ks], no_inputs) for x in flags)
                chk.ob("input-reached", f"{con}:{h}", ok, W, f"a returning path does not reach {h}")
            pos = [k[0] for k in ks if k[0] is not None]
            lst = [k[0] for k in ks if k[0] is not None and k[0].k != "const"]
            if lst or pos and not any(k[0] is None for k in ks):
                ok, why = covers(pos, T("attr", T("self"), h))
                chk.ob("all-inputs-reached", f"{con}:{h}", ok, W, why)
            if pos and all(p.k == "const" for p in pos):
                for n in sorted({0, 1} | {p.a[0] for p in pos}):
                    ev = [k[1] for k in ks if k[0] is None or k[0].a[0] == n]
                    for st, v in r.returns:
                        chk.ob("input-reached", f"{con}:{h}[{n}]", covered(list(st), ev, no_inputs), W, f"a returning path does not reach {h}[{n}]")
        # ---- mixture update
        param = mixtures.get(c)
        if param is None:
            continue
        ups = [e for e in em_updates(r, param)]
        direct = [e for e in ups if (e.args if e.kind == "call" else e.term is not None)]
        chk.ob("weights-updated", con, bool(direct), W, "the EM step never re-estimates the mixture weights")
        for st, v in r.returns:
            chk.ob("weights-updated", con, covered(list(st), [e.guards for e in direct], lambda q: None), W, "a returning path leaves the mixture weights untouched")
        getter = ctx.run(c, (ix.find_method(c, "log_weights") or ix.find_method(c, "weights")).name)
        ax = new_axes(ctx, c, param)
        ax.learn_ranks([degrad(e.term) for e in ups if e.term is not None])
        want = ll_pairs(ctx, c, ax, param)
        done = set()
        for e in direct:
            t = e.args[-1] if e.kind == "call" else e.term
            if t in done or not value_contains(t, is_grad) and not lls(t):
                if t not in done:
                    chk.ob("m-step", con, False, e.where, f"stored weights do not stem from the expectations: {show(t, 4)}")
                continue
            done.add(t)
            for g, v in value_alts(t, e.guards)[:8]:
                norms, s = peel_norm(v)
                chk.ob("m-step", con, len(norms) == 1, e.where, "expectations must be normalised once")
                N = norm_axes(ax, getter.value, param)
                for y in norms:
                    a, d = ax.of(degrad(y.a[1][0])), ax.dims(y) if y.a[0] != "sub" else ax.dims(y.a[1][1])
                    if a is None or d in (None, "?") or not N or not N[0]:
                        continue
                    try:
                        o = paxes(frozenset().union(*[a[i] for i in d]), param)
                    except IndexError:
                        continue
                    if o:
                        chk.ob("m-step", con, o == set(N[0]), e.where, f"expectations are normalised over weight axes {sorted(o)}, the mixture axis is {sorted(N[0])}")
                chain = []
                while s.k == "op" and (s.a[0] == "logsumexp" or s.a[0] in SHAPES) and s.a[1]:
                    if s.a[0] == "logsumexp":
                        chain.append(s)
                    s = s.a[1][0]
                chk.ob("batch-summed", con, bool(chain), e.where, f"expectations must be log-summed over the rows, found {show(s, 3)}")
                if not chain:
                    continue
                y = s
                yd = degrad(y)
                rows = False
                unk = False
                for l in chain:
                    a, d = ax.of(degrad(l.a[1][0])), ax.dims(l)
                    if a is None or d in (None, "?"):
                        unk = True
                        continue
                    for i in d:
                        try:
                            o = a[i]
                        except IndexError:
                            unk = True
                            continue
                        if any(b.k == "LL" and j == 0 for b, j in o):
                            rows = True
                        chk.ob("batch-summed", con, not any(b is param for b, j in o), e.where, "expectations of different weights may not be summed together")
                if not unk:
                    chk.ob("batch-summed", con, rows, e.where, "the row axis is not summed out")
                kinds = {}
                for sg, x in linear(y, param):
                    for _, z in value_alts(x)[:6]:
                        if is_const(z, None):
                            continue
                        k, bad = classify(z, param)
                        kinds.setdefault(k, set()).add((sg, x))
                        if k == "weight" and bad == "the weights are averaged":
                            chk.ob("weights-averaged", con, False, e.where, "the E-step uses the average of the log-weights over kernel positions")
                        else:
                            chk.ob("e-step", con, bad is None and k != "other", e.where, bad or f"unexpected summand {show(z, 3)}")
                one = lambda k, s_: len(kinds.get(k, ())) == 1 and all(q[0] == s_ for q in kinds[k])
                chk.ob("e-step", con, one("weight", 1), e.where, "expectations contain the own log-weights exactly once")
                chk.ob("e-step", con, one("grad", 1), e.where, "expectations contain the log of the root gradient exactly once")
                chk.ob("e-step", con, one("own", -1), e.where, "expectations are divided by the own likelihood exactly once")
                kid = kinds.get("child", set())
                chk.ob("e-step", con, bool(kid) and all(q[0] == 1 for q in kid), e.where, "expectations are multiplied by the inputs' likelihoods")
                have = set()
                for sg, x in kid:
                    for k in lls(x):
                        have.add(k)
                ref = sources(ctx.run(c, "log_likelihood").value)
                hv = set().union(*[sources(x) for _, x in kid]) if kid else set()
                chk.ob("e-step", con, not ref or hv >= ref, e.where, f"inputs missing from the expectations: {sorted(ref - hv)}")
                rep = lambda t_: any(x.k == "op" and x.a[0] in ("repeat_e", "expand", "expand_as", "repeat") and lls(x) for x in value_walk(t_))
                if rep(ctx.run(c, "log_likelihood").value):
                    chk.ob("inputs-broadcast", con, any(rep(x) for _, x in kid), e.where, "log_likelihood broadcasts narrow inputs, the EM step does not")
                got = pairs(ax, yd, param)
                gi, wi = {p for p in got if p[2] != 0}, {p for p in want if p[2] != 0}
                for kind in sorted({p[1] for p in wi}):
                    a_, b_ = {p for p in gi if p[1] == kind}, {p for p in wi if p[1] == kind}
                    a_ = {p for p in a_ if p[2] in {q[2] for q in b_}}
                    if b_ and any(p[1] == kind for p in gi):
                        chk.ob("axes-paired", f"{con}:{kind}", bool(a_) and a_ <= b_, e.where,
                               f"weights axis paired with likelihood axis {sorted((p[0], p[2]) for p in a_)} in EM but {sorted((p[0], p[2]) for p in b_)} in log_likelihood")
                dims = ax.of(yd)
                g1 = groups(ax, ctx.run(c, "log_likelihood").value, param, False)
                for sg, x in kinds.get("own", set()) | kinds.get("grad", set()):
                    g2 = groups(ax, whole_summand(yd, x), param, True, dims)
                    if g1 and g2:
                        chk.ob("channel-order", con, g2 <= g1, e.where, f"output channels are merged in the order {sorted(g1)} but split in the order {sorted(g2)}")
    check_shared(ctx, chk, mixtures)
    check_leaves(ctx, chk)
    check_driver(ctx, chk)
    chk.floor("e-step", 3)
    chk.floor("input-reached", 10)


def check_shared(ctx, chk, mixtures):
    """a mixture reached through several parents must be re-estimated once per step"""
    for c in mixtures:
        f = ctx.ix.find_method(c, STEP)
        r = ctx.run(c, STEP)
        if not r.returns:
            continue
        ups = [e for e in em_updates(r, mixtures[c])]
        ok = any(all(any(x.k == "self" for x in walk(g)) and g.k == "op" and g.a[0] in ("in", "notin") for g, b in e.guards[:1]) and e.guards for e in ups)
        chk.ob("once-per-step", f"{c.name}.{STEP}", ok, f"{f.file}:{f.line}", "a mixture shared by several parents is re-estimated once per parent within one step")


def no_inputs(c):
    """conditions under which there is nothing to reach"""
    return None


def subst_params(t):
    """parameters of different methods compared by name"""
    if t is None:
        return None
    m = {x: T("sym", x.a[1]) for x in walk(t) if x.k == "param"}
    return subst(t, m)


def root_names(ks):
    out = set()
    for k in ks:
        while k.k in ("elem", "item", "idx") or k.k == "call" and k.a[1]:
            k = k.a[1][0] if k.k == "call" else k.a[0]
        while k.k == "attr" and k.a[0].k == "attr":
            k = k.a[0]
        out.add(show(k, 2))
    return out


def check_leaves(ctx, chk):
    ix = ctx.ix
    seen = set()
    for c in ctx.leaves():
        f = ix.find_method(c, STEP)
        if f is None:
            continue
        r = ctx.run(c, STEP)
        W = f"{f.file}:{f.line}"
        con = f"{c.name}.{STEP}"
        if not r.returns:
            continue
        fits = [e for e in r.events if e.kind == "call" and e.recv is not None and e.recv.k == "self" and e.name in ("maximum_likelihood_estimation", "_mle_update_statistics", "mle")]
        if not fits:
            pars = [e for e in ctx.run(c, "__init__").events if e.kind == "call" and e.name == "Parameter" and not is_const((e.kwargs or {}).get("requires_grad", const(True)), False)]
            pr = [e for e in ctx.run(c, "__init__").events if e.kind in ("store_attr",) and e.term is not None and value_contains(e.term, lambda s: s.k in ("call", "op") and str(s.a[0] if s.k == "op" else s.a[0].a[-1]).endswith("Parameter"))]
            chk.ob("leaf-fit", con, not pars and not pr, W, "the leaf has learnable parameters but its EM step does not fit them")
            continue
        if f.qual in seen:
            pass
        seen.add(f.qual)
        fixed = lambda q: (True if any_requires(q) else None)
        for st, v in r.returns:
            chk.ob("leaf-fit", con, covered([(g, b) for g, b in st if any_requires(g) is None or b == any_requires(g)] if not skip_path(st) else [], [e.guards for e in fits], fixed) or skip_path(st), W,
                   "a returning path with learnable parameters does not fit the leaf")
        for e in fits:
            kw = e.kwargs
            chk.ob("leaf-data", con, is_param(core(kw.get("data", T("none"))), "data"), e.where, "the leaf must be fitted on the data of this step")
            chk.ob("leaf-data", con + ":bias_correction", is_param(kw.get("bias_correction", T("none")), "bias_correction"), e.where, "bias_correction must be handed on")
            w = kw.get("weights")
            chk.ob("leaf-responsibilities", con, w is not None and value_contains(w, is_grad) and all(k.k == "self" for k in lls(w)) and bool(lls(w)), e.where, "responsibilities must be the gradient of the leaf's own cached likelihood")
            if w is None or not value_contains(w, is_grad):
                continue
            div = [x for x in value_walk(w) if x.k == "op" and x.a[0] in ("div", "div_") and len(x.a[1]) == 2 and value_contains(x.a[1][0], is_grad)]
            for x in div:
                d = x.a[1][1]
                ok = d.k == "op" and d.a[0] == "sum" and core(d.a[1][0]) is core(x.a[1][0])
                dm = kwd(d).get("dim") if d.k == "op" else None
                ok = ok and dm is not None and num(dm) == 0 and is_const(kwd(d).get("keepdim", const(True)), True)
                chk.ob("leaf-responsibilities", con, ok, e.where, "responsibilities are normalised over the rows, per feature, channel and repetition")
            chk.ob("leaf-responsibilities", con, not any(x.k == "op" and x.a[0] in ("neg", "exp", "log", "sqrt", "pow", "square", "abs", "softmax", "max", "mean", "flip") and value_contains(x, is_grad) for x in value_walk(w)),
                   e.where, f"responsibilities are changed: {show(w, 4)}")


def any_requires(c):
    neg = False
    while c.k == "op" and c.a[0] in ("not", "not_"):
        neg, c = not neg, c.a[1][0]
    if c.k == "op" and c.a[0] in ("eq", "ne", "gt", "lt", "le", "ge") and any(is_zero(x) for x in c.a[1]):
        n = c.a[0] if is_zero(c.a[1][1]) else {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(c.a[0], c.a[0])
        pos = {"eq": False, "ne": True, "gt": True, "le": False}.get(n)
        if pos is None:
            return None
        neg = neg == pos
    if contains(c, lambda s: s.k == "attr" and s.a[1] == "requires_grad"):
        all_ = fname(c) == "all"
        return None if all_ else (not neg)
    return None


def fname(t):
    if t.k == "op":
        return t.a[0]
    if t.k == "call":
        return str(t.a[0].a[-1]).split(".")[-1]
    return None


def skip_path(st):
    return any(any_requires(g) is not None and b != any_requires(g) for g, b in st)


def check_driver(ctx, chk):
    ix = ctx.ix
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.cls is not None or not any(isinstance(n, ast.Attribute) and n.attr == "log_likelihood" for n in ast.walk(f.node)):
            continue
        if not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(f.node)):
            continue
        if "expectation" not in f.module.rel and "em" not in f.name:
            continue
        r = ctx.run_func(f)
        steps = [(i, e) for i, e in enumerate(r.events) if e.kind == "call" and e.name == STEP and e.recv is not None and e.recv.k == "param"]
        if not steps:
            continue
        W = f"{f.file}:{f.line}"
        con = f.name
        caches = [e for e in r.events if e.kind == "call" and e.name == "Cache"]
        for i, s in steps:
            kw = s.kwargs
            ct = kw.get("cache")
            ev = [(j, e) for j, e in enumerate(r.events) if e.kind == "call" and e.name == "log_likelihood" and e.recv is s.recv]
            good = [(j, e) for j, e in ev if e.kwargs.get("cache") is ct and e.kwargs.get("data") is kw.get("data") and ct is not None]
            chk.ob("driver-evaluates", con, bool(good) and min(j for j, _ in good) < i, s.where, "each step must follow an evaluation of the same data into the same cache")
            if kw.get("data") is not None:
                chk.ob("driver-evaluates", con + ":data", kw["data"].k == "param" or kw["data"].k in ("phi", "elem", "item", "op"), s.where, "")
            chk.ob("driver-options", con, is_param(kw.get("bias_correction", T("none")), "bias_correction"), s.where, "bias_correction must be handed on")
            chk.ob("driver-fresh-cache", con, len(caches) == len(steps) and fresh(ctx, caches, r, s), s.where, "every step needs its own fresh cache")
            if not good:
                continue
            ll = good[0][1].term
            bw = [(j, e) for j, e in enumerate(r.events) if e.kind == "call" and e.name == "backward" and e.recv is not None and value_contains(e.recv, ll)]
            chk.ob("driver-backward", con, bool(bw) and good[0][0] < bw[0][0] < i, s.where, "the summed likelihood must be back-propagated between evaluation and step")
            for j, e in bw:
                x = core(e.recv)
                chk.ob("driver-backward", con, x.k == "op" and x.a[0] == "sum" and x.a[1][0] is ll and kwd(x).get("dim") is None, e.where, f"the plain sum of the log-likelihoods must be back-propagated, not {show(x, 3)}")
                chk.ob("driver-backward", con, all(any_requires(g) is not None and any_requires(g) == b for g, b in e.guards if (g, b) not in s.guards), e.where, "backward may only be skipped when nothing requires gradients")
            rg = [(j, e) for j, e in enumerate(r.events) if e.kind == "call" and e.name == "retain_grad" and e.recv is not None and contains(e.recv, ct)]
            chk.ob("driver-retain", con, bool(rg) and bool(bw) and good[0][0] < rg[0][0] < bw[0][0], s.where, "gradients of all cached likelihoods must be retained before back-propagation")
            for j, e in rg:
                chk.ob("driver-retain", con, all(any_requires(g) == b if any_requires(g) is not None else contains(g, lambda q: q.k in ("call", "op") and "is_tensor" in str(q.a[0].a[-1] if q.k == "call" else q.a[0]) or q.k == "call" and "isinstance" in str(q.a[0].a[-1]))
                                                    for g, b in e.guards if g.k != "forall" and (g, b) not in s.guards), e.where, "gradients of every cached likelihood are needed")
            # history
            for e in r.events:
                if e.kind == "call" and e.name == "append" and e.args:
                    for g, v in value_alts(e.args[0])[:6]:
                        v = core(v)
                        if not lls(v) and not value_contains(v, ll):
                            continue
                        ok = v.k == "op" and v.a[0] == "div" and value_contains(v.a[1][0], ll) and contains(v.a[1][1], lambda q: q.k == "attr" and q.a[1] == "shape" or q.k == "op" and q.a[0] in ("size", "numel") or q.k == "call" and str(q.a[0].a[-1]) == "len") \
                            or v.k == "op" and v.a[0] == "mean"
                        if ok and v.a[0] == "div":
                            ok = accumulates(v.a[1][0]) == accumulates(v.a[1][1])
                        chk.ob("driver-history", con, ok, e.where, f"the history holds the average log-likelihood, not {show(v, 3)}")
            # convergence
            exits = dict.fromkeys((g, b) for e in r.events if e.kind in ("break", "return") and e.loops and e.loops == s.loops for g, b in e.guards if (g, b) not in s.guards and g.k != "forall")
            exits.update(dict.fromkeys((g.a[1], not truth(g.a[2])) for st, v in r.returns for g, b in st if g.k == "forall" and len(g.a) >= 3))
            for x, stop in exits:
                while x.k == "op" and x.a[0] in ("not", "not_"):
                    stop, x = not stop, x.a[1][0]
                for y in x.a[1] if x.k == "op" and x.a[0] in ("and", "or") and stop else (x,):
                    if not (y.k == "op" and y.a[0] in ("le", "lt", "ge", "gt", "eq", "ne") and len(y.a[1]) == 2):
                        continue
                    a, b = y.a[1]
                    pa, pb = prev_of(a), prev_of(b)
                    if pa == pb or not (value_contains(a, ll) or value_contains(b, ll)):
                        continue
                    n = y.a[0] if pb else {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(y.a[0], y.a[0])
                    if not stop:
                        n = {"gt": "le", "le": "gt", "ge": "lt", "lt": "ge", "eq": "ne", "ne": "eq"}[n]
                    chk.ob("driver-convergence", con, n in ("le", "lt"), s.where, "training stops only when the average log-likelihood no longer increases")
    chk.floor("driver-evaluates", 1)


def accumulates(t):
    return any(x.k == "op" and x.a[0] == "add" and len(x.a[1]) == 2 and any(y.k == "phi" or is_zero(y) for y in x.a[1]) for x in walk(t))


def truth(x):
    return x.a[0] if isinstance(x, T) and x.k == "const" else bool(x)


def prev_of(t):
    return t.k == "phi" and t.a[0].k == "sym" and contains(t.a[0], lambda s: s.k == "sym") and "loopcarried" in show(t.a[0], 1) or t.k == "phi" and "loopcarried" in show(t.a[0], 1)


def fresh(ctx, caches, r, s):
    for e in caches:
        fn = e.func.node
        loops = []

        def rec(n, stack):
            for ch in ast.iter_child_nodes(n):
                st = stack + [ch] if isinstance(ch, (ast.For, ast.While)) else stack
                if ch is e.node:
                    loops.append(("ctor", st))
                if isinstance(ch, ast.Call) and (isinstance(ch.func, ast.Attribute) and ch.func.attr in (STEP, "log_likelihood") or any(isinstance(a, ast.Name) and "cache" in a.id for a in list(ch.args) + [k.value for k in ch.keywords])):
                    loops.append(("use", st))
                rec(ch, st)
        rec(fn, [])
        ctor = [x for k, x in loops if k == "ctor"]
        uses = [x for k, x in loops if k == "use"]
        if not ctor:
            return False
        for u in uses:
            if len(u) > len(ctor[0]) or u[:len(ctor[0])] != ctor[0][:len(u)]:
                return False
    return True
