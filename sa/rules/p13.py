"""MPE is deterministic; sampling options reach every sub-circuit."""
import ast
from ..lib import *
from .. import tree
from ..ip import uncast
from .p11 import sites, weighty, choose

ID = "P13"
TITLE = "Most-probable completions are deterministic; sampling options reach everywhere"
EXPL = ("Guard and option dataflow over all sampling code: every random draw is dominated by 'not most-probable' (or happens in a helper that is told so); arg-max choices use the same scores as the draws; "
        "leaf modes are defined for every parameter value and equal their closed forms (normal forms; arg-max operand and index matching); is_mpe, is_differentiable, temperature and leaf-parameter recording given to sample/mpe/sample_with_evidence are stored in the context, copied to every derived context, and passed unchanged to every drawing and indexing helper.")
ASSUME = ("torch distributions draw only in sample/rsample",)
RNG = {"rand", "randn", "randint", "randperm", "multinomial", "rand_like", "randn_like", "randint_like", "bernoulli", "normal_", "uniform_", "exponential_",
       "bernoulli_", "sample", "rsample", "gumbel_softmax", "poisson", "normal", "sample_gumbel", "random_", "choice", "shuffle", "permutation"}
OPTS = {"is_mpe": "is_mpe", "is_differentiable": "is_differentiable", "tau": "tau"}


def mpe_flag(t):
    return t.k == "attr" and t.a[1] == "is_mpe" or t.k == "param" and t.a[1] in ("is_mpe", "mpe")


def no_mpe(guards):
    """is 'not most-probable' implied by the guards?"""
    def implies(c, b):
        if mpe_flag(c):
            return not b
        if c.k == "op":
            n, a = c.a[0], c.a[1]
            if n in ("not", "not_", "bool"):
                return implies(a[0], b if n == "bool" else not b)
            if n in ("and", "and_") and b or n in ("or", "or_") and not b:
                return any(implies(x, b) for x in a)
            if n in ("is", "eq") and len(a) == 2 and a[1].k == "const" and isinstance(a[1].a[0], bool):
                return implies(a[0], b == a[1].a[0])
        if c.k == "call" and str(c.a[0].a[-1]).split(".")[-1] == "bool" and c.a[1]:
            return implies(c.a[1][0], b)
        return False
    return any(implies(c, b) for c, b in guards)


def option(v, name):
    """value is the option of the context / the caller's parameter of that name"""
    v = core(v)
    if v.k == "call" and str(v.a[0].a[-1]).split(".")[-1] in ("bool", "float") and v.a[1]:
        v = v.a[1][0]
    if v.k == "attr" and v.a[1] == name:
        return True
    if v.k == "param" and (v.a[1] == name or v.a[1] == name.replace("is_", "")):
        return True
    return False


def kwargs_of(ctx, e, helper):
    """arguments of a call to a package function, by parameter name"""
    out = dict(e.kwargs)
    names = [a.arg for a in helper.node.args.posonlyargs + helper.node.args.args]
    for n, v in zip(names, e.args):
        out.setdefault(n, v)
    return out


def check(ctx, chk):
    tree.run(ctx, chk, True)
    ix = ctx.ix
    helpers = {f.name: f for f in ix.functions.values() if f.qual in ctx.sc_funcs}
    opt_of = {n: [p for p in ("is_mpe", "is_differentiable", "tau") if p in [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]] for n, f in helpers.items()}
    done = set()
    for c in ctx.modules():
        for m in ("_sample", "sample", "mpe", "sample_with_evidence"):
            f = ix.find_method(c, m)
            if f is None or f.cls is ctx.Module and m == "_sample":
                continue
            if f.cls is ctx.Module and m != "_sample":
                continue
            r = ctx.run(c, m)
            for e in r.events:
                if e.kind != "call":
                    continue
                con = f"{c.name}.{m}:{e.name}"
                if e.name in RNG and not (e.name in ("sample", "rsample") and is_module_sample(e)) and not e.inlined:
                    chk.ob("random-only-when-sampling", con, no_mpe(e.guards), e.where, "random draw reachable in a most-probable query")
                if e.name in helpers and opt_of[e.name]:
                    kv = kwargs_of(ctx, e, helpers[e.name])
                    for p in opt_of[e.name]:
                        v = kv.get(p)
                        ok = v is not None and (option(v, p) or decided(e.guards, p, v))
                        chk.ob("option-passed", f"{con}:{p}", ok, e.where, f"{p} must be the context's {p}")
                if e.name in ("distribution", "conditional_distribution") and e.recv is not None and e.recv.k == "self" and m == "_sample":
                    v = e.kwargs.get("with_differentiable_sampling")
                    if v is None and e.args:
                        v = e.args[-1]
                    ok = v is not None and (option(v, "is_differentiable") or any(g.k == "attr" and g.a[1] == "is_differentiable" and not b for g, b in e.guards))
                    chk.ob("option-passed", f"{con}:with_differentiable_sampling", ok, e.where, "the distribution must be told whether sampling is differentiable")
            # the arg-max picks from the scores the draw uses
            ss = [(w, mx) for e, w, k, mx in sites(r) if weighty(w)]
            dr = [w for w, mx in ss if not mx]
            for w, mx in ss:
                if mx and dr:
                    chk.ob("argmax-same-scores", f"{c.name}.{m}", any(mono(w) is mono(x) for x in dr), f"{f.file}:{f.line}", "the most probable choice must maximise what the draw is drawn from")
    # public entry points
    for c in sorted({x for x in ix.classes.values() if ctx.Module in ix.mro(x)}, key=lambda x: x.qual):
        for m in ("sample", "mpe", "sample_with_evidence"):
            f = c.methods.get(m)
            if f is None:
                continue
            params = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
            r = ctx.run(c, f)
            W = f"{f.file}:{f.line}"
            if not r.returns:
                continue
            if "is_mpe" not in params and m != "mpe":
                continue
            for e in r.events:
                if e.kind != "call":
                    continue
                con = f"{c.name}.{m}->{e.name}"
                if e.name == "SamplingContext" or e.name in ("sample", "mpe", "sample_with_evidence") and is_module_sample(e):
                    for p in ("is_mpe", "return_leaf_params", "is_differentiable", "tau"):
                        if m == "mpe" and p == "is_mpe" and e.name != "mpe":
                            v = e.kwargs.get(p)
                            chk.ob("mpe-requested", con, v is not None and (is_const(v, True) or option(v, p)), e.where, "mpe must request most-probable completion")
                        elif p in params and (e.name != "mpe" or p != "is_mpe"):
                            v = e.kwargs.get(p)
                            refused = any(contains(g, lambda s: s.k == "param" and s.a[1] == p) for g, b in e.guards)
                            chk.ob("option-forwarded", f"{con}:{p}", v is not None and option(v, p) or refused, e.where, f"{p} must be forwarded as given")
    # other functions taking the option (encoders, helpers)
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.cls is not None and ctx.Module in ix.mro(f.cls) or f.cls is ctx.SC or f.qual in ctx.sc_funcs or f.kind == "lambda" or ".<locals>." in f.qual:
            continue
        params = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
        fl = [p for p in ("is_mpe", "mpe") if p in params]
        if not fl:
            continue
        r = ctx.run_func(f, f.cls, max_depth=1)
        for e in r.events:
            if e.kind != "call":
                continue
            con = f"{f.cls.name + '.' if f.cls else ''}{f.name}->{e.name}"
            if e.name in ("SamplingContext",) or e.name in ("sample", "_sample_model", "sample_with_evidence") and is_module_sample(e):
                v = e.kwargs.get("is_mpe", e.kwargs.get("mpe"))
                ok = v is not None and option(v, "is_mpe") or any(mpe_flag(g) for g, b in e.guards)
                chk.ob("option-forwarded", f"{con}:is_mpe", ok, e.where, "is_mpe must be forwarded as given")
            elif e.callee is not None and not e.inlined and any(p in [a.arg for a in e.callee.node.args.args + e.callee.node.args.kwonlyargs] for p in ("is_mpe", "mpe")):
                v = e.kwargs.get("is_mpe", e.kwargs.get("mpe"))
                if v is None and e.args:
                    kv = kwargs_of(ctx, e, e.callee)
                    v = kv.get("is_mpe", kv.get("mpe"))
                ok = v is not None and option(v, "is_mpe") or any(mpe_flag(g) for g, b in e.guards)
                chk.ob("option-forwarded", f"{con}:is_mpe", ok, e.where, "is_mpe must be forwarded as given")
    # leaves answer most-probable queries with the mode of their distribution
    seen = set()
    for c in ctx.leaves():
        f = ix.find_method(c, "_sample")
        if f is None or f.qual in seen:
            continue
        seen.add(f.qual)
        r = ctx.run(c, "_sample")
        if not any(e.kind == "call" and e.name in ("distribution", "conditional_distribution") for e in r.events):
            continue
        for e in r.events:
            if e.kind == "store_item" and may_alias(e.target, lambda s: is_param(s, "data")) and e.term is not None:
                fl = [s for s in walk(e.term) if mpe_flag(s)]
                if not fl:
                    continue
                v = specialise(e.term, tuple((s, True) for s in set(fl)))
                drawn = specialise(e.term, tuple((s, False) for s in set(fl)))
                stat = lambda s: s.k == "attr" and s.a[1] in ("mode", "mean", "median") or s.k == "call" and str(s.a[0].a[-1]).split(".")[-1] in ("mode", "mean", "median")
                if value_contains(v, stat) or value_contains(drawn, lambda s: s.k == "call" and "sample" in str(s.a[0].a[-1])):
                    used = {s.a[1] if s.k == "attr" else str(s.a[0].a[-1]) for s in value_walk(v) if stat(s)}
                    chk.ob("leaf-mode", f"{f.cls.name}._sample", used == {"mode"}, e.where, "a most-probable query must return the distribution's mode")
    # contexts
    init, wr = ctx.SC.methods.get("__init__"), ctx.SC.methods.get("with_routing")
    r = ctx.run_func(init, ctx.SC, sampling_opaque=False)
    held = {}
    for e in r.events:
        if e.kind == "store_attr" and e.target is not None and e.target.k == "self":
            src = {s.a[1] for s in walk(e.term) if s.k == "param"}
            for p in ("is_mpe", "is_differentiable", "tau", "return_leaf_params", "leaf_param_records"):
                if p in src and e.term is not None and not contains(e.term, lambda s: s.k == "param" and s.a[1] in ("channel_index", "num_samples")):
                    held.setdefault(e.idx, set()).add(p)
                    v = core(e.term)
                    if p != "leaf_param_records":
                        chk.ob("context-keeps", f"SamplingContext.{p}", option(e.term, p), e.where, f"the context must keep {p} as given")
    chk.ob("context-holds", "SamplingContext.__init__", len({x for s in held.values() for x in s}) == 5, f"{init.file}:{init.line}", f"options kept: {sorted(held)}")
    r = ctx.run_func(wr, ctx.SC, sampling_opaque=True)
    new = [e for e in r.events if e.kind == "store_attr" and e.target is not None and e.target.k != "self"]
    ctor = [e for e in r.events if e.kind == "call" and e.name == "SamplingContext"]
    for a, ps in held.items():
        ok = any(e.idx == a and self_attr(core(e.term), a) for e in new) or any(e.kwargs.get(p) is not None and self_attr(core(e.kwargs[p]), a) for e in ctor for p in ps)
        chk.ob("derived-context-keeps", f"SamplingContext.with_routing:{a}", ok, f"{wr.file}:{wr.line}", f"a derived context must keep {a}")
    ok = any(e.idx == "_repetition_index" and value_contains(e.term, lambda s: self_attr(s) and "repetition_index" in s.a[1]) for e in new) or any("repetition_index" in e.kwargs for e in ctor)
    chk.ob("derived-context-keeps", "SamplingContext.with_routing:repetition_index", ok, f"{wr.file}:{wr.line}", "a derived context must keep the repetition choice")
    # drawing helpers
    for n, f in sorted(helpers.items()):
        if "is_mpe" not in opt_of[n]:
            continue
        r = ctx.run_func(f, None, sampling_opaque=True)
        for e in r.events:
            if e.kind == "call" and e.name in RNG:
                chk.ob("random-only-when-sampling", f"{n}:{e.name}", no_mpe(e.guards), e.where, "random draw reachable in a most-probable query")
            if e.kind == "call" and e.name in helpers and opt_of[e.name]:
                kv = kwargs_of(ctx, e, helpers[e.name])
                for p in opt_of[e.name]:
                    if p in opt_of[n]:
                        v = kv.get(p)
                        chk.ob("option-passed", f"{n}:{e.name}:{p}", v is not None and option(v, p), e.where, f"{p} must be passed on")
    f = helpers.get("sample_from_logits")
    try:
        modes(ctx, chk)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as e:
        chk.note(f"modes: source shape not analysed ({type(e).__name__}: {e})")
    chk.floor("random-only-when-sampling", 4)
    chk.floor("option-passed", 20)
    chk.floor("option-forwarded", 8)


NAN_MODE = {"Bernoulli": "NaN at probability one half"}


def flat(t):
    """the term without views, casts and copies"""
    while True:
        t = uncast(t)
        if t.k == "op" and t.a[0] in ("squeeze", "unsqueeze", "view", "reshape", "permute", "to", "contiguous", "clone", "detach", "float", "expand", "rearrange", "repeat", "transpose", "movedim") and t.a[1]:
            t = t.a[1][0]
        else:
            return t


def modes(ctx, chk):
    """closed forms of the modes leaves return for most-probable queries"""
    ix = ctx.ix
    done = set()
    for c in ctx.modules():
        for m in ("_torch_distribution_class", "_torch_distribution_class_with_differentiable_sampling"):
            if ix.find_method(c, m) is None:
                continue
            r = ctx.run(c, m)
            if r is None or r.value is None:
                continue
            for v in alts(r.value):
                nm = str(v.a[-1]) if v.k in ("global", "cls", "attr") and v.a else None
                if nm is None:
                    continue
                f = ix.find_method(c, m)
                last = nm.split(".")[-1]
                k = next((x for x in ix.classes.values() if x.name == last), None) if "torch.distributions" not in nm else None
                own = ix.find_method(k, "mode") if k is not None else None
                fam = torch_family(ctx, nm)
                if own is None and fam in NAN_MODE:
                    chk.ob("mode-defined", f"{c.name}.{m}", False, f"{f.file}:{f.line}", f"torch's {fam} mode is {NAN_MODE[fam]}, which leaves the entry unfilled")
                elif own is None and (k is None or fam != last) and fam != "Uniform":  # its mode is not unique
                    chk.ob("mode-defined", f"{c.name}.{m}", True, f"{f.file}:{f.line}", "torch's mode of the family")
                elif own is not None and (own.qual, fam) not in done:
                    done.add((own.qual, fam))
                    mode_formula(ctx, chk, k, own, fam)
    for k in ix.classes.values():
        own = k.methods.get("mode")
        if own is not None and not ctx_is_module(ctx, k) and own.qual not in {q for q, _ in done}:
            mode_formula(ctx, chk, k, own, torch_family(ctx, k.name))


def ctx_is_module(ctx, k):
    return any(b is ctx.Module for b in ctx.ix.mro(k))


def mode_formula(ctx, chk, k, own, fam):
    r = ctx.run(k, "mode")
    where = f"{own.file}:{own.line}"
    vals = [v for g, v in r.returns] if r is not None else []
    if not vals:
        return
    v = vals[0] if len(vals) == 1 else None
    if v is None:
        chk.note(f"mode of {k.name}: several returns")
        return
    fl = flat(v)
    attrs = {s.a[1] for s in walk(fl) if s.k == "attr" and s.a[0].k == "self"}
    if fam == "Bernoulli":
        c = fl
        if c.k == "op" and c.a[0] == "where" and len(c.a[1]) == 3 and num(c.a[1][1]) == 1 and num(c.a[1][2]) == 0:
            c = flat(c.a[1][0])
        lim = {"probs": 0.5, "logits": 0}
        if c.k == "op" and c.a[0] in ("lt", "le") and len(c.a[1]) == 2:
            x, y = (flat(z) for z in c.a[1])
            par = lambda z: z.a[1] if z.k == "attr" and z.a[1] in lim else None
            if par(y) is not None and num(x) is not None:
                ok = num(x) == lim[par(y)]
                chk.ob("mode-formula", k.name, ok, where, "" if ok else "the mode is 1 exactly when success is at least as likely as failure")
                return
            if par(x) is not None and num(y) is not None:
                chk.ob("mode-formula", k.name, False, where, "the mode is 1 for the less likely outcome")
                return
        chk.note(f"mode of {k.name} not recognised")
    elif {"n", "K", "N"} <= attrs:
        from .p53 import same
        same(ctx, chk, "mode-formula", k.name, v, own.module.name, "def ref(self):\n    return torch.floor((self.n + 1) * (self.K + 1) / (self.N + 2))\n", where, cls=k,
             detail="the hypergeometric mode is floor((n + 1)(K + 1) / (N + 2))")
    elif fl.k == "item" or fl.k == "op" and fl.a[0] in ("gather", "index_select", "take", "take_along_dim"):
        base, idx = (fl.a[0], fl.a[1]) if fl.k == "item" else (fl.a[1][0], dict(fl.a[2]).get("index", fl.a[1][-1]))
        arg = [s for s in walk(idx) if s.k == "op" and s.a[0] in ("argmax", "argmin", "max", "min")]
        if not arg:
            chk.note(f"mode of {k.name} not recognised")
            return
        at = flat(idx)
        if at.k == "item" and num(at.a[1]) == 1 or at.k == "attr" and at.a[1] == "indices":
            at = flat(at.a[0])
        ok = arg[0].a[0] in ("argmax", "max") and not (at.k == "op" and at.a[0] in ("add", "sub", "rsub", "neg", "mul", "div", "floordiv"))
        chk.ob("mode-formula", f"{k.name}:arg-max", ok, where, "" if ok else "the mode must be the entry of the largest probability")
        if any(s.k == "attr" and "edges" in s.a[1] for s in walk(base)):
            from .p53 import same
            e = [s for s in walk(base) if s.k == "attr" and "edges" in s.a[1]][0].a[1]
            same(ctx, chk, "mode-formula", f"{k.name}:midpoint", base, own.module.name, f"def ref(self):\n    return (self.{e}[:-1] + self.{e}[1:]) / 2.0\n", where, cls=k, detail="the mode must be the midpoint of the most probable bin")
            sc = flat(arg[0].a[1][0])
            neg = sc.k == "op" and sc.a[0] in ("neg", "rsub", "sub")
            chk.ob("mode-formula", f"{k.name}:scores", not neg and any(s.k == "attr" and "logits" in s.a[1] for s in walk(sc)), where, "the most probable bin must be chosen by the bin probabilities")
    elif {"_mode_values"} & attrs or any(s.k == "attr" and s.a[1] == "_mode_values" for s in walk(fl)):
        g = [s for s in walk(fl) if s.k == "op" and s.a[0] in ("gather", "take_along_dim")]
        if g:
            idx = dict(g[0].a[2]).get("index", g[0].a[1][-1])
            arg = [s for s in walk(idx) if s.k == "op" and s.a[0] in ("argmax", "argmin")]
            if arg:
                inner = arg[0].a[1][0]
                mask = [s for s in walk(inner) if s.k == "op" and s.a[0] in ("masked_fill", "where")]
                chk.ob("mode-formula", f"{k.name}:arg-max", arg[0].a[0] == "argmax", where, "the mode must be the knot of the largest density")
                pad = g[0].a[1][0]
                knots = any(s.k == "op" and s.a[0] == "full" and any(num(z) == float("inf") or "inf" in repr(z) for z in s.a[1][1:]) for s in walk(pad)) and not mask_of(pad)
                chk.ob("mode-formula", f"{k.name}:knots", knots, where, "the mode must be a knot position, read where the largest density was found")
                if mask and mask[0].a[0] == "masked_fill":
                    m = flat(mask[0].a[1][1])
                    if m.k == "op" and m.a[0] in ("lt", "le") and len(m.a[1]) == 2:
                        x, y = m.a[1]
                        rng = lambda z: flat(z).k == "op" and flat(z).a[0] == "arange"
                        ok = m.a[0] == "le" and rng(y) and not rng(x)
                        chk.ob("mode-formula", f"{k.name}:padding", ok, where, "" if ok else "exactly the padding after the last knot must be excluded")


def mask_of(t):
    return any(s.k == "op" and s.a[0] == "zeros" for s in walk(t))


def mono(t):
    """strip rank-preserving transforms along the drawn axis"""
    while True:
        t = core(t)
        if t.k == "op" and t.a[0] in ("softmax", "log_softmax", "exp", "log", "clamp", "clamp_min") and t.a[1]:
            t = t.a[1][0]
        elif t.k == "op" and t.a[0] in ("div", "sub") and t.a[1][1].k == "op" and t.a[1][1].a[0] in ("sum", "logsumexp"):
            t = t.a[1][0]
        else:
            return t


def decided(guards, p, v):
    """constant that agrees with what the guards say about the option"""
    if v.k == "const" and isinstance(v.a[0], bool):
        return any(g.k in ("attr", "param") and g.a[1] == p and b == v.a[0] for g, b in guards)
    return False


def is_module_sample(e):
    """sample of a module, not of a distribution"""
    return any(k in e.kwargs for k in ("num_samples", "data", "cache", "is_mpe")) and not (e.kwargs.get("num_samples") is not None and e.kwargs["num_samples"].k == "tuple")
