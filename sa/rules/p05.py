"""Gradients flow from the log-likelihood to every learnable parameter and every sub-circuit."""
from ..lib import *
from ..axes import canon_ll
from .p04 import value_only

ID = "P05"
TITLE = "The log-likelihood is differentiable in every learnable parameter"
EXPL = ("Dataflow over the value of every module's log_likelihood: every registered parameter and every queried sub-circuit reaches the value, and "
        "no operation that cuts the autograd graph (detach, .data, .item, numpy, re-wrapping in a new tensor, evaluation under no_grad/inference mode) "
        "lies on the path of a value that depends on them; subtracting a detached maximum that is added back is allowed.")
ASSUME = ("torch operations other than the listed ones propagate gradients",)
CUT = {"detach", "item", "tolist", "numpy", "detach_"}
WRAP = {"tensor", "new_tensor", "array"}
NONDIFF = {"argmax", "argmin", "argsort", "sign", "round", "floor", "ceil", "long", "int", "bool", "eq", "ne", "lt", "le", "gt", "ge", "isnan", "isfinite", "isinf",
           "any", "all", "searchsorted", "bucketize", "nonzero", "not_", "and_", "or_", "not", "and", "or", "xor", "is", "isnot", "numel", "count_nonzero"}


def params_of(ctx, c):
    r = ctx.run(c, "__init__")
    out = set()
    for e in r.events:
        if e.kind == "store_attr" and e.target is not None and e.target.k == "self" and e.term is not None:
            for g, a in galts(e.term):
                if a.k == "call" and str(a.a[0].a[-1]).split(".")[-1] == "Parameter" or a.k == "op" and a.a[0] == "Parameter":
                    rg = kwd(a).get("requires_grad")
                    if not (rg is not None and is_const(rg, False)):
                        out.add(e.idx)
        elif e.kind == "call" and e.name == "register_parameter":
            n = e.args[0] if e.args else e.kwargs.get("name")
            if n is not None and n.k == "const":
                out.add(n.a[0])
    return out


def grad_dep(t, params):
    """value depends (differentiably) on a parameter or a child's log-likelihood"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or shape_only(x):
            continue
        seen.add(x)
        if self_attr(x) and x.a[1] in params or canon_ll(x).k == "LL":
            return x
        if x.k == "op" and x.a[0] in NONDIFF:
            continue
        if x.k == "item":
            st.append(x.a[0])
        elif x.k == "phi":
            st += [x.a[1], x.a[2]]
        elif x.k == "idx":
            continue
        else:
            st.extend(children(x))
    return None


def is_max(t):
    t = core(t)
    while t.k == "item" or t.k == "attr" and t.a[1] in ("values",):
        t = t.a[0]
    if t.k == "phi":
        return is_max(t.a[1]) and is_max(t.a[2])
    if t.k == "op" and t.a[0] in ("where", "nan_to_num", "clamp", "masked_fill", "zeros_like", "full_like"):
        return any(is_max(x) for x in t.a[1]) if t.a[0] in ("where",) else bool(t.a[1]) and (t.a[0] in ("zeros_like",) or is_max(t.a[1][0]))
    return t.k == "op" and t.a[0] in ("max", "amax", "maximum")


def check(ctx, chk):
    ix = ctx.ix
    for c in ctx.modules():
        f = ix.find_method(c, "log_likelihood")
        if f is None or f.cls is ctx.Module:
            continue
        r = ctx.run(c, "log_likelihood")
        if r.value is None or all(a.k in ("raise",) for a in alts(r.value)):
            continue
        con, where = f"{c.name}.log_likelihood", f"{f.file}:{f.line}"
        ps = params_of(ctx, c)
        reach = set()
        vals = set(value_only(r.value))
        for x in vals:
            if self_attr(x):
                reach.add(x.a[1])
        real = [a for a in alts(r.value) if a.k not in ("undef",) and not is_const(a, None)]
        if real and not all(e.kind == "raise" for e in r.events):
            for p in sorted(ps):
                if p in reach or f.cls is not None and not r.returns:
                    chk.ob("parameter-reaches-value", f"{con}:{p}", True, where)
                else:
                    if not r.returns or all(contains(v, lambda s: s.k == "undef") for _, v in r.returns):
                        continue
                    chk.ob("parameter-reaches-value", f"{con}:{p}", False, where, f"learnable parameter {p} does not reach the log-likelihood")
        bad = None
        for x in vals:
            cut = None
            if x.k == "op" and x.a[0] in CUT and x.a[1]:
                cut = x.a[1][0]
            elif x.k == "attr" and x.a[1] == "data":
                cut = x.a[0]
            elif x.k == "op" and x.a[0] in WRAP and x.a[1]:
                cut = x.a[1][-1] if x.a[0] == "new_tensor" else x.a[1][0]
            elif x.k == "call" and str(x.a[0].a[-1]).split(".")[-1] in ("float", "int") and x.a[1]:
                cut = x.a[1][0]
            if cut is None or is_max(cut):
                continue
            d = grad_dep(cut, ps)
            if d is not None:
                bad = (x, d)
                break
        chk.ob("graph-not-cut", con, bad is None, where, f"{show(bad[0], 3)} cuts the gradient of {show(bad[1], 3)}" if bad else "")
        # values computed with gradients switched off
        bad = None
        for e in r.events:
            if e.kind != "call" or e.term is None or e.term not in vals:
                continue
            if any(nograd(x) for x in e.ctxs):
                d = grad_dep(e.term, ps)
                if d is not None and not any("is_grad_enabled" in show(g, 8) or "training" in show(g, 8) for g, b in e.guards):
                    bad = e
                    break
        for x in (bad,) if bad else ():
            where = x.where
        deco = [d for d in f.node.decorator_list if any(s in __import__("ast").unparse(d) for s in ("no_grad", "inference_mode"))]
        chk.ob("graph-recorded", con, bad is None and not deco, where, "evaluated with gradient recording switched off" if bad or deco else "")
    for c, f, r in density_methods(ctx):
        if r is None or r.value is None:
            continue
        bad = None
        for x in value_only(r.value):
            cut = x.a[1][0] if x.k == "op" and x.a[0] in CUT and x.a[1] else x.a[0] if x.k == "attr" and x.a[1] == "data" else None
            if cut is not None and not is_max(cut) and value_contains(cut, lambda s: self_attr(s) and s.a[1] not in ("device", "dtype")) and \
                    grad_dep(cut, {s.a[1] for s in value_walk(cut) if self_attr(s)}) is not None:
                bad = x
        chk.ob("graph-not-cut", f"{c.name}.{f.name}", bad is None, f"{f.file}:{f.line}", f"{show(bad, 4)} cuts the gradient of the density's parameters" if bad else "")
    chk.floor("graph-not-cut", 30)
    chk.floor("parameter-reaches-value", 15)


def nograd(x):
    s = x if isinstance(x, str) else show(x, 6)
    return "no_grad" in s or "inference_mode" in s or "set_grad_enabled(False" in s
