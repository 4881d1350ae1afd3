"""Queries and learning never modify the caller's tensors or stored sub-circuit values."""
from ..lib import *
from ..axes import canon_ll

ID = "P06"
TITLE = "Inference and learning never modify the caller's data or stored likelihoods"
EXPL = ("Effect and alias analysis: every in-place effect (subscript store, augmented assignment, trailing-underscore tensor "
        "method, out=) in the whole package is resolved to the objects its target may share storage with (views, casts and no-op "
        "conversions are followed, copies are not); the target may not alias a caller-supplied data/evidence/weight tensor, a "
        "child's log-likelihood, or a cache entry. Sampling entry points, whose contract is to fill missing entries of the given tensor in place, "
        "may write the sample tensor only.")
ASSUME = ("advanced (list/mask) indexing copies, basic indexing views, .to()/.float()/as_tensor may return the same storage",)
DATA = {"data", "evidence", "x", "X", "y", "weights", "low", "high", "samples", "log_likelihood", "labels", "targets", "values", "dataset",
        "scoped_data", "train_data", "domain_data", "targets", "sample_weight", "ll", "log_probs", "probs", "logits", "a", "b"}
SAMPLERS = {"_sample", "sample", "mpe", "sample_with_evidence", "_sample_from_leaf", "impute", "complete", "_prepare_sample_data"}


def fname_sampler(f):
    n = f.name.lower()
    return "sampl" in n or n in ("mpe", "_mpe", "decode", "_decode", "reconstruct", "_fill", "fill_")


def tensor_param(f, name):
    """parameter annotated (or named) as an array the caller owns"""
    import ast
    if f is None:
        return False
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == name:
            if x.annotation is None:
                return name in DATA
            s = ast.unparse(x.annotation)
            return any(k in s for k in ("Tensor", "ndarray", "ArrayLike", "IntervalEvidence"))
    return False


def effects(r):
    for e in r.events:
        if e.kind == "store_item" and e.target is not None:
            yield e, e.target
        elif e.kind == "aug" and e.target is not None:
            yield e, e.target
        elif e.kind == "call" and e.name and e.name.endswith("_") and not e.name.startswith("_") and not e.name.endswith("__") and e.term is not None and \
                e.term.k == "op" and e.term.a[1]:
            if e.name in ("requires_grad_", "not_", "and_", "or_", "retain_grad", "manual_seed_"):
                continue
            yield e, (e.recv if e.recv is not None else e.term.a[1][0])
        elif e.kind == "call" and e.kwargs.get("out") is not None and e.idx == "op":
            yield e, e.kwargs["out"]


def full_slices(i):
    if i.k == "tuple":
        return all(full_slices(x) for x in i.a[0])
    return i.k == "slice" and all(is_const(x, None) for x in i.a if isinstance(x, T)) or is_const(i, Ellipsis)


def rebroadcast(e):
    """replaces a list element by a broadcast view of itself: the element's values are unchanged"""
    if e.kind != "store_item" or not isinstance(e.idx, T) or e.idx.k != "idx" or e.term is None:
        return False
    v = e.term
    while v.k == "op" and v.a[0] in ("repeat_e", "expand", "unsqueeze", "expand_as") and v.a[1]:
        v = v.a[1][0]
    while v.k == "phi":
        v = v.a[1]
    return v.k in ("elem", "item")


def scratch_params(r, f):
    """parameters whose first use is a complete overwrite with a value that does not read them: output buffers"""
    out = set()
    for e, tgt in effects(r):
        if e.kind == "store_item" and tgt.k == "param" and tgt.a[0] == f.qual and isinstance(e.idx, T) and full_slices(e.idx) and \
                e.term is not None and tgt not in set(walk(e.term)):
            out.add(tgt)
    return out


def check(ctx, chk):
    ix = ctx.ix
    n = 0
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.kind == "lambda" or ".<locals>." in f.qual:
            continue
        clss = [f.cls]
        try:
            r = ctx.run_func(f, f.cls, sampling_opaque=True, max_depth=3)
        except RecursionError:
            continue
        sampler = fname_sampler(f)
        setter = f.kind == "setter"
        scratch = scratch_params(r, f)
        for e, tgt in effects(r):
            n += 1
            if rebroadcast(e):
                continue
            own = lambda t: t.k == "param" and t not in scratch and t.a[0] == f.qual and tensor_param(f, t.a[1]) and \
                not (sampler and t.a[1] in ("data", "evidence", "samples", "out", "x", "result", "target"))
            stored = lambda t: canon_ll(t).k == "LL" or (t.k == "item" and t.a[0].k == "item" and is_const(t.a[0].a[1], "log_likelihood"))
            if e.func is not f and e.func.cls is not None and fname_sampler(e.func) and not sampler:
                continue
            t0 = tgt
            con = f"{f.qual}"
            bad = may_alias(t0, own)
            if bad and f.name.endswith("_") and not f.name.endswith("__"):
                bad = False  # documented in-place helper
            chk.ob("caller-tensor", con, not bad, e.where, f"in-place effect on {show(t0, 4)} reaches a tensor owned by the caller" if bad else "")
            b2 = may_alias(t0, stored)
            # grads of the stored value are not the stored value
            chk.ob("stored-likelihood", con, not b2, e.where, f"in-place effect on {show(t0, 4)} corrupts a stored/child log-likelihood" if b2 else "")
    chk.note(f"{n} in-place effects examined in {len(ix.functions)} functions")
    chk.floor("caller-tensor", 60)
