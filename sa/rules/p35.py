"""Gradient training: fresh gradients, one step, documented loss, side-effect-free validation, best-model tracking."""
import ast
from ..lib import *
from ..lin import Lin, cases, known, is_size
from ..terms import *

ID = "P35"
TITLE = "Gradient training takes one correct step per batch and keeps the best model"
EXPL = ("Typestate over the interprocedural event order of every training loop that back-propagates (gradients cleared - loss - backward - one optimiser step, per batch of each epoch, over the trained "
        "parameters, in training mode), linear normal forms of the losses compared with the documented ones, effect rules for validation (no_grad, mode restored, same loss), dataflow rules for the best-model "
        "snapshot, patience and the counters behind reported metrics.")
ASSUME = ("torch optimisers and schedulers", "user-supplied loss functions and callbacks")
PURE = {"clip_grad_norm_", "clip_grad_value_", "isfinite", "item", "float", "isnan"}
GD = "spflow.learn.gradient_descent"


def fname(e):
    return e.name or ""


def raise_conds(r):
    """conditions that hold after a raise-if was passed"""
    out = set()
    for e in r.events:
        if e.kind == "raise" and e.guards:
            out.add((e.guards[-1][0], not e.guards[-1][1]))
            out.update((c, b) for c, b in e.guards)
            for a in bool_atoms(e.guards[-1][0]):
                n = {"eq": "ne", "ne": "eq", "is": "isnot", "isnot": "is"}.get(a.a[0]) if a.k == "op" else None
                for x in (a,) + ((op(n, a.a[1]),) if n else ()):
                    out |= {(x, True), (x, False)}
    return out


def extra(e, b, rc):
    """conditions under which e runs that b does not already have"""
    have = set(b.guards)
    return [(c, v) for c, v in e.guards if (c, v) not in have and c.k != "forall" and (c, v) not in rc and (c, v) not in {(x, y) for x, y in rc}]


def trainers(ctx):
    """functions that back-propagate (directly or through helpers inlined into them) and are entry points"""
    ix = ctx.ix
    direct = {f.qual for f in ix.functions.values() if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "backward" for n in ast.walk(f.node))}
    mods = {ix.functions[q].module for q in direct}
    out = []
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.module not in mods or f.cls is not None or getattr(f, "parent", None) is not None or "<locals>" in f.qual:
            continue
        if "expectation_maximization" in f.module.rel:
            continue
        r = ctx.run_func(f, opaque=("loss_components", "_factorized_component_ll"), opaque_quals=())
        bs = [e for e in r.events if e.kind == "call" and e.name == "backward" and not e.inlined]
        if not bs:
            continue
        zs = [e for e in r.events if e.kind == "call" and e.name in ("zero_grad", "step")]
        if f.name.startswith("_") and (not zs or any(calls(ix, g, f.name) for g in ix.functions.values() if g is not f and g.module is f.module)):
            if not any(e.loops for e in bs):
                continue    # a helper judged in its callers
        out.append((f, r, bs))
    return out


def calls(ix, g, name):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == name for n in ast.walk(g.node))


def opt_roots(t):
    """(alternatives of an optimiser value): ('given', param) or ('made', parameters term)"""
    out = []
    for g, a in galts(t):
        a = core(a)
        if a.k in ("op", "call"):
            args = a.a[1]
            kw = dict(a.a[2])
            p = args[0] if args else kw.get("params")
            out.append(("made", p, a))
        else:
            out.append(("given", a, a))
    return out


def param_owner(p):
    """module (or tensor) whose parameters are optimised"""
    if p is None:
        return None
    if p.k in ("call",) and p.a[0].k == "attr" and p.a[0].a[1] == "parameters":
        return p.a[0].a[0]
    if p.k == "op" and p.a[0] == "parameters" and p.a[1]:
        return p.a[1][0]
    if p.k in ("list", "tuple") and len(p.a[0]) == 1:
        return p.a[0][0]
    if p.k == "call" and str(p.a[0].a[-1]).split(".")[-1] in ("list", "tuple", "filter") and p.a[1]:
        return param_owner(p.a[1][-1])
    if p.k == "comp":
        return param_owner(p.a[2][0]) if p.a[2] else None
    return None


def check(ctx, chk):
    ix = ctx.ix
    loops = 0
    for f, r, bs in trainers(ctx):
        rc = raise_conds(r)
        for n, b in enumerate(dedup(bs)):
            loops += 1
            loop_rules(ctx, chk, f, r, b, rc, f.name + (f"#{n}" if n else ""))
        evaluation(ctx, chk, f, r, bs, rc)
    gd(ctx, chk)
    minibatches(ctx, chk)
    apc(ctx, chk)
    mixtures(ctx, chk)
    metrics(ctx, chk)
    chk.floor("one-step", 3)
    chk.floor("fresh-gradients", 3)
    chk.floor("loss", 4)


def dedup(es):
    seen, out = set(), []
    for e in es:
        k = (e.where, e.loops)
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def idx(r, e):
    return e.seq


def loop_rules(ctx, chk, f, r, b, rc, con):
    W = b.where
    steps = [e for e in r.events if e.kind == "call" and e.name == "step" and not e.inlined and e.recv is not None]
    same = [e for e in steps if e.loops == b.loops and e.ctxs == b.ctxs]
    after = [e for e in same if e.seq > b.seq]
    opt = after[0].recv if after else None
    others = [e for e in r.events if e.kind == "call" and e.name == "backward" and not e.inlined and e.loops == b.loops]
    mine = [e for e in same if e.recv is opt]
    chk.ob("one-step", con, len(mine) == 1 and len(others) == 1 and after and not extra(after[0], b, rc), W,
           "each backward pass must be followed by exactly one unconditional optimiser step for the batch" + (f" (found {len(mine)})" if len(mine) != 1 else ""))
    if opt is None:
        return
    st = after[0]
    roots = opt_roots(opt)
    owners = [param_owner(p) for k, p, a in roots if k == "made"]
    zs = [e for e in r.events if e.kind == "call" and e.name == "zero_grad" and not e.inlined and e.recv is not None and (e.recv is opt or e.recv in owners or any(k == "given" for k, _, _ in roots) and contains(b.recv, e.recv))]
    good = [e for e in zs if e.loops == b.loops and e.seq < b.seq and not extra(e, b, rc)]
    bad = [e for e in zs if b.seq < e.seq < st.seq]
    # a step between clearing and the backward pass would be harmless only on cleared gradients; a second backward would accumulate
    chk.ob("fresh-gradients", con, bool(good) and not bad, W, "gradients must be cleared unconditionally before this batch's backward pass, and not between it and the step")
    for e in r.events:
        if b.seq < e.seq < st.seq and e.kind == "call" and not e.inlined and e.name and e.name.endswith("_") and e.name not in ("clip_grad_norm_", "clip_grad_value_", "_"):
            chk.ob("gradients-unchanged", con + ":" + e.name, False, e.where, "gradients are modified between the backward pass and the step")
        if b.seq < e.seq < st.seq and e.kind == "call" and e.name in ("clip_grad_norm_", "clip_grad_value_"):
            a = e.args[0] if e.args else e.kwargs.get("parameters")
            chk.ob("gradients-unchanged", con + ":clip", a is not None and (param_owner(a) is not None and contains(b.recv, param_owner(a))), e.where, "clipping must act on the trained model's parameters")
            m = e.kwargs.get("max_norm", e.kwargs.get("clip_value")) or (e.args[1] if len(e.args) > 1 else None)
            cond = extra(e, b, rc)
            ok = m is not None and (m.k in ("param", "attr") or contains(m, lambda s: s.k == "param")) and all(contains(c, core(m)) for c, v in cond)
            chk.ob("gradients-unchanged", con + ":clip-norm", ok, e.where, "clipping happens exactly when, and at the norm, requested")
            for c, v in cond:
                if c.k == "op" and c.a[0] == "is":
                    chk.ob("gradients-unchanged", con + ":clip-norm", not v, e.where, "clipping must be applied when a norm is given")
    for k, p, a in roots:
        if k == "made":
            o = param_owner(p)
            chk.ob("trained-parameters", con, o is not None and value_contains(b.recv, o), a and W or W, f"the optimiser must own the parameters the loss is trained on, not {show(p, 3) if p is not None else None}")
            lr = dict(a.a[2]).get("lr") or (a.a[1][1] if len(a.a[1]) > 1 else None)
            chk.ob("trained-parameters", con + ":lr", lr is not None and contains(lr, lambda s: s.k == "param"), W, "the requested learning rate must be used")
            mode(ctx, chk, r, b, o, con, rc)
        else:
            chk.ob("trained-parameters", con, a.k in ("param", "attr"), W, "the optimiser must be the caller's or own the trained parameters")
    # which batches
    lp = [x for x in b.loops]
    if lp:
        it = lp[-1]
        uses = value_contains(b.recv, lambda s: is_elem(s, it))
        chk.ob("batches", con, uses, W, "the loss must be computed on the current batch")
        chk.ob("batches", con + ":all", not slices(it), W, f"every batch of the loader must be used, not {show(it, 3)}")
        gl = [(c, v) for c, v in b.guards if contains(c, lambda s: is_elem(s, it)) and (c, v) not in rc and c.k != "forall" and not batch_kind(c)]
        chk.ob("batches", con + ":all", not gl, W, f"no batch may be skipped ({[show(c, 3) for c, v in gl[:1]]})")
        for e in r.events:
            if e.kind == "break" and e.loops == b.loops:
                chk.ob("batches", con + ":all", False, e.where, "the batch loop is left early")
    if len(lp) > 1:
        it = core(lp[-2])
        a = it.a[1] if it.k in ("call", "op") and str(it.a[0] if it.k == "op" else it.a[0].a[-1]).split(".")[-1] == "range" else None
        ok = a is not None and (len(a) == 1 or len(a) == 2) and contains(a[-1], lambda s: s.k == "param")
        if a is not None:
            x = core(a[-1])
            d = 0
            if len(a) == 2:
                d = num(a[0])
            if x.k == "op" and x.a[0] in ("add", "sub") and len(x.a[1]) == 2 and num(x.a[1][1]) is not None:
                k = num(x.a[1][1]) * (1 if x.a[0] == "add" else -1)
                x = core(x.a[1][0])
            else:
                k = 0
            ok = ok and d is not None and k == d and x.k in ("param", "attr")
        chk.ob("epochs", con, ok, W, f"training must run for the requested number of epochs, not {show(lp[-2], 3)}")
        # schedulers
        for e in steps:
            if e.recv is opt or not contains(e.recv, lambda s: "sched" in str(s.a[-1]).lower() if s.k in ("param",) else False):
                continue
            chk.ob("scheduler", con, e.loops == b.loops[:-1] and e.seq > st.seq and not extra(e, b, rc), e.where, "the learning-rate schedule advances once per epoch, after its updates")
        sch = [p for p in r.params if "sched" in p] if isinstance(r.params, dict) else []
        if sch:
            chk.ob("scheduler", con + ":used", any(contains(e.recv, lambda s: s.k == "param" and "sched" in str(s.a[-1])) for e in steps), W, "the scheduler is never stepped")


def sources(it):
    """the collections a loop draws its elements from"""
    out = []
    for x in alts(it):
        if x.k == "call" and x.a[0].k == "global" and x.a[0].a[0] in ("builtins.enumerate", "builtins.list", "builtins.tuple", "builtins.iter", "builtins.zip") and x.a[1]:
            for y in x.a[1]:
                out += sources(y)
        out.append(x)
    return out


def is_elem(s, it):
    return s.k == "elem" and (s.a[0] is it or any(s.a[0] is x for x in sources(it)))


def is_train(e):
    """True/False for a switch to training/evaluation mode, None if decided at run time"""
    a = e.args[0] if e.args else e.kwargs.get("mode")
    if e.name == "eval":
        return False
    return True if a is None or is_const(a, True) else False if is_const(a, False) else None


def batch_kind(c):
    return contains(c, lambda s: s.k in ("call", "op") and ("isinstance" in str(s.a[0].a[-1] if s.k == "call" else s.a[0]) or "len" == str(s.a[0].a[-1] if s.k == "call" else s.a[0])))


def slices(it):
    for s in walk(it):
        if s.k == "item" and s.a[1].k == "slice":
            return True
        if s.k in ("call", "op") and str(s.a[0].a[-1] if s.k == "call" else s.a[0]).split(".")[-1] in ("islice", "takewhile", "sample", "choices"):
            return True
    return False


def mode(ctx, chk, r, b, owner, con, rc):
    ev = [e for e in r.events if e.kind == "call" and not e.inlined and e.name in ("train", "eval") and e.recv is owner and e.seq != b.seq]
    if not ev:
        if owner is not None and owner.k in ("param", "call"):
            pass
        return
    before = [e for e in ev if e.seq < b.seq]
    chk.ob("train-mode", con, bool(before) and is_train(before[-1]) is not False, b.where, "the model must be in training mode for the update")
    for e in ev:
        if is_train(e) is not False or e.seq < b.seq or not e.loops or e.loops[0] is not (b.loops[0] if b.loops else None):
            continue
        k = 0
        while k < min(len(e.loops), len(b.loops)) and e.loops[k] is b.loops[k]:
            k += 1
        back = [x for x in ev if is_train(x) is not False and not extra(x, e, rc) and (x.seq > e.seq and x.loops == e.loops or x.seq < b.seq and 0 < len(x.loops) <= k + 1 and x.loops == b.loops[:len(x.loops)] and len(x.loops) >= 1)]
        chk.ob("train-mode", con + ":restored", bool(back), e.where, "the model is left in evaluation mode for the following updates")


NOGRAD = ("no_grad", "inference_mode")


def no_grad(e):
    if any(contains(c, lambda s: str(s.a[0].a[-1] if s.k == "call" else s.a[0]).split(".")[-1] in NOGRAD if s.k in ("call", "op") else s.k == "global" and str(s.a[0]).split(".")[-1] in NOGRAD) for c in e.ctxs):
        return True
    return any("no_grad" in ast.unparse(d) or "inference_mode" in ast.unparse(d) for d in e.func.node.decorator_list)


LOSSY = ("log_likelihood", "log_posterior", "predict_proba", "loss_components", "log_likelihood_x", "logsumexp", "loss_fn")


def evaluation(ctx, chk, f, r, bs, rc):
    """likelihood evaluations outside the update loops must not build gradients or touch parameters"""
    loops = {b.loops for b in bs}
    for e in r.events:
        if e.kind != "call" or e.inlined or e.name not in LOSSY or e.loops in loops:
            continue
        if e.name == "logsumexp" and not value_contains(e.term, lambda s: s.k in ("elem", "param") and "data" in str(s.a[-1]) or s.k == "call"):
            continue
        if not e.loops and not any(e.stack):
            pass
        chk.ob("no-grad-eval", f"{f.name}:{e.func.name}:{e.name}", no_grad(e), e.where, "validation/evaluation must run without recording gradients")


def norm_lt(c, v):
    """(small, large) of an ordering condition, else None"""
    while c.k == "op" and c.a[0] in ("not", "not_"):
        c, v = c.a[1][0], not v
    if c.k == "op" and c.a[0] in ("lt", "le", "gt", "ge") and len(c.a[1]) == 2:
        a, b = c.a[1]
        if c.a[0] in ("gt", "ge"):
            a, b = b, a
        strict = c.a[0] in ("lt", "gt")
        return (a, b, strict) if v else (b, a, not strict)
    return None


def has(ix, q):
    return q in ix.functions


def gd(ctx, chk):
    ix = ctx.ix
    q = GD + ".train_gradient_descent"
    if has(ix, GD + ".negative_log_likelihood_loss"):
        f = ix.functions[GD + ".negative_log_likelihood_loss"]
        r = ctx.run_func(f)
        ps = list(r.params.values()) if isinstance(r.params, dict) else list(r.params)

        def ren(t, ch):
            if ll_call(t) is not None:
                return T("sym", "LL") if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[0].k == "param" and is_param(core(ll_call(t)), "data") else T("sym", "LL?")
        ok = all(x == lin_ref("nll") for x in polys(r.value, ren))
        chk.ob("loss", f.name, ok, f"{f.file}:{f.line}", "the loss must be the negative mean log-likelihood of the data")
    if has(ix, GD + ".classification_loss"):
        f = ix.functions[GD + ".classification_loss"]
        r = ctx.run_func(f)
        z = is_nll(r.value)
        chk.ob("loss", f.name, z is not None and is_param(core(z[0]), "ll") and is_param(core(z[1]), "target"), f"{f.file}:{f.line}", "the classification loss is the NLL of the targets under the log-probabilities")
    if not has(ix, q):
        return
    f = ix.functions[q]
    r = ctx.run_func(f)
    cls = [v for k, v in r.params.items() if k == "is_classification"][0]
    lf = [v for k, v in r.params.items() if k == "loss_fn"][0]
    nw = [v for k, v in r.params.items() if k == "nll_weight"][0]
    model = [v for k, v in r.params.items() if k == "model"][0]
    bs = [e for e in r.events if e.kind == "call" and e.name == "backward" and not e.inlined]
    vals = []
    for b in dedup(bs):
        gd_loss(ctx, chk, b.recv, b.loops[-1] if b.loops else None, cls, lf, nw, model, f.name + ":train", b.where)
    for e in r.events:
        if e.kind == "call" and e.name == "append" and e.recv is not None and contains(e.recv, lambda s: s.k == "attr" and s.a[1] == "val_losses") and e.args and e.loops:
            gd_loss(ctx, chk, e.args[0], e.loops[-1], cls, lf, nw, model, f.name + ":validation", e.where, e.guards)
        if e.kind == "call" and e.name == "append" and e.recv is not None and contains(e.recv, lambda s: s.k == "attr" and s.a[1] == "train_losses") and not contains(e.recv, lambda s: s.k == "attr" and s.a[1] == "val_losses") and e.args and e.loops:
            gd_loss(ctx, chk, e.args[0], e.loops[-1], cls, lf, nw, model, f.name + ":train", e.where, e.guards)
    # reported accuracy: argmax of the batch's log posterior against its targets; counters restart every epoch
    ep = [e.loops[:1] for e in bs if len(e.loops) > 1]
    first = min([e.seq for e in r.events if len(e.loops) > 1] or [0])
    counters = set()
    for e in r.events:
        if e.kind == "store_attr" and isinstance(e.idx, str) and e.idx.endswith(("_correct", "_total")) and len(e.loops) > 1:
            counters.add(e.idx)
            if not e.idx.endswith("_correct"):
                continue
            eqs = [x for x in value_walk(e.term) if x.k == "op" and x.a[0] == "eq"]
            ok = bool(eqs)
            for q_ in eqs:
                a = [peel(Lin().res(x, {cls: True})) for x in q_.a[1]]
                am = [x for x in a if isfn(x, "argmax")]
                tg = [x for x in a if batch_part(x, e.loops[-1]) == 1]
                ok = ok and len(am) == 1 and len(tg) == 1
                if ok:
                    src = am[0].a[1][0] if am[0].a[1] else am[0].a[0].a[0]
                    dim = dict(am[0].a[2]).get("dim") or (am[0].a[1][1] if len(am[0].a[1]) > 1 else NONE)
                    ds = set()
                    ok = logp(src, model, e.loops[-1], ds, {cls: True}) and ds == {("lp", 0)} and num(dim) in (-1, 1)
            chk.ob("metrics", f.name + ":" + e.idx, ok, e.where, "correct predictions are counted as argmax(log posterior of the batch) == targets of the batch")
    for at in sorted(counters):
        z = [e for e in r.events if e.kind == "store_attr" and e.idx == at and is_zero(e.term) and e.seq < first and ep and e.loops == ep[0] and not [g for g in e.guards if g[0].k != "forall" and g not in bs[0].guards]]
        chk.ob("metrics", f.name + ":restart:" + at, bool(z), f"{f.file}:{f.line}", f"{at} must restart at zero in every epoch")
    # validation data and mode
    ev = [e for e in r.events if e.kind == "call" and not e.inlined and e.name in ("train", "eval") and e.recv is model]
    vl = [e for e in r.events if e.kind == "call" and e.name in ("log_likelihood",) and e.loops and contains(e.loops[-1], lambda s: s.k == "param" and "validation" in str(s.a[-1]))]
    chk.ob("validation", f.name, bool(vl), f"{f.file}:{f.line}", "validation must use the validation data")
    for e in vl:
        m = [x for x in ev if x.seq < e.seq]
        chk.ob("validation", f.name + ":mode", bool(m) and is_train(m[-1]) is False, e.where, "validation must run in evaluation mode")
        c = [(c, v) for c, v in e.guards if c.k == "op" and c.a[0] in ("is", "isnot") and contains(c, lambda s: s.k == "param" and "validation" in str(s.a[-1]))]
        chk.ob("validation", f.name + ":given", bool(c) and all((v == (c_.a[0] == "isnot")) for c_, v in c), e.where, "validation runs exactly when validation data is given")
    # callbacks
    cb = {}
    for e in r.events:
        if e.kind == "call" and not e.inlined and e.name in ("callback_batch", "callback_epoch"):
            cb.setdefault(e.name, []).append(e)
            if e.name == "callback_batch" and e.loops:
                x = e.args[0] if e.args else None
                chk.ob("callbacks", f.name + ":" + e.name, x is not None and value_contains(x, lambda s: is_elem(s, e.loops[-1])), e.where, "the batch callback receives the current batch's loss")
            if e.name == "callback_epoch":
                x = e.args[0] if e.args else None
                chk.ob("callbacks", f.name + ":" + e.name, x is not None and contains(x, lambda s: s.k == "attr" and s.a[1] == "train_losses") and len(e.loops) == 1
                       and len(e.args) > 1 and e.args[1].k == "elem" and e.args[1].a[0] is e.loops[0], e.where, "the epoch callback receives the training losses and the epoch number")
    # default loss
    # scheduler default wraps the optimiser in use
    for e in r.events:
        if e.kind == "call" and e.name in ("MultiStepLR", "StepLR", "LambdaLR", "CosineAnnealingLR", "ExponentialLR", "ReduceLROnPlateau") and not e.inlined:
            o = e.args[0] if e.args else e.kwargs.get("optimizer")
            steps = [s.recv for s in r.events if s.kind == "call" and s.name == "step" and bs and s.loops == bs[0].loops]
            chk.ob("scheduler", f.name + ":optimizer", o is not None and o in steps, e.where, "the default schedule must drive the optimiser in use")


def ll_call(t):
    """data argument of a model.log_likelihood call"""
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "log_likelihood":
        kw = dict(t.a[2])
        return kw.get("data") or (t.a[1][0] if t.a[1] else None)
    return None


def is_nll(t):
    """(log-probabilities, targets) of a negative-log-likelihood loss"""
    if t.k == "op" and t.a[0] in ("nll_loss", "cross_entropy") and len(t.a[1]) >= 2:
        red = dict(t.a[2])
        if not set(red) - {"reduction"} and (not red or is_const(red.get("reduction"), "mean")):
            return t.a[1][0], t.a[1][1]
    if t.k == "op" and t.a[0] in ("nll_loss", "cross_entropy"):
        kw = dict(t.a[2])
        if "input" in kw or "target" in kw:
            return (kw.get("input") or t.a[1][0]), kw.get("target")
    if t.k == "call" and t.a[0].k in ("call", "op") and len(t.a[1]) == 2:
        h = t.a[0]
        nm = str(h.a[0] if h.k == "op" else h.a[0].a[-1]).split(".")[-1]
        if nm in ("NLLLoss", "CrossEntropyLoss") and not h.a[1] and (not h.a[2] or dict(h.a[2]) == {"reduction": const("mean")}):
            return t.a[1]
    if t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] in ("nll_loss", "cross_entropy") and len(t.a[1]) == 2 and not t.a[2]:
        return t.a[1]
    return None


def polys(t, ren, start=None):
    def one(ch):
        return Lin(rename=ren).ev(t, ch)
    return [p for _, p in cases(one, limit=128, start=start)]


def lin_ref(name):
    ll = T("sym", "LL")
    ref = {"nll": op("neg", (op("mean", (ll,)),))}[name]
    return Lin(rename=lambda t, ch: t if t.k == "sym" else None).ev(ref, {})


def gd_loss(ctx, chk, t, it, cls, lf, nw, model, con, W, guards=()):
    none = op("is", (lf, NONE))
    given = {c: v for c, v in guards if c is cls or c is none}
    for c0 in ((True, False) if cls not in given else (given[cls],)):
        for n0 in ((True, False) if none not in given else (given[none],)):
            start = {cls: c0, none: n0}
            datas = set()

            def ren(x, ch):
                d = ll_call(x)
                if d is not None:
                    d = Lin().res(d, ch)
                    datas.add(("ll", batch_part(d, it)))
                    return T("sym", "LL") if x.a[0].a[0] is model else T("sym", "LL?")
                if x.k == "call" and x.a[0] is lf:
                    a = [Lin().res(y, ch) for y in x.a[1]]
                    if c0:
                        ok = len(a) == 2 and logp(a[0], model, it, datas, ch) and batch_part(a[1], it) == 1
                    else:
                        ok = len(a) == 2 and a[0] is model and batch_part(a[1], it) == 0
                    return T("sym", "LOSS" if ok else "LOSS?")
                z = is_nll(x)
                if z is not None:
                    a = [Lin().res(y, ch) for y in z]
                    return T("sym", "LOSS" if c0 and logp(a[0], model, it, datas, ch) and batch_part(a[1], it) == 1 else "NLL?")
                return None
            S = lambda n: T("sym", n)
            nll = op("neg", (op("mean", (S("LL"),)),))
            if c0:
                ref = op("add", (S("LOSS"), op("mul", (nw, nll))))
            else:
                ref = nll if n0 else S("LOSS")
            refp = Lin(rename=lambda x, ch: x if x.k == "sym" else None).ev(ref, {})
            ok, bad = True, None
            for ch, p in cases(lambda ch: Lin(rename=ren).ev(t, ch), limit=128, start=start):
                if any(c.k == "op" and c.a[0] == "is" and v and contains(c, lambda s: s.k == "elem") for c, v in ch.items()):
                    continue
                if p != refp:
                    ok, bad = False, p
            ok = ok and all(d == ("ll", 0) or d == ("lp", 0) for d in datas)
            kind = ("classification" if c0 else "density") + (":default" if n0 else ":given")
            chk.ob("loss", f"{con}:{kind}", ok, W, "the loss must be " + ("loss_fn(log-posteriors, targets) + nll_weight * mean negative log-likelihood of the batch" if c0 else "the batch's mean negative log-likelihood / loss_fn(model, batch)")
                   + (f"; found {show_poly(bad)}" if bad else ""))


def show_poly(p):
    return {" * ".join(f"{show(a, 3)}^{e}" for a, e in m): str(c) for m, c in p.items()} if p else p


def batch_part(d, it):
    """0 data part of the batch, 1 targets, None otherwise"""
    d = core(d)
    out = set()
    for g, a in galts(d):
        a = core(a)
        if is_elem(a, it):
            out.add(0)
        elif a.k == "item" and is_elem(core(a.a[0]), it) and a.a[1].k == "const":
            out.add(a.a[1].a[0])
        elif is_const(a, None):
            pass
        else:
            out.add(None)
    return out.pop() if len(out) == 1 else None


def peel(t):
    while True:
        u = core(t)
        if u.k == "call" and u.a[0].k == "attr" and u.a[0].a[1] in VIEW_OPS - {"detach", "numpy"}:
            u = u.a[0].a[0]
        if u is t:
            return t
        t = u


def logp(t, model, it, datas, ch):
    """t is the model's log class posterior of the batch"""
    ok = True
    for g, a in galts(peel(t)):
        a = peel(a)
        cs = [s for s in value_walk(a) if s.k == "call" and s.a[0].k == "attr" and s.a[0].a[1] in ("log_posterior", "predict_proba")
              or s.k == "call" and s.a[0].k in ("call", "op") and contains(s.a[0], lambda q: is_const(q, "log_posterior"))]
        if len(cs) != 1 or not contains(cs[0], model):
            return False
        s = cs[0]
        d = dict(s.a[2]).get("data") or (s.a[1][0] if s.a[1] else None)
        datas.add(("lp", batch_part(Lin().res(d, ch), it) if d is not None else None))
        name = "predict_proba" if s.a[0].k == "attr" and s.a[0].a[1] == "predict_proba" else "log_posterior"
        if name == "log_posterior":
            ok = ok and a is s
        else:
            x = a
            ok = ok and x.k == "op" and x.a[0] == "log"
            if ok:
                y = x.a[1][0]
                while y.k == "op" and y.a[0] in ("clamp", "clamp_min", "maximum", "to", "float") and y.a[1]:
                    y = y.a[1][0]
                ok = y is s
    return ok


def minibatches(ctx, chk):
    """in-repo minibatch iterators yield every row exactly once"""
    ix = ctx.ix
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.cls is not None or "minibatch" not in f.name:
            continue
        r = ctx.run_func(f)
        ys = [e for e in r.events if e.kind == "yield"]
        con = f.name
        W = f"{f.file}:{f.line}"
        for e in ys:
            t = core(e.term) if e.term is not None else None
            if t is None:
                continue
            if is_param(t, "data"):
                big = [(c, v) for c, v in e.guards if norm_lt(c, v) is not None]
                ok = not e.loops and any(contains(norm_lt(c, v)[1], lambda s: s.k == "param" and "batch_size" in str(s.a[-1])) and contains(norm_lt(c, v)[0], lambda s: s.k == "attr" and s.a[1] == "shape") for c, v in big) if e.guards else not e.loops
                chk.ob("minibatch", con + ":whole", ok, e.where, "the whole data may be one batch only when it is not larger than the batch size")
                continue
            ok = t.k == "item" and is_param(core(t.a[0]), "data") and part_of_perm(t.a[1], e.loops)
            if t.k == "op" and t.a[0] == "index_select":
                kw = dict(t.a[2])
                ix_ = kw.get("index") or t.a[1][-1]
                dm = kw.get("dim") or (t.a[1][1] if len(t.a[1]) > 2 - ("index" in kw) else NONE)
                ok = is_param(core(t.a[1][0]), "data") and is_zero(dm) and part_of_perm(ix_, e.loops)
            if t.k == "elem":
                ok = contains(t, lambda s: s.k == "op" and s.a[0] in ("split", "chunk")) and contains(t, lambda s: s.k == "op" and s.a[0] == "randperm")
            chk.ob("minibatch", con, ok, e.where, f"batches must be consecutive, gap-free pieces of one permutation of all rows, not {show(t, 4)}")


def part_of_perm(i, loops):
    i = core(i)
    if i.k == "elem":
        s = i.a[0]
        return s.k == "op" and s.a[0] in ("split",) and perm(s.a[1][0])
    if i.k == "op" and i.a[0] in ("narrow",):
        return False
    if not (i.k == "item" and perm(i.a[0]) and i.a[1].k == "slice"):
        return False
    lo, hi, st = (list(i.a[1].a) + [NONE] * 3)[:3]
    if not (is_const(st, None) or is_const(st, 1)) or not loops:
        return False
    lo, hi = core(lo), core(hi)
    it = core(loops[-1])
    if it.k == "while":
        n = norm_lt(it.a[0], True)
        if n is None or not is_zero(n[0]) or not is_size(n[1]) or not n[2]:
            return False
        if not (lo.k == "phi" and lo.a[0].k == "loopcarried" and is_zero(lo.a[2])):
            return False
        stp = lo.a[1]
        if stp.k == "op" and stp.a[0] == "add" and is_zero(stp.a[1][0]):
            stp = stp.a[1][1]
    else:
        if not (lo.k == "elem" and lo.a[0] is loops[-1]) or it.k not in ("call", "op"):
            return False
        a = it.a[1]
        if len(a) != 3 or not is_zero(a[0]) or not is_size(a[1]):
            return False
        stp = a[2]
    if hi.k in ("call", "op") and str(hi.a[0].a[-1] if hi.k == "call" else hi.a[0]).split(".")[-1] in ("min", "minimum"):
        hs = [core(x) for x in hi.a[1] if not is_size(x)]
        hi = hs[0] if len(hs) == 1 else hi
    return hi.k == "op" and hi.a[0] == "add" and len(hi.a[1]) == 2 and ((hi.a[1][0] is lo and hi.a[1][1] is stp) or (hi.a[1][1] is lo and hi.a[1][0] is stp))


def perm(t):
    t = core(t)
    return t.k == "op" and t.a[0] == "randperm" and t.a[1] and is_size(t.a[1][0]) or t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] == "randperm" and t.a[1] and is_size(t.a[1][0])


APC = "spflow.zoo.apc"
CMS = "spflow.zoo.cms.continuous_mixtures"


def isfn(t, *names):
    if t.k == "op":
        return t.a[0] in names
    if t.k == "call":
        return str(t.a[0].a[-1]).split(".")[-1] in names
    return False


def last(t, key):
    """value stored last under a key of a dict built by stores"""
    while t.k == "store":
        if is_const(t.a[1], key):
            return t.a[2]
        t = t.a[0]
    return None


def apc(ctx, chk):
    ix = ctx.ix
    for c in sorted(ix.classes.values(), key=lambda c: c.qual):
        if not c.qual.startswith(APC) or "loss_components" not in c.methods:
            continue
        f = c.methods["loss_components"]
        r = ctx.run(c, "loss_components", opaque=("encode", "decode", "_reconstruction_loss", "joint_log_likelihood", "log_likelihood_x"))
        W = f"{f.file}:{f.line}"
        con = f"{c.name}.loss_components"
        S = lambda n: T("sym", n)
        parts = {k: last(r.value, k) for k in ("rec", "kld", "nll", "total")}
        if any(v is None for v in parts.values()):
            continue
        ws = {k: [s for s in walk(parts["total"]) if s.k == "attr" and s.a[1] == k and contains(s, lambda q: q.k == "attr" and q.a[1] == "loss_weights")] for k in ("rec", "kld", "nll")}

        def ren(x, ch):
            if x.k == "attr" and x.a[1] in ws and contains(x, lambda q: q.k == "attr" and q.a[1] == "loss_weights"):
                return S("w_" + x.a[1])
            if isfn(x, "_reconstruction_loss"):
                kw = dict(x.a[2])
                a = list(x.a[1]) + [None, None]
                x0, x1 = kw.get("x", a[0]), kw.get("x_rec", a[1])
                ok = x0 is not None and is_param(core(x0), "x") and x1 is not None and contains(x1, lambda q: isfn(q, "decode")) and value_contains(x1, lambda q: isfn(q, "encode"))
                return S("REC" if ok else "REC?")
            if isfn(x, "joint_log_likelihood", "log_likelihood_x"):
                kw = dict(x.a[2])
                a = list(x.a[1]) + [None, None]
                x0 = kw.get("x", a[0])
                ok = x0 is not None and is_param(core(x0), "x")
                if isfn(x, "joint_log_likelihood"):
                    z = kw.get("z", a[1])
                    ok = ok and z is not None and all(is_const(q, None) or latent(q) for q in alts(core(z)))
                return S("LL" if ok else "LL?")
            if x.k == "attr" and x.a[1] == "kld_per_sample":
                return S("KL")
            return None

        def poly_of(t, start):
            return [p for _, p in cases(lambda ch: Lin(rename=ren).ev(t, ch), limit=256, start=start)]
        R = lambda t: Lin(rename=lambda x, ch: x if x.k == "sym" else None).ev(t, {})
        refs = {"rec": [R(S("REC"))], "kld": [R(op("mean", (S("KL"),))), R(op("div", (op("sum", (S("KL"),)), S("N"))))],
                "nll": [R(op("neg", (op("div", (op("sum", (S("LL"),)), S("N"))),))), R(op("neg", (op("mean", (S("LL"),)),)))]}
        for k, ref in refs.items():
            ps = poly_of(parts[k], {})
            chk.ob("loss", f"{con}:{k}", all(p == {} or p in ref for p in ps) and any(p for p in ps), W,
                   f"the {k} term must be the batch average of " + {"rec": "the reconstruction loss of the decoded latent code", "kld": "the per-sample divergence", "nll": "the negative log-likelihood"}[k] + f"; found {show_poly(next((p for p in ps if p and p not in ref), None))}")
            # the term is switched off only by its own weight
            conds = {s.a[0] for s in walk(parts[k]) if s.k == "phi" and poly_zero(s.a[2]) != poly_zero(s.a[1])}
            for cnd in conds:
                own = [s for s in walk(cnd) if s.k == "attr" and s.a[1] in ws and contains(s, lambda q: q.k == "attr" and q.a[1] == "loss_weights")]
                chk.ob("loss", f"{con}:{k}:on", bool(own) and all(s.a[1] == k for s in own), W, f"the {k} term is switched by {show(cnd, 3)}")
        want = {frozenset({(S("w_" + k), 1), (S("p_" + k), 1)}): 1 for k in refs}
        sub = {v: S("p_" + k) for k, v in parts.items() if k != "total"}
        tot = [p for _, p in cases(lambda ch: Lin(rename=lambda x, c2: sub.get(x) or (x if x.k == "sym" else ren(x, c2))).ev(parts["total"], ch), limit=64)]
        chk.ob("loss", f"{con}:total", all({m: int(v) for m, v in p.items()} == want for p in tot), W, f"the total must be w_rec*rec + w_kld*kld + w_nll*nll; found {show_poly(tot[0]) if tot else None}")
        rl = ctx.run(c, "_reconstruction_loss") if "_reconstruction_loss" in c.methods else None
        if rl is not None and rl.value is not None:
            W2 = f"{c.methods['_reconstruction_loss'].file}:{c.methods['_reconstruction_loss'].line}"
            for g, v in value_alts(rl.value):
                kinds = {str(s.a[0]) for cnd, b in g for s in walk(cnd) if b and s.k == "const" and isinstance(s.a[0], str)}

                def ren2(x, ch):
                    if isfn(x, "mse_loss", "binary_cross_entropy"):
                        nm = "mse" if isfn(x, "mse_loss") else "bce"
                        kw = dict(x.a[2])
                        a = list(x.a[1]) + [None, None]
                        p, q = kw.get("input", a[0]), kw.get("target", a[1])
                        ok = is_const(kw.get("reduction", NONE), "sum") and p is not None and q is not None and contains(p, lambda s: s.k == "param" and s.a[-1] == "x_rec") and contains(q, lambda s: s.k == "param" and s.a[-1] == "x")
                        ok = ok or nm == "mse" and is_const(kw.get("reduction", NONE), "sum") and contains(q, lambda s: s.k == "param" and s.a[-1] == "x_rec") and contains(p, lambda s: s.k == "param" and s.a[-1] == "x")
                        return S("E" if ok and (not kinds or nm in kinds) else "E?")
                    return None
                p = Lin(rename=ren2).ev(v, {})
                if not any(x.k == "sym" and x.a[0].startswith("E") for m in p for x, _ in m):
                    continue
                chk.ob("loss", f"{c.name}._reconstruction_loss:{'/'.join(sorted(kinds))}", p == R(op("div", (S("E"), S("N")))), W2, f"the reconstruction loss is the summed error of the reconstruction against the input per sample; found {show_poly(p)}")
    for n in ("train_apc_step", "evaluate_apc", "fit_apc"):
        q = APC + ".train." + n
        if not has(ix, q):
            continue
        f = ix.functions[q]
        r = ctx.run_func(f, opaque=("loss_components",))
        W = f"{f.file}:{f.line}"
        for b in dedup([e for e in r.events if e.kind == "call" and e.name == "backward" and not e.inlined]):
            t = b.recv
            ok = t.k == "item" and is_const(t.a[1], "total") and isfn(t.a[0], "loss_components") or isfn(t, "loss")
            chk.ob("loss", f"{n}:backward", ok, b.where, "the total loss must be back-propagated")
        averages(ctx, chk, f, r, n, W)
        if n == "fit_apc":
            for e in r.events:
                if e.kind != "call" or e.name != "loss_components" or not e.loops:
                    continue
                src = {s.a[-1] for s in walk(e.loops[-1]) if s.k == "param" and s.a[-1] in ("train_data", "val_data")}
                upd = any(x.kind == "call" and x.name == "backward" and x.loops == e.loops for x in r.events)
                chk.ob("validation" if not upd else "batches", f"{n}:data", src == ({"train_data"} if upd else {"val_data"}), e.where, "training uses the training data, validation the validation data")
    training_flag(ctx, chk)
    q = APC + ".train.evaluate_apc"
    if has(ix, q):
        f = ix.functions[q]
        r = ctx.run_func(f, opaque=("loss_components",))
        ev = [e for e in r.events if e.kind == "call" and not e.inlined and e.name in ("train", "eval") and e.recv is not None and e.recv.k == "param"]
        lc = [e for e in r.events if e.kind == "call" and e.name == "loss_components"]
        for e in lc:
            m = [x for x in ev if x.seq < e.seq]
            chk.ob("validation", "evaluate_apc:mode", bool(m) and is_train(m[-1]) is False, e.where, "evaluation must run in evaluation mode")
            chk.ob("no-grad-eval", "evaluate_apc", no_grad(e), e.where, "evaluation must run without recording gradients")
            back = [x for x in ev if x.seq > e.seq]
            ok = any((x.name == "train" and not x.args and not x.kwargs and all(contains(c, lambda s: s.k == "attr" and s.a[1] == "training") and v for c, v in x.guards if c.k != "forall"))
                     or x.name == "train" and (x.args or x.kwargs) and contains((list(x.args) + list(x.kwargs.values()))[0], lambda s: s.k == "attr" and s.a[1] == "training") for x in back)
            chk.ob("validation", "evaluate_apc:restored", ok, e.where, "the previous training mode must be restored after evaluation")


def latent(t):
    """the encoder's result or a part of it"""
    t = core(t)
    while t.k == "item" or t.k == "attr":
        t = core(t.a[0])
    return isfn(t, "encode")


def training_flag(ctx, chk):
    """a saved training flag is read before the mode is changed"""
    ix = ctx.ix
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if not f.qual.startswith((APC, GD, CMS)):
            continue
        reads, evals = [], []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == "training" and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                reads.append((n.lineno, n.value.id))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("eval", "train") and isinstance(n.func.value, ast.Name):
                evals.append((n.lineno, n.func.value.id))
        for ln, v in reads:
            chk.ob("validation", f"{f.name}:flag", not any(w == v and l < ln for l, w in evals), f"{f.file}:{ln}", "the training flag must be saved before the mode is changed")


def poly_zero(t):
    return any(is_zero(core(a)) for a in alts(t))


def averages(ctx, chk, f, r, con, W):
    """metrics are averaged over samples: sum of (metric * rows of its batch) divided by the number of rows"""
    for e in r.events:
        if e.kind != "store_item" or e.term is None or not e.loops or not isinstance(e.idx, T):
            continue
        t = e.term
        if not value_contains(t, lambda s: isfn(s, "loss_components")):
            continue
        # peel the accumulator
        add_ = None
        if t.k == "op" and t.a[0] == "add" and len(t.a[1]) == 2:
            for i in (0, 1):
                if t.a[1][i].k == "item" and t.a[1][i].a[1] is e.idx and not (isfn(t.a[1][i].a[0], "loss_components")) or t.a[1][i].k == "phi" and t.a[1][i].a[0].k == "loopcarried":
                    add_ = t.a[1][1 - i]
        if add_ is None:
            chk.ob("metrics", con + ":average", False, e.where, "the metric must be accumulated over batches")
            continue
        S = lambda n: T("sym", n)

        def ren(x, ch):
            y = x
            while isfn(y, "float", "item", "detach", "cpu") and y.k in ("op", "call"):
                y = y.a[1][0] if y.a[1] else y.a[0].a[0]
            if y.k == "item" and isfn(core(y.a[0]), "loss_components"):
                return S("M" if y.a[1] is e.idx else "M?")
            if y.k in ("item",) and y.a[1] is e.idx and value_contains(y.a[0], lambda s: isfn(s, "loss_components")):
                return S("M")
            if is_size(x):
                b = size_base(x)
                return S("N" if contains(b, lambda s: s.k == "elem" and any(s.a[0] is q for l in e.loops for q in sources(l))) else "N?")
            return None
        ps = [p for _, p in cases(lambda ch: Lin(rename=ren).ev(add_, ch), limit=64)]
        want = {frozenset({(S("M"), 1), (S("N"), 1)}): 1}
        chk.ob("metrics", con + ":average", all({m: int(v) for m, v in p.items()} == want for p in ps), e.where, f"each batch must count with its number of rows; found {show_poly(ps[0]) if ps else None}")
    divs = set()
    terms = [r.value] + [e.term for e in r.events if e.term is not None and e.kind == "call" and e.name in ("update", "append")]
    for t in terms:
        for s in walk(t) if t is not None else ():
            if s.k == "op" and s.a[0] == "div" and len(s.a[1]) == 2 and s.a[1][0].k == "val":
                divs.add(s)
    for s in divs:
        d = s.a[1][1]
        sz = [x for x in walk(d) if is_size(x) and contains(size_base(x), lambda q: q.k == "elem")]
        chk.ob("metrics", con + ":divisor", bool(sz) and accum(d), W, f"averages divide by the number of rows seen, not {show(d, 3)}")


def size_base(x):
    x = core(x)
    while isfn(x, "int", "float", "len", "size") and (x.a[1]):
        x = x.a[1][0]
    while x.k in ("item", "attr"):
        x = x.a[0]
        if x.k == "attr" and x.a[1] == "shape":
            return x.a[0]
    return x


def accum(t):
    return any(x.k == "op" and x.a[0] == "add" and len(x.a[1]) == 2 and any(y.k == "phi" or is_zero(y) for y in x.a[1]) for x in walk(t))


def improvement(c):
    """(best, score) when c is the 'better than the best so far' test: at least one ordering atom against a loop-carried value"""
    for a in bool_atoms(c):
        n = norm_lt(a, True)
        if n is None:
            continue
        for i in (0, 1):
            x, y = n[i], n[1 - i]
            if x.k == "phi" and "loopcarried" in show(x.a[0], 1) and value_contains(y, lambda s: isfn(s, "mean", "logsumexp")) and value_contains(x, lambda s: isfn(s, "mean", "logsumexp")):
                return a, i == 0, y, n
    return None


def mixtures(ctx, chk):
    ix = ctx.ix
    S = lambda n: T("sym", n)
    for f, r, bs in trainers(ctx):
        if f.module.name != CMS and not f.qual.startswith(CMS):
            continue
        rc = raise_conds(r)
        for n, b in enumerate(dedup(bs)):
            con = f.name + (f"#{n}" if n else "")
            it = b.loops[-1] if b.loops else None
            opt = next((e.recv for e in r.events if e.kind == "call" and e.name == "step" and e.loops == b.loops), None)
            owners = [param_owner(p) for k, p, a in opt_roots(opt) if k == "made"] if opt is not None else []
            chk.ob("loss", con, mix_loss(b.recv, -1, lambda s: is_elem(s, it), owners), b.where, f"the loss must be the negative mean mixture log-likelihood of the batch, not {show(b.recv, 4)}")
            ep = b.loops[:-1]
            snaps = []
            for e in r.events:
                if e.kind == "call" and e.name in ("clone", "deepcopy") and e.loops[:len(ep)] == ep and e.seq > b.seq and it not in e.loops:
                    im = [(c, v, improvement(c)) for c, v in e.guards if improvement(c) is not None]
                    if im:
                        snaps.append((e, im))
            mine = [(e, im) for e, im in snaps if owners and owners[0] is not None and contains(e.term, owners[0])]
            chk.ob("best-snapshot", con, bool(mine), b.where, "the best parameters must be kept as a copy (clone), or later updates overwrite them")
            for e, im in mine:
                for c, v, (a, best_small, score, nl) in im:
                    n2 = norm_lt(a, v)
                    ok = v == best_small and n2 is not None and n2[2] and (c is a or c.k == "op" and c.a[0] == ("or" if v else "and"))
                    chk.ob("best-snapshot", con + ":better", ok, e.where, "the snapshot is taken exactly when the validation log-likelihood improves")
                    for dv in (True, False):
                        chk.ob("best-snapshot", con + (":val-score" if dv else ":train-score"), mix_score(score, owners, dv), e.where,
                               f"the score must be the mean mixture log-likelihood of the {'validation' if dv else 'training'} data under the current parameters")
            # used in the end
            if mine:
                e0 = mine[0][0]
                ow = owners[0]
                if ow is not None and ow.k in ("call", "op") and isfn(ow, "Parameter"):
                    vals = [v for g, v in r.returns] if f.name != con.split("#")[0] or True else []
                    res = any(contains(v, e0.term) for v in vals) or any(contains(x, e0.term) for x in [q.term for q in r.events if q.kind == "call" and q.seq > e0.seq and q.term is not None and not q.loops])
                    chk.ob("best-used", con, res, e0.where, "the best latent points must be what is returned")
                else:
                    ld = [e for e in r.events if e.kind == "call" and e.name == "load_state_dict" and e.recv is ow and e.seq > e0.seq]
                    ok = [e for e in ld if (e.args or e.kwargs) and contains((list(e.args) + list(e.kwargs.values()))[0], e0.term) and not e.loops]
                    ok = [e for e in ok if all(c.k == "op" and c.a[0] in ("is", "isnot") and contains(c, e0.term) or contains(c, lambda s: s.k == "op" and s.a[0] in ("is", "isnot") and contains(s, e0.term)) for c, v in extra(e, b, rc))]
                    chk.ob("best-used", con, bool(ok), e0.where, "the best decoder must be restored after training")
                    later = [e for e in r.events if e.kind == "call" and e.recv is None and False]
            # scored in evaluation mode
            for ow in owners:
                if ow is None:
                    continue
                ev = [e for e in r.events if e.kind == "call" and not e.inlined and e.name in ("train", "eval") and e.recv is ow]
                if not ev:
                    continue
                for e in r.events:
                    if e.kind == "call" and e.name == "logsumexp" and not e.inlined and e.seq > b.seq and e.loops[:len(ep)] == ep and ep and it not in e.loops and value_contains(e.term, lambda s: s is ow):
                        m = [x for x in ev if x.seq < e.seq]
                        chk.ob("validation", con + ":mode", bool(m) and is_train(m[-1]) is False, e.where, "validation must run in evaluation mode")
            # patience
            for e in r.events:
                if e.kind != "break" or e.loops != ep or e.seq < b.seq:
                    continue
                if any(x.seq > b.seq and x.seq < e.seq and x.kind == "call" and x.name == "backward" and x.loops != b.loops for x in r.events):
                    continue
                pg = [(c, v) for c, v in extra(e, b, rc) if norm_lt(c, v) is not None and contains(c, lambda s: "patience" in str(s.a[-1]) if s.k in ("param", "attr") else False)]
                cnt = None
                en = [1 for c, v in pg if is_pat(core(norm_lt(c, v)[1])) and num(norm_lt(c, v)[0]) is not None]
                if pg:
                    chk.ob("patience", con + ":switch", bool(en), e.where, "early stopping must be off when patience is 0")
                for c, v in pg:
                    a, b_, strict = norm_lt(c, v)
                    if is_pat(core(b_)) and num(a) is not None:
                        chk.ob("patience", con + ":enabled", num(a) == 0 and strict or num(a) == 1 and not strict, e.where, "patience 0 switches early stopping off")
                    elif is_pat(core(a)) or is_pat(core(b_)):
                        cnt = (a, b_, strict)
                ok = cnt is not None and is_pat(core(cnt[0])) and not is_pat(core(cnt[1]))
                chk.ob("patience", con, ok, e.where, "training stops early only when the epochs without improvement reach the patience")
                if ok:
                    x = cnt[1]
                    x0 = unimproved(x)
                    inc = x0.k == "op" and x0.a[0] == "add" and len(x0.a[1]) == 2 and any(num(y) == 1 for y in x0.a[1])
                    chk.ob("patience", con + ":count", inc and not cnt[2], e.where, "the counter grows by one per epoch without improvement and stops at the patience")
                    res = [s for s in walk(x) if s.k == "phi" and improvement(s.a[0]) is not None]
                    chk.ob("patience", con + ":reset", bool(res) and all(is_zero(s.a[1] if improvement(s.a[0])[1] else s.a[2]) for s in res), e.where, "the counter restarts on improvement")
                im = [(c, v, improvement(c)) for c, v in e.guards if improvement(c) is not None]
                for c, v, (a, best_small, score, nl) in im:
                    chk.ob("patience", con + ":worse", v != best_small, e.where, "training may stop only in an epoch without improvement")
    compiled(ctx, chk)


def is_pat(t):
    return t.k in ("param", "attr") and "patience" in str(t.a[-1])


def unimproved(x):
    while x.k == "phi" and improvement(x.a[0]) is not None:
        x = x.a[2] if improvement(x.a[0])[1] else x.a[1]
    return x


def mix_ll(t):
    """logsumexp over the component axis of component likelihoods plus log weights"""
    if not (t.k == "op" and t.a[0] == "logsumexp" and t.a[1]):
        return None
    if not is_const(dict(t.a[2]).get("dim", t.a[1][1] if len(t.a[1]) > 1 else NONE), 0):
        return None
    x = t.a[1][0]
    if not (x.k == "op" and x.a[0] == "add" and len(x.a[1]) == 2):
        return None
    out = None
    for i in (0, 1):
        w, l = x.a[1][i], x.a[1][1 - i]
        w = peel(w)
        if w.k == "op" and w.a[0] == "log" and w.a[1] and not value_contains(w, lambda s: s.k == "param" and s.a[-1] == "data"):
            y = w.a[1][0]
            while y.k == "op" and y.a[0] in ("clamp", "clamp_min") and y.a[1]:
                y = y.a[1][0]
            out = l
    return out


def mix_loss(t, sign, batch, owners):
    def ren(x, ch):
        m = mix_ll(x)
        if m is not None:
            ok = value_contains(m, batch) and all(o is None or value_contains(m, o) for o in owners)
            return T("sym", "LL" if ok else "LL?")
        return None
    ref = op("mean", (T("sym", "LL"),))
    ref = Lin(rename=lambda x, ch: x if x.k == "sym" else None).ev(ref if sign > 0 else op("neg", (ref,)), {})
    ps = [p for _, p in cases(lambda ch: Lin(rename=ren).ev(t, ch), limit=64)]
    return bool(ps) and all(p == ref for p in ps)


def mix_score(t, owners, val):
    while isfn(t, "float", "item") and (t.a[1] or t.k == "call" and t.a[0].k == "attr"):
        t = t.a[1][0] if t.a[1] else t.a[0].a[0]
    start = {}
    for s in walk(t):
        if s.k == "phi":
            for a in bool_atoms(s.a[0]):
                if a.k == "op" and a.a[0] == "is" and any(is_const(x, None) for x in a.a[1]) and contains(a, lambda q: q.k == "param" and q.a[-1] == "val_data"):
                    start[a] = not val
    t = Lin().res(t, start)
    isval = lambda s: s.k == "param" and s.a[-1] == "val_data"
    istrain = lambda s: s.k == "param" and s.a[-1] == "data"
    return mix_loss(t, 1, (lambda s: isval(s)) if val else (lambda s: istrain(s)), owners) and (not val or True) and not (not val and value_contains(t, lambda s: s.k == "elem" and contains(s, lambda q: isfn(q, "_iter_minibatches"))))


def compiled(ctx, chk):
    """the compiled factorised mixture has the component densities that were trained"""
    ix = ctx.ix
    if not has(ix, CMS + "._factorized_component_ll") or not has(ix, CMS + "._compile_factorized"):
        return
    f = ix.functions[CMS + "._factorized_component_ll"]
    r = ctx.run_func(f)
    g = ix.functions[CMS + "._compile_factorized"]
    rg = ctx.run_func(g)
    S = lambda n: T("sym", n)
    R = lambda t: Lin(rename=lambda x, ch: x if x.k == "sym" else None).ev(t, {})
    W = f"{f.file}:{f.line}"
    mulc = lambda c, *ts: op("mul", (const(c), ts[0])) if len(ts) == 1 else op("mul", (const(c), op("mul", tuple(ts))))
    for gs, v in value_alts(r.value):
        kinds = {str(s.a[0]) for c, b in gs for s in walk(c) if b and s.k == "const" and isinstance(s.a[0], str)}
        fam = next(iter(kinds), "normal")
        con = f"{f.name}:{fam}"
        if not (v.k == "op" and v.a[0] == "sum" and v.a[1]):
            continue
        d = dict(v.a[2]).get("dim")
        chk.ob("component-density", con + ":features", d is not None and (is_const(d, 2) or is_const(d, -1)), W, "log-densities are summed over the features")
        w = v.a[1][0]
        if w.k == "op" and w.a[0] == "where" and len(w.a[1]) == 3:
            m = core(w.a[1][0])
            chk.ob("component-density", con + ":missing", m.k == "op" and m.a[0] in ("isfinite", "not_") and is_zero(w.a[1][2]), W, "missing values contribute a factor of one")
            w = w.a[1][1]

        m = {}
        for t in walk(w):
            if t.k == "op" and t.a[0] == "logsigmoid" and t.a[1]:
                m[t] = op("neg", (op("softplus", (op("neg", (t.a[1][0],)),)),))
            if t.k in ("op", "call") and isfn(t, "binary_cross_entropy_with_logits") and is_const(dict(t.a[2]).get("reduction", NONE), "none") and (set(dict(t.a[2])) <= {"reduction", "target", "input"}):
                a_ = list(t.a[1]) + [None, None]
                l_, x_ = dict(t.a[2]).get("input", a_[0]), dict(t.a[2]).get("target", a_[1])
                if l_ is not None and x_ is not None:
                    m[t] = op("add", (op("mul", (x_, op("softplus", (op("neg", (l_,)),)))), op("mul", (op("sub", (const(1), x_)), op("softplus", (l_,))))))
        if m:
            w = subst(w, m)

        def ren(x, ch):
            y = peel(x)
            if y.k == "op" and y.a[0] == "where" and value_contains(y, lambda s: is_param(s, "data")) and not value_contains(y, lambda s: is_param(s, "decoder_out")):
                return S("x")
            if y.k == "op" and y.a[0] == "softplus" and y.a[1]:
                z = peel(y.a[1][0])
                neg = False
                if z.k == "op" and z.a[0] == "neg":
                    z, neg = peel(z.a[1][0]), not neg
                if is_param(z, "decoder_out"):
                    return S("sp-" if neg else "sp+")
            b = half(y)
            if b == 0:
                return S("loc")
            if is_scale(y):
                return S("s")
            if y.k == "op" and y.a[0] == "log" and y.a[1] and is_scale(peel(y.a[1][0])):
                return S("logs")
            if y.k == "op" and y.a[0] == "log" and y.a[1] and contains(y.a[1][0], lambda s: s.k == "global" and str(s.a[0]).endswith("pi")) :
                two = any(num(s) == 2 for s in walk(y.a[1][0]))
                return S("log2pi" if two else "logpi")
            return None
        try:
            ps = [p for _, p in cases(lambda ch: Lin(rename=ren).ev(w, ch), limit=32)]
        except RecursionError:
            ps = []
        if fam == "bernoulli":
            one = const(1)
            ref = R(op("add", (op("neg", (op("mul", (S("x"), S("sp-"))),)), op("neg", (op("mul", (op("sub", (one, S("x"))), S("sp+"))),)))))
            chk.ob("component-density", con, bool(ps) and all(p == ref for p in ps), W, f"Bernoulli log-density of the decoded logits; found {show_poly(ps[0]) if ps else None}")
        elif fam == "normal":
            z = op("div", (op("sub", (S("x"), S("loc"))), S("s")))
            ref = R(op("mul", (const(-0.5), op("add", (op("add", (op("mul", (z, z)), op("mul", (const(2.0), S("logs"))))), S("log2pi"))))))
            chk.ob("component-density", con, all(p == ref for p in ps), W, f"Normal log-density of the decoded location and scale; found {show_poly(ps[0]) if ps else None}")
        elif fam == "categorical":
            t = peel(w)
            ok = isfn(t, "gather", "take_along_dim")
            src = t.a[1][0] if ok and t.a[1] else None
            idx_ = (dict(t.a[2]).get("index") or (t.a[1][-1] if t.a[1] else None)) if ok else None
            ok = ok and any(s.k == "op" and s.a[0] == "log_softmax" and (is_const(dict(s.a[2]).get("dim", NONE), 2) or is_const(dict(s.a[2]).get("dim", NONE), -1)) for s in walk(src)) and value_contains(src, lambda s: is_param(s, "decoder_out"))
            ok = ok and idx_ is not None and value_contains(idx_, lambda s: is_param(s, "data"))
            d = dict(t.a[2]).get("dim") if ok else None
            ok = ok and d is not None and (is_const(d, 3) or is_const(d, -1))
            chk.ob("component-density", con, ok, W, "Categorical log-density of the decoded logits at the observed category")
    for e in rg.events:
        if e.kind != "call" or e.inlined or e.name not in ("Bernoulli", "Categorical", "Normal"):
            continue
        con = f"{g.name}:{e.name.lower()}"
        kw = e.kwargs
        sl = {}
        for p in ("logits", "loc", "scale"):
            v = kw.get(p)
            if v is None:
                continue
            v = peel(v)
            ok = v.k == "item" and one_feature(v.a[1], e.loops)
            chk.ob("compiled", f"{con}:{p}:feature", ok, e.where, "leaf j must take the decoded parameters of feature j")
            base = peel(v.a[0]) if v.k == "item" else v
            if p == "logits":
                chk.ob("compiled", f"{con}:{p}", is_row(base), e.where, "the compiled logits must be the decoder's output for the component")
            if p == "loc":
                chk.ob("compiled", f"{con}:{p}", half(base) == 0, e.where, "the compiled location must be the first half of the decoder's output")
            if p == "scale":
                chk.ob("compiled", f"{con}:{p}", is_scale(base), e.where, "the compiled scale must be softplus of the second half plus the training offset")
        chk.ob("compiled", con, set(kw) & {"logits", "loc", "scale"} == ({"loc", "scale"} if e.name == "Normal" else {"logits"}), e.where, "the compiled leaf takes the trained parametrisation")
        sc = kw.get("scope")
        chk.ob("compiled", con + ":scope", sc is not None and bool(e.loops) and contains(sc, lambda s: is_elem(s, e.loops[-1])), e.where, "leaf j must model feature j")


def is_row(t):
    """decoder output of the current component"""
    return t.k == "item" and t.a[1].k in ("elem",) and value_contains(t.a[0], lambda s: s.k == "param" and s.a[-1] == "decoder") or t.k == "elem" and value_contains(t.a[0], lambda s: s.k == "param" and s.a[-1] == "decoder")


def one_feature(i, loops):
    if not loops:
        return False
    if i.k == "slice":
        lo, hi = core(i.a[0]), core(i.a[1])
        return is_elem(lo, loops[-1]) and hi.k == "op" and hi.a[0] == "add" and any(x is lo for x in hi.a[1]) and any(num(x) == 1 for x in hi.a[1])
    return is_elem(core(i), loops[-1])


def half(t):
    """which half of the decoder output t is"""
    t = peel(t)
    if t.k == "item" and t.a[1].k == "const" and t.a[0].k == "op" and t.a[0].a[0] in ("chunk",):
        n = dict(t.a[0].a[2]).get("chunks") or (t.a[0].a[1][1] if len(t.a[0].a[1]) > 1 else NONE)
        if is_const(n, 2):
            return t.a[1].a[0]
    return None


def is_scale(t):
    t = peel(t)
    if not (t.k == "op" and t.a[0] == "add" and len(t.a[1]) == 2):
        return False
    for i in (0, 1):
        s, c = peel(t.a[1][i]), t.a[1][1 - i]
        if s.k == "op" and s.a[0] == "softplus" and s.a[1] and half(peel(s.a[1][0])) == 1 and contains(c, lambda q: is_param(q, "normal_eps")) and not contains(c, lambda q: q.k == "op" and q.a[0] in ("mul", "add", "sub", "div")):
            return True
    return False


def metrics(ctx, chk):
    """counters behind the reported accuracies"""
    ix = ctx.ix
    c = ix.classes.get(GD + ".TrainingMetrics")
    if c is None:
        return
    S = lambda n: T("sym", n)
    R = lambda t: Lin(rename=lambda x, ch: x if x.k == "sym" else None).ev(t, {})
    for m, f in sorted(c.methods.items()):
        kind = "train" if "train" in m else "val" if "val" in m else None
        W = f"{f.file}:{f.line}"
        if m.startswith("update") and kind:
            r = ctx.run(c, m)
            seen = set()
            for e in r.events:
                if e.kind == "store_attr":
                    at = e.idx if isinstance(e.idx, str) else e.name
                    right = kind in at
                    chk.ob("metrics", f"{c.name}.{m}:{at}", right, e.where, "a batch updates only the counters of its own phase")
                    v = e.term
                    me = lambda x: x.k == "attr" and x.a[1] == at and x.a[0].k == "self"
                    what = None
                    if v.k == "op" and v.a[0] == "add" and len(v.a[1]) == 2:
                        o = [x for x in v.a[1] if not me(core(x))]
                        if len(o) == 1:
                            what = core(o[0])
                            while isfn(what, "item", "int", "float") and (what.a[1] or what.k == "call"):
                                what = core(what.a[1][0] if what.a[1] else what.a[0].a[0])
                    if "correct" in at:
                        seen.add("correct")
                        ok = what is not None and what.k == "op" and what.a[0] == "sum" and what.a[1][0].k == "op" and what.a[1][0].a[0] == "eq" and {s.a[-1] for s in map(core, what.a[1][0].a[1]) if s.k == "param"} == {"predicted", "targets"}
                        chk.ob("metrics", f"{c.name}.{m}:{at}:count", ok, e.where, "the number of correct predictions of the batch is added")
                    elif "total" in at:
                        seen.add("total")
                        ok = what is not None and (is_size(what) or isfn(what, "numel", "len")) and contains(what, lambda s: s.k == "param")
                        chk.ob("metrics", f"{c.name}.{m}:{at}:count", ok, e.where, "the number of targets of the batch is added")
            ap = [e for e in r.events if e.kind == "call" and e.name == "append" and e.args]
            for e in ap:
                at = next((s.a[1] for s in walk(e.recv) if s.k == "attr" and s.a[0].k == "self"), "")
                chk.ob("metrics", f"{c.name}.{m}:losses", kind in at and is_param(core(e.args[0]), "loss") and not e.guards, e.where, "the batch loss is recorded in its own phase")
        if "accuracy" in m and kind:
            r = ctx.run(c, m)
            for g, v in value_alts(r.value):
                if is_zero(v):
                    continue
                p = Lin(rename=lambda x, ch: S("c:" + x.a[1]) if x.k == "attr" and x.a[0].k == "self" else None).ev(v, {})
                want = {frozenset({(S(f"c:{kind}_correct"), 1), (S(f"c:{kind}_total"), -1)}): 100}
                chk.ob("metrics", f"{c.name}.{m}", {k: int(q) for k, q in p.items()} == want, W, f"accuracy is 100 * correct / total of its own phase; found {show_poly(p)}")
        if "reset" in m:
            r = ctx.run(c, m)
            zero = {e.idx for e in r.events if e.kind == "store_attr" and is_zero(e.term)}
            init = {e.idx for e in ctx.run(c, "__init__").events if e.kind == "store_attr" and isinstance(e.idx, str) and e.idx.endswith(("_correct", "_total"))}
            chk.ob("metrics", f"{c.name}.{m}", init <= zero, W, f"counters not restarted for the epoch: {sorted(init - zero)}")
