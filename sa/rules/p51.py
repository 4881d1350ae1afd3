"""Class posteriors, predictions, supervised fitting and the scikit-learn wrappers."""
import ast

from ..lib import *
from ..terms import *
from ..ctx import *
from ..ip import uncast
from .p53 import opname, callargs
from .p55 import aggregation
from .p15 import truncating

ID = "P51"
TITLE = "Classifiers return the Bayes posterior of their class likelihoods and priors"
EXPL = ("Axis-labelled normal forms (sums of class log-likelihoods, log-priors and log-sum-exp terms over named axes) of every log_posterior/predict_proba, compared with likelihood plus prior minus their log-sum-exp over the class axis; "
        "matching of the priors' mixture node against the node whose class likelihoods are used; argmax axis of every predict; axis tracking of the one-hot class weights and class counts of supervised fitting; and the aggregation chain and label mapping of the scikit-learn wrappers.")
ASSUME = ("the class mixture is a Sum over the class-conditional circuit (P07)",)
SKR = "spflow.interfaces.sklearn._reduce_log_likelihood"


class Stuck(Exception):
    pass


class Bad(Exception):
    pass


class Lin:
    """coefficients over atoms 'L', 'W' and ('lse', frozenset of (atom, coefficient), axis); axes are labels, '1' for unit axes"""

    def __init__(self, axes, co, post=()):
        self.axes, self.co, self.post = list(axes), {k: v for k, v in co.items() if v}, tuple(post)

    def key(self):
        return frozenset(self.co.items())


def pattern(axes, pat):
    l, r = [x.split() for x in pat.split("->")]
    if len(l) != len(axes) or any(x in "()" for x in pat):
        raise Stuck(f"rearrange {pat} of {axes}")
    m = {}
    for x, y in zip(l, axes):
        if x == "1" and y != "1":
            raise Stuck(f"rearrange {pat}: axis {y} is not of size one")
        if x != "1":
            m[x] = y
    if set(m) != {x for x in r if x != "1"}:
        raise Stuck(f"rearrange {pat}")
    return [m.get(x, "1") for x in r]


class Eval:
    def __init__(self, leaf, assume=lambda c: None):
        self.leaf, self.assume = leaf, assume

    def dim(self, t, k=1, default=None):
        kw = dict(t.a[2])
        d = kw.get("dim", kw.get("axis"))
        if d is None and len(t.a[1]) > k:
            d = t.a[1][k]
        v = num(d) if d is not None else default
        if v is None:
            raise Stuck("dim of " + show(t, 2))
        return int(v)

    def align(self, a, b):
        n = max(len(a), len(b))
        a, b = ["1"] * (n - len(a)) + a, ["1"] * (n - len(b)) + b
        out = []
        for x, y in zip(a, b):
            if x != y and "1" not in (x, y):
                raise Bad(f"axes {a} and {b} are combined")
            out.append(x if y == "1" else y)
        return out

    def ev(self, t):
        t = uncast(t)
        v = self.leaf(t)
        if v is not None:
            return v
        if t.k == "phi":
            c = self.assume(t.a[0])
            if c is not None:
                return self.ev(t.a[1] if c else t.a[2])
            x, y = self.ev(t.a[1]), self.ev(t.a[2])
            if (x.axes, x.co, x.post) == (y.axes, y.co, y.post):
                return x
            raise Stuck("choice " + show(t.a[0], 3))
        if t.k == "item":
            b = self.ev(t.a[0])
            idx = t.a[1].a[0] if t.a[1].k == "tuple" else (t.a[1],)
            ax, i = [], 0
            for x in idx:
                if is_const(x, None):
                    ax.append("1")
                    continue
                if i >= len(b.axes):
                    raise Stuck("index")
                if x.k == "slice" and all(is_const(q, None) for q in x.a):
                    ax.append(b.axes[i])
                elif num(x) in (0, -1) and b.axes[i] == "1":
                    pass
                else:
                    raise Stuck("index " + show(t, 3))
                i += 1
            return Lin(ax + b.axes[i:], b.co, b.post)
        if t.k != "op":
            raise Stuck("step " + show(t, 3))
        n, a = t.a[0], t.a[1]
        kw = dict(t.a[2])
        if n in ("to", "contiguous", "clone", "float", "double", "detach", "type_as"):
            return self.ev(a[0])
        if n == "rearrange":
            b = self.ev(a[0])
            p = kw.get("pattern", a[1] if len(a) > 1 else None)
            return Lin(pattern(b.axes, p.a[0]), b.co, b.post)
        if n in ("view", "reshape"):
            b = self.ev(a[0])
            s = kw.get("shape")
            s = list(s.a[0]) if s is not None and s.k == "tuple" else list(a[1:]) if len(a) > 1 and a[1].k not in ("tuple", "list") else list(a[1].a[0]) if len(a) > 1 else []
            real = [x for x in b.axes if x != "1"]
            free = [x for x in s if num(x) != 1]
            if len(free) == len(real):
                it = iter(real)
                return Lin(["1" if num(x) == 1 else next(it) for x in s], b.co, b.post)
            if len(free) == 1 and len(real) == 2:
                return Lin(["1" if num(x) == 1 else "*".join(real) for x in s], b.co, b.post)
            raise Stuck("view")
        if n == "flatten" and len([x for x in self.ev(a[0]).axes if x != "1"]) == 1 and not kw and len(a) == 1:
            b = self.ev(a[0])
            return Lin([x for x in b.axes if x != "1"], b.co, b.post)
        if n == "unsqueeze":
            b = self.ev(a[0])
            d = self.dim(t)
            ax = list(b.axes)
            ax.insert(d if d >= 0 else len(ax) + 1 + d, "1")
            return Lin(ax, b.co, b.post)
        if n == "squeeze":
            b = self.ev(a[0])
            if not kw and len(a) == 1:
                return Lin([x for x in b.axes if x != "1"], b.co, b.post)
            d = self.dim(t) % len(b.axes)
            return b if b.axes[d] != "1" else Lin(b.axes[:d] + b.axes[d + 1:], b.co, b.post)
        if n in ("transpose", "permute", "t"):
            b = self.ev(a[0])
            if n == "t" and len(b.axes) == 2:
                return Lin(b.axes[::-1], b.co, b.post)
            raise Stuck(n)
        if n in ("add", "sub") and len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            if x.post or y.post:
                raise Stuck("sum outside the log domain")
            co = dict(x.co)
            for k, v in y.co.items():
                co[k] = co.get(k, 0) + (v if n == "add" else -v)
            return Lin(self.align(x.axes, y.axes), co)
        if n in ("logsumexp", "log_softmax", "softmax", "exp", "log"):
            b = self.ev(a[0])
            if n == "exp":
                if b.post:
                    raise Stuck("exp")
                return Lin(b.axes, b.co, ("exp",))
            if n == "log":
                if b.post != ("exp",):
                    raise Stuck("log")
                return Lin(b.axes, b.co)
            if b.post:
                raise Stuck(n)
            d = self.dim(t) % len(b.axes)
            atom = ("lse", b.key(), b.axes[d])
            if b.co == {"Z": 1} and b.axes[d] == "co" and n != "logsumexp":
                return Lin(b.axes, {"W": 1}, ("exp",) if n == "softmax" else ())
            if n == "logsumexp":
                keep = "keepdim" in kw and is_const(kw["keepdim"], True)
                return Lin(b.axes[:d] + (["1"] if keep else []) + b.axes[d + 1:], {atom: 1})
            co = dict(b.co)
            co[atom] = co.get(atom, 0) - 1
            return Lin(b.axes, co, ("exp",) if n == "softmax" else ())
        if n == "div" and len(a) == 2 and opname(a[1]) == "sum":
            x = self.ev(a[0])
            q = self.ev(a[1].a[1][0])
            if x.post == ("exp",) and (x.co, x.post, x.axes) == (q.co, q.post, q.axes):
                d = self.dim(a[1]) % len(q.axes)
                if "keepdim" in dict(a[1].a[2]):
                    co = dict(x.co)
                    co[("lse", q.key(), q.axes[d])] = -1
                    return Lin(x.axes, co, ("exp",))
        raise Stuck("step " + show(t, 3))


LW = frozenset({("L", 1), ("W", 1)})
POST = {"L": 1, "W": 1, ("lse", LW, "co"): -1}


def selfattr(t):
    return t.a[1] if t.k == "attr" and t.a[0].k == "self" else None


def class_node(ctx, c, t):
    """name of the attribute holding the class mixture whose input t is, if t is such an input"""
    if t.k == "attr" and t.a[1] == "inputs" and selfattr(t.a[0]):
        return selfattr(t.a[0])
    nm = selfattr(t)
    if nm is None:
        return None
    r = ctx.run(c, "__init__")
    ev = [e for e in r.events if e.kind == "store_attr" and e.target is not None and e.target.k == "self"]
    # stores a later one on the same path does not overwrite
    st = [(e.idx, e.term) for e in ev if not any(x.seq > e.seq and x.idx == e.idx and set(x.guards) <= set(e.guards) for x in ev)]
    for name, v in st:
        if name == nm:
            continue
        for a in alts(v):
            if a.k == "call" and a.a[0].k == "global" and a.a[0].a[0] in ctx.ix.classes:
                x = dict(a.a[2]).get("inputs", a.a[1][0] if a.a[1] else None)
                if x is not None and (selfattr(x) == nm or any(n == nm and y is x for n, v2 in st for y in alts(v2))):
                    return name if isinstance(name, str) else str(name)
    return None


def posterior_leaf(ctx, c, seen):
    def leaf(t):
        if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "log_likelihood":
            seen["L"].add(t.a[0].a[0])
            seen["calls"].append(t)
            return Lin(["b", "1", "co", "1"], {"L": 1})
        if t.k == "attr" and t.a[1] == "log_weights":
            seen["W"].add(t.a[0])
            return Lin(["1", "co", "1", "1"], {"W": 1})
        if t.k == "attr" and t.a[1] == "weights":
            seen["W"].add(t.a[0])
            return Lin(["1", "co", "1", "1"], {"W": 1}, ("exp",))
        if t.k == "attr" and t.a[1] == "logits":
            seen["W"].add(t.a[0])
            return Lin(["1", "co", "1", "1"], {"Z": 1})
        return None
    return leaf


def posteriors(ctx, chk):
    f = ctx.ix.functions.get("spflow.utils.inference.log_posterior")
    if f is not None:
        r = ctx.run_func(f)

        def leaf(t):
            if t.k == "param" and t.a[1] == "log_likelihood":
                return Lin(["b", "co"], {"L": 1})
            if t.k == "param" and t.a[1] == "log_prior":
                return Lin(["1", "co"], {"W": 1})
        form(chk, "utils.inference.log_posterior", r, Eval(leaf), (), f)
    for c in sorted(ctx.ix.classes.values(), key=lambda k: k.qual):
        for m, post in (("log_posterior", ()), ("predict_proba", ("exp",))):
            f = ctx.ix.find_method(c, m)
            if f is None or f.cls is None or f.cls.name == "Classifier" or c.module.name.startswith("spflow.interfaces"):
                continue
            r = ctx.run(c, m)
            seen = {"L": set(), "W": set(), "calls": []}
            con = f"{c.name}.{m}"
            if not form(chk, con, r, Eval(posterior_leaf(ctx, c, seen)), post, f):
                continue
            nodes = {class_node(ctx, c, x) for x in seen["L"]}
            if None in nodes or len(seen["W"]) != 1 or len(nodes) != 1:
                if not seen["L"] or any(selfattr(x) is None and x.k != "attr" for x in seen["L"]):
                    chk.note(f"{con}: class likelihoods not recognised")
                else:
                    chk.ob("class-likelihoods", con, False, f"{f.file}:{f.line}", "the likelihoods must be those of the class mixture's input")
            else:
                w = selfattr(next(iter(seen["W"])))
                chk.ob("class-likelihoods", con, {w} == nodes, f"{f.file}:{f.line}", f"likelihoods of the input of {nodes} are combined with the weights of {w}")
            for t in seen["calls"]:
                a = dict(t.a[2])
                d = a.get("data", t.a[1][0] if t.a[1] else None)
                chk.ob("posterior-data", con, d is not None and all(core(x).k == "param" and core(x).a[1] == "data" for x in alts(d)), f"{f.file}:{f.line}", "the posterior must be that of the given rows")


def asw(k):
    """a normalised posterior is unaffected by the normalisation of the prior"""
    if k == "Z":
        return "W"
    return ("lse", frozenset((asw(a), v) for a, v in k[1]), k[2]) if isinstance(k, tuple) and k[0] == "lse" else k


def form(chk, con, r, E, post, f):
    got = False
    for g, v in r.returns:
        try:
            x = E.ev(v)
        except Stuck as e:
            chk.note(f"{con}: {e}")
            continue
        except Bad as e:
            chk.ob("posterior-form", con, False, f"{f.file}:{f.line}", str(e))
            continue
        got = True
        ok = {asw(k): v for k, v in x.co.items()} == POST and x.post == post and x.axes == ["b", "co"]
        chk.ob("posterior-form", con, ok, f"{f.file}:{f.line}", "" if ok else f"value over axes {x.axes} is {'exp of ' if x.post else ''}{describe(x.co)}, not log p(x|c) + log p(c) - logsumexp over classes")
    return got


def describe(co):
    def one(k):
        return {"L": "likelihood", "W": "prior", "Z": "unnormalised prior"}.get(k) or f"logsumexp[{k[2]}]({' + '.join(str(a[0]) if isinstance(a[0], str) else 'lse' for a in sorted(k[1], key=str))})" if isinstance(k, (str, tuple)) else str(k)
    return " ".join(f"{v:+d}*{one(k)}" for k, v in sorted(co.items(), key=str))


def predictions(ctx, chk):
    for c in sorted(ctx.ix.classes.values(), key=lambda k: k.qual):
        f = c.methods.get("predict") if hasattr(c, "methods") else ctx.ix.find_method(c, "predict")
        if f is None or f.cls is not c:
            continue
        r = ctx.run(c, "predict")
        con = f"{c.name}.predict"
        for g, v in r.returns:
            am = [s for s in walk(v) if opname(s) == "argmax"]
            if not am:
                bad = [s for s in walk(v) if opname(s) in ("argmin", "max", "topk", "argsort")]
                chk.ob("predict-argmax", con, not any(opname(s) == "argmin" for s in bad), f"{f.file}:{f.line}", "a prediction is the class of highest posterior")
                chk.note(f"{con}: no argmax")
                continue
            s = am[0]
            args = list(s.a[1]) if s.k == "op" else ([s.a[0].a[0]] if s.a[0].k == "attr" else []) + list(s.a[1])
            kw = dict(s.a[2])
            d = kw.get("dim", kw.get("axis", args[1] if len(args) > 1 else None))
            ok = d is not None and num(d) in (1, -1) and not (args and args[0].k == "op" and args[0].a[0] in ("neg", "sub"))
            chk.ob("predict-argmax", con, ok, f"{f.file}:{f.line}", "a prediction is the class of highest posterior")
            src = args[0] if args else kw.get("a", kw.get("input"))
            names = {opname(x) for x in walk(src)} | {x.a[0].a[1] for x in walk(src) if x.k == "call" and x.a[0].k == "attr"}
            chk.ob("predict-source", con, bool(names & {"predict_proba", "log_posterior", "log_likelihood"}), f"{f.file}:{f.line}", "predictions come from the class posteriors")
            if contains(v, lambda x: x.k == "attr" and x.a[1] == "classes_"):
                outer = [x for x in walk(v) if x.k == "item" and contains(x.a[0], lambda y: y.k == "attr" and y.a[1] == "classes_")] + [x for x in walk(v) if opname(x) in ("take", "index_select")]
                chk.ob("predict-label", con, any(contains(x.a[1], lambda y: y is s) if x.k == "item" else contains(x, lambda y: y is s) for x in outer), f"{f.file}:{f.line}", "the predicted index selects the fitted label")


def sk(ctx, chk):
    c = ctx.ix.cls("spflow.interfaces.sklearn.SPFlowClassifier")
    if c is not None:
        r = ctx.run(c, "fit")
        st = [e for e in r.events if e.kind == "store_attr" and e.idx == "classes_"]
        for e in st:
            for a in alts(e.term):
                u = [s for s in walk(a) if opname(s) in ("unique", "sorted")]
                ok = bool(u) and contains(u[0], lambda x: x.k == "param" and x.a[1] == "y") and a is u[0] or bool(u) and opname(a) in ("asarray", "array")
                chk.ob("labels-sorted", "SPFlowClassifier.fit", ok, e.where, "class i of the model is the i-th of the sorted labels")
        chk.ob("labels-kept", "SPFlowClassifier.fit", bool(st), f"{c.module.rel}:{c.node.lineno}", "fit stores the labels")
        r = ctx.run(c, "predict_proba")
        f = ctx.ix.find_method(c, "predict_proba")
        for g, v in r.returns:
            x = core(v)
            while x.k in ("op", "call") and opname(x) in ("numpy", "cpu", "detach", "asarray", "to"):
                x = (x.a[1][0] if x.a[1] else x.a[0].a[0])
            ok = x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "predict_proba"
            chk.ob("proba-passed", "SPFlowClassifier.predict_proba", ok, f"{f.file}:{f.line}", "the model's class probabilities are returned unchanged")
    c = ctx.ix.cls("spflow.interfaces.sklearn.SPFlowDensityEstimator")
    if c is not None:
        r = ctx.run(c, "score_samples", opaque_quals=(SKR,))
        f = ctx.ix.find_method(c, "score_samples")
        for g, v in r.returns:
            rd = [s for s in walk(v) if opname(s) == "_reduce_log_likelihood"]
            if not rd:
                chk.note("score_samples: reduction not recognised")
                continue
            kw = dict(rd[0].a[2])
            for k in ("channel_agg", "repetition_agg"):
                chk.ob("score-option", f"score_samples:{k}", k in kw and contains(kw[k], lambda x: x.k == "attr" and x.a[1] == k), f"{f.file}:{f.line}", f"the estimator's {k} must reach the reduction")
            ll = kw.get("ll", rd[0].a[1][0] if rd[0].a[1] else None)
            chk.ob("score-source", "score_samples", ll is not None and contains(ll, lambda x: x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "log_likelihood" and contains(x.a[0].a[0], lambda y: y.k == "attr" and y.a[1] == "model_")), f"{f.file}:{f.line}", "scores are the fitted model's log-likelihoods")
        # keep sklearn's aggregation chain in step with its definition
        aggregation(ctx, chk, SKR)


class Oh(Eval):
    pass


def supervised(ctx, chk):
    """leaf fitting by class: every leaf gets the one-hot class of each row as the weight of that class's channel"""
    for c in sorted(ctx.ix.classes.values(), key=lambda k: k.qual):
        f = ctx.ix.find_method(c, "maximum_likelihood_estimation")
        if f is None or f.cls is not c or "targets" not in f.all_param_names():
            continue
        r = ctx.run(c, "maximum_likelihood_estimation")
        con = f"{c.name}.maximum_likelihood_estimation"

        def tgt(t):
            return contains(t, lambda x: x.k == "param" and x.a[1] == "targets")

        def leaf(t):
            if t.k in ("op", "call") and opname(t) == "one_hot":
                kw = dict(t.a[2])
                a = list(t.a[1])
                src = kw.get("tensor", kw.get("input", a[0] if a else None))
                if src is None or not tgt(src) or opname(core(src)) in ("flip", "sub", "neg", "add"):
                    raise Stuck("one_hot of something else")
                n = kw.get("num_classes", a[1] if len(a) > 1 else None)
                if n is None or num(n) == -1:
                    raise Stuck("one_hot without the number of classes")
                return Lin(["b", "co"], {"H": 1})
            return None

        class E(Eval):
            def ev(self, t):
                if t.k in ("op", "call") and opname(t) in ("expand", "repeat", "expand_as", "broadcast_to"):
                    b = t.a[1][0] if t.k == "op" else t.a[0].a[0]
                    return self.ev(b)
                return super().ev(t)
        calls = [e for e in r.events if e.kind == "call" and e.name == "maximum_likelihood_estimation" and e.recv is not None]
        multi = [e for e in calls if e.kwargs.get("weights") is not None and tgt(e.kwargs["weights"])]
        for e in calls:
            has = e.kwargs.get("weights") is not None and not is_const(e.kwargs["weights"], None)
            noclass = any(contains(cc, lambda x: x.k == "attr" and x.a[1] == "num_classes") and (cc.k == "op" and cc.a[0] in ("eq", "ne", "lt", "le")) for cc, b in e.guards)
            if not has and not any(cc.k == "op" and cc.a[0] == "eq" and b and contains(cc, lambda x: x.k == "attr" and x.a[1] == "num_classes") for cc, b in e.guards) and noclass:
                chk.ob("class-weights", con, False, e.where, "every leaf is fitted with the rows' class weights")
        for e in multi:
            try:
                x = E(leaf).ev(e.kwargs["weights"])
                ok = x.co == {"H": 1} and not x.post and x.axes == ["b", "1", "co", "1"]
                chk.ob("class-weights", con, ok, e.where, f"class weights over axes {x.axes} must be the rows' one-hot classes on the channel axis")
            except (Stuck, Bad) as z:
                if isinstance(z, Bad) or "one_hot" in str(z) or "axis" in str(z):
                    chk.ob("class-weights", con, False, e.where, str(z))
                else:
                    chk.note(f"{con}: {z}")
            d = e.kwargs.get("data") or (e.args[0] if e.args else None)
            chk.ob("class-data", con, d is not None and core(d).k == "param" and core(d).a[1] == "data", e.where, "leaves are fitted to the given rows")
            if e.recv.k == "elem":
                src = e.recv.a[0]
                while src.k in ("call", "op") and opname(src) in ("list", "tuple", "enumerate", "zip", "reversed", "sorted") and src.a[1]:
                    src = src.a[1][0]
                whole = src.k == "attr" and src.a[0].k == "self"
                part = contains(src, lambda x: x.k == "slice") or contains(src, lambda x: opname(x) in ("islice", "range"))
                if whole or part:
                    chk.ob("class-leaves", con, whole and not truncating(r, src.a[1] if whole else "", f), e.where, "every leaf is fitted")
        # class frequencies
        common = {(repr(cc), bool(b)) for e in multi for cc, b in e.guards}
        for e in r.events:
            if e.kind == "store_attr" and e.idx in ("weights", "log_weights", "logits") and tgt(e.term):
                bc = [s for s in walk(e.term) if opname(s) in ("bincount", "one_hot")]
                ok = bool(bc)
                for s in bc:
                    if opname(s) == "bincount":
                        kw = dict(s.a[2])
                        ml = kw.get("minlength", s.a[1][2] if len(s.a[1]) > 2 else None)
                        ok = ok and ml is not None and contains(ml, lambda x: x.k == "attr" and x.a[1] == "num_classes")
                dv = [s for s in walk(e.term) if s.k == "op" and s.a[0] == "div"]
                ok = ok and any(contains(s.a[1][0], lambda x: x in bc) and opname(s.a[1][1]) == "sum" and core(s.a[1][1].a[1][0]) is core(s.a[1][0]) for s in dv)
                skip = [cc for cc, b in e.guards if (repr(cc), bool(b)) not in common and tgt(cc)] if multi else []
                chk.ob("class-frequencies-always", con, not skip, e.where, "whether the class prior is fitted does not depend on which classes the rows have" + "".join(f" ({show(cc)[:80]})" for cc in skip[:1]))
                chk.ob("class-frequencies", con, ok, e.where, "the class prior is the classes' frequency, counted for all classes and normalised")
        if not multi:
            chk.note(f"{con}: class-weighted fitting not recognised")


def check(ctx, chk):
    for part in (posteriors, predictions, sk, supervised):
        try:
            part(ctx, chk)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError, Stuck, Bad) as e:
            chk.note(f"{part.__name__}: source shape not analysed ({type(e).__name__}: {e})")
    chk.floor("posterior-form", 3)
