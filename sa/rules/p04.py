"""The log-likelihood of a row depends on that row alone."""
from ..lib import *
from ..axes import Axes, canon_ll

ID = "P04"
TITLE = "Each row's log-likelihood depends on that row and the parameters only"
EXPL = ("Named-axis dataflow over the value of every module's log_likelihood: no operation may reduce, normalise, accumulate, sort, "
        "permute or gather along an axis that stems from the batch axis of the evidence or of a child's log-likelihood, no whole-tensor "
        "reduction of evidence-dependent values, nor the batch size, may reach the result, and no random number may reach it.")
ASSUME = ("branch conditions that only select between equivalent code paths (e.g. any-NaN fast paths) are not followed",
          "axes that cannot be named are not judged (reported in the evidence)")
MIX = {"logsumexp", "sum", "mean", "nansum", "nanmean", "prod", "max", "min", "amax", "amin", "var", "std", "median", "softmax", "log_softmax", "cumsum",
       "cumprod", "logcumsumexp", "sort", "argsort", "topk", "flip", "roll", "norm", "argmax", "argmin", "any", "all", "quantile", "nanmedian", "mode",
       "normalize", "diff", "kthvalue"}
GATHER = {"gather", "index_select", "take_along_dim", "scatter", "scatter_add", "index_add"}
RANDOM = {"rand", "randn", "rand_like", "randn_like", "randint", "randperm", "bernoulli", "multinomial", "dropout", "gumbel_softmax", "normal", "rsample",
          "exponential_", "normal_", "uniform_", "bernoulli_", "permutation", "shuffle", "random_"}
SHAPEOPS = {"view", "reshape", "expand", "repeat", "zeros", "ones", "full", "empty", "arange", "repeat_e", "rearrange", "unflatten", "broadcast_to", "new_zeros",
            "new_ones", "new_full", "new_empty", "narrow", "split", "chunk", "size", "randn", "rand", "tile", "linspace", "eye", "range", "slice"}


def data_dep(x):
    return value_contains(x, lambda s: (s.k == "param" and s.a[1] in XN) or canon_ll(s).k == "LL")


def value_only(t):
    """subterms that flow into the value: conditions of branches, masks' emptiness tests and shape queries excluded"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or shape_only(x):
            continue
        seen.add(x)
        yield x
        if x.k == "phi":
            st += [x.a[1], x.a[2]]
        elif canon_ll(x).k == "LL":
            continue
        else:
            st.extend(children(x))


XN = ("data", "x", "evidence", "value", "values", "k")


def batch_axes(o):
    return {(b, i) for b, i in o if i == 0 and ((b.k == "param" and b.a[1] in XN) or b.k == "LL")}


def batch_size(x):
    """data.shape[0], len(data), data.size(0)"""
    if x.k == "item" and is_const(x.a[1], 0) and x.a[0].k == "attr" and x.a[0].a[1] == "shape":
        return data_dep(x.a[0].a[0])
    if x.k == "op" and x.a[0] in ("size", "len", "numel") and x.a[1] and data_dep(x.a[1][0]):
        return x.a[0] != "size" or any(is_const(y, 0) for y in list(x.a[1][1:]) + list(kwd(x).values()))
    return False


class BAxes(Axes):
    """axis inference that also recognises the batch axis by its size (data.shape[0] in a shape argument) and looks into lists of tensors"""

    def sized(self, sizes):
        out = []
        for z in sizes:
            out.append(frozenset([(T("param", "size", "data"), 0)]) if batch_size(core(z)) else frozenset())
        return tuple(out)

    def shape_args(self, t):
        args = list(t.a[1][1:]) if t.a[0] in ("view", "reshape", "expand", "new_zeros", "new_ones", "new_full", "new_empty") else list(t.a[1])
        if t.a[0] in ("full", "new_full"):
            args = args[:1]
        k = kwd(t)
        for nm in ("size", "shape"):
            if nm in k:
                args = [k[nm]]
        if len(args) == 1 and args[0].k in ("tuple", "list"):
            args = list(args[0].a[0])
        if any(x.k == "star" for x in args) or not args:
            return None
        return args

    def _of(self, t):
        if t.k == "op" and t.a[0] in ("zeros", "ones", "full", "empty", "new_zeros", "new_ones", "new_full", "new_empty"):
            z = self.shape_args(t)
            return self.sized(z) if z else None
        if t.k == "op" and t.a[0] in ("view", "reshape"):
            z = self.shape_args(t)
            if z and any(batch_size(core(x)) for x in z):
                return self.sized(z)
            return super()._of(t)
        if t.k == "item":
            b = canon_ll(t.a[0])
            if b.k == "LL" and t.a[1].k == "const" and isinstance(t.a[1].a[0], int):
                return self._base_axes(t.a[0])  # one half of a split input
            if t.a[0].k == "call" and "signed_eval" in str(t.a[0].a[0]) and t.a[1].k == "const":
                return tuple(frozenset([(T("LL", t.a[0]), i)]) for i in range(4))
            base = t.a[0]
            if base.k in ("phi", "store", "comp", "list") and self.listlike(base):
                return self.bcast([self.of(x) for x in self.elems(base)])
        return super()._of(t)

    def listlike(self, b, d=0):
        if d > 20:
            return False
        if b.k in ("list", "comp"):
            return True
        if b.k == "phi":
            return self.listlike(b.a[1], d + 1) or self.listlike(b.a[2], d + 1)
        if b.k == "store":
            return self.listlike(b.a[0], d + 1)
        return False

    def elems(self, b, d=0):
        if d > 12:
            return []
        if b.k == "phi":
            return self.elems(b.a[1], d + 1) + self.elems(b.a[2], d + 1)
        if b.k == "store":
            return self.elems(b.a[0], d + 1) + ([b.a[2]] if b.a[2].k != "tuple" else [])
        return self.seq(b)


def check(ctx, chk):
    ix = ctx.ix
    named = unnamed = 0
    done = set()
    jobs = []
    for c in ctx.modules():
        f = ix.find_method(c, "log_likelihood")
        if f is not None and f.cls is not ctx.Module:
            jobs.append((c, f, ctx.run(c, "log_likelihood")))
    jobs += list(density_methods(ctx))
    for c, f, r in jobs:
        if r is None or r.value is None:
            continue
        ax = BAxes(rank_hint=lambda b: 2 if b.k == "param" and b.a[1] == "data" else (5 if b.k == "param" and b.a[1] in XN else 4 if b.k == "LL" else None))
        ax.learn_ranks([r.value])
        con = f"{c.name}.{f.name}"
        n = 0
        for x in value_only(r.value):
            if x.k == "op" and x.a[0] in RANDOM and not (x.a[0] == "bernoulli" and False):
                chk.ob("no-randomness", con, False, f.where if hasattr(f, "where") else f"{f.file}:{f.line}", f"random {x.a[0]} reaches the likelihood")
            if x.k != "op" or not x.a[1]:
                continue
            nm = x.a[0]
            if nm in MIX or nm in GATHER or nm in ("reduce_e", "einsum"):
                src = x.a[1][0]
                if nm == "einsum":
                    if not data_dep(x):
                        continue
                    rd = ax.reduced(x)
                elif not data_dep(src):
                    continue
                elif nm == "reduce_e":
                    rd = ax.reduced(x)
                elif nm in ("max", "min") and len(x.a[1]) > 1:
                    continue
                else:
                    a, ds = ax.of(src), ax.dims(x)
                    if ds is None and nm in ("softmax", "log_softmax", "sort", "argsort", "topk", "median"):
                        ds = [-1]
                    if ds is None and nm in ("cat",):
                        ds = [0]
                    if ds == "?" :
                        rd = None
                    elif ds is None:
                        rd = frozenset([(T("LL", NONE), 0)]) if nm not in ("flip", "roll", "diff") else None
                    elif a is None:
                        rd = None
                    else:
                        try:
                            rd = frozenset().union(*[a[d] for d in ds])
                        except IndexError:
                            rd = None
                if rd is None:
                    unnamed += 1; chk.note(f"unnamed {con}: {show(x, 5)}")
                    continue
                named += 1
                n += 1
                b = batch_axes(rd)
                chk.ob("row-local", con, not b, f"{f.file}:{f.line}", f"{nm} along the batch axis: {show(x, 4)}" if b else "")
            elif nm in ("add", "sub", "mul", "div", "pow", "logaddexp", "maximum", "minimum", "exp", "log"):
                for y in x.a[1]:
                    if batch_size(core(y)):
                        chk.ob("row-local", con, False, f"{f.file}:{f.line}", f"the batch size enters the likelihood: {show(x, 4)}")
        chk.ob("analysed", con, True, f"{f.file}:{f.line}")
    chk.note(f"{named} mixing operations with named axes judged, {unnamed} with unnamed axes not judged")
    chk.floor("analysed", 30)
    chk.floor("row-local", 10)
