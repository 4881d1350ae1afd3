"""Information measures: entropies, mutual information, conditional probabilities, weight of evidence."""
import itertools

from ..lib import *
from ..terms import *
from ..ctx import *
from ..ip import *
from .p53 import same, opname, callargs, unview, elem_src, idxsrc, strip_iter, plain, choose

ID = "P55"
TITLE = "Information measures combine the right joint likelihoods by their definitions"
EXPL = ("Symbolic normal forms of every measure's exact and Monte Carlo branch over opaque joint likelihoods, each likelihood being identified by what its evidence tensor abstractly holds (all missing, an enumerated grid over given variables, sampled values of given variables, a caller's row with given columns set or erased), compared with the definition; "
        "finite enumeration of which axis every reduction step removes and by which method; set-valued evaluation of the disjointness checks over all overlap patterns; typed values of the enumerated domains; and matching of the leave-one-out loop's full against reduced evidence.")
ASSUME = ("log_likelihood marginalises NaN columns and sample draws from the model (P05, P11)", "scopes number the data columns 0..d-1")
IT = "spflow.measures.information_theory"
UT = "spflow.measures._utils"
WE = "spflow.measures.weight_of_evidence"
RLL, IDD, ENT, CP, WOE = UT + ".reduce_log_likelihood", UT + ".infer_discrete_domains", IT + ".entropy", WE + ".conditional_probability", WE + ".weight_of_evidence"


def tokens(t):
    """scopes whose variables a list of columns (or a scope) consists of, in order"""
    t = uncast(t)
    if t.k == "call" and opname(t) in ("list", "tuple", "sorted", "Scope", "as_scope", "set") and (t.a[1] or t.a[2]):
        return tokens(t.a[1][0] if t.a[1] else t.a[2][0][1])
    if t.k == "attr" and t.a[1] == "query":
        return tokens(t.a[0])
    if t.k == "op" and t.a[0] in ("add", "or_") and len(t.a[1]) == 2:
        x, y = tokens(t.a[1][0]), tokens(t.a[1][1])
        return None if x is None or y is None else x + y
    if t.k in ("list", "tuple") and t.a[0] and all(x.k == "star" for x in t.a[0]):
        r = [tokens(x.a[0]) for x in t.a[0]]
        return None if None in r else [z for x in r for z in x]
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("join", "union") and len(t.a[1]) == 1:
        x, y = tokens(t.a[0].a[0]), tokens(t.a[1][0])
        return None if x is None or y is None else x + y
    if t.k == "phi":
        x, y = tokens(t.a[1]), tokens(t.a[2])
        return x if x == y else None
    if t.k == "param":
        return [t.a[1]]
    return None


def isnan_full(t):
    t = plain(t)
    if t.k == "op" and t.a[0] in ("full", "full_like", "new_full"):
        v = list(t.a[1][1:]) + [x for _, x in t.a[2]]
        return any(isnan(x) for x in v)
    return False


class Bad(Exception):
    pass


def column(i):
    """second entry of a [:, c] index"""
    if i.k == "tuple" and len(i.a[0]) == 2 and i.a[0][0].k == "slice":
        return i.a[0][1]
    return None


def evidence(t):
    """what a tensor of evidence holds"""
    t = plain(t)
    if isnan_full(t):
        return ("nan",)
    if t.k == "phi" and t.a[0].k == "ran":
        src, st, base = strip_iter(t.a[0].a[0]), t.a[1], t.a[2]
        if st.k == "store" and isnan_full(base):
            c = column(st.a[1])
            g = uncast(st.a[2])
            tk = tokens(src)
            if c is None or tk is None or g.k != "item":
                return None
            gc = column(g.a[1])
            if gc is None or elem_src(c) != src and c.k != "idx":
                return None
            if elem_src(c) != src:
                raise Bad("grid values are stored in columns numbered by position, not by variable")
            if idxsrc(gc) != src:
                if elem_src(gc) == src:
                    raise Bad("grid columns are read by variable, not by position")
                return None
            G = plain(g.a[0])
            cp = [s for s in walk(G) if opname(s) == "cartesian_prod"]
            if not cp:
                return None
            e = each(cp[0].a[1][0].a[0] if cp[0].a[1][0].k == "star" else cp[0].a[1][0])
            if e is None:
                return None
            if strip_iter(e[0]) != src:
                if tokens(e[0]) is not None and tokens(e[0]) != tk:
                    raise Bad("the grid enumerates other variables than are filled in")
                o = strip_iter(e[0])
                if opname(o) == "reversed" and strip_iter(o.a[1][0]) == src or o.k == "item" and strip_iter(o.a[0]) == src and o.a[1].k == "slice":
                    raise Bad("the grid enumerates the variables in another order than they are filled in")
                return None
            it = uncast(e[1])
            if not (it.k == "item" and opname(it.a[0]) == "infer_discrete_domains" and elem_src(it.a[1]) == src):
                return None
            return ("grid", tuple(sorted(tk)))
        return None
    if t.k == "store":
        b = evidence(t.a[0])
        c = column(t.a[1])
        if b is None or c is None:
            return None
        v = uncast(t.a[2])
        vv = plain(v)
        if vv.k == "item" and column(vv.a[1]) is not None:
            c2 = column(vv.a[1])
            t1, t2 = tokens(c), tokens(c2)
            if t1 is not None and t2 is None and (c2.k == "slice" or c2.k == "item" and c2.a[1].k == "slice"):
                raise Bad("values of other columns are stored in the evidence")
            if t1 is None or t2 is None:
                return None
            if t1 != t2:
                raise Bad("values of other variables are stored in the evidence")
            s = plain(vv.a[0])
            if b == ("nan",):
                return ("part", tuple(sorted(t1)), repr(s))
            return None
        val = "nan" if isnan(vv) else value(vv)
        if val is None:
            return None
        key = repr(c)
        out = dict(b[2]) if b[0] == "row" else None
        if out is None:
            return None
        out[key] = val
        return ("row", b[1], tuple(sorted(out.items())))
    if t.k == "param":
        return ("row", t.a[1], ())
    if opname(t) == "sample":
        return ("all",)
    return None


def isnan(t):
    return t.k == "nan" or t.k == "op" and t.a[0] == "nan" or t.k == "const" and isinstance(t.a[0], float) and t.a[0] != t.a[0] or t.k == "global" and str(t.a[0]).endswith("nan") or t.k == "call" and opname(t) == "float" and t.a[1] and is_const(t.a[1][0], "nan")


def value(t):
    if t.k == "param":
        return t.a[1]
    if num(t) is not None:
        return ("const", str(num(t)))
    if t.k == "op" and t.a[0] in ("as_tensor", "tensor", "new_tensor", "full_like", "full") and t.a[1]:
        for x in t.a[1][::-1]:
            if x.k == "param":
                return x.a[1]
    return None


def mhook(chk, name, where):
    def hook(ip, t):
        nm = opname(t)
        if t.k == "op" and nm == "store":
            return None
        if t.k == "store":
            b, i, v = t.a[0], t.a[1], t.a[2]
            if plain(b).k == "op" and plain(b).a[0] in ("zeros_like", "new_zeros", "zeros") and finite(i):
                return ip.ev(v)
        if t.k == "item" and finite(t.a[1]):
            return ip.ev(t.a[0])
        if t.k == "op" and nm == "where" and finite(t.a[1][0]):
            return ip.ev(t.a[1][1])
        if t.k == "call" and nm == "log_likelihood":
            c = callargs(t, ("data", "cache"))
            e = evidence(c["data"])
            if e is None:
                raise Stuck("evidence " + show(c["data"], 4))
            return ip.atom(("f", "ll", (("m", repr(uncast(t.a[0].a[0]))), ("e",) + tuple(e))))
        if t.k == "call" and nm == "reduce_log_likelihood":
            c = callargs(t, ("ll",))
            return ip.atom(("f", "joint", (ip.intern(ip.ev(c["ll"])),) + tuple(("agg", k, repr(c.get(k))) for k in ("channel_agg", "repetition_agg"))))
        if t.k == "call" and nm == "entropy":
            c = callargs(t, ("model", "scope"))
            tk = tokens(c["scope"])
            if tk is None:
                raise Stuck("scope")
            return ip.atom(("f", "H", (("m", repr(c["model"])), ("s",) + tuple(sorted(tk))) + tuple(("o", k, repr(c.get(k))) for k in ("method", "channel_agg", "repetition_agg"))))
        if t.k == "call" and nm in ("conditional_probability", "weight_of_evidence"):
            c = callargs(t, ("model",))
            key = [("m", repr(c["model"]))]
            for k in ("evidence", "evidence_full", "evidence_reduced"):
                if k in c:
                    e = evidence(c[k])
                    if e is None:
                        raise Stuck("evidence")
                    key.append((k,) + tuple(e))
            key += [(k, repr(c.get(k))) for k in ("y_index", "y_value", "n", "k", "eps", "channel_agg", "repetition_agg") if k in c]
            return ip.atom(("f", nm, tuple(key)))
        if t.k == "param" and t.a[1] == "num_samples" or entries(t):
            return ip.atom(("f", "entries", ()))
        if t.k == "op" and nm in ("mean", "sum") and len(t.a[1]) == 1 and not t.a[2]:
            v = ip.ev(t.a[1][0])
            out = []
            for c, e in v:
                for m, q in c.n.items():
                    one = [(RF({m: Fraction(1)}, c.d), e)]
                    out = ip.add(out, ip.mul(ip.const(q), ip.atom(("f", "avg", (ip.intern(one),)))))
            return ip.mul(out, ip.atom(("f", "entries", ()))) if nm == "sum" else out
        if t.k == "op" and nm in ("median", "std", "var", "amax", "amin", "nanmean", "quantile", "mode") and t.a[1]:
            return ip.atom(("f", nm, (ip.intern(ip.ev(t.a[1][0])),) + tuple(repr(x) for x in t.a[1][1:])))
        if t.k == "op" and nm == "clamp":
            a = list(t.a[1][1:]) + [v for _, v in t.a[2]]
            return ip.atom(("f", "clamp", (ip.intern(ip.ev(t.a[1][0])),) + tuple(ip.intern(ip.ev(x)) for x in a)))
        if nm == "logit" and t.a[1]:
            p = ip.ev(t.a[1][0])
            return ip.add(ip.log(p), ip.log(ip.add(ip.const(1), p, -1)), -1)
        if nm in ("as_tensor", "tensor", "float", "int", "new_tensor") and t.a[1]:
            return ip.ev(t.a[1][-1] if nm == "new_tensor" else t.a[1][0])
        return None
    return hook


def entries(t):
    """number of rows of a batch of likelihoods"""
    t = uncast(t)
    if t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "shape" and is_const(t.a[1], 0):
        x = plain(t.a[0].a[0])
    elif t.k == "op" and t.a[0] in ("numel", "nelement", "size") and (len(t.a[1]) == 1 or is_const(t.a[1][1], 0)):
        x = plain(t.a[1][0])
    elif t.k == "call" and opname(t) == "len" and len(t.a[1]) == 1:
        x = plain(t.a[1][0])
    else:
        return False
    return opname(x) in ("reduce_log_likelihood", "sample")


def finite(t):
    return any(opname(s) in ("isfinite", "isneginf", "isinf") or s.k == "op" and s.a[0] in ("gt", "lt") for s in walk(t)) and t.k in ("op", "call")


OPQ = (RLL, IDD, ENT, CP, WOE)


def methods(returns, m):
    """returns for a value of the method argument"""
    out = []
    for g, v in returns:
        ok = True
        for c, p in g:
            if c.k == "op" and c.a[0] in ("eq", "ne") and any(x.k == "param" and x.a[1] == "method" for x in c.a[1]):
                k = [x.a[0] for x in c.a[1] if x.k == "const"]
                if k and ((k[0] == m) == (c.a[0] == "eq")) != p:
                    ok = False
        if ok:
            out.append(v)
    return out


DATA = "    def ll(*s):\n        pass\n"
EV = """def ev(samples, rvs):
"""


def measures(ctx, chk):
    sc = lambda *s: " + ".join(f"list({x}.query)" for x in s)
    H = lambda *s: f"entropy(model, Scope({sc(*s)}), method='exact', channel_agg=channel_agg, repetition_agg=repetition_agg)"

    def joint(*s):
        return f"reduce_log_likelihood(model.log_likelihood(part({sc(*s)})), channel_agg=channel_agg, repetition_agg=repetition_agg)"
    part = "    samples = model.sample(num_samples=num_samples)\n    def part(rvs):\n        e = torch.full((num_samples, samples.shape[1]), torch.nan)\n        e[:, rvs] = samples[:, rvs]\n        return e\n"
    grid = ("    rvs = list(scope.query)\n    domains = infer_discrete_domains(model, scope)\n    grid = torch.cartesian_prod(*[domains[rv] for rv in rvs])\n    data = torch.full((grid.shape[0], 2), torch.nan)\n"
            "    for j, rv in enumerate(rvs):\n        data[:, rv] = grid[:, j]\n    L = reduce_log_likelihood(model.log_likelihood(data), channel_agg=channel_agg, repetition_agg=repetition_agg)\n    return -(torch.exp(L) * L).sum()\n")
    P = "model, scope, x_scope, y_scope, z_scope, method, num_samples, seed, channel_agg, repetition_agg"
    x, y, z = "x_scope", "y_scope", "z_scope"
    todo = [("entropy", "exact", grid), ("entropy", "mc", part + f"    return -{joint('scope')}.mean()\n"),
            ("mutual_information", "exact", f"    return {H(x)} + {H(y)} - {H(x, y)}\n"),
            ("mutual_information", "mc", part + f"    return ({joint(x, y)} - {joint(x)} - {joint(y)}).mean()\n"),
            ("conditional_mutual_information", "exact", f"    return {H(x, z)} + {H(y, z)} - {H(z)} - {H(x, y, z)}\n"),
            ("conditional_mutual_information", "mc", part + f"    return ({joint(x, y, z)} + {joint(z)} - {joint(x, z)} - {joint(y, z)}).mean()\n")]
    for fn, m, src in todo:
        fi = ctx.ix.functions.get(f"{IT}.{fn}")
        if fi is None:
            continue
        wh = f"{fi.module.rel}:{fi.node.lineno}"
        opq = tuple(q for q in OPQ if not q.endswith("." + fn))
        r = ctx.run_func(fi, opaque_quals=opq)
        for v in methods(r.returns, m):
            decide(ctx, chk, "measure", f"{fn} ({m})", v, IT, f"def ref({P}):\n" + src, wh, opq, "not the definition over the joint likelihoods of the right variables")
    P = "model, y_index, y_value, evidence, evidence_full, evidence_reduced, n, k, eps, channel_agg, repetition_agg"
    agg = "channel_agg=channel_agg, repetition_agg=repetition_agg"
    cond = ("    j = evidence.clone()\n    j[:, y_index] = torch.as_tensor(y_value)\n    d = evidence.clone()\n    d[:, y_index] = torch.nan\n"
            f"    return torch.exp(reduce_log_likelihood(model.log_likelihood(j), {agg}) - reduce_log_likelihood(model.log_likelihood(d), {agg}))\n")
    cp = lambda e: f"conditional_probability(model, y_index=y_index, y_value=y_value, evidence={e}, {agg})"
    woe = (f"    p1 = ({cp('evidence_full')} * n + 1.0) / (n + k)\n    p2 = ({cp('evidence_reduced')} * n + 1.0) / (n + k)\n"
           "    return torch.logit(p1.clamp(min=eps, max=1.0 - eps)) - torch.logit(p2.clamp(min=eps, max=1.0 - eps))\n")
    for fn, src in (("conditional_probability", cond), ("weight_of_evidence", woe)):
        fi = ctx.ix.functions.get(f"{WE}.{fn}")
        if fi is None:
            continue
        opq = tuple(q for q in OPQ if not q.endswith("." + fn))
        r = ctx.run_func(fi, opaque_quals=opq)
        for g, v in r.returns:
            v = subst_k(v)
            decide(ctx, chk, "evidence measure", fn, v, WE, f"def ref({P}):\n" + src, f"{fi.module.rel}:{fi.node.lineno}", opq, "not the ratio (log-odds difference) of the joint likelihoods with and without the evidence")


def subst_k(v):
    """the cardinality is the caller's k where given"""
    m = {}
    for s in walk(v):
        if s.k == "phi" and s.a[0].k == "op" and s.a[0].a[0] == "is" and any(x.k == "param" and x.a[1] == "k" for x in s.a[0].a[1]):
            m[s] = s.a[2]
    return subst(v, m) if m else v


def decide(ctx, chk, rule, name, v, mod, src, wh, opq, detail):
    try:
        same(ctx, chk, rule, name, v, mod, src, wh, opq=opq, flat=True, hk=mhook(chk, name, wh), detail=detail)
    except Bad as e:
        chk.ob(rule, name, False, wh, f"{name}: {e}")


class Chain:
    """reductions applied to a likelihood of shape (batch, features, channels, repetitions), axis by axis"""

    def __init__(self, sizes, methods):
        self.sizes, self.methods = sizes, methods

    def cond(self, c):
        if c.k == "op":
            n, a = c.a[0], c.a[1]
            if n in ("or", "or_", "and", "and_"):
                v = [self.cond(x) for x in a]
                return any(v) if n.startswith("or") else all(v)
            if n in ("not", "not_"):
                return not self.cond(a[0])
            if n in ("eq", "ne") and len(a) == 2:
                r = self.val(a[0]) == self.val(a[1])
                return r if n == "eq" else not r
            if n in ("lt", "le"):
                x, y = self.val(a[0]), self.val(a[1])
                return x < y if n == "lt" else x <= y
            if n == "in" and a[1].k in ("tuple", "list", "set"):
                return self.val(a[0]) in [self.val(x) for x in a[1].a[0]]
        raise Stuck("condition " + show(c, 3))

    def val(self, t):
        if t.k == "const":
            return t.a[0]
        if t.k == "param" and t.a[1] in self.methods:
            return self.methods[t.a[1]]
        n = opname(t)
        if n in ("dim", "ndim", "ndimension") and (t.k == "op" or t.k == "call"):
            return len(self.ev(t.a[1][0] if t.a[1] else t.a[0].a[0])[0])
        if t.k == "attr" and t.a[1] == "ndim":
            return len(self.ev(t.a[0])[0])
        if t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "shape":
            ax = self.ev(t.a[0].a[0])[0]
            return self.sizes[ax[int(num(t.a[1]))]]
        if n == "size" and len(t.a[1]) == 2:
            return self.sizes[self.ev(t.a[1][0])[0][int(num(t.a[1][1]))]]
        if t.k == "phi":
            return self.val(t.a[1] if self.cond(t.a[0]) else t.a[2])
        raise Stuck("value " + show(t, 3))

    def dimof(self, t, k=1):
        kw = dict(t.a[2])
        d = kw.get("dim", kw.get("axis"))
        if d is None and len(t.a[1]) > k:
            d = t.a[1][k]
        if d is None or num(d) is None:
            raise Stuck("dim")
        if "keepdim" in kw and not is_const(kw["keepdim"], False):
            raise Stuck("keepdim")
        return int(num(d))

    def ev(self, t):
        """(axes, operations in order)"""
        t = uncast(t)
        if t.k == "param":
            return ["b", "f", "c", "r"], []
        if t.k == "phi":
            return self.ev(t.a[1] if self.cond(t.a[0]) else t.a[2])
        if t.k == "item" and is_const(t.a[1], 0):
            raise Stuck("item")
        if t.k == "op":
            n, a = t.a[0], t.a[1]
            if n in ("to", "contiguous", "clone", "float", "double"):
                return self.ev(a[0])
            if n == "reduce_e":
                kw = dict(t.a[2])
                ax, ops = self.ev(a[0])
                l, r = [x.split() for x in kw["pattern"].a[0].split("->")]
                if len(l) != len(ax) or any(x not in l for x in r):
                    raise Stuck("pattern")
                m = dict(zip(l, ax))
                red = kw["reduction"].a[0]
                return [m[x] for x in r], ops + [(red, m[x]) for x in l if x not in r]
            if n in ("sum", "logsumexp", "mean", "amax", "max", "prod"):
                ax, ops = self.ev(a[0])
                d = self.dimof(t)
                x = ax[d]
                d %= len(ax)
                return ax[:d] + ax[d + 1:], ops + [(n, x)]
            if n == "squeeze":
                ax, ops = self.ev(a[0])
                d = self.dimof(t)
                x = ax[d]
                d %= len(ax)
                if self.sizes[x] != 1:
                    return ax, ops
                return ax[:d] + ax[d + 1:], ops
            if n == "select":
                ax, ops = self.ev(a[0])
                d = self.dimof(t)
                kw = dict(t.a[2])
                i = kw.get("index", a[2] if len(a) > 2 else None)
                x = ax[d]
                d %= len(ax)
                return ax[:d] + ax[d + 1:], ops + [("first" if num(i) == 0 else f"entry {show(i, 2)}", x)]
            if n in ("sub", "add") and len(a) == 2:
                s = a[1]
                b = a[0]
                if n == "add" and s.k == "op" and s.a[0] == "neg":
                    s = s.a[1][0]
                elif n == "add":
                    raise Stuck("add")
                if opname(s) == "log":
                    ax, ops = self.ev(b)
                    q = s.a[1][0]
                    nv = self.count(q)
                    return ax, ops + [("-log", nv)]
            if n == "permute" or n == "rearrange":
                raise Stuck(n)
        raise Stuck("step " + show(t, 3))

    def count(self, q):
        q = uncast(q)
        if q.k == "call" and opname(q) in ("float", "int") and q.a[1]:
            return self.count(q.a[1][0])
        if q.k == "phi":
            return self.count(q.a[1] if self.cond(q.a[0]) else q.a[2])
        if q.k == "item" and q.a[0].k == "attr" and q.a[0].a[1] == "shape":
            return self.ev(q.a[0].a[0])[0][int(num(q.a[1]))]
        raise Stuck("count " + show(q, 3))


def aggregation(ctx, chk, qual=None):
    fi = ctx.ix.functions.get(qual or RLL)
    if fi is None:
        return
    wh = f"{fi.module.rel}:{fi.node.lineno}"
    r = ctx.run_func(fi)
    M = ("first", "logsumexp", "logmeanexp")
    for rep in M:
        for ch in M:
            for sz in ((3, 4), (1, 4), (3, 1)):
                c = Chain({"b": 7, "f": 2, "c": sz[0], "r": sz[1]}, {"channel_agg": ch, "repetition_agg": rep})
                name = f"channels {ch}, repetitions {rep}, shape {sz}"
                try:
                    got = None
                    for g, v in r.returns:
                        if all(c.cond(x) == p for x, p in g):
                            got = c.ev(v)
                            break
                    if got is None:
                        raise Stuck("no return")
                except (Stuck, KeyError, IndexError, TypeError, AttributeError) as e:
                    chk.note(f"aggregation {name}: {e}")
                    continue
                want = {("sum", "f")}
                for ax, n, m in (("c", sz[0], ch), ("r", sz[1], rep)):
                    if n > 1:
                        want |= {("first", ax)} if m == "first" else {("logsumexp", ax)} if m == "logsumexp" else {("logsumexp", ax), ("-log", ax)}
                one = lambda ops: [x for x in ops if not (x[0] in ("logsumexp", "first", "-log") and c.sizes.get(x[1]) == 1)]
                ops = one(got[1])
                order = [x for x in ops if x == ("sum", "f") or x[0] == "logsumexp"]
                ok = got[0] == ["b"] and set(ops) == want and len(ops) == len(want) and (not order or order[0] == ("sum", "f"))
                chk.ob("aggregation", name, ok, wh, "" if ok else f"features, channels and repetitions are reduced by {ops}")


def leave_one_out(ctx, chk):
    fi = ctx.ix.functions.get(WE + ".weight_of_evidence_leave_one_out")
    if fi is None:
        return
    r = ctx.run_func(fi, opaque_quals=OPQ)
    for e in r.events:
        if e.kind != "store_item" or not isinstance(e.idx, T) or column(e.idx) is None:
            continue
        j = column(e.idx)
        if j.k != "elem":
            continue
        v = unview(e.term)
        calls = [s for s in walk(v) if opname(s) == "weight_of_evidence"]
        if not calls:
            continue
        c = callargs(calls[0], ("model",))
        try:
            f, d = evidence(c["evidence_full"]), evidence(c["evidence_reduced"])
        except (Bad, KeyError):
            f = d = None
        if f is None or d is None or f[0] != "row":
            chk.note("leave-one-out: evidence not recognised")
        else:
            base = (("y_index", "y_value"),)
            ok = f[1] == d[1] and f[2] == base and set(d[2]) == set(base) | {(repr(j), "nan")}
            chk.ob("leave-one-out", "evidence of a feature's score", ok, e.where, "" if ok else "the reduced evidence is not the full evidence with exactly the scored feature removed")
        for k in ("y_index", "y_value", "n", "k", "eps", "channel_agg", "repetition_agg"):
            ok = k in c and any(s.k == "param" and s.a[1] == k for s in walk(c[k]))
            chk.ob("leave-one-out", f"option {k}", ok, e.where, "" if ok else f"{k} is not passed on")
        masked = v.k == "op" and v.a[0] in ("where", "masked_fill") or len(e.idx.a[0]) == 2 and e.idx.a[0][0].k != "slice"
        chk.ob("leave-one-out", "missing entries", masked, e.where, "" if masked else "rows whose entry is missing get a score instead of NaN")
        if v.k == "op" and v.a[0] == "where":
            m, x, y = choose(v)
            pos = any(s == calls[0] for s in walk(x))
            nanmask = sum(1 for s in walk(m) if opname(s) in ("isnan", "isfinite"))
            if nanmask == 1:
                sense = polarity(m)
                if sense is not None:
                    ok = sense == (not pos)
                    chk.ob("leave-one-out", "mask polarity", ok, e.where, "" if ok else "scores are written where the entry is missing")


def polarity(m):
    """True when the mask holds for missing entries"""
    m = plain(m)
    if m.k == "item":
        return polarity(m.a[0])
    if m.k == "store":
        return polarity(m.a[0])
    if m.k == "op" and m.a[0] in ("not_", "not", "invert", "logical_not"):
        p = polarity(m.a[1][0])
        return None if p is None else not p
    n = opname(m)
    return True if n == "isnan" else False if n == "isfinite" else None


def domains(ctx, chk):
    fi = ctx.ix.functions.get(IDD)
    if fi is None:
        return
    r = ctx.run_func(fi)
    wh = f"{fi.module.rel}:{fi.node.lineno}"
    for e in r.events:
        if e.kind != "call" or e.name != "setdefault" or len(e.args) < 2:
            continue
        v = plain(e.args[1])
        kinds = [k for k in ("Bernoulli", "Categorical") if any(p and c.k == "op" and c.a[0] == "isinstance" and any(str(s.a[0]).endswith("." + k) for s in walk(c) if s.k == "global") for c, p in e.guards)]
        if len(kinds) != 1:
            continue
        if kinds[0] == "Bernoulli" and v.k == "op" and v.a[0] in ("tensor", "as_tensor"):
            l = v.a[1][0]
            vals = sorted(num(x) for x in l.a[0]) if l.k in ("list", "tuple") and all(num(x) is not None for x in l.a[0]) else None
            if vals is not None:
                chk.ob("domain", "Bernoulli values", vals == [0, 1], e.where, "" if vals == [0, 1] else f"a Bernoulli variable is enumerated over {vals}")
        if kinds[0] == "Categorical" and v.k == "op" and v.a[0] == "arange":
            a = list(v.a[1])
            kw = dict(v.a[2])
            hi = kw.get("end", a[0] if len(a) == 1 else a[1] if len(a) > 1 else None)
            lo = kw.get("start", a[0] if len(a) > 1 else None)
            if hi is not None:
                h = uncast(hi)
                while h.k == "call" and opname(h) == "int":
                    h = uncast(h.a[1][0])
                ok = (lo is None or num(lo) == 0) and h.k == "attr" and h.a[1] == "K"
                chk.ob("domain", "Categorical values", ok, e.where, "" if ok else "a categorical variable is not enumerated over 0..K-1")


class Sets:
    """values of a guard for given variable sets of the scopes"""

    def __init__(self, env):
        self.env = env

    def ev(self, t):
        t = uncast(t)
        n = opname(t)
        if t.k == "param":
            if t.a[1] in self.env:
                return self.env[t.a[1]]
            raise Stuck(t.a[1])
        if t.k == "const":
            return t.a[0]
        if t.k == "attr" and t.a[1] == "query":
            return self.ev(t.a[0])
        if t.k == "phi":
            x, y = self.ev(t.a[1]), self.ev(t.a[2])
            if x != y:
                raise Stuck("choice")
            return x
        if t.k in ("list", "tuple", "set") and all(x.k == "star" for x in t.a[0]):
            v = [z for x in t.a[0] for z in self.ev(x.a[0])]
            return set(v) if t.k == "set" else v
        if t.k == "op":
            a = t.a[1]
            if n in ("and_", "and"):
                v = [self.ev(x) for x in a]
                return set(v[0]) & set(v[1]) if isinstance(v[0], (set, list)) and isinstance(v[1], (set, list)) and n == "and_" else all(bool(x) for x in v)
            if n in ("or_", "or"):
                v = [self.ev(x) for x in a]
                return set(v[0]) | set(v[1]) if isinstance(v[0], (set, list)) and n == "or_" else any(bool(x) for x in v)
            if n in ("not", "not_"):
                return not self.ev(a[0])
            if n == "add" and len(a) == 2:
                return self.ev(a[0]) + self.ev(a[1])
            if n in ("eq", "ne", "lt", "le") and len(a) == 2:
                x, y = self.ev(a[0]), self.ev(a[1])
                return {"eq": x == y, "ne": x != y}[n] if n in ("eq", "ne") else x < y if n == "lt" else x <= y
            if n == "sub" and len(a) == 2:
                x, y = self.ev(a[0]), self.ev(a[1])
                return x - y
        if t.k == "call":
            a = [self.ev(x) for x in t.a[1]] + [self.ev(x) for _, x in t.a[2]]
            if n in ("list", "tuple", "sorted", "Scope", "as_scope"):
                v = list(a[0])
                return sorted(v) if n == "sorted" else v
            if n in ("set", "frozenset"):
                return set(a[0]) if a else set()
            if n == "len":
                return len(a[0])
            if n == "bool":
                return bool(a[0])
            if t.a[0].k == "attr":
                r = self.ev(t.a[0].a[0])
                if n == "intersection":
                    return set(r).intersection(*a)
                if n == "isdisjoint":
                    return set(r).isdisjoint(a[0])
                if n in ("union", "join"):
                    return set(r).union(*a)
                if n == "empty":
                    return len(r) == 0
        raise Stuck(show(t, 3))


def disjointness(ctx, chk):
    """overlapping scopes are refused, disjoint ones are not"""
    for fn, ns in (("mutual_information", ("x_scope", "y_scope")), ("conditional_mutual_information", ("x_scope", "y_scope", "z_scope"))):
        fi = ctx.ix.functions.get(f"{IT}.{fn}")
        if fi is None:
            continue
        wh = f"{fi.module.rel}:{fi.node.lineno}"
        r = ctx.run_func(fi, opaque_quals=OPQ)
        for bits in itertools.product(*[[(0,), (1,), (0, 1), (2,)]] * len(ns)):
            env = {k: list(v) for k, v in zip(ns, bits)}
            alls = [x for v in bits for x in v]
            overlap = len(set(alls)) != len(alls)
            fired = stuck = False
            for e in r.events:
                if e.kind != "raise":
                    continue
                S, ok, bad = Sets(env), True, False
                for c, p in e.guards:
                    try:
                        if bool(S.ev(c)) != p:
                            ok = False
                            break
                    except (Stuck, TypeError):
                        bad = True
                        if any(s.k == "param" and s.a[1] in ("method", "num_samples") for s in walk(c)) and not any(s.k == "param" and s.a[1] in ns for s in walk(c)):
                            ok = False
                            break
                if ok and not bad:
                    fired = True
                if ok and bad:
                    stuck = True
            if stuck and not fired:
                chk.note(f"{fn}: a check of the scopes is not recognised")
                break
            chk.ob("disjoint scopes", f"{fn} with {bits}", fired == overlap, wh, "" if fired == overlap else ("overlapping scopes are accepted" if overlap else "disjoint scopes are refused"))


def check(ctx, chk):
    for part in (measures, disjointness, aggregation, leave_one_out, domains):
        try:
            part(ctx, chk)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as e:
            chk.note(f"{part.__name__}: source shape not analysed ({type(e).__name__}: {e})")
    chk.floor("measure", 2)
