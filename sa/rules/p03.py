"""Interval evidence: P(low <= X <= high) orientation, open bounds, inclusive ends."""
from ..lib import *
from .p02 import nan_guard

ID = "P03"
TITLE = "Interval evidence yields the probability of exactly the stated range"
EXPL = ("Sign (monotonicity) analysis of every leaf's interval likelihood term: the result must be non-decreasing in the "
        "upper bound and non-increasing in the lower bound; every use of a bound must be behind an isnan test of that same "
        "bound whose NaN side is the corresponding end of the support (+-inf, the distribution's own end point, CDF limit 0/1); "
        "discrete bounds are rounded inwards; interval evidence reaches leaves unchanged and is rejected where parameters "
        "depend on evidence columns.")
ASSUME = ("torch cdf() is non-decreasing", "probabilities, scales and support widths are positive")

UP = {"log", "clamp", "erf", "exp", "floor", "ceil", "round", "sum", "rearrange", "sqrt", "softplus", "sigmoid", "maximum",
      "minimum", "max", "min", "mean", "nan_to_num", "clamp_min", "clamp_max", "log1p", "logsumexp", "and_", "or_", "and", "or"} | CAST


class Sign:
    """direction in which a term moves when parameter `name` grows: 0 none, +1, -1, None unknown"""

    def __init__(self, name):
        self.name = name
        self.memo = {}

    def pos(self, t):
        """known non-negative factor (free of bounds): probabilities, scales, widths, positive constants"""
        v = num(t)
        if v is not None:
            return 1 if v >= 0 else -1
        return 1

    def join(self, *ds):
        r = 0
        for d in ds:
            if d is None:
                return None
            if d == 0:
                continue
            if r not in (0, d):
                return None
            r = d
        return r

    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._of(t)
        self.memo[t] = r
        return r

    def _of(self, t):
        if is_param(t, self.name) or (t.k == "attr" and t.a[1] == self.name and is_param(t.a[0])):
            return 1
        if t.k in ("const", "param", "global", "self"):
            return 0
        if shape_only(t):
            return 0
        if not value_contains(t, lambda s: is_param(s, self.name) or (s.k == "attr" and s.a[1] == self.name and is_param(s.a[0]))):
            return 0
        if t.k == "phi":
            return self.join(self.of(t.a[1]), self.of(t.a[2]))
        if t.k == "item":
            return self.of(t.a[0])
        if t.k == "store":
            s, x = nan_mask(t.a[1])
            return self.join(self.of(t.a[0]), self.of(t.a[2]))
        if t.k == "attr":
            return self.of(t.a[0])
        if t.k == "op":
            n, a = t.a[0], t.a[1]
            if n == "isnan" or n in ("zeros_like", "ones_like", "empty_like"):
                return 0
            if n in ("full_like", "new_full", "new_zeros", "new_ones", "repeat_e", "expand", "expand_as", "broadcast_to", "type_as"):
                return self.of(a[1]) if n in ("full_like", "new_full") else (self.of(a[0]) if n in ("repeat_e", "expand", "expand_as", "broadcast_to", "type_as") else 0)
            if n in ("add",):
                return self.join(*[self.of(x) for x in a])
            if n == "sub":
                d = self.of(a[1])
                return self.join(self.of(a[0]), None if d is None else -d)
            if n in ("neg", "not", "not_"):
                d = self.of(a[0])
                return None if d is None else -d
            if n in ("mul",):
                ds = []
                for i, x in enumerate(a):
                    d = self.of(x)
                    if d is None:
                        return None
                    if d:
                        sg = 1
                        for j, y in enumerate(a):
                            if j != i:
                                sg *= self.pos(y)
                        d *= sg
                    ds.append(d)
                return self.join(*ds)
            if n == "div":
                d = self.of(a[0])
                e = self.of(a[1])
                if d is None or e is None:
                    return None
                return self.join(d * self.pos(a[1]), -e)
            if n in ("le", "lt"):  # a0 <= a1
                d = self.of(a[0])
                return self.join(None if d is None else -d, self.of(a[1]))
            if n in ("ge", "gt"):
                d = self.of(a[1])
                return self.join(self.of(a[0]), None if d is None else -d)
            if n == "where":
                s, x = nan_mask(a[0])
                if s:
                    return self.join(self.of(a[1]), self.of(a[2]))
                c = self.of(a[0])
                if is_zero(a[2]):
                    return self.join(c, self.of(a[1]))
                if is_zero(a[1]):
                    return self.join(None if c is None else -c, self.of(a[2]))
                return None
            if n == "to":
                return self.of(a[0])
            if n in UP:
                return self.join(*([self.of(x) for x in a] + [self.of(v) for k, v in t.a[2] if isinstance(v, T) and k in ("other", "min", "max")]))
            return None
        if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("cdf",):
            return self.join(*[self.of(x) for x in t.a[1]])
        if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("icdf",):
            return self.join(*[self.of(x) for x in t.a[1]])
        return None


def bound_uses(t, name):
    """(term, guarded-by) for every occurrence of the bound not below an isnan test"""
    out = []
    seen = set()

    def is_b(x):
        return is_param(x, name) or (x.k == "attr" and x.a[1] == name and is_param(x.a[0]))

    def rec(x, cover, safe):
        if shape_only(x) or (x, cover, safe) in seen:
            return
        seen.add((x, cover, safe))
        if is_b(x):
            out.append((x, cover, safe))
            return
        if x.k == "op" and x.a[0] == "isnan":
            return
        if x.k == "op" and x.a[0] in ("full_like", "zeros_like", "ones_like", "empty_like", "new_zeros", "new_ones", "new_full"):
            for y in x.a[1][1:]:
                rec(y, cover, safe)
            return
        if x.k == "op" and x.a[0] == "where":
            s, sub = nan_mask(x.a[1][0])
            if s and contains(sub, is_b):
                nanv, val = (x.a[1][1], x.a[1][2]) if s == 1 else (x.a[1][2], x.a[1][1])
                rec(val, cover + (nanv,), safe)
                rec(nanv, cover, safe)
                return
        if x.k == "op" and x.a[0] in ("masked_fill", "masked_fill_"):
            s, sub = nan_mask(kwd(x).get("mask") or x.a[1][1])
            if s == 1 and contains(sub, is_b):
                rec(x.a[1][0], cover + (kwd(x).get("value") or x.a[1][2],), safe)
                return
        if x.k == "store":
            s, sub = nan_mask(x.a[1])
            if s == 1 and contains(sub, is_b):
                rec(x.a[0], cover + (x.a[2],), safe)
                rec(x.a[2], cover, safe)
                return
        if x.k == "op" and x.a[0] == "nan_to_num":
            v = kwd(x).get("nan") or (x.a[1][1] if len(x.a[1]) > 1 else const(0.0))
            rec(x.a[1][0], cover + (v,), safe)
            return
        kids = x.a[1:] if x.k == "phi" else children(x)
        for y in kids:
            if isinstance(y, T):
                rec(y, cover, safe)

    rec(t, (), False)
    return out


LIKE = ("full_like", "zeros_like", "ones_like", "empty_like")


def flow(t):
    """value-carrying subterms (no branch conditions, loop bookkeeping, shapes or templates)"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or shape_only(x) or x.k in ("ran", "brk", "loopcarried", "while"):
            continue
        seen.add(x)
        yield x
        if x.k == "phi":
            st.extend(x.a[1:])
        elif x.k == "op" and x.a[0] in LIKE:
            st.extend(x.a[1][1:])
        elif x.k == "op" and x.a[0] == "where" and nan_mask(x.a[1][0])[0]:
            st.extend(x.a[1][1:])
        else:
            st.extend(children(x))


def open_end(cls, name, v, cover):
    """outermost NaN replacement is the end of the support on that side"""
    low = name == "low"
    x = num(v)
    if x is not None:
        if x != x:
            return False
        if low:
            return x == float("-inf") or x == 0.0   # -inf, CDF limit 0, or smallest discrete state
        return x == float("inf") or x == 1.0        # +inf, CDF limit 1 (or largest Bernoulli state)
    c = core(v)
    if self_attr(c):
        return c.a[1] in (("low", "_low", "a", "minimum") if low else ("high", "_high", "b", "maximum"))
    if not low and c.k in ("op", "call"):
        # largest category K - 1
        return any(s.k == "op" and s.a[0] == "sub" and self_attr(s.a[1][0]) and s.a[1][0].a[1] in ("K", "n") and is_const(s.a[1][1], 1) for s in walk(c))
    return False


def check(ctx, chk):
    ix = ctx.ix
    for c in ctx.leaves():
        f = ix.find_method(c, "_log_likelihood_interval")
        if f is None:
            continue
        g = ix.find_method(c, "log_likelihood")
        if g.cls is not ctx.Leaf:
            continue
        r = ctx.run(c, "_log_likelihood_interval")
        where = f"{f.file}:{f.line}"
        con = f"{c.name}._log_likelihood_interval"
        if r.value is None or r.value.k == "never" or not r.returns:
            continue
        v = r.value
        chk.ob("monotone-high", con, Sign("high").of(v) == 1, where, "probability must not decrease when the upper bound grows")
        chk.ob("monotone-low", con, Sign("low").of(v) == -1, where, "probability must not increase when the lower bound grows")
        for name in ("low", "high"):
            uses = bound_uses(v, name)
            chk.ob("open-bound-tested", con + ":" + name, bool(uses) and all(cov for _, cov, _ in uses), where,
                   "every use of a bound must be behind a test for 'no bound'")
            for _, cov, _ in uses:
                if cov:
                    chk.ob("open-bound-value", con + ":" + name, open_end(c, name, cov[0], cov), where,
                           f"a missing {name} bound must extend to that end of the support, got {show(cov[0], 3)}")
            chk.ob("own-columns", con + ":" + name, contains(v, lambda s: s.k == "item" and contains(s.a[0], lambda y: is_param(y, name))
                   and contains(s.a[1], lambda y: y.k == "attr" and y.a[1] == "query")), where, "bounds are read from the leaf's own columns")
        # inward rounding for the discrete overrides
        for s in walk(v):
            if s.k == "op" and s.a[0] in ("ceil", "floor", "round", "trunc") and s.a[1]:
                lo = contains(s, lambda y: is_param(y, "low"))
                hi = contains(s, lambda y: is_param(y, "high"))
                if lo != hi:
                    chk.ob("round-inwards", con, s.a[0] == ("ceil" if lo else "floor"), where,
                           "lower bounds round up, upper bounds round down")
        # inclusive ends: no strict comparison between a bound and a state
        for s in flow(v):
            if s.k == "op" and s.a[0] in ("lt", "gt") and contains(s, lambda y: is_param(y, "low") or is_param(y, "high")):
                chk.ob("inclusive", con, False, where, "interval ends are inclusive")
        # log domain, clamped away from log(0) only by a negligible floor
        top = [a for a in alts(v)]
        chk.ob("log-domain", con, all(a.k == "op" and a.a[0] == "log" for a in top), where, "the result must be a log-probability")
        for s in walk(v):
            if s.k == "op" and s.a[0] == "clamp":
                mn, mx = kwd(s).get("min"), kwd(s).get("max")
                if mn is None and len(s.a[1]) > 1:
                    mn = s.a[1][1]
                m = num(mn) if mn is not None else 0.0
                M = num(mx) if mx is not None and not is_const(mx, None) else None
                chk.ob("negligible-floor", con, m is not None and 0 <= m <= 1e-20 and (mx is None or is_const(mx, None) or M is not None and M >= 1.0), where,
                       "probabilities may only be clamped by a negligible floor")
        # dispatch
        d = ctx.run(c, "log_likelihood")
        isiv = lambda t: "isinstance" in show(t, 1) and "IntervalEvidence" in show(t, 4)
        iv = [e for e in d.events if e.kind == "call" and e.name == "_log_likelihood_interval"]
        ok = bool(iv)
        for e in iv:
            kw = e.kwargs
            a = list(e.args)
            lo, hi = kw.get("low", a[0] if a else NONE), kw.get("high", a[1] if len(a) > 1 else NONE)
            ok = ok and lo.k == "attr" and lo.a[1] == "low" and is_param(lo.a[0], "data") and hi.k == "attr" and hi.a[1] == "high" and is_param(hi.a[0], "data")
            chk.ob("dispatch", f"{c.name}.log_likelihood", ok, e.where, "interval evidence is forwarded as (low, high)")
            chk.ob("conditional-rejected", f"{c.name}.log_likelihood",
                   any(x.k == "attr" and x.a[1] == "is_conditional" and not b for x, b in e.guards)
                   or contains(r.value, lambda s: s.k == "attr" and s.a[1] == "parameter_fn"), e.where,
                   "interval evidence on a conditional leaf must use its conditional parameters or be rejected")
        chk.ob("dispatch", f"{c.name}.log_likelihood", bool(iv), f"{g.file}:{g.line}", "interval evidence must reach the interval likelihood")
    chk.floor("monotone-high", 10)
    ivc = ix.modules.get("spflow.meta.data.interval_evidence")
    C = ix.cls("spflow.meta.data.interval_evidence.IntervalEvidence")
    r = ctx.run(C, "__post_init__")
    if r is None:
        chk.ob("interval-validated", "IntervalEvidence", False, f"{C.module.rel}:{C.node.lineno}", "interval evidence must be validated on creation")
    else:
        raises = [e for e in r.events if e.kind == "raise"]
        order = [e for e in raises if any(contains(g, lambda s: s.k == "op" and s.a[0] in ("lt", "gt", "le", "ge")) for g, _ in e.guards)]
        shape = [e for e in raises if any(contains(g, lambda s: s.k == "attr" and s.a[1] == "shape" and contains(s, lambda y: self_attr(y, "low"))) for g, _ in e.guards)]
        W = f"{C.module.rel}:{C.node.lineno}"
        chk.ob("interval-validated", "IntervalEvidence:order", bool(order), W, "low > high must be rejected")
        chk.ob("interval-validated", "IntervalEvidence:shape", bool(shape), W, "mismatching bound shapes must be rejected")
        for e in order:
            for g, b in e.guards:
                for s in walk(g):
                    if s.k == "op" and s.a[0] in ("lt", "gt", "le", "ge") and contains(s, lambda y: self_attr(y, "low")) and contains(s, lambda y: self_attr(y, "high")):
                        lo_first = self_attr(data_root(s.a[1][0]), "low")
                        strict_ok = (s.a[0] == "gt" and lo_first) or (s.a[0] == "lt" and not lo_first)
                        pos_ok = (s.a[0] == "le" and lo_first) or (s.a[0] == "ge" and not lo_first)
                        chk.ob("interval-validated", "IntervalEvidence:direction", strict_ok or pos_ok, W, "exactly low > high is invalid")
    t = ctx.run(C, "to")
    if t is not None:
        for a in alts(t.value):
            if a.k == "call":
                kw = kwd(a)
                arg = list(a.a[1])
                lo, hi = kw.get("low", arg[0] if arg else NONE), kw.get("high", arg[1] if len(arg) > 1 else NONE)
                chk.ob("interval-moved", "IntervalEvidence.to", contains(lo, lambda y: self_attr(y, "low")) and contains(hi, lambda y: self_attr(y, "high")),
                       f"{C.module.rel}:{C.node.lineno}", "moving interval evidence must keep the bounds in place")
