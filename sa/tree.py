"""Message passing of the tree-structured leaf while sampling: max-product for most-probable queries, sum-product otherwise."""
from .lib import *

VIEW = {"squeeze", "unsqueeze", "to", "contiguous", "rearrange", "int", "item", "clone", "reshape", "view"}


def strip(t):
    while t.k == "op" and t.a[0] in VIEW and t.a[1] or t.k == "call" and isinstance(t.a[0], T) and str(t.a[0].a[-1]).split(".")[-1] in ("int", "float") and t.a[1]:
        t = t.a[1][0]
    return t


def dim_of(t, i=1):
    d = kwd(t).get("dim")
    if d is None and len(t.a[1]) > i:
        d = t.a[1][i]
    return int(num(d)) if d is not None and num(d) is not None else None


def is_opt(g, n="is_mpe"):
    return g.k == "attr" and g.a[1] == n


def best(t):
    """(scores, axis) if t is the maximum of the scores over the axis"""
    t = strip(t)
    n = opname(t)
    if n in ("amax",):
        return t.a[1][0], dim_of(t)
    if n == "max" and len(t.a[1]) >= 1:
        return t.a[1][0], dim_of(t)
    if t.k == "attr" and t.a[1] == "values" and opname(t.a[0]) == "max":
        return best(t.a[0])
    if t.k == "item" and is_const(t.a[1], 0) and opname(t.a[0]) == "max":
        return best(t.a[0])
    if n in ("gather", "take_along_dim"):
        s = t.a[1][0]
        ix = kwd(t).get("index") or kwd(t).get("indices")
        if ix is None:
            c = [x for x in t.a[1][1:] if num(x) is None]
            ix = c[0] if c else None
        a = argbest(ix) if ix is not None else None
        d = dim_of(t, 1 if n == "gather" else 2)
        if a is not None and a[0] is s and a[1] == d:
            return s, d
    return None


def argbest(t):
    t = strip(t)
    if opname(t) == "argmax":
        return t.a[1][0], dim_of(t)
    if t.k == "attr" and t.a[1] == "indices" and opname(t.a[0]) == "max" or t.k == "item" and is_const(t.a[1], 1) and opname(t.a[0]) == "max":
        return t.a[0].a[1][0], dim_of(t.a[0])
    return None


def polarity(g):
    """True/False: decided most-probable or not; None: either"""
    v = [b for c, b in g if is_opt(c)]
    return v[-1] if v else None


def messages(ctx, chk, mpe):
    ix = ctx.ix
    for c in ctx.leaves():
        f = ix.find_method(c, "_sample")
        if f is None or f.cls is not c or not ix.find_method(c, "log_likelihood") or ix.find_method(c, "log_likelihood").cls is not c:
            continue
        r = ctx.run(c, "_sample")
        con = f"{c.name}._sample"
        msgs = []
        for e in r.events:
            if e.kind != "store_item" or e.term is None:
                continue
            if e.name == "aug:add" and e.args:
                for g, t in galts(e.args[0], e.guards)[:12]:
                    msgs.append((list(g), t, e))
            elif opname(e.term) == "add" and any(x.k == "item" and x.a[1] is e.idx for x in e.term.a[1]):
                for x in e.term.a[1]:
                    if not (x.k == "item" and x.a[1] is e.idx):
                        msgs += [(list(g), t, e) for g, t in galts(x, e.guards)[:12]]
        if not msgs:
            continue
        scores = set()
        for g, t, e in msgs:
            p = polarity(g)
            lse = opname(strip(t)) == "logsumexp"
            b = best(t)
            if not lse and b is None:
                if contains(t, lambda s: opname(s) in ("argmax", "amax", "max", "logsumexp", "mean", "sum")) and strip(t).k == "op":
                    chk.ob("tree-message", f"{con}:{'max' if p else 'sum'}", False, e.where, "a message is neither the maximum nor the log-sum of the child's scores") if p is None or p == mpe else None
                continue
            if mpe and p is not False:
                chk.ob("tree-message", con + ":max", b is not None and not lse and p is True, e.where, "in a most-probable query the message of a missing child is the best of its scores")
                if b is not None:
                    scores.add(b)
            if not mpe and p is not True:
                s = strip(t)
                chk.ob("tree-message", con + ":sum", lse and p is False, e.where, "while sampling the message of a missing child sums over its values")
                if lse:
                    scores.add((s.a[1][0], dim_of(s)))
        for s, d in scores:
            # score[x_i, x_p]: the table with the child's own messages spread over the parent's values
            chk.ob("tree-message", con + ":axis", d in (0, -2), f"{f.file}:{f.line}", "messages eliminate the child's own values, not its parent's")
        if mpe:
            back = [(argbest(e.term), e) for e in r.events if e.kind == "store_item" and e.term is not None and argbest(e.term) is not None and polarity(e.guards) is True]
            back = [(a, e) for a, e in back if a[1] is not None]
            for a, e in back:
                chk.ob("tree-backtrack", con, a in scores or not scores, e.where, "the remembered choice must be the one whose score is passed on")


def run(ctx, chk, mpe):
    try:
        messages(ctx, chk, mpe)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as e:
        chk.note(f"tree messages not analysed ({type(e).__name__}: {e})")
