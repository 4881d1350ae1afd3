"""Shared recognisers over dataflow terms."""
from __future__ import annotations
import ast
import math
from .ctx import *
from .terms import *

CAST = VIEW_OPS | {"clone", "copy", "bool"}


def core(t, ops=CAST):
    """strip views, casts and copies"""
    while True:
        if t.k == "op" and t.a[0] in ops and t.a[1]:
            t = t.a[1][0]
        elif t.k == "call" and len(t.a) > 1 and t.a[1] and str(t.a[0].a[-1]).split(".")[-1] in ("deepcopy", "copy", "float", "bool"):
            t = t.a[1][0]
        elif t.k == "op" and t.a[0] in ("repeat_e", "repeat", "repeat_interleave", "tile") and t.a[1]:
            t = t.a[1][0]
        else:
            return t


def nan_mask(t, pred=None):
    """+1: t is True exactly where its subject is NaN; -1: exactly where it is not NaN; 0: neither.
    Returns (sign, subject)."""
    t = core(t)
    if t.k == "op":
        if t.a[0] == "isnan":
            return 1, t.a[1][0]
        if t.a[0] in ("not_", "not"):
            s, x = nan_mask(t.a[1][0])
            return -s, x
        if t.a[0] in ("ne", "eq") and len(t.a[1]) == 2 and t.a[1][0] is t.a[1][1]:
            return (1 if t.a[0] == "ne" else -1), t.a[1][0]
        if t.a[0] in ("eq", "ne") and len(t.a[1]) == 2 and any(is_const(x, False) for x in t.a[1]):
            y = [x for x in t.a[1] if not is_const(x, False)]
            if y:
                s, x = nan_mask(y[0])
                return (-s if t.a[0] == "eq" else s), x
        if t.a[0] in ("gt",) and False:
            pass
    return 0, None


def is_zero(t):
    t = core(t)
    if t.k == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return t.a[0] == 0
    if t.k == "op" and t.a[0] in ("zeros", "zeros_like", "new_zeros"):
        return True
    if t.k == "op" and t.a[0] in ("tensor", "as_tensor", "full_like", "full", "new_full", "new_tensor"):
        vals = [x for x in t.a[1]] + [v for k, v in t.a[2] if k in ("fill_value", "data")]
        return any(x.k == "const" and isinstance(x.a[0], (int, float)) and x.a[0] == 0 for x in vals)
    return False


def num(t):
    """numeric value of a constant-ish term, else None"""
    t = core(t)
    if t.k == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return float(t.a[0])
    if t.k == "op" and t.a[0] in ("zeros", "zeros_like", "new_zeros"):
        return 0.0
    if t.k == "op" and t.a[0] in ("ones", "ones_like", "new_ones"):
        return 1.0
    if t.k == "op" and t.a[0] in ("full_like", "full", "new_full") and len(t.a[1]) > 1:
        return num(t.a[1][1])
    if t.k == "op" and t.a[0] in ("tensor", "as_tensor", "float", "new_tensor", "array") and t.a[1]:
        return num(t.a[1][-1] if t.a[0] == "new_tensor" else t.a[1][0])
    if t.k == "op" and t.a[0] == "neg":
        v = num(t.a[1][0])
        return None if v is None else -v
    if t.k == "call" and str(t.a[0].a[-1]) == "float" and t.a[1] and t.a[1][0].k == "const":
        try:
            return float(t.a[1][0].a[0])
        except (TypeError, ValueError):
            return None
    if t.k == "global" and str(t.a[0]).split(".")[-1] in ("inf", "infty"):
        return math.inf
    if t.k == "global" and str(t.a[0]).split(".")[-1] == "nan":
        return math.nan
    return None


def isnan_const(t):
    v = num(t)
    return v is not None and v != v


def data_root(t, names=("data",)):
    """the data parameter a view/selection of data is taken from"""
    while True:
        t = core(t)
        if t.k == "item":
            t = t.a[0]
            continue
        if t.k == "store":
            t = t.a[0]
            continue
        if t.k == "op" and t.a[0] in ("index_select", "gather", "select", "narrow") and t.a[1]:
            t = t.a[1][0]
            continue
        return t


def mentions_data(t, names=("data", "x", "evidence")):
    return contains(t, lambda s: s.k == "param" and s.a[1] in names)


def shape_only(t):
    return t.k == "attr" and t.a[1] in ("shape", "device", "dtype", "ndim", "is_cuda", "requires_grad") or \
        t.k == "op" and t.a[0] in ("numel", "dim", "size")


def value_walk(t):
    """subterms whose *values* flow into t (shape/device/dtype queries are not followed)"""
    return walk(t, into=lambda s: not shape_only(s))


def value_contains(t, pred):
    if isinstance(pred, T):
        return any(s is pred for s in value_walk(t))
    return any(pred(s) and not shape_only(s) for s in value_walk(t))


def guards_about(guards, pred):
    return [(c, b) for c, b in guards if contains(c, pred)]


def live(guards):
    """drop infeasible alternatives (same condition both ways)"""
    seen = {}
    for c, b in guards:
        if seen.setdefault(c, b) != b:
            return False
    return True


def specialise(t, guards):
    """resolve phis inside t whose condition is decided by guards"""
    g = {}
    for c, b in guards:
        g[c] = b
        if c.k == "op" and c.a[0] == "not":
            g[c.a[1][0]] = not b
    memo = {}

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.k == "phi" and x.a[0] in g:
            r = rec(x.a[1] if g[x.a[0]] else x.a[2])
        else:
            r = T(x.k, *[rec(y) for y in x.a])
        memo[x] = r
        return r

    return rec(t)


def value_alts(t, guards=(), limit=400, depth=0):
    """(guards, value) alternatives of a result, phis under the outermost operations resolved as well"""
    out = []
    for g, a in galts(t, guards, limit):
        if live(g):
            out.append((g, specialise(a, g)))
    return out


def phi_conds(t, pred, limit=6):
    out = []
    for s in walk(t):
        if s.k == "phi" and pred(s.a[0]) and s.a[0] not in out:
            out.append(s.a[0])
    return out[:limit]


def split_on(t, conds, guards=()):
    """case split a term on a list of conditions"""
    cases = [(tuple(guards), t)]
    for c in conds:
        nxt = []
        for g, x in cases:
            for b in (True, False):
                nxt.append((g + ((c, b),), specialise(x, ((c, b),))))
        cases = nxt
    return cases


def dedupe_where(events):
    seen, out = set(), []
    for e in events:
        k = (e.kind, e.func.qual, getattr(e.node, "lineno", 0), getattr(e.node, "col_offset", 0))
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def density_methods(ctx, names=("log_prob",)):
    """(class, function, result) for in-repo distribution classes defining a density"""
    for c in sorted(ctx.ix.classes.values(), key=lambda c: c.qual):
        if ctx.Module in ctx.ix.mro(c):
            continue
        for n in names:
            if n in c.methods:
                yield c, c.methods[n], ctx.run(c, c.methods[n])


def covered(gret, evs, assume=lambda c: None, limit=10):
    """Is at least one event (given by its guards) reached on every execution compatible with the path guards `gret`?
    `assume(cond)` gives the truth value to assume for conditions that may legitimately skip the event, else None."""
    known = dict(gret)
    rest = []
    for gs in evs:
        g2, dead = [], False
        for c, b in gs:
            if c in known:
                if known[c] != b:
                    dead = True
                    break
                continue
            if c.k == "forall":
                continue
            a = assume(c)
            if a is None:
                g2.append((c, b))
            elif a != b:
                dead = True
                break
        if not dead:
            rest.append(g2)
    if any(not g for g in rest):
        return True
    atoms = []
    path = [(c, b) for c, b in gret if c.k != "forall"]
    for c, _ in [x for g in rest for x in g]:
        for x in bool_atoms(c):
            if x not in atoms:
                atoms.append(x)
    # path conditions that constrain the same atoms
    path = [(c, b) for c, b in path if any(x in atoms for x in bool_atoms(c))]
    for c, _ in path:
        for x in bool_atoms(c):
            if x not in atoms and len(atoms) < limit:
                atoms.append(x)
    path = [(c, b) for c, b in path if all(x in atoms for x in bool_atoms(c))]
    if not rest or not atoms or len(atoms) > limit:
        return False
    for m in range(1 << len(atoms)):
        val = {c: bool(m >> i & 1) for i, c in enumerate(atoms)}
        if any(bool_eval(c, val) != b for c, b in path):
            continue
        if not any(all(bool_eval(c, val) == b for c, b in g) for g in rest):
            return False
    return True


def bool_atoms(c):
    """atomic conditions of a compound boolean term"""
    if c.k == "op" and c.a[0] in ("and", "or", "not") and c.a[1]:
        return [x for y in c.a[1] for x in bool_atoms(y)]
    if c.k == "op" and c.a[0] == "isnot":
        return [op("is", c.a[1])]
    return [c]


def bool_eval(c, val):
    if c.k == "op" and c.a[0] in ("and", "or", "not") and c.a[1]:
        vs = [bool_eval(y, val) for y in c.a[1]]
        return all(vs) if c.a[0] == "and" else any(vs) if c.a[0] == "or" else not vs[0]
    if c.k == "op" and c.a[0] == "isnot":
        return not val[op("is", c.a[1])]
    return val[c]



def torch_family(ctx, nm):
    """name of the torch.distributions family whose density a distribution class has (in-repo subclasses that change neither construction nor density resolved)"""
    import ast as _ast
    last = str(nm).split(".")[-1]
    if "torch.distributions" in str(nm):
        return last
    for k in ctx.ix.classes.values():
        if k.name == last:
            for b in ctx.ix.mro(k):
                if {"__init__", "log_prob", "cdf"} & set(b.methods):
                    return last
                for x in b.node.bases:
                    t = _ast.unparse(x)
                    if "distributions." in t:
                        return t.split(".")[-1]
    return last
