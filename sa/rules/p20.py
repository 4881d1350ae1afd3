"""Structural validity: products over disjoint scopes, sums over equal scopes, and the scope algebra behind it."""
import ast
from ..lib import *
from .p08 import kind_of

ID = "P20"
TITLE = "Circuits are smooth and decomposable: overlaps and mismatches are rejected"
EXPL = ("Guard dominance and set algebra: on every construction path that combines several inputs into one module, a scope check over all of those inputs (pairwise disjoint for products and "
        "feature concatenation, equal for mixtures and channel concatenation) dominates the reported scope, which is their union; the scope operations used by the checks are decided over all Venn regions of "
        "query and evidence; partitions of regions are checked before they are recorded.")
ASSUME = ("a Python set/tuple/sorted conversion keeps membership",)


# ---------------------------------------------------------------- set algebra over Venn regions
ATOMS = ("q1", "q2", "e1", "e2")


def regions():
    for m in range(16):
        yield {a: bool(m >> i & 1) for i, a in enumerate(ATOMS)}


def member(t):
    """set-valued term -> membership function over a region, or None"""
    t = core(t)
    if t.k == "attr" and t.a[1] in ("query", "evidence", "_query", "_evidence"):
        w = "1" if t.a[0].k == "self" else "2"
        nm = t.a[1].lstrip("_")[0] + w
        return lambda r: r[nm]
    if t.k in ("star", "starred"):
        return member(t.a[0])
    if t.k in ("list", "tuple", "set"):
        fs = [member(x) if x.k in ("star", "starred") else None for x in t.a[0]]
        if not t.a[0]:
            return lambda r: False
        return (lambda r: any(f(r) for f in fs)) if all(fs) else None
    if t.k == "comp" and len(t.a) > 2:
        # {x for x in A if x not in B}
        src, conds = t.a[2], t.a[3] if len(t.a) > 3 else ()
        if len(src) == 1 and t.a[1].k == "elem":
            f = member(src[0])
            cs = []
            for c in conds:
                c = c if isinstance(c, T) else None
                if c is None or c.k != "op" or c.a[0] not in ("in", "notin", "not") :
                    return None
                neg = c.a[0] == "notin"
                while c.k == "op" and c.a[0] == "not":
                    neg, c = not neg, c.a[1][0]
                if c.k != "op" or c.a[0] not in ("in", "notin"):
                    return None
                g = member(c.a[1][1])
                if g is None:
                    return None
                cs.append((g, neg))
            return (lambda r: f(r) and all(g(r) != n for g, n in cs)) if f else None
        return None
    if t.k == "call":
        nm = str(t.a[0].a[-1]).split(".")[-1]
        if nm in ("set", "frozenset", "tuple", "list", "sorted", "dict.fromkeys", "fromkeys") and len(t.a[1]) >= 1:
            return member(t.a[1][0])
        if nm in ("set", "frozenset", "list", "tuple") and not t.a[1]:
            return lambda r: False
        if t.a[0].k == "attr" and nm in ("union", "intersection", "difference", "symmetric_difference"):
            fs = [member(t.a[0].a[0])] + [member(x) for x in t.a[1]]
            if not all(fs):
                return None
            return {"union": lambda r: any(f(r) for f in fs), "intersection": lambda r: all(f(r) for f in fs),
                    "difference": lambda r: fs[0](r) and not any(f(r) for f in fs[1:]),
                    "symmetric_difference": lambda r: sum(f(r) for f in fs) % 2 == 1}[nm]
    if t.k == "op" and t.a[0] in ("sorted", "set", "list", "tuple", "frozenset", "unique") and t.a[1]:
        return member(t.a[1][0])
    if t.k == "op" and t.a[0] in ("or_", "and_", "sub", "xor", "add", "union", "intersection", "difference") and len(t.a[1]) == 2:
        a, b = member(t.a[1][0]), member(t.a[1][1])
        if a is None or b is None:
            return None
        return {"or_": lambda r: a(r) or b(r), "add": lambda r: a(r) or b(r), "union": lambda r: a(r) or b(r), "and_": lambda r: a(r) and b(r),
                "intersection": lambda r: a(r) and b(r), "sub": lambda r: a(r) and not b(r), "difference": lambda r: a(r) and not b(r), "xor": lambda r: a(r) != b(r)}[t.a[0]]
    return None


def forbids(t, neg=False):
    """universal predicate over sets -> the Venn regions it forbids to be inhabited (as a frozenset of indices), or None"""
    if t.k == "op" and t.a[0] in ("not", "not_"):
        return forbids(t.a[1][0], not neg)
    if t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] == "bool" and t.a[1]:
        return forbids(t.a[1][0], neg)
    R = list(regions())
    ix = lambda f: frozenset(i for i, r in enumerate(R) if f(r))
    if t.k == "op":
        n, a = t.a[0], t.a[1]
        if n in ("and", "and_") and not neg or n in ("or", "or_") and neg:
            fs = [forbids(x, neg) for x in a]
            return None if any(f is None for f in fs) else frozenset().union(*fs)
        if n in ("eq", "ne") and len(a) == 2 and (n == "eq") != neg:
            f, g = member(a[0]), member(a[1])
            if f and g:
                return ix(lambda r: f(r) != g(r))
            if is_zero(a[1]) or is_zero(a[0]):
                x = a[0] if is_zero(a[1]) else a[1]
                x = x.a[1][0] if (x.k in ("op", "call")) and str(x.a[0] if x.k == "op" else x.a[0].a[-1]).split(".")[-1] == "len" else None
                f = member(x) if x is not None else None
                return ix(f) if f else None
        if n in ("le", "ge") and len(a) == 2 and not neg:
            f, g = member(a[0]), member(a[1])
            if f and g:
                return ix((lambda r: f(r) and not g(r)) if n == "le" else (lambda r: g(r) and not f(r)))
        if n == "any" and neg and a and a[0].k == "comp" and a[0].a[1].k == "op" and a[0].a[1].a[0] == "in":
            f, g = member(a[0].a[2][0]), member(a[0].a[1].a[1][1])
            if f and g:
                return ix(lambda r: f(r) and g(r))
        if n in ("and_", "or_", "sub", "xor", "intersection") and neg:
            f = member(t)
            return ix(f) if f else None
    if t.k == "call" and t.a[0].k == "attr":
        nm = t.a[0].a[1]
        args = list(t.a[1]) + [v for _, v in t.a[2]]
        if nm in ("isdisjoint", "issubset", "issuperset") and not neg and len(args) == 1:
            f, g = member(t.a[0].a[0]), member(args[0])
            if f and g:
                return ix({"isdisjoint": lambda r: f(r) and g(r), "issubset": lambda r: f(r) and not g(r), "issuperset": lambda r: g(r) and not f(r)}[nm])
    f = member(t) if neg else None
    return ix(f) if f else None


# ---------------------------------------------------------------- which children a scope check covers
def seq_root(t):
    """the list a sequence of modules is drawn from"""
    while True:
        t = core(t)
        if t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] in ("ModuleList", "list", "tuple", "enumerate", "iter") and t.a[1]:
            t = t.a[1][0]
        elif t.k in ("star", "starred"):
            t = t.a[0]
        else:
            return t


def scope_sources(t):
    """children whose scopes a list of scopes ranges over: set of ('all', seq) / ('one', module)"""
    t = core(t)
    out = set()
    if t.k == "comp":
        e = t.a[1]
        for g, x in galts(e)[:8]:
            if x.k == "attr" and x.a[1] in ("scope", "_scope"):
                pass
            else:
                return set()
        if len(t.a) > 3 and t.a[3]:
            return {("filtered", seq_root(t.a[2][0]))}
        for x in alts(t.a[2][0]):
            out.add(("all", seq_root(x)))
        out.add(("all", seq_root(t.a[2][0])))
        return out
    if t.k in ("list", "tuple", "set"):
        for x in t.a[0]:
            for y in alts(x):
                if y.k == "attr" and y.a[1] in ("scope", "_scope"):
                    out.add(("one", y.a[0]))
                elif y.k in ("star", "starred"):
                    out |= scope_sources(y.a[0])
        return out
    if t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] in ("list", "tuple", "iter") and t.a[1]:
        return scope_sources(t.a[1][0])
    if t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] == "map" and len(t.a[1]) == 2:
        return {("all", seq_root(x)) for x in alts(t.a[1][1]) + [t.a[1][1]]}
    if t.k == "phi":
        return scope_sources(t.a[1]) | scope_sources(t.a[2])
    return out


def norm_children(src):
    """collapse element/index spellings"""
    out = set()
    for k, m in src:
        if k == "one" and m.k == "elem":
            out.add(("all", seq_root(m.a[0])))
        elif k == "one" and m.k == "item" and m.a[1].k == "slice" and False:
            out.add((k, m))
        else:
            out.add((k, m))
    return out


def facts(cs, val=True):
    """(check kind, sources) established by guards"""
    for c, b in cs:
        yield from fact(c, b)


def fact(c, b, q=None):
    if c.k == "op" and c.a[0] in ("not", "not_"):
        yield from fact(c.a[1][0], not b, q)
        return
    if c.k == "op" and c.a[0] in ("and", "and_") and b or c.k == "op" and c.a[0] in ("or", "or_") and not b:
        for x in c.a[1]:
            yield from fact(x, b, q)
        return
    if c.k == "op" and c.a[0] in ("is", "eq", "isnot", "ne") and len(c.a[1]) == 2 and c.a[1][1].k == "const" and isinstance(c.a[1][1].a[0], bool):
        yield from fact(c.a[1][0], (c.a[1][1].a[0] == (c.a[0] in ("is", "eq"))) == b, q)
        return
    if c.k == "forall" and len(c.a) >= 3 and b:
        yield from fact(c.a[1], is_const(c.a[2], True) if isinstance(c.a[2], T) else bool(c.a[2]), c.a[0])
        return
    if c.k == "op" and c.a[0] == "all" and b and c.a[1] and c.a[1][0].k == "comp" or c.k == "op" and c.a[0] == "any" and not b and c.a[1] and c.a[1][0].k == "comp":
        yield from fact(c.a[1][0].a[1], b, c.a[1][0].a[2][0])
        return
    if c.k == "call" and isinstance(c.a[0], T):
        nm = str(c.a[0].a[-1]).split(".")[-1]
        args = list(c.a[1]) + [v for _, v in c.a[2]]
        if nm in ("all", "any") and args and args[0].k == "comp" and b == (nm == "all"):
            yield from fact(args[0].a[1], b, args[0].a[2][0])
            return
        if nm in ("all_pairwise_disjoint", "all_equal") and b and args:
            yield ("disjoint" if nm == "all_pairwise_disjoint" else "equal"), norm_children(scope_sources(args[0]))
        if nm in ("isdisjoint", "__eq__") and b and c.a[0].k == "attr" and args:
            s = {("one", x.a[0]) for x in [c.a[0].a[0], args[0]] if x.k == "attr" and x.a[1] in ("scope", "_scope")}
            yield ("disjoint" if nm == "isdisjoint" else "equal"), norm_children(s)
    if c.k == "op" and c.a[0] in ("eq", "ne") and b == (c.a[0] == "eq"):
        s = {("one", x.a[0]) for x in c.a[1] if x.k == "attr" and x.a[1] in ("scope", "_scope")}
        if len(s) == 2:
            yield "equal", norm_children(s)


def implied_facts(final, gs):
    """facts of the final path condition, or-conditions resolved under the guards of a site"""
    out = []
    g = dict(gs)
    for c, b in list(final) + list(gs):
        out += list(fact(c, b))
        if c.k == "op" and c.a[0] in ("or", "or_") and b:
            rest = [x for x in c.a[1] if not refuted(x, g)]
            if len(rest) == 1:
                out += list(fact(rest[0], True))
    return out


def refuted(x, g):
    if x in g:
        return not g[x]
    if x.k == "op" and x.a[0] in ("not", "not_"):
        y = x.a[1][0]
        return y in g and g[y]
    return False


def covers_all(fs, kind, want):
    for k, s in fs:
        if k == kind and all(any(a == b for b in s) for a in want):
            return True
    return False


def same_seq(a, b):
    return a is b


def check(ctx, chk):
    ix = ctx.ix
    S = ix.cls("spflow.meta.data.scope.Scope")
    SQ = tuple(f.qual for f in ix.functions.values() if f.cls is S)
    for c in sorted({x for x in ix.classes.values() if ctx.Module in ix.mro(x)}, key=lambda x: x.qual):
        f = c.methods.get("__init__")
        if f is None:
            continue
        r = ctx.run(c, f, opaque_quals=SQ)
        final = [g for g in (r.returns[-1][0] if r.returns else ())]
        sc = [e for e in r.events if e.kind == "store_attr" and e.idx == "_scope" and e.target is not None and e.target.k == "self"]
        handed = [e for e in r.events if e.kind == "call" and e.name in ("Cat", "Product", "ElementwiseProduct", "OuterProduct", "Sum", "ElementwiseSum")]
        held = [e for e in r.events if e.kind == "store_attr" and e.target is not None and e.target.k == "self" and e.idx in ("inputs", "components")]
        for e in sc:
            con, W = f"{c.name}.__init__", e.where
            for g, t in scope_alts(e.term, e.guards):
                if not live(g):
                    continue
                fs = implied_facts(final, g)
                u = union_of(t)
                if u is not None:
                    if any(k == "filtered" for k, _ in u):
                        chk.ob("scope-union", con, False, W, "the reported scope leaves out some inputs")
                        continue
                    ok = covers_all(fs, "disjoint", minimal(u)) or given_to_checker(u, r, "disjoint")
                    chk.ob("disjoint-checked", con, ok, W, "inputs whose scopes are joined must be checked to be pairwise disjoint before the module is built")
                    kids = {seq_root(h.term) for h in held if h.idx == "inputs" and h.term.k == "call" and "ModuleList" in str(h.term.a[0])} if held else set()
                    for k in kids:
                        ks = {("all", k)} if k.k not in ("list", "tuple") else {("one", x) for x in k.a[0]}
                        ok = all(x in u for x in ks) or any(y in u for a in alts(k) for y in [("all", seq_root(a))])
                        chk.ob("scope-union", con, ok, W, "the reported scope must join the scopes of all inputs")
                elif t.k == "attr" and t.a[1] in ("scope", "_scope"):
                    m = t.a[0]
                    if m.k == "item" and m.a[1].k == "const":
                        sq = seq_root(m.a[0])
                        whole = [h for h in held if h.term is not None and seq_root(h.term) is sq]
                        if whole or any(h.kind == "store_attr" and h.term is sq for h in held):
                            chk.ob("equal-checked", con, covers_eq(fs, sq, m), W, "inputs of a mixture must be checked to have equal scopes before the module is built")
                    else:
                        # a single designated child; other children stored along with it must agree
                        others = [h for h in held if h.term is not None and h.term.k == "call" and "ModuleList" in str(h.term.a[0])]
                        for h in others:
                            sq = seq_root(h.term)
                            if sq.k not in ("list", "tuple") and h.idx == "components":
                                chk.ob("equal-checked", con, covers_eq(fs, sq, m), W, "components must be checked to have the same scope")
        # lists handed to a concatenation: along features for products, along channels for mixtures
        for e in handed:
            if e.name != "Cat" or not stored_as_input(e, held):
                continue
            d = e.kwargs.get("dim")
            want = 1 if (kind_of(ctx, c) == "product" or c.name == "Factorize") else 2
            chk.ob("concat-axis", f"{c.name}.__init__", d is not None and num(d) == want, e.where, f"a {'product' if want == 1 else 'mixture'} of several inputs must concatenate along axis {want}")
            a = e.kwargs.get("inputs") or (e.args[0] if e.args else None)
            chk.ob("concat-whole", f"{c.name}.__init__", a is not None and not contains(a, lambda s: s.k == "slice"), e.where, "all inputs must be concatenated")
        # element-wise mixtures also need the same layout
        if c.name == "ElementwiseSum":
            ok = any(layout_guard(g) for g, b in final)
            chk.ob("layout-checked", f"{c.name}.__init__", ok, f"{f.file}:{f.line}", "element-wise mixtures need identical feature-to-scope mappings in every repetition")
    # channels concatenated, and repetitions mixed, position by position need the same layout as well
    for name, what in (("Cat", "inputs concatenated over channels must have the same variables at every feature"), ("RepetitionMixingLayer", "mixed repetitions must have the same variables at every feature")):
        for c in [c for c in ix.classes.values() if c.name == name and ctx.Module in ix.mro(c)]:
            f = ix.find_method(c, "__init__")
            ok = True
            rets = [list(g) for g, _ in ctx.run(c, "__init__").returns]
            for g in rets:
                ok = ok and any(layout_fact(t, b) for t, b in g)
            chk.ob("layout-checked", f"{c.name}.__init__", ok and bool(rets), f"{f.file}:{f.line}", what)
    # concatenation itself: check kind per axis
    c = ix.cls("spflow.modules.ops.cat.Cat")
    r = ctx.run(c, "__init__", opaque_quals=SQ)
    f = c.methods["__init__"]
    seen = set()
    for e in r.events:
        if e.kind == "store_attr" and e.idx in ("_scope", "scope") and e.target is not None and e.target.k == "self":
            for g, t in galts(e.term, e.guards)[:8]:
                d = [int(num(y)) for x, b in g if x.k == "op" and x.a[0] == "eq" and b for y in x.a[1] if num(y) in (1, 2)]
                u = union_of(t)
                kind = "disjoint" if u is not None else "equal"
                fs = implied_facts(r.returns[-1][0] if r.returns else (), g)
                for dim in d[-1:]:
                    seen.add(dim)
                    need = "disjoint" if dim == 1 else "equal"
                    ok = any(k == need and s and not any(x[0] == "filtered" for x in s) for k, s in fs)
                    chk.ob("concat-check", f"Cat.__init__:dim{dim}", ok and kind == need, e.where, f"concatenation along {'features needs disjoint' if dim == 1 else 'channels needs equal'} scopes")
    chk.ob("concat-check", "Cat.__init__", seen >= {1, 2}, f"{f.file}:{f.line}", "concatenation must check scopes for both axes")
    # partitions of regions
    for c in sorted(ix.classes.values(), key=lambda c: c.qual):
        f = c.methods.get("add_partition")
        if f is None:
            continue
        r = ctx.run_func(f, c, opaque_quals=SQ)
        for e in r.events:
            if e.kind == "call" and e.name in ("append", "add", "extend", "insert") or e.kind in ("store_attr", "store_item"):
                fs = implied_facts((), e.guards)
                con = f"{c.name}.add_partition"
                chk.ob("partition-checked", con + ":disjoint", any(k == "disjoint" and any(x[0] == "all" and x[1].k != "item" for x in s) for k, s in fs), e.where, "regions of a partition must be checked pairwise disjoint")
                cover = any(b and x.k == "call" and str(x.a[0].a[-1]).split(".")[-1] in ("equal_query", "__eq__") and value_contains(x, lambda s: self_attr(s, "scope")) and
                            value_contains(x, lambda s: s.k == "call" and str(s.a[0].a[-1]).split(".")[-1] in ("join_all", "join", "reduce")) or
                            b and x.k == "op" and x.a[0] == "eq" and value_contains(x, lambda s: self_attr(s, "scope")) and not contains(x, lambda s: s.k == "op" and s.a[0] == "len" or s.k == "call" and str(s.a[0].a[-1]).split(".")[-1] == "len") for x, b in e.guards)
                chk.ob("partition-checked", con + ":covers", cover, e.where, "regions of a partition must cover the region's scope exactly")
    algebra(ctx, chk, S)
    chk.floor("disjoint-checked", 3)
    chk.floor("equal-checked", 2)
    chk.floor("concat-axis", 2)
    chk.floor("scope-algebra", 6)


def stored_as_input(e, held):
    return e.term is None or any(h.term is not None and contains(h.term, lambda s: s is e.term) for h in held) or not held


def whole(u):
    """first element and the rest = the whole list"""
    out = set(u)
    for k, m in u:
        if k == "one" and m.k == "item" and num(m.a[1]) == 0:
            sq = seq_root(m.a[0])
            for k2, m2 in u:
                if k2 == "all" and m2.k == "item" and seq_root(m2.a[0]) is sq and m2.a[1].k == "slice" and num(m2.a[1].a[0]) == 1 and is_const(m2.a[1].a[1], None):
                    out -= {(k, m), (k2, m2)}
                    out.add(("all", sq))
    return out


def folded(t):
    """value built by a loop that joins every element's scope"""
    return t.k == "phi" and t.a[0].k == "ran" and t.a[1].k == "call" and union_of(t.a[1]) is not None


def scope_alts(t, gs):
    if folded(t):
        return [(tuple(gs), t.a[1])]
    return galts(t, gs)[:16]


def minimal(u):
    a = [x for x in u if x[0] == "all" and x[1].k != "phi"]
    p = [x for x in u if x[0] == "all" and x[1].k == "phi"]
    o = [x for x in u if x[0] == "one"]
    return (p or a) + o


def union_of(t):
    """children joined by join_all([...]) / a.scope.join(b.scope), else None"""
    if t.k == "call" and isinstance(t.a[0], T):
        nm = str(t.a[0].a[-1]).split(".")[-1]
        args = list(t.a[1]) + [v for _, v in t.a[2]]
        if nm == "join_all" and args:
            return norm_children(scope_sources(args[0])) or {("unknown", args[0])}
        if nm == "join" and t.a[0].k == "attr" and args:
            out = set()
            for y in (t.a[0].a[0], args[0]):
                for x in alts(y):
                    u = union_of(x)
                    if u is not None:
                        out |= u
                    elif x.k == "attr" and x.a[1] in ("scope", "_scope"):
                        out.add(("one", x.a[0]))
            return whole(norm_children(out))
        if nm == "reduce" and len(args) >= 2:
            return norm_children(scope_sources(args[1])) or {("unknown", args[1])}
    return None


def covers_eq(fs, sq, m):
    for k, s in fs:
        if k != "equal":
            continue
        if ("all", sq) in s:
            return True
        # each element compared with the designated one
        if any(x[0] == "all" and (x[1] is sq or x[1].k == "item" and seq_root(x[1].a[0]) is sq and x[1].a[1].k == "slice" and num(x[1].a[1].a[0]) == 1 and is_const(x[1].a[1].a[1], None)
                                   and m.k == "item" and num(m.a[1]) == 0) for x in s) and \
                any(x[0] == "one" and (x[1] is m or x[1].k == "item" and seq_root(x[1].a[0]) is sq) for x in s):
            return True
    return False


def given_to_checker(u, r, kind):
    """all children are handed to a constructor that performs the check itself"""
    for e in r.events:
        if e.kind != "call" or e.name not in ("Cat", "Product", "ElementwiseProduct", "OuterProduct", "Factorize", "EinsumLayer", "LinsumLayer"):
            continue
        a = e.kwargs.get("inputs") or (e.args[0] if e.args else None)
        if a is None:
            continue
        for x in alts(a) + [a]:
            rt = seq_root(x)
            for y in alts(rt) + [rt]:
                if any(k == "all" and (s is y or s is seq_root(y) or y in alts(s)) for k, s in u):
                    return True
    # a leaf list kept only as given to region-building code that concatenates it
    return any(e.kind == "call" and e.name in ("Factorize",) for e in r.events)


def layout_guard(g):
    if g.k != "forall":
        return False
    if contains(g, lambda s: (s.k == "call" and str(s.a[0].a[-1]).split(".")[-1] == "range" or s.k == "op" and s.a[0] == "range") and all(x.k == "const" for x in (s.a[1] if isinstance(s.a[1], tuple) else ()))):
        return False
    return value_contains(g, lambda s: s.k == "attr" and s.a[1] == "feature_to_scope") and not contains_slice_end(g)


def tname(x):
    return opname(x) or (str(x.a[0].a[-1]).split(".")[-1] if x.k == "call" and isinstance(x.a[0], T) else None)


def compares(x, q):
    """(x is q) states that feature tables of different modules or repetitions are equal everywhere"""
    n = tname(x)
    if x.k == "forall":
        return bool(q) and compares(x.a[1], bool(x.a[2]))
    if n == "not":
        return compares(x.a[1][0], not q)
    if n in ("all", "any") and x.a[1]:
        y = x.a[1][0]
        y = y.a[1] if y.k == "comp" and isinstance(y.a[1], T) else y
        return q == (n == "all") and compares(y, q)
    if n in ("array_equal", "eq", "ne", "equal", "array_equiv") and len(x.a[1]) == 2:
        a, b = x.a[1]
        f = lambda t: value_contains(t, lambda s: s.k == "attr" and s.a[1] == "feature_to_scope") and tname(t) not in ("len", "sum") and not (t.k == "attr" and t.a[1] != "feature_to_scope")
        return f(a) and f(b) and a is not b and q == (n != "ne")
    if x.k == "comp" and isinstance(x.a[1], T):
        return compares(x.a[1], q)
    return False


def layout_fact(t, b):
    """the fact (t is b) compares the feature tables of all positions, except for one feature or the other axis"""
    ds = [(t, b)]
    while any(opname(x) in ("or", "not", "and_", "or_", "and") and len(x.a[1]) >= 1 and (opname(x) == "not" or q == (opname(x) in ("or", "or_"))) for x, q in ds):
        out = []
        for x, q in ds:
            n = opname(x)
            if n == "not":
                out.append((x.a[1][0], not q))
            elif n in ("or", "or_", "and", "and_") and q == (n in ("or", "or_")):
                out += [(y, q) for y in x.a[1]]
            else:
                out.append((x, q))
        ds = out
    hit = False
    for x, q in ds:
        if value_contains(x, lambda s: s.k == "attr" and s.a[1] == "feature_to_scope"):
            whole = x.k == "forall" or opname(x) in ("all", "any") or x.k == "call" and str(x.a[0].a[-1]) in ("all", "any") or value_contains(x, lambda s: s.k == "comp") or opname(x) == "array_equal"
            consts = contains(x, lambda s: (s.k == "call" and str(s.a[0].a[-1]).split(".")[-1] == "range" or opname(s) == "range") and all(y.k == "const" for y in s.a[1]))
            cond = any(y.a[3] for y in walk(x) if y.k == "comp")
            cut = contains(x, lambda s: s.k == "item" and s.a[1].k == "slice" and not is_const(s.a[1].a[1], None))
            if not whole or cut or consts or cond or not compares(x, q):
                return False
            hit = True
        elif x.k == "op" and x.a[0] in ("eq", "ne", "lt", "le") and any(num(y) is not None for y in x.a[1]):
            n = next(int(num(y)) for y in x.a[1] if num(y) is not None)
            o = next((y for y in x.a[1] if num(y) is None), None)
            last = o is not None and (o.a[1] if o.k == "attr" else o.a[-1] if o.k == "param" else "")
            left = num(x.a[1][0]) is not None
            rel = x.a[0]
            if last in ("dim", "_dim"):
                if not (rel == "eq" and (n == 1) == q and n in (1, 2)) and not (rel == "ne" and n == 2 and q):
                    return False
            elif last in ("features", "repetitions"):
                one = (rel == "lt" and left and n == 1 and not q) or (rel == "lt" and not left and n == 2 and q) or (rel == "le" and not left and n == 1 and q) or (rel == "le" and left and n == 2 and not q) or (
                    rel == "eq" and n == 1 and q)
                if not one:
                    return False
            elif not (opname(o) == "len" or o is not None and o.k == "call" and str(o.a[0].a[-1]) == "len"):
                return False
        else:
            return False
    return hit


def contains_slice_end(g):
    return contains(g, lambda s: s.k == "slice" and not is_const(s.a[1], None))


def algebra(ctx, chk, S):
    R = list(regions())
    ix = lambda f: frozenset(i for i, r in enumerate(R) if f(r))
    q = ix(lambda r: r["q1"] != r["q2"])
    ev = ix(lambda r: r["e1"] != r["e2"])
    spec = {"equal_query": q, "equal_evidence": ev, "__eq__": q | ev, "isdisjoint": ix(lambda r: r["q1"] and r["q2"])}
    for n, want in spec.items():
        f = S.methods.get(n)
        if f is None:
            continue
        r = ctx.run(S, f)
        W = f"{f.file}:{f.line}"
        got = pred_value(r)
        chk.ob("scope-algebra", f"Scope.{n}", got == want, W, f"{n} must compare exactly the {'query' if n != '__eq__' else 'query and evidence'} variables" + ("" if got is not None else " (not decided)"))
    f = S.methods.get("join")
    r = ctx.run(S, f, opaque_quals=(S.qual + ".__init__",))
    W = f"{f.file}:{f.line}"
    for s in [x for x in alts(r.value)]:
        k = kwd(s)
        a = list(s.a[1]) if s.k == "call" else []
        qv = k.get("query") or (a[0] if a else None)
        e = k.get("evidence") or (a[1] if len(a) > 1 else None)
        fq = member(qv) if qv is not None else None
        fe = member(e) if e is not None else None
        chk.ob("scope-algebra", "Scope.join:query", fq is not None and ix(fq) == ix(lambda r: r["q1"] or r["q2"]), W, "the joined query is the union of both")
        chk.ob("scope-algebra", "Scope.join:evidence", fe is not None and ix(fe) == ix(lambda r: (r["e1"] or r["e2"]) and not (r["q1"] or r["q2"])), W, "joined evidence is the union of both without the joined query")
    # folds over many scopes
    for n in ("all_pairwise_disjoint", "all_equal", "join_all"):
        f = S.methods.get(n)
        if f is not None:
            ok, why = fold_ok(f, n)
            chk.ob("scope-fold", f"Scope.{n}", ok, f"{f.file}:{f.line}", why)
    # construction
    f = S.methods["__init__"]
    r = ctx.run(S, f)
    final = r.returns[-1][0] if r.returns else ()
    for p in ("query", "evidence"):
        about = lambda s, p=p: s.k == "param" and s.a[1] == p
        other = lambda s, p=p: s.k == "param" and s.a[1] == ("evidence" if p == "query" else "query")
        neg = any(contains(g, about) and not contains(g, other) and contains(g, lambda s: s.k == "op" and s.a[0] in ("lt", "ge", "le", "gt") and any(is_zero(x) for x in s.a[1]) or
                                                          s.k == "op" and s.a[0] in ("lt", "le", "ge", "gt") and any(num(x) == -1 for x in s.a[1])) for g, b in final)
        dup = any(contains(g, about) and not contains(g, other) and contains(g, lambda s: (s.k == "call" and str(s.a[0].a[-1]).split(".")[-1] in ("set", "frozenset", "Counter", "fromkeys") or s.k == "op" and s.a[0] in ("set", "frozenset"))) for g, b in final)
        chk.ob("scope-valid", f"Scope.__init__:{p}:negative", neg, f"{f.file}:{f.line}", f"negative {p} variables must be rejected")
        chk.ob("scope-valid", f"Scope.__init__:{p}:duplicate", dup, f"{f.file}:{f.line}", f"duplicate {p} variables must be rejected")
    both = any(contains(g, lambda s: is_param(s, "query")) and contains(g, lambda s: is_param(s, "evidence")) and
               (contains(g, lambda s: s.k == "call" and str(s.a[0].a[-1]) in ("isdisjoint", "intersection")) or contains(g, lambda s: s.k == "op" and s.a[0] in ("and_", "in"))) for g, b in final)
    chk.ob("scope-valid", "Scope.__init__:overlap", both, f"{f.file}:{f.line}", "a variable may not be both query and evidence")


def pred_value(r):
    """forbidden regions of a Boolean method (phi/early return forms included)"""
    def of(t):
        if t.k == "phi":
            c, a, b = t.a
            if is_const(b, False):
                x, y = forbids(c), of(a)
                return None if x is None or y is None else x | y
            if is_const(a, False):
                x, y = forbids(c, True), of(b)
                return None if x is None or y is None else x | y
            return None
        if is_const(t, True):
            return frozenset()
        return forbids(t)
    v = r.value
    # alternatives for foreign argument types do not matter
    if v.k == "phi" and contains(v.a[0], lambda s: s.k == "op" and s.a[0] == "isinstance"):
        v = v.a[1] if not (is_const(v.a[1], False) or v.a[1].k == "global") else v.a[2]
    return of(v)


def fold_ok(f, n):
    """the accumulator compared against must take in every scope seen so far (disjointness / join); for equality any seen scope will do"""
    node = f.node
    src = ast.unparse(node)
    calls = [x for x in ast.walk(node) if isinstance(x, ast.Call)]
    names = {(x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")) for x in calls}
    loops = [x for x in ast.walk(node) if isinstance(x, ast.For)]
    seqs = [x.iter for x in loops] + [g.iter for x in ast.walk(node) if isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.SetComp)) for g in x.generators]
    for s in seqs:
        for y in ast.walk(s):
            if isinstance(y, ast.Slice) and n != "all_equal" and not (len(seqs) > 1 or names & {"reduce"}) and y.upper is not None:
                return False, "only part of the scopes is looked at"
    if n == "join_all":
        if "reduce" in names:
            lam = [x for x in ast.walk(node) if isinstance(x, ast.Lambda)]
            if lam:
                used = {y.id for y in ast.walk(lam[0].body) if isinstance(y, ast.Name)}
                ok = {a.arg for a in lam[0].args.args} <= used and any(isinstance(y, ast.Attribute) and y.attr == "join" for y in ast.walk(lam[0].body))
                return ok, "folding must join the accumulated scope with each scope"
            return "join" in src, "folding must join"
        return accumulates(loops, {"join", "union", "update", "extend"}), "joining must accumulate every scope"
    if n == "all_equal":
        rets = [x for x in ast.walk(node) if isinstance(x, ast.Return)]
        cmpn = any(isinstance(x, ast.Compare) for x in ast.walk(node)) or names & {"equal_query", "__eq__"}
        if not cmpn:
            return False, "scopes must be compared"
        if names & {"isdisjoint"} or "equal_query" in names and "equal_evidence" not in names and not any(isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Eq, ast.NotEq)) for x in ast.walk(node)):
            return False, "equality must compare query and evidence"
        return polarity(node, "eq"), "unequal scopes must give False"
    # pairwise disjointness
    if "combinations" in names or "permutations" in names:
        return polarity(node, "disjoint"), "overlap must give False"
    if len(seqs) >= 2 and any(any(isinstance(y, ast.Name) for y in ast.walk(s)) for s in seqs) and not loops == [] and len(loops) >= 2:
        return polarity(node, "disjoint"), "overlap must give False"
    if "sum" in names and "len" in names:
        return True, ""
    if not loops:
        return len(seqs) >= 2, "every pair of scopes must be compared"
    if not accumulates(loops, {"join", "union", "update", "extend", "add", "append"}):
        return False, "each scope must be compared with the union of all earlier ones"
    return polarity(node, "disjoint"), "overlap must give False"


def accumulates(loops, how):
    for lp in loops:
        lv = {y.id for y in ast.walk(lp.target) if isinstance(y, ast.Name)}
        for _ in range(3):  # locals derived from the loop variable
            for s in ast.walk(lp):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and any(isinstance(y, ast.Name) and y.id in lv for y in ast.walk(s.value)):
                    used = {y.id for y in ast.walk(s.value) if isinstance(y, ast.Name)}
                    if s.targets[0].id not in used and not any(isinstance(p, ast.Name) and p.id == s.targets[0].id and isinstance(p.ctx, ast.Load) and p.lineno < s.lineno for p in ast.walk(lp)):
                        lv.add(s.targets[0].id)
        tested = set()
        for x in ast.walk(lp):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("isdisjoint", "intersection"):
                tested |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitAnd):
                tested |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
            if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn)):
                tested |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
        for s in ast.walk(lp):
            acc = None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                used = {y.id for y in ast.walk(s.value) if isinstance(y, ast.Name)}
                joined = any(isinstance(y, ast.Attribute) and y.attr in how for y in ast.walk(s.value)) or any(isinstance(y, ast.BinOp) and isinstance(y.op, (ast.BitOr, ast.Add)) for y in ast.walk(s.value))
                if s.targets[0].id in used and used & lv and joined:
                    acc = s.targets[0].id
            if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.BitOr, ast.Add)) and isinstance(s.target, ast.Name) and any(isinstance(y, ast.Name) and y.id in lv for y in ast.walk(s.value)):
                acc = s.target.id
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in how and isinstance(s.func.value, ast.Name) and s.func.value.id not in lv and \
                    s.func.attr in ("update", "extend", "add", "append") and any(isinstance(y, ast.Name) and y.id in lv for a in s.args for y in ast.walk(a)):
                acc = s.func.value.id
            if acc is not None and (not tested or acc in tested):
                return True
    return False


def polarity(node, kind):
    """False is returned exactly on the bad side of the comparison"""
    for x in ast.walk(node):
        if isinstance(x, ast.If):
            t, neg = x.test, False
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, neg = t.operand, not neg
            good = None
            if kind == "disjoint":
                if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == "isdisjoint":
                    good = not neg
                elif isinstance(t, ast.BinOp) and isinstance(t.op, ast.BitAnd) or isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == "intersection":
                    good = neg
            elif isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
                good = isinstance(t.ops[0], ast.Eq) != neg
            if good is None:
                continue
            body = [y for s in x.body for y in ast.walk(s) if isinstance(y, ast.Return) and isinstance(y.value, ast.Constant)]
            orelse = [y for s in x.orelse for y in ast.walk(s) if isinstance(y, ast.Return) and isinstance(y.value, ast.Constant)]
            for y in body:
                if y.value.value is good or y.value.value is (not good):
                    if y.value.value != good:
                        return False
            for y in orelse:
                if isinstance(y.value.value, bool) and y.value.value == good:
                    return False
    return True
