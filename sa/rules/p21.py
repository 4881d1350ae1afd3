"""Marginalisation returns the circuit over exactly the remaining variables."""
from ..lib import *
from .p08 import covers, held_children
from .p15 import child_of

ID = "P21"
TITLE = "Marginalising a circuit gives the circuit over exactly the remaining variables"
EXPL = ("For the marginalize method of every module and leaf class: every returning path is classified (nothing left / unchanged / pruned child / rebuilt module) and must be dominated by the matching "
        "scope condition; a rebuilt module is built from the marginals of all inputs requested with the caller's variables and options, from the module's own mixture weights (restricted to the features whose scope "
        "still has variables, per repetition) and with every constructor option the module was built with.")
ASSUME = ("a module's truth value is True",)


def fname(t):
    """name of an operation or plain function call"""
    if t.k == "op":
        return t.a[0]
    if t.k == "call" and t.a[0].k != "attr":
        return str(t.a[0].a[-1]).split(".")[-1]
    return None


def scopeish(t):
    return value_contains(t, lambda s: s.k == "attr" and s.a[1] in ("query", "_query", "scope"))


def margish(t):
    return value_contains(t, lambda s: s.k == "param" and s.a[1] in ("marg_rvs", "marg_ctx"))


def setop(t):
    """'both' (scope and marg), 'rest' (scope minus marg), 'scope', 'marg' for set-valued terms, else None"""
    t = core(t)
    if t.k == "op" and t.a[0] in ("set", "sorted", "list", "tuple", "len", "unique", "frozenset", "bool") and t.a[1]:
        return setop(t.a[1][0])
    if t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] in ("set", "sorted", "list", "tuple", "frozenset", "len", "bool", "Scope", "unique") and t.a[0].k in ("global", "builtin", "name", "class"):
        a = list(t.a[1]) + [v for k, v in t.a[2] if k in ("query",)]
        return setop(a[0]) if a else None
    if t.k == "attr" and t.a[1] in ("query", "_query"):
        b = t.a[0]
        if b.k == "call":
            return setop(b)
        if b.k == "call" or b.k == "op":
            return setop(b)
        return "scope"
    if t.k == "param" and t.a[1] == "marg_rvs":
        return "marg"
    two = None
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("intersection", "difference") and t.a[1]:
        two = (t.a[0].a[1], t.a[0].a[0], t.a[1][0])
    if t.k == "op" and t.a[0] in ("and_", "intersection", "sub", "difference") and len(t.a[1]) == 2:
        two = ("intersection" if t.a[0] in ("and_", "intersection") else "difference", t.a[1][0], t.a[1][1])
    if two:
        a, b = setop(two[1]), setop(two[2])
        if two[0] == "intersection" and {a, b} == {"scope", "marg"}:
            return "both"
        if two[0] == "difference":
            if a == "scope" and b in ("marg", "both"):
                return "rest"
            if a == "scope" and b == "rest":
                return "both"
        return None
    if t.k == "comp":
        conds = comp_conds(t)
        if conds:
            c = conds[0]
            neg = False
            while c.k == "op" and c.a[0] in ("not", "not_"):
                neg, c = not neg, c.a[1][0]
            if c.k == "op" and c.a[0] in ("in", "notin") and scopeish(c.a[1][0]) and setop(c.a[1][1]) in ("marg", "both"):
                return "both" if (c.a[0] == "in") != neg else "rest"
            return None
        if len(t.a[2]) == 1:
            return setop(t.a[2][0])
    if t.k == "phi":
        a, b = setop(t.a[1]), setop(t.a[2])
        return a if a == b else None
    return None


def comp_conds(t):
    out = []
    for x in (t.a[3] if len(t.a) > 3 else ()):
        if isinstance(x, tuple):
            out += [y for y in x if isinstance(y, T)]
        elif isinstance(x, T):
            out.append(x)
    return out


def verdict(c, uni=False):
    """what the truth of condition c says: 'full', 'notfull', 'overlap', 'none' (False -> the opposite), or None"""
    OPP = {"full": "notfull", "notfull": "full", "overlap": "none", "none": "overlap"}
    if c.k == "op" and c.a[0] in ("not", "not_"):
        return OPP.get(verdict(c.a[1][0], uni))
    if c.k == "call" and str(c.a[0].a[-1]).split(".")[-1] == "bool" and c.a[1]:
        return verdict(c.a[1][0], uni)
    if c.k == "call" and c.a[0].k == "attr":
        n, b = c.a[0].a[1], c.a[0].a[0]
        a = c.a[1][0] if c.a[1] else None
        if n == "isdisjoint" and a is not None and {setop(b), setop(a)} == {"scope", "marg"}:
            return "none"
        if n == "issubset" and a is not None and setop(b) == "scope" and setop(a) in ("marg", "both"):
            return "full"
        if n == "issuperset" and a is not None and setop(a) == "scope" and setop(b) in ("marg", "both"):
            return "full"
        if n in ("empty",) and setop(b) == "rest":
            return "full"
    if fname(c) in ("any", "all") and c.a[1]:
        g = c.a[1][0]
        if g.k == "comp" and g.a[1].k == "op" and g.a[1].a[0] in ("in", "notin"):
            e = g.a[1]
            if scopeish(e.a[1][0]) and setop(e.a[1][1]) in ("marg", "both"):
                return {("any", "in"): "overlap", ("any", "notin"): "notfull", ("all", "in"): "full", ("all", "notin"): "none"}[(fname(c), e.a[0])]
            if setop(e.a[1][1]) == "scope" and margish(e.a[1][0]):
                return {("any", "in"): "overlap", ("all", "notin"): "none"}.get((fname(c), e.a[0]))
    if c.k == "op" and c.a[0] in ("eq", "ne", "lt", "le", "gt", "ge") and len(c.a[1]) == 2:
        n, (l, r) = c.a[0], c.a[1]
        if is_zero(l):
            l, r, n = r, l, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(n, n)
        a, b = setop(l), setop(r)
        if is_zero(r):
            pos = {"eq": False, "ne": True, "gt": True, "le": False}.get(n)
            base = {"both": "overlap", "rest": "notfull"}.get(a)
            return base if pos else OPP.get(base) if pos is False else None
        if num(r) == 1 and n in ("lt", "ge"):
            base = {"both": "overlap", "rest": "notfull"}.get(a)
            return base if n == "ge" else OPP.get(base)
        if (a, b) == ("scope", "both"):
            a, b, n = b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(n, n)
        if (a, b) == ("both", "scope"):
            return {"eq": "full", "ge": "full", "ne": "notfull", "lt": "notfull"}.get(n)
        if (a, b) == ("scope", "marg"):
            return {"le": "full"}.get(n) if not (l.k == "op" and l.a[0] == "len") else None
        if (a, b) == ("rest", "scope"):
            return {"eq": "none", "ne": "overlap", "lt": "overlap"}.get(n)
    if c.k == "op" and c.a[0] in ("in", "notin") and scopeish(c.a[1][0]) and setop(c.a[1][1]) in ("marg", "both") and not any(s.k in ("elem", "idx") for s in walk(c.a[1][0])):
        return "overlap" if c.a[0] == "in" else "none"
    s = setop(c)
    if s == "both":
        return "overlap"
    if s == "rest":
        return "notfull"
    return None


def facts(gs):
    out = set()
    OPP = {"full": "notfull", "notfull": "full", "overlap": "none", "none": "overlap"}
    for c, b in gs:
        if c.k == "op" and c.a[0] in ("and", "or") and (c.a[0] == "and") == b:
            out |= facts([(x, b) for x in c.a[1]])
            continue
        v = verdict(c)
        if v:
            out.add(v if b else OPP[v])
    return out


def is_marg(t):
    return t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "marginalize"


def has_marg(t):
    return contains(t, is_marg)


def none_fact(gs):
    """some child's marginal is None / the list of surviving marginals is empty on this path"""
    for c, b in gs:
        if c.k == "op" and c.a[0] in ("and", "or"):
            if (c.a[0] == "and") == b and none_fact([(x, b) for x in c.a[1]]):
                return True
            continue
        if c.k == "op" and c.a[0] in ("not", "not_"):
            if none_fact([(c.a[1][0], not b)]):
                return True
            continue
        if not has_marg(c):
            continue
        if c.k == "op" and c.a[0] in ("is", "eq") and any(is_const(x, None) for x in c.a[1]) and b:
            return True
        if c.k == "op" and c.a[0] in ("isnot", "ne") and any(is_const(x, None) for x in c.a[1]) and not b:
            return True
        if fname(c) == "all" and b and contains(c, lambda s: s.k == "op" and s.a[0] == "is"):
            return True
        if fname(c) == "any" and not b and contains(c, lambda s: s.k == "op" and s.a[0] in ("isnot",)):
            return True
        if c.k == "op" and c.a[0] in ("eq", "lt", "le", "gt", "ne", "ge") and is_len(c.a[1][0]):
            k = num(c.a[1][1])
            if k == 0 and (c.a[0], b) in (("eq", True), ("gt", False), ("ne", False), ("le", True)) or k == 1 and (c.a[0], b) in (("lt", True), ("ge", False)):
                return True
            continue
        if not b and c.k in ("call", "phi", "store", "list", "comp"):
            return True
    return False


def is_len(t):
    return t.k == "op" and t.a[0] == "len" or t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] == "len"


def width(c, b, kind):
    """guard says: exactly one feature / one surviving input"""
    if c.k == "op" and c.a[0] in ("and",) and b:
        return any(width(x, True, kind) for x in c.a[1])
    if c.k != "op" or c.a[0] not in ("eq", "le", "lt", "gt", "ne", "ge") or len(c.a[1]) != 2:
        return False
    l, r = c.a[1]
    n, k = c.a[0], num(r)
    if not has_marg(l):
        if has_marg(r) and n in ("eq", "ne"):
            l, k = r, num(c.a[1][0])
        else:
            return False
    ok = l.k == "attr" and l.a[1] == "features" if kind == "features" else is_len(l)
    if not ok:
        return False
    return (n, k, b) in (("eq", 1.0, True), ("ne", 1.0, False), ("le", 1.0, True), ("lt", 2.0, True), ("gt", 1.0, False), ("ge", 2.0, False))


def prune_true(gs):
    return any(b and (is_param(c, "prune") or c.k == "op" and c.a[0] == "and" and any(is_param(x, "prune") for x in c.a[1])) for c, b in gs)


def unwrap(t):
    while t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] == "cast" and len(t.a[1]) > 1:
        t = t.a[1][1]
    return t


def is_mixture(ctx, c):
    names = {b.name for b in ctx.ix.mro(c)}
    return bool(names & {"Sum", "ElementwiseSum", "SumConv", "EinsumLayer", "LinsumLayer", "WeightedSum"})


def ctor_class(ctx, c, t):
    if t.k != "call":
        return None
    f = t.a[0]
    if f.k == "attr" and f.a[1] == "__class__" and f.a[0].k == "self":
        return c
    if f.k == "op" and f.a[0] == "type" or f.k == "call" and str(f.a[0].a[-1]).split(".")[-1] == "type":
        return c
    for x in f.a:
        if isinstance(x, str):
            k = ctx.ix.classes.get(x)
            if k is not None:
                return k
    return None


def ctor_info(ctx, k):
    """constructor parameter -> attributes of the object that hold it"""
    f = ctx.ix.find_method(k, "__init__")
    if f is None or f.cls is None:
        return {}, f
    r = ctx.run(k, "__init__")
    names = [p for p in f.all_param_names() if p != "self"]
    out = {p: set() for p in names}
    for e in r.events:
        if e.kind in ("store_attr",) and e.target is not None and e.target.k == "self" and e.term is not None:
            ps = {s.a[1] for s in walk(e.term) if s.k == "param" and s.a[1] in out}
            for p in ps:
                out[p].add(e.idx)
    return out, f


CHILD = {"inputs", "module", "components", "monotone", "root", "root_node"}
REDUNDANT = {"out_channels", "num_repetitions"}


def check(ctx, chk):
    ix = ctx.ix
    done = set()
    for c in ctx.modules():
        f = ix.find_method(c, "marginalize")
        if f is None or f.cls is ctx.Module:
            continue
        r = ctx.run(c, "marginalize")
        if not r.returns:
            continue
        W = f"{f.file}:{f.line}"
        con = f"{c.name}.marginalize"
        leaf = ctx.Leaf in ix.mro(c)
        mix = is_mixture(ctx, c)
        uni = False
        ini = ctx.run(c, "__init__")
        if ini is not None:
            uni = any(e.kind == "raise" and any(g.k == "op" and g.a[0] in ("eq", "ne") and num(g.a[1][1]) == 1 and scopeish(g) and b == (g.a[0] == "ne") for g, b in e.guards) for e in ini.events)
        # ---- requests to the inputs
        calls = [e for e in r.events if e.kind == "call" and e.name == "marginalize" and e.recv is not None and e.recv.k != "self"]
        pos = {}
        for e in calls:
            kw = dict(e.kwargs)
            mv = kw.get("marg_rvs", e.args[0] if e.args else None)
            ok = mv is not None and (is_param(mv, "marg_rvs") or setop(mv) in ("both",) or setop(mv) == "marg" or not any(is_param(p, "marg_rvs") for p in r.params.values()) and value_contains(mv, lambda s: is_param(s, "marg_ctx")))
            chk.ob("request-forwarded", f"{con}:variables", ok, e.where, f"an input is marginalised over {show(mv, 4) if mv is not None else 'nothing'}")
            pv = kw.get("prune", e.args[1] if len(e.args) > 1 else None)
            chk.ob("request-forwarded", f"{con}:prune", pv is not None and is_param(pv, "prune"), e.where, "the pruning choice is not handed to an input")
            k = child_of(unwrap(e.recv))
            if k is not None:
                pos.setdefault(k[0], []).append(k[1])
        for h, ks in pos.items():
            ks = [k for k in ks if k is not None]
            if ks and c.name != "Factorize" and not any(p is None for p in pos[h]):
                if all(k.k == "const" for k in ks) and len(ks) == 1:
                    continue
                ok, why = covers(ks, T("attr", T("self"), h))
                chk.ob("all-inputs", f"{con}:{h}", ok, W, why)
        # ---- results
        for st, v in r.returns:
            for gs, t in value_alts(v, st)[:40]:
                t = unwrap(t)
                fa = facts(gs)
                if "full" in fa and "notfull" in fa or "none" in fa and "overlap" in fa or "full" in fa and "none" in fa:
                    continue
                if is_const(t, None):
                    if any(b is False and g.k == "op" and g.a[0] == "is" and g.a[1][0] is v for g, b in gs):
                        continue
                    ok = "full" in fa or none_fact(gs) or uni and "overlap" in fa
                    chk.ob("vanishes-only-if-full", con, ok, W, "None is returned although variables may remain")
                    continue
                if t.k == "self":
                    chk.ob("unchanged-only-if-disjoint", con, "none" in fa or not calls and uni, W, "the module is returned unchanged although it may contain marginalised variables")
                    continue
                k = ctor_class(ctx, c, t)
                if k is None:
                    # a child (or its marginal) is returned
                    if any(b and g.k == "op" and g.a[0] == "is" and any(is_const(x, None) for x in g.a[1]) and g.a[1][0] is v for g, b in gs):
                        continue
                    raw = not has_marg(t)
                    if raw and ("overlap" in fa or "none" not in fa) and t.k == "attr":
                        chk.ob("pruned-child", con, False, W, f"{show(t, 4)} is returned without being marginalised")
                        continue
                    if mix:
                        chk.ob("pruned-child", con, False, W, "a mixture hands back one input's marginal instead of the weighted mixture")
                        continue
                    if len(held_children(ctx, c)) <= 1 and not prunable(c):
                        continue
                    one = any(width(g, b, "features") for g, b in gs) or any(width(g, b, "count") for g, b in gs)
                    many = c.name == "Cat" or any(p is not None for p in pos.get("inputs", ())) and c.name != "Factorize"
                    if many:
                        one = any(width(g, b, "count") for g, b in gs)
                    ok = one and (prune_true(gs) or c.name == "JointLogLikelihood")
                    chk.ob("pruned-child", con, ok, W, "an input's marginal replaces the module although other features or inputs remain")
                    continue
                chk.ob("result-type", con, k is c or k in ix.mro(c) and not mix or k.name == c.name, W, f"a {c.name} is rebuilt as {k.name}")
                info, cf = ctor_info(ctx, k)
                kw = dict(t.a[2])
                for n, a in zip([p for p in (cf.all_param_names() if cf else []) if p != "self"], t.a[1]):
                    kw.setdefault(n, a)
                star = [a for n, a in t.a[2] if n in ("**", "") or str(n).startswith("**")]
                # inputs
                for n, a in kw.items():
                    if n in CHILD:
                        child_arg(chk, con, W, n, a, gs, r)
                # configuration
                after = {}
                for e in r.events:
                    if e.kind == "store_attr" and e.target is not None and (e.target is t or contains(e.target, t)):
                        after[e.idx if e.target is t else e.target.a[1] if e.target.k == "attr" else e.idx] = e
                for p in info:
                    if p in CHILD or p in ("weights", "scope") or p.startswith("*"):
                        continue
                    if p in kw:
                        ok, why = config_ok(p, kw[p], info)
                        chk.ob("configuration-kept", f"{con}:{p}", ok, W, why)
                        continue
                    if "weights" in kw and p in REDUNDANT:
                        continue
                    if leaf and star:
                        continue_ok = in_params(ctx, c, p, star)
                        if continue_ok:
                            continue
                    if p in ("out_channels", "num_repetitions") and leaf:
                        continue
                    if not info[p] and not any(contains_param(e, p) for e in ctx.run(k, "__init__").events):
                        continue
                    if alt_group(ctx, k, p, kw, info):
                        continue
                    if any(q in after for q in info[p] | {p}):
                        continue
                    chk.ob("configuration-kept", f"{con}:{p}", False, W, f"constructor option {p} is not handed to the rebuilt {k.name}")
                # structure drawn at random by the constructor, and squared circuits
                drawn = sorted({e.idx for e in ctx.run(k, "__init__").events if e.kind in ("store_attr", "call") and e.idx and e.term is not None and draws(e.term) and e.idx not in ("logits", "weights")})
                rnd = drawn or any(e.kind == "call" and (e.name in ("randperm", "shuffle", "permutation")) for e in ctx.run(k, "__init__").events)
                if rnd and not leaf:
                    chk.ob("structure-kept", con, any(q in after for q in drawn), W, f"the rebuilt {k.name} draws a new random structure")
                if squares(ctx, c):
                    chk.ob("squared-marginal", con, False, W, "the components are marginalised before they are squared")
                # weights
                if is_mixture(ctx, k):
                    ok, why = False, "the rebuilt mixture draws new weights"
                    if "weights" in kw:
                        ok, why = weights_ok(kw["weights"], "weights", fa)
                    for q in ("weights", "logits", "log_weights", "_weights"):
                        if q in after and after[q].term is not None:
                            ok, why = weights_ok(after[q].term, "weights" if q == "weights" else "logits", fa)
                    chk.ob("weights-kept", con, ok, W, why)
                if leaf:
                    leaf_ok(ctx, chk, c, con, W, t, kw, star, after, r)
    chk.floor("vanishes-only-if-full", 6)
    chk.floor("request-forwarded", 6)
    chk.floor("configuration-kept", 4)
    chk.floor("weights-kept", 2)


def draws(t):
    return value_contains(t, lambda s: s.k == "op" and s.a[0] in ("randperm", "permutation", "shuffle") or s.k == "call" and str(s.a[0].a[-1]).split(".")[-1] in ("randperm", "shuffle", "permutation"))


def squares(ctx, c):
    """the class adds up squares of its components' values"""
    return any("components" in str(n) for n in (ctor_info(ctx, c)[0] or {})) and c.name not in ("Sum", "Cat")


def prunable(c):
    return c.name in ("Cat", "Product", "Factorize", "Split", "SplitByIndex", "SplitConsecutive", "SplitInterleaved", "JointLogLikelihood", "ProdConv")


def contains_param(e, p):
    return any(x is not None and isinstance(x, T) and contains(x, lambda s: is_param(s, p)) for x in (e.term, e.target)) or any(contains(a, lambda s: is_param(s, p)) for a in (e.args or ())) or \
        any(contains(a, lambda s: is_param(s, p)) for a in (e.kwargs or {}).values())


def child_arg(chk, con, W, n, a, gs, r):
    for g2, x in value_alts(a, gs)[:20]:
        fa = facts(g2)
        if "full" in fa or is_const(x, None):
            continue
        x = unwrap(x)
        bad = None
        if not has_marg(x) and contains(x, lambda s: s.k == "attr" and s.a[0].k == "self" and s.a[1] in CHILD) and "none" not in fa:
            bad = "an input is passed on without being marginalised"
        if x.k == "store" and is_const(x.a[1], "#append") and has_marg(x.a[2]):
            if any(not any(is_len(q) for q in walk(g)) and g.k in ("op", "call") and none_fact([(g, b)]) for g, b in g2 if (g, b) not in gs):
                bad = "the vanished inputs are kept and the others dropped"
        for s in walk(x):
            if s.k == "store" and is_const(s.a[1], "#append") or s.k == "store" and s.a[1].k == "const" and s.a[1].a[0] in ("#append",):
                val = s.a[2]
                if not has_marg(val) and contains(val, lambda q: q.k in ("elem", "item") and contains(q, lambda z: z.k == "attr" and z.a[0].k == "self" and z.a[1] in CHILD)):
                    bad = "an input is collected without being marginalised"
            if s.k == "phi" and has_marg(s.a[0]) and s.a[0].k in ("op", "call"):
                for br, b in ((s.a[1], True), (s.a[2], False)):
                    if br.k == "store" and br.a[1].k == "const" and br.a[1].a[0] == "#append" and none_fact([(s.a[0], b)]):
                        bad = "the vanished inputs are kept and the others dropped"
            if s.k == "comp" and any(has_marg(q) for q in comp_conds(s)):
                if none_fact([(q, True) for q in comp_conds(s)]):
                    bad = "the vanished inputs are kept and the others dropped"
        chk.ob("inputs-marginalised", f"{con}:{n}", bad is None, W, bad or "")


def config_ok(p, v, info):
    want = info.get(p) or set()
    names = {s.a[1] for s in value_walk(v) if s.k == "attr"}
    if p in names or "_" + p in names:
        return True, ""
    if p in ("out_channels", "num_repetitions"):
        leafname = {"out_channels": "channels", "num_repetitions": "repetitions"}[p]
        ok = leafname in names or want & (names - {"out_shape", "in_shape"})
        return bool(ok), f"{p} is set to {show(v, 4)}"
    if want & names:
        return True, ""
    if p in ("height", "width", "num_channel", "num_channels", "channels", "marg_rvs"):
        return bool(names), f"{p} is set to {show(v, 4)}"
    return False, f"{p} is set to {show(v, 4)}, not to the module's own"


def alt_group(ctx, k, p, kw, info):
    """p is an alternative spelling of a parameter that is passed (probs/logits/rate...)"""
    return any(q in kw and q not in CHILD and q != "scope" and info[q] & info[p] - {"_event_shape", "in_shape", "out_shape", "scope"} for q in info if q != p)


REQ = object()


def default_of(ctx, c, p):
    f = ctx.ix.find_method(c, "__init__")
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == p:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == p:
            return d if d is not None else REQ
    return REQ


def star_keys(star):
    """option names that are literal keys of ** arguments whose values come from the module itself"""
    out = set()

    def rec(t):
        if isinstance(t, T) and t.k == "dict":
            for x in t.a[0]:
                if isinstance(x, tuple) and len(x) == 2:
                    kk = x[0].a[0] if isinstance(x[0], T) and x[0].k == "const" else x[0] if isinstance(x[0], str) else None
                    if kk is not None and isinstance(x[1], T):
                        names = {s.a[1].lstrip("_") for s in value_walk(x[1]) if s.k == "attr"}
                        if str(kk) in names:
                            out.add(str(kk))
                    rec(x[1])
        elif isinstance(t, T) and t.k == "phi":
            rec(t.a[1]), rec(t.a[2])

    for t in star:
        rec(t)
    return out


def in_params(ctx, c, p, star):
    """leaf parameters handed over through params(): p or an alternative parameterisation of it"""
    r = ctx.run(c, "params")
    keys = set(_strs(r.value)) if r is not None else set()
    if p in star_keys(star):
        return True
    d = default_of(ctx, c, p)
    if d is REQ:
        return p in keys
    info, _ = ctor_info(ctx, c)
    if p in keys:
        return True
    own = {"_event_shape", "in_shape", "out_shape", "scope"}
    return any(q in info and (info[q] & info.get(p, set())) - own for q in keys) or p == "parameter_fn"


def _strs(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, str):
        yield t
    elif isinstance(t, tuple):
        for x in t:
            yield from _strs(x, seen)
    elif isinstance(t, T) and t not in seen:
        seen.add(t)
        for x in t.a:
            yield from _strs(x, seen)


def own_weights(t):
    return value_contains(t, lambda s: s.k == "attr" and s.a[0].k == "self" and s.a[1] in ("logits", "weights", "log_weights", "_weights", "_logits", "_log_weights"))


def weights_ok(w, slot, fa):
    for g, t in value_alts(w)[:20]:
        if not own_weights(t):
            return False, f"the rebuilt mixture does not take the module's weights ({show(t, 3)})"
        ops = {s.a[0] for s in value_walk(t) if s.k == "op"}
        logd = "log_softmax" in ops or value_contains(t, lambda s: s.k == "attr" and s.a[1] in ("log_weights",))
        if slot == "weights" and logd and "exp" not in ops:
            return False, "log-weights are handed over as weights"
        if slot == "weights" and value_contains(t, lambda s: s.k == "attr" and s.a[1] in ("logits", "_logits")) and not ops & {"softmax", "exp"} and not logd:
            return False, "unnormalised logits are handed over as weights"
        if slot == "logits" and "softmax" in ops and "log" not in ops:
            return False, "weights are written as logits"
        bad = mask_bad(t)
        if bad:
            return False, bad
    return True, ""


def is_w(t):
    t = core(t)
    while t.k in ("item",) or t.k == "op" and t.a[0] in ("softmax", "log_softmax", "exp", "index_select") and t.a[1]:
        t = core(t.a[0] if t.k == "item" else t.a[1][0])
    return t.k == "attr" and t.a[0].k == "self" and t.a[1] in ("logits", "weights", "log_weights", "_weights", "_logits")


def mask_bad(t):
    for s in value_walk(t):
        if s.k == "item" and is_w(s.a[0]) or s.k == "op" and s.a[0] == "index_select" and s.a[1] and is_w(s.a[1][0]):
            i = s.a[1] if s.k == "item" else T("tuple", tuple(s.a[1][1:]) + tuple(v for _, v in s.a[2]))
            parts = i.a[0] if i.k == "tuple" else (i,)
            for p in parts:
                if is_basic_index(p) or p.k == "elem" and not has_fts(p) and not margish(p):
                    continue
                if not (has_fts(p) or margish(p)):
                    continue
                if not has_fts(p):
                    return "weights are selected by variable position instead of by feature scope"
                for q in [x for x in walk(p) if x.k == "comp"]:
                    elt = core(q.a[1])
                    for cnd in [elt] + comp_conds(q):
                        v = keep(cnd)
                        if v == "bad":
                            return f"features are selected by {show(cnd, 4)}"
                        if v is False:
                            return "the weights of the vanished features are kept and the others dropped"
                        if cnd is not elt and v is None and margish(cnd) and not contains(cnd, lambda z: z.k == "attr" and z.a[1] in ("query", "_query") or z.k == "call" and "remove_from_query" in str(z.a[0].a[-1])):
                            return f"features are selected by {show(cnd, 4)}"
                # the repetition whose scopes are read is the repetition whose weights are taken
                reps = {z.a[1].a[0][-1] for z in walk(p) if z.k == "item" and z.a[0].k == "attr" and z.a[0].a[1] == "feature_to_scope" and z.a[1].k == "tuple" and len(z.a[1].a[0]) == 2}
                wrep = set()
                b = s.a[0] if s.k == "item" else s.a[1][0]
                while b.k == "item":
                    if b.a[1].k == "tuple":
                        wrep.add(b.a[1].a[0][-1])
                    b = b.a[0]
                if i.k == "tuple":
                    wrep.add(parts[-1])
                if reps and wrep and not reps & wrep:
                    return "weights of one repetition are selected by the scopes of another"
    return None


def has_fts(t):
    return contains(t, lambda z: z.k == "attr" and z.a[1] == "feature_to_scope")


def keep(c):
    """True: condition holds for features that still depend on a variable; False: for vanished ones; None unknown"""
    if c.k == "op" and c.a[0] in ("not", "not_"):
        v = keep(c.a[1][0])
        return v if v is None or v == "bad" else not v
    c = core(c)
    if c.k == "call" and str(c.a[0].a[-1]).split(".")[-1] == "bool" and c.a[1]:
        return keep(c.a[1][0])
    if (c.k == "call" and str(c.a[0].a[-1]).split(".")[-1] in ("empty", "is_empty")) or c.k == "op" and c.a[0] == "empty":
        return False
    if c.k == "call" and c.a[0].k == "attr" and c.a[0].a[1] == "issubset":
        return False
    if (c.k == "op" and c.a[0] in ("and_", "intersection") or c.k == "call" and c.a[0].k == "attr" and c.a[0].a[1] in ("intersection", "isdisjoint")) and margish(c):
        return "bad"
    if c.k == "op" and c.a[0] in ("sub", "difference") and margish(c) or c.k == "call" and c.a[0].k == "attr" and c.a[0].a[1] == "difference":
        return True
    if c.k == "op" and c.a[0] in ("eq", "ne", "gt") and is_zero(c.a[1][1]) and c.a[1][0].k == "op" and c.a[1][0].a[0] == "len":
        return c.a[0] != "eq"
    if fname(c) in ("any", "all") and c.a[1] and c.a[1][0].k == "comp":
        e = c.a[1][0].a[1]
        if e.k == "op" and e.a[0] in ("in", "notin"):
            return {("any", "notin"): True, ("all", "in"): False, ("any", "in"): "bad", ("all", "notin"): "bad"}[(fname(c), e.a[0])]
    return None


def leaf_ok(ctx, chk, c, con, W, t, kw, star, after, r):
    sc = kw.get("scope")
    univ = sc is not None and not margish(sc)
    chk.ob("leaf-scope", con, sc is not None and (setop(sc) == "rest" or univ and not margish(sc) or rest_items(sc)), W, f"the marginal leaf's scope is {show(sc, 5) if sc is not None else None}")
    for p, bad in (("logits", {"softmax", "sigmoid"}), ("log_cpt", {"exp", "softmax"})):
        if p in kw:
            ops = {s.a[0] for s in value_walk(kw[p]) if s.k == "op"}
            chk.ob("leaf-parameters", f"{con}:{p}", not ops & bad or "log" in ops or "logit" in ops, W, f"{p} is set to {show(kw[p], 4)}")
    for q, e in after.items():
        if q in ("xs", "ys", "domains") and e.term is not None:
            chk.ob("leaf-parameters", f"{con}:{q}", sel_ok(e.term) and not contains(e.term, lambda s: s.k == "slice"), W, "the parameters are not those of the remaining variables")
    for a in star:
        if not contains(a, lambda s: s.k == "op" and s.a[0] == "detach" or s.k == "comp"):
            continue
        sel = [s for s in walk(a) if s.k == "item" and (s.a[1].k == "comp" or s.a[1].k == "idx" or contains(s.a[1], lambda q: q.k == "comp"))]
        ok = sel_ok(a) if sel else not margish(a)
        chk.ob("leaf-parameters", con, ok, W, "the parameters are not those of the remaining variables")


def rest_items(t):
    """[query[i] for i in positions of the remaining variables]"""
    return any(s.k == "comp" and any(keepvar(q) for q in comp_conds(s)) for s in walk(t)) and not any(s.k == "comp" and any(keepvar(q) is False for q in comp_conds(s)) for s in walk(t))


def sel_ok(i):
    cs = [q for s in walk(i) if s.k == "comp" for q in comp_conds(s)]
    vs = [keepvar(q) for q in cs]
    return bool(vs) and any(v is True for v in vs) and not any(v is False for v in vs)


def keepvar(c):
    neg = False
    while c.k == "op" and c.a[0] in ("not", "not_"):
        neg, c = not neg, c.a[1][0]
    if c.k == "op" and c.a[0] in ("in", "notin"):
        s = setop(c.a[1][1])
        if s in ("marg", "both"):
            return (c.a[0] == "notin") != neg
        if s == "rest":
            return (c.a[0] == "in") != neg
    return None
