"""Every sub-circuit, feature and channel enters the likelihood, and products add log-likelihoods."""
from ..lib import *
from ..axes import Axes, canon_ll
from .p04 import value_only, BAxes

ID = "P08"
TITLE = "Products multiply and routers forward every input's likelihood, dropping nothing"
EXPL = ("Dataflow over the value of every inner module's log_likelihood: each child the module holds reaches the value (list consumption by index, "
        "slice, loop range or whole is checked for full coverage), the operations between the children's log-likelihoods and the result are "
        "additions/sums over the feature axis for products and pure re-arrangements for concatenation, splits and wrappers, sums enter only through "
        "log-weights, and no value is narrowed by a slice, truncation or clamp.")
ASSUME = ("einops and torch broadcasting semantics; convolution with an all-ones kernel and stride equal to the kernel sums each patch",)
SHAPE = VIEW_OPS | {"clone", "stack", "cat", "repeat_e", "repeat", "expand", "squeeze", "repeat_interleave", "list", "tuple"}
ADD = {"add", "sum", "add_"}
SUMOPS = {"add", "logsumexp", "exp", "log", "einsum", "amax", "max", "sub", "logaddexp", "where", "isfinite", "zeros_like", "isinf", "eq", "masked_fill", "softmax",
          "mul", "matmul", "bmm", "add_", "sum", "full_like", "ones_like", "sign", "abs", "nan_to_num", "detach"}
NARROW = {"narrow", "clamp", "clamp_", "clip", "topk", "nan_to_num", "masked_fill", "dropout", "relu", "min", "max", "mean", "amin", "amax", "mul", "div", "minimum",
          "maximum", "round", "trunc", "select", "masked_select", "unique", "where", "masked_fill_", "mul_", "div_", "neg", "abs", "sub", "clamp_min", "clamp_max"}


class Path:
    def __init__(self):
        self.memo = {}

    def dep(self, t):
        m = self.memo
        if t in m:
            return m[t]
        m[t] = False
        if canon_ll(t).k == "LL":
            v = True
        elif shape_only(t) or t.k == "op" and t.a[0] in ("len",):
            v = False
        elif t.k == "call" and str(t.a[0].a[-1]) in ("len", "range"):
            v = False
        elif t.k == "phi":
            v = self.dep(t.a[1]) or self.dep(t.a[2])
        elif t.k == "idx":
            v = False
        else:
            v = any(self.dep(x) for x in children(t))
        m[t] = v
        return v


def kind_of(ctx, c):
    ix = ctx.ix
    names = {b.name for b in ix.mro(c)}
    if "BaseProduct" in names or "Product" in c.name or c.name in ("ProdConv", "JointLogLikelihood"):
        return "product"
    if names & {"Cat", "Split", "ImageWrapper", "Wrapper"}:
        return "router"
    return None


def list_like(b, d=0):
    if d > 30:
        return False
    if b.k in ("list", "comp"):
        return True
    if b.k == "store":
        return list_like(b.a[0], d + 1)
    if b.k == "phi":
        return list_like(b.a[1], d + 1) or list_like(b.a[2], d + 1)
    return False


def root_list(b):
    """identify a list through element updates and loop merges"""
    seen = set()
    while b not in seen:
        seen.add(b)
        if b.k == "store":
            b = b.a[0]
        elif b.k == "phi" and b.a[0].k in ("loopcarried", "ran"):
            b = b.a[2]
        else:
            break
    return b


def parts_cover(ctx, chk, c, memo={}):
    """the class is a split whose parts provably list every feature once"""
    from .p09 import kinds, splits
    if c not in splits(ctx):
        return False
    if c not in memo:
        try:
            ks = [k for k, _, _ in kinds(ctx, chk, c)]
        except (TypeError, ValueError, IndexError, KeyError, AttributeError):
            ks = [None]
        memo[c] = None not in ks and "broken" not in ks
    return memo[c]


def check(ctx, chk):
    ix = ctx.ix
    for c in ctx.modules():
        if ctx.Leaf in ix.mro(c):
            continue
        f = ix.find_method(c, "log_likelihood")
        if f is None or f.cls is ctx.Module:
            continue
        r = ctx.run(c, "log_likelihood")
        if r.value is None:
            continue
        con, where = f"{c.name}.log_likelihood", f"{f.file}:{f.line}"
        P = Path()
        if not P.dep(r.value):
            continue
        vals = list(value_only(r.value))
        kids = {canon_ll(x).a[0] for x in vals if canon_ll(x).k == "LL"}
        # 1. coverage of child lists, per configuration branch
        conds = phi_conds(r.value, lambda g: self_attr(g) or g.k == "op" and g.a[0] == "not" and self_attr(g.a[1][0]))
        for gs, v in split_on(r.value, conds[:4]):
            P2 = Path()
            vs = list(value_only(v))
            groups = {}
            for x in vs:
                if x.k == "item" and list_like(root_list(x.a[0])) and P2.dep(x.a[0]):
                    groups.setdefault(("list", x.a[0]), []).append(x.a[1])
            for k in {canon_ll(x).a[0] for x in vs if canon_ll(x).k == "LL"}:
                for y in walk(k):
                    if y.k == "elem" and y.a[0].k == "item" and self_attr(y.a[0].a[0]):
                        groups.setdefault(("kids", y.a[0].a[0]), []).append(y.a[0].a[1])
                    elif y.k == "elem" and self_attr(y.a[0]):
                        groups.setdefault(("kids", y.a[0]), []).append(None)
                    elif y.k == "item" and self_attr(y.a[0]) and y.a[1].k != "slice":
                        groups.setdefault(("kids", y.a[0]), []).append(y.a[1])
            for (kd, b), idxs in groups.items():
                if any(i is None for i in idxs) or (all(is_const(i, 0) for i in idxs) and (c.name == "Factorize" or single_input(ctx, c, gs))):
                    chk.ob("all-children", f"{con}:{kd}", True, where)
                    continue
                ok, why = covers(idxs, b)
                chk.ob("all-children", f"{con}:{kd}", ok, where, why)
        # the comprehension / loop collecting children may not filter
        for x in vals:
            if x.k == "comp" and P.dep(x.a[1]) and len(x.a) > 3 and x.a[3]:
                chk.ob("all-children", f"{con}:filter", False, where, "children are filtered")
        # 2. held children
        held = held_children(ctx, c)
        txt = {show(y, 8) for k in kids for y in walk(k)}
        for h in held:
            chk.ob("held-child-used", f"{con}:{h}", any(h == t or t.startswith(h) for t in txt), where, f"child {h} does not reach the likelihood")
        # 3. algebra
        kd = kind_of(ctx, c)
        if kd:
            bad, nadd = None, 0
            ax = BAxes(rank_hint=lambda b: 4 if b.k == "LL" else None)
            ax.learn_ranks([r.value])
            for x in vals:
                if x.k != "op" or not P.dep(x) or canon_ll(x).k == "LL":
                    continue
                n = x.a[0]
                if n in SHAPE or n in ("unsqueeze", "index_select", "gather", "split", "chunk", "unbind", "broadcast_to"):
                    continue
                if kd == "product" and n in ADD | {"reduce_e", "einsum"}:
                    nadd += 1
                    if n == "reduce_e":
                        rd = kwd(x).get("reduction")
                        if rd is None or not is_const(rd, "sum"):
                            bad = (x, "must sum")
                        continue
                    if n == "sum":
                        red = ax.reduced(x)
                        if red is not None and any(b.k == "LL" and i in (0, 2, 3) for b, i in red):
                            bad = (x, f"sums over axes {sorted({i for b, i in red if b.k == 'LL'})} of a child's likelihood, not over features/inputs")
                    if n == "einsum":
                        red = ax.reduced(x)
                        if red is not None and any(b.k == "LL" and i != 1 for b, i in red):
                            bad = (x, "contracts an axis other than features")
                    continue
                if kd == "router" and n == "new_zeros":
                    continue
                bad = (x, f"operation {n} is not allowed between the inputs' log-likelihoods and a {kd}'s result")
            if kd == "product":
                conv = any(x.k == "call" and "conv2d" in str(x.a[0]) for x in vals)
                chk.ob("product-adds", f"{con}:combines", nadd > 0 or conv, where, "a product must add its inputs' log-likelihoods")
                for x in vals:
                    if x.k == "call" and "conv2d" in str(x.a[0]) and len(x.a[1]) + len(x.a[2]) > 1:
                        k = kwd(x)
                        ker = x.a[1][1] if len(x.a[1]) > 1 else k.get("weight")
                        ok = ker is not None and core(ker).k == "op" and core(ker).a[0] == "ones" and \
                            k.get("stride") is not None and k["stride"].k == "tuple" and ker_dims(core(ker)) == tuple(k["stride"].a[0])
                        chk.ob("product-adds", f"{con}:patches", ok, where, "patch product needs an all-ones kernel and stride equal to the kernel")
            chk.ob("product-adds" if kd == "product" else "router-forwards", con, bad is None, where, f"{bad[1]}: {show(bad[0], 4)}" if bad else "")
        # 4. narrowing slices
        strides = []
        for x in vals:
            if x.k != "item" or not P.dep(x.a[0]) or list_like(root_list(x.a[0])):
                continue
            parts = x.a[1].a[0] if x.a[1].k == "tuple" else (x.a[1],)
            for s in parts:
                if s.k == "slice" and not all(isinstance(y, T) and is_const(y, None) for y in s.a):
                    st = num(s.a[0]) if s.a[0] is not None else None
                    sp = num(s.a[2]) if len(s.a) > 2 and s.a[2] is not None else None
                    if is_const(s.a[1], None) and sp is not None and st is not None:
                        strides.append((sp, st))
                    elif is_const(s.a[1], None) and is_const(s.a[2], None) and st == 0:
                        pass
                    elif parts_cover(ctx, chk, c):
                        pass
                    else:
                        chk.ob("no-narrowing", con, False, where, f"only part of a child's likelihood is used: {show(x, 4)}")
        for m in {m for m, _ in strides}:
            got = sorted(s for k, s in strides if k == m)
            chk.ob("no-narrowing", f"{con}:stride{int(m)}", sorted(set(got)) == list(range(int(m))), where, f"strided parts {got} of {int(m)} do not cover all features")
        chk.ob("no-narrowing", con, True, where)
    chk.floor("no-narrowing", 20)
    chk.floor("all-children", 8)
    chk.floor("product-adds", 6)
    chk.floor("router-forwards", 4)


def ker_dims(k):
    a = [x for x in k.a[1]]
    if len(a) == 1 and a[0].k in ("tuple", "list"):
        a = list(a[0].a[0])
    return tuple(a[-2:])


def single_input(ctx, c, guards):
    """the branch is taken only for a single (split) input: the flag is defined by an isinstance test of the one input"""
    r = ctx.run(c, "__init__")
    for g, b in guards:
        if not b or not self_attr(g):
            continue
        for e in r.events:
            if e.kind == "store_attr" and e.idx == g.a[1] and e.term is not None and any(
                    contains(t, lambda s: s.k not in ("phi", "op") and "Split" in str(s.a)) for t in [e.term] + [q for q, qb in e.guards if qb]):
                return True
        f = ctx.ix.find_method(c, g.a[1])
        if f is not None and "Split" in __import__("ast").unparse(f.node):
            return True
    return False


def held_children(ctx, c):
    """module-valued attributes assigned once in the constructor from a constructor parameter"""
    r = ctx.run(c, "__init__")
    out = set()
    for e in r.events:
        if e.kind == "store_attr" and e.target is not None and e.target.k == "self" and e.idx in ("inputs", "root_node", "module", "monotone", "components"):
            others = [o.term for o in r.events if o.kind == "store_attr" and o.idx != e.idx and o.term is not None and o.term.k in ("call", "new", "obj")]
            if not any(e.term is not o and contains(o, e.term) for o in others if e.idx == "monotone"):
                out.add(f"self.{e.idx}")
    return out


def covers(idxs, b):
    """do the consumed positions cover the whole list?"""
    consts, froms, whole = set(), [], False
    for i in idxs:
        if i.k == "const" and isinstance(i.a[0], int):
            consts.add(i.a[0])
        elif i.k == "slice":
            lo = 0 if is_const(i.a[0], None) else num(i.a[0])
            hi, st = i.a[1], i.a[2]
            if not is_const(hi, None) or not (is_const(st, None) or num(st) == 1):
                continue
            if lo is not None:
                froms.append(int(lo))
        elif i.k == "idx":
            whole = True
        elif i.k == "elem":
            rg = i.a[0]
            args = None
            if rg.k == "call" and str(rg.a[0].a[-1]).split(".")[-1] == "range":
                args = list(rg.a[1])
            elif rg.k == "op" and rg.a[0] == "range":
                args = list(rg.a[1])
            if args is None:
                whole = True
                continue
            lo, hi = (const(0), args[0]) if len(args) == 1 else (args[0], args[1])
            if len(args) > 2 and num(args[2]) != 1:
                continue
            if hi.k == "const" or hi.k == "op" and hi.a[0] in ("sub", "floordiv", "div", "min"):
                continue
            if num(lo) is not None:
                froms.append(int(num(lo)))
        else:
            whole = True
    if whole:
        return True, ""
    pos = {k for k in consts if k >= 0}
    for fr in froms:
        if all(k in pos for k in range(fr)):
            return True, ""
    if not froms and pos and -1 not in consts and pos == set(range(max(pos) + 1)) and len(pos) >= 2:
        return True, ""
    if not froms and pos == {0} and b.k != "attr":
        pass
    if 0 in pos and -1 in consts:
        return True, ""
    return False, f"only positions {sorted(consts)} and ranges from {froms} are used"
