"""Sampling reaches every sub-circuit."""
from ..lib import *
from .p08 import covers, held_children
from .p12 import source
from .p10 import ctx_mask, slicer, mask_of_index

ID = "P15"
TITLE = "Sampling visits every input of every module it passes through"
EXPL = ("Call-coverage over the _sample method of every inner module: on every path that returns, each input the module holds (lists by index, slice, range or loop are checked for full coverage) "
        "is asked to sample into the same tensor with a sampling context and cache; only an empty share may be skipped. Leaves reached with requested entries write them.")
ASSUME = ("a mixture may skip the inputs no sample chose",)


def empty_share(c):
    """conditions that only say whether there is anything to sample"""
    neg = False
    while c.k == "op" and c.a[0] in ("not", "not_"):
        neg = not neg
        c = c.a[1][0]
    if c.k == "call" and str(c.a[0].a[-1]) in ("bool", "builtins.bool") and c.a[1]:
        c = c.a[1][0]
    c = core(c)
    ask = lambda t: value_contains(t, lambda s: s.k == "attr" and s.a[1] in ("mask", "_mask", "samples_mask", "_samples_mask")) or \
        value_contains(t, lambda s: s.k == "op" and s.a[0] == "eq" and any(x.k in ("idx", "elem") for x in s.a[1]))
    if c.k == "op" and c.a[0] == "any" and ask(c):
        return not neg
    if c.k == "op" and c.a[0] in ("eq", "gt", "ne", "lt", "le", "ge") and any(is_zero(x) for x in c.a[1]) and \
            any(core(x).k == "op" and core(x).a[0] in ("sum", "numel", "count_nonzero") or value_contains(x, lambda s: s.k == "op" and s.a[0] in ("sum", "count_nonzero")) for x in c.a[1]) and ask(c):
        z = is_zero(c.a[1][1])
        n = c.a[0]
        pos = {"eq": False, "ne": True, "gt": True, "lt": True, "le": False, "ge": False}[n] if z or n in ("eq", "ne") else n == "lt"
        return pos != neg
    return None


def truncating(r, h, fi):
    """iterations over self.<h> in this function that a counter of another length can cut short"""
    def nm(q):
        return opname(q) or (str(q.a[0].a[-1]).split(".")[-1] if q.k == "call" and isinstance(q.a[0], T) else None)
    out = []
    for e in r.events:
        if e.kind != "call" or e.name not in ("zip", "islice") or not any(self_attr(x, h) for x in e.args) or e.func is not fi:
            continue
        for o in e.args:
            if e.name == "islice" and not self_attr(o):
                out.append(e)
            if nm(o) == "range" and o.a[1]:
                hi = o.a[1][0 if len(o.a[1]) == 1 else 1]
                if not contains(hi, lambda q: nm(q) == "len" or q.k == "attr" and "num" in q.a[1] and "input" in q.a[1]):
                    out.append(e)
    return out


def child_of(rc):
    """(attribute, position) of the receiver of a sampling request; position None = the single child"""
    if self_attr(rc):
        return rc.a[1], None
    if rc.k == "item" and self_attr(rc.a[0]):
        return rc.a[0].a[1], rc.a[1]
    if rc.k == "elem":
        b = rc.a[0]
        while b.k == "call" and str(b.a[0].a[-1]).split(".")[-1] in ("list", "tuple", "enumerate", "zip", "reversed") and b.a[1]:
            b = b.a[1][0]
        if self_attr(b):
            return b.a[1], T("idx", b)
        if b.k == "item" and self_attr(b.a[0]):
            return b.a[0].a[1], b.a[1]
    if rc.k == "attr" and rc.a[0].k in ("attr",) and rc.a[1] == "inputs":
        return child_of(rc.a[0])
    return None


def no_cond(t):
    """value subterms, conditions of alternatives excluded"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or shape_only(x):
            continue
        seen.add(x)
        yield x
        st += [x.a[1], x.a[2]] if x.k == "phi" else [x.a[0]] if x.k == "item" else children(x)


def from_mask(x):
    return any(s.k == "attr" and s.a[1] in ("mask", "_mask", "samples_mask") for s in no_cond(x))


def check(ctx, chk):
    ix = ctx.ix
    for c in ctx.modules():
        if ctx.Leaf in ix.mro(c):
            continue
        for m in ("_sample", "sample"):
            f = ix.find_method(c, m)
            if f is None or f.cls is ctx.Module or f.cls is ctx.Leaf:
                continue
            r = ctx.run(c, m)
            if not r.returns:
                continue
            W = f"{f.file}:{f.line}"
            con = f"{c.name}.{m}"
            calls, own = {}, []
            for e in r.events:
                if e.kind != "call" or e.recv is None or e.name not in ("_sample", "sample", "sample_with_evidence"):
                    continue
                if e.recv.k == "self":
                    own.append(e)
                    continue
                for g, rc in galts(e.recv, e.guards)[:8]:
                    k = child_of(rc)
                    if k is not None:
                        calls.setdefault(k[0], []).append((k[1], g, e, rc.a[1] if rc.k == "attr" and rc.a[0].k == "attr" else None))
            if not calls and not own:
                continue
            held = [h.split(".")[-1] for h in held_children(ctx, c)]
            for h in held:
                if h not in calls:
                    if own or h in ("components", "monotone"):
                        continue
                    chk.ob("input-sampled", f"{con}:{h}", False, W, f"{h} is never asked to sample")
                    continue
                ks = calls[h]
                for st, v in r.returns:
                    gs = list(st)
                    if any(empty_share(g) == (not b) for g, b in gs if empty_share(g) is not None):
                        continue
                    if own and not covered(gs, [k[1] for k in ks], empty_share) and covered(gs, [e.guards for e in own], empty_share):
                        continue
                    ok = covered(gs, [k[1] for k in ks], empty_share)
                    chk.ob("input-sampled", f"{con}:{h}", ok, W, f"a returning path does not ask {h} to sample")
                for e in truncating(r, h, f):
                    chk.ob("all-inputs-sampled", f"{con}:{h}", False, e.where, "the iteration over the inputs is cut short by a counter of another length")
                # positions, per configuration
                pos = [k[0] for k in ks if k[0] is not None]
                single = any(k[0] is None for k in ks)
                if pos and not single or pos and all(p.k == "const" for p in pos) and len(pos) > 1:
                    ok, why = covers(pos, T("attr", T("self"), h)) if not (c.name == "Factorize") else (True, "")
                    chk.ob("all-inputs-sampled", f"{con}:{h}", ok, W, why)
                    for p in pos:
                        if p.k == "const":
                            for st, v in r.returns:
                                gs = list(st)
                                ev = [k[1] for k in ks if k[0] is None or k[0] is p]
                                chk.ob("input-sampled", f"{con}:{h}[{p.a[0]}]", covered(gs, ev, empty_share), W, f"a returning path does not ask {h}[{p.a[0]}] to sample")
            # what is requested of an input is everything requested here, unless a drawn choice decides
            for e in r.events:
                masks = []
                if e.kind == "call" and e.name == "with_routing" and "mask" in e.kwargs:
                    masks.append(e.kwargs["mask"])
                if e.kind == "store_attr" and e.idx in ("mask", "_mask", "samples_mask") and e.target is not None and e.target.k != "self" and e.term is not None:
                    masks.append(e.term)
                for v in masks:
                    bad = None
                    for t in no_cond(v):
                        if t.k == "op" and t.a[0] in ("and_", "mul", "logical_and", "where", "masked_fill", "masked_fill_", "and", "sub"):
                            for x in t.a[1]:
                                if not from_mask(x) and "sampled" not in source(x) and not any(s.k == "call" and "sample" in str(s.a[0].a[-1]) for s in walk(x)):
                                    bad = x
                        if t.k == "op" and t.a[0] in ("ne", "lt", "gt", "le", "ge") and any(from_mask(x) for x in t.a[1]) and any(num(x) in (0, 0.5) for x in t.a[1]):
                            continue
                        if t.k == "op" and t.a[0] in ("zeros", "zeros_like", "full_like", "ne", "lt", "gt") and not any(s.k == "call" and "sample" in str(s.a[0].a[-1]) for s in walk(t)):
                            bad = t
                        if t.k == "store" and num(t.a[2]) == 0:
                            bad = t
                    chk.ob("request-complete", con, bad is None, e.where, f"the request handed on is restricted by {show(bad, 4)}" if bad is not None else "")
    # leaves: every returning path writes, unless nothing was requested
    seen = set()
    for c in ctx.leaves():
        f = ix.find_method(c, "_sample")
        if f is None or f.qual in seen:
            continue
        seen.add(f.qual)
        r = ctx.run(c, "_sample")
        if not r.returns:
            continue
        wr = [e.guards for e in r.events if e.kind == "store_item" and may_alias(e.target, lambda s: is_param(s, "data"))]
        for st, v in r.returns:
            gs = list(st)
            if any(nothing_asked(g) == b for g, b in gs if nothing_asked(g) is not None):
                continue
            chk.ob("leaf-writes", f"{f.cls.name}._sample", covered(gs, wr, lambda g: (not nothing_asked(g)) if nothing_asked(g) is not None else None), f"{f.file}:{f.line}",
                   "a returning path leaves requested entries unfilled")
    try:
        leaf_fill(ctx, chk)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as e:
        chk.note(f"leaf fill masks not analysed: {e}")
    chk.floor("input-sampled", 12)
    chk.floor("leaf-writes", 1)
    chk.floor("request-complete", 3)


class Implied:
    """is a boolean entry true whenever the entry it stands for is missing, requested and in scope? True / False / None (unknown)"""

    def __init__(self):
        self.memo = {}

    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        self.memo[t] = r = self._of(t)
        return r

    def _all(self, xs):
        rs = [self.of(x) for x in xs]
        return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True

    def _of(self, t):
        if ctx_mask(t) or slicer(t):
            return True
        if t.k == "const" and isinstance(t.a[0], bool):
            return t.a[0]
        if t.k == "phi":
            return self._all((t.a[1], t.a[2]))
        if t.k == "store":
            b = self.of(t.a[0])
            if is_const(core(t.a[2]), False) or is_zero(t.a[2]):
                # cleared entries must lie outside the scope
                out = contains(t.a[1], lambda s: s.k == "op" and s.a[0] in ("not_in", "not in", "in", "isin", "difference", "setdiff") or s.k == "comp" or s.k == "call" and isinstance(s.a[0], T) and "set" in str(s.a[0].a[-1]))
                return b if out else None if not is_basic_index(t.a[1]) else False
            v = self.of(t.a[2])
            return False if False in (b, v) else None if None in (b, v) else True
        if t.k in ("item", "elem"):
            return self.of(t.a[0])
        if t.k == "call" and isinstance(t.a[0], T) and str(t.a[0].a[-1]).split(".")[-1] in ("bool", "deepcopy") and t.a[1]:
            return self.of(t.a[1][0])
        if t.k != "op":
            return None
        n, a = t.a[0], t.a[1]
        if n == "isnan":
            return True if contains(a[0], lambda s: is_param(s, "data")) else None
        if n in ("ne", "eq") and len(a) == 2 and a[0] is a[1]:
            return n == "ne" if contains(a[0], lambda s: is_param(s, "data")) else None
        if n in ("and_", "and", "mul", "logical_and"):
            return self._all(a)
        if n in ("or_", "or", "logical_or"):
            rs = [self.of(x) for x in a]
            return True if True in rs else None if None in rs else False
        if n in ("lt", "le", "ne", "eq") and len(a) == 2:
            for i, (x, k) in enumerate(((a[0], a[1]), (a[1], a[0]))):
                v = num(k)
                if isinstance(k, T) and k.k == "const" and isinstance(k.a[0], bool):
                    if n in ("ne", "eq"):
                        return self.of(x) if (n == "eq") == k.a[0] else None
                    return None
                if v is None or self.of(x) is None and not summed(x):
                    continue
                b = self.of(summed(x) or x)
                if b is None:
                    return None
                if not b:
                    return False
                # counts of marked entries: at least one is marked
                if n == "lt":
                    return v < 1 if i == 1 - 0 and k is a[0] else False
                if n == "le":
                    return v <= 1 if k is a[0] else False
                if n == "ne":
                    return v < 1
                return False
            if n in ("lt", "le") and any(value_contains(x, lambda s: is_param(s, "data")) and not value_contains(x, lambda s: s.k == "op" and s.a[0] in ("isnan", "sum", "any", "isfinite")) for x in a):
                return False  # an order test on the values: false for a missing entry, arbitrary for another one
            return None
        if n in ("any", "sum", "count_nonzero") or n in CAST or n in KEEP:
            return self.of(a[0]) if a else None
        if n == "all":
            return False
        if n == "not_" or n == "not":
            x = core(a[0])
            if x.k == "op" and x.a[0] in ("isfinite", "eq") and contains(x, lambda s: is_param(s, "data")):
                return None if x.a[0] == "eq" and x.a[1][0] is not x.a[1][-1] else True
            return None
        return None


KEEP = {"repeat_e", "repeat", "expand", "expand_as", "clone", "index_select", "gather", "repeat_interleave", "nonzero", "item", "getitem"}


def summed(x):
    x = core(x)
    return x.a[1][0] if x.k == "op" and x.a[0] in ("sum", "count_nonzero") and x.a[1] else None


def leaf_fill(ctx, chk):
    ix = ctx.ix
    seen = set()
    im = Implied()
    for c in ctx.leaves():
        f = ix.find_method(c, "_sample")
        if f is None or f.qual in seen:
            continue
        seen.add(f.qual)
        r = ctx.run(c, "_sample")
        for e in r.events:
            if e.kind != "store_item" or not may_alias(e.target, lambda s: is_param(s, "data")):
                continue
            idx = e.idx
            ms = []
            if idx.k == "tuple" and len(idx.a[0]) == 2:
                ms = [m for m in (mask_of_index(x) for x in idx.a[0]) if m is not None]
            elif not is_basic_index(idx):
                ms = [idx]
            parts = []
            for m in ms:
                x = m
                while x.k == "item":
                    if not is_basic_index(x.a[1]) and (im.of(x.a[1]) is not None):
                        parts.append(x.a[1])
                    x = x.a[0]
                parts.append(x)
            for x in dict.fromkeys(parts):
                v = im.of(x)
                if v is None:
                    chk.note(f"{f.qual}: fill mask not decided: {show(x, 3)}")
                    continue
                chk.ob("leaf-fills-all", f"{f.cls.name}._sample", v, e.where, f"a requested missing entry can be left out of the entries filled: {show(x, 4)}")


def nothing_asked(c):
    """truth of the condition that means: no entry is to be filled"""
    neg = False
    while c.k == "op" and c.a[0] in ("not", "not_"):
        neg = not neg
        c = c.a[1][0]
    if c.k == "call" and str(c.a[0].a[-1]).split(".")[-1] in ("bool", "int") and c.a[1]:
        c = c.a[1][0]
    c = core(c)
    about = lambda t: value_contains(t, lambda s: s.k == "op" and s.a[0] in ("isnan",) or s.k == "attr" and "mask" in str(s.a[1]))
    if c.k == "op" and c.a[0] == "item":
        c = core(c.a[1][0])
    if c.k == "op" and c.a[0] == "any" and about(c) or c.k == "item" and about(c.a[0]):
        return neg
    if c.k == "op" and c.a[0] in ("eq", "ne", "gt") and about(c):
        cnt = any(s.k == "op" and s.a[0] in ("sum", "numel", "count_nonzero") or s.k == "attr" and s.a[1] == "shape" for s in walk(c))
        if cnt and any(is_zero(x) for x in c.a[1]):
            return (c.a[0] == "eq") != neg
    return None
