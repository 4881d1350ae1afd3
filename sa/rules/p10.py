"""Sampling only fills missing entries inside the requested mask."""
from ..lib import *
from . import p09
from .p06 import effects, fname_sampler
from .p11 import refuses_evidence

ID = "P10"
TITLE = "Sampling fills only missing, requested entries and keeps all evidence"
EXPL = ("Implication analysis of every write into the sample tensor in all sampling code: the boolean selecting the written entries (index mask or enclosing test) must "
        "imply that the entry was NaN and that it is inside the requested sampling mask, rows, columns and values must be selected by that same boolean, and the columns must come "
        "from the module's own scope; masks handed to sub-circuits must imply the parent's mask; sampling returns the tensor it filled.")
ASSUME = ("boolean facts survive row/column selection, repetition and conjunction; alternatives intersect",)
PASS = CAST | {"repeat_e", "repeat", "expand", "expand_as", "clone", "index_select", "gather", "roll", "flip", "repeat_interleave", "getitem", "nonzero", "item", "tolist", "int", "any"}


class Facts:
    """what the truth of a boolean term implies about the entry it stands for"""

    def __init__(self, ctxmask):
        self.ctxmask = ctxmask
        self.memo = {}

    def of(self, t, pol=True, d=0):
        if d > 200:
            return frozenset()
        k = (t, pol)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = frozenset()
        r = self.memo[k] = frozenset(self._of(t, pol, d + 1))
        return r

    def _of(self, t, pol, d):
        if pol and self.ctxmask(t):
            return {"mask"}
        if t.k == "const" and isinstance(t.a[0], bool):
            return {"nan", "mask"} if t.a[0] != pol else set()
        if t.k == "op":
            n, a = t.a[0], t.a[1]
            if n in ("not_", "not"):
                return self.of(a[0], not pol, d)
            if n == "isnan" and pol:
                return {"nan"} if mentions_data(data_root(a[0])) else set()
            if n in ("ne", "eq") and len(a) == 2:
                if a[0] is a[1]:
                    return {"nan"} if (n == "ne") == pol and mentions_data(data_root(a[0])) else set()
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if x.k == "const" and isinstance(x.a[0], bool):
                        return self.of(y, pol == ((n == "eq") == x.a[0]), d)
            if n in ("and_", "and", "mul", "logical_and", "minimum", "where") and pol:
                if n == "where":
                    return self.of(a[0], True, d) | self.of(a[1], True, d) if is_const(core(a[2]), False) or is_zero(a[2]) else self.of(a[1], True, d) & self.of(a[2], True, d)
                return set().union(*[self.of(x, True, d) for x in a])
            if n in ("or_", "or", "logical_or", "add", "maximum"):
                f = [self.of(x, pol, d) for x in a]
                return set().union(*f) if not pol else set.intersection(*map(set, f))
            if n in ("and_", "and", "mul", "logical_and") and not pol:
                return set.intersection(*[set(self.of(x, False, d)) for x in a])
            if n == "lt" and len(a) == 2 and pol and is_zero(a[0]):
                return self.of(a[1], True, d)
            if n in ("einsum", "matmul", "bmm") and pol:
                return set().union(*[self.of(x, True, d) for x in a])
            if n == "sum" and pol and a:
                return self.of(a[0], True, d)
            if n in ("stack", "cat") and a and a[0].k == "op" and a[0].a[0] == "mul" and any(y.k in ("list", "tuple") for y in a[0].a[1]):
                a = [next(y for y in a[0].a[1] if y.k in ("list", "tuple"))] + list(a[1:])
            if n in ("stack", "cat") and a and a[0].k in ("list", "tuple"):
                f = [set(self.of(x, pol, d)) for x in a[0].a[0]]
                return set.intersection(*f) if f else set()
            if n == "any" and 0 in dims(t):
                return set()  # some other row
            if n in PASS and a:
                return self.of(a[0], pol, d)
            if n in ("zeros", "zeros_like", "new_zeros") and pol:
                return {"nan", "mask"}
            if n in ("full", "full_like", "new_full") and pol and len(a) > 1 and is_const(core(a[1]), False):
                return {"nan", "mask"}
            return set()
        if t.k == "item":
            return self.of(t.a[0], pol, d)
        if t.k == "elem":
            return self.of(t.a[0], pol, d)
        if t.k == "store":
            b, v = set(self.of(t.a[0], pol, d)), set(self.of(t.a[2], pol, d))
            if pol and is_const(core(t.a[2]), False):
                return b
            # `m[:, cols] &= x`: within cols both hold, elsewhere m still holds (and cols is what is later selected)
            return v | b if v >= b else v & b
        if t.k == "phi":
            return self.of(t.a[1], pol, d) & self.of(t.a[2], pol, d)
        if t.k == "call":
            nm = str(t.a[0].a[-1]).split(".")[-1] if isinstance(t.a[0], T) else ""
            if nm in ("bool", "deepcopy") and t.a[1]:
                return self.of(t.a[1][0], pol, d)
        if t.k == "comp":
            return self.of(t.a[1], pol, d) if isinstance(t.a[1], T) else set()
        if t.k in ("tuple", "list") and t.a[0]:
            return set.intersection(*[set(self.of(x, pol, d)) for x in t.a[0]])
        return set()


def dims(t):
    """the axes a reduction names"""
    out = []
    for x in list(t.a[1][1:2]) + [v for k, v in (t.a[2] if len(t.a) > 2 else ()) if k in ("dim", "axis")]:
        out += [num(y) for y in (x.a[0] if x.k in ("tuple", "list") else [x])]
    return out


def ctx_mask(t):
    """the mask of a sampling context given to the function, directly or sliced by the leaf helpers"""
    if t.k == "attr" and t.a[1] in ("mask", "_mask"):
        b = t.a[0]
        return b.k == "param" or b.k == "self" or b.k == "call" and str(b.a[0].a[-1]) in ("with_routing", "copy")
    return False


def slicer(t):
    """second result of the context slicing helper"""
    if t.k == "item" and is_const(t.a[1], 1) and t.a[0].k == "call" and "slice_sampling_context" in str(t.a[0].a[0]):
        return True
    return False


def from_scope(t):
    return contains(t, lambda s: s.k == "attr" and s.a[1] in ("query", "scope") or s.k == "call" and "scope_col" in str(s.a[0]))


def mask_of_index(x):
    """`rows[m]` -> m"""
    x = core(x, {"to", "long", "contiguous", "clone"})
    return x.a[1] if x.k == "item" else None


def inner_rows(m):
    """item(item(M, rows), cols) -> rows"""
    while m.k == "item" and m.a[0].k == "item":
        m = m.a[0]
    return m.a[1] if m.k == "item" else None


def check(ctx, chk):
    ix = ctx.ix
    seen = set()
    f_ = Facts(lambda t: ctx_mask(t) or slicer(t))
    exempt = {}
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.kind == "lambda" or ".<locals>." in f.qual or not fname_sampler(f) or f.name == "_prepare_sample_data":
            continue
        r = ctx.run_func(f, f.cls, max_depth=3)
        if f.cls is not None and ctx.Module in ix.mro(f.cls) and f.name == "_sample" and f.cls.name not in exempt:
            exempt[f.cls.name] = refuses_evidence(ctx, f.cls, r)
        for e, t in effects(r):
            if not may_alias(t, lambda s: s.k == "param" and s.a[0] == f.qual and s.a[1] in ("data", "evidence", "samples", "x", "out")):
                continue
            if e.where in seen:
                continue
            seen.add(e.where)
            con = f"{f.cls.name + '.' if f.cls else ''}{f.name}:write"
            if e.kind != "store_item":
                chk.ob("write-mask", con, False, e.where, f"unconditional in-place {e.name or e.kind} on the sample tensor")
                continue
            facts, aligned, cols_ok = set(), True, True
            g = set()
            for c, b in e.guards:
                if at_entry(c, e.idx):
                    g |= f_.of(c, b)
            idx = e.idx
            ms = []
            if idx.k == "tuple" and len(idx.a[0]) == 2:
                rr, cc = idx.a[0]
                mr, mc = mask_of_index(rr), mask_of_index(cc)
                if mr is not None and mr is mc:
                    facts |= f_.of(mr)
                    mv = None
                    v = core(e.term)
                    if v.k == "item":
                        mv = v.a[1]
                    aligned = mv is mr or e.term.k == "const"
                    rowsel = inner_rows(mr)
                    if rowsel is not None and not is_basic_index(rowsel):
                        aligned = aligned and contains(rr, rowsel)
                    cols_ok = from_scope(cc)
                else:
                    facts |= f_.of(mr) | f_.of(mc) if mr is not None and mc is not None else set()
                    # element-wise write under a test of samples_mask[row, j]
                    for c, b in e.guards:
                        for s in walk(c):
                            if s.k == "item" and s.a[1].k == "tuple" and len(s.a[1].a[0]) == 2 and (f_.of(s) & {"mask", "nan"}):
                                ms.append(s)
                    if ms:
                        aligned = any(s.a[1].a[0][0] is rr and same_loop(s.a[1].a[0][1], cc) for s in ms)
                        vi = core(e.term)
                        if vi.k == "item":
                            aligned = aligned and any(s.a[1].a[0][1] is vi.a[1] for s in ms)
                    cols_ok = from_scope(cc)
            else:
                facts |= f_.of(idx)
                v = core(e.term)
                if v.k == "item" and not is_basic_index(v.a[1]):
                    aligned = v.a[1] is idx
                cols_ok = True
            facts |= g
            chk.ob("write-only-missing", con, "nan" in facts, e.where, "an observed entry can be overwritten: the write is not limited to NaN entries")
            chk.ob("write-only-requested", con, "mask" in facts, e.where, "the write is not limited to the requested sampling mask")
            chk.ob("write-aligned", con, aligned, e.where, "rows, columns and values written must be selected by the same mask")
            chk.ob("write-own-scope", con, cols_ok, e.where, "the written columns must be those of the module's scope")
    # masks handed on imply the parent's mask
    for c in ctx.modules():
        f = ix.find_method(c, "_sample")
        if f is None or f.cls is ctx.Module:
            continue
        if ctx.Leaf in ix.mro(c) and f.cls is not c:
            continue
        r = ctx.run(c, "_sample")
        for e in r.events:
            m = None
            if e.kind == "call" and e.name in ("with_routing", "update") and "mask" in e.kwargs:
                m = e.kwargs["mask"]
            elif e.kind == "store_attr" and e.idx in ("mask", "_mask") and e.target is not None and "ctx" in show(e.target, 2):
                m = e.term
            elif e.kind == "call" and e.name == "SamplingContext":
                # a context made inside sampling drops the caller's mask
                m = e.kwargs.get("mask") or T("const", True)
            if m is None:
                continue
            chk.ob("child-mask", f"{c.name}._sample:{e.name or 'mask'}", "mask" in Chan(f_).of(m), e.where, "the mask handed to an input is not limited to the requested mask")
    # routing through a factorisation table must match repetitions and rows
    try:
        p09.factor_table(ctx, chk, forward=False)
    except p09.SAFE as e:
        chk.note(f"factorisation tables not analysed ({type(e).__name__}: {e})")
    # the context operations that derive masks
    for f in sorted(ctx.SC.methods.values(), key=lambda f: f.name):
        if f.name in ("__init__", "update") or f.name.startswith("_check") or f.name.startswith("_normalize"):
            continue
        r = ctx.run_func(f, ctx.SC, sampling_opaque=True)
        g = Chan(Facts(lambda t: t.k == "attr" and t.a[1] in ("mask", "_mask") and t.a[0].k == "self" or t.k == "param" and t.a[1] == "mask"))
        for e in r.events:
            if e.kind == "call" and e.name in ("update", "with_routing") and "mask" in e.kwargs:
                chk.ob("context-mask", f"SamplingContext.{f.name}", "mask" in g.of(e.kwargs["mask"]), e.where, "the derived mask must stay within the requested mask")
        if f.name in ("route_channel_offsets", "slice_feature_ranges"):
            ok = any(True for _ in r.returns)
            for t in [t for x in r.returns for t in pairs(x[-1] if isinstance(x, tuple) else x)]:
                chk.ob("context-mask", f"SamplingContext.{f.name}", "mask" in g.of(t), f"{f.file}:{f.line}", "the derived mask must stay within the requested mask")
    chk.floor("write-only-missing", 2)
    chk.floor("child-mask", 6)


class Chan:
    """facts, looking through context helpers that return (channel, mask) pairs"""

    def __init__(self, f):
        self.f = f

    def of(self, t):
        seen = set()

        def rec(x, d=0):
            if d > 60 or x in seen:
                return True
            if "mask" in self.f.of(x):
                return True
            if x.k == "phi":
                return rec(x.a[1], d + 1) and rec(x.a[2], d + 1)
            if x.k in ("item", "elem") or x.k == "op" and x.a[0] in PASS and x.a[1]:
                y = x.a[0] if x.k != "op" else x.a[1][0]
                return rec(y, d + 1)
            if x.k == "comp":
                return rec(x.a[1], d + 1)
            if (x.k == "op" and x.a[0] or x.k == "call" and isinstance(x.a[0], T) and str(x.a[0].a[-1]).split(".")[-1]) in ("zip", "list", "tuple") and len(x.a[1]) == 1:
                return rec(x.a[1][0].a[0] if x.a[1][0].k in ("star", "starred") else x.a[1][0], d + 1)
            if x.k == "store":
                return rec(x.a[2], d + 1) and (rec(x.a[0], d + 1) or empty(x.a[0]))
            if x.k == "call" and isinstance(x.a[0], T):
                nm = str(x.a[0].a[-1])
                if nm in ("slice_feature_ranges", "route_channel_offsets"):
                    return True
                if nm in ("merge_split_tensors", "merge_split_indices", "merge_split_masks"):
                    return all(rec(y, d + 1) for y in x.a[1] if y.k not in ("star", "starred")) and bool(x.a[1]) or all(rec(y.a[0], d + 1) for y in x.a[1] if y.k in ("star", "starred"))
                if nm in ("contiguous", "clone"):
                    return rec(x.a[0].a[0], d + 1)
            return False
        return {"mask"} if rec(t) else set()


def empty(t):
    return t.k in ("list", "tuple") and not t.a[0] or t.k == "phi" and empty(t.a[1]) and empty(t.a[2])


def pairs(t):
    """second components of the pairs a list is built from"""
    out = []
    for s in walk(t):
        if s.k == "tuple" and len(s.a[0]) == 2 and all(isinstance(x, T) for x in s.a[0]):
            a, b = s.a[0]
            if contains(a, lambda q: q.k == "attr" and q.a[1] in ("channel_index", "_channel_index")) and contains(b, lambda q: q.k == "attr" and q.a[1] in ("mask", "_mask")) or \
                    contains(b, lambda q: q.k == "attr" and q.a[1] in ("mask", "_mask")):
                out.append(b)
            elif contains(a, lambda q: q.k == "attr" and q.a[1] in ("channel_index", "_channel_index")) and not contains(s, lambda q: q.k == "slice" and False) and \
                    b.k not in ("slice", "const"):
                out.append(b)
    return out


def at_entry(c, idx):
    """the condition is about the written entry itself"""
    if idx.k != "tuple":
        return False
    while True:
        if c.k == "op" and c.a[0] in ("not", "not_", "bool", "item", "tolist", "int") and c.a[1]:
            c = c.a[1][0]
        elif c.k == "call" and isinstance(c.a[0], T) and str(c.a[0].a[-1]).split(".")[-1] in ("bool", "int") and c.a[1]:
            c = c.a[1][0]
        elif c.k == "call" and isinstance(c.a[0], T) and c.a[0].k == "attr" and c.a[0].a[1] == "item":
            c = c.a[0].a[0]
        else:
            break
    if c.k == "op" and c.a[0] in ("and", "and_"):
        return any(at_entry(x, idx) for x in c.a[1])
    return c.k == "item" and c.a[1].k == "tuple" and len(c.a[1].a[0]) == len(idx.a[0]) and c.a[1].a[0][0] is idx.a[0][0] or \
        c.k == "op" and c.a[0] == "isnan" and at_entry(c.a[1][0], idx)


def bare(t):
    while t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] in ("list", "tuple", "sorted") and t.a[1]:
        t = t.a[1][0]
    return t


def same_loop(j, col):
    """enumerate()'s counter and its element (or a counter and an element picked with it)"""
    js = {bare(y) for x in alts(j) if x.k == "idx" for y in alts(x.a[0])}
    if any(x.k == "item" and x.a[1] is j for x in alts(col)):
        return True
    cs = {bare(y) for x in alts(col) if x.k == "elem" for y in alts(x.a[0])}
    return bool(cs) and cs <= js
