"""Agreement of split, merge, product, concatenation and scope code about which position holds which feature."""
import ast
from ..lib import *
from ..layout import Lay, Scrambled, fmt, ival

ID = "P09"
TITLE = "Splits, merges, products and scopes agree on which position holds which feature"
EXPL = ("Row-major layout inference over the reshaping operations, for all sizes at once: the order in which a split hands out its input's features fixes the order in which its merges, its own sampling pass, the "
        "products above it (channels and masks) and its scope table must list (feature, part) pairs; index-group splits are checked against the cumulative offset of each group; concatenations and the sampling "
        "context's slicing, offset routing and scattering against cumulative ranges; scope tables of products against the positions that are multiplied; on image grids, coordinate maps (scale, offset) of every "
        "spread and crop are compared with the window, stride and padding of the likelihood.")
ASSUME = ("split modules receive inputs whose feature count is divisible by the number of parts", "row-major tensors (PyTorch semantics of reshape, repeat, einops patterns)")
SAFE = (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError)
F_, S_, B_, C_ = ("f",), ("s",), ("b",), ("c",)
ORDER = {"consecutive": ("s", "f"), "interleaved": ("f", "s")}


def cname(t):
    return str(t.a[0].a[-1]).split(".")[-1] if t.k == "call" and isinstance(t.a[0], T) else None


def bare(t):
    while cname(t) in ("list", "tuple", "enumerate", "int") and t.a[1] or t.k == "op" and t.a[0] in ("list", "tuple", "int") and t.a[1]:
        t = t.a[1][0]
    return t


def splits(ctx):
    base = [c for c in ctx.ix.classes.values() if c.name == "Split"]
    return [c for c in ctx.ix.classes.values() if base and c is not base[0] and base[0] in ctx.ix.mro(c)] if base else []


def appended(t):
    """(source, element) of a list built by a loop of appends or a comprehension; None otherwise"""
    t = bare(t)
    if t.k == "phi" and t.a[0].k == "ran" and t.a[1].k == "store":
        st = t.a[1]
        v = st.a[2]
        if is_const(st.a[1], "#append") or "#append" in str(st.a[1].a):
            if v.k in ("tuple",) and len(v.a[0]) == 1:
                v = v.a[0][0]
            return t.a[0].a[0], v
    if t.k == "comp" and not t.a[3] and len(t.a[2]) == 1 and isinstance(t.a[1], T):
        return t.a[2][0], t.a[1]
    return None


def src_range(s):
    """x of range(x)"""
    s = bare(s)
    return s.a[1][0] if (cname(s) == "range" or opname(s) == "range") and len(s.a[1]) == 1 else None


def is_nsplits(t):
    t = bare(t)
    return self_attr(t, "num_splits")


def loopvar(t):
    return t.k in ("elem", "idx")


def cumulative(t):
    """(source, increment) of a running sum started at 0: phi(loopcarried(source), add(0, inc), 0)"""
    if t.k == "phi" and t.a[0].k == "loopcarried" and is_const(t.a[2], 0) and opname(t.a[1]) == "add":
        xs = list(t.a[1].a[1])
        if len(xs) == 2 and any(is_const(x, 0) for x in xs):
            return t.a[0].a[0], [x for x in xs if not is_const(x, 0)][0] if not all(is_const(x, 0) for x in xs) else xs[0]
    return None


def carried(t):
    return t.k == "phi" and t.a[0].k == "loopcarried"


def slice_parts(ix, axis=1):
    """(start, stop, step) of the slice at position `axis` of an index tuple"""
    parts = list(ix.a[0]) if ix.k == "tuple" else [ix]
    if len(parts) <= axis or any(not all(is_const(y, None) for y in p.a) for p in parts[:axis] if p.k == "slice"):
        return None
    p = parts[axis]
    return tuple(p.a) if p.k == "slice" else p


def part_kind(sl, var_ok=True):
    """kind of the part a[start:stop:step] over the loop variable i of the parts"""
    st, en, sp = sl
    if loopvar(st) and is_const(en, None) and is_nsplits(sp):
        return "interleaved"
    if is_const(sp, None) or is_const(sp, 1):
        if opname(st) == "mul" and opname(en) == "mul":
            i = [x for x in st.a[1] if loopvar(x)]
            k = [x for x in st.a[1] if not loopvar(x)]
            if len(i) == 1 and len(k) == 1 and k[0] in en.a[1]:
                o = [x for x in en.a[1] if x is not k[0]]
                if len(o) == 1 and opname(o[0]) == "add" and set(o[0].a[1]) == {i[0], const(1)}:
                    return "consecutive"
                return "broken"
            if len(i) == 1:
                return "broken"
    if not is_const(sp, None) and not is_const(sp, 1) and loopvar(st) and not is_nsplits(sp):
        return "broken" if num(sp) is not None else None
    return None


def init_value(ctx, c, name):
    r = ctx.run(c, "__init__")
    vs = [e.term for e in r.events if e.kind == "store_attr" and name in (e.name, e.idx) and e.term is not None]
    return vs[-1] if vs else None


def kinds(ctx, chk, c):
    """layout kinds of the parts the class' log-likelihood hands out: list of (kind, where, guards)"""
    r = ctx.run(c, "log_likelihood")
    out = []
    where = ctx.ix.find_method(c, "log_likelihood")
    for g, v in r.returns:
        if not live(g):
            continue
        v = bare(v)
        n = next((num(x) for cond, p in g if p and opname(cond) == "eq" and any(is_nsplits(y) for y in cond.a[1]) for x in cond.a[1] if num(x) is not None), None)
        kind = None
        if opname(v) in ("split", "chunk", "tensor_split"):
            k = kwd(v)
            sz = next((k[x] for x in ("split_size", "split_size_or_sections", "chunks", "sections", "indices_or_sections") if x in k), v.a[1][1] if len(v.a[1]) > 1 else None)
            if sz is not None and opname(v) == "split":
                kind = "consecutive" if opname(sz) == "floordiv" and is_nsplits(sz.a[1][1]) else None
            elif sz is not None:
                kind = "consecutive" if is_nsplits(sz) else None
        elif v.k in ("list", "tuple"):
            items = list(v.a[0])
            if len(items) == 1 and items[0].k == "call":
                kind = "any"
            else:
                sls = [slice_parts(x.a[1]) if x.k == "item" else None for x in items]
                if all(isinstance(s, tuple) for s in sls):
                    st, en, sp = [[num(s[i]) for s in sls] for i in range(3)]
                    if all(x is not None for x in st + sp) and all(is_const(s[1], None) for s in sls):
                        kind = "interleaved" if st == list(range(len(items))) and set(sp) == {len(items)} and (n is None or n == len(items)) else "broken"
        else:
            ap = appended(v)
            if ap:
                src, el = ap
                if el.k == "item":
                    sl = slice_parts(el.a[1])
                    if isinstance(sl, tuple):
                        kind = part_kind(sl)
                    elif sl is not None and sl.k == "elem" and self_attr(bare(sl.a[0])):
                        kind = mask_kind(ctx, c, bare(sl.a[0]).a[1])
                elif opname(el) == "index_select":
                    ix = kwd(el).get("index") or (el.a[1][2] if len(el.a[1]) > 2 else None)
                    bases = {bare(x.a[0]) for a in alts(ix) for x in [core(a)] if x.k == "elem"} if ix is not None else set()
                    if len(bases) == 1 and self_attr(list(bases)[0]):
                        kind = "table"
        out.append((kind, where, g))
    return out


def mask_kind(ctx, c, name):
    v = init_value(ctx, c, name)
    ap = appended(v) if v is not None else None
    if not ap:
        return None
    src, el = ap
    if opname(el) == "eq" and len(el.a[1]) == 2:
        lv = [x for x in el.a[1] if loopvar(x)]
        md = [x for x in el.a[1] if opname(x) in ("mod", "remainder")]
        fd = [x for x in el.a[1] if opname(x) == "floordiv"]
        if lv and md and opname(core(md[0].a[1][0])) == "arange":
            by = md[0].a[1][1]
            return "interleaved" if same_count(by, src) else None
        if lv and fd:
            return "consecutive"
    return None


def same_count(n, src):
    r = src_range(src)
    return r is not None and (r is n)


# ---------------------------------------------------------------------------------------------------------------
def merges(ctx, chk, c, kind):
    for m, dims in (("merge_split_indices", [B_, F_]), ("merge_split_tensors", [B_, F_, C_])):
        fi = ctx.ix.find_method(c, m)
        if fi is None:
            continue
        r = ctx.run(c, m)
        for g, v in r.returns:
            if not live(g):
                continue
            if kind == "table":
                table_merge(ctx, chk, c, m, v, r, fi)
                continue
            def env(t, dims=dims):
                if isinstance(t, tuple):
                    x = t[1]
                    if x.k in ("star", "starred"):
                        x = x.a[0]
                    x = bare(x)
                    return dims if x.k == "param" else None
                return None
            try:
                got = Lay(env, lambda t: "s" if is_nsplits(t) or cname(t) == "len" or opname(t) == "len" else None).of(v)
            except Scrambled as e:
                chk.ob("merge-order", f"{c.name}.{m}", False, fi, f"the parts are merged in scrambled order ({e})")
                continue
            if got is None:
                chk.note(f"{c.name}.{m}: order of the merged features not understood")
                continue
            exp = [B_, ORDER[kind]] + dims[2:]
            chk.ob("merge-order", f"{c.name}.{m}", got == exp, fi, f"parts handed out {kind}: merged must be {fmt(exp)}, is {fmt(got)}")


def is_group(t, groups=None):
    return t.k == "elem" and (self_attr(bare(t.a[0])) or bare(t.a[0]).k == "param")


def group_var(t):
    """t = the original index: element of a group of the table"""
    return t.k == "elem" and is_group(bare(t.a[0]))


def offset_ok(t, group):
    """t = the summed length of the groups before `group`: True / False / None (not understood)"""
    cm = cumulative(t)
    if cm:
        inc = cm[1]
        return (cname(inc) == "len" or opname(inc) == "len") and inc.a[1][0] is group
    if carried(t) or num(t) is not None:
        return False
    if opname(t) in ("mul", "add", "sub") and all(num(x) is not None or x.k == "idx" or cname(x) == "len" or opname(x) == "len" or offset_ok(x, group) is False for x in t.a[1]):
        return False
    if (cname(t) == "sum" or opname(t) == "sum") and t.a[1] and t.a[1][0].k == "comp":
        cp = t.a[1][0]
        el, srcs = cp.a[1], cp.a[2]
        if cp.a[3] or len(srcs) != 1 or not (cname(el) == "len" or opname(el) == "len"):
            return False
        rg = src_range(srcs[0])
        if rg is not None:
            return rg.k == "idx" and bare(rg.a[0]) is bare(group.a[0])
        s = bare(srcs[0])
        if s.k == "item" and s.a[1].k == "slice":
            st, en, sp = s.a[1].a
            return (is_const(st, None) or is_const(st, 0)) and en.k == "idx" and bare(en.a[0]) is bare(group.a[0])
    return None


def concat_pos(t):
    """(offset, pos) of add(offset, pos)"""
    if opname(t) == "add" and len(t.a[1]) == 2:
        a, b = t.a[1]
        if b.k == "idx" and not a.k == "idx":
            return a, b
        if a.k == "idx":
            return b, a
    return None


def table_store(chk, c, m, r, fi, inverse):
    """stores of  table[orig] = offset + pos  (inverse) or  result[:, orig] = concat[:, offset + pos]"""
    seen = False
    for e in r.events:
        if e.kind != "store_item" or e.idx is None or e.term is None:
            continue
        ix, val = e.idx, e.term
        if not inverse:
            if ix.k != "tuple" or val.k != "item" or val.a[1].k != "tuple":
                continue
            ix, val = ix.a[0][1], val.a[1].a[0][1]
        cp = concat_pos(val)
        cx = concat_pos(ix)
        if group_var(ix) and cp:
            grp = bare(ix.a[0])
            off, pos = cp
            okp = pos.k == "idx" and bare(pos.a[0]) is grp
            oko = offset_ok(off, grp)
            if oko is None:
                chk.note(f"{c.name}.{m}: offset of an index group not understood")
                continue
            seen = True
            chk.ob("group-offset", f"{c.name}.{m}", okp and oko, e.where, "the entry of a group's p-th feature must be found at (length of the groups before it) + p")
        elif cx or group_var(val):
            seen = True
            chk.ob("group-offset", f"{c.name}.{m}", False, e.where, "positions in the concatenated parts and original feature positions are exchanged")
    return seen


def table_merge(ctx, chk, c, m, v, r, fi):
    x = core(v)
    if opname(x) == "index_select" or x.k == "item" and x.a[1].k == "tuple" and not any(e.kind == "store_item" for e in r.events):
        if opname(x) == "index_select":
            src, ix = x.a[1][0], kwd(x).get("index") or x.a[1][2]
        else:
            src, ix = x.a[0], x.a[1].a[0][1]
        ix = core(ix)
        if opname(ix) == "argsort":
            chk.ob("merge-order", f"{c.name}.{m}", not contains(ix, lambda s: self_attr(s, "_inverse_order")), fi, "the concatenated parts must be gathered by the inverse order, not by its inverse")
            return
        if self_attr(ix):
            iv = init_value(ctx, c, ix.a[1])
            if iv is not None and not contains(iv, lambda s: cname(s) == "_compute_inverse_order") and opname(core(iv)) == "cat":
                chk.ob("merge-order", f"{c.name}.{m}", False, fi, "the concatenated parts are gathered by the split order instead of its inverse")
                return
            chk.ob("merge-order", f"{c.name}.{m}", True, fi)
            return
        chk.note(f"{c.name}.{m}: gather order not understood")
        return
    if not table_store(chk, c, m, r, fi, False):
        chk.note(f"{c.name}.{m}: merge not understood")


# ---------------------------------------------------------------------------------------------------------------
def scope_table(ctx, chk, c, kind):
    """feature_to_scope of a split: entry [p, i, r] is the scope of the p-th feature of part i"""
    fi = ctx.ix.find_method(c, "feature_to_scope")
    r = ctx.run(c, "feature_to_scope")
    for g, v in r.returns:
        if not live(g):
            continue
        x = core(v)
        if opname(x) != "stack":
            chk.note(f"{c.name}.feature_to_scope: assembly not understood")
            continue
        ap = appended(x.a[1][0])
        d = ival(kwd(x).get("dim") or kwd(x).get("axis") or (x.a[1][1] if len(x.a[1]) > 1 else const(0)))
        if not ap:
            chk.note(f"{c.name}.feature_to_scope: repetition loop not understood")
            continue
        chk.ob("scope-layout", f"{c.name}.feature_to_scope:repetitions", d in (2, -1), fi, "repetitions are the last axis of a scope table")
        rep, el = ap
        parts = {}

        def env(t):
            if isinstance(t, tuple):
                return None
            if opname(t) in ("array", "asarray", "stack", "column_stack") and t.a[1]:
                a2 = appended(t.a[1][0])
                if a2:
                    parts[t] = a2
                    if opname(t) == "stack":
                        ax = ival(kwd(t).get("dim") or kwd(t).get("axis") or const(0))
                        return [S_, F_] if ax == 0 else [F_, S_] if ax in (1, -1) else None
                    return [S_, F_] if opname(t) != "column_stack" else [F_, S_]
            if t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "feature_to_scope" and t.a[1].k == "tuple" and t.a[1].a[0][0].k == "slice" and all(is_const(y, None) for y in t.a[1].a[0][0].a) and kind in ORDER:
                return [ORDER[kind]]
            return None

        def size(t):
            t = bare(t)
            if is_nsplits(t):
                return "s"
            if opname(t) == "floordiv" and is_nsplits(t.a[1][1]):
                return "f"
            return None
        try:
            got = Lay(env, size).of(el)
            ok = got == [F_, S_]
            why = f"per repetition the table must be {fmt([F_, S_])} (position in part, part), is {fmt(got)}"
        except Scrambled as e:
            got, ok, why = 0, False, f"the table is re-cut across part borders ({e})"
        if got is None:
            chk.note(f"{c.name}.feature_to_scope: assembly not understood")
        else:
            chk.ob("scope-layout", f"{c.name}.feature_to_scope", ok, fi, why)
        for arr, (src, part) in parts.items():
            for a in alts(part):
                a = core(a)
                if opname(a) in ("cat", "concatenate") and a.a[1] and a.a[1][0].k in ("list", "tuple"):
                    a = a.a[1][0].a[0][0]
                if a.k == "phi":
                    continue
                if a.k != "item" or a.a[1].k != "tuple":
                    continue
                first, second = a.a[1].a[0][0], a.a[1].a[0][1] if len(a.a[1].a[0]) > 1 else None
                if second is not None and loopvar(second):
                    pass
                if kind == "table":
                    if first.k in ("slice",):
                        ok = False
                    else:
                        ok = is_group(first) or None
                        if ok is None and contains(first, lambda s: is_group(s)):
                            ok = False if (cname(first) in ("sorted", "set", "reversed") or opname(first) in ("sorted", "sort", "unique", "flip")) else None
                else:
                    pk = part_kind(tuple(first.a)) if first.k == "slice" else None
                    ok = None if pk is None else pk == kind
                if ok is None:
                    chk.note(f"{c.name}.feature_to_scope: a part's positions are not understood")
                else:
                    chk.ob("scope-parts", f"{c.name}.feature_to_scope:parts", ok, fi, f"the parts' scopes must be taken from the positions the {kind} split hands out")


# ---------------------------------------------------------------------------------------------------------------
def ctx_env(chan, rank):
    def env(t):
        if isinstance(t, tuple):
            return None
        if t.k == "attr" and t.a[1] in ("channel_index", "_channel_index"):
            return [B_, chan] + ([C_] if rank == 3 else [])
        if t.k == "attr" and t.a[1] in ("mask", "_mask"):
            return [B_, chan]
        return None
    return env


def diff_guard(guards):
    for cnd, p in guards:
        if cnd.k == "attr" and cnd.a[1] == "is_differentiable":
            return p
    return None


def update_layouts(ctx, c, m, dims):
    """feature layouts after the context update the method makes: list of (name, layout or None, where)"""
    r = ctx.run(c, m)
    out = []
    for e in r.events:
        if e.kind != "call" or e.name != "update":
            continue
        for nm in ("channel_index", "mask"):
            v = e.kwargs.get(nm)
            if v is None:
                continue
            for g, a in galts(v, tuple(e.guards)):
                if not live(g):
                    continue
                dg = diff_guard(g)
                for rank in (2, 3):
                    if dg is True and rank == 2 or dg is False and rank == 3 or nm == "mask" and rank == 3:
                        continue
                    try:
                        got = Lay(ctx_env(dims, rank), lambda t: "s" if is_nsplits(t) or t.k == "param" and t.a[1] == "num_splits" else "f" if opname(t) == "floordiv" else None).of(a)
                    except Scrambled:
                        got = "scrambled"
                    if got is None and dg is None and nm == "channel_index":
                        continue
                    if got not in (None, "scrambled"):
                        ok = len(got) == (rank if nm == "channel_index" else 2) and got[0] == B_ and (nm == "mask" or rank == 2 or got[2] == C_)
                        got = got[1] if ok else "scrambled"
                    out.append((nm, got, e.where))
    return out


def spread(ctx, chk, c, kind):
    """a split-width context handed to the split is spread over the input's features in the split's own order"""
    fi = ctx.ix.find_method(c, "_sample")
    r = ctx.run(c, "_sample")
    calls = [e for e in r.events if e.kind == "call" and e.recv is not None and e.recv.k == "param" and e.name in ("repeat_split_feature_width", "update", "scatter_split_groups_to_input_width")]
    if kind == "table":
        for e in calls:
            if e.name == "scatter_split_groups_to_input_width":
                ig = e.kwargs.get("index_groups")
                chk.ob("sample-spread", f"{c.name}._sample", ig is not None and self_attr(ig), e.where, "a split-width context must be scattered by the split's own index groups")
        return
    if not any(e.name == "repeat_split_feature_width" for e in calls):
        chk.note(f"{c.name}._sample: no spreading of split-width contexts found")
        return
    prim = update_layouts(ctx, ctx.SC, "repeat_split_feature_width", F_)
    state = {}
    for nm, got, w in prim:
        if got == "scrambled":
            chk.ob("sample-spread", f"{ctx.SC.name}.repeat_split_feature_width:{nm}", False, w, "a split-width context must be repeated once per part")
            return
        if nm in state and state[nm] != got:
            chk.ob("sample-spread", f"{ctx.SC.name}.repeat_split_feature_width:{nm}", False, w, "the differentiable and the index form of a context are repeated in different orders")
            return
        state[nm] = got
    if set(state) != {"channel_index", "mask"} or None in state.values():
        chk.note("repeat_split_feature_width: resulting order not understood")
        return
    final = {nm: [(g, None)] for nm, g in state.items()}
    later = [e for e in calls if e.name == "update" and e.seq > min(x.seq for x in calls if x.name == "repeat_split_feature_width")]
    if later:
        final = {"channel_index": [], "mask": []}
        for nm, got, w in update_layouts(ctx, c, "_sample", state["channel_index"]):
            final[nm].append((got, w))
        if state["channel_index"] != state["mask"]:
            final["mask"] = [(g, w) for nm, g, w in update_layouts(ctx, c, "_sample", state["mask"]) if nm == "mask"]
    for nm, gs in final.items():
        for got, w in gs:
            if got is None:
                chk.note(f"{c.name}._sample: order of {nm} not understood")
                continue
            chk.ob("sample-spread", f"{c.name}._sample:{nm}", got == ORDER[kind], w or fi, f"a split-width {nm} must be spread in the {kind} order {'*'.join(ORDER[kind])}, is {got if isinstance(got, str) else '*'.join(got)}")


def products(ctx, chk, kindmap):
    for c in ctx.modules():
        for m in ("map_out_channels_to_in_channels", "map_out_mask_to_in_mask"):
            fi = ctx.ix.find_method(c, m)
            if fi is None or c.name == "BaseProduct":
                continue
            r = ctx.run(c, m)
            for g, v in r.returns:
                if not live(g):
                    continue
                kind, is_split, diff = None, None, None
                for cnd, p in g:
                    if (cname(cnd) == "isinstance" or opname(cnd) == "isinstance") and p:
                        for s in walk(cnd):
                            nm = str(s.a[-1]).split(".")[-1] if s.k in ("class", "name", "global", "cls", "ref") or s.k == "classref" else None
                            if nm in kindmap:
                                kind = kindmap[nm]
                        if kind is None:
                            kind = next((k for n, k in kindmap.items() if n in show(cnd, 6)), None)
                    if self_attr(cnd, "input_is_split"):
                        is_split = p
                    if cname(cnd) == "is_floating_point" or opname(cnd) == "is_floating_point":
                        diff = p
                    elif cnd.k == "call" and cnd.a[0].k == "attr" and cnd.a[0].a[1] == "is_floating_point":
                        diff = p
                if is_split is None and kind is not None:
                    is_split = True
                if is_split is None or is_split and kind not in ORDER:
                    chk.note(f"{c.name}.{m}: a path without a known split kind is not analysed")
                    continue
                v = specialise(v, g)
                ids = [B_, F_] + ([C_] if diff and m != "map_out_mask_to_in_mask" else [])

                def env(t, ids=ids):
                    if isinstance(t, tuple):
                        return None
                    if t.k == "param" and t.a[1] in ("output_ids", "mask"):
                        return ids
                    if self_attr(t, "unraveled_channel_indices"):
                        return [("t",), S_]
                    if opname(t) in ("new_zeros", "zeros", "new_ones", "new_empty") and t.a[1]:
                        xs = [x for x in t.a[1] if x.k in ("tuple", "list")]
                        if xs and len(xs[0].a[0]) in (3, 4):
                            return [B_, F_, S_, C_][:len(xs[0].a[0])] if sized(xs[0].a[0]) else None
                    return None

                def sized(xs):
                    def pos(x, i):
                        x = bare(x)
                        return x.k == "item" and x.a[0].k == "attr" and x.a[0].a[1] == "shape" and ival(x.a[1]) == i or cname(x) == "size" and ival(x.a[1][-1]) == i
                    return pos(xs[0], 0) and pos(xs[1], 1) and not pos(xs[2], 0) and not pos(xs[2], 1)

                def size(t):
                    t = bare(t)
                    if is_nsplits(t) or (cname(t) == "len" or opname(t) == "len") and (self_attr(t.a[1][0], "inputs") or self_attr(t.a[1][0], "_child_channel_counts")):
                        return "s"
                    return None
                try:
                    got = Lay(env, size).of(v)
                except Scrambled as e:
                    chk.ob("product-routing", f"{c.name}.{m}", False, fi, f"routing positions scrambled ({e})")
                    continue
                if got is None:
                    chk.note(f"{c.name}.{m}: order of the routed positions not understood")
                    continue
                exp = [B_, ORDER[kind], ()] + ids[2:] if is_split else [B_, F_, S_] + ids[2:]
                chk.ob("product-routing", f"{c.name}.{m}", got == exp, fi, f"{'parts handed out ' + kind if is_split else 'one share per input'}: must be {fmt(exp)}, is {fmt(got)}")


def paired_layers(ctx, chk):
    """layers over one split input: the mask handed down is ordered by the same merge as the channels"""
    for c in ctx.modules():
        fi = ctx.ix.find_method(c, "_sample")
        if fi is None or not any(n in ("merge_split_tensors", "merge_split_indices") for n in [getattr(x, "attr", None) for x in __import__("ast").walk(fi.node)]):
            continue
        if c in splits(ctx):
            continue
        r = ctx.run(c, "_sample")
        for e in r.events:
            if e.kind != "call" or e.name not in ("with_routing", "update"):
                continue
            ch, mk = e.kwargs.get("channel_index"), e.kwargs.get("mask")
            if ch is None or mk is None:
                continue
            chm = [s for s in alts(ch) if cname(s) in ("merge_split_tensors", "merge_split_indices")]
            if not chm:
                continue
            recv = chm[0].a[0].a[0] if chm[0].a[0].k == "attr" else None
            for a in alts(mk):
                if cname(a) in ("merge_split_tensors", "merge_split_indices"):
                    ok = a.a[0].k == "attr" and a.a[0].a[0] is recv and len(a.a[1]) == len(chm[0].a[1])
                    chk.ob("mask-aligned", f"{c.name}._sample:mask", ok, e.where, "the mask is merged by another module or from another number of parts")
                    continue
                try:
                    got = Lay(ctx_env(F_, 2), lambda t: None).of(a)
                except Scrambled:
                    got = [B_, ("?", "?")]
                if got is None:
                    chk.note(f"{c.name}._sample: order of the mask not understood")
                    continue
                chk.ob("mask-aligned", f"{c.name}._sample:mask", False, e.where, f"the channels are merged in the order of the input's own split, the mask in the fixed order {fmt(got)}: they disagree for a split of another kind")


def pair_scopes(ctx, chk):
    """scope table of layers that combine feature pairs: from the parts of the split, or position f of either input"""
    for c in ctx.modules():
        fi = ctx.ix.find_method(c, "feature_to_scope")
        if fi is None or fi.cls is not c and getattr(fi, "owner", c) is not c:
            continue
        r = ctx.run(c, "feature_to_scope")
        for e in r.events:
            if e.kind != "call" or e.name != "join_all" or not e.args:
                continue
            a = bare(e.args[0])
            if a.k not in ("list", "tuple") or len(a.a[0]) != 2:
                continue
            its = list(a.a[0])
            if not all(x.k == "item" and x.a[1].k == "tuple" for x in its):
                continue
            srcs = [x.a[0] for x in its]
            pos = [list(x.a[1].a[0]) for x in its]
            if all(contains(s, lambda y: y.k == "attr" and y.a[1] == "feature_to_scope") for s in srcs):
                if srcs[0] is srcs[1]:
                    inner = srcs[0].a[0] if srcs[0].k == "attr" else None
                    raw = inner is not None and inner.k == "attr" and inner.a[1] == "inputs" and self_attr(inner.a[0], "inputs")
                    if raw:
                        chk.ob("pair-scope", f"{c.name}.feature_to_scope:one-input", False, e.where, f"positions {show(pos[0][0], 4)} and {show(pos[1][0], 4)} of the un-split input are joined whatever the split's order is")
                    elif len(pos[0]) == 3:
                        ok = pos[0][0] is pos[1][0] and loopvar(pos[0][0]) and {num(pos[0][1]), num(pos[1][1])} == {0, 1} and pos[0][2] is pos[1][2]
                        chk.ob("pair-scope", f"{c.name}.feature_to_scope:one-input", ok, e.where, "feature f joins position f of both parts")
                else:
                    ok = len(pos[0]) == len(pos[1]) == 2 and all(loopvar(y) for y in pos[0]) and pos[0][0] is pos[1][0] and pos[0][1] is pos[1][1]
                    chk.ob("pair-scope", f"{c.name}.feature_to_scope:two-inputs", ok, e.where, "feature f joins position f of both inputs, in the same repetition")


def product_scopes(ctx, chk):
    """scope table of products over split or several inputs: zip over the parts; a Cartesian product pairs features that are never multiplied"""
    for c in ctx.modules():
        fi = ctx.ix.find_method(c, "feature_to_scope")
        if fi is None or ctx.ix.find_method(c, "map_out_channels_to_in_channels") is None or c.name == "BaseProduct":
            continue
        r = ctx.run(c, "feature_to_scope")
        for e in r.events:
            if e.kind != "call" or e.name != "join_all" or not e.args or e.args[0].k != "elem":
                continue
            src = bare(e.args[0].a[0])
            nm = cname(src) or opname(src)
            st = src.a[1][0] if src.k in ("call", "op") and src.a[1] else None
            if nm == "zip" and st is not None and st.k in ("star", "starred"):
                ok = True
                for a in alts(st.a[0]):
                    ap = appended(a)
                    if not ap:
                        continue
                    so, el = ap
                    if el.k == "item" and el.a[1].k == "tuple" and len(el.a[1].a[0]) == 2 and any(loopvar(x) for x in el.a[1].a[0]):
                        p = el.a[1].a[0]
                        rg = src_range(so)
                        ok = ok and p[0].k == "slice" and all(is_const(y, None) for y in p[0].a) and loopvar(p[1]) and (rg is None or is_nsplits(rg))
                chk.ob("product-scope", f"{c.name}.feature_to_scope", ok, e.where, "feature f joins position f of every part")
            elif nm == "product":
                chk.ob("product-scope", f"{c.name}.feature_to_scope", False, e.where, "the scopes of all combinations of features are joined; the layer multiplies position f of every input")
            else:
                chk.note(f"{c.name}.feature_to_scope: grouping not understood")


# ---------------------------------------------------------------------------------------------------------------
def range_pairs(chk, rule, name, start, end, inc_of, where):
    """[start, end) are consecutive ranges: start the running sum of inc, end = start + inc"""
    cm = cumulative(start)
    if cm is None:
        if carried(start) or num(start) is not None:
            chk.ob(rule, name, False, where, "the ranges' starts must be the running sum of the inputs' widths")
        else:
            chk.note(f"{name}: range start not understood")
        return False
    src, inc = cm
    ok = inc_of(inc) and opname(end) == "add" and set(end.a[1]) == {start, inc}
    chk.ob(rule, name, bool(ok), where, "every range must start where the previous one ends and be as wide as its input")
    return bool(ok)


def cat_ranges(ctx, chk):
    for c in ctx.modules():
        fi = ctx.ix.find_method(c, "_sample")
        if fi is None:
            continue
        src = __import__("ast").dump(fi.node)
        if "slice_feature_ranges" not in src and "route_channel_offsets" not in src:
            continue
        r = ctx.run(c, "_sample")
        for e in r.events:
            if e.kind != "call":
                continue
            if e.name == "slice_feature_ranges":
                v = e.kwargs.get("ranges") or (e.args[0] if e.args else None)
                ap = appended(v) if v is not None else None
                if not ap or ap[1].k != "tuple" or len(ap[1].a[0]) != 2:
                    chk.note(f"{c.name}._sample: feature ranges not understood")
                    continue
                range_pairs(chk, "cat-ranges", f"{c.name}._sample:features", *ap[1].a[0], lambda i: width(i, "features"), e.where)
            if e.name == "route_channel_offsets":
                v = e.kwargs.get("child_channel_counts") or (e.args[0] if e.args else None)
                ap = appended(v) if v is not None else None
                if not ap:
                    chk.note(f"{c.name}._sample: channel counts not understood")
                    continue
                chk.ob("cat-ranges", f"{c.name}._sample:channels", width(ap[1], "channels") and self_attr(bare(ap[0]), "inputs"), e.where, "each input owns as many channels as it has, in input order")


def width(t, what):
    t = bare(t)
    return t.k == "attr" and t.a[1] == what and t.a[0].k == "attr" and t.a[0].a[1] == "out_shape" and (t.a[0].a[0].k in ("elem", "item"))


def primitives(ctx, chk):
    SC = ctx.SC
    # route_channel_offsets
    r = ctx.run(SC, "route_channel_offsets")
    fi = ctx.ix.find_method(SC, "route_channel_offsets")
    if fi is not None:
        for g, v in r.returns:
            if not live(g):
                continue
            ap = appended(v)
            if not ap or ap[1].k != "tuple" or len(ap[1].a[0]) != 2:
                chk.note("route_channel_offsets: returned list not understood")
                continue
            ch, mk = ap[1].a[0]
            offsets(chk, fi, ch, mk, ap[0])
    fi = ctx.ix.find_method(SC, "slice_feature_ranges")
    if fi is not None:
        for g, v in ctx.run(SC, "slice_feature_ranges").returns:
            ap = appended(v)
            if not ap or ap[1].k != "tuple" or len(ap[1].a[0]) != 2:
                chk.note("slice_feature_ranges: returned list not understood")
                continue
            for nm, x in zip(("channel_index", "mask"), ap[1].a[0]):
                x = core(x)
                sl = slice_parts(x.a[1]) if x.k == "item" else None
                if not isinstance(sl, tuple):
                    chk.note(f"slice_feature_ranges: {nm} not understood")
                    continue
                ok = x.a[0].k == "attr" and x.a[0].a[1].lstrip("_") == nm and range_end(sl[0], 0) and range_end(sl[1], 1) and (is_const(sl[2], None) or is_const(sl[2], 1))
                chk.ob("slice-range", f"{SC.name}.slice_feature_ranges:{nm}", ok, fi, f"the {nm} handed to a range's input must be exactly the features [start, end) of that range")
    fi = ctx.ix.find_method(SC, "scatter_split_groups_to_input_width")
    if fi is not None:
        r = ctx.run(SC, "scatter_split_groups_to_input_width")
        for e in r.events:
            if e.kind != "store_item" or e.idx is None or e.idx.k != "tuple" or e.term is None:
                continue
            ix = list(e.idx.a[0])
            dst = core(ix[1]) if len(ix) > 1 else None
            while dst is not None and opname(dst) in ("as_tensor", "tensor") and dst.a[1]:
                dst = dst.a[1][0]
            what = e.term.a[1].lstrip("_") if e.term.k == "attr" else None
            ok = dst is not None and dst.k == "elem" and bare(dst.a[0]).k == "param" and what in ("channel_index", "mask") and all(x.k == "slice" and all(is_const(y, None) for y in x.a) for x in ix[:1] + ix[2:])
            base = [s for s in walk(e.target) if opname(s) in ("new_zeros", "zeros_like", "zeros", "new_empty")] if e.target is not None else []
            if dst is None or not (dst.k == "elem" or dst.k in ("slice", "op", "const")):
                chk.note("scatter_split_groups: destination not understood")
                continue
            if dst.k == "op" and not opname(dst) in ("sort", "sorted", "flip", "arange"):
                chk.note("scatter_split_groups: destination not understood")
                continue
            chk.ob("scatter-groups", f"{SC.name}.scatter_split_groups_to_input_width:{what}", ok, e.where, "the p-th entry of a split-width context belongs to the p-th feature of every group")


def derived(ctx, chk):
    """a derived context stores exactly the channels and mask it was given and the parent's repetition"""
    SC = ctx.SC
    fi = ctx.ix.find_method(SC, "with_routing")
    if fi is None:
        return
    want = {"_channel_index": "channel_index", "_mask": "mask", "_repetition_index": "repetition_index"}
    pos = {"channel_index": 0, "mask": 1, "repetition_index": 2}
    for e in ctx.run(SC, "with_routing").events:
        if e.kind != "store_attr" or e.idx not in want or e.term is None:
            continue
        nm = want[e.idx]
        todo, bad = [e.term], None
        while todo:
            x = todo.pop()
            if x.k == "phi":
                todo += [x.a[1], x.a[2]]
            elif opname(x) in ("clone", "to", "long", "detach", "contiguous"):
                todo.append(x.a[1][0])
            elif cname(x) in ("clone", "to", "long", "detach", "contiguous") and x.a[0].k == "attr":
                todo.append(x.a[0].a[0])
            elif x.k == "item" and cname(x.a[0]) == "_normalize_routing_state" and ival(x.a[1]) is not None:
                k = kwd(x.a[0])
                if ival(x.a[1]) != pos[nm] or nm not in k:
                    bad = x
                else:
                    todo.append(k[nm])
            elif x.k == "param" and x.a[1] == nm or x.k == "attr" and x.a[0].k in ("self", "param") and x.a[1].lstrip("_") == nm and nm == "repetition_index" or is_const(x, None):
                pass
            elif x.k == "param" or opname(x) in ("zeros_like", "ones_like", "zeros", "ones", "flip", "roll", "not_") or x.k == "attr" and x.a[0].k == "self" or x.k == "op" and x.a[0] in ("add", "sub", "mul", "and_", "or_"):
                bad = x
            else:
                chk.note(f"with_routing: stored {nm} not understood")
        chk.ob("derived-routing", f"{SC.name}.with_routing:{nm}", bad is None, e.where, "" if bad is None else f"the derived context's {nm} becomes {show(bad, 4)}")


def range_end(t, n):
    if t.k == "item" and t.a[0].k == "elem" and ival(t.a[1]) == n:
        return True
    return t.k == "elem" and len(t.a) > 1 and t.a[1] == n


def offsets(chk, fi, ch, mk, src):
    """one (channel, mask) pair of route_channel_offsets"""
    nm = "SamplingContext.route_channel_offsets"

    def cidx(t):
        return t.k == "attr" and t.a[1].lstrip("_") == "channel_index"
    # differentiable: a slice of the one-hot axis
    sls = {s for s in walk(ch) if s.k == "item" and cidx(s.a[0])}
    if sls:
        for s in sls:
            parts = list(s.a[1].a[0]) if s.a[1].k == "tuple" else []
            last = parts[-1] if parts else None
            if last is None or last.k != "slice":
                chk.note(f"{nm}: one-hot slice not understood")
                continue
            st, en, sp = last.a
            if num(st) == 0 and opname(en) == "add" and any(is_const(x, 0) for x in en.a[1]):
                continue
            range_pairs(chk, "offset-ranges", f"{nm}:one-hot", st, en, lambda i: i.k == "elem" and bare(i.a[0]).k == "param", fi)
        got = {s for s in walk(mk) if s.k == "item" and cidx(s.a[0])}
        if got:
            chk.ob("offset-mask", f"{nm}:one-hot", got == sls, fi, "an input owns the entries whose mass lies in its own channel range")
        mass = [a for a in conj(mk) if not (a.k == "attr" and a.a[1].lstrip("_") == "mask")]
        chk.ob("offset-mask", f"{nm}:one-hot:mask", any(a.k == "attr" and a.a[1].lstrip("_") == "mask" for a in conj(mk)) and len(mass) <= 1, fi, "requested entries owned by the input, and nothing else, stay requested")
        return
    # index form
    subs = {s for s in walk(ch) if opname(s) == "sub" and len(s.a[1]) == 2 and cidx(s.a[1][0])}
    cmps = [a for a in conj(mk) if opname(a) in ("le", "lt", "ge", "gt")]
    if not cmps:
        chk.note(f"{nm}: ownership test not understood")
        return
    lows = [a for a in cmps if opname(a) in ("le", "lt") and cidx(a.a[1][1])]
    highs = [a for a in cmps if opname(a) in ("le", "lt") and cidx(a.a[1][0])]
    other = [a for a in conj(mk) if a not in lows and a not in highs and not (a.k == "attr" and a.a[1].lstrip("_") == "mask")]
    if len(lows) != 1 or len(highs) != 1:
        if other or len(lows) > 1 or len(highs) > 1:
            chk.ob("offset-mask", f"{nm}:index:mask", not other, fi, "requested entries in the input's channel range, and nothing else, stay requested")
        else:
            chk.note(f"{nm}: ownership test not understood")
        return
    low, high = lows[0].a[1][0], highs[0].a[1][1]
    chk.ob("offset-mask", f"{nm}:index:bounds", opname(lows[0]) == "le" and opname(highs[0]) == "lt", fi, "an input owns the channels start <= id < end")
    chk.ob("offset-mask", f"{nm}:index:mask", not other and any(a.k == "attr" and a.a[1].lstrip("_") == "mask" for a in conj(mk)), fi, "requested entries in the input's channel range, and nothing else, stay requested")
    range_pairs(chk, "offset-ranges", f"{nm}:index", low, high, lambda i: i.k == "elem" and bare(i.a[0]).k == "param", fi)
    for a in alts(ch):
        x = core(a)
        if opname(x) == "where":
            x = core(x.a[1][1])
        if opname(x) == "sub":
            chk.ob("offset-local", f"{nm}:index", cidx(x.a[1][0]) and x.a[1][1] is low, fi, "the input's own channel is the global channel minus the start of its range")
        elif cidx(x):
            chk.ob("offset-local", f"{nm}:index", False, fi, "the global channel is handed on without subtracting the start of the input's range")


def conj(t):
    t = core(t)
    if opname(t) in ("and_", "logical_and", "and", "mul") and t.a[1]:
        return [y for x in t.a[1] for y in conj(x)]
    return [t]


# ---- wrappers that permute the features of their input by a stored permutation ----
class Opaque(Exception):
    pass


PASS_ = {"to", "contiguous", "clone", "detach", "numpy", "cpu", "long", "int"}


def stripp(t):
    while t.k == "op" and t.a[0] in PASS_ and t.a[1]:
        t = t.a[1][0]
    return t


def perm_of(t):
    """('perm', attribute) | ('inv', attribute) of an index term"""
    t = stripp(t)
    if t.k == "attr" and t.a[0].k == "self":
        return ("perm", t.a[1])
    if t.k == "op" and t.a[0] == "argsort" and t.a[1]:
        b = perm_of(t.a[1][0])
        return ("inv" if b[0] == "perm" else "perm", b[1])
    raise Opaque(show(t, 3))


def words(t, g, source):
    """(guards, steps) alternatives: what happens to the feature axis (dim 1; dim 0 of scope tables) of the source"""
    out = []
    for g1, x in galts(t, g):
        x = stripp(x)
        if x.k == "phi":
            out += words(x, g1, source)
            continue
        if source(x):
            out.append((g1, ()))
            continue
        if x.k == "item":
            ix = x.a[1]
            parts = list(ix.a[0]) if ix.k == "tuple" else [ix]
            ax = source(None)
            if len(parts) <= ax or any(p.k != "slice" or any(isinstance(q, T) and not is_const(q, None) for q in p.a) for i, p in enumerate(parts) if i != ax):
                raise Opaque(show(x, 3))
            p = parts[ax]
            if p.k == "slice":
                end = slice_end(p)
                step = () if end is None else (("cut", end),)
                out += [(a, b + step) for a, b in words(x.a[0], g1, source)]
            else:
                for g2, q in galts(p, g1):
                    out += [(a, b + (perm_of(q),)) for a, b in words(x.a[0], g2, source)]
            continue
        if opname(x) == "index_select" and len(x.a[1]) == 3 and num(x.a[1][1]) == source(None):
            out += [(a, b + (perm_of(x.a[1][2]),)) for a, b in words(x.a[1][0], g1, source)]
            continue
        if x.k == "op" and x.a[0] in ("repeat_e", "expand", "repeat", "repeat_interleave"):
            out += [(a, b + (("spread",),)) for a, b in words(x.a[1][0], g1, source)]
            continue
        if x.k == "store":
            ix = list(x.a[1].a[0]) if x.a[1].k == "tuple" else [x.a[1]]
            end = slice_end(ix[source(None)]) if len(ix) > source(None) else None
            z = opname(x.a[0]) in ("new_zeros", "zeros", "zeros_like") or opname(x.a[0]) in ("new_full", "full", "full_like") and num(x.a[0].a[1][-1]) == 0
            out += [(a, b + (("place", end, z, x.a[0]),)) for a, b in words(x.a[2], g1, source)]
            continue
        raise Opaque(show(x, 3))
    return out


def slice_end(p):
    """'head' for [:n], 'tail' for [-n:], None for everything"""
    if p.k != "slice" or not is_const(p.a[2], None):
        raise Opaque(show(p, 3))
    if is_const(p.a[0], None) or num(p.a[0]) == 0:
        return None if is_const(p.a[1], None) else "head"
    if is_const(p.a[1], None) and opname(p.a[0]) == "neg":
        return "tail"
    raise Opaque(show(p, 3))


def tri(t, v):
    """truth of a condition for a small assignment; None = not determined"""
    if t.k == "op" and t.a[0] in ("and", "or", "not"):
        xs = [tri(a, v) for a in t.a[1]]
        if t.a[0] == "not":
            return None if xs[0] is None else not xs[0]
        d = t.a[0] == "or"
        return d if d in xs else None if None in xs else not d
    if t.k == "op" and t.a[0] in ("is", "eq", "isnot", "ne") and len(t.a[1]) == 2 and any(is_const(a, None) for a in t.a[1]):
        o = [a for a in t.a[1] if not is_const(a, None)]
        if o and o[0].k == "attr" and o[0].a[0].k == "self" and o[0].a[1] in v["perms"]:
            return (not v["set"]) == (t.a[0] in ("is", "eq"))
        return None
    if t.k == "op" and t.a[0] in ("eq", "ne", "lt", "le", "gt", "ge") and len(t.a[1]) == 2:
        def val(x):
            if num(x) is not None:
                return num(x)
            w = x.k == "attr" and x.a[1] or None
            if contains(x, lambda y: y.k == "attr" and y.a[1] in ("channel_index", "_channel_index", "mask", "_mask")):
                return v["w"] if x.k == "item" and num(x.a[1]) == 1 or opname(x) == "size" else None
            if w == "features":
                o = x.a[0]
                if o.k == "attr" and o.a[0].k == "self" and o.a[1] in ("in_shape", "_in_shape") or contains(o, lambda y: y.k == "attr" and y.a[1] == "inputs"):
                    return v["in"]
                if o.k == "attr" and o.a[0].k == "self" and o.a[1] in ("out_shape", "_out_shape"):
                    return v["out"]
            if x.k == "attr" and x.a[0].k == "self" and w in v["outs"]:
                return v["out"]
            return None
        a, b = val(t.a[1][0]), val(t.a[1][1])
        if a is None or b is None:
            return None
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[t.a[0]]
    return None


def cases(guards, perms, outs):
    """assignments (input width, output width, context width, permutation present) the conditions do not exclude"""
    for i, o in ((1, 1), (2, 2), (2, 4), (4, 4), (1, 4), (3, 4)):
        for w in sorted({1, i, o}):
            for st in (True, False):
                v = {"in": i, "out": o, "w": w, "set": st, "perms": perms, "outs": outs}
                if all(tri(c, v) in (None, p) for c, p in guards):
                    yield v


def packing(ctx, chk):
    for c in ctx.modules():
        fi = ctx.ix.find_method(c, "log_likelihood")
        if fi is None or fi.cls is not c or ctx.ix.find_method(c, "_sample") is None:
            continue

        def is_ll(x):
            return 1 if x is None else x.k == "call" and cname(x) == "log_likelihood"
        r = ctx.run(c, "log_likelihood")
        try:
            ws = [w for g, v in r.returns for w in words(v, tuple(g), is_ll)]
        except (Opaque, TypeError, ValueError, IndexError, AttributeError):
            continue
        ps = {s[1] for _, w in ws for s in w if s[0] in ("perm", "inv")}
        if not ps:
            continue
        con = c.name
        # the attributes' meaning: which constructor values they hold
        init = ctx.run(c, "__init__")
        held = {}
        for e in init.events:
            if e.kind == "call" and e.name == "register_buffer" and len(e.args) > 1 and e.args[0].k == "const":
                held[e.args[0].a[0]] = e.args[1]
            elif e.kind == "store_attr" and e.target is not None and e.target.k == "self":
                held[e.idx] = e.term
        outs = {k for k, v in held.items() if isinstance(v, T) and v.k == "param" and "target" in k}
        base = sorted(ps)[0]

        def same(a, b):
            return a is b or repr(a) == repr(b)
        rel = {base: "perm"}
        for k, v in held.items():
            if isinstance(v, T) and k != base:
                for _, x in galts(v):
                    if opname(x) == "argsort" and held.get(base) is not None and any(same(x.a[1][0], y) for _, y in galts(held[base])):
                        rel[k] = "inv"
        p0 = held.get(base)
        pname = p0.a[1] if isinstance(p0, T) and p0.k == "param" else None
        others = {v.a[1]: k for k, v in held.items() if isinstance(v, T) and v.k == "param" and k != base}
        for f in ctx.ix.functions.values():
            if not any(isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", None)) == c.name for n in ast.walk(f.node)) or pname is None:
                continue
            rr = ctx.run(f.cls, f.name) if f.cls is not None else ctx.run_func(f, None)
            for e in rr.events:
                if e.kind != "call" or e.name != c.name or pname not in e.kwargs:
                    continue
                for pn, at in others.items():
                    q = e.kwargs.get(pn)
                    if q is None or not contains(q, lambda x: opname(x) == "argsort") and not any(x is y for _, x in galts(q) for _, y in galts(e.kwargs[pname]) if not is_const(x, None)):
                        continue
                    okk = True
                    for g, x in galts(q):
                        if is_const(x, None):
                            continue
                        mate = [y for g2, y in galts(e.kwargs[pname]) if not any((cc, not b) in g for cc, b in g2)]
                        okk = okk and opname(x) == "argsort" and len(x.a[1]) == 1 and not dict(x.a[2]) and any(same(x.a[1][0], y) for y in mate)
                    chk.ob("inverse-permutation", f"{f.qual.split('spflow.')[-1]}:{c.name}", okk, e.where, f"{pn} must be the inverse (argsort) of {pname}")
                    rel[at] = "inv"
        perms = set(rel)

        def norm(w):
            """steps with every gather written against the base permutation"""
            o = []
            for s in w:
                if s[0] in ("perm", "inv"):
                    k = rel.get(s[1])
                    if k is None:
                        raise Opaque(f"self.{s[1]}")
                    o.append(("perm" if (s[0] == "perm") == (k == "perm") else "inv",))
                else:
                    o.append((s[0],))
            return tuple(o)

        def gathers_(w):
            return [s[0] for s in norm(w) if s[0] in ("perm", "inv")]
        ok_ll = all(gathers_(w) == (["perm"] if v["set"] else []) for g, w in ws for v in cases(g, perms, outs))
        chk.ob("permutation-applied", f"{con}.log_likelihood", ok_ll, f"{fi.path}:{fi.node.lineno}" if hasattr(fi, "path") else "", "the stored permutation is applied once to the features")
        ends = {s[1] for _, w in ws for s in w if s[0] == "place"}
        for _, w in ws:
            for s in w:
                if s[0] == "place":
                    chk.ob("padding-neutral", f"{con}.log_likelihood", s[2], "", "positions without an input feature contribute log-likelihood 0")
        for k, v in held.items():
            if isinstance(v, T) and "scope" in k and v.k == "store" and v.a[1].k == "tuple" and ends:
                try:
                    end = slice_end(v.a[1].a[0][0])
                    chk.ob("padding-position", f"{con}.{k}", end in ends, "", "scopes of the input features are placed where their likelihoods are")
                except Opaque as z:
                    chk.note(f"{con}.{k}: {z}")
        # scope table
        ft = ctx.ix.find_method(c, "feature_to_scope")
        if ft is not None:
            tr = ctx.run(c, "feature_to_scope")

            def is_tab(x):
                return 0 if x is None else x.k == "attr" and (x.a[0].k == "self" or x.a[1] == "feature_to_scope")
            try:
                bad = [1 for g, v in tr.returns for g1, w in words(v, tuple(g), is_tab) for cs in cases(g1, perms, outs) if gathers_(w) != (["perm"] if cs["set"] else [])]
                chk.ob("scope-permuted", f"{con}.feature_to_scope", not bad, con, "the scope table is permuted like the likelihoods")
            except Opaque as e:
                chk.note(f"{con}.feature_to_scope: {e}")
        # sampling
        sr = ctx.run(c, "_sample")
        evs = sr.events
        for e in evs:
            if e.kind != "call" or e.name != "_sample" or e.recv is None:
                continue
            for nm in ("channel_index", "mask"):
                def is_src(x, nm=nm):
                    return 1 if x is None else x.k == "attr" and x.a[1] in (nm, "_" + nm)
                vals = [(tuple(s.guards), s.term) for s in evs if s.kind == "store_attr" and s.idx == nm and s.seq < e.seq]
                vals += [(tuple(s.guards), s.kwargs[nm]) for s in evs if s.kind == "call" and s.name in ("update", "with_routing") and nm in s.kwargs and s.seq < e.seq]
                vals = [(g, v) for g, v in vals if set(g) <= set(e.guards)]
                try:
                    alt = [(g, w) for g0, v in vals[-1:] for g, w in words(v, tuple(dict.fromkeys(g0 + tuple(e.guards))), is_src)] if vals else [(tuple(e.guards), ())]
                    bad = None
                    for g, w in alt:
                        for v in cases(g, perms, outs):
                            if v["w"] != v["out"] or v["out"] == 1:
                                continue
                            n = [s[0] for s in norm(w)]
                            want = (["inv"] if v["set"] else [])
                            got = [s for s in n if s in ("perm", "inv")]
                            cuts = {q[1] for q in w if q[0] == "cut"}
                            if ends and cuts and cuts != ends:
                                bad = bad or f"the input features sit at the {sorted(ends)} of the padded axis, {nm} is cut at the {sorted(cuts)}"
                            if got != want or v["out"] > v["in"] and "cut" not in n or "cut" in n and "inv" in n and n.index("cut") < n.index("inv"):
                                bad = bad or f"with {v['w']} routed features, {v['in']} input features, {v['out']} output features and " + ("a" if v["set"] else "no") + f" permutation, {nm} goes through {n or 'unchanged'}"
                    chk.ob("permutation-undone", f"{con}._sample:{nm}", bad is None, e.where, bad or "routing of the permuted features goes through the inverse permutation")
                except Opaque as z:
                    chk.note(f"{con}._sample: {nm} {z}")


def routing(ctx, chk):
    """the sampling side (also run by P12)"""
    kindmap = {}
    for c in splits(ctx):
        try:
            ks = {k for k, _, _ in kinds(ctx, chk, c)} - {"any", None}
        except SAFE as e:
            chk.note(f"{c.name}: parts not analysed ({type(e).__name__}: {e})")
            continue
        if len(ks) == 1 and (k := ks.pop()) != "broken":
            kindmap[c.name] = k
    for c in splits(ctx):
        k = kindmap.get(c.name)
        if k is None:
            continue
        for f in (merges, spread):
            try:
                f(ctx, chk, c, k)
            except SAFE as e:
                chk.note(f"{c.name}: {f.__name__} not analysed ({type(e).__name__}: {e})")
        if k == "table":
            try:
                for m in ("_compute_inverse_order",):
                    fi = ctx.ix.find_method(c, m)
                    if fi is not None:
                        table_store(chk, c, m, ctx.run(c, m), fi, True)
            except SAFE as e:
                chk.note(f"{c.name}: inverse order not analysed ({type(e).__name__}: {e})")
    for f in (lambda: products(ctx, chk, kindmap), lambda: paired_layers(ctx, chk), lambda: cat_ranges(ctx, chk), lambda: primitives(ctx, chk), lambda: derived(ctx, chk),
              lambda: factor_table(ctx, chk), lambda: packing(ctx, chk)):
        try:
            f()
        except SAFE as e:
            chk.note(f"routing part not analysed ({type(e).__name__}: {e})")
    return kindmap


def check(ctx, chk):
    kindmap = routing(ctx, chk)
    for c in splits(ctx):
        for k, w, g in kinds(ctx, chk, c):
            if k is None:
                chk.note(f"{c.name}.log_likelihood: parts not understood under {[(show(a, 3), p) for a, p in g]}")
            else:
                chk.ob("split-parts", f"{c.name}.log_likelihood", k == "any" or k == kindmap.get(c.name), w, "every branch must hand out the parts in the same order, every feature exactly once")
        k = kindmap.get(c.name)
        if k is not None:
            try:
                scope_table(ctx, chk, c, k)
            except SAFE as e:
                chk.note(f"{c.name}: scope table not analysed ({type(e).__name__}: {e})")
    from .image_grid import spatial, kernels
    for f in (pair_scopes, product_scopes, spatial, kernels):
        try:
            f(ctx, chk)
        except SAFE as e:
            chk.note(f"{f.__name__} not analysed ({type(e).__name__}: {e})")
    chk.floor("split-parts", 2)


# ---- factorisation tables (one 0/1 table i x o x r decides which input feature each output owns) ----
FAX = {"indices": ("i", "o", "r"), "sampling_indices": ("i", "o", "r"), "sampling_feature_owners": ("i", "r")}
KEEP = {"to", "contiguous", "clone", "copy", "bool", "detach", "numpy", "cpu", "gt", "lt", "ne", "long", "float", "int", "double", "type", "type_as", "cuda"}


class Mismatch(Exception):
    pass


def nax(t):
    """axis names of a tensor in the routing code of a factorisation table; None = not understood"""
    if t.k == "attr":
        if t.a[0].k == "self" and t.a[1] in FAX:
            return FAX[t.a[1]]
        n = t.a[1].lstrip("_")
        if t.a[0].k == "param" and n in ("channel_index", "mask", "repetition_index"):
            return {"channel_index": ("b", "o", "c"), "mask": ("b", "o"), "repetition_index": ("b", "r")}[n]
        return None
    if t.k == "call" and canon_name(t) == "log_likelihood":
        return ("b", "i", "c", "r")
    if t.k == "item" and is_const(t.a[1], 0) and value_contains(t.a[0], lambda x: x.k == "call" and canon_name(x) == "log_likelihood"):
        return ("b", "i", "c", "r")
    if t.k == "phi":
        xs = {nax(x) for x in t.a[1:]}
        return xs.pop() if len(xs) == 1 else None
    if t.k != "op" or not t.a[1]:
        return None
    n = t.a[0]
    if n in KEEP:
        xs = [x for x in t.a[1] if num(x) is None]
        return nax(xs[0]) if xs else None
    if n == "einsum":
        eq = [x for x in t.a[1] if x.k == "const" and isinstance(x.a[0], str)]
        if not eq or "->" not in eq[0].a[0]:
            return None
        l, r = eq[0].a[0].replace(" ", "").split("->")
        lets = {}
        for spec, x in zip(l.split(","), [x for x in t.a[1] if x is not eq[0]]):
            a = nax(x)
            if a is None:
                return None
            if len(a) != len(spec):
                raise Mismatch(f"{spec} does not fit axes {a}")
            for c, q in zip(spec, a):
                if lets.setdefault(c, q) != q:
                    raise Mismatch(f"letter {c} pairs the {q} axis with the {lets[c]} axis")
        inv = {}
        for c, q in lets.items():
            if inv.setdefault(q, c) != c:
                raise Mismatch(f"the {q} axes of two factors are not matched ({inv[q]}, {c})")
        return tuple(lets.get(c) for c in r)
    return None


def canon_name(t):
    return str(t.a[0].a[-1]).split(".")[-1] if t.k == "call" and isinstance(t.a[0], T) else None


def axis_of(t, i=1):
    k = kwd(t)
    d = k.get("dim") if k.get("dim") is not None else t.a[1][i] if len(t.a[1]) > i else None
    return int(num(d)) if d is not None and num(d) is not None else None


def plain(t):
    while t.k == "op" and t.a[0] in KEEP and (xs := [x for x in t.a[1] if num(x) is None]):
        t = xs[0]
    return t


def owner_index(t):
    """is t the [b, i] table of owning outputs for each row's repetition? True / False / None"""
    t = plain(t)
    if opname(t) in ("transpose", "permute", "t", "T", "swapaxes"):
        x = plain(t.a[1][0])
        return False if owner_index(x) is True else True if raw_owner(x) else None
    if raw_owner(t):
        return False
    return None


def raw_owner(x):
    """index_select(owners, dim=1, repetition) = [i, b], or owners[:, repetition]"""
    if opname(x) == "index_select":
        ix = kwd(x).get("index") or (x.a[1][2] if len(x.a[1]) > 2 else None)
        return self_attr(plain(x.a[1][0]), "sampling_feature_owners") and axis_of(x) == 1 and ix is not None and contains(ix, lambda q: q.k == "attr" and q.a[1].lstrip("_") == "repetition_index")
    if x.k == "item" and x.a[1].k == "tuple" and len(x.a[1].a[0]) == 2:
        a, b = x.a[1].a[0]
        return self_attr(plain(x.a[0]), "sampling_feature_owners") and a.k == "slice" and contains(b, lambda q: q.k == "attr" and q.a[1].lstrip("_") == "repetition_index")
    return False


def factor_table(ctx, chk, forward=True):
    for c in ctx.modules():
        f = ctx.ix.find_method(c, "_sample")
        if f is None or f.cls is not c:
            continue
        con = c.name
        init = ctx.run(c, "__init__")
        bufs = {}
        for e in init.events:
            if e.kind == "call" and e.name == "register_buffer" and len(e.args) >= 2 and e.args[0].k == "const":
                bufs[e.args[0].a[0]] = (e.args[1], e.where)
        if not {"indices", "sampling_indices"} <= set(bufs):
            continue
        base = plain(bufs["indices"][0])
        okt = plain(bufs["sampling_indices"][0])
        chk.ob("factor-table", f"{con}:sampling", okt is base or self_attr(okt, "indices"), bufs["sampling_indices"][1], "sampling must use the factorisation of the forward pass")
        if "sampling_feature_owners" in bufs:
            o, w = bufs["sampling_feature_owners"]
            o = plain(o)
            ok = opname(o) == "argmax" and axis_of(o) == 1 and (plain(o.a[1][0]) is base or self_attr(plain(o.a[1][0]), "sampling_indices") or self_attr(plain(o.a[1][0]), "indices"))
            if opname(o) == "argmax":
                chk.ob("factor-table", f"{con}:owners", ok, w, "the owner of an input feature is the output (table axis 1) holding its one")
        r = ctx.run(c, "_sample")
        for e in r.events:
            if e.kind != "call" or e.name not in ("with_routing", "update", "_sample"):
                continue
            for k in ("channel_index", "mask"):
                if k not in e.kwargs:
                    continue
                for t in alts(e.kwargs[k]):
                    t = plain(t)
                    want = ("b", "i", "c") if k == "channel_index" else ("b", "i")
                    try:
                        if opname(t) == "einsum":
                            got = nax(t)
                        elif opname(t) == "gather":
                            x = nax(t.a[1][0])
                            ix = kwd(t).get("index") or (t.a[1][2] if len(t.a[1]) > 2 else None)
                            ow = owner_index(ix) if ix is not None else None
                            if ow is None or x is None:
                                got = None
                            else:
                                chk.ob("factor-routing", f"{con}:{k}:gather", ow and axis_of(t) == 1 and contains(t.a[1][0], lambda q: q.k == "attr" and q.a[1].lstrip("_") == k), e.where,
                                       "each input feature takes the entry of the output owning it in the row's repetition")
                                continue
                        else:
                            got = nax(t)
                    except Mismatch as m:
                        chk.ob("factor-routing", f"{con}:{k}", False, e.where, f"routing over the factorisation table: {m}")
                        continue
                    if got is None:
                        chk.note(f"{con}: routing of {k} not understood")
                        continue
                    chk.ob("factor-routing", f"{con}:{k}", got == want and contains(t, lambda q: q.k == "attr" and q.a[1].lstrip("_") == k), e.where, f"routed {k} must have axes {want}, has {got}")
        if not forward:
            continue
        r = ctx.run(c, "log_likelihood")
        fi = ctx.ix.find_method(c, "log_likelihood")
        for g, v in r.returns:
            for t in alts(v):
                try:
                    got = nax(t)
                except Mismatch as m:
                    chk.ob("factor-forward", con, False, fi, str(m))
                    continue
                if got is None:
                    chk.note(f"{con}: forward contraction not understood")
                    continue
                chk.ob("factor-forward", con, got == ("b", "o", "c", "r") and contains(t, lambda q: self_attr(q, "indices")), fi, f"the contraction must sum the input features of each output within a repetition, axes {got}")
        fi = ctx.ix.find_method(c, "feature_to_scope")
        if fi is not None and fi.cls is c:
            r = ctx.run(c, "feature_to_scope")
            for e in r.events:
                if e.kind != "store_item" or e.idx is None or e.idx.k != "tuple" or len(e.idx.a[0]) != 2 or not (opname(e.term) == "reduce" or cname(e.term) == "reduce" or cname(e.term) == "join_all"):
                    continue
                o_, r_ = e.idx.a[0]
                sel = [x for x in walk(e.term) if x.k == "item" and x.a[0].k == "attr" and x.a[0].a[1] == "feature_to_scope" and x.a[1].k == "tuple"]
                if len(sel) != 1:
                    continue
                m_, r2 = sel[0].a[1].a[0]
                tab = [x for x in walk(m_) if x.k == "item" and x.a[1].k == "tuple" and len(x.a[1].a[0]) == 3]
                if len(tab) != 1:
                    continue
                i3, o3, r3 = tab[0].a[1].a[0]
                chk.ob("factor-scope", con, r2 is r_ and r3 is r_ and o3 is o_ and i3.k == "slice", e.where, "an output's scope joins the input scopes its own table column selects, in its own repetition")
