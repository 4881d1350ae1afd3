"""Routing of channel and repetition choices while sampling."""
from ..lib import *
from .. import tree
from ..axes import Axes, canon_ll
from .p07 import mix_classes, new_axes, paxes
from .p11 import choose, sites, weighty, refuses_evidence

ID = "P12"
TITLE = "Sampling draws from exactly the component, channel and repetition routed to"
EXPL = ("Named-axis inference over the sampling code of every mixture layer and leaf: gathers by the requested channel act on the axis that becomes the layer's output channels in its likelihood, "
        "gathers by the requested repetition on the repetition axis, both are applied before choosing; the chosen index is stored as the inputs' channel (or repetition) according to the axis of the inputs' "
        "likelihood it ranges over; the draw is over the last axis; the i-th input receives the i-th share of the routing.")
ASSUME = ("gather/index helpers select along the given axis",)
HELPERS = ("repeat_channel_index", "repeat_repetition_index", "rearrange", "to_one_hot")


def source(t, d=0):
    """which context index a routing term carries: subset of {'channel_index','repetition_index','sampled'}"""
    if d > 80 or shape_only(t):
        return set()
    if t.k == "attr" and t.a[1] in ("channel_index", "_channel_index"):
        return {"channel_index"}
    if t.k == "attr" and t.a[1] in ("repetition_index", "_repetition_index"):
        return {"repetition_index"}
    if t.k == "call" and isinstance(t.a[0], T):
        nm = str(t.a[0].a[-1]).split(".")[-1]
        k = kwd(t)
        if nm in ("repeat_channel_index", "repeat_repetition_index"):
            a = k.get("channel_index") or k.get("repetition_index") or (t.a[1][0] if t.a[1] else None)
            return source(a, d + 1) if a is not None else set()
        if nm in ("sample_from_logits", "sample_categorical_differentiably", "SIMPLE"):
            return {"sampled"}
        if nm in ("slice_sampling_context", "_slice_sampling_context"):
            return {"slice"}
        if nm == "index_tensor":
            return source(k["index"], d + 1) if "index" in k else set()
        if nm in ("route_channel_offsets", "slice_feature_ranges"):
            return {"channel_index"}
        return set().union(set(), *[source(x, d + 1) for x in list(t.a[1]) + [v for _, v in t.a[2] if isinstance(v, T)]])
    if t.k == "item":
        s = source(t.a[0], d + 1)
        if s == {"slice"}:
            return {"channel_index"} if is_const(t.a[1], 0) else set()
        return s or source(t.a[1], d + 1)
    if t.k == "phi":
        return source(t.a[1], d + 1) | source(t.a[2], d + 1)
    if t.k == "op":
        if t.a[0] == "argmax":
            return {"sampled"}
        if t.a[0] in ("rearrange", "repeat_e", "reduce_e"):
            return source(t.a[1][0], d + 1)
        return set().union(set(), *[source(x, d + 1) for x in t.a[1]])
    if t.k in ("store",):
        return source(t.a[2], d + 1) | source(t.a[0], d + 1)
    if t.k in ("elem", "val", "starred", "star"):
        return source(t.a[0], d + 1)
    if t.k in ("tuple", "list"):
        return set().union(set(), *[source(x, d + 1) for x in t.a[0]])
    if t.k == "comp" and isinstance(t.a[1], T):
        return source(t.a[1], d + 1)
    return set()


def gathers(r):
    """(term, gathered tensor, dim, index) for index_tensor / gather used anywhere in a run"""
    seen = set()
    for e in r.events:
        pool = list(e.args) + list(e.kwargs.values()) + ([e.term] if e.term is not None else [])
        for x in pool:
            if not isinstance(x, T):
                continue
            for t in walk(x):
                if t in seen:
                    continue
                seen.add(t)
                k = kwd(t) if t.k in ("call", "op") else {}
                if t.k == "call" and isinstance(t.a[0], T) and str(t.a[0].a[-1]).split(".")[-1] in ("index_tensor", "index_one_hot"):
                    a = list(t.a[1])
                    tn = k.get("tensor") or (a[0] if a else None)
                    ix = k.get("index") or (a[1] if len(a) > 1 else None)
                    dm = k.get("dim") or (a[2] if len(a) > 2 else None)
                    if tn is not None and ix is not None and dm is not None and dm.k == "const":
                        yield t, tn, dm.a[0], ix
                elif t.k == "op" and t.a[0] == "gather" and t.a[1]:
                    ix = k.get("index") or (t.a[1][-1] if len(t.a[1]) > 1 else None)
                    dm = k.get("dim")
                    if ix is not None and dm is not None and dm.k == "const":
                        yield t, t.a[1][0], dm.a[0], ix


def check(ctx, chk):
    tree.run(ctx, chk, False)
    try:
        from .image_grid import routed
        routed(ctx, chk)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as e:
        chk.note(f"image grids not analysed ({type(e).__name__}: {e})")
    ix = ctx.ix
    for c in mix_classes(ctx):
        g = ix.find_method(c, "log_weights") or ix.find_method(c, "weights")
        gr = ctx.run(c, g.name)
        ps = [x for x in value_walk(gr.value) if self_attr(x) and "logits" in x.a[1]]
        if not ps:
            continue
        P = ps[0]
        ax = new_axes(ctx, c, P)
        a = ax.of(ctx.run(c, "log_likelihood").value)
        r = ctx.run(c, "_sample")
        f = ix.find_method(c, "_sample")
        W = f"{f.file}:{f.line}"
        if a is None or len(a) != 4 or refuses_evidence(ctx, c, r):
            continue
        CH, RP = paxes(a[2], P), paxes(a[3], P)
        got = {"channel_index": set(), "repetition_index": set()}
        for t, tn, dm, idx in gathers(r):
            s = source(idx)
            if not s & set(got):
                continue
            sel = ax.axis(choose(tn, True), dm)
            if not sel:
                continue
            con = f"{c.name}._sample"
            p = paxes(sel, P)
            lls = {i for b, i in sel if b.k == "LL"}
            if s == {"channel_index"}:
                got["channel_index"] |= p
                if c.name and p:
                    chk.ob("channel-axis", con, p <= CH, W, f"the requested channel selects parameter axes {sorted(p)}, output channels are {sorted(CH)}")
                if lls and not p:
                    chk.ob("channel-axis", con, lls <= {2}, W, f"the requested channel selects axis {sorted(lls)} of the inputs' likelihood")
            if s == {"repetition_index"}:
                got["repetition_index"] |= p
                if p:
                    chk.ob("repetition-axis", con, p <= RP, W, f"the requested repetition selects parameter axes {sorted(p)}, repetitions are {sorted(RP)}")
                if lls and not p:
                    chk.ob("repetition-axis", con, lls == {3}, W, f"the requested repetition selects axis {sorted(lls)} of the inputs' likelihood")
        chk.ob("channel-selected", f"{c.name}._sample", CH <= got["channel_index"], W,
               f"the weights of the requested output channel must be selected (axes {sorted(CH)}, selected {sorted(got['channel_index'])})")
        chk.ob("repetition-selected", f"{c.name}._sample", RP <= got["repetition_index"], W,
               f"the weights of the requested repetition must be selected (axes {sorted(RP)}, selected {sorted(got['repetition_index'])})")
        # what the drawn index means
        for e in r.events:
            if e.kind != "call" or e.name != "sample_from_logits":
                continue
            lg, d = e.kwargs.get("logits"), e.kwargs.get("dim")
            if lg is None or d is None or d.k != "const":
                continue
            al = ax.of(lg)
            chk.ob("draw-last-axis", f"{c.name}._sample", d.a[0] == -1 or al is not None and d.a[0] == len(al) - 1, e.where,
                   "categorical draws are over the last axis; arg-max must use the same")
            lls = ll_axes(ax, choose(lg, True), d.a[0])
            dest = set()
            for k in r.events:
                if k.kind == "call" and k.name == "update_channel_index_strict" and len(k.args) > 1 and reaches(k.args[1], e.term):
                    dest.add("channel_index")
                if k.kind == "call" and k.name in ("with_routing", "update"):
                    for n in ("channel_index", "repetition_index"):
                        if n in k.kwargs and reaches(k.kwargs[n], e.term):
                            dest.add(n)
                if k.kind == "store_attr" and k.idx in ("channel_index", "repetition_index", "_channel_index", "_repetition_index") and reaches(k.term, e.term):
                    dest.add(k.idx.lstrip("_"))
            if lls == {2}:
                chk.ob("chosen-index", f"{c.name}._sample", dest == {"channel_index"}, e.where, f"the chosen input channel must become the inputs' channel (stored as {sorted(dest)})")
            elif lls == {3}:
                chk.ob("chosen-index", f"{c.name}._sample", dest == {"repetition_index"}, e.where, f"the chosen repetition must become the inputs' repetition (stored as {sorted(dest)})")
    # per-input shares
    for c in ctx.modules():
        if ctx.Leaf in ix.mro(c):
            continue
        f = ix.find_method(c, "_sample")
        if f is None or f.cls is ctx.Module:
            continue
        r = ctx.run(c, "_sample")
        for e in r.events:
            if e.kind != "call" or e.name != "_sample" or e.recv is None:
                continue
            sc = e.kwargs.get("sampling_ctx")
            if sc is None:
                continue
            rc = e.recv
            if narrow_broadcast(ctx, c):
                ci = routing_values(sc).get("channel_index")
                if ci is not None:
                    chk.ob("broadcast-input-channel", f"{c.name}._sample", any(s.k == "phi" and contains(s.a[0], lambda q: q.k == "attr" and q.a[1] == "channels") for s in walk(ci)), e.where,
                           "log_likelihood broadcasts one-channel inputs over all channels; when sampling such an input only has channel 0")
            if rc.k == "item" and rc.a[1].k == "const" and self_attr(rc.a[0], "inputs") and isinstance(rc.a[1].a[0], int):
                n = rc.a[1].a[0]
                used = shares(sc)
                if used:
                    chk.ob("input-share", f"{c.name}._sample:inputs[{n}]", used == {n}, e.where, f"input {n} is routed by share {sorted(used)}")
            elif rc.k == "item" and self_attr(rc.a[0], "inputs") or rc.k == "elem" and self_attr(bare_seq(rc.a[0]), "inputs"):
                key = rc.a[1] if rc.k == "item" else None
                mine = (lambda s: s is key) if key is not None else (lambda s: s.k == "idx" and bare_seq(s.a[0]) is bare_seq(rc.a[0]))
                vals = routing_values(sc)
                if "mask" in vals and "sampled" in source(vals["mask"]):
                    chk.ob("input-share", f"{c.name}._sample:each:mask", any(mine(s) for s in value_walk(vals["mask"])), e.where, "an input may be asked only for the entries that chose it")
                elif any(any(mine(s) for s in share_walk(v)) for v in vals.values()):
                    for n, v in vals.items():
                        own = any(mine(s) for s in share_walk(v))
                        fixed = any(s.k == "item" and s.a[1].k == "const" and isinstance(s.a[1].a[0], int) and s.a[0].k in ("comp", "phi", "list", "call")
                                    or s.k == "op" and s.a[0] == "select" and kwd(s).get("index", s).k == "const" for s in share_walk(v))
                        chk.ob("input-share", f"{c.name}._sample:each:{n}", own or not fixed, e.where, "each input must receive its own share of the routing")
                        for sel in share_walk(v):
                            sx = kwd(sel).get("index") if sel.k == "op" and sel.a[0] == "select" else sel.a[1] if sel.k == "item" and sel.a[0].k in ("comp", "phi", "list", "call") else None
                            if sx is not None and sx.k in ("op", "call") and any(mine(s) for s in walk(sx)) and not mine(sx):
                                chk.ob("input-share", f"{c.name}._sample:each:{n}", False, e.where, f"input i must receive share i, receives share {show(sx, 3)}")
                elif any(s.k == "idx" or s.k == "op" and s.a[0] == "select" or s.k == "item" and s.a[0].k == "comp" for v in vals.values() for s in share_walk(v)):
                    chk.ob("input-share", f"{c.name}._sample:each", False, e.where, "each input must receive its own share of the routing")
    leaves(ctx, chk)
    try:
        flat_tables(ctx, chk)
        outer_order(ctx, chk)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as e:
        chk.note(f"flat channel tables not analysed ({type(e).__name__}: {e})")
    try:
        extents(ctx, chk)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as e:
        chk.note(f"extents: source shape not analysed ({type(e).__name__}: {e})")
    from .p09 import routing
    try:
        routing(ctx, chk)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as e:
        chk.note(f"feature order of splits, products and concatenations not analysed ({type(e).__name__}: {e})")
    chk.floor("channel-selected", 5)
    chk.floor("chosen-index", 2)


def letters(pat):
    return pat.split()


def extents(ctx, chk):
    """an index that selects along one axis covers every entry of the other axes"""
    from ..ip import uncast
    seen = set()
    for c in ctx.modules():
        f = ctx.ix.find_method(c, "_sample")
        if f is None or f.qual in seen:
            continue
        seen.add(f.qual)
        r = ctx.run(c, "_sample")
        ok, n = True, 0
        for e in r.events:
            for t in [e.term] + list(e.args or ()) + list((e.kwargs or {}).values()):
                if not isinstance(t, T):
                    continue
                for g in walk(t):
                    if not (g.k == "op" and g.a[0] == "gather" and g.a[1]):
                        continue
                    src = g.a[1][0]
                    if not (src.k == "op" and src.a[0] in ("repeat_e", "rearrange") and "pattern" in kwd(src) and kwd(src)["pattern"].k == "const"):
                        continue
                    l2, r2 = (letters(x) for x in kwd(src)["pattern"].a[0].split("->"))
                    W = src.a[1][0]
                    W0 = W.a[0] if W.k == "item" and W.a[1].k == "tuple" and len(W.a[1].a[0]) == 2 and "Ellipsis" in repr(W.a[1].a[0][0]) else None
                    for ix in alts(kwd(g).get("index", g.a[1][-1])):
                        if not (ix.k == "op" and ix.a[0] == "repeat_e" and kwd(ix).get("pattern", NONE).k == "const"):
                            continue
                        ri = letters(kwd(ix)["pattern"].a[0].split("->")[1])
                        if len(ri) != len(r2) or "(" in "".join(ri + r2 + l2):
                            continue
                        for a, v in kwd(ix).items():
                            v = uncast(v)
                            while v.k == "call" and v.a[1] and str(v.a[0].a[-1]) == "int":
                                v = uncast(v.a[1][0])
                            if a == "pattern" or a not in ri or not (v.k == "item" and v.a[0].k == "attr" and v.a[0].a[1] == "shape" and num(v.a[1]) is not None):
                                continue
                            Y, k = v.a[0].a[0], int(num(v.a[1]))
                            L = r2 if Y is src or Y == src else l2 if Y is W or Y == W or W0 is not None and (Y is W0 or Y == W0) else None
                            if L is None or not -len(L) <= k < len(L) or k < 0 and Y is W0:
                                continue
                            n += 1
                            ok = ok and L[k] == r2[ri.index(a)]
        if n:
            chk.ob("index-extent", f"{f.cls.name}._sample", ok, f"{f.file}:{f.line}", f"{n} index extents" if ok else "an index built to select from the weights does not extend over all of their other axes")


_TAB = {}


def strip(t):
    while t.k == "op" and t.a[0] in CAST | {"tensor", "as_tensor", "long"} and t.a[1]:
        t = t.a[1][0]
    return t


def pair_tables(ctx, c):
    """attributes built in the constructor that decode a flat channel: {attr: ('pairs', comp term)} and {attr: ('hot', column, size)}"""
    if c.qual in _TAB:
        return _TAB[c.qual]
    out = {}
    r = ctx.run(c, "__init__")
    bufs = []
    for e in r.events if r is not None else ():
        if e.kind == "call" and e.name == "register_buffer":
            n = e.kwargs.get("name") or (e.args[0] if e.args else NONE)
            v = e.kwargs.get("tensor") or (e.args[1] if len(e.args) > 1 else None)
            if n.k == "const" and v is not None:
                bufs.append((n.a[0], v, e))
        elif e.kind == "store_attr" and e.target is not None and e.target.k == "self" and isinstance(e.idx, str) and e.term is not None:
            bufs.append((e.idx, e.term, e))
    for n, v, e in bufs:
        t = strip(v)
        if t.k == "comp" and t.a[0] == "list" and t.a[1].k == "tuple" and len(t.a[2]) == 2 and len(t.a[1].a[0]) == 2:
            out[n] = ("pairs", t, e)
    for n, v, e in bufs:
        t = strip(v)
        if t.k == "op" and t.a[0] == "one_hot" or t.k == "call" and isinstance(t.a[0], T) and str(t.a[0].a[-1]).endswith("one_hot"):
            x = t.a[1][0] if t.a[1] else NONE
            if x.k == "item" and x.a[1].k == "tuple" and x.a[1].a[0][-1].k == "const":
                b = strip(x.a[0])
                src = b if b.k == "comp" else out[b.a[1]][1] if b.k == "attr" and b.a[1] in out and out[b.a[1]][0] == "pairs" else None
                if src is not None:
                    out[n] = ("hot", x.a[1].a[0][-1].a[0], kwd(t).get("num_classes") or (t.a[1][1] if len(t.a[1]) > 1 else None), src, e)
    _TAB[c.qual] = out
    return out


def range_of(t):
    if t.k == "call" and isinstance(t.a[0], T) and str(t.a[0].a[-1]).split(".")[-1] == "range" and len(t.a[1]) == 1:
        return t.a[1][0]
    if t.k == "op" and t.a[0] == "range" and len(t.a[1]) == 1:
        return t.a[1][0]
    return None


def columns_used(t, tabs):
    """which columns of a decoding table a routing term reads"""
    out = set()
    for x in share_walk(t):
        if x.k == "attr" and x.a[0].k == "self" and tabs.get(x.a[1], ("",))[0] == "hot":
            out.add(tabs[x.a[1]][1])
        if x.k == "item" and value_contains(x.a[0], lambda s: s.k == "attr" and s.a[0].k == "self" and tabs.get(s.a[1], ("",))[0] == "pairs"):
            i = x.a[1]
            if i.k == "tuple" and i.a[0] and i.a[0][-1].k == "const" and isinstance(i.a[0][-1].a[0], int):
                out.add(i.a[0][-1].a[0])
        if x.k == "op" and x.a[0] == "select" and kwd(x).get("index", NONE).k == "const" and value_contains(x.a[1][0], lambda s: s.k == "attr" and tabs.get(s.a[1], ("",))[0] == "pairs"):
            out.add(kwd(x)["index"].a[0])
    return out


def flat_tables(ctx, chk):
    """a flat channel is taken apart the way the likelihood put it together"""
    ix = ctx.ix
    for c in ctx.modules():
        f = ix.find_method(c, "_sample")
        if f is None or f.cls is ctx.Module:
            continue
        tabs = pair_tables(ctx, c)
        pairs = {n: v for n, v in tabs.items() if v[0] == "pairs"}
        if not pairs:
            continue
        con = f"{c.name}.__init__"
        init = ctx.run(c, "__init__")
        ws = [e.term for e in init.events if e.kind == "store_attr" and e.target is not None and e.target.k == "self" and e.idx == "weights_shape" and e.term is not None and e.term.k == "tuple"]
        pos = {}
        for n, (_, t, e) in pairs.items():
            elt, srcs = t.a[1].a[0], t.a[2]
            if not all(x.k == "elem" and x.a[0] in srcs for x in elt):
                chk.note(f"{con}: decoding table not recognised")
                continue
            chk.ob("flat-order", f"{con}:{n}", [srcs.index(x.a[0]) for x in elt] == [0, 1], e.where, "flat channels enumerate the first component slowest; the table must list its pairs in that order")
            ex = [range_of(x) for x in srcs]
            for k, x in enumerate(elt):
                pos[k] = ex[srcs.index(x.a[0])]
            if ws and all(x is not None for x in ex):
                w = list(ws[0].a[0])
                at = [[i for i, y in enumerate(w) if y == pos[k]] for k in (0, 1)]
                if all(at):
                    chk.ob("flat-order", f"{con}:{n}:sizes", any(b == a + 1 for a in at[0] for b in at[1]), e.where, "the components of a flat channel must be the weights' neighbouring axes, in order")
        for n, v in tabs.items():
            if v[0] == "hot":
                if v[2] is not None and v[1] in pos and pos[v[1]] is not None and v[2].k != "const":
                    chk.ob("flat-order", f"{con}:{n}", v[2] == pos[v[1]], v[4].where, "a one-hot decoder must have as many columns as the component it decodes")
        # each column of the table selects the axis it stands for
        r = ctx.run(c, "_sample")
        g = ix.find_method(c, "log_weights") or ix.find_method(c, "weights")
        gr = ctx.run(c, g.name) if g is not None else None
        ps = [x for x in value_walk(gr.value) if self_attr(x) and "logits" in x.a[1]] if gr is not None and gr.value is not None else []
        if ps and ws:
            P = ps[0]
            ax = new_axes(ctx, c, P)
            w = list(ws[0].a[0])
            ax.of(ctx.run(c, "log_likelihood").value)
            for t, tn, dm, idx in gathers(r):
                if source(idx) != {"channel_index"}:
                    continue
                for gd, ixx in galts(idx)[:8]:
                    used = columns_used(ixx, tabs)
                    if len(used) != 1:
                        continue
                    k = next(iter(used))
                    sel = ax.axis(choose(tn, True), dm)
                    p = paxes(sel, P) if sel else set()
                    if p and pos.get(k) is not None:
                        chk.ob("flat-column", f"{c.name}._sample", all(w[i] == pos[k] for i in p if i < len(w)), f"{f.file}:{f.line}", f"component {k} of a flat channel selects the weights' axis {sorted(p)}, which has another size and meaning")
        # what an input is asked for is the component that counts the inputs' channels
        if pos and all(v is not None for v in pos.values()):
            mine = [k for k in pos if contains(pos[k], lambda s: s.k == "attr" and s.a[1] in ("channels",) and contains(s, lambda q: q.k == "param" and q.a[-1] == "inputs"))]
            if len(mine) == 1:
                for e in r.events:
                    if e.kind == "call" and e.name == "_sample" and e.recv is not None and e.kwargs.get("sampling_ctx") is not None:
                        ci = routing_values(e.kwargs["sampling_ctx"]).get("channel_index")
                        used = columns_used(ci, tabs) if ci is not None else set()
                        if used:
                            chk.ob("flat-column", f"{c.name}._sample:inputs", used == set(mine), e.where, f"the inputs' channel is component {mine[0]} of the flat channel, but component {sorted(used)} is handed on")
        flat_patterns(ctx, chk, c)


def flat_patterns(ctx, chk, c):
    """axes merged into a flat channel keep their order"""
    for name in ("log_likelihood", "_expectation_maximization_step"):
        f = ctx.ix.find_method(c, name)
        if f is None:
            continue
        r = ctx.run(c, name)
        ok, n, where = True, 0, f"{f.file}:{f.line}"
        for t in {x for e in r.events for y in [e.term] + list(e.args or ()) + list((e.kwargs or {}).values()) if isinstance(y, T) for x in walk(y)}:
            if t.k == "op" and t.a[0] in ("rearrange", "repeat_e", "reduce_e") and kwd(t).get("pattern", NONE).k == "const":
                import re
                l, _, rr = kwd(t)["pattern"].a[0].partition("->")
                for a, b in ((l, rr), (rr, l)):
                    for grp in re.findall(r"\(([^()]*)\)", a):
                        names = grp.split()
                        flatb = b.replace("(", " ").replace(")", " ").split()
                        if len(names) > 1 and all(x in flatb for x in names):
                            n += 1
                            ok = ok and [x for x in flatb if x in names] == names
        if n:
            chk.ob("flat-order", f"{c.name}.{name}", ok, where, "the axes merged into the flat channel axis must keep the order the decoding table assumes")


def outer_order(ctx, chk):
    """products over all channel combinations: the likelihood lets the last input vary fastest, as the decoding table does"""
    for c in ctx.modules():
        f = ctx.ix.find_method(c, "log_likelihood")
        if f is None or f.cls is not c:
            continue
        r = ctx.run(c, "log_likelihood")
        if r is None or r.value is None:
            continue
        tab = [(e.kwargs.get("tensor") or e.args[-1], e) for e in ctx.run(c, "__init__").events if e.kind == "call" and e.name == "register_buffer" and (e.args or e.kwargs)]
        tab = [(strip(v), e) for v, e in tab]
        for v, e in tab:
            while v.k == "call" and isinstance(v.a[0], T) and str(v.a[0].a[-1]).split(".")[-1] in ("list", "tuple") and v.a[1]:
                v = v.a[1][0]
            if not (v.k == "call" and isinstance(v.a[0], T) and str(v.a[0].a[-1]).split(".")[-1] == "product"):
                continue
            rev = any(s.k == "call" and isinstance(s.a[0], T) and str(s.a[0].a[-1]).split(".")[-1] == "reversed" or s.k == "slice" and any(isinstance(x, T) and num(x) == -1 for x in s.a)
                      for s in walk(v))
            chk.ob("flat-order", f"{c.name}.__init__", not rev, e.where, "the table of channel combinations must list the inputs in order")
            for t in walk(r.value):
                if t.k == "op" and t.a[0] == "add" and len(t.a[1]) == 2:
                    d = {}
                    for x in t.a[1]:
                        if x.k == "op" and x.a[0] == "unsqueeze":
                            k = kwd(x).get("dim") or (x.a[1][1] if len(x.a[1]) > 1 else NONE)
                            y = x.a[1][0]
                            lc = not (y.k == "item" and y.a[1].k in ("elem", "idx") or y.k == "elem")
                            if num(k) is not None:
                                d["acc" if lc else "new"] = num(k)
                    if len(d) == 2:
                        chk.ob("flat-order", f"{c.name}.log_likelihood", d["acc"] > d["new"], f"{f.file}:{f.line}", "the accumulated channels must vary slower than those of the next input, as in the decoding table")


def narrow_broadcast(ctx, c):
    """does the likelihood repeat one-channel inputs over several channels?"""
    r = ctx.run(c, "log_likelihood")
    return r is not None and r.value is not None and any(
        s.k == "phi" and contains(s.a[0], lambda q: q.k == "attr" and q.a[1] == "channels") and contains(s.a[0], lambda q: is_const(q, 1))
        and value_contains(s, lambda q: q.k == "op" and q.a[0] in ("repeat_e", "repeat", "expand") and canon_ll(core(q.a[1][0])).k == "LL")
        for s in value_walk(r.value))


def ll_axes(ax, t, dim):
    """axes of the inputs' likelihoods a dimension ranges over, in any configuration"""
    conds = []
    for s in value_walk(t):
        if s.k == "phi" and s.a[0] not in conds and s.a[0].k not in ("sym",) and value_contains(s, lambda x: canon_ll(x).k == "LL"):
            conds.append(s.a[0])
    out = set()
    for g, x in split_on(t, conds[:4]):
        sel = ax.axis(x, dim)
        out |= {i for b, i in sel or () if b.k == "LL"}
    return out


def bare_seq(t):
    while t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] in ("list", "tuple", "enumerate") and t.a[1]:
        t = t.a[1][0]
    return t


def routed(sc):
    """subterms of the routing values in a derived context"""
    for x in value_walk(sc):
        if x.k == "call" and isinstance(x.a[0], T) and str(x.a[0].a[-1]) == "with_routing":
            for n, v in x.a[2]:
                yield from walk(v, into=lambda s: not shape_only(s) and not (s.k == "call" and isinstance(s.a[0], T) and "sample_" in str(s.a[0].a[-1])))


def share_walk(v):
    return walk(v, into=lambda s: not shape_only(s) and not (s.k == "call" and isinstance(s.a[0], T) and "sample_" in str(s.a[0].a[-1])))


def routing_values(sc):
    out = {}
    for x in value_walk(sc):
        if x.k == "call" and isinstance(x.a[0], T) and str(x.a[0].a[-1]) == "with_routing":
            for n, v in x.a[2]:
                if isinstance(v, T):
                    out[n] = v
            break
    return out


def shares(sc):
    """positions/left-right selections used in a routing term"""
    out = set()
    for x in routed(sc):
        if x.k == "attr" and isinstance(x.a[1], str):
            if "left" in x.a[1]:
                out.add(0)
            if "right" in x.a[1]:
                out.add(1)
        if x.k == "item" and value_contains(x.a[0], lambda s: s.k == "attr" and "unravel" in str(s.a[1])):
            i = x.a[1]
            if i.k == "tuple" and i.a[0] and i.a[0][-1].k == "const" and isinstance(i.a[0][-1].a[0], int):
                out.add(i.a[0][-1].a[0])
    return out


def reaches(t, s):
    return s is not None and value_contains(t, lambda x: x is s)


def leaves(ctx, chk):
    """leaf draws: repetition first from the last axis, channel from the channel axis"""
    ix = ctx.ix
    seen = set()
    for c in ctx.leaves():
        f = ix.find_method(c, "_sample")
        if f is None or f.qual in seen:
            continue
        seen.add(f.qual)
        r = ctx.run(c, "_sample")
        W = f"{f.file}:{f.line}"
        got = set()
        terms = [e.term for e in r.events if e.term is not None]
        ax = Axes()
        ax.learn_ranks(terms)
        for t, tn, dm, idx in gathers(r):
            s = source(idx)
            if s not in ({"channel_index"}, {"repetition_index"}):
                continue
            n = next(iter(s))
            got.add(n)
            sels = []
            for g, alt in galts(tn)[:16]:
                a = ax.of(alt)
                sel = ax.axis(alt, dm) if a is not None else None
                if sel and a is not None:
                    # base (features, channels, repetitions) value, possibly with leading batch axis
                    base = {b for b, i in sel}
                    ranks = {ax.ranks.get(b) for b in base}
                    sels += [(b, i) for b, i in sel]
                    for b, i in sel:
                        rk = ax.ranks.get(b)
                        if rk is None:
                            continue
                        want = rk - 1 if n == "repetition_index" else rk - 2
                        chk.ob("leaf-axis", f"{f.cls.name}._sample:{n}", i == want, W, f"{n} selects axis {i} of {show(b, 2)}, expected {want}")
            if not sels:
                nested = any(t2.k == "call" and source(kwd(t2).get("index", T("const", None))) == {"repetition_index"} for _, al in galts(tn)[:16] for t2 in [al] if t2.k == "call")
                want = {-1, 3, 4} if n == "repetition_index" else {2, -1, 3}
                chk.ob("leaf-axis", f"{f.cls.name}._sample:{n}", dm in want, W, f"{n} selects axis {dm}")
        # direct subscripts of the parameter table: names from the einops patterns on the same table
        for t in {x for e in r.events if e.term is not None for x in walk(e.term)}:
            if t.k == "item" and t.a[1].k == "tuple" and self_attr(t.a[0]):
                names = table_axes(ctx, c, t.a[0])
                for i, x in enumerate(t.a[1].a[0]):
                    s = source(x)
                    for key, nm in (("c", "channel_index"), ("r", "repetition_index")):
                        if s == {nm}:
                            got.add(nm)
                            if key in names:
                                chk.ob("leaf-axis", f"{f.cls.name}._sample:{nm}", names[key] == i, W, f"{nm} indexes axis {i} of {show(t.a[0])}, whose {nm[:-6]} axis is {names[key]}")
        chk.ob("leaf-routed", f"{f.cls.name}._sample", got == {"channel_index", "repetition_index"}, W, f"leaf samples must be selected by channel and repetition (got {sorted(got)})")


def table_axes(ctx, c, p):
    out = {}
    r = ctx.run(c, "log_likelihood")
    from ..axes import parse_pattern
    for e in r.events:
        if e.term is None:
            continue
        for x in walk(e.term):
            if x.k == "op" and x.a[0] == "rearrange" and x.a[1]:
                b, off, i = x.a[1][0], 0, None
                if b.k == "item" and b.a[0] is p and b.a[1].k != "tuple":
                    off = 1
                elif b is not p:
                    continue
                pt = kwd(x).get("pattern")
                if pt is not None and pt.k == "const":
                    l, _ = parse_pattern(pt.a[0])
                    for j, g in enumerate(l):
                        if len(g) == 1:
                            out.setdefault(g[0], j + off)
    return out
