"""Sampling contexts hold consistent routing state; invalid state is rejected before anything is stored."""
import ast
from ..lib import *
from ..absdom import *
from ..terms import *
from .p35 import raise_conds

ID = "P14"
TITLE = "Sampling contexts reject inconsistent routing and change wholly or not at all"
EXPL = ("Abstract interpretation of the validation code of SamplingContext over a finite domain of tensor ranks, sizes, dtype classes, devices and index ranges: every listed inconsistent routing must reach a raise "
        "before the first attribute store, every consistent one must pass and store the normalised state; dataflow rules for what a derived context inherits and copies; typestate rule that every module validates "
        "the context against its own output shape before using it.")
ASSUME = ("torch tensor attribute semantics",)
B, F, C, R = 2, 3, 4, 5


def state(d):
    if d:
        return dict(_channel_index=Ten((B, F, C), "float", "cpu", (0.5, 0.5, 0.5)), _mask=Ten((B, F), "bool", "cpu", (True, True, False)),
                    _repetition_index=Ten((B, R), "float", "cpu", (0.5,)), is_differentiable=True, is_mpe=False, tau=1.0, device="cpu", return_leaf_params=False)
    return dict(_channel_index=Ten((B, F), "long", "cpu", (0, 1, 1)), _mask=Ten((B, F), "bool", "cpu", (True, True, False)),
                _repetition_index=Ten((B,), "long", "cpu", (1,)), is_differentiable=False, is_mpe=False, tau=1.0, device="cpu", return_leaf_params=False)


def valid(d):
    s = state(d)
    return dict(channel_index=s["_channel_index"], mask=s["_mask"], repetition_index=s["_repetition_index"])


def perturbed(d):
    """(name, field changes) of routings that are inconsistent, for one sampling mode"""
    v = valid(d)
    ci, m, r = v["channel_index"], v["mask"], v["repetition_index"]
    out = []
    for sh in ([(B, F), (B,), (B, F, C, 1)] if d else [(B,), (B, F, C), ()]):
        out.append((f"channel index of rank {len(sh)}", dict(channel_index=ci.with_(shape=sh))))
    for dt in (("long", "bool", "int", "complex") if d else ("float", "bool", "complex", "double")):
        out.append((f"{dt} channel index", dict(channel_index=ci.with_(dt=dt))))
    for dt in ("long", "float", "int"):
        out.append((f"{dt} mask", dict(mask=m.with_(dt=dt))))
    for sh, n in (((B,), "rank"), ((B, F, 1), "rank"), ((B + 1, F), "batch size"), ((1, F), "batch size"), ((B, F + 1), "width"), ((B, 1), "width")):
        out.append((f"mask of wrong {n} {sh}", dict(mask=m.with_(shape=sh))))
    out.append(("mask on another device", dict(mask=m.with_(dev="cuda"))))
    out.append(("channel index on another device", dict(channel_index=ci.with_(dev="cuda"))))
    out += [(n, dict(repetition_index=x)) for n, x in bad_reps(d, r)]
    return out


def bad_reps(d, r):
    out = []
    for sh in ([(B,), (B, R, 1)] if d else [(), (B, 1, 1)]):
        out.append((f"repetition index of rank {len(sh)}", r.with_(shape=sh)))
    for dt in (("long", "bool", "int", "complex") if d else ("float", "bool", "complex")):
        out.append((f"{dt} repetition index", r.with_(dt=dt)))
    out.append(("repetition index of wrong batch size", r.with_(shape=(B + 1,) + r.shape[1:])))
    out.append(("repetition index of batch size one", r.with_(shape=(1,) + r.shape[1:])))
    out.append(("repetition index on another device", r.with_(dev="cuda")))
    if not d:
        out += [("two repetition columns", r.with_(shape=(B, 2))), ("as many repetition columns as samples", r.with_(shape=(1, B)))]
    return out


def check(ctx, chk):
    ix = ctx.ix
    SC = ctx.SC
    dep = {"sampling_opaque": False}
    unk = []

    def judge1(f, r, prm, at, rule, what, must):
        """must: True (has to be rejected), False (has to be accepted)"""
        ab = Abs(prm, at)
        o = judge(r.events, ab)
        if o.raised is None and o.maybe:
            unk.append((f.qual, what))
            return None
        sub = f"{f.qual}:{what}"
        if must:
            chk.ob(rule, sub, o.raised is not None and (o.late is None or f.name == "__init__"), f.file + f":{f.line}",
                   (f"{what} must be rejected before anything is stored, but " + (f"it is rejected at {o.late.where} after {[s[0].idx for s in o.stores if s[2]]} was stored" if o.late is not None
                    else "no check rejects it")))
        else:
            chk.ob(rule, sub, o.raised is None, o.raised.where if o.raised is not None else f.file + f":{f.line}", f"{what} is consistent and must be accepted, but is rejected here")
        return o

    def stored(o, name):
        v = [s for s in o.stores if s[0].idx == name and s[2]]
        return v[-1][1] if v else None

    def sname(d):
        return "differentiable" if d else "plain"

    def m(name, setter=False):
        f = ix.find_setter(SC, name) if setter else ix.find_method(SC, name)
        if f is None:
            raise AnalysisError(f"SamplingContext.{name} vanished")
        return f, ctx.run_func(f, SC, **dep)

    # ---- update / with_routing / constructor: the three tensors are checked as a unit
    for name in ("update", "with_routing", "__init__"):
        f, r = m(name)
        for d in (False, True):
            base = valid(d)
            opts = dict(is_mpe=False, is_differentiable=d, tau=1.0, return_leaf_params=False, num_samples=None, device=None, leaf_param_records=None, clone_routing=True, clone_repetition=True)
            cases_ = [("a consistent routing", {}, False)] + [(n, ch, True) for n, ch in perturbed(d)]
            if name == "with_routing":
                cases_ = [c for c in cases_ if "repetition_index" not in c[1]]
            if not d:
                cases_.append(("an int32 channel index", dict(channel_index=base["channel_index"].with_(dt="int")), False))
                if name != "with_routing":
                    cases_.append(("an int32 repetition index", dict(repetition_index=base["repetition_index"].with_(dt="int")), False))
                    cases_.append(("a single repetition column", dict(repetition_index=base["repetition_index"].with_(shape=(B, 1))), False))
            if name == "update":
                cases_.append(("no repetition index", dict(repetition_index=None), False))
            if name == "__init__":
                cases_ += [("no repetition index", dict(repetition_index=None), False), ("no mask", dict(mask=None), False),
                           ("a tau of zero", dict(tau=0.0), True), ("a negative tau", dict(tau=-1.0), True), ("no channel index", dict(channel_index=None), True),
                           ("neither samples nor channel index", dict(channel_index=None, mask=None, repetition_index=None), True),
                           ("a device other than the routing's", dict(device="cuda"), True), ("the routing's own device", dict(device="cpu"), False)]
                for k in ("channel_index", "mask", "repetition_index"):
                    only = dict(channel_index=None, mask=None, repetition_index=None)
                    only[k] = base[k]
                    cases_.append((f"num_samples together with {k}", dict(only, num_samples=2), True))
                cases_.append(("num_samples alone", dict(channel_index=None, mask=None, repetition_index=None, num_samples=2), False))
                cases_.append(("num_samples on a device", dict(channel_index=None, mask=None, repetition_index=None, num_samples=2, device="cuda"), False))
            for n, ch, must in cases_:
                prm = dict(base, **opts)
                prm.update(ch)
                at = {} if name == "__init__" else state(d)
                if name == "__init__":
                    at = dict(is_differentiable=d)
                o = judge1(f, r, prm, at, "checked-as-unit" if must else "consistent-accepted", f"{sname(d)} {n}", must)
                if o is None or must or o.raised is not None:
                    continue
                ci, mk, rp = (stored(o, k) for k in ("_channel_index", "_mask", "_repetition_index"))
                loc = f"{f.file}:{f.line}"
                sub = f"{f.qual}:{sname(d)} {n}"
                ns = prm.get("num_samples") is not None
                w = 1 if ns else F
                if ci is not None and isinstance(ci, Ten):
                    chk.ob("normalised-state", sub + ":channel_index", ci.dt == ("float" if d else "long") and ci.shape == ((B, 1, 1) if ns and d else (B, 1) if ns else prm["channel_index"].shape) and
                           ci.dev == (prm["device"] if ns and prm["device"] else "cpu"), loc, f"stored channel index is {ci}")
                    if ns:
                        chk.ob("normalised-state", sub + ":channel0", ci.v == ((1,) if d else (0,)), loc, f"a context for num_samples routes to channel 0 (all mass on the single channel), stores {ci}")
                elif name != "__init__" or ci is None:
                    chk.ob("normalised-state", sub + ":channel_index", ci is not None, loc, "no channel index is stored")
                if isinstance(mk, Ten):
                    chk.ob("normalised-state", sub + ":mask", mk.dt == "bool" and mk.shape == (B, w) and (mk.v == (True, True, False) if prm["mask"] is not None else mk.v in ((True,), (1,))), loc, f"stored mask is {mk}")
                else:
                    chk.ob("normalised-state", sub + ":mask", mk is not None, loc, "no mask is stored")
                if prm["repetition_index"] is None and name == "update":
                    chk.ob("normalised-state", sub + ":repetition", not any(x[0].idx == "_repetition_index" for x in o.stores), loc, "without a new repetition index the old one must be kept")
                elif isinstance(rp, Ten):
                    shp = (B, 1) if d and prm["repetition_index"] is None and name == "__init__" else (B, R) if d else (B,)
                    chk.ob("normalised-state", sub + ":repetition", rp.dt == ("float" if d else "long") and rp.shape == shp, loc, f"stored repetition index is {rp}")
                    if prm["repetition_index"] is None and name == "__init__":
                        chk.ob("normalised-state", sub + ":repetition0", rp.v == ((1,) if d else (0,)), loc, f"the default repetition choice is repetition 0, stores {rp}")
                else:
                    chk.ob("normalised-state", sub + ":repetition", rp is not None, loc, "no repetition index is stored")
                if name == "__init__":
                    dv = stored(o, "device")
                    chk.ob("device-known", sub, dv is not None and dv in (UNK, "cuda" if prm["device"] == "cuda" else "cpu"), loc, "the context's device must be set on every path of the constructor")

    # ---- setters
    for name, fld in (("channel_index", "_channel_index"), ("mask", "_mask"), ("repetition_index", "_repetition_index")):
        f, r = m(name, True)
        par = [a for a in f.all_param_names() if a != "self"][0]
        for d in (False, True):
            v = state(d)[fld]
            cs = [("the same value", v, False)]
            if name == "repetition_index":
                cs += [(n, x, True) for n, x in bad_reps(d, v)] + [("None", None, True)]
                if not d:
                    cs += [("an int32 value", v.with_(dt="int"), False), ("a single repetition column", v.with_(shape=(B, 1)), False)]
            else:
                cs.append(("another batch size", v.with_(shape=(B + 1,) + v.shape[1:]), True))
                cs.append(("batch size one", v.with_(shape=(1,) + v.shape[1:]), True))
                cs.append(("another device", v.with_(dev="cuda"), True))
                cs.append(("another width", v.with_(shape=(B, F + 1) + v.shape[2:]), False))
                bad = [x[1][name] for x in perturbed(d) if name in x[1] and ("rank" in x[0] or any(x[0].startswith(q) for q in ("long ", "float ", "bool ", "int ", "complex ", "double ")))]
                cs += [(f"{x.dt} value of rank {len(x.shape)}", x, True) for x in bad]
                if name == "channel_index" and not d:
                    cs.append(("an int32 value", v.with_(dt="int"), False))
            for n, x, must in cs:
                o = judge1(f, r, {par: x}, state(d), "setter-checked" if must else "setter-accepts", f"{sname(d)} {n}", must)
                if o is not None and not must and o.raised is None:
                    s = stored(o, fld)
                    if s is not UNK:
                        chk.ob("normalised-state", f"{f.qual}:{sname(d)} {n}", isinstance(s, Ten) and s.dt == v.dt and len(s.shape) == len(v.shape), f"{f.file}:{f.line}", f"stores {s}")

    # ---- validate_sampling_context
    f, r = m("validate_sampling_context")
    none = dict(num_samples=None, num_features=None, num_channels=None, num_repetitions=None, allowed_feature_widths=None)
    for d in (False, True):
        s0 = state(d)
        ci, mk, rp = s0["_channel_index"], s0["_mask"], s0["_repetition_index"]
        full = dict(num_samples=B, num_features=F, num_channels=C, num_repetitions=R, allowed_feature_widths=None)
        cs = [("no bounds", none, {}, False), ("matching bounds", full, {}, False),
              ("batch size too large", dict(none, num_samples=B - 1), {}, True), ("batch size too small", dict(none, num_samples=B + 1), {}, True),
              ("wrong width", dict(none, num_features=F + 1), {}, True), ("width one", dict(none, num_features=1), {}, True), ("width of an explicit list", dict(full, allowed_feature_widths=(1, F)), {}, False),
              ("width outside the explicit list", dict(full, allowed_feature_widths=(1, F + 1)), {}, True), ("zero channels", dict(none, num_channels=0), {}, True), ("zero repetitions", dict(none, num_repetitions=0), {}, True),
              ("mask of another width", none, dict(_mask=mk.with_(shape=(B, 1))), True), ("mask of another batch size", none, dict(_mask=mk.with_(shape=(1, F))), True), ("non-boolean mask", none, dict(_mask=mk.with_(dt="long")), True),
              ("mask on another device", none, dict(_mask=mk.with_(dev="cuda")), True), ("repetition index on another device", dict(none, num_repetitions=R), dict(_repetition_index=rp.with_(dev="cuda")), True),
              ("repetition index of another batch size", dict(none, num_repetitions=R), dict(_repetition_index=rp.with_(shape=(B + 1,) + rp.shape[1:])), True),
              ("repetition index of wrong type", dict(none, num_repetitions=R), dict(_repetition_index=rp.with_(dt="long" if d else "float")), True),
              ("channel index of wrong type", none, dict(_channel_index=ci.with_(dt="long" if d else "float")), True),
              ("channel index of wrong rank", none, dict(_channel_index=ci.with_(shape=(B,))), True)]
        if d:
            cs += [("too many channels", dict(none, num_channels=C - 1), {}, True), ("too few channels", dict(none, num_channels=C + 1), {}, True),
                   ("too many repetitions", dict(none, num_repetitions=R - 1), {}, True), ("too few repetitions", dict(none, num_repetitions=R + 1), {}, True)]
        else:
            for vals, must in (((0, 0), False), ((C - 1, 0), False), ((C, 0), True), ((C + 1, 0), True), ((-1, 0), True), ((0, C), False), ((0, -1), False)):
                cs.append((f"channel {vals[0]} of {C} at a requested entry, {vals[1]} elsewhere", dict(none, num_channels=C), dict(_channel_index=ci.with_(v=(0,) + vals)), must))
            cs.append(("no requested entry", dict(none, num_channels=C), dict(_channel_index=ci.with_(v=(9, 9, 9)), _mask=mk.with_(v=(False, False, False))), False))
            for vals, must in (((0,), False), ((R - 1,), False), ((R,), True), ((-1,), True), ((0, R), True), ((R - 1, -1), True)):
                cs.append((f"repetitions {vals} of {R}", dict(none, num_repetitions=R), dict(_repetition_index=rp.with_(v=vals)), must))
            cs.append(("two-dimensional repetition index", dict(none, num_repetitions=R), dict(_repetition_index=rp.with_(shape=(B, 1))), True))
        for n, prm, ch, must in cs:
            judge1(f, r, prm, dict(s0, **ch), "validated" if must else "valid-accepted", f"{sname(d)} {n}", must)

    # ---- strict update helper
    f = ix.functions.get("spflow.utils.sampling_context.update_channel_index_strict")
    if f is not None:
        r = ctx.run_func(f, **dep)
        ps = f.all_param_names()
        for d in (False, True):
            s0 = state(d)
            ci = s0["_channel_index"]
            ctxv = dict(s0, channel_index=ci, mask=s0["_mask"], repetition_index=s0["_repetition_index"])
            for n, x, must in (("the same shape", ci, False), ("another batch size", ci.with_(shape=(B + 1,) + ci.shape[1:]), True), ("another width", ci.with_(shape=(B, F + 1) + ci.shape[2:]), True),
                               ("width one", ci.with_(shape=(B, 1) + ci.shape[2:]), True), ("another device", ci.with_(dev="cuda"), True), ("wrong type", ci.with_(dt="long" if d else "float"), True)):
                judge1(f, r, {ps[0]: ctxv, ps[1]: x}, {}, "strict-update" if must else "strict-accepts", f"{sname(d)} {n}", must)

    # ---- width helpers
    def width(name, prm, at, must, what, shape=None):
        f, r = m(name)
        o = judge1(f, r, prm, at, "width-change" if must else "width-accepted", what, must)
        if o is None or must or o.raised is not None:
            return
        ci, mk = stored(o, "_channel_index"), stored(o, "_mask")
        if shape is None:
            chk.ob("width-result", f"{f.qual}:{what}", ci is None and mk is None, f"{f.file}:{f.line}", f"nothing may change, but {ci} / {mk} is stored")
            return
        for nm, x, sh in (("channel index", ci, shape), ("mask", mk, shape[:2])):
            if x is not UNK:
                chk.ob("width-result", f"{f.qual}:{what}:{nm}", isinstance(x, Ten) and x.shape == sh, f"{f.file}:{f.line}", f"the {nm} must get shape {sh}, gets {x}")
    for d in (False, True):
        s = state(d)
        tail = (C,) if d else ()
        one = dict(s, _channel_index=s["_channel_index"].with_(shape=(B, 1) + tail), _mask=s["_mask"].with_(shape=(B, 1)))
        w = sname(d)
        width("require_feature_width", dict(expected_features=F), s, False, f"{w} matching width")
        width("require_feature_width", dict(expected_features=F + 1), s, True, f"{w} other width")
        width("broadcast_feature_width", dict(target_features=F, allow_from_one=True), s, False, f"{w} matching width")
        width("broadcast_feature_width", dict(target_features=7, allow_from_one=True), one, False, f"{w} from one", (B, 7) + tail)
        width("broadcast_feature_width", dict(target_features=7, allow_from_one=False), one, True, f"{w} from one, not allowed")
        width("broadcast_feature_width", dict(target_features=7, allow_from_one=True), s, True, f"{w} from another width")
        width("repeat_split_feature_width", dict(num_splits=2, target_features=F), s, False, f"{w} matching width")
        width("repeat_split_feature_width", dict(num_splits=2, target_features=2 * F), s, False, f"{w} split width", (B, 2 * F) + tail)
        width("repeat_split_feature_width", dict(num_splits=0, target_features=2 * F), s, True, f"{w} zero splits")
        width("repeat_split_feature_width", dict(num_splits=2, target_features=2 * F + 1), s, True, f"{w} indivisible target")
        width("repeat_split_feature_width", dict(num_splits=2, target_features=4 * F), s, True, f"{w} unrelated target")
        G = ((0, 2, 4), (1, 3, 5))
        width("scatter_split_groups_to_input_width", dict(index_groups=G, input_features=F), s, False, f"{w} matching width")
        width("scatter_split_groups_to_input_width", dict(index_groups=G, input_features=2 * F), s, False, f"{w} groups", (B, 2 * F) + tail)
        width("scatter_split_groups_to_input_width", dict(index_groups=((0, 2, 4), (1, 3, 4)), input_features=2 * F), s, True, f"{w} overlapping groups")
        width("scatter_split_groups_to_input_width", dict(index_groups=((0, 2, 4), (1, 3, 6)), input_features=2 * F), s, True, f"{w} group index out of range")
        width("scatter_split_groups_to_input_width", dict(index_groups=((0, 2), (1, 3, 4, 5)), input_features=2 * F), s, True, f"{w} groups of other widths")
        f, r = m("slice_feature_ranges")
        for n, rg, must in (("ranges inside", ((0, 1), (1, F)), False), ("empty range", ((1, 1),), False), ("negative start", ((-1, 2),), True), ("reversed range", ((0, 1), (2, 1)), True), ("end beyond the width", ((0, F + 1),), True)):
            judge1(f, r, dict(ranges=rg), s, "range-checked" if must else "range-accepted", f"{w} {n}", must)
        f, r = m("route_channel_offsets")
        cs = [("matching counts", (1, 3), {}, False), ("a zero count", (0, 4), {}, True)]
        if d:
            cs += [("counts that sum to less than the channel axis", (1, 2), {}, True), ("counts that sum to more than the channel axis", (2, 3), {}, True)]
        else:
            for vals, must in (((3, 0), False), ((4, 0), True), ((-1, 0), True), ((0, 4), False)):
                cs.append((f"channel {vals[0]} requested, {vals[1]} elsewhere", (1, 3), dict(_channel_index=s["_channel_index"].with_(v=(0,) + vals)), must))
        for n, cc, ch, must in cs:
            judge1(f, r, dict(child_channel_counts=cc), dict(s, **ch), "offsets-checked" if must else "offsets-accepted", f"{w} {n}", must)

    inherit(ctx, chk)
    validators(ctx, chk)
    chk.note(f"undecided: {unk[:20]}")
    if len(unk) > 60:
        raise AnalysisError(f"{len(unk)} routing checks could not be evaluated: {unk[:3]}")


def inherit(ctx, chk):
    ix, SC = ctx.ix, ctx.SC
    f = ix.find_method(SC, "with_routing")
    r = ctx.run_func(f, SC, sampling_opaque=False)
    loc = f"{f.file}:{f.line}"
    child = {e.idx: e for e in r.events if e.kind == "store_attr" and e.depth == 0}
    made = [e for e in r.events if e.kind == "call" and (e.name == "SamplingContext" or e.callee is not None and e.callee.name == "__init__" and e.callee.cls is SC and e.depth == 0)]
    for d in (False, True):
        for mpe in (False, True):
            at = dict(state(d), is_mpe=mpe, tau=2.5, return_leaf_params=not mpe, _leaf_param_records="records")
            ab = Abs(dict(channel_index=valid(d)["channel_index"], mask=valid(d)["mask"], clone_routing=True, clone_repetition=True), at)
            o = judge(r.events, ab)
            got = {e.idx: v for e, v, c in o.stores if c}
            for e in made:
                for k, v in e.kwargs.items():
                    if isinstance(v, T):
                        got.setdefault(k if k in at else "_" + k, ab(v))
            for a in ("is_differentiable", "is_mpe", "return_leaf_params", "tau", "_leaf_param_records"):
                v = got.get(a)
                chk.ob("inherits", f"{f.qual}:{a}", v is UNK or v == at[a], loc, f"a derived context must carry over {a}={at[a]}, gets {v}")
    # copies requested must be copies
    for a, flag, src in (("_channel_index", "clone_routing", "channel_index"), ("_mask", "clone_routing", "mask"), ("_repetition_index", "clone_repetition", "_repetition_index")):
        e = child.get(a)
        if e is None:
            continue
        for d in (False, True):
            for want in (True, True, False):
                base = state(d)
                prm = dict(channel_index=valid(d)["channel_index"], mask=valid(d)["mask"], clone_routing=want, clone_repetition=want)
                v = Abs(prm, base)(e.term)
                if not isinstance(v, Ten):
                    continue
                ref = (prm.get(src) or base.get(src)) if src in prm else base[src]
                chk.ob("derived-state", f"{f.qual}:{a}:{want}:{d}", v.shape == ref.shape and v.dt == ref.dt and v.v == ref.v, loc, f"the derived context's {a} must be the given one, is {v}")
                if want:
                    chk.ob("derived-copies", f"{f.qual}:{a}:{d}", v.tag == "clone", loc, f"with {flag}=True the derived context must hold its own copy of {src}")
    g = ix.find_method(SC, "copy")
    rg = ctx.run_func(g, SC)
    cs = [e for e in rg.events if e.kind == "call" and e.name == "with_routing"]
    for e in cs:
        kw = dict(e.kwargs)
        for a, want in (("channel_index", "_channel_index"), ("mask", "_mask")):
            v = kw.get(a)
            t = core(v) if v is not None else None
            chk.ob("copy", f"{g.qual}:{a}", t is not None and (self_attr(t, want) or self_attr(t, a)), e.where, f"copy() must copy the context's own {a}")
        for a in ("clone_routing", "clone_repetition"):
            v = kw.get(a)
            chk.ob("copy", f"{g.qual}:{a}", v is None or is_const(v, True), e.where, "copy() must not share routing tensors with the original")
    # records: the same list object, appended once
    h = ix.find_method(SC, "add_leaf_param_record")
    if h is not None:
        rh = ctx.run_func(h, SC)
        ap = [e for e in rh.events if e.kind == "call" and e.name == "append" and e.recv is not None and self_attr(core(e.recv), "_leaf_param_records")]
        chk.ob("records", h.qual, len(ap) == 1 and not ap[0].guards, f"{h.file}:{h.line}", "a leaf record must be appended to the shared list exactly once")


def uses_routing(e):
    for t in list(e.args) + [v for v in e.kwargs.values() if isinstance(v, T)] + ([e.recv] if e.recv is not None else []) + ([e.term] if e.term is not None and e.kind != "call" else []):
        if contains(t, lambda x: x.k == "attr" and x.a[1] in ("channel_index", "repetition_index", "_channel_index", "_repetition_index") and contains(x.a[0], lambda y: y.k == "param")):
            return True
    return False


OUT = {"num_channels": "channels", "num_repetitions": "repetitions"}


def validators(ctx, chk):
    """every _sample checks the context against the module's own output before it reads or forwards it"""
    ix = ctx.ix
    seen = set()
    n = 0
    for c in ctx.modules():
        f = ix.find_method(c, "_sample")
        if f is None or f.cls is None or f.qual in seen:
            continue
        r = ctx.run(c, "_sample")
        vs = [e for e in r.events if e.kind == "call" and e.name == "validate_sampling_context"]
        reads = [e for e in r.events if e.kind == "call" and e.name not in ("validate_sampling_context",) and (e.name in ("_sample", "sample", "index_tensor", "gather", "sample_from_logits"))]
        if not vs:
            # a module that only hands the unchanged context on is checked by its inputs
            use = [e for e in r.events if e.kind in ("call", "store_attr", "store_item", "return") and uses_routing(e)]
            if use:
                chk.ob("validates-first", f"{c.name}._sample:present", False, use[0].where, "the routing is used without validating the context against the module's output")
            continue
        seen.add(f.qual)
        rc = raise_conds(r)
        for e in vs[:1]:
            n += 1
            sub = f"{c.name}._sample"
            kw = dict(e.kwargs)
            chk.ob("validates-first", sub + ":unconditional", not [g for g in e.guards if g not in rc and not is_none_guard(g)], e.where, "the context must be validated on every path")
            early = [x for x in reads if x.seq < e.seq and x.depth <= e.depth]
            chk.ob("validates-first", sub + ":order", not early, e.where, f"the context is used at {early[0].where if early else ''} before it is validated")
            ns = kw.get("num_samples")
            chk.ob("validates-own-shape", sub + ":num_samples", ns is not None and is_rows(ns), e.where, f"the batch size checked must be the number of rows of the data, is {show(ns, 5) if ns is not None else 'not checked'}")
            for k, a in OUT.items():
                v = kw.get(k)
                ok = v is not None and own_out(v, a)
                chk.ob("validates-own-shape", sub + ":" + k, ok, e.where, f"{k} checked must be the module's own output {a}, is {show(v, 5) if v is not None else 'not checked'}")
            w = kw.get("allowed_feature_widths")
            nf = kw.get("num_features")
            chk.ob("validates-own-shape", sub + ":width", (w is not None and not is_const(w, None)) or (nf is not None and not is_const(nf, None)), e.where, "the feature width must be checked")
    chk.floor("validates-first", 7)


def is_none_guard(g):
    c, b = g
    return c.k == "op" and c.a[0] in ("is", "isnot") and any(is_const(x, None) for x in c.a[1])


def is_rows(t):
    t = core(t)
    if t.k == "call" and str(t.a[0].a[-1]).split(".")[-1] in ("int", "len"):
        return is_rows(t.a[1][0]) if str(t.a[0].a[-1]).endswith("int") else data_root(t.a[1][0]) is not None
    if t.k == "op" and t.a[0] in ("int", "len", "size"):
        return contains(t, lambda x: x.k == "param" and x.a[-1] == "data")
    return t.k == "item" and is_const(t.a[1], 0) and t.a[0].k == "attr" and t.a[0].a[1] == "shape" and contains(t, lambda x: x.k == "param" and x.a[-1] == "data")


def own_out(v, a):
    """value is the module's own out_shape.<a>, or its stored definition"""
    for _, t in galts(v):
        t = core(t)
        if t.k == "call" and t.a[1] and str(t.a[0].a[-1]).endswith("int"):
            t = core(t.a[1][0])
        if t.k == "attr" and t.a[1] == a and (self_attr(t.a[0], "out_shape") or self_attr(t.a[0], "_out_shape")):
            continue
        if a == "repetitions" and t.k == "attr" and t.a[1] in ("repetitions", "num_repetitions") and (t.a[0].k == "self" or self_attr(t.a[0], "in_shape")):
            continue
        return False
    return True
