"""Structure learners: row groups and variable groups are recursed completely, with the caller's options; weights are group frequencies."""
import ast
from ..lib import *
from ..lin import Lin, cases, is_size
from ..terms import *

ID = "P34"
TITLE = "Structure learning splits rows and variables fully and weights by frequency"
EXPL = ("Dataflow over every self-recursive structure learner (learn_spn, Prometheus, cutset networks, HCLT): the rows and scope handed to each recursive call are a group of the caller's rows or variables, "
        "groups are exhaustive and none is skipped, options are forwarded unchanged, sub-circuits all reach the constructed node, mixture weights are the group frequencies aligned with the sub-circuits, "
        "leaves are fitted on the rows that reached them, indicators are one-hot at the group's value, tree edges become one transition each.")
ASSUME = ("clustering, RDC and spanning-tree library results", "user-supplied clustering and partitioning callables return one label per row / variable")
AREAS = ("spflow.learn.", "spflow.zoo.hclt.")
CTORS = ("Sum", "Product", "Cat", "ElementwiseProduct", "OuterProduct", "SignedSum", "ElementwiseSum")


def ell(t):
    return t.k == "unknown" and "Ellipsis" in str(t.a[0]) or t.k == "const" and t.a[0] is Ellipsis


def isfn(t, *names):
    if t.k == "op":
        return t.a[0] in names
    if t.k == "call":
        return str(t.a[0].a[-1]).split(".")[-1] in names
    return False


def arg0(t):
    if t.a[1]:
        return t.a[1][0]
    kw = dict(t.a[2]) if len(t.a) > 2 else {}
    for k in ("input", "condition"):
        if k in kw:
            return kw[k]
    return t.a[0].a[0] if t.k == "call" and t.a[0].k == "attr" else None


def recursive(ctx):
    """(top-level function to run, the self-recursive function)"""
    ix = ctx.ix
    out = []
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.cls is not None or not f.qual.startswith(AREAS) or "<locals>" in f.qual:
            continue
        for g in [f.node] + [n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node]:
            calls = [n for n in ast.walk(g) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == g.name]
            if calls and not any(h is not g and isinstance(h, ast.FunctionDef) and any(c in ast.walk(h) for c in calls) for h in ast.walk(g) if h is not g):
                out.append((f, g))
    return out


def entry(ctx, f):
    """functions whose run contains f: its public callers when it is private and called from them with other helpers, else itself"""
    return f


def strip_list(t):
    while isfn(t, "tolist", "list", "tuple", "sort", "sorted", "numpy", "cpu", "detach", "flatten") or t.k == "item" and t.a[1].k == "const" and isfn(t.a[0], "sort"):
        if t.k == "item":
            t = t.a[0]
            continue
        a = arg0(t)
        if a is None:
            return t
        t = a
    return t


def scal(t):
    while isfn(t, "int", "float", "item") and arg0(t) is not None:
        t = arg0(t)
    return t


def group_mask(m):
    """(labels, group id) of a mask that selects one group's rows"""
    m = core(m)
    while isfn(m, "nonzero", "where", "flatten", "squeeze", "to", "bool") or m.k == "item" and isfn(m.a[0], "nonzero", "where"):
        if m.k == "item":
            m = m.a[0]
        a = arg0(m)
        if a is None or len(m.a[1]) > 1 and isfn(m, "where"):
            return None
        m = core(a)
    if m.k == "op" and m.a[0] == "eq" and len(m.a[1]) == 2:
        for i in (0, 1):
            e = scal(m.a[1][1 - i])
            if e.k == "elem":
                return m.a[1][i], e
    return None


def unique_of(e, labels):
    """e runs over the distinct values of labels"""
    b = strip_list(e.a[0])
    return b.k == "op" and b.a[0] == "unique" and (b.a[1][0] is labels) or b.k == "call" and str(b.a[0].a[-1]).split(".")[-1] in ("unique", "set") and b.a[1] and b.a[1][0] is labels \
        or b.k == "item" and isfn(b.a[0], "unique") and is_const(b.a[1], 0) and arg0(b.a[0]) is labels


def rows(d, data):
    """('all',) | ('group', labels, id) | None for the rows handed down"""
    c = core(d)
    if c is data:
        return ("all",)
    if isfn(c, "index_select") and len(c.a[1]) == 3 and is_zero(c.a[1][1]):
        c = T("item", c.a[1][0], c.a[1][2])
    if c.k == "item" and core(c.a[0]) is data:
        i = c.a[1]
        if i.k == "tuple":
            rest = i.a[0][1:]
            if not all(x.k == "slice" and all(is_const(y, None) for y in x.a) or ell(x) for x in rest):
                return None
            i = i.a[0][0]
        g = group_mask(i)
        if g is not None:
            return ("group",) + g
    return None


def query_of(s):
    """the comprehension (or list) behind Scope(query=...)"""
    if isfn(s, "Scope"):
        kw = dict(s.a[2])
        q = kw.get("query") or (s.a[1][0] if s.a[1] else None)
        return q
    return None


def opt_ok(v, p, name):
    seen = False
    for a in alts(v):
        a = core(a)
        if a is p:
            seen = True
        elif a.k in ("list", "tuple") and contains(a, p):
            seen = True
        elif isfn(a, "list", "tuple") and contains(a, p):
            seen = True
        elif isfn(a, "partial") and contains(a, p):
            seen = True
        elif a.k in ("global", "func", "class"):
            pass
        elif isfn(a, "partial"):
            pass
        else:
            return False
    return seen


def check(ctx, chk):
    for f, g in recursive(ctx):
        r = ctx.run_func(f, fresh=() if g is f.node else (g.name,))
        rec = [e for e in r.events if e.kind == "call" and not e.inlined and e.name == g.name]
        if not rec:
            continue
        names = [a.arg for a in g.args.posonlyargs + g.args.args + g.args.kwonlyargs]
        dn = next((n for n in names if "data" in n), None)
        sn = next((n for n in names if "scope" in n), None)
        if dn is None or sn is None:
            tree(ctx, chk, f, g, r, rec, names)
            continue
        if g is f.node:
            frame = {k: v for k, v in r.params.items()}
            scope_alts = set(alts(frame[sn]))
        else:
            init = [e for e in r.events if e.kind == "call" and e.inlined and e.name == g.name]
            if not init:
                continue
            frame = {n: T("param", init[0].callee.qual, n) for n in names}
            scope_alts = set(alts(frame[sn]))
        learner(ctx, chk, f, g, r, rec, names, dn, sn, frame)
    leaves(ctx, chk)
    adapters(ctx, chk)
    hclt(ctx, chk)
    forwarded(ctx, chk)
    emissions(ctx, chk)


def used(g, n):
    return any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) for x in ast.walk(g))


def learner(ctx, chk, f, g, r, rec, names, dn, sn, frame):
    con = g.name
    data = core(frame[dn])
    kinds = set()
    for e in rec:
        W = e.where
        kw = e.kwargs
        for p in names:
            if p in (dn, sn):
                continue
            v = kw.get(p)
            if v is None:
                ok = not used(g, p) or any(contains(x, frame[p]) for q, x in kw.items() if q != p)
            else:
                ok = opt_ok(v, core(frame[p]), p) or v is frame[p]
            chk.ob("options", f"{con}:{p}", ok, W, f"the recursive call must be made with the caller's {p}" + (f", not {show(v, 3)}" if v is not None else ""))
        d = kw.get(dn)
        how = rows(d, data) if d is not None else None
        if how is None:
            chk.ob("rows", con, False, W, f"a sub-circuit must be learned on one group of the rows (or on all of them), not on {show(d, 4) if d is not None else None}")
            continue
        s = kw.get(sn)
        # the caller's scope, as it is in this frame
        mine = scope_like(s, frame, sn)
        cols = None if mine else columns(chk, f, g, e, s, r, frame, sn, data)
        if how[0] == "group":
            lab, gid = how[1], how[2]
            val = value_group(lab, gid, data)
            if val is not None:
                kinds.add("value")
                chk.ob("rows", con + ":values", cond_range(e, gid, lab, data), W, "every value of the conditioning variable must get a branch")
            else:
                kinds.add("cluster")
                chk.ob("rows", con + ":groups", unique_of(gid, lab) and any(contains(l, gid.a[0]) or l is gid.a[0] or strip_list(l) is strip_list(gid.a[0]) for l in e.loops), W, "every cluster of the rows must be recursed into exactly once")
                chk.ob("rows", con + ":labels", clustered(lab, data), W, "the cluster labels must come from clustering the same rows")
            skips(chk, con, e, gid, r)
            weights(chk, con, e, r, lab, gid, data, val)
            if val is not None:
                indicator(chk, con, e, r, lab, gid, s, frame, sn)
        chk.ob("columns", con, mine and how[0] == "group" or bool(cols), W, "the variables handed down must be the caller's, or one part of a partition of them" if how[0] == "group" else "the parts must be variable groups mapped through the caller's scope")
        if cols == "part":
            own = outer_sel(s, data)
            okr = all(sel(z, data) == (how[1:] if how[0] == "group" else None) for z in own)
            chk.ob("columns", con + ":rows", okr, W, "the variable groups must be found on the rows that are split")
        chk.ob("columns", con + ":removed", cols != "removed" or how[0] == "group" and value_group(how[1], how[2], data) is not None, W, "a variable may only be dropped from the scope in a branch that fixes its value")
        for l in e.loops:
            part = partial_iter(r, l)
            chk.ob("complete", con + ":all", not part, W, f"only a part of the groups is recursed into: {part}")
        kept(chk, con, e, r, "Product" if cols else "Sum")
        memoised(chk, con, e, r, kw.get(sn), [l for l in e.loops if how[0] == "group" and strip_list(l) is strip_list(how[2].a[0])])
    chk.ob("rows", con + ":grouped", bool(kinds), f"{f.file}:{g.lineno}", "a structure learner must split the rows into groups and learn each group on its own rows")
    selections(chk, con, r, frame, sn, data, f)
    bases(ctx, chk, con, r, rec, f, g, frame, sn, dn, data)
    single(chk, con, r, f, g)
    return kinds


def bases(ctx, chk, con, r, rec, f, g, frame, sn, dn, data):
    """where the recursion ends, leaves are created for the caller's variables on the caller's rows"""
    for e in r.events:
        c = e.callee
        if e.kind != "call" or e.func.node is not g or c is None or c.cls is not None or e in rec:
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == "maximum_likelihood_estimation" for n in ast.walk(c.node)):
            continue
        ps = c.all_param_names()
        dp = next((p for p in ps if "data" in p), None)
        sp = next((p for p in ps if "scope" in p), None)
        if dp is None or sp is None:
            continue
        d, s = e.kwargs.get(dp), e.kwargs.get(sp)
        if d is None or s is None:
            continue
        h = rows(d, data)
        empty = core(d).k == "item" and core(core(d).a[0]) is data and core(d).a[1].k == "slice" and num(core(d).a[1].a[1]) == 0
        if h == ("all",):
            ok = scope_like(s, frame, sn) and not query_of(s)
        else:
            ok = (empty or h is not None) and any(s is x.kwargs.get(sn) for x in rec)
        chk.ob("leaves", con + ":base", ok, e.where, "leaves must be created for exactly the variables and rows that reached this point")
        for p in ps:
            if p in r.params and p not in (dp, sp):
                chk.ob("options", f"{con}->{c.name}:{p}", value_contains(e.kwargs.get(p, NONE), r.params[p]), e.where, f"{c.name} must be called with the caller's {p}")


def partial_iter(r, l, depth=0):
    """why iterable l leaves some elements out (slices, filters, a fixed number of elements)"""
    if depth > 4:
        return ""
    if l.k == "phi":
        return partial_iter(r, l.a[1], depth) or partial_iter(r, l.a[2], depth)
    if l.k == "item" and l.a[1].k == "slice" and not all(is_const(y, None) for y in l.a[1].a):
        return "a slice of the groups"
    if isfn(l, "islice", "takewhile", "filter", "topk"):
        return l.a[0] if l.k == "op" else "a selection of the groups"
    if l.k == "comp" and len(l.a) > 3 and l.a[3]:
        return "a filtered list of groups"
    if isfn(l, "range") and l.a[1] and all(num(x) is not None for x in l.a[1]):
        return "a fixed number of groups"
    if l.k == "item" and l.a[1].k == "const" or isfn(l, "sort", "sorted", "list", "tuple", "enumerate", "zip", "tolist", "set"):
        b = l.a[0] if l.k == "item" else arg0(l)
        return partial_iter(r, b, depth + 1) if b is not None and not (isfn(b, "unique")) else ""
    if l.k == "store":
        for x in push_events(r, l):
            why = next((w for w in (partial_iter(r, y, depth + 1) for y in x.loops) if w), "")
            if why:
                return why
    return ""


def whole(k, scope):
    """k identifies the scope's variables"""
    while isfn(k, "tuple", "frozenset", "sorted", "list", "set", "hash", "str") and arg0(k) is not None:
        k = arg0(k)
    return k is scope or k.k == "attr" and k.a[1] in ("query", "_query") and (k.a[0] is scope or any(core(k.a[0]) is core(y) for y in alts(scope))) or query_of(scope) is not None and k is query_of(scope)


def memoised(chk, con, e, r, scope, gl):
    """a sub-circuit kept for reuse may only be reused for the same variables and the same rows"""
    for x in r.events:
        if x.kind != "store_item" or x.term is not e.term:
            continue
        ok = whole(x.idx, scope) or x.idx.k == "tuple" and any(whole(y, scope) for y in x.idx.a[0])
        chk.ob("memo", con + ":key", ok, x.where, f"a learned sub-circuit may only be reused for exactly the same variables (keyed by {show(x.idx, 3)})")
        t = x.target
        stale = False
        roots = []
        todo, seen = [t], set()
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            if y.k == "phi":
                if y.a[0].k == "loopcarried" or y.a[0].k in ("ran", "op", "loop") and any(contains(y.a[0], l) for l in gl) and "carried" in show(y.a[0], 1):
                    stale = stale or any(y.a[0].a and (y.a[0].a[0] is l) for l in gl)
                todo += [y.a[1], y.a[2]]
            elif y.k == "store":
                todo.append(y.a[0])
            else:
                roots.append(y)
        fresh = all(y.k == "dict" or isfn(y, "dict") for y in roots)
        chk.ob("memo", con + ":rows", not stale and (fresh or not gl), x.where, "sub-circuits learned on one group's rows must not be reused for another group")


def selections(chk, con, r, frame, sn, data, f):
    """columns of the data are addressed by variable"""
    seen = set()
    for e in r.events:
        for t in [e.term] + list(e.args) + list(e.kwargs.values()):
            if t is None or not isinstance(t, T):
                continue
            for s in walk(t):
                if s.k == "item" and s.a[1].k == "tuple" and len(s.a[1].a[0]) == 2 and core_rows(s.a[0]) is data:
                    c = s.a[1].a[0][1]
                    if c.k == "slice" and all(is_const(y, None) for y in c.a) or ell(c):
                        continue
                    ok = c.k != "slice" and num(c) is None and (contains(c, lambda q: q.k == "attr" and q.a[1] == "query") or contains(c, core(frame[sn])))
                    chk.ob("columns", con + ":selected", ok, e.where, f"columns must be selected by the variables of the scope, not by {show(c, 3)}")


def sel(t, data):
    """(labels, id) of the row group a nested selection of data is restricted to"""
    t = core(t)
    while t.k == "item" and core_rows(t) is data and t is not data:
        i = t.a[1].a[0][0] if t.a[1].k == "tuple" else t.a[1]
        g = group_mask(i) if i.k != "slice" else None
        if g is not None:
            return g
        if i.k == "slice" and not all(is_const(y, None) for y in i.a):
            return "part"
        t = core(t.a[0])
    return None


def outer_sel(t, data):
    """outermost selections of data whose values flow into t"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "item" and x.a[1].k != "const" and core_rows(x) is data:
            out.append(x)
        elif x.k == "phi":
            todo += [x.a[1], x.a[2]]
        else:
            todo += list(children(x))
    return out


def core_rows(t):
    t = core(t)
    if t.k == "item" and t.a[1].k != "const":
        return core_rows(t.a[0])
    return t


def single(chk, con, r, f, g):
    """a lone sub-circuit returned instead of a mixture is the one that was learned"""
    for e in r.events:
        if e.kind != "return" or e.func.node is not g or e.term is None:
            continue
        t = e.term
        if t.k != "item" or not lists_in(t.a[0]):
            continue
        one = [c for c, v in e.guards if c.k == "op" and c.a[0] == "eq" and v and any(num(x) == 1 for x in c.a[1])]
        if not one:
            continue
        L = next((arg0(x) if isfn(x, "len") else x for x in one[-1].a[1] if num(x) != 1), None)
        i = t.a[1]
        ok = num(i) in (0, -1) and L is not None and (contains(L, t.a[0]) and L is t.a[0] or L is t.a[0] or set(pushes(L)) == set(pushes(t.a[0]))) or num(i) is None and L is not None and contains(i, L)
        if num(i) in (0, -1) and L is not None and not ok and L.k not in ("comp",) and not contains(L, t.a[0]):
            continue
        chk.ob("complete", con + ":single", ok, e.where, "when a single sub-circuit remains, it must be the one that is returned")


def scope_like(s, frame, sn):
    """s is the frame's own scope (possibly inferred from the leaves when none is given)"""
    if s is None:
        return False
    p = core(frame[sn])
    return s is p or core(s) is p or p in [core(a) for a in alts(s)] and not any(query_of(a) is not None for a in alts(s) if core(a) is not p) or s is frame[sn]


def value_group(lab, gid, data):
    """the column when rows are grouped by the value of a column"""
    l = core(lab)
    if l.k == "item" and core(l.a[0]) is data and l.a[1].k == "tuple" and len(l.a[1].a[0]) == 2 and l.a[1].a[0][0].k == "slice":
        return l.a[1].a[0][1]
    return None


def cond_range(e, gid, lab, data):
    it = gid.a[0]
    if not any(it is l for l in e.loops):
        return False
    if unique_of(gid, lab):
        return True
    var = core(lab).a[1].a[0][1]
    if not (isfn(it, "range") and (len(it.a[1]) == 1 or len(it.a[1]) == 2 and is_zero(it.a[1][0]))):
        return False
    n = scal(it.a[1][-1])
    return n.k == "item" and n.a[1] is var and core_rows(n.a[0]) is not data


def clustered(lab, data):
    for a in alts(lab):
        a = core(a)
        src = [a]
        if a.k == "elem":
            src = [y for x in appended(a.a[0]) for y in alts(x)]
        for x in src:
            x = core(x)
            if x.k not in ("call", "op"):
                return False
            d = core(x.a[1][0]) if x.a[1] else None
            if d is None:
                kw = dict(x.a[2])
                d = core(kw["data"]) if "data" in kw else None
            if d is None or not (d is data or d.k == "item" and core(d.a[0]) is data and d.a[1].k == "tuple" and d.a[1].a[0][0].k == "slice" and all(is_const(q, None) for q in d.a[1].a[0][0].a)):
                return False
    return True


def appended(t, seen=None):
    """elements put into a list by appends, comprehensions and literals"""
    seen = seen if seen is not None else set()
    if t in seen:
        return
    seen.add(t)
    if t.k == "phi":
        yield from appended(t.a[1], seen)
        yield from appended(t.a[2], seen)
    elif t.k == "store":
        if is_const(t.a[1], "#append") or is_const(t.a[1], "#extend"):
            v = t.a[2]
            if v.k == "tuple":
                yield from v.a[0]
            else:
                yield v
        yield from appended(t.a[0], seen)
    elif t.k in ("list", "tuple"):
        for x in t.a[0]:
            if x.k == "star":
                yield from appended(x.a[0], seen)
            else:
                yield x
    elif t.k == "comp":
        yield t.a[1]
    elif t.k == "op" and t.a[0] == "add":
        for x in t.a[1]:
            yield from appended(x, seen)


def elem_guards(e, gid):
    return [(c, v) for c, v in e.guards if c.k != "forall" and contains(c, gid)]


def size_of_rows(c):
    """the guard only asks how many rows the group has"""
    for a in bool_atoms(c):
        if a.k == "op" and a.a[0] in ("lt", "le", "eq", "ge", "gt", "ne") and len(a.a[1]) == 2:
            x, y = a.a[1]
            k = num(x) if num(x) is not None else num(y)
            if k is not None and k == int(k) and 0 <= k <= (2 if a.a[0] in ("lt", "ge") and num(y) is not None else 1):
                continue
        return False
    return True


def skips(chk, con, e, gid, r):
    for c, v in elem_guards(e, gid):
        if c.k == "op" and c.a[0] in ("in", "notin"):
            continue
        if size_of_rows(c):
            continue
        if raises(r, c, v):
            continue
        if truthy_list(c):
            continue
        chk.ob("complete", con, False, e.where, f"a group of rows is skipped when {show(c, 4)} is {not v}")
    chk.ob("complete", con, True, e.where, "")


def truthy_list(c):
    return all(x.k in ("list", "comp", "store", "dict") for x in alts(c))


def columns(chk, f, g, e, s, r, frame, sn, data):
    """'part' | 'removed' when s is Scope of one variable group mapped through the caller's scope (without one variable)"""
    ok = None
    for a in alts(s):
        q = query_of(a)
        if q is None and a.k == "elem":
            qs = [query_of(x) for x in appended(a.a[0])]
            if not qs or any(x is None for x in qs):
                return False
        elif q is None and a.k == "comp":
            return False
        else:
            qs = [q]
        for q in qs:
            if q is None:
                return False
            for x in alts(q):
                p = part_comp(chk, e, x, r, frame, sn, data)
                ok = False if not p or ok not in (None, p) else p
    return ok


def part_comp(chk, e, q, r, frame, sn, data):
    while isfn(q, "sorted", "list", "tuple", "set"):
        q = arg0(q)
    if q.k != "comp":
        return False
    elt, srcs, conds = q.a[1], q.a[2], q.a[3] if len(q.a) > 3 else ()
    x = scal(elt)
    if x.k == "elem":
        # removal of the conditioning variable from the own scope
        base = core(x.a[0])
        own = is_query(base, frame, sn)
        cs = list(conds)
        good = own and len(cs) == 1
        if good:
            c = cs[0]
            c = c[0] if isinstance(c, tuple) else c
            good = c.k == "op" and c.a[0] == "ne" and x in c.a[1]
        return "removed" if good else False
    if x.k != "item" or not is_query(core(x.a[0]), frame, sn) or conds:
        return False
    got = [scal(i) for i in alts(x.a[1])]
    if not any(i.k == "elem" for i in got):
        return False
    for i in got:
        if i.k == "elem":
            bad = not_part(i.a[0])
            chk.ob("columns", e.name + ":parts", not bad, e.where, f"the parts must be the variable groups: {bad}")
    return "part"


def not_part(t):
    """a selection of group members by something other than equality of their label"""
    for s in value_walk(t):
        if isfn(s, "where", "nonzero") and s.a[1] and s.a[1][0].k == "op" and s.a[1][0].a[0] in ("eq", "lt", "le", "ne", "gt", "ge"):
            g = group_mask(s.a[1][0])
            if g is None or not unique_of(g[1], g[0]) and not strip_unique(g[1], g[0]):
                return show(s.a[1][0], 3)
    return ""


def strip_unique(e, lab):
    b = strip_list(e.a[0])
    return contains(b, lambda q: isfn(q, "unique") and any(arg0(q) is l for l in alts(lab))) or contains(b, lambda q: isfn(q, "unique") and arg0(q) is lab)


def is_query(t, frame, sn):
    if t.k == "attr" and t.a[1] == "query":
        b = t.a[0]
        return scope_like(b, frame, sn)
    if t.k in ("phi",):
        return all(is_query(core(a), frame, sn) for a in alts(t))
    return contains(t, core(frame[sn])) and t.k in ("attr", "phi")


def kept(chk, con, e, r, kind):
    """the sub-circuit reaches the list of inputs unconditionally, and the constructor uses that list"""
    t = e.term
    ap = [x for x in r.events if x.kind == "call" and x.name in ("append",) and x.seq > e.seq and x.args and value_contains(x.args[0], t)]
    near = [x for x in ap if x.loops == e.loops]
    if near:
        x = near[0]
        gs = [[(c, v) for c, v in y.guards if c.k != "forall" and (c.k == "op" and c.a[0] in ("in", "notin") or (c, v) not in e.guards)] for y in near]
        lost = min((g for g in gs if not any(len(h) and all((c, not v) in h or (c, v) in h for c, v in g) and any((c, not v) in h for c, v in g) for h in gs)), key=len, default=[])
        lost = [(c, v) for c, v in lost if not (len(near) == 1 and c.k == "op" and c.a[0] in ("in", "notin") and not any(y.kind == "store_item" and y.term is t for y in r.events))]
        chk.ob("complete", con + ":collected", not lost, x.where, f"a learned sub-circuit is dropped unless {show(lost[0][0], 4) if lost else ''} is {lost[0][1] if lost else ''}")
    ct = [x for x in r.events if x.kind == "call" and x.name in CTORS and x.seq > e.seq and any(contains(v, t) for v in list(x.args) + list(x.kwargs.values()))]
    for x in ct:
        if x.loops == e.loops or len(x.loops) >= len(e.loops) and x.func is e.func:
            continue
        src = [l for v in list(x.args) + [v for k, v in x.kwargs.items() if k == "inputs"] for l in lists_in(v)]
        got = any(y.kind == "call" and y.name in ("append", "extend") and y.loops[:len(e.loops)] == e.loops and y.seq > e.seq and value_contains(y.args[0], t) for y in r.events) or any(l.k == "comp" and value_contains(l.a[1], t) for l in src)
        chk.ob("complete", con + ":gathered", got, x.where, "the sub-circuits of all groups must be gathered, not only one of them")
        cut = [s for v in list(x.args) + [v for k, v in x.kwargs.items() if k == "inputs"] for s in value_walk(v) if s.k == "item" and s.a[1].k == "slice" and not all(is_const(y, None) for y in s.a[1].a) and lists_in(s.a[0]) and value_contains(s.a[0], t)]
        chk.ob("complete", con + ":uncut", not cut, x.where, "all sub-circuits must be combined")
    want = {"Product": ("Product",), "Sum": ("Sum", "Product")}[kind]
    chk.ob("complete", con + ":" + kind, any(x.name in want for x in ct), e.where, f"the learned sub-circuits must be combined in a {kind}")


def count_of(t, lab, gid, data):
    """t is the number (or the share) of the group's rows"""
    t = scal(t)
    if isfn(t, "sum", "mean", "count_nonzero") and arg0(t) is not None:
        m = arg0(t)
        while isfn(m, "float", "double", "to", "int", "long") and arg0(m) is not None:
            m = arg0(m)
        g = group_mask(m)
        return g is not None and g[0] is lab and g[1] is gid
    if is_size(t):
        b = t
        while isfn(b, "int", "float", "len", "size"):
            b = arg0(b)
        if b.k == "item" and b.a[0].k == "attr":
            b = b.a[0].a[0]
        h = rows(b, data)
        if h is None:
            c = core(b)
            if c.k == "item":
                i = c.a[1].a[0][0] if c.a[1].k == "tuple" else c.a[1]
                g = group_mask(i)
                return g is not None and g[0] is lab and g[1] is gid
        return h is not None and h[0] == "group" and h[1] is lab and h[2] is gid
    return False


def pushes(t):
    """terms appended to / extended into / listed in a list-valued term"""
    return list(appended(t))


def push_events(r, t):
    """events that put the elements of list t into it"""
    ps = set(pushes(t))
    return [x for x in r.events if x.kind == "call" and x.name in ("append", "extend") and x.args and x.args[0] in ps]


def lists_in(v):
    """list-valued sources of a constructor's inputs: through Cat, alternatives, filters and channel adapters"""
    out, todo, seen = [], [v], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "phi":
            todo += [x.a[1], x.a[2]]
        elif x.k in ("list", "tuple", "store"):
            out.append(x)
        elif x.k == "comp":
            out.append(x)
            for y in walk(x.a[1]):
                if y.k == "elem" or y.k == "item":
                    todo.append(y.a[0])
        elif isfn(x, "Cat", "list", "tuple", "ModuleList"):
            kw = dict(x.a[2])
            i = kw.get("inputs") or (x.a[1][0] if x.a[1] else None)
            if i is not None:
                todo.append(i)
    return out


class Shares:
    """the weights of a mixture as monomials in: COUNT (rows of the group), N (all rows), TOTAL (sum of the weights), channel counts and list lengths"""

    def __init__(self, lab, gid, data, r):
        self.r = r
        self.lab, self.gid, self.data = lab, gid, data
        self.memo = {}
        self.reps, self.idx, self.bad = [], [], []

    def comb(self, xs, ys, s):
        out = []
        for x in xs:
            for y in ys:
                z = dict(x)
                for k, e in y.items():
                    z[k] = z.get(k, 0) + s * e
                    if not z[k]:
                        del z[k]
                if z not in out:
                    out.append(z)
        return out[:64]

    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = []
        v = self._of(t)
        out = []
        for x in v:
            if x not in out:
                out.append(x)
        self.memo[t] = out
        return out

    def union(self, ts):
        out = []
        for x in ts:
            for v in self.of(x):
                if v not in out:
                    out.append(v)
        return out

    def chan(self, t):
        t = scal(t)
        return t.a[0] if t.k == "attr" and t.a[1] in ("channels", "out_channels") else t.a[0].a[0] if t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "out_shape" else None

    def _of(self, t):
        t = scal(t)
        n = num(t)
        if n is not None:
            return [{}] if n == 1 else [{("C", n): 1}]
        if count_of(t, self.lab, self.gid, self.data):
            return [{"COUNT": 1, "N": -1}] if t.k == "op" and t.a[0] == "mean" else [{"COUNT": 1}]
        if t.k == "phi":
            c = t.a[0]
            keep = [t.a[1], t.a[2]]
            if c.k == "op" and c.a[0] in ("eq", "le") and any(is_zero(x) for x in c.a[1]) and isfn(scal(next(x for x in c.a[1] if not is_zero(x))), "sum"):
                keep = [t.a[2]]
            return self.union(keep)
        if self.chan(t) is not None:
            return [{("CH", self.chan(t)): 1}]
        if is_size(t) or isfn(t, "len"):
            b = t
            while isfn(b, "int", "float", "len", "size"):
                b = arg0(b)
            if b.k == "item" and b.a[0].k == "attr":
                b = b.a[0].a[0]
            return [{"N": 1}] if core(b) is self.data or b is self.lab or core(b) is core(self.lab) else [{("LEN", strip_list(b)): 1}]
        if t.k == "op" and t.a[0] == "div" and len(t.a[1]) == 2:
            return self.comb(self.of(t.a[1][0]), self.of(t.a[1][1]), -1)
        if t.k == "op" and t.a[0] == "mul" and len(t.a[1]) == 2:
            for i in (0, 1):
                if t.a[1][i].k in ("list", "tuple"):
                    self.rep(t.a[1][1 - i])
                    return self.union(t.a[1][i].a[0])
            return self.comb(self.of(t.a[1][0]), self.of(t.a[1][1]), 1)
        if isfn(t, "sum") and arg0(t) is not None:
            v = self.of(arg0(t))
            return [{"TOTAL": 1}] if any("COUNT" in x for x in v) else [{("?", t): 1}]
        if isfn(t, "clamp_min", "clamp", "max") and arg0(t) is not None and isfn(arg0(t), "sum"):
            return self.of(arg0(t))
        if t.k == "elem":
            return self.elems(t.a[0], t)
        if t.k == "comp":
            return self.of(t.a[1])
        if t.k in ("store", "list", "tuple"):
            if t.k == "store" and not is_const(t.a[1], "#append") and not is_const(t.a[1], "#extend"):
                return self.of(t.a[0]) + self.of(t.a[2])
            if t.k == "store":
                for x in push_events(self.r, t):
                    for l in x.loops:
                        if isfn(l, "range") and len(l.a[1]) == 1:
                            self.rep(l.a[1][0])
            return self.union(pushes(t))
        if t.k == "item":
            i = t.a[1]
            if t.a[0].k == "attr" and t.a[0].a[1] == "shape":
                return [{("?", t): 1}]
            for x in (i.a[0] if i.k == "tuple" else [i]):
                if not (x.k == "slice" or x.k == "const"):
                    self.idx.append(x)
                elif x.k == "slice" and not all(is_const(y, None) for y in x.a):
                    self.bad.append(t)
            return self.of(t.a[0])
        if isfn(t, "full", "full_like"):
            for y in walk(t.a[1][0]):
                if self.chan(y) is not None:
                    self.rep(y)
            v = t.a[1][1] if len(t.a[1]) > 1 else dict(t.a[2]).get("fill_value", NONE)
            return self.of(v)
        if isfn(t, "repeat", "expand", "repeat_interleave", "tile", "repeat_e", "rearrange_e", "reduce_e", "tensor", "as_tensor", "cat", "stack", "concat", "unsqueeze", "reshape", "view", "squeeze", "to", "float", "double", "clone", "list", "tuple", "asarray", "array", "from_numpy", "numpy", "tolist", "permute", "transpose", "expand_as", "rearrange", "Parameter", "contiguous", "detach", "view_as"):
            a = arg0(t)
            if isfn(t, "repeat", "expand", "repeat_interleave", "tile"):
                for y in [y for x in list(t.a[1]) + [v for _, v in t.a[2]] if x is not a for y in walk(x)]:
                    if self.chan(y) is not None:
                        self.rep(y)
            return self.of(a) if a is not None else [{("?", t): 1}]
        if isfn(t, "zip", "enumerate"):
            return self.union(t.a[1])
        return [{("?", t): 1}]

    def rep(self, n):
        o = self.chan(n)
        if o is not None and o not in self.reps:
            self.reps.append(o)

    def elems(self, it, t):
        if it.k == "phi":
            return self.elems(it.a[1], t) + self.elems(it.a[2], t)
        if isfn(it, "list", "tuple", "tolist") and arg0(it) is not None:
            return self.elems(arg0(it), t)
        if it.k in ("store", "list", "tuple", "comp"):
            return self.of(it)
        if it.k == "item" and it.a[1].k == "slice":
            self.bad.append(it)
        return [{("?", t): 1}]


def weights(chk, con, e, r, lab, gid, data, val):
    """every mixture over the group's sub-circuits is weighted with the groups' frequencies"""
    t = e.term
    sums = [x for x in r.events if x.kind == "call" and x.name == "Sum" and x.seq > e.seq and "weights" in x.kwargs and value_contains(x.kwargs.get("inputs", NONE), t)]
    if not sums:
        chk.ob("weights", con, False, e.where, "the mixture over the groups must be weighted with their frequencies")
        return
    glp = [l for l in e.loops if strip_list(l) is strip_list(gid.a[0])]
    for x in sums:
        w = x.kwargs["weights"]
        sh = Shares(lab, gid, data, r)
        ms = sh.of(w)
        # the inputs' builder
        src = lists_in(x.kwargs.get("inputs", NONE))
        inner = []
        aps = []
        for l in src:
            for a in push_events(r, l):
                if a not in aps and value_contains(a.args[0], t) and any(strip_list(y) is strip_list(gid.a[0]) for y in a.loops):
                    aps.append(a)
                    k = max(i for i, y in enumerate(a.loops) if strip_list(y) is strip_list(gid.a[0]))
                    inner = [strip_list(y) for y in a.loops[k + 1:]] or inner
        why = ""
        for m in ms:
            m = dict(m)
            if m.pop("COUNT", 0) != 1:
                why = why or "a weight does not depend on the number of rows of the group the sub-circuit was learned on"
                continue
            tot = m.pop("TOTAL", 0) < 0
            rows_ = m.pop("N", 0) < 0
            if not tot and not rows_:
                why = why or "the frequencies are not divided by the number of rows (or by their sum)"
            if any(k[0] == "C" for k in m) and not tot:
                why = why or "weights are scaled by a constant"
            chs = {k[1]: v for k, v in m.items() if k[0] == "CH"}
            want = {o: -1 for o in sh.reps}
            if set(map(strip_list, chs)) != set(map(strip_list, want)) or any(v != -1 for v in chs.values()):
                why = why or "a group's weight must be shared by the channels of its sub-circuit"
            ln = {k[1]: v for k, v in m.items() if k[0] == "LEN"}
            if set(ln) != set(inner) or any(v != -1 for v in ln.values()):
                why = why or "a group's weight must be divided among its sub-circuits" if inner else why or "weights are divided by something other than the number of rows"
            odd = [k for k in m if k[0] == "?"]
            if odd:
                why = why or f"weights must be proportional to the group sizes (not {show(odd[0][1], 3)})"
        if not ms:
            why = "the weights must be the group frequencies"
        chk.ob("weights", con, not why, x.where, why)
        # alignment
        al = ""
        for i in sh.idx:
            ok = i.k in ("idx", "elem") or i.k == "op" and i.a[0] == "eq"
            if not ok:
                al = f"weights are re-indexed by {show(i, 3)}"
        if sh.bad:
            al = "only a part of the weights is used"
        for o in sh.reps:
            oo = [y for y in alts(o)]
            own = [y for y in walk(o) if y.k == "elem"]
            if not any(value_contains(y, t) for y in oo) and not any(y.k == "elem" for y in oo):
                al = al or "the channel count must be that of the weighted sub-circuit"
        # same groups are skipped for weights as for sub-circuits
        B = [b for b in r.events if b.kind == "call" and b.name in ("append", "extend") and b.args and not value_contains(b.args[0], t) and b.func.qual == x.func.qual
             and any(count_of(s, lab, gid, data) for s in value_walk(b.args[0])) and any(strip_list(y) is strip_list(gid.a[0]) for y in b.loops) and value_contains(w, b.args[0])]
        for b in B:
            gb = {(c, v) for c, v in b.guards if c.k != "forall" and value_contains(c, gid)}
            for a in aps:
                ga = {(c, v) for c, v in a.guards if c.k != "forall" and value_contains(c, gid)}
                if a.loops[:len(glp)] and b.loops and (ga - gb or gb - ga) and not extra_ok(r, ga ^ gb):
                    al = al or "weights and sub-circuits are collected for different groups"
            if inner:
                k = max(i for i, y in enumerate(b.loops) if strip_list(y) is strip_list(gid.a[0]))
                bi = [y.a[1][0] if isfn(y, "range") and len(y.a[1]) == 1 else y for y in b.loops[k + 1:]]
                bl = []
                for y in bi:
                    y = scal(y)
                    bl.append(strip_list(arg0(y)) if isfn(y, "len") else strip_list(y))
                rp = [y for y in walk(b.args[0]) if isfn(y, "len")]
                if bl != inner and not (not bl and rp):
                    al = al or "a weight must be recorded for each of the group's sub-circuits"
        for s in value_walk(w):
            if isfn(s, "reversed", "flip", "sorted", "sort", "roll", "argsort", "topk") and any(count_of(q, lab, gid, data) for q in value_walk(s)):
                al = al or "weights are reordered"
        chk.ob("weights", con + ":aligned", not al, x.where, "each weight must belong to the sub-circuit at the same position: " + al)


def extra_ok(r, gs):
    """guards that only validate (the other way raises) or test emptiness of the group's parts"""
    return all(size_of_rows(c) or raises(r, c, v) or truthy_list(c) for c, v in gs)


def raises(r, c, v):
    if any(x.kind == "raise" and (c, not v) in x.guards for x in r.events):
        return True
    if c.k == "op" and c.a[0] == "or" and v or c.k == "op" and c.a[0] == "and" and not v:
        want = {neg(a, v) for a in flat(c, c.a[0])}
        for x in r.events:
            if x.kind != "raise":
                continue
            have = set()
            for a, p in x.guards:
                if a.k == "op" and a.a[0] == "or" and p:
                    have |= {neg(y, False) for y in flat(a, "or")}
                else:
                    have.add(neg(a, not p))
            if want <= have:
                return True
        return False
    return False


def flat(c, o):
    if c.k == "op" and c.a[0] == o:
        return [y for x in c.a[1] for y in flat(x, o)]
    return [c]


INV = {"eq": "ne", "ne": "eq", "in": "notin", "notin": "in", "lt": "ge", "ge": "lt"}


def neg(a, flip):
    """a, negated when flip, in one canonical polarity"""
    while isfn(a, "not"):
        a, flip = arg0(a), not flip
    if a.k == "op" and a.a[0] in ("ne", "notin"):
        return (INV[a.a[0]], a.a[1], not flip)
    if a.k == "op":
        return (a.a[0], a.a[1], flip)
    return (a, None, flip)


def indicator(chk, con, e, r, lab, gid, s, frame, sn):
    """the branch's indicator leaf is one-hot at the value of the branch's rows, on the conditioning variable, which the sub-circuit no longer has"""
    var = core(lab).a[1].a[0][1]
    prods = [x for x in r.events if x.kind == "call" and x.name == "Product" and x.seq > e.seq and x.loops == e.loops and any(value_contains(v, e.term) for v in list(x.args) + list(x.kwargs.values()))]
    if not prods:
        chk.ob("indicator", con, False, e.where, "a branch must combine the indicator of its value with the sub-circuit of the remaining variables")
        return
    ind = None
    for x in prods:
        for v in list(x.args) + list(x.kwargs.values()):
            for y in appended(v):
                for z in alts(y):
                    z = core(z)
                    if isfn(z, "Categorical"):
                        ind = ind or z
    ok = ind is not None
    chk.ob("indicator", con, ok, e.where, "a branch must combine the indicator of its value with the sub-circuit of the remaining variables")
    if not ok:
        return
    kw = dict(ind.a[2])
    q = query_of(kw.get("scope", NONE))
    chk.ob("indicator", con + ":variable", q is not None and q.k == "list" and len(q.a[0]) == 1 and q.a[0][0] is var, e.where, "the indicator must be on the conditioning variable")
    p = kw.get("probs")
    good = False
    if p is not None:
        b = core(p)
        if b.k == "store":
            i = b.a[1]
            last = i.a[0][-1] if isinstance(i, T) and i.k == "tuple" else i
            good = isfn(b.a[0], "zeros", "zeros_like", "new_zeros") and num(b.a[2]) == 1 and isinstance(last, T) and scal(last) is gid and (i.k != "tuple" or all(z.k == "slice" and all(is_const(y, None) for y in z.a) or ell(z) for z in i.a[0][:-1]))
        elif contains(b, lambda z: isfn(z, "one_hot")):
            good = any(isfn(z, "one_hot") and contains(z, gid) for z in walk(b))
        elif contains(b, lambda z: z.k == "op" and z.a[0] == "eq" and gid in z.a[1] and any(isfn(y, "arange") for y in z.a[1])):
            good = True
    chk.ob("indicator", con + ":value", good, e.where, "the indicator must be one at the branch's value and zero elsewhere")
    # removed from the sub-circuit
    rem = False
    for a in alts(s):
        qq = query_of(a)
        if qq is not None and qq.k == "comp" and len(qq.a) > 3 and qq.a[3]:
            c = qq.a[3][0]
            c = c[0] if isinstance(c, tuple) else c
            rem = c.k == "op" and c.a[0] == "ne" and var in c.a[1]
    chk.ob("indicator", con + ":removed", rem, e.where, "the conditioning variable must be removed from the branch's remaining variables")


def leaves(ctx, chk):
    """leaf creation in the learners: every variable of the scope, fitted on the given rows only"""
    ix = ctx.ix
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.cls is not None or not f.qual.startswith("spflow.learn.") or "<locals>" in f.qual:
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == "maximum_likelihood_estimation" for n in ast.walk(f.node)) or "expectation" in f.module.rel or "gradient" in f.module.rel:
            continue
        r = ctx.run_func(f)
        fits = [e for e in r.events if e.kind == "call" and e.name == "maximum_likelihood_estimation" and not e.inlined or e.kind == "call" and e.name == "maximum_likelihood_estimation" and e.func.qual.startswith("spflow.learn.")]
        for e in fits:
            con = f.name
            d = e.args[0] if e.args else e.kwargs.get("data")
            d0 = core(d) if d is not None else None
            holder = next((x for x in r.events if x.kind == "call" and x.inlined and x.callee is not None and x.callee.qual == e.func.qual and x.seq < e.seq), None)
            own = None
            if e.func.qual == f.qual:
                own = next((v for k, v in r.params.items() if "data" in k), None)
            else:
                calls = [x for x in r.events if x.kind == "call" and x.name == e.func.name and x.seq < e.seq]
                if calls:
                    own = next((v for k, v in calls[-1].kwargs.items() if "data" in k), None)
                    if own is None and calls[-1].args:
                        own = next((v for v in calls[-1].args if contains(v, lambda q: q.k == "param" and "data" in str(q.a[-1]))), None)
            chk.ob("leaves", con + ":rows", d0 is not None and own is not None and d0 is core(own), e.where, "a leaf must be fitted on exactly the rows handed to its creation")
            lf = e.recv
            base = lf
            while base is not None and (isfn(base, "to") or base.k == "phi"):
                base = arg0(base) if base.k != "phi" else next(iter(alts(base)))
            if base is None or base.k != "call":
                continue
            kw = dict(base.a[2])
            # class and size of the template
            tpl = base.a[0]
            if tpl.k == "attr" and tpl.a[1] == "__class__":
                m = tpl.a[0]
                oc = kw.get("out_channels")
                chk.ob("leaves", con + ":channels", oc is not None and contains(oc, m) and contains(oc, lambda q: q.k == "attr" and q.a[1] in ("channels", "out_channels")), e.where, "a leaf keeps its template's number of channels")
                q = query_of(kw.get("scope", NONE))
                x = q
                while x is not None and isfn(x, "sorted", "list", "tuple", "set"):
                    x = arg0(x)
                inter = x is not None and (isfn(x, "intersection", "and_", "bitand") or x.k == "op" and x.a[0] in ("and", "and_", "bitand", "&")) and contains(x, m)
                if x is not None and x.k == "comp":
                    cs = [c[0] if isinstance(c, tuple) else c for c in (x.a[3] if len(x.a) > 3 else ())]
                    inter = len(cs) == 1 and cs[0].k == "op" and cs[0].a[0] == "in" and contains(x, m)
                chk.ob("leaves", con + ":scope", inter, e.where, "a leaf covers exactly the requested variables of its template")
                ap = [a for a in r.events if a.kind == "call" and a.name == "append" and a.args and value_contains(a.args[0], base) and a.loops == e.loops and a.func.qual == e.func.qual]
                lp = e.loops[-1] if e.loops else None
                g = [(c, v) for c, v in (ap[0].guards if ap else e.guards) if contains(c, m) and c.k != "forall"]
                okg = all(isect_nonempty(c, v, m) for c, v in g)
                chk.ob("leaves", con + ":all", bool(ap) and okg and lp is not None and not any(s.k == "item" and s.a[1].k == "slice" for s in walk(lp)), e.where, "every template that covers a requested variable must contribute a leaf")
            else:
                g = [(c, v) for c, v in e.guards if contains(c, d0) and c.k != "forall" and e.func.qual == f.qual]
                small = [(c, v) for c, v in g if norm_small(c, v, d0)]
                chk.ob("leaves", con + ":fitted", len(g) == len(small) or e.func.qual != f.qual, e.where, "a leaf may only stay unfitted when it has almost no rows")


def norm_small(c, v, d):
    for a in bool_atoms(c):
        if not (a.k == "op" and a.a[0] in ("lt", "le", "eq") and len(a.a[1]) == 2):
            return False
        x, y = a.a[1]
        k = num(x) if num(x) is not None else num(y)
        if k is None or k > 2 or not contains(a, d):
            return False
        if a.a[0] in ("lt", "le") and v != (num(x) is not None):
            return False
    return True


def isect_nonempty(c, v, m):
    for a in bool_atoms(c):
        if contains(a, lambda q: isfn(q, "intersection", "and_", "bitand", "isdisjoint") or q.k == "comp"):
            if isfn(a, "isdisjoint"):
                return not v
            if a.k == "op" and a.a[0] == "eq" and any(is_zero(x) for x in a.a[1]):
                return not v
            if a.k == "op" and a.a[0] in ("lt", "le"):
                x, y = a.a[1]
                return v and (num(x) == 0 and a.a[0] == "lt" or num(x) == 1 and a.a[0] == "le") or not v and (num(y) == 1 and a.a[0] == "lt" or num(y) == 0 and a.a[0] == "le")
            return v
        return False
    return True


def adapters(ctx, chk):
    """channel adapters keep every input, in order"""
    ix = ctx.ix
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.cls is not None or not f.qual.startswith("spflow.learn.") or "adapt" not in f.name:
            continue
        r = ctx.run_func(f)
        if r.value is None:
            continue
        p = next(iter(r.params.values()))
        ap = [e for e in r.events if e.kind == "call" and e.name == "append"]
        W = f"{f.file}:{f.line}"
        if not ap:
            ok = all(a.k == "comp" and not (len(a.a) > 3 and a.a[3]) and all(value_contains(x, lambda q: q.k == "elem" and q.a[0] is p) for x in alts(a.a[1])) for a in alts(r.value))
            chk.ob("complete", f.name, ok, W, "every input must be kept")
            continue
        own = [e for e in ap if e.loops and e.loops[-1] is p and value_contains(e.args[0], lambda q: q.k == "elem" and q.a[0] is p)]
        gs = [[(c, v) for c, v in e.guards if c.k != "forall"] for e in own]
        full = any(not g for g in gs) or any(len(g) == 1 and [(g[0][0], not g[0][1])] in gs for g in gs)
        chk.ob("complete", f.name, full and len(own) == len(ap), W, "every input must be kept, adapted or as it is")
        for e in r.events:
            if e.kind == "call" and e.name == "Sum":
                oc = e.kwargs.get("out_channels")
                cmpd = [c for c, v in e.guards if c.k == "op" and c.a[0] in ("lt", "ne") and v]
                chk.ob("complete", f.name + ":channels", oc is not None and any(oc in c.a[1] for c in cmpd), e.where, "an adapted input must get the common number of channels")


def tree(ctx, chk, f, g, r, rec, names):
    """recursion over a tree's adjacency: every neighbour except the parent, once"""
    con = g.name
    init = [e for e in r.events if e.kind == "call" and e.inlined and e.name == g.name]
    if not init or len(names) < 2:
        return
    frame = {n: T("param", init[0].callee.qual, n) for n in names}
    node, parent = names[0], names[1]
    for e in rec:
        W = e.where
        ch = e.kwargs.get(node)
        pa = e.kwargs.get(parent)
        c = scal(ch) if ch is not None else None
        lp = e.loops[-1] if e.loops else None
        conds = []
        src = lp
        if lp is not None and lp.k == "comp":
            conds = [(x[0], True) if isinstance(x, tuple) else (x, True) for x in (lp.a[3] if len(lp.a) > 3 else ())]
            src = lp.a[2][0] if len(lp.a[2]) == 1 else lp
        ok = c is not None and c.k == "elem" and c.a[0] is src and src.k == "item" and src.a[1] is frame[node]
        chk.ob("tree", con + ":children", ok, W, "the recursion must visit the neighbours of the node")
        chk.ob("tree", con + ":parent", pa is not None and pa is frame[node], W, "a child must be told its parent")
        g_ = [(x, v) for x, v in list(e.guards) + conds if c is not None and contains(x, c) and x.k != "forall"]
        okp = bool(g_) and all(x.k == "op" and x.a[0] in ("eq", "ne") and frame[parent] in x.a[1] and v == (x.a[0] == "ne") for x, v in g_)
        chk.ob("tree", con + ":skip", okp, W, "exactly the parent is skipped")
        sums = [x for x in r.events if x.kind == "call" and x.name == "Sum" and x.loops == e.loops and x.seq > e.seq and (value_contains(x.kwargs.get("inputs", NONE), e.term) or any(value_contains(v, e.term) for v in x.args))]
        chk.ob("tree", con + ":transition", bool(sums), W, "each edge to a child must become one transition mixture over the child's circuit")
        for x in sums:
            w = x.kwargs.get("weights")
            oc = x.kwargs.get("out_channels")
            H = lambda q: q.k == "param" and "hidden" in str(q.a[-1])
            if w is not None:
                full = [s for s in walk(w) if isfn(s, "full", "rand", "ones")]
                sh = [s.a[1][0] for s in full if s.a[1] and s.a[1][0].k == "tuple"]
                ok = bool(sh) and all(len(s.a[0]) == 4 and H(core(s.a[0][1])) and H(core(s.a[0][2])) for s in sh)
                ok = ok and all(uniform(q) for q in full if isfn(q, "full"))
                chk.ob("tree", con + ":states", ok, x.where, "a transition maps all hidden states of the child to all hidden states of the node")
            else:
                chk.ob("tree", con + ":states", oc is not None and H(core(oc)), x.where, "a transition must have one output per hidden state of the node (out_channels = number of hidden states)")
        # the adjacency is symmetric
        put = [x for x in r.events if x.kind == "call" and x.name in ("append", "add") and x.recv is not None and x.args and x.recv.k in ("item", "store", "phi") and "edges" in show(x.loops[-1] if x.loops else NONE, 6)]
        ends = [(x.recv.a[1], x.args[0]) for x in put if x.recv.k == "item"]
        if ends:
            chk.ob("tree", con + ":neighbours", all((b, a) in ends for a, b in ends), put[0].where, "every tree edge must make its end points neighbours of each other")
        ap = [x for x in r.events if x.kind == "call" and x.name == "append" and x.loops == e.loops and x.args and value_contains(x.args[0], e.term)]
        chk.ob("tree", con + ":collected", bool(ap) and not [1 for x, v in ap[0].guards if (x, v) not in e.guards and x.k != "forall" and contains(x, e.term)] and any(value_contains(ap[0].args[0], x.term) for x in sums if x.term is not None) if ap else bool(sums) and not e.loops, W, "the messages of all children must be combined")
        pr = [x for x in r.events if x.kind == "call" and x.name in ("ElementwiseProduct", "Product") and x.seq > e.seq and contains(x.kwargs.get("inputs", x.args[0] if x.args else NONE), e.term)]
        chk.ob("tree", con + ":product", bool(pr), W, "a node multiplies its emission with the messages of all children")
        for x in pr:
            em = x.kwargs.get("inputs", x.args[0] if x.args else NONE)
            cut = [q for q in value_walk(em) if q.k == "item" and (q.a[1].k == "slice" and not all(is_const(y, None) for y in q.a[1].a) or num(q.a[1]) is not None) and lists_in(q.a[0]) and value_contains(q.a[0], e.term)]
            chk.ob("tree", con + ":all", not cut, x.where, "the messages of all children must be combined")
            ok = value_contains(em, lambda q: q.k == "call" and isfn(q, "Bernoulli", "Categorical", "Normal") and any(query_of(v) is not None and query_of(v).k == "list" and frame[node] in query_of(v).a[0] for _, v in q.a[2]) or q.k == "call" and q.a[0].k == "param" and q.a[1] and q.a[1][0] is frame[node])
            ok = ok and all(q.a[1] and q.a[1][0] is frame[node] for q in value_walk(em) if q.k == "call" and q.a[0].k == "param")
            chk.ob("tree", con + ":emission", ok, x.where, "a node's emission is on its own variable")


def forwarded(ctx, chk):
    """options a learner shares with the functions it calls are handed on"""
    ix = ctx.ix
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.cls is not None or not f.qual.startswith(AREAS) or "<locals>" in f.qual or f.name.startswith("_"):
            continue
        if not any(k in f.qual for k in ("learn.cnet", "learn.learn_spn", "learn.prometheus", "zoo.hclt")):
            continue
        if not f.name.startswith("learn"):
            continue
        helpers = tuple(sorted({c.name for c in ix.functions.values() if c.cls is None and c.qual.startswith(f.module.name + ".") and c.name.startswith(("_learn", "_build"))}))
        r = ctx.run_func(f, opaque=helpers)
        for e in r.events:
            c = e.callee
            if e.kind != "call" or c is None or c.cls is not None or not c.qual.startswith(AREAS) or e.depth > 0 or e.name == f.name or "<locals>" in c.qual:
                continue
            for p in c.all_param_names():
                if p not in r.params or p in ("data", "scope"):
                    continue
                v = e.kwargs.get(p)
                ok = v is not None and (value_contains(v, r.params[p]) or contains(v, r.params[p]))
                if p in ("dtype", "device", "num_features", "out_channels", "num_repetitions"):
                    continue
                chk.ob("options", f"{f.name}->{c.name}:{p}", ok, e.where, f"{c.name} must be called with the caller's {p}")
        # a list of learned trees / channels: one per request
        for p in ("out_channels", "num_trees"):
            if p not in r.params:
                continue
            sub = [e for e in r.events if e.kind == "call" and e.depth == 0 and e.callee is not None and e.callee.qual.startswith(AREAS) and e.loops and e.callee.name.startswith(("_learn", "_build"))]
            for e in sub:
                part = partial_iter(r, e.loops[-1])
                chk.ob("complete", f"{f.name}:{p}", not part, e.where, f"every requested component must be learned, not {part}")
                ct = [x for x in r.events if x.kind == "call" and x.name in ("Sum", "Cat") and x.depth == 0 and x.seq > e.seq and value_contains(x.kwargs.get("inputs", x.args[0] if x.args else NONE), e.term)]
                chk.ob("complete", f"{f.name}:{p}:combined", bool(ct), e.where, "all learned components must be part of the result")
                for x in ct:
                    i = x.kwargs.get("inputs", x.args[0] if x.args else NONE)
                    cut = [q for q in value_walk(i) if q.k == "item" and q.a[1].k == "slice" and not all(is_const(y, None) for y in q.a[1].a) and value_contains(q.a[0], e.term)]
                    chk.ob("complete", f"{f.name}:{p}:uncut", not cut, x.where, "all learned components must be part of the result")
                    w = x.kwargs.get("weights")
                    if x.name == "Sum" and w is not None:
                        ok = all(uniform(a) for a in alts(w) if not is_const(a, None))
                        chk.ob("weights", f"{f.name}:uniform", ok, x.where, "the learned trees are mixed uniformly")


def uniform(w):
    w = core(w)
    if w.k == "phi":
        return all(uniform(a) for a in alts(w))
    if isfn(w, "full") and len(w.a[1]) == 2 and w.a[1][0].k == "tuple" and w.a[1][1].k == "op" and w.a[1][1].a[0] == "div":
        dims = [scal(x) for x in w.a[1][0].a[0]]
        n, d = w.a[1][1].a[1]
        return num(n) == 1 and len(dims) == 4 and scal(d) is dims[1]
    return isfn(w, "softmax") or isfn(w, "ones", "full_like", "ones_like")


def emissions(ctx, chk):
    """leaf factories create leaves on the variable they are asked for"""
    ix = ctx.ix
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.cls is not None or not f.qual.startswith("spflow.zoo.hclt."):
            continue
        for g in ast.walk(f.node):
            if not isinstance(g, (ast.FunctionDef, ast.Lambda)) or g is f.node or len(g.args.args) != 1 or not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Scope" for n in ast.walk(g)):
                continue
            name = g.name if isinstance(g, ast.FunctionDef) else "<lambda>"
            r = ctx.run_func(f, fresh=(name,))
            for e in r.events:
                if e.kind != "call" or e.func.node is not g or e.name == "Scope":
                    continue
                q = query_of(e.kwargs.get("scope", NONE))
                if q is None:
                    continue
                p = T("param", e.func.qual, g.args.args[0].arg)
                chk.ob("tree", f.name + ":emission", q.k == "list" and len(q.a[0]) == 1 and core(q.a[0][0]) is p, e.where, "a leaf factory must create leaves on the variable it is asked for")
                if "out_channels" in e.kwargs and "num_hidden_cats" in r.params:
                    chk.ob("tree", f.name + ":states", core(e.kwargs["out_channels"]) is r.params["num_hidden_cats"], e.where, "an emission has one channel per hidden state")
                for p in ("K", "num_cats"):
                    if p in e.kwargs and "num_cats" in r.params:
                        chk.ob("tree", f.name + ":categories", value_contains(e.kwargs[p], r.params["num_cats"]), e.where, "an emission has one probability per category")


def hclt(ctx, chk):
    """the trees maximise mutual information; every learned tree becomes one component"""
    ix = ctx.ix
    for f in sorted(ix.functions.values(), key=lambda f: f.qual):
        if f.cls is not None or not f.qual.startswith("spflow.zoo.hclt."):
            continue
        if f.module.rel.endswith("chow_liu.py"):
            r = ctx.run_func(f, opaque=("topk_mst", "kruskal_mst_complete", "pairwise_mi_binary", "pairwise_mi_categorical"))
            for e in r.events:
                if e.kind != "call" or e.name not in ("topk_mst", "kruskal_mst_complete"):
                    continue
                w = e.kwargs.get("weights") or (e.args[0] if e.args else NONE)
                mn = e.kwargs.get("minimize", TRUE)
                mi = [s for s in walk(w) if isfn(s, "pairwise_mi_binary", "pairwise_mi_categorical")]
                pol = sign(w)
                ok = bool(mi) and (pol < 0 and is_const(mn, True) or pol > 0 and is_const(mn, False))
                chk.ob("tree", f.name + ":objective", ok, e.where, "the tree must maximise the pairwise mutual information")
                for s in mi:
                    kw = dict(s.a[2])
                    for p in ("weights", "pseudocount", "dtype", "num_cats", "chunk_size_pairs"):
                        if p in r.params:
                            chk.ob("options", f"{f.name}:{p}", p in kw and core(kw[p]) is core(r.params[p]), e.where, f"the mutual information must be estimated with the caller's {p}")
                for p in ("num_trees", "dropout_prob"):
                    if p in r.params:
                        chk.ob("options", f"{f.name}:{p}", p in e.kwargs and core(e.kwargs[p]) is core(r.params[p]), e.where, f"the tree search must use the caller's {p}")


def sign(t, s=1):
    while True:
        if isfn(t, "neg", "negative"):
            s, t = -s, arg0(t)
        elif isfn(t, "detach", "cpu", "numpy", "astype", "to", "double", "float", "clone", "asarray") and arg0(t) is not None:
            t = arg0(t) if t.k == "op" or t.a[0].k != "attr" else t.a[0].a[0]
        elif t.k == "phi":
            xs = {sign(a, s) for a in alts(t)}
            return xs.pop() if len(xs) == 1 else 0
        elif t.k == "op" and t.a[0] == "mul" and len(t.a[1]) == 2 and any(num(x) == -1 for x in t.a[1]):
            s, t = -s, next(x for x in t.a[1] if num(x) != -1)
        else:
            return s
