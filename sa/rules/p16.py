"""Scope algebra: sets of query and evidence variables."""
import itertools
from ..lib import *
from ..setdom import *
from ..index import AnalysisError

ID = "P16"
TITLE = "Scopes behave as sets of query and evidence variables"
EXPL = ("Abstract interpretation of every Scope method over the Venn-region domain: one abstract element per way a variable can belong to the query or evidence of the scopes involved, for every pattern of empty regions "
        "up to two (predicates) and the free configuration (constructions); the result must be the set-algebraic definition, independent of the order in which variables are listed. Class-level rule: immutable, hash agrees with equality.")
ASSUME = ("Python set and tuple semantics",)


def check(ctx, chk):
    ix = ctx.ix
    S = ix.cls("spflow.meta.data.scope.Scope")
    if S is None:
        raise AnalysisError("Scope vanished")
    und = []

    def loc(name):
        f = ix.find_method(S, name)
        return f"{f.file}:{f.line}" if f else ""

    def mk(q, e=()):
        o = Obj(S)
        o.f.update(query=tuple(q), evidence=tuple(e))
        return o

    def ask(rule, sub, name, fn, want, say):
        """fn() -> value; want: predicate over ('ok', value) / ('raise', None)"""
        if ix.find_method(S, name) is None:
            return
        try:
            got = ("ok", fn(SetDom(ix, S)))
        except Raised:
            got = ("raise", None)
        except Undecided as u:
            und.append((sub, str(u)))
            return
        except RecursionError:
            got = ("raise", None)
        chk.ob(rule, f"Scope.{name}:{sub}", bool(want(got)), loc(name), f"{say}; got {'an error' if got[0] == 'raise' else disp(got[1])}")

    def disp(v):
        return f"query={v.f.get('query')} evidence={v.f.get('evidence')}" if isinstance(v, Obj) else repr(v)

    def isscope(g, q, e, ordered=None):
        v = g[1]
        if g[0] != "ok" or not isinstance(v, Obj):
            return False
        vq, ve = v.f.get("query"), v.f.get("evidence")
        if not isinstance(vq, tuple) or not isinstance(ve, tuple):
            return False
        if ordered is not None:
            return vq == tuple(ordered[0]) and ve == tuple(ordered[1])
        return len(vq) == len(set(vq)) and len(ve) == len(set(ve)) and set(vq) == set(q) and set(ve) == set(e)

    # ---- constructor
    good = [("a list", ([2, 0], [1]), (2, 0), (1,)), ("tuples", ((2, 0), (1, 3)), (2, 0), (1, 3)), ("an int", (4, None), (4,), ()), ("an int with evidence", (4, 5), (4,), (5,)),
            ("nothing", (None, None), (), ()), ("variable zero", (0, None), (0,), ()), ("evidence zero", (1, 0), (1,), (0,)), ("a range", (range(3), None), (0, 1, 2), ())]
    for n, a, q, e in good:
        ask("constructor", n, "__init__", lambda d, a=a: d.new(*a), lambda g, q=q, e=e: isscope(g, q, e, (q, e)), f"Scope{a} must hold query {q} and evidence {e}, in the given order, as tuples")
    ask("constructor", "a set", "__init__", lambda d: d.new({3, 1}, {2}), lambda g: isscope(g, {1, 3}, {2}), "any iterable must be accepted")
    for n, a in (("duplicate query", ([0, 1, 0], [])), ("duplicate evidence", ([0], [2, 2])), ("overlap", ([0, 1], [1, 2])), ("overlap, evidence first", ([5, 1], [1])), ("negative query", ([0, -1], [])),
                 ("negative evidence", ([0], [-1])), ("negative int", (-1, None)), ("negative int evidence", (0, -2)), ("evidence without query", ([], [1])), ("evidence without query (int)", (None, 0)),
                 ("same variable", (3, 3)), ("duplicate tuple", ((1, 1), ()))):
        ask("constructor-rejects", n, "__init__", lambda d, a=a: d.new(*a), lambda g: g[0] == "raise", f"Scope{a} must be rejected")

    # ---- Venn regions of two scopes
    regions = [(a, b) for a in "qe-" for b in "qe-" if (a, b) != ("-", "-")]

    def two(sub):
        A = [[i for i, (r, _) in enumerate(regions) if i in sub and r == k] for k in "qe"]
        B_ = [[i for i, (_, r) in enumerate(regions) if i in sub and r == k] for k in "qe"]
        return A, B_
    patterns = [()] + [(i,) for i in range(8)] + list(itertools.combinations(range(8), 2)) + [tuple(range(8))]
    # operators that must not depend on emptiness are judged on the free configuration and on every small one
    for sub in patterns:
        (qa, ea), (qb, eb) = two(sub)
        for rev in (False, True):
            if rev:
                qb, eb = qb[::-1], eb[::-1]
            nm = "regions " + (",".join("".join(regions[i]) for i in sub) or "none") + (" reversed" if rev else "")
            valid = all(q or not e for q, e in ((qa, ea), (qb, eb)))     # the constructor's own invariant
            x, y = mk(qa, ea), mk(qb, eb)
            if not valid:
                continue
            T_ = lambda b: (lambda g: g[0] == "ok" and (g[1] == b) and isinstance(g[1], bool))
            ask("predicates", nm, "isdisjoint", lambda d: d.call_method("isdisjoint", x, y), T_(not set(qa) & set(qb)), "isdisjoint is about shared query variables")
            ask("predicates", nm, "equal_query", lambda d: d.call_method("equal_query", x, y), T_(set(qa) == set(qb)), "equal_query compares query sets")
            ask("predicates", nm, "equal_evidence", lambda d: d.call_method("equal_evidence", x, y), T_(set(ea) == set(eb)), "equal_evidence compares evidence sets")
            ask("predicates", nm, "__eq__", lambda d: d.eq(x, y), T_(set(qa) == set(qb) and set(ea) == set(eb)), "scopes are equal exactly when both sets are")
            q = set(qa) | set(qb)
            e = (set(ea) | set(eb)) - q
            if q:
                ask("join", nm, "join", lambda d: d.call_method("join", x, y), lambda g: isscope(g, q, e, (sorted(q), sorted(e))), f"the join has query {sorted(q)} and evidence {sorted(e)}, in ascending order")
                ask("join", nm, "join_all", lambda d: d.call_method("join_all", None, [x, y]), lambda g: isscope(g, q, e), "join_all of two scopes is their join")
    # ---- unary
    for q, e in (((), ()), ((0,), ()), ((2, 0), ()), ((1,), (0, 3)), ((4, 2, 3), (1,))):
        x = mk(q, e)
        T_ = lambda b: (lambda g: g[0] == "ok" and g[1] == b and isinstance(g[1], type(b)))
        nm = f"{q}|{e}"
        ask("unary", nm, "empty", lambda d: d.call_method("empty", x), T_(not q), "empty means no query variable")
        ask("unary", nm, "is_conditional", lambda d: d.call_method("is_conditional", x), T_(bool(e)), "conditional means it has evidence variables")
        ask("unary", nm, "__len__", lambda d: d.call_method("__len__", x), T_(len(q)), "the length is the number of query variables")
        ask("unary", nm, "copy", lambda d: d.call_method("copy", x), lambda g: isscope(g, q, e, (q, e)), "a copy has the same variables in the same order")
        ask("unary", nm, "as_scope", lambda d: d.call_method("as_scope", None, x), lambda g: isscope(g, q, e, (q, e)), "as_scope keeps a scope as it is")
        for rv in set(q) | {9} | set(e):
            ask("unary", f"{nm}:{rv}", "remove_from_query", lambda d: d.call_method("remove_from_query", x, rv),
                (lambda g: g[0] == "raise" if rv not in q else (isscope(g, (), (), ([v for v in q if v != rv], e)) if len(q) > 1 or not e else True)), f"removing {rv} leaves the other query variables, in order, and the evidence")
    for a, q in ((3, (3,)), ([2, 1], (2, 1)), ((0,), (0,)), (None, ()), (0, (0,))):
        ask("unary", f"as_scope({a})", "as_scope", lambda d: d.call_method("as_scope", None, a), lambda g: isscope(g, q, (), (q, ())), "as_scope of variables is the scope with exactly these query variables")
    # ---- collections: every place the offending pair can take
    for n in (0, 1, 2, 3, 4):
        base = [mk([i], [7]) for i in range(n)]
        for kind, val in (("disjoint", True),) + ((("clash", False),) if n > 1 else ()):
            for i, j in ([(None, None)] if kind == "disjoint" else itertools.combinations(range(n), 2)):
                xs = list(base)
                if i is not None:
                    xs[j] = mk([j + 10, i], [7])
                ask("collections", f"{n} scopes {kind} {i},{j}", "all_pairwise_disjoint", lambda d: d.call_method("all_pairwise_disjoint", None, list(xs)), lambda g: g == ("ok", val), f"scopes {i} and {j} of {n} {'share a query variable' if i is not None else 'are all disjoint'}")
        for odd in [None] + list(range(n)):
            for f in ("query", "evidence"):
                xs = [mk([1, 0] if k % 2 else [0, 1], [5, 6] if k % 2 else [6, 5]) for k in range(n)]
                if odd is not None:
                    xs[odd] = mk([0, 2], [5, 6]) if f == "query" else mk([0, 1], [5])
                ask("collections", f"{n} scopes, {odd} differs in {f}", "all_equal", lambda d: d.call_method("all_equal", None, list(xs)), lambda g: g == ("ok", odd is None or n == 1), f"scope {odd} of {n} differs in its {f}")
        if n:
            xs = [mk([20 + i, i], [i + 1, 30 + i]) for i in range(n)]
            q = {v for x in xs for v in x.f["query"]}
            e = {v for x in xs for v in x.f["evidence"]} - q
            ask("collections", f"{n} scopes", "join_all", lambda d: d.call_method("join_all", None, list(xs)), lambda g: isscope(g, q, e), f"join_all has query {sorted(q)} and evidence {sorted(e)}")
    # ---- value semantics
    d = SetDom(ix, S)
    x, y, z = mk((0, 2), (5, 1)), mk((2, 0), (1, 5)), mk((0, 2), (1,))
    hf = ix.find_method(S, "__hash__")
    decs = S.node.decorator_list
    dc = [k for k in decs if isinstance(k, ast.Call) and ast.unparse(k.func).split(".")[-1] == "dataclass"]
    frozen = any(kw.arg == "frozen" and isinstance(kw.value, ast.Constant) and kw.value.value is True for k in dc for kw in k.keywords) or ix.find_method(S, "__setattr__") is not None
    where = f"{S.module.rel}:{S.node.lineno}"
    chk.ob("value", "Scope:immutable", frozen, where, "a scope is shared by modules and used as a key: it must be immutable")
    try:
        if d.eq(x, y) is True:
            if hf is not None:
                hx, hy = d.call_fn(hf, [x], {}), d.call_fn(hf, [y], {})
                chk.ob("value", "Scope:hash", hk(hx) == hk(hy), f"{hf.file}:{hf.line}", "equal scopes must have equal hashes, whatever order their variables are listed in")
            else:
                gen = any(isinstance(k, (ast.Name, ast.Attribute)) and ast.unparse(k).split(".")[-1] == "dataclass" for k in decs) or dc
                eqoff = any(kw.arg == "eq" and isinstance(kw.value, ast.Constant) and kw.value.value is False for k in dc for kw in k.keywords)
                chk.ob("value", "Scope:hash", not (gen and frozen and not eqoff), where, "the generated hash depends on the order of the variables while equality does not: equal scopes must have equal hashes")
    except (Undecided, Raised) as u:
        und.append(("hash", str(u)))
    muts = [e for f in ix.functions.values() if f.cls is S and f.name not in ("__init__", "__post_init__", "__setstate__") for e in ast.walk(f.node)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "__setattr__"]
    chk.ob("value", "Scope:mutators", not muts, where, "no method may change a scope in place")
    for u in und[:10]:
        chk.note(f"undecided: {u}")
    chk.floor("join", 20)
    chk.floor("constructor", 5)
    chk.floor("collections", 10)
