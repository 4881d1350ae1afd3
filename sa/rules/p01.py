"""Cache discipline: one cache per query, threaded everywhere, every likelihood memoised, nothing survives."""
from ..ctx import *
from ..index import AnalysisError

ID = "P01"
TITLE = "Each sub-circuit is evaluated once per query through the caller's cache"
EXPL = ("Interprocedural dataflow over every function that receives a cache: at each call site whose callee accepts "
        "a cache, the argument must be the caller's own cache (by keyword where the callee is memoised) and the data "
        "passed to a child likelihood must be the caller's data up to shape/device changes; every concrete "
        "log_likelihood is memoised or a pure delegation; typestate of the memo wrapper (lookup key == store key, "
        "per instance and per method, no cross-query storage).")
ASSUME = ("torch.distributions objects' .sample() take no cache",)
NAMES = {"log_likelihood", "_sample", "sample", "mpe", "sample_with_evidence", "_expectation_maximization_step",
         "marginalize", "probability", "forward", "signed_logabs_and_sign"}


def is_dist(t, ctx):
    """receiver is (only) a torch distribution object"""
    for a in alts(t):
        if a.k == "call":
            f = a.a[0]
            nm = f.a[1] if f.k == "attr" else str(f.a[0])
            if "torch.distributions" in nm or nm in ("distribution", "conditional_distribution", "_torch_distribution_class",
                                                     "_torch_distribution_class_with_support"):
                continue
            if f.k == "attr" and f.a[0].k == "self":
                continue
            if nm.split(".")[-1][:1].isupper() and nm not in ctx.ix.classes:
                continue
            return False
        elif a.k in ("obj", "new"):
            return False
        else:
            return False
    return True


def own_cache(c):
    """the function's own cache (or a fresh one made because the caller gave none)"""
    if c is None:
        return False
    if not contains(c, lambda t: is_param(t, "cache")):
        return False
    for g, a in galts(c):
        if contains(a, lambda t: is_param(t, "cache")):
            continue
        if not any(contains(x, lambda t: is_param(t, "cache")) for x, _ in g):
            return False  # on some paths the caller's cache is dropped for a reason unrelated to it
    return True


def plain_data(t, names=("data", "evidence", "x", "samples")):
    """data up to shape / device / clone"""
    for a in alts(t):
        while True:
            if a.k == "op" and a.a[1] and (a.a[0] in VIEW_OPS or a.a[0] in ("clone", "copy")):
                a = a.a[1][0]
            elif a.k == "phi":
                return plain_data(a, names)
            else:
                break
        if not is_param(a):
            return False
    return True


def check(ctx, chk):
    ix = ctx.ix
    funcs = [f for f in sorted(ix.functions.values(), key=lambda f: f.qual) if "cache" in f.all_param_names()]
    seen = set()
    for f in funcs:
        if f.module.name == "spflow.utils.cache":
            continue
        clss = [f.cls]
        for cls in clss:
            r = ctx.run_func(f, cls)
            for e in r.events:
                if e.kind != "call" or e.idx in ("op", "builtin") or e.func is not f:
                    continue
                accepts = e.callee is not None and "cache" in e.callee.all_param_names()
                byname = e.callee is None and e.name in NAMES
                if not (accepts or byname):
                    continue
                if byname and e.recv is not None and is_dist(e.recv, ctx):
                    continue
                if e.recv is None and byname:
                    continue
                c = e.kwargs.get("cache")
                # a different query on different data legitimately owns another cache
                d = e.kwargs.get("data") or e.kwargs.get("evidence")
                con = f"{f.qual}->{e.name}"
                fresh_data = d is not None and not contains(d, lambda t: is_param(t, "data") or is_param(t, "evidence"))
                nodata = d is None and e.name in ("sample", "mpe")
                if f.qual.endswith("._sample") and (fresh_data or nodata) and e.name in ("log_likelihood", "sample", "mpe"):
                    ok = c is None or not own_cache(c) or is_const(c, None)
                    chk.ob("fresh-query-own-cache", con, ok, e.where,
                           "a nested query on different data must not write into the caller's cache")
                    continue
                kw = any(k.arg == "cache" for k in getattr(e.node, "keywords", [])) or any(
                    k.arg is None for k in getattr(e.node, "keywords", []))
                chk.ob("cache-forwarded", con, own_cache(c), e.where,
                       f"call must pass the caller's cache on, got {show(c, 3) if c is not None else 'nothing'}")
                memo = e.name in ("log_likelihood", "marginalize") or (e.callee is not None and "cached" in e.callee.decorators)
                if memo and own_cache(c):
                    chk.ob("cache-by-keyword", con, kw, e.where, "memoised methods accept the cache by keyword only")
                if e.name == "log_likelihood" and f.name in ("log_likelihood", "_expectation_maximization_step", "sample_with_evidence"):
                    dt = d if d is not None else (e.args[0] if e.args else None)
                    if dt is not None:
                        chk.ob("same-data", con, plain_data(dt), e.where,
                               f"children must be evaluated on the caller's data, got {show(dt, 4)}")
    chk.floor("cache-forwarded", 60)
    # every concrete likelihood memoised
    for c in ctx.modules():
        f = ix.find_method(c, "log_likelihood")
        ok = "cached" in f.decorators
        why = "memoised"
        if not ok:
            r = ctx.run(c, "log_likelihood")
            ok = r.value is None or not r.returns or pure_delegation(r, ctx)
            why = "delegation or unsupported" if ok else "computes a likelihood without storing it in the cache"
        chk.ob("memoised", f"{c.name}.log_likelihood", ok, f"{f.file}:{f.node.lineno}", why)
    chk.floor("memoised", 30)
    internals(ctx, chk)


def pure_delegation(r, ctx):
    for _, t in r.returns:
        for a in alts(t):
            if a.k == "call" and a.a[0].k == "attr" and a.a[0].a[1] in ("log_likelihood", "signed_logabs_and_sign"):
                continue
            if a.k == "item" and a.a[0].k == "call":
                continue
            if is_const(a, None):
                continue
            return False
    return True


def base_cache(t):
    """a cache object that is the caller's, or a new one only when the caller passed none"""
    for g, a in galts(t):
        if is_param(a, "cache"):
            continue
        if a.k == "call" and str(a.a[0].a[0]).endswith("Cache"):
            if any(b and c.k == "op" and c.a[0] == "is" and contains(c, lambda x: is_param(x, "cache")) for c, b in g) or \
                    any((not b) and contains(c, lambda x: is_param(x, "cache")) for c, b in g):
                continue
        return False
    return True


def internals(ctx, chk):
    ix = ctx.ix
    C = ix.cls("spflow.utils.cache.Cache")
    dec = ix.func("spflow.utils.cache.cached")
    where = f"{dec.file}:{dec.line}"
    r = probe(ctx, "spflow.utils.cache", "def p(func, mod, data, cache):\n    return cached(func)(mod, data, cache=cache)\n",
              opaque_quals={m.qual for m in C.methods.values()})
    calls = [e for e in r.events if e.kind == "call"]
    get = [e for e in calls if e.name == "get" and e.recv is not None and base_cache(e.recv)]
    sets = [e for e in calls if e.name == "set" and e.recv is not None and base_cache(e.recv)]
    comp = [e for e in calls if e.name == "func"]
    chk.ob("memo-wrapper", "cached:lookup", len(get) >= 1, where, "the memo wrapper must look the value up in the caller's cache")
    chk.ob("memo-wrapper", "cached:store", len(sets) >= 1, where, "the memo wrapper must store the computed value in the caller's cache")
    for e in sets:
        key = e.args[:-1]
        v = e.args[-1] if e.args else None
        chk.ob("memo-key", "cached:store-key", any(g.args == key for g in get), e.where,
               "the key stored under must be the key looked up")
        chk.ob("memo-key", "cached:key-parts", any(contains(k, lambda t: t.k == "attr" and t.a[1] in ("__name__", "__qualname__")) for k in key)
               and any(is_param(k, "mod") for k in key), e.where, "the key must name the method and the module instance")
        chk.ob("memo-value", "cached:stored-value", v is not None and v.k == "call" and is_param(v.a[0], "func"), e.where,
               "the stored value must be the value computed")
    for e in comp:
        chk.ob("memo-compute", "cached:compute", base_cache(e.kwargs.get("cache", NONE)) and e.args[:2] == (e.args[0], e.args[1])
               and is_param(e.args[0], "mod") and is_param(e.args[1], "data"), e.where,
               "the wrapped method must receive the same module, data and cache")
    gt = {e.term for e in get}
    ct = {e.term for e in comp}
    for g, a in galts(r.value):
        ok = a in ct or (a in gt and any(c.k == "op" and c.a[0] in ("is", "isnot") and contains(c, a) and
                                         ((c.a[0] == "is") != b) for c, b in g))
        chk.ob("memo-value", "cached:returned-value", ok, where,
               "the wrapper must return the stored value when present, the computed value otherwise")
    stored_all = any(not e.guards or all(any(contains(c, x) for x in gt) for c, b in e.guards) for e in sets)
    chk.ob("memo-value", "cached:always-stored", stored_all, where, "every computed value must be stored")
    # storage layout
    rg, rs = ctx.run(C, "get"), ctx.run(C, "set")
    mn = lambda t: is_param(t, "method_name")
    md = lambda t: is_param(t, "module")
    for a in alts(rg.value):
        if is_const(a, None):
            continue
        chk.ob("cache-key", "Cache.get", contains(a, mn) and contains(a, md), f"{C.methods['get'].file}:{C.methods['get'].line}",
               "values are looked up per method and per module")
    st = [e for e in rs.events if e.kind == "store_item" and contains(e.term, lambda t: is_param(t, "value"))]
    chk.ob("cache-key", "Cache.set:stores", len(st) >= 1, f"{C.methods['set'].file}:{C.methods['set'].line}", "set must store the value")
    for e in st:
        chk.ob("cache-key", "Cache.set", contains(e.idx, md) and (contains(e.target, mn) or contains(e.idx, mn)), e.where,
               "values are stored per method and per module")
    for m in ("set", "__getitem__"):
        rr = ctx.run(C, m)
        for e in rr.events:
            if e.kind == "store_item":
                chk.ob("cache-locked", f"Cache.{m}", any(contains(c, lambda t: self_attr(t) and "lock" in t.a[1]) for c in e.ctxs), e.where,
                       "cache tables are only extended while holding the lock")
    ro = ctx.run(C, "__init__")
    for a in ("_cache", "extras"):
        es = [e for e in ro.events if e.kind == "store_attr" and e.idx == a]
        chk.ob("cache-per-query", f"Cache.__init__:{a}", bool(es) and all(not contains(e.term, lambda t: t.k == "global" and "spflow" in str(t.a[0])) for e in es),
               f"{C.methods['__init__'].file}:{C.methods['__init__'].line}", "cache tables are created per cache object")
    # nothing keeps a cache alive across queries; module identity is the key
    for f in ix.functions.values():
        import ast
        a = f.node.args
        for d in list(a.defaults) + [k for k in a.kw_defaults if k is not None]:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "Cache":
                chk.ob("cache-per-query", f.qual + ":default", False, f"{f.file}:{f.line}", "a default argument creates one cache shared by all queries")
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "Cache":
                for t in n.targets:
                    bad = isinstance(t, (ast.Attribute, ast.Subscript))
                    chk.ob("cache-per-query", f"{f.qual}:{ast.unparse(t)}", not bad, f"{f.file}:{n.lineno}",
                           "a cache may not outlive the query that created it")
    for c in ctx.modules(concrete=False):
        for m in ("__eq__", "__hash__"):
            f = ix.find_method(c, m)
            chk.ob("module-identity", f"{c.name}.{m}", f is None, f"{c.module.rel}:{c.node.lineno}",
                   "modules are cache keys by identity and may not redefine equality")
