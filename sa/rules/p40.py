"""Randomness discipline: seeded calls are functions of the seed; global state survives every call."""
import ast

from ..lib import *
from ..terms import *
from ..ctx import *

ID = "P40"
TITLE = "Seeded calls are reproducible and no call leaves global state changed"
EXPL = ("Effect analysis over every function: with the seed (or generator) bound to an opaque non-None value, every random draw on any path must consume a generator seeded from it, or happen in a forked random state after re-seeding from it; "
        "with the seed bound to None no draw may happen in a forked (hence discarded) random state; every re-seeding of a global generator must lie inside a fork that restores it; and every change of a global torch setting must be undone in a finally block with the value read before.")
ASSUME = ("torch.random.fork_rng restores the forked generators on exit", "user-supplied callables are outside the analysis")
SEED = ("seed", "random_state", "sampling_seed", "random_seed", "rng_seed")
GEN = ("generator", "rng", "gen")
DRAW = {"rand", "randn", "randint", "randperm", "rand_like", "randn_like", "randint_like", "bernoulli", "multinomial", "normal", "poisson",
        "uniform_", "normal_", "random_", "exponential_", "bernoulli_", "geometric_", "cauchy_", "log_normal_",
        "xavier_uniform_", "xavier_normal_", "kaiming_uniform_", "kaiming_normal_", "trunc_normal_", "orthogonal_"}
METH = {"sample", "rsample", "shuffle", "choice", "choices", "permutation", "random", "integers", "standard_normal", "sample_with_evidence"} | DRAW
SETTERS = {"set_default_dtype": "get_default_dtype", "set_default_device": "get_default_device", "set_grad_enabled": "is_grad_enabled",
           "use_deterministic_algorithms": "are_deterministic_algorithms_enabled", "set_num_threads": "get_num_threads", "set_rng_state": "get_rng_state",
           "seterr": "geterr", "setrecursionlimit": "getrecursionlimit"}
RESEED = ("torch.manual_seed", "torch.seed", "torch.random.manual_seed", "torch.random.seed", "torch.cuda.manual_seed", "torch.cuda.manual_seed_all", "numpy.random.seed", "random.seed")


def target(e):
    """qualified library name of a call event, if known"""
    for t in (e.recv, e.target):
        if t is not None and t.k == "global":
            return t.a[0]
    if e.term is not None and e.term.k == "call" and e.term.a[0].k == "global":
        return e.term.a[0].a[0]
    return ""


def is_draw(e):
    if e.inlined:
        return False
    q = target(e)
    last = q.split(".")[-1] if q else e.name
    if q:
        return q.startswith(("torch.", "numpy.random.", "random.")) and (last in DRAW or (q.startswith(("numpy.random.", "random.")) and last not in ("default_rng", "Random", "Generator", "seed", "SeedSequence"))) and not q.startswith(("torch.distributions", "torch.quasirandom"))
    return e.name in METH and e.recv is not None


def fork_call(c):
    """the fork_rng call terms a context manager value consists of, with the conditions choosing them"""
    out = []
    for g, a in galts(c):
        if any(known(q) not in (None, b) for q, b in g):
            continue
        k = a.a[0].a[-1] if a.k == "call" and a.a[0].k in ("global", "attr") else None
        n = k.split(".")[-1] if isinstance(k, str) else None
        kw = dict(a.a[2]) if a.k == "call" else {}
        out.append((g, n == "fork_rng", kw.get("enabled", a.a[1][1] if a.k == "call" and len(a.a[1]) > 1 else const(True))))
    return out


def known(c):
    """truth of a test whose operand is a given seed, None or a constructed object"""
    if c.k == "const":
        return bool(c.a[0])
    if c.k == "op" and c.a[0] in ("is", "isnot") and len(c.a[1]) == 2 and is_const(c.a[1][1], None):
        x = c.a[1][0]
        if is_const(x, None):
            return c.a[0] == "is"
        if x.k == "attr" and x.a[1] in SEED or x.k == "call" and x.a[0].k == "global" and x.a[0].a[0].split(".")[-1] in ("Generator", "int", "default_rng", "Random", "RandomState") or x.k in ("op", "const"):
            return c.a[0] == "isnot"
    if c.k == "op" and c.a[0] in ("not", "bool") and len(c.a[1]) == 1:
        v = known(c.a[1][0])
        return v if v is None or c.a[0] == "bool" else not v
    return None


def helper_ctx(ctx, c):
    """a project context manager that itself forks and re-seeds"""
    if c.k != "call" or c.a[0].k not in ("global", "func"):
        return False
    fi = ctx.ix.functions.get(c.a[0].a[0]) if c.a[0].k == "global" else None
    if fi is None:
        return False
    names = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(fi.node) if isinstance(n, (ast.Attribute, ast.Name))}
    return "fork_rng" in names and "manual_seed" in names


def forks(ctxs):
    """(possibly, certainly) inside an enabled fork"""
    may = must = False
    for c in ctxs:
        alt = fork_call(c)
        on = [f and known(v) is not False for _, f, v in alt]
        sure = [f and known(v) is True for _, f, v in alt]
        may = may or any(on)
        must = must or all(sure) and bool(sure)
    return may, must


def lexical(fi, names):
    return any((n.attr if isinstance(n, ast.Attribute) else n.id) in names for n in ast.walk(fi.node) if isinstance(n, (ast.Attribute, ast.Name)))


def bound(ctx, f, value):
    en = ctx.engine()
    r = en.run(f, f.cls, bind=value)
    return r


def seeded(ctx, chk, f, names):
    sv = {n: T("op", "given", (T("param", f.qual, n),), ()) for n in names}
    r = bound(ctx, f, sv)
    vals = set(sv.values())

    def derived(t):
        return t is not None and contains(t, lambda x: x in vals or x.k == "attr" and x.a[1] in SEED)

    def possible(guards):
        return all(known(c) is None or known(c) == p for c, p in guards)

    gens, reseeds, n = [], [], 0
    for e in r.events:
        if e.kind != "call":
            continue
        if e.name == "manual_seed" or target(e) in RESEED:
            arg = next(iter(e.args), None) or next(iter(e.kwargs.values()), None)
            if target(e):
                reseeds.append((e, derived(arg)))
            elif e.recv is not None:
                # a constant seed is the callee's business only if it was handed in as its seed
                handed = e.func is not f and arg is not None and not contains(arg, lambda x: x.k == "param") and any(isinstance(n, ast.Name) and n.id in SEED + ("self",) for a in e.node.args + [k.value for k in e.node.keywords] for n in ast.walk(a))
                gens.append((e, e.recv, derived(arg) or handed))

    def same_seed_tests(x, e):
        """re-seeding x happens on every path to e that a given seed allows"""
        return all(known(c) == p or (c, p) in e.guards for c, p in x.guards if derived(c))

    def rng_ok(t, e):
        if t is None:
            return False
        al = [a for g, a in galts(t) if possible(g)]
        for a in al:
            if derived(a):
                continue
            last = [ok and same_seed_tests(x, e) for x, h, ok in gens if x.seq < e.seq and any(core(g) is core(a) for g in alts(h))]
            if not last or not last[-1]:
                return False
        return bool(al)

    def global_ok(e):
        if any(helper_ctx(ctx, c) and derived(c) for c in e.ctxs):
            return True
        for c in e.ctxs:
            if forks((c,))[0]:
                # the last re-seeding before the draw inside the fork decides
                inner = [x for x in reseeds if c in x[0].ctxs and x[0].seq < e.seq]
                if inner and inner[-1][1] and same_seed_tests(inner[-1][0], e):
                    return forks((c,))[1]
        return False

    def consumes(e):
        vs = list(e.args) + list((e.kwargs or {}).values())
        return any(derived(v) for v in vs if isinstance(v, T)) and (e.callee is not None and not e.inlined or e.name == "manual_seed" or target(e) in RESEED or target(e).split(".")[-1] in ("default_rng", "Random", "RandomState", "Generator")) or (e.kwargs or {}).get("generator") is not None and derived(e.kwargs["generator"]) or e.recv is not None and derived(e.recv) and not e.inlined

    for e in r.events:
        if e.kind != "call":
            continue
        where = f"{f.qual.split('.', 1)[1]}"
        if not possible(e.guards) or e.func.module.name.endswith(".rdc"):
            continue
        if is_draw(e):
            g = e.kwargs.get("generator") if e.kwargs else None
            recv_rng = e.recv is not None and not target(e) and (rng_ok(e.recv, e) or e.name in ("shuffle", "choice", "choices", "permutation", "random", "integers", "standard_normal"))
            ok = rng_ok(g, e) if g is not None else rng_ok(e.recv, e) if recv_rng else global_ok(e)
            n += 1
            chk.ob("seeded-draw", f"{where}:{e.name}", ok, e.where, "a draw of a seeded call must come from a generator seeded by it (or a forked, re-seeded random state)")
        elif not e.inlined and e.callee is not None:
            ps = [p for p in e.callee.all_param_names() if p in SEED + GEN]
            if ps:
                n += 1
                chk.ob("seed-passed", f"{where}:{e.callee.name}", any(rng_ok(e.kwargs.get(p), e) for p in ps if e.kwargs.get(p) is not None), e.where, f"the seed must reach {e.callee.name}")
    if n:
        chk.ob("seed-used", f.qual.split(".", 1)[1], any(e.kind == "call" and consumes(e) for e in r.events), f"{f.file}:{f.line}", "a given seed must seed some generator")
    return n


def unseeded(ctx, chk, f, names):
    r = bound(ctx, f, {n: const(None) for n in names})
    for e in r.events:
        if e.kind == "call" and is_draw(e):
            chk.ob("unseeded-advances", f"{f.qual.split('.', 1)[1]}:{e.name}", not forks(e.ctxs)[0], e.where, "without a seed a draw must advance the caller's random state, not a discarded copy of it")


def global_state(ctx, chk, f):
    r = ctx.run_func(f, f.cls)
    ev = [e for e in r.events if e.kind == "call"]
    for e in ev:
        q = target(e)
        last = q.split(".")[-1]
        if q in RESEED:
            chk.ob("global-reseed", f"{f.qual.split('.', 1)[1]}:{last}", any(forks((c,))[0] or helper_ctx(ctx, c) for c in e.ctxs), e.where, "the global random state may be re-seeded only inside a fork that restores it")
            continue
        if last in SETTERS and q.startswith(("torch.", "numpy.", "sys.")):
            if last == "set_grad_enabled" and any(c is e.term for x in r.events for c in x.ctxs):
                continue
            fin = [t for t in e.tries if t[0] == "finally"]
            arg = next(iter(e.args), None) or next(iter(e.kwargs.values()), None)
            if fin:
                continue
            tries = [t for t in e.tries if t[0] == "try" and t[3]]
            later = [x for x in ev if target(x).split(".")[-1] == last and x.seq > e.seq and any(t[0] == "finally" for t in x.tries)]

            def restored(x):
                v = next(iter(x.args), None) or next(iter(x.kwargs.values()), None)
                ids = [t[1] for t in x.tries if t[0] == "finally"]
                if v is None or x.func is not e.func or len(x.guards) > len(e.guards):
                    return False
                if not all(contains(a, lambda t: t.k in ("call", "op") and SETTERS[last] in show(t, 2)) for a in alts(v)):
                    return False
                # the value read before the change: the reading call precedes this one
                reads = [y.seq for y in ev if y.term is not None and contains(v, lambda t: t is y.term) or target(y).split(".")[-1] == SETTERS[last] or y.name == SETTERS[last]]
                if not any(s < e.seq for s in reads) or reads_after(f, e, SETTERS[last]):
                    return False
                if any(t[1] in ids for t in tries):
                    return True
                between = [y for y in r.events if y.kind in ("call", "raise") and e.seq < y.seq and not any(t[1] in ids for t in y.tries)]
                first = [y.seq for y in r.events if any(t[0] == "try" and t[1] in ids for t in y.tries)]
                return not any(y.seq < min(first, default=x.seq) for y in between)

            chk.ob("setting-restored", f"{f.qual.split('.', 1)[1]}:{last}", any(restored(x) for x in later), e.where, f"{last} must be undone in a finally block with the value read before")


def reads_after(f, e, getter):
    """is the only reading of the setting lexically after the change?"""
    lines = [n.lineno for n in ast.walk(e.func.node) if isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")) == getter]
    return bool(lines) and min(lines) > e.node.lineno


def calls_seed(f):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "seed" for n in ast.walk(f.node))


def check(ctx, chk):
    fs = [f for f in ctx.ix.functions.values() if f.kind in ("function", "method", "static", "classmethod") and f.parent is None]
    n = m = 0
    direct = {f for f in fs if lexical(f, set(SETTERS) | {"manual_seed"}) or calls_seed(f)}
    # a private helper that re-seeds is judged where it is called
    via = {f.name for f in direct if f.name.startswith("_") and any(g is not f and lexical(g, {f.name}) for g in fs)}
    judged = {f for f in direct if f.name not in via} | {f for f in fs if via and f.name not in via and lexical(f, via)}
    for f in fs:
        names = [p for p in f.all_param_names() if p in SEED]
        gens = [p for p in f.all_param_names() if p in GEN]
        try:
            if names or gens:
                n += seeded(ctx, chk, f, names + gens)
            if names:
                m += 1
                unseeded(ctx, chk, f, names)
            if f in judged:
                global_state(ctx, chk, f)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as x:
            chk.note(f"{f.qual}: {type(x).__name__} {x}")
    chk.floor("seeded-draw", 5)
    chk.note(f"{len(fs)} functions, {m} seeded")
