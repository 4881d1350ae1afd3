"""Autoencoding circuits: what evidence each encoder query conditions on, which columns it returns, and the latent divergences."""
from fractions import Fraction
from ..lib import *
from ..terms import *
from ..ctx import *
from .p55 import isnan

ID = "P62"
TITLE = "Autoencoding circuits encode, decode and score with exactly the evidence given"
EXPL = ("Evidence-layout analysis of every joint encoder (helpers inlined): for each query the matrix handed to the circuit is [x | z] with exactly the documented block observed and the other "
        "missing, likelihood and sampling see the same matrix through one cache, the returned columns are those of the queried block, mode, temperature and options reach the sampling context; "
        "column ranges and leaf scopes partition the joint variables; the per-family latent divergence, moments and decoding point are compared with their closed forms as polynomials.")
ASSUME = ("the circuit's own inference satisfies the other properties", "clamping to the machine epsilon does not count as a change of value")


class Stuck(Exception):
    pass


FLAT = {"to", "contiguous", "clone", "float", "double", "type_as", "detach"}


def fname(t):
    if t.k == "op":
        return t.a[0]
    if t.k == "call" and isinstance(t.a[0], T):
        return str(t.a[0].a[-1]).split(".")[-1]
    return None


def args_of(t):
    return list(t.a[1])


def settled(guards):
    """truth of 'param is None' conditions on a path"""
    d = {}
    st = list(guards)
    while st:
        c, b = st.pop()
        if c.k == "op" and c.a[0] == "not":
            st.append((c.a[1][0], not b))
        elif c.k == "op" and (c.a[0] in ("and", "and_") and b or c.a[0] in ("or", "or_") and not b):
            st += [(x, b) for x in c.a[1]]
        elif c.k == "op" and c.a[0] in ("is", "isnot", "eq", "ne") and any(is_const(x, None) for x in c.a[1]):
            o = [x for x in c.a[1] if not is_const(x, None)]
            for x in o:
                v = b == (c.a[0] in ("is", "eq"))
                if d.setdefault(x, v) != v:
                    d[None] = True
    return d


OPTIONAL = set()


def isnone(t, d, cs):
    if t in d:
        return d[t]
    if is_const(t, None):
        return True
    if t.k == "phi":
        a, b = isnone(t.a[1], d, cs), isnone(t.a[2], d, cs)
        if a == b:
            return a
        c = t.a[0]
        if c in cs:
            return a if cs[c] else b
        if c.k == "op" and c.a[0] in ("is", "isnot") and any(is_const(x, None) for x in c.a[1]):
            v = isnone([x for x in c.a[1] if not is_const(x, None)][0], d, cs)
            if v is not None:
                return a if v == (c.a[0] == "is") else b
        return None
    if t.k == "param":
        return None if t.a[1] in OPTIONAL else False
    return False if t.k in ("op", "tuple", "list", "dict") else None


def consistent(g):
    d = {}
    for c, b in g:
        if d.setdefault(c, b) != b:
            return False
    cs = d
    d = settled(g)
    if None in d:
        return False
    for x, v in list(d.items()):
        n = isnone(x, {k: q for k, q in d.items() if k is not x}, cs)
        if n is not None and n != v:
            return False
    return True


def absent(name, g):
    """True / False / None: the optional argument is None on this path"""
    ps = {s for c, _ in g for s in walk(c) if s.k == "param" and s.a[1] == name}
    for q in ps:
        c = T("op", "is", (q, NONE), ())
        t, f = consistent(tuple(g) + ((c, True),)), consistent(tuple(g) + ((c, False),))
        if t != f:
            return t
    return None


def block(t, g):
    """[(guards, source)]: source is a parameter name or 'missing'"""
    out = []
    for g1, x in galts(t, g):
        if not consistent(g1):
            continue
        n = fname(x)
        if x.k == "phi":
            out += block(x, g1)
        elif x.k == "param":
            out.append((g1, x.a[1]))
        elif n in FLAT:
            out += block(args_of(x)[0], g1)
        elif n == "rearrange":
            p = str(dict(x.a[2])["pattern"].a[0]).replace(" ", "")
            if p not in ("b...->b(...)",):
                raise Stuck(f"pattern {p}")
            out += block(args_of(x)[0], g1)
        elif n in ("reshape", "view"):
            a = args_of(x)
            rest = a[1].a[0] if len(a) == 2 and a[1].k == "tuple" else a[1:]
            if len(rest) != 2 or num(rest[1]) != -1:
                raise Stuck(show(x, 3))
            out += block(a[0], g1)
        elif n == "flatten":
            out += block(args_of(x)[0], g1)
        elif n in ("full", "full_like", "new_full"):
            v = dict(x.a[2]).get("fill_value", args_of(x)[-1])
            if not isnan(v):
                out.append((g1, "constant " + show(v, 2)))
            else:
                size = args_of(x)[0] if n == "full" else args_of(x)[1]
                out.append((g1, ("missing", size)))
        elif n == "_build_evidence" or x.k == "call":
            raise Stuck(show(x, 2))
        else:
            raise Stuck(show(x, 3))
    return out


def evidence(t, g):
    """[(guards, xblock, zblock)] of an evidence matrix"""
    out = []
    for g1, x in galts(t, g):
        if not consistent(g1):
            continue
        n = fname(x)
        if n in FLAT:
            out += evidence(args_of(x)[0], g1)
            continue
        if n not in ("cat", "concat", "concatenate", "hstack"):
            raise Stuck(show(x, 3))
        a = args_of(x)
        parts = a[0].a[0] if a[0].k in ("list", "tuple") else None
        dim = dict(x.a[2]).get("dim", dict(x.a[2]).get("axis", a[1] if len(a) > 1 else None))
        if parts is None or len(parts) != 2:
            raise Stuck(show(x, 3))
        if n != "hstack" and (dim is None or num(dim) not in (1, -1)):
            out.append((g1, "rows", "rows"))
            continue
        for g2, xb in block(parts[0], g1):
            for g3, zb in block(parts[1], g2):
                if consistent(g3):
                    out.append((g3, xb, zb))
    return out


def encoders(ctx):
    need = ("encode", "decode", "joint_log_likelihood", "log_likelihood_x", "sample_prior_z")
    cs = [c for c in ctx.ix.classes.values() if all(ctx.ix.find_method(c, m) is not None for m in need) and "_x_cols" in {e.idx for e in init_stores(ctx, c)}]
    return sorted(cs, key=lambda c: c.qual)


def init_stores(ctx, c):
    f = ctx.ix.find_method(c, "__init__")
    if f is None or f.cls is not c:
        return []
    return [e for e in ctx.run(c, "__init__").events if e.kind == "store_attr" and e.target is not None and e.target.k == "self"]


#            method: (x block, z block, returned column attribute)
SPEC = {"encode": ("x", None, "_z_cols"), "decode": ("x?", "z", "_x_cols"), "joint_log_likelihood": ("x", "z", None), "log_likelihood_x": ("x", None, None),
        "sample_prior_z": (None, None, "_z_cols"), "latent_stats": ("x", None, None)}


def lin_range(t):
    """(start, stop) of list(range(...)) as (terms)"""
    while fname(t) in ("list", "tuple") and t.a[1]:
        t = t.a[1][0]
    if fname(t) != "range":
        raise Stuck(show(t, 3))
    a = args_of(t)
    return (None, a[0]) if len(a) == 1 else (a[0], a[1])


def addends(t):
    if t.k == "op" and t.a[0] == "add":
        return sorted(sum((addends(x) for x in t.a[1]), []))
    if t.k == "op" and t.a[0] == "mul":
        return ["*".join(sorted(str(show(q, 6)) for q in factors(t)))]
    return [str(show(t, 6))]


def factors(t):
    return sum((factors(x) for x in t.a[1]), []) if t.k == "op" and t.a[0] == "mul" else [t]


def columns(ctx, chk, c):
    st = {e.idx: e for e in init_stores(ctx, c)}
    con = c.name
    try:
        xs, xe = lin_range(st["_x_cols"].term)
        zs, ze = lin_range(st["_z_cols"].term)
        nx, nz = st["num_x_features"].term, st["latent_dim"].term
        ok = (xs is None or num(xs) == 0) and addends(xe) == addends(nx)
        chk.ob("columns", f"{con}:_x_cols", ok, st["_x_cols"].where, "the observed block is the first num_x_features columns")
        ok = zs is not None and addends(zs) == addends(nx) and addends(ze) == sorted(addends(nx) + addends(nz))
        chk.ob("columns", f"{con}:_z_cols", ok, st["_z_cols"].where, "the latent block is the latent_dim columns after the observed block")
    except (Stuck, KeyError) as e:
        chk.note(f"{con}: columns not analysed ({e})")
        return
    # both leaves are part of the circuit
    if "pc" in st:
        for s in walk(st["pc"].term):
            if s.k == "call":
                lm = dict(s.a[2]).get("leaf_modules")
                if lm is not None and lm.k in ("list", "tuple"):
                    got = {tuple(lin_range(a)) for x in lm.a[0] for y in walk(x) if y.k == "call" for a in list(y.a[1]) + [v for _, v in y.a[2]] if isinstance(a, T) and fname(a) in ("list", "range")}
                    if got:
                        chk.ob("joint-circuit", con, {a is None or num(a) == 0 for a, _ in got} == {True, False}, st["pc"].where, "the circuit covers the observed and the latent block")
    # the latent leaf is the one over the latent columns
    zl = st.get("_z_leaf")
    if zl is not None:
        cols = [a for s in walk(zl.term) if s.k == "call" for a in list(s.a[1]) + [v for _, v in s.a[2]] if isinstance(a, T) and fname(a) in ("list", "range")]
        if cols:
            try:
                ok = all((lambda r: r[0] is not None and addends(r[0]) == addends(nx))(lin_range(a)) for a in cols)
                chk.ob("latent-leaf", con, ok, zl.where, "the leaf read for latent statistics is the one over the latent columns")
            except Stuck:
                pass


def name_of(b):
    return "missing" if isinstance(b, tuple) else b


def queries(ctx, chk):
    for c in encoders(ctx):
        columns(ctx, chk, c)
        for m, (wx, wz, cols) in SPEC.items():
            f = ctx.ix.find_method(c, m)
            if f is None:
                continue
            r = ctx.run(c, m)
            con = f"{c.name}.{m}"
            OPTIONAL.clear()
            OPTIONAL.update({"x"} if wx == "x?" else ())
            lls = [e for e in r.events if e.kind == "call" and e.name == "log_likelihood" and e.recv is not None and e.recv.k == "attr" and e.recv.a[0].k == "self"]
            sms = [e for e in r.events if e.kind == "call" and e.name in ("_sample", "sample") and e.recv is not None and e.recv.k == "attr" and e.recv.a[0].k == "self"]
            tgt = sms if cols or m == "latent_stats" else lls
            if not tgt:
                chk.note(f"{con}: no query of the circuit found")
                continue
            for e in tgt:
                d = e.kwargs.get("data", e.args[0] if e.args else None)
                try:
                    ev = evidence(d, tuple(e.guards))
                except Stuck as z:
                    chk.note(f"{con}: evidence {z}")
                    continue
                for g, xb, zb in ev:
                    ab = absent("x", g) if wx == "x?" else None
                    known = {} if ab is None else {"x": ab}
                    want = ("missing" if known.get("x") else "x") if wx == "x?" else wx or "missing"
                    if wx == "x?" and "x" not in known and not isinstance(xb, tuple):
                        want = "x"
                    if wx == "x?" and "x" not in known and isinstance(xb, tuple):
                        chk.ob("evidence", con, False, e.where, "the given x is not used as evidence")
                        continue
                    ok = (name_of(xb), name_of(zb)) == (want, wz or "missing")
                    chk.ob("evidence", con, ok, e.where, f"the circuit is asked with x = {name_of(xb)}, z = {name_of(zb)}; it must be x = {want}, z = {wz or 'missing'}")
                    for b, a in ((xb, "num_x_features"), (zb, "latent_dim")):
                        if isinstance(b, tuple) and b[1].k == "tuple" and len(b[1].a[0]) == 2:
                            w = b[1].a[0][1]
                            if w.k == "attr" and w.a[0].k == "self":
                                chk.ob("evidence-width", con, w.a[1] == a, e.where, f"the missing block has the width {a}")
                            if m == "sample_prior_z":
                                n = b[1].a[0][0]
                                chk.ob("prior-count", con, n.k == "param" and n.a[1] == "num_samples", e.where, "one row per requested sample")
                if cols is None and m != "latent_stats":
                    continue
                # likelihood before sampling, on the same matrix, through the same cache
                cache = e.kwargs.get("cache")
                prev = [x for x in lls if x.seq < e.seq and x.recv is e.recv]
                ok = any(x.kwargs.get("data", x.args[0] if x.args else None) is d and x.kwargs.get("cache") is cache and cache is not None and set(x.guards) <= set(e.guards) for x in prev)
                if e.name == "_sample":
                    chk.ob("conditioned", con, ok, e.where, "the circuit's likelihood of the same evidence is evaluated through the same cache before sampling")
                sc = e.kwargs.get("sampling_ctx")
                for s in [s for s in walk(sc)] if sc is not None else []:
                    if s.k == "call" and fname(s) == "SamplingContext":
                        context(chk, con, m, dict(s.a[2]), e.where)
                        break
            if cols:
                returned(chk, con, m, r, sms, cols)
            elif m in ("joint_log_likelihood", "log_likelihood_x"):
                for g, v in r.returns:
                    ok = value_contains(v, lambda x: x.k == "call" and fname(x) == "log_likelihood")
                    neg = contains(v, lambda x: x.k == "op" and x.a[0] in ("neg", "exp", "mean", "sum", "div", "mul", "add", "sub"))
                    chk.ob("likelihood-returned", con, ok and not neg, f"{f.file}:{f.line}", "the circuit's log-likelihood is returned, one value per row")


def context(chk, con, m, kw, where):
    mpe = kw.get("is_mpe")
    if m in ("encode", "decode"):
        chk.ob("mode", con, mpe is not None and mpe.k == "param" and mpe.a[1] == "mpe", where, "the caller's mpe option decides the sampling mode")
    elif mpe is not None:
        chk.ob("mode", con, is_const(mpe, False), where, "draws, not most-probable values, are asked for")
    tau = kw.get("tau")
    chk.ob("temperature", con, tau is not None and tau.k == "param" and tau.a[1] == "tau", where, "the caller's temperature reaches the sampling context")
    dif = kw.get("is_differentiable")
    chk.ob("differentiable", con, dif is not None and is_const(dif, True), where, "draws stay differentiable, so that the loss reaches the encoder's parameters")
    mk = kw.get("mask")
    if mk is not None and fname(mk) in ("full", "ones", "zeros"):
        ok = fname(mk) == "ones" or fname(mk) == "full" and is_const(dict(mk.a[2]).get("fill_value", args_of(mk)[-1] if len(args_of(mk)) > 1 else None), True)
        chk.ob("all-requested", con, ok, where, "every row is requested")
    ch = kw.get("channel_index")
    if ch is not None and fname(ch) in ("full", "ones", "zeros"):
        chk.ob("root-channel", con, fname(ch) == "ones", where, "the root's single channel is selected (one-hot)")
    rp = kw.get("repetition_index")
    if rp is not None and rp.k == "store":
        chk.ob("root-repetition", con, num(rp.a[2]) == 1 and fname(rp.a[0]) == "zeros", where, "the root's repetition choice is one-hot")


def returned(chk, con, m, r, sms, cols):
    def drawn(x):
        return any(x is e.term for e in sms)

    def items(v, g, depth=0):
        """(guards, column attribute or None, term) of each value the returned samples can be"""
        out = []
        for g1, x in galts(v, g):
            if not consistent(g1) or depth > 12:
                continue
            n = fname(x)
            if x.k == "phi":
                out += items(x, g1, depth + 1)
            elif x.k == "item" and x.a[1].k == "tuple" and len(x.a[1].a[0]) == 2 and contains(x.a[0], drawn):
                ix = x.a[1].a[0][1]
                out.append((g1, ix.a[1] if ix.k == "attr" else show(ix, 3), x))
            elif n in FLAT or n in ("view", "reshape", "unflatten", "rearrange"):
                out += items(args_of(x)[0], g1, depth + 1)
            elif n == "where":
                out.append((g1, "where", x))
            elif x.k == "tuple":
                out.append((g1, "tuple", x))
            else:
                out.append((g1, None, x))
        return out
    for g, v in r.returns:
        for g1, col, x in items(v, tuple(g)):
            where = con
            if col == "tuple" and m == "encode":
                for g2, c2, y in items(x.a[0][1], g1):
                    if c2 is None:
                        reparam(chk, con, g2, y)
                    else:
                        chk.ob("columns-returned", con, c2 == cols, where, f"the sampled columns {c2} are returned instead of {cols}")
                continue
            if col == "where" and m == "decode":
                a = args_of(x)
                cnd, p, q = a[0], a[1], a[2]
                neg = False
                while fname(cnd) in ("not", "logical_not", "invert", "not_"):
                    neg, cnd = not neg, args_of(cnd)[0]
                if fname(cnd) not in ("isfinite", "isnan"):
                    chk.note(f"{con}: filled evidence under {show(cnd, 3)}")
                    continue
                keep = (fname(cnd) == "isfinite") != neg
                given, filled = (p, q) if keep else (q, p)
                try:
                    src = {n for _, n in block(given, g1) if not isinstance(n, tuple)}
                except Stuck as z:
                    chk.ob("evidence-filled", con, False, where, f"({z}) given entries of x are kept, missing ones are filled with the reconstruction")
                    continue
                fl = items(filled, g1)
                chk.ob("evidence-filled", con, src == {"x"} and all(k == cols for _, k, _ in fl) and contains(cnd, lambda s: s.k == "param" and s.a[1] == "x"), where,
                       "given entries of x are kept, missing ones are filled with the reconstruction")
                continue
            if col is None:
                chk.note(f"{con}: returned value {show(x, 3)}")
                continue
            chk.ob("columns-returned", con, col == cols, where, f"the sampled columns {col} are returned instead of {cols}")
            if m == "decode":
                fe = [b for cc, b in g1 if cc.k == "param" and cc.a[1] == "fill_evidence"]
                if any(fe) and absent("x", g1) is False:
                    chk.ob("evidence-filled", con, False, where, "with fill_evidence the given entries of x are kept")


def reparam(chk, con, g, t):
    try:
        p = Poly(lambda x: {"mu": ("loc",), "logvar": ("lv",)}.get(x.a[1]) if x.k == "attr" else ("tau",) if x.k == "param" and x.a[1] == "tau" else None).ev(t)
    except Stuck as e:
        chk.note(f"{con}: reparameterised draw {e}")
        return
    want = {(("loc", 1),): Fraction(1), tuple(sorted([("tau", 1), ("noise", 1), ("exp:lv", Fraction(1, 2))])): Fraction(1)}
    chk.ob("reparameterised", con, p == want, con, f"the draw is mean + temperature * noise * standard deviation; found {show_p(p)}")


# ---- polynomials over named quantities; exp and log of named quantities kept exactly ----
def show_p(p):
    return " + ".join(f"{c}*" + "*".join(f"{n}^{e}" if e != 1 else str(n) for n, e in m) for m, c in sorted(p.items(), key=str)) or "0"


class Poly:
    """sums of products of atoms; ('exp:q', k) is exp(k q), log of one monomial splits over its factors"""

    def __init__(self, atom):
        self.atom = atom

    def add(self, a, b, s=1):
        o = dict(a)
        for m, c in b.items():
            o[m] = o.get(m, 0) + s * c
            if o[m] == 0:
                del o[m]
        return o

    def mul(self, a, b):
        o = {}
        for m, c in a.items():
            for n, d in b.items():
                e = dict(m)
                for k, x in n:
                    e[k] = e.get(k, 0) + x
                key = tuple(sorted((k, x) for k, x in e.items() if x != 0))
                o[key] = o.get(key, 0) + c * d
                if o[key] == 0:
                    del o[key]
        return o

    def power(self, a, e):
        if len(a) == 1:
            (m, c), = a.items()
            if c == 1:
                return {tuple((k, x * e) for k, x in m): Fraction(1)}
        if e == int(e) and e >= 0:
            o = {(): Fraction(1)}
            for _ in range(int(e)):
                o = self.mul(o, a)
            return o
        raise Stuck("power of a sum")

    def log(self, a):
        if a == {(): Fraction(1, 2)}:
            return {(("log2", 1),): Fraction(-1)}
        if len(a) == 2 and a.get(()) == 1:
            (m, c), = [(m, c) for m, c in a.items() if m]
            if c == -1 and len(m) == 1 and m[0][1] == 1:
                return {(("log1m:" + m[0][0], 1),): Fraction(1)}
        if len(a) != 1:
            raise Stuck("log of a sum")
        (m, c), = a.items()
        if c != 1:
            raise Stuck("log of a multiple")
        o = {}
        for k, x in m:
            if k.startswith("exp:"):
                o = self.add(o, {((k[4:], 1),): Fraction(x)})
            else:
                o = self.add(o, {(("log:" + k, 1),): Fraction(x)})
        return o

    def exp(self, a):
        o = {(): Fraction(1)}
        for m, c in a.items():
            if len(m) != 1 or m[0][1] != 1:
                raise Stuck("exp of a product")
            n = m[0][0]
            o = self.mul(o, {((n[4:], c),) if n.startswith("log:") else (("exp:" + n, c),): Fraction(1)})
        return o

    def ev(self, t):
        k = self.atom(t)
        if k is not None:
            return k if isinstance(k, dict) else {((k[0], 1),): Fraction(1)}
        v = num(t)
        if v is not None:
            return {(): Fraction(v).limit_denominator(10**9)} if v else {}
        n = fname(t)
        a = args_of(t) if t.k in ("op", "call") else []
        if t.k == "phi":
            x, y = self.ev(t.a[1]), self.ev(t.a[2])
            if x != y:
                raise Stuck("alternatives differ")
            return x
        if n in ("to", "contiguous", "clamp", "clamp_min", "clamp_max", "float", "double", "clip", "view", "unsqueeze", "type_as"):
            return self.ev(a[0])
        if n in ("add", "sub") and len(a) == 2:
            return self.add(self.ev(a[0]), self.ev(a[1]), 1 if n == "add" else -1)
        if n == "mul" and len(a) == 2:
            return self.mul(self.ev(a[0]), self.ev(a[1]))
        if n == "neg":
            return self.add({}, self.ev(a[0]), -1)
        if n == "div":
            try:
                if fname(core(a[1])) == "clamp_min" or fname(core(a[1])) == "sum":
                    raise Stuck("normaliser")
                return self.mul(self.ev(a[0]), self.power(self.ev(a[1]), -1))
            except Stuck:
                b = a[1]
                while fname(b) in ("clamp_min", "clamp", "to"):
                    b = args_of(b)[0]
                if fname(b) == "sum":
                    x = self.ev(a[0])
                    if self.ev(args_of(b)[0]) == x and x == {(("p", 1),): 1}:
                        return x
                raise
        if n in ("pow", "square"):
            e = 2 if n == "square" else num(a[1])
            if e is None:
                raise Stuck("power")
            return self.power(self.ev(a[0]), Fraction(e).limit_denominator(1000))
        if n == "sqrt":
            return self.power(self.ev(a[0]), Fraction(1, 2))
        if n == "log":
            return self.log(self.ev(a[-1]))
        if n == "exp":
            return self.exp(self.ev(a[-1]))
        if n in ("randn_like", "randn"):
            return {(("noise", 1),): Fraction(1)}
        raise Stuck(show(t, 3))


def sums_out(t, dims):
    """the summed term if t is a sum over one of the dims"""
    if fname(t) != "sum":
        raise Stuck("not a sum: " + show(t, 3))
    a = args_of(t)
    d = dict(t.a[2]).get("dim", a[1] if len(a) > 1 else None)
    if d is None or num(d) not in dims:
        raise Stuck("sum over another axis")
    return a[0]


KL = {"Normal": {(("mu", 2),): Fraction(1, 2), (("S", 2),): Fraction(1, 2), (): Fraction(-1, 2), (("log:S", 1),): Fraction(-1)},
      "Bernoulli": {(("log:p", 1), ("p", 1)): Fraction(1), (("log2", 1),): Fraction(1), (("log1m:p", 1),): Fraction(1), (("log1m:p", 1), ("p", 1)): Fraction(-1)}}
KL["Binomial"] = {tuple(sorted(dict(m + (("n", 1),)).items())): c for m, c in KL["Bernoulli"].items()}
KL["Categorical"] = {(("log:p", 1), ("p", 1)): Fraction(1), (("log:K", 1), ("p", 1)): Fraction(1)}
MU = {"Normal": {(("mu", 1),): 1}, "Bernoulli": {(("p", 1),): 1}, "Binomial": {(("n", 1), ("p", 1)): 1}}
LV = {"Normal": {(("log:S", 1),): 2}, "Bernoulli": {(("log:p", 1),): 1, (("log1m:p", 1),): 1}, "Binomial": {(("log:n", 1),): 1, (("log:p", 1),): 1, (("log1m:p", 1),): 1}}


class Var(Poly):
    """log of p(1-p)-like products: the second factor is the atom q = 1-p"""

    def log(self, a):
        try:
            return super().log(a)
        except Stuck:
            # n^i p^j (1 - p): n p - n p^2
            if len(a) == 2:
                (m1, c1), (m2, c2) = sorted(a.items(), key=lambda kv: sum(x for _, x in kv[0]))
                d1, d2 = dict(m1), dict(m2)
                d1["p"] = d1.get("p", 0) + 1
                if c1 == 1 and c2 == -1 and d1 == d2:
                    return self.add(super().log({m1: Fraction(1)}), {(("log1m:p", 1),): Fraction(1)})
            raise


def stats(ctx, chk):
    fs = [f for f in ctx.ix.functions.values() if f.name == "latent_stats_from_leaf_record"]
    for f in fs:
        r = ctx.run_func(f, None, opaque=("_expect_matrix", "_probs_from_logits_or_probs"))
        for g, v in r.returns:
            fam = None
            for c, b in g:
                if fname(c) == "isinstance" and b:
                    q = args_of(c)[1]
                    names = [str(x.a[-1]).split(".")[-1] for x in (q.a[0] if q.k == "tuple" else [q])]
                    fam = names[0] if len(names) == 1 else fam
            if v.k != "call" or fname(v) != "LatentStats" or fam is None:
                continue
            kw = dict(v.a[2])
            con = f"latent_stats_from_leaf_record:{fam}"

            def param(x):
                """the recorded parameter a term reads"""
                if x.k == "call" and fname(x) == "_expect_matrix":
                    x = dict(x.a[2]).get("param", args_of(x)[0] if args_of(x) else x)
                if x.k == "item" and x.a[1].k == "const" and isinstance(x.a[1].a[0], str):
                    return x.a[1].a[0]
                return None

            def atom(x):
                if fname(x) in ("sigmoid", "softmax"):
                    if param(args_of(x)[0]) == "logits":
                        return ("p",)
                if fname(x) == "_probs_from_logits_or_probs":
                    return ("p",)
                if fname(x) in ("int", "float", "log") and x.a[1]:
                    if fname(x) != "log":
                        y = x.a[1][0]
                        if fname(y) in ("int", "float") or y.k == "item" and contains(y, lambda s: s.k == "attr" and s.a[1] == "shape"):
                            return ("K",)
                if x.k == "item" and x.a[0].k == "attr" and x.a[0].a[1] == "shape":
                    return ("K",)
                p = param(x)
                if p == "log_scale":
                    return {(("log:S", 1),): Fraction(1)}
                return {"loc": ("mu",), "scale": ("S",), "probs": ("p",), "total_count": ("n",)}.get(p)
            def moment(x):
                """m1, m2 = E[k], E[k^2] over the categories"""
                if fname(x) != "sum":
                    return None
                y = sums_out(x, (-1, 2))
                if fname(y) != "mul":
                    return None
                fs = [core(q) for q in factors(y)]
                ps = [q for q in fs if Poly_is(P, q, "p")]
                ks = [q for q in fs if q not in ps]
                if len(ps) != 1 or len(ks) != 1:
                    return None
                k = ks[0]
                n = 1
                while fname(k) in ("pow", "square", "view", "reshape", "unsqueeze", "to"):
                    if fname(k) == "square" or fname(k) == "pow" and num(args_of(k)[1]) == 2:
                        n = 2
                    elif fname(k) == "pow":
                        return None
                    k = args_of(k)[0]
                return (f"m{n}",) if fname(k) == "arange" else None

            def atom2(x):
                r = atom(x)
                return r if r is not None else moment(x) if fam == "Categorical" else None
            P = Var(atom)
            if fam == "Categorical":
                P2 = Poly(atom2)
                for g2, t in galts(kw["mu"], tuple(g)):
                    if consistent(g2):
                        try:
                            got = P2.ev(t)
                            chk.ob("latent-mean", con, got == {(("m1", 1),): 1}, f"{f.file}:{f.line}", f"mu is {show_p(got)}; it must be the mean category")
                            v0 = kw["logvar"]
                            if fname(v0) == "log":
                                got = P2.ev(args_of(v0)[-1])
                                chk.ob("latent-variance", con, got == {(("m2", 1),): 1, (("m1", 2),): -1}, f"{f.file}:{f.line}", f"the variance is {show_p(got)}; it must be E[k^2] - E[k]^2")
                        except Stuck as e:
                            chk.note(f"{con}: {e}")
            decoded(chk, con, fam, kw.get("decode_latent"), P, g, f"{f.file}:{f.line}")
            for key, want in (("kld_per_sample", KL.get(fam)), ("mu", MU.get(fam)), ("logvar", LV.get(fam))):
                if want is None or key not in kw:
                    continue
                for g2, t in galts(kw[key], tuple(g)):
                    if not consistent(g2):
                        continue
                    try:
                        if key == "kld_per_sample":
                            t = factor_sum(t)
                        got = P.ev(t)
                        chk.ob("latent-" + {"kld_per_sample": "divergence", "mu": "mean", "logvar": "variance"}[key], con, got == want, f"{f.file}:{f.line}",
                               f"{key} is {show_p(got)}; the closed form is {show_p(want)}")
                    except Stuck as e:
                        if "another axis" in str(e):
                            chk.ob("latent-divergence", con, False, f"{f.file}:{f.line}", "the divergence sums over the latent variables of a row")
                        else:
                            chk.note(f"{con}.{key}: {e}")


def Poly_is(P, t, name):
    try:
        return P.ev(t) == {((name, 1),): 1}
    except Stuck:
        return False


def decoded(chk, con, fam, t, P, g, where):
    """the latent value used for deterministic decoding is the mode"""
    if t is None:
        return
    for g2, x in galts(t, tuple(g)):
        if not consistent(g2):
            continue
        while fname(x) in ("to", "float", "clamp", "clamp_min", "type_as", "minimum", "min"):
            x = args_of(x)[0]
        n = fname(x)
        if fam == "Normal":
            try:
                chk.ob("latent-mode", con, P.ev(x) == {(("mu", 1),): 1}, where, "the mode of the latent distribution is decoded")
            except Stuck as e:
                chk.note(f"{con}: {e}")
        elif fam == "Bernoulli" and n in ("ge", "gt", "le", "lt"):
            a, b = args_of(x)
            left, right = Poly_is(P, a, "p") and num(b) == 0.5, Poly_is(P, b, "p") and num(a) == 0.5
            if left or right:
                chk.ob("latent-mode", con, left == (n in ("ge", "gt")), where, "the mode of the latent distribution is decoded")
        elif fam == "Categorical" and n in ("argmax", "argmin"):
            d = dict(x.a[2]).get("dim", args_of(x)[1] if len(args_of(x)) > 1 else None)
            chk.ob("latent-mode", con, n == "argmax" and d is not None and num(d) in (-1, 2), where, "the mode of the latent distribution is decoded")
        elif fam == "Binomial" and n == "floor":
            try:
                chk.ob("latent-mode", con, P.ev(args_of(x)[0]) == {(("n", 1), ("p", 1)): 1, (("p", 1),): 1}, where, "the mode floor((n + 1) p) of the latent distribution is decoded")
            except Stuck as e:
                chk.note(f"{con}: {e}")
        else:
            chk.note(f"{con}: decoded latent {show(x, 3)}")


def factor_sum(t):
    """c * sum(x, dim=1) -> c * x as a term; sums over the category axis inside are stripped too"""
    n = fname(t)
    if n == "sum":
        x = sums_out(t, (1, -1))
        if fname(x) == "sum":
            return sums_out(x, (-1, 2))
        return x
    if n in ("mul", "div") and len(args_of(t)) == 2:
        a = args_of(t)
        if num(a[0]) is not None:
            return T("op", n, (a[0], factor_sum(a[1])), ())
        if num(a[1]) is not None:
            return T("op", n, (factor_sum(a[0]), a[1]), ())
    raise Stuck("not a sum over the latent variables: " + show(t, 3))


#         method: (encoder method, {forwarded parameter})
WRAP = {"encode": ("encode", ("x", "mpe", "tau")), "decode": ("decode", ("z", "mpe", "tau")), "sample_z": ("sample_prior_z", ("num_samples", "tau")),
        "log_likelihood_x": ("log_likelihood_x", ("x",)), "joint_log_likelihood": ("joint_log_likelihood", ("x", "z"))}


def wrappers(ctx, chk):
    for c in sorted(ctx.ix.classes.values(), key=lambda k: k.qual):
        if "loss_components" not in c.methods or "reconstruct" not in c.methods:
            continue
        for m, (em, ps) in WRAP.items():
            if m not in c.methods:
                continue
            f = c.methods[m]
            r = ctx.run(c, m, opaque=("encode", "decode", "trace_tensor") if m not in ("encode", "decode") else ("trace_tensor",))
            calls = [e for e in r.events if e.kind == "call" and e.name == em and e.recv is not None and e.recv.k == "attr" and e.recv.a[1] == "encoder"]
            con = f"{c.name}.{m}"
            if not calls:
                chk.ob("wrapper", con, False, f"{f.file}:{f.line}", f"the encoder's {em} is not asked")
                continue
            order = {"encode": ["x"], "decode": ["z"], "sample_prior_z": ["num_samples"], "log_likelihood_x": ["x"], "joint_log_likelihood": ["x", "z"]}[em]
            for e in calls:
                got = dict(zip(order, e.args))
                got.update(e.kwargs)
                for p in ps:
                    v = got.get(p)
                    al = [] if v is None else [(g, core(x)) for g, x in galts(v, ())]
                    ok = bool(al) and any(x.k == "param" and x.a[1] == p for _, x in al) and all(x.k == "param" and x.a[1] == p or p == "tau" and x.k == "attr" and x.a[1] == "sample_tau" and
                                                                                                    any(contains(cc, lambda s: is_param(s, "tau")) and contains(cc, lambda s: is_const(s, None)) for cc, b in g) for g, x in al)
                    chk.ob("wrapper", f"{con}:{p}", ok, e.where, f"{p} is passed on to the encoder")
            for g, v in r.returns:
                ok = all(any(y is e.term for e in calls) or m == "decode" and contains(y, lambda s: s.k == "attr" and s.a[1] == "decoder") for y in alts(core(v)))
                chk.ob("wrapper-result", con, ok, f"{f.file}:{f.line}", "the encoder's result is returned")
        for m, src, dst in (("reconstruct", "encode", "decode"), ("sample_x", "sample_z", "decode")):
            if m not in c.methods:
                continue
            f = c.methods[m]
            r = ctx.run(c, m, opaque=("encode", "decode", "sample_z"))
            s = [e for e in r.events if e.kind == "call" and e.name == src]
            d = [e for e in r.events if e.kind == "call" and e.name == dst]
            ok = bool(s) and bool(d) and all((e.kwargs.get("z") or (e.args[0] if e.args else None)) is s[-1].term for e in d) and all(any(y is e.term for e in d) for g, v in r.returns for y in alts(v))
            chk.ob("chain", f"{c.name}.{m}", ok, f"{f.file}:{f.line}", f"{m} decodes what {src} returned")
            for e in s + d:
                want = {"mpe": "mpe"} if m == "reconstruct" else {}
                for p in ("tau", *want):
                    v = e.kwargs.get(p)
                    chk.ob("chain", f"{c.name}.{m}:{e.name}:{p}", v is not None and is_param(v, p), e.where, f"{p} is passed on")
                if m == "sample_x" and "mpe" in e.kwargs:
                    chk.ob("chain", f"{c.name}.{m}:{e.name}:mpe", is_const(e.kwargs["mpe"], False), e.where, "samples are drawn")


def check(ctx, chk):
    for part in (queries, stats, wrappers):
        try:
            part(ctx, chk)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError, Stuck) as e:
            chk.note(f"{part.__name__}: source shape not analysed ({type(e).__name__}: {e})")
    chk.floor("evidence", 4)
