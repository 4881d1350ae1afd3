"""What a circuit learned travels with it: state lives in parameters, buffers and registered children."""
import ast
from ..lib import *
from ..terms import *

ID = "P42"
TITLE = "A circuit's learned state is in its parameters, buffers and registered children"
EXPL = ("Ownership analysis over every nn.Module class: each value a constructor, setter or learning step stores on the module is classified by dataflow (tensor, module, container of them, plain data); tensors must be parameters or "
        "buffers, modules registered children, parameters are updated in place after construction, and what is random or user-given is persistent.")
ASSUME = ("torch.nn.Module registration semantics: Parameter / Module attributes, ModuleList / ParameterList / ModuleDict / Sequential, register_buffer",)

MAKE = {"tensor", "as_tensor", "zeros", "ones", "full", "arange", "empty", "linspace", "logspace", "eye", "rand", "randn", "randint", "randperm", "normal", "bernoulli", "multinomial", "from_numpy",
        "zeros_like", "ones_like", "full_like", "rand_like", "randn_like", "empty_like", "new_tensor", "new_zeros", "new_ones", "new_full", "new_empty", "tril_indices", "triu_indices", "cat", "stack", "one_hot",
        "unravel_index", "meshgrid", "cartesian_prod", "nonzero", "bincount", "searchsorted", "nextafter", "default_bins"}
RNG = {"rand", "randn", "randint", "randperm", "normal", "bernoulli", "multinomial", "rand_like", "randn_like", "uniform_", "normal_", "shuffle", "choice", "permutation", "random", "uniform", "sample"}
KEEP = {"list", "tuple", "sorted", "set", "reversed"}
REG = {"ModuleList", "ModuleDict", "Sequential", "ParameterList", "ParameterDict"}
SCALAR = {"item", "size", "dim", "numel", "len", "tolist", "numpy", "is", "isnot", "not", "and", "or", "int", "float", "any_", "shape", "is_floating_point", "__len__"}


def fname(t):
    """bare name of the called function/class/op"""
    if t.k == "op":
        return t.a[0]
    if t.k in ("call", "new"):
        f = t.a[0]
        if f.k == "attr":
            return f.a[1]
        return str(f.a[-1] if not hasattr(f.a[0], "name") else f.a[0].name).split(".")[-1]
    return ""


class Kinds:
    def __init__(self, ctx):
        self.ctx = ctx
        self.ix = ctx.ix
        self.nn = [c for c in self.ix.classes.values() if any(isinstance(b, str) and b.split(".")[-1] == "Module" for k in self.ix.mro(c) for b in k.bases)]
        self.nnset = set(self.nn)
        self.memo = {}

    def ann(self, t):
        """annotation kinds of a parameter term"""
        q, n = t.a[0], t.a[1]
        fi = self.ix.functions.get(q)
        if fi is None:
            return set()
        a = None
        for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs:
            if x.arg == n:
                a = x.annotation
        if a is None:
            return set()
        out = set()
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return set()
        def rec(e, inner):
            if isinstance(e, ast.BinOp):
                rec(e.left, inner)
                rec(e.right, inner)
            elif isinstance(e, ast.Subscript):
                h = ast.unparse(e.value).split(".")[-1]
                if h in ("Optional", "Union"):
                    for x in (e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]):
                        rec(x, inner)
                elif h in ("list", "tuple", "List", "Tuple", "Sequence", "Iterable", "dict", "Dict", "set"):
                    for x in (e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]):
                        rec(x, True)
            elif isinstance(e, (ast.Name, ast.Attribute)):
                s = ast.unparse(e).split(".")[-1]
                r = self.ix.resolve_expr(fi.module, e)
                if s in ("Tensor", "Parameter"):
                    out.add("Lt" if inner else "t")
                elif r and r[0] == "cls" and r[1] in self.nnset or ast.unparse(e) in ("nn.Module", "torch.nn.Module"):
                    out.add("Lm" if inner else "m")
        rec(a, False)
        return out

    def kinds(self, t, d=0):
        """set over {'p' Parameter, 't' tensor, 'm' module, 'r' registered container, 'Lt' container of tensors, 'Lm' container of modules}"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = set()
        r = self._k(t, d)
        self.memo[t] = r
        return r

    def lift(self, ks):
        out = set()
        for k in ks:
            if k in ("t", "p", "Lt"):
                out.add("Lt")
            elif k in ("m", "Lm", "r"):
                out.add("Lm")
        return out

    def low(self, ks):
        return {{"Lt": "t", "Lm": "m", "r": "m"}.get(k, k) for k in ks if k in ("Lt", "Lm", "r", "t")}

    def _k(self, t, d):
        if d > 14:
            return set()
        K = lambda x: self.kinds(x, d + 1)
        if t.k == "phi":
            return K(t.a[1]) | K(t.a[2])
        if t.k == "store":
            b = K(t.a[0])
            v = t.a[2]
            n = set()
            for x in (v.a[0] if v.k in ("tuple", "list") and is_const(t.a[1]) and isinstance(t.a[1].a[0], str) and t.a[1].a[0].startswith("#") else (v,)):
                n |= K(x)
            if "t" in b:
                return b
            return b | self.lift(n)
        if t.k in ("tuple", "list"):
            out = set()
            for x in t.a[0]:
                out |= self.lift(K(x))
            return out
        if t.k == "comp":
            if t.a[0] in ("list", "set", "gen", "generator", "tuple"):
                return self.lift(K(t.a[1])) if isinstance(t.a[1], T) else set()
            return set()
        if t.k == "elem":
            return self.low(K(t.a[0]))
        if t.k == "item":
            b = K(t.a[0])
            return self.low(b)
        if t.k == "param":
            if t.a[1].startswith("*"):
                return set()
            return self.ann(t)
        if t.k == "attr":
            if t.a[1] in ("data", "T", "grad", "mT"):
                return K(t.a[0]) & {"t", "p"} and {"t"}
            return set()
        if t.k == "op":
            n = t.a[0]
            if n in ("star",):
                return K(t.a[1][0]) if t.a[1] else set()
            if n in ("or", "and"):
                out = set()
                for x in t.a[1]:
                    out |= K(x)
                return out
            if n in MAKE:
                return {"t"}
            if n in SCALAR:
                return set()
            for x in t.a[1]:
                if isinstance(x, T) and K(x) & {"t", "p"}:
                    return {"t"}
            return set()
        if t.k in ("call", "new"):
            n = fname(t)
            if n == "Parameter":
                return {"p"}
            if n in REG:
                return {"r"}
            args = t.a[1] if len(t.a) > 1 and isinstance(t.a[1], tuple) else ()
            if n in KEEP:
                out = set()
                for x in args:
                    out |= {k for k in K(x) if k in ("Lt", "Lm")} | ({"Lm"} if "r" in K(x) else set())
                return out
            if n in ("nextafter", "tensor"):
                return {"t"}
            f = t.a[0]
            c = self.ix.classes.get(str(f.a[0])) if f.k == "global" else None
            if c is not None and c in self.nnset:
                return {"m"}
            q = str(f.a[0]) if f.k in ("ext", "global", "name") else ""
            if q.startswith("torch.nn.") and n[:1].isupper():
                return {"m"}
            return set()
        return set()


def rng(t):
    return contains(t, lambda x: x.k in ("op", "call") and fname(x) in RNG)


def data_dep(kd, t):
    """depends on tensors the caller handed in (not merely on sizes / index lists)"""
    if t.k == "param":
        return bool(kd.ann(t) & {"t", "Lt"}) or not kd.ix.functions.get(t.a[0])
    return False


def tensor_leaf(kd, t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "attr" and x.a[1] in ("shape", "device", "dtype", "ndim", "out_shape", "in_shape", "scope"):
            continue
        if x.k == "op" and x.a[0] in ("size", "numel", "dim", "isfinite", "any", "all"):
            continue
        if x.k == "phi":
            todo += [x.a[1], x.a[2]]
            continue
        if x.k == "param" and data_dep(kd, x):
            return x
        todo += [c for c in children(x) if isinstance(c, T)]
    return None


def check(ctx, chk):
    kd = Kinds(ctx)
    ix = ctx.ix
    nst = nreg = 0
    for c in sorted(kd.nn, key=lambda c: c.qual):
        init = ix.find_method(c, "__init__")
        if init is None or init.module.name.startswith("torch"):
            continue
        stores = []  # (phase, event)
        regs = {}
        methods = {}
        for k in reversed(ix.mro(c)):
            if not hasattr(k, "methods"):
                continue
            for m in list(k.methods.values()) + list(k.setters.values()):
                methods[(m.name, m in k.setters.values())] = m
        for m in methods.values():
            if m.name.startswith("__") and m.name != "__init__" or any("static" in ast.unparse(d) or "classmethod" in ast.unparse(d) for d in m.node.decorator_list):
                continue
            ph = "init" if m.name == "__init__" else m.name
            if ph != "init" and not any(isinstance(x, ast.Attribute) and (isinstance(x.ctx, ast.Store) or x.attr.startswith(("register_", "add_module"))) for x in ast.walk(m.node)):
                continue
            r = ctx.run_func(m, c)
            for e in r.events:
                if not live(e.guards):
                    continue
                if e.kind == "store_attr" and e.target is not None and e.target.k == "self":
                    stores.append((ph, e))
                elif e.kind == "call" and e.name in ("register_buffer", "register_parameter", "add_module", "register_module") and e.recv is not None and e.recv.k == "self":
                    a = list(e.args)
                    nm = a[0] if a else e.kwargs.get("name")
                    if nm is None or nm.k != "const":
                        chk.note(f"{c.name} registers state under a computed name at {e.where}")
                        continue
                    val = a[1] if len(a) > 1 else e.kwargs.get("tensor", e.kwargs.get("param"))
                    per = a[2] if len(a) > 2 else e.kwargs.get("persistent")
                    regs.setdefault(nm.a[0], []).append((e, val, per))
        params = {e.idx for ph, e in stores if ph == "init" and "p" in kd.kinds(e.term)} | {n for n, l in regs.items() if any(x[0].name == "register_parameter" for x in l)}
        bufs = set(regs) - params
        late = {}
        for ph, e in stores:
            late.setdefault(e.idx, []).append((ph, e))
        mods = {e.idx for ph, e in stores if kd.kinds(e.term) & {"m", "r"}}
        ctor_seen = set()
        loads = None
        for ph, e in stores:
            a = e.idx
            ks = kd.kinds(e.term)
            if any(b and g.k == "op" and g.a[0] == "isinstance" and e.term in g.a[1][:1] and "Parameter" in repr(g) for g, b in e.guards):
                continue
            if e.callee is not None and a == "inputs" and "Lm" in ks:
                chk.ob("child is registered", f"{c.name}.{a}", not plain_only(kd, e.term), e.where, f"{c.name}.{ph} keeps its child modules in a plain container, out of reach of parameters(), state_dict() and .to()")
            if e.callee is not None or a.startswith("__"):
                continue
            nst += 1
            where = e.where
            if ph != "init" and a in params and "p" in ks and not reset_like(ph):
                chk.ob("updated in place", f"{c.name}.{a}", False, where, f"{c.name}.{ph} replaces parameter `{a}` by a new Parameter; optimizers and references keep the old one")
                continue
            regd = [x for x, _, _ in regs.get(a, ())] + [x for p2, x in late[a] if "p" in kd.kinds(x.term)]
            if (a in bufs or a in params) and ph == "init" and "t" in ks and "p" not in ks and not any(x.seq < e.seq and set(map(repr, x.guards)) <= set(map(repr, e.guards)) for x in regd):
                chk.ob("tensor is registered", f"{c.name}.{a}", False, where, f"{c.name} stores tensor `{a}` on a path where no parameter or buffer of that name has been registered")
                continue
            if a in params or a in bufs:
                if ks:
                    chk.ob("registered", f"{c.name}.{a}", True, where)
                continue
            if "t" in ks:
                ok, why = plain_ok(ctx, kd, c, a, late[a])
                chk.ob("tensor is registered", f"{c.name}.{a}", ok, where, f"{c.name}.{ph} keeps tensor `{a}` on the module outside its parameters and buffers: {why}")
            elif "Lt" in ks and not cache_like(kd, late[a]):
                ok, why = plain_ok(ctx, kd, c, a, late[a])
                chk.ob("tensor is registered", f"{c.name}.{a}", ok, where, f"{c.name}.{ph} keeps tensors in plain container `{a}`: {why}")
            elif "Lm" in ks and "r" not in ks and "m" not in ks:
                ok = held(kd, stores, e)
                chk.ob("child is registered", f"{c.name}.{a}", ok, where, f"{c.name}.{ph} keeps child modules in plain container `{a}`, out of reach of parameters(), state_dict() and .to()")
        for n, l in regs.items():
            for e, val, per in l:
                if e.name != "register_buffer":
                    continue
                nreg += 1
                if per is not None and not is_const(per, True):
                    vals = ([val] if isinstance(val, T) else []) + [x.term for ph, x in late.get(n, [])]
                    why = next((f"it is drawn at random" for v in vals if rng(v)), None) or next((f"it holds caller-given `{tensor_leaf(kd, v).a[1]}`" for v in vals if tensor_leaf(kd, v) is not None), None) or \
                        (f"it is reassigned by {[ph for ph, x in late[n] if ph != 'init'][0]}" if any(ph != "init" for ph, x in late.get(n, [])) else None)
                    chk.ob("buffer is saved", f"{c.name}.{n}", why is None, e.where, f"{c.name} registers buffer `{n}` as non-persistent although {why}; state_dict() loses it")
        for ph, e in stores:
            if "p" in kd.kinds(e.term):
                for x in walk(e.term):
                    if fname(x) == "Parameter" and x.k in ("call", "new"):
                        kw = dict(x.a[2]) if len(x.a) > 2 and isinstance(x.a[2], tuple) else {}
                        rg = kw.get("requires_grad") or (x.a[1][1] if len(x.a[1]) > 1 else None)
                        if rg is not None:
                            chk.ob("trainable", f"{c.name}.{e.idx}", not is_const(rg, False), e.where, f"{c.name}.{e.idx} is created frozen (requires_grad=False)")
    chk.note(f"{nst} stores on modules, {nreg} buffer registrations, {len(kd.nn)} module classes")
    persistence(ctx, chk)
    chk.floor("tensor is registered", 1)


def plain_only(kd, t):
    """some alternative of the value is a plain list / tuple of modules"""
    if t.k == "phi":
        return plain_only(kd, t.a[1]) or plain_only(kd, t.a[2])
    ks = kd.kinds(t)
    return "Lm" in ks and "m" not in ks and "r" not in ks


def reset_like(name):
    return name.startswith(("reset", "_reset", "build", "_build", "materialize"))


def held(kd, stores, e):
    """every module in the plain container is also inside a registered child stored by the same constructor"""
    mem = set()
    for ph, x in stores:
        if x is not e and kd.kinds(x.term) & {"m", "r"}:
            mem |= set(walk(x.term))
    return elems_in(kd, e.term, mem)


def elems_in(kd, t, mem, d=0):
    if d > 12:
        return False
    if t in mem:
        return True
    if t.k == "phi":
        return elems_in(kd, t.a[1], mem, d + 1) and elems_in(kd, t.a[2], mem, d + 1)
    if t.k in ("tuple", "list"):
        return all(elems_in(kd, x, mem, d + 1) for x in t.a[0])
    if t.k == "store":
        return elems_in(kd, t.a[0], mem, d + 1) and elems_in(kd, t.a[2], mem, d + 1)
    if t.k == "call" and fname(t) in KEEP and t.a[1]:
        return all(elems_in(kd, x, mem, d + 1) for x in t.a[1])
    if t.k == "loopcarried" or t.k == "lc":
        return True
    if not kd.kinds(t) & {"m", "Lm"}:
        return True
    return False


def cache_like(kd, sts):
    """None at construction, filled on demand from the module's own state only: a derived cache (its freshness is judged elsewhere)"""
    return any(ph == "init" and is_const(e.term, None) for ph, e in sts) and not any(tensor_leaf(kd, e.term) for ph, e in sts)


def plain_ok(ctx, kd, c, a, sts):
    """a plain tensor attribute is harmless when it is a constant of the structure: fixed at construction, not random, not data, integer/bool, moved to the data's device where used"""
    for ph, e in sts:
        if ph != "init" and not e.func.name.startswith("__init__"):
            return False, f"{ph} overwrites it"
        if rng(e.term):
            return False, "it is drawn at random"
        x = tensor_leaf(kd, e.term)
        if x is not None:
            return False, f"it holds caller-given `{x.a[1]}`"
        if contains(e.term, lambda x: fname(x) == "Parameter"):
            return False, "it is computed from a parameter"
        if contains(e.term, lambda x: x.k == "op" and x.a[0] in ("log", "exp", "div", "softmax", "log_softmax", "randn")):
            return False, "it holds real-valued state"
    return True, "structure constant"


def persistence(ctx, chk):
    ix = ctx.ix
    for fn, call, mode in (("save_model", "dump", "wb"), ("load_model", "load", "rb")):
        f = ix.find_func(fn)
        f = f[0] if isinstance(f, list) and f else f
        if f is None:
            continue
        r = ctx.run_func(f)
        cs = [e for e in r.events if e.kind == "call" and live(e.guards) and (e.name == call or fname(e.term) == call)]
        loc = f"{f.file}:{f.line}"
        if not cs:
            alt = [e for e in r.events if e.kind == "call" and fname(e.term) in ("save", "dumps", "loads", "state_dict", "load_state_dict")]
            if not alt:
                chk.ob("saved whole", fn, False, loc, f"{fn} neither pickles nor saves the model")
            continue
        for e in cs:
            if fn == "save_model":
                chk.ob("saved whole", fn, bool(e.args) and e.args[0].k == "param" and e.args[0].a[1] == f.all_param_names()[0], e.where, f"{fn} pickles {show(e.args[0], 2) if e.args else '?'} instead of the model it was given")
            else:
                chk.ob("loaded whole", fn, any(core(t) == e.term for g, v in r.returns for _, t in galts(v)), e.where, f"{fn} does not return what it read")
        ops = [e for e in r.events if e.kind == "call" and e.name == "open" and live(e.guards)]
        for e in ops:
            m = e.args[1] if len(e.args) > 1 else e.kwargs.get("mode")
            if m is not None and m.k == "const":
                chk.ob("whole file", fn, m.a[0] in (mode, mode[::-1]), e.where, f"{fn} opens the file in mode {m.a[0]!r}")
    for c in ix.classes.values():
        if not any(isinstance(b, str) and b.split(".")[-1] == "Module" for k in ix.mro(c) for b in k.bases):
            continue
        for n in ("state_dict", "load_state_dict", "_load_from_state_dict", "_save_to_state_dict", "__getstate__", "__setstate__", "__reduce__", "__deepcopy__", "_apply", "parameters", "named_parameters", "buffers"):
            m = c.methods.get(n)
            if m is not None:
                sup = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == n for x in ast.walk(m.node))
                chk.ob("inherited persistence", f"{c.name}.{n}", sup or n in ("__getstate__", "__setstate__", "__reduce__", "__deepcopy__"), f"{m.file}:{m.line}", f"{c.name}.{n} overrides torch's state handling without delegating to it")
