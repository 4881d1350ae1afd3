"""Interprocedural abstract evaluator: turns a function into a dataflow term for its result plus an ordered
trace of effects (calls, stores, raises, returns), each with the branch conditions that guard it.

It never runs repository code. Helper functions and `self` methods are followed (dispatch on the concrete
class), so extracting a helper, renaming a local, reordering independent statements or turning a loop into
a comprehension leaves the facts unchanged.
"""
from __future__ import annotations
import ast
import builtins
from dataclasses import dataclass, field
from .index import Index, FuncInfo, ClassInfo, AnalysisError
from .terms import T, const, NONE, TRUE, FALSE, is_const, op, show, walk
from . import ops as O

BUILTINS = set(dir(builtins))
PROTO = ("log_likelihood", "_sample", "sample", "mpe", "sample_with_evidence", "_expectation_maximization_step",
         "marginalize", "forward", "probability", "maximum_likelihood_estimation", "signed_logabs_and_sign")


@dataclass(eq=False)
class Event:
    kind: str
    func: FuncInfo
    node: ast.AST
    guards: tuple
    ctxs: tuple
    loops: tuple
    tries: tuple
    term: T = None  # call term / stored value / returned value / exception
    target: T = None  # store target object
    idx: object = None  # index term or attribute name
    recv: T = None
    name: str = None  # called name
    callee: FuncInfo = None
    inlined: bool = False
    npos: int = 0
    kwargs: dict = field(default_factory=dict)
    args: tuple = ()
    depth: int = 0
    seq: int = 0
    stack: tuple = ()

    @property
    def where(self):
        return f"{self.func.file}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<{self.kind} {self.name or self.idx} {self.where}>"


class State:
    __slots__ = ("env", "heap", "guards", "dead")

    def __init__(self, env=None, heap=None, guards=(), dead=False):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.guards = guards
        self.dead = dead

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.guards, self.dead)


class Frame:
    def __init__(self, func, cls, owner, depth):
        self.func = func
        self.cls = cls
        self.owner = owner
        self.depth = depth
        self.returns = []  # (state, term)
        self.loops = []  # list of lists of states (break/continue)
        self.imports = {}
        self.globals_decl = set()


class Result:
    def __init__(self, func, cls, value, events, state, returns, params):
        self.func, self.cls, self.value, self.events, self.state = func, cls, value, events, state
        self.returns, self.params = returns, params

    def calls(self, *names, inlined=None):
        return [e for e in self.events if e.kind == "call" and (not names or e.name in names) and (inlined is None or e.inlined == inlined)]


def strip_optional(e):
    """annotation expr -> list of candidate class exprs"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        try:
            e = ast.parse(e.value, mode="eval").body
        except SyntaxError:
            return []
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        return strip_optional(e.left) + strip_optional(e.right)
    if isinstance(e, ast.Subscript):
        b = ast.unparse(e.value).split(".")[-1]
        if b == "Optional":
            return strip_optional(e.slice)
        if b == "Union":
            els = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            return [x for y in els for x in strip_optional(y)]
        return [e.value]
    if isinstance(e, ast.Constant) and e.value is None:
        return []
    return [e]


_ALIASES = {}


def aliases(func, name):
    """names a function binds to the same object (x = y, x = y = value), flow-insensitively"""
    key = func.qual if func is not None else None
    m = _ALIASES.get((key, id(func)))
    if m is None:
        m = {}

        def union(a, b):
            ga, gb = m.setdefault(a, {a}), m.setdefault(b, {b})
            if ga is not gb:
                ga |= gb
                for n in gb:
                    m[n] = ga
        for n in ast.walk(func.node) if func is not None else ():
            if isinstance(n, ast.Assign):
                ns = [t.id for t in n.targets if isinstance(t, ast.Name)] + ([n.value.id] if isinstance(n.value, ast.Name) else [])
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and isinstance(n.value, ast.Name):
                ns = [n.target.id, n.value.id]
            else:
                continue
            for x in ns[1:]:
                union(ns[0], x)
        _ALIASES[(key, id(func))] = m
    return m.get(name, ())


class Engine:
    def __init__(self, ix: Index, opaque=(), opaque_quals=(), max_depth=6, inline_props=True, opaque_props=(), inline_pred=None, fresh=(), site=(),
                 max_events=60000, init_consts=True, inline_typed=True):
        self.ix = ix
        self.opaque = set(PROTO) | set(opaque)
        self.opaque_quals = set(opaque_quals)
        self.site = set(site)  # methods whose calls are told apart by their place in the source
        self.fresh = set(fresh)  # nested functions analysed for arbitrary arguments
        self.max_depth = max_depth
        self.inline_props = inline_props
        self.opaque_props = {"inputs", "scope", "in_shape", "out_shape", "device", "event_shape", "feature_to_scope",
                             "is_conditional"} | set(opaque_props)
        self.inline_pred = inline_pred
        self.inline_typed = inline_typed
        self.max_events = max_events
        self.init_consts = init_consts
        self.types: dict[T, ClassInfo] = {}
        self._init_cache = {}
        self._building = set()
        self.funcvals = {}  # term -> (FuncInfo, closure env, cls)
        self.binder = {}
        self.module_cls = ix.classes.get("spflow.modules.module.Module")
        self._uid = 0
        self.folded = 0

    # ---------------------------------------------------------------- entry
    def run(self, fi: FuncInfo, cls: ClassInfo | None = None, bind: dict | None = None, heap=None):
        self.events = []
        self.stack = []
        self.ctxs, self.loopstack, self.tries = (), (), ()
        self.muted = 0
        fr = Frame(fi, cls or fi.cls, fi.cls, 0)
        st = State()
        pos, kwo, va, kw = fi.params()
        params = {}
        names = pos + kwo
        start = 0
        if fi.cls is not None and fi.kind in ("method", "property", "setter") and names:
            s = T("self", (cls or fi.cls).qual)
            self.types[s] = cls or fi.cls
            st.env[names[0]] = s
            params[names[0]] = s
            start = 1
            if self.init_consts and fi.name != "__init__":
                st.heap.update(self.class_consts(cls or fi.cls, s))
        elif fi.kind == "classmethod" and names:
            s = T("global", (cls or fi.cls).qual)
            st.env[names[0]] = s
            params[names[0]] = s
            start = 1
        for n in names[start:]:
            t = (bind or {}).get(n)
            if t is None:
                t = T("param", fi.qual, n)
            self._annotate(t, self._ann_of(fi, n), fi)
            st.env[n] = t
            params[n] = t
        if va:
            st.env[va] = params[va] = T("param", fi.qual, "*" + va)
        if kw:
            st.env[kw] = params[kw] = T("param", fi.qual, "**" + kw)
        if heap:
            st.heap.update(heap)
        end = self.exec_func(fr, st)
        val = self.merge_returns(fr, st.guards if False else ())
        return Result(fi, cls or fi.cls, val, self.events, end, [(s.guards, t) for s, t in fr.returns], params)

    def _ann_of(self, fi, name):
        a = fi.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                return x.annotation
        return None

    def _annotate(self, t, ann, fi):
        if ann is None or t in self.types or t.k == "const":
            return
        for e in strip_optional(ann):
            r = self.ix.resolve_expr(fi.module, e) if isinstance(e, (ast.Name, ast.Attribute, ast.Constant)) else None
            if r and r[0] == "cls":
                self.types[t] = r[1]
                return

    def class_consts(self, cls, selfterm):
        """self attributes that are constants after construction and never re-assigned elsewhere."""
        key = cls
        if key in self._init_cache:
            return {(selfterm, k): v for k, v in self._init_cache[key].items()}
        if key in self._building:
            return {}
        self._building.add(key)
        out = {}
        init = self.ix.find_method(cls, "__init__")
        if init is not None:
            sub = Engine(self.ix, opaque=self.opaque, max_depth=3, init_consts=False)
            try:
                r = sub.run(init, cls)
                stored = {}
                for (b, a), v in r.state.heap.items():
                    if b.k == "self" and v.k == "const" and isinstance(v.a[0], (int, str, bool)) and not a.startswith("#"):
                        stored[a] = v
                # drop ones assigned in other methods
                for k in self.ix.mro(cls):
                    for m in list(k.methods.values()) + list(k.setters.values()):
                        if m.name == "__init__":
                            continue
                        for n in ast.walk(m.node):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == "self":
                                stored.pop(n.attr, None)
                out = stored
            except RecursionError:
                out = {}
        self._building.discard(key)
        self._init_cache[key] = out
        return {(selfterm, k): v for k, v in out.items()}

    # ---------------------------------------------------------------- functions
    def exec_func(self, fr, st):
        body = fr.func.node.body
        if isinstance(fr.func.node, ast.Lambda):
            v = self.ev(body, st, fr)
            fr.returns.append((st.copy(), v))
            return st
        self.block(body, st, fr)
        if not st.dead:
            fr.returns.append((st.copy(), NONE))
        return self.merge_states([s for s, _ in fr.returns], st) if fr.returns else st

    def split_cond(self, gs):
        """a condition every guard list decides, both ways among them: splits the outcomes exactly"""
        for c, b in gs[0]:
            pol = []
            for g in gs:
                v = [y for x, y in g if x is c]
                if not v:
                    break
                pol.append(v[0])
            else:
                if len(set(pol)) == 2:
                    return c, pol
        return None, None

    def merge_states(self, states, base):
        if not states:
            return base
        common = [g for g in states[0].guards if all(g in s.guards for s in states[1:])]
        cur = self._merge_list(states)
        cur.guards = tuple(common)
        cur.dead = False
        return cur

    def _merge_list(self, states):
        if len(states) == 1:
            return states[0].copy()
        c, pol = self.split_cond([s.guards for s in states])
        if c is not None:
            a = self._merge_list([s for s, p in zip(states, pol) if p])
            b = self._merge_list([s for s, p in zip(states, pol) if not p])
            self._merge_into(b, a, c)
            return b
        cur = states[-1].copy()
        for s in reversed(states[:-1]):
            self._merge_into(cur, s, self.guard_term(s.guards, cur.guards))
        return cur

    def guard_term(self, guards, other):
        extra = [g for g in guards if g not in other and (g[0], not g[1]) not in ()]
        if not extra:
            return T("choice", len(guards))
        ts = [g if b else self.neg(g) for g, b in extra[-3:]]
        t = ts[0]
        for x in ts[1:]:
            t = op("and_", (t, x))
        return t

    def _merge_into(self, cur, s, cond):
        """cur := s if cond else cur"""
        for k in set(cur.env) | set(s.env):
            a, b = s.env.get(k), cur.env.get(k)
            if a is None or b is None:
                if b is None and a is not None:
                    cur.env[k] = a
                continue
            if a is not b:
                cur.env[k] = self.phi(cond, a, b)
        for k in set(cur.heap) | set(s.heap):
            a, b = s.heap.get(k), cur.heap.get(k)
            if a is b:
                continue
            if a is None:
                a = self.heap_default(k)
            if b is None:
                b = self.heap_default(k)
            cur.heap[k] = self.phi(cond, a, b)

    def heap_default(self, k):
        if k[1] == "#val":
            return k[0]
        return T("attr", k[0], k[1])

    def merge_returns(self, fr, base):
        if not fr.returns:
            return T("never")
        return self._merge_rets([(s.guards, t) for s, t in fr.returns])

    def _merge_rets(self, rs):
        if len({t for _, t in rs}) == 1:
            return rs[0][1]
        c, pol = self.split_cond([g for g, _ in rs])
        if c is not None:
            a = self._merge_rets([r for r, p in zip(rs, pol) if p])
            b = self._merge_rets([r for r, p in zip(rs, pol) if not p])
            return self.phi(c, a, b)
        val, prev = rs[-1][1], rs[-1][0]
        for g, t in reversed(rs[:-1]):
            if t is not val:
                val = self.phi(self.guard_term(g, prev), t, val)
            prev = tuple(x for x in prev if x in g) or prev
        return val

    # ---------------------------------------------------------------- phi / bool
    def neg(self, t):
        if t.k == "const":
            return const(not t.a[0])
        if t.k == "op" and t.a[0] == "not":
            return t.a[1][0]
        if t.k == "op" and t.a[0] in ("eq", "ne", "is", "isnot", "in", "notin"):
            inv = {"eq": "ne", "ne": "eq", "is": "isnot", "isnot": "is", "in": "notin", "notin": "in"}
            return op(inv[t.a[0]], t.a[1])
        return op("not", (t,))

    def phi(self, c, a, b):
        if a is b:
            return a
        if c.k == "const":
            return a if c.a[0] else b
        if c.k == "op" and c.a[0] in ("not", "ne", "isnot", "notin"):
            return self.phi(self.neg(c), b, a)
        if a.k == "phi" and a.a[0] is c:
            a = a.a[1]
        if b.k == "phi" and b.a[0] is c:
            b = b.a[2]
        if a is b:
            return a
        if a is TRUE and b is FALSE:
            return c
        return T("phi", c, a, b)

    def truth(self, t):
        if t.k == "const":
            return bool(t.a[0])
        if t.k in ("tuple", "list", "set", "dict"):
            return len(t.a[0]) > 0
        if t.k == "op" and t.a[0] == "not":
            x = self.truth(t.a[1][0])
            return None if x is None else not x
        return None

    # ---------------------------------------------------------------- statements
    def block(self, body, st, fr):
        for s in body:
            if st.dead:
                return
            self.stmt(s, st, fr)

    def emit(self, kind, node, st, fr, **kw):
        if self.muted:
            return None
        if len(self.events) > self.max_events:
            raise AnalysisError("event budget exceeded")
        e = Event(kind, fr.func, node, st.guards, self.ctxs, self.loopstack, self.tries, depth=fr.depth, seq=len(self.events), stack=tuple(self.stack), **kw)
        self.events.append(e)
        return e

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m:
            m(s, st, fr)

    def s_Expr(self, s, st, fr):
        self._stmt_call = s.value
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def s_Import(self, s, st, fr):
        for k, b in self.ix.import_bindings(fr.func.module, s).items():
            st.env[k] = self.binding_term(self.ix._resolve_binding(fr.func.module, b), k)

    s_ImportFrom = s_Import

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.ev(s.value, st, fr)
            self._annotate(v, s.annotation, fr.func)
            self.assign(s.target, v, st, fr, s)

    def s_AugAssign(self, s, st, fr):
        opn = O.BINOP.get(type(s.op), "binop")
        cur = self.ev(_load(s.target), st, fr)
        v = self.ev(s.value, st, fr)
        new = self.binop(opn, cur, v)
        if isinstance(s.target, ast.Name):
            self.emit("aug", s, st, fr, target=cur, term=new, idx=opn, args=(v,))
            st.env[s.target.id] = new
        elif isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value, st, fr)
            idx = self.ev(s.target.slice, st, fr)
            self.emit("store_item", s, st, fr, target=base, idx=idx, term=new, name="aug:" + opn, args=(v,))
            self.mutate(base, idx, new, st, s.target.value, fr)
        else:
            self.assign(s.target, new, st, fr, s)

    def mutate(self, base, idx, val, st, node, fr):
        new = T("store", base, idx, val)
        if isinstance(node, ast.Name):
            old = st.env.get(node.id)
            if old is not None:
                same = aliases(fr.func, node.id)
                for k, v in list(st.env.items()):
                    if v is old and (k == node.id or k in same):
                        st.env[k] = new
                if old.k == "item":  # a view: propagate to its base where it is a local
                    pass
                return
        if isinstance(node, ast.Attribute):
            b = self.ev(node.value, st, fr)
            st.heap[(b, node.attr)] = new
        elif isinstance(node, ast.Subscript):
            inner = self.ev(node.value, st, fr)
            ix_ = self.ev(node.slice, st, fr)
            self.mutate(inner, ix_, new, st, node.value, fr)

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, T("item", v, T("slice", const(i), NONE, NONE)), st, fr, node)
                else:
                    self.assign(e, self.item(v, const(i)), st, fr, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            idx = self.ev(t.slice, st, fr)
            self.emit("store_item", node, st, fr, target=base, idx=idx, term=v)
            self.mutate(base, idx, v, st, t.value, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            self.store_attr(base, t.attr, v, st, fr, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)

    def store_attr(self, base, attr, v, st, fr, node):
        c = self.types.get(base)
        setter = self.ix.find_setter(c, attr) if c is not None and (base.k == "self") else None
        self.emit("store_attr", node, st, fr, target=base, idx=attr, term=v, callee=setter)
        if setter is not None and self.may_inline(setter, fr):
            names = setter.all_param_names()
            self.inline(setter, c, {names[0]: base, names[1]: v} if len(names) > 1 else {names[0]: base}, st, fr, node)
        elif attr == "data" and base.k == "attr":
            st.heap[(base.a[0], base.a[1])] = v
        st.heap[(base, attr)] = v

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        self.emit("return", s, st, fr, term=v)
        fr.returns.append((st.copy(), v))
        st.dead = True

    def s_Raise(self, s, st, fr):
        v = self.ev(s.exc, st, fr) if s.exc is not None else T("reraise")
        self.emit("raise", s, st, fr, term=v)
        st.dead = True

    def s_Assert(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        if self.truth(c) is None:
            st2 = st.copy()
            st2.guards = self.add_guard(st.guards, c, False)
            self.emit("raise", s, st2, fr, term=T("global", "builtins.AssertionError"))
            st.guards = self.add_guard(st.guards, c, True)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                self.emit("del", s, st, fr, target=b, idx=t.attr)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                i = self.ev(t.slice, st, fr)
                self.emit("del", s, st, fr, target=b, idx=i)

    def s_Pass(self, s, st, fr):
        pass

    def s_Global(self, s, st, fr):
        fr.globals_decl.update(s.names)

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, st, fr):
        fi = FuncInfo(fr.func.qual + ".<locals>." + s.name, s.name, s, fr.func.module, None, "nested", fr.func,
                      tuple(ast.unparse(d) for d in s.decorator_list))
        t = T("func", fi.qual, s.lineno, s.col_offset)
        self.funcvals[t] = (fi, st.env, fr.cls, fr.owner)
        st.env[s.name] = t

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr):
        st.env[s.name] = T("localclass", fr.func.qual, s.name)

    def add_guard(self, guards, c, b):
        tv = self.truth(c)
        if tv is not None:
            return guards
        if c.k == "op" and c.a[0] in ("not",):
            return self.add_guard(guards, c.a[1][0], not b)
        if c.k == "op" and c.a[0] == "ne":
            c, b = op("eq", c.a[1]), not b
        elif c.k == "op" and c.a[0] == "isnot":
            c, b = op("is", c.a[1]), not b
        elif c.k == "op" and c.a[0] == "notin":
            c, b = op("in", c.a[1]), not b
        if c.k == "op" and c.a[0] == "and" and b:
            for x in c.a[1]:
                guards = self.add_guard(guards, x, True)
            return guards
        if c.k == "op" and c.a[0] == "or" and not b:
            for x in c.a[1]:
                guards = self.add_guard(guards, x, False)
            return guards
        if (c, b) in guards:
            return guards
        return guards + ((c, b),)

    def implied(self, guards, c):
        """True/False if c is decided by guards, else None"""
        if c.k == "op" and c.a[0] == "not":
            r = self.implied(guards, c.a[1][0])
            return None if r is None else not r
        if c.k == "op" and c.a[0] in ("ne", "isnot", "notin"):
            r = self.implied(guards, self.neg(c))
            return None if r is None else not r
        if c.k == "op" and c.a[0] == "and":
            rs = [self.implied(guards, x) for x in c.a[1]]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if c.k == "op" and c.a[0] == "or":
            rs = [self.implied(guards, x) for x in c.a[1]]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if (c, True) in guards:
            return True
        if (c, False) in guards:
            return False
        return None

    def s_If(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        self.branch(c, lambda x: self.block(s.body, x, fr), lambda x: self.block(s.orelse, x, fr), st)

    def branch(self, c, f1, f2, st):
        tv = self.truth(c)
        if tv is None:
            tv = self.implied(st.guards, c)
        else:
            self.folded += 1
        if tv is True:
            f1(st)
            return
        if tv is False:
            f2(st)
            return
        base = st.guards
        a, b = st.copy(), st.copy()
        a.guards = self.add_guard(base, c, True)
        b.guards = self.add_guard(base, c, False)
        ga, gb = a.guards, b.guards
        f1(a)
        f2(b)
        self.join(st, base, c, a, ga, b, gb)

    def join(self, st, base, c, a, ga, b, gb):
        if a.dead and b.dead:
            st.env, st.heap, st.dead = a.env, a.heap, True
            return
        if a.dead:
            st.env, st.heap, st.guards = b.env, b.heap, b.guards
            return
        if b.dead:
            st.env, st.heap, st.guards = a.env, a.heap, a.guards
            return
        self._merge_into(b, a, c)
        st.env, st.heap = b.env, b.heap
        g = base
        for x in a.guards[len(ga):]:
            g = g + ((op("or", (self.neg(c), x[0] if x[1] else self.neg(x[0]))), True),)
        for x in b.guards[len(gb):]:
            if x in g:
                continue
            g = g + ((op("or", (c, x[0] if x[1] else self.neg(x[0]))), True),)
        st.guards = g

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        items = self.literal_items(it)
        if items is not None and len(items) <= 8 and not any(isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(s)):
            for x in items:
                if st.dead:
                    return
                self.assign(s.target, x, st, fr, s)
                self.block(s.body, st, fr)
            return
        el = self.elem(it)
        self.loop(s, st, fr, it, lambda x: self.assign(s.target, el, x, fr, s))
        if s.orelse and not st.dead:
            self.block(s.orelse, st, fr)

    s_AsyncFor = s_For

    def literal_items(self, it):
        if it.k in ("tuple", "list") and not any(x.k == "star" for x in it.a[0]):
            return list(it.a[0])
        if it.k == "call" and it.a[0].k == "global" and it.a[0].a[0] == "builtins.enumerate" and it.a[1] and it.a[1][0].k in ("tuple", "list"):
            return [T("tuple", (const(i), x)) for i, x in enumerate(it.a[1][0].a[0])]
        if it.k == "call" and it.a[0].k == "global" and it.a[0].a[0] == "builtins.zip":
            ls = [self.literal_items(x) for x in it.a[1]]
            if ls and all(x is not None for x in ls):
                return [T("tuple", tuple(z)) for z in zip(*ls)]
        if it.k == "call" and it.a[0].k == "attr" and it.a[0].a[1] == "items" and it.a[0].a[0].k == "dict":
            d = it.a[0].a[0].a[0]
            if all(k.k == "const" for k, _ in d):
                return [T("tuple", (k, v)) for k, v in d]
        return None

    def s_While(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        it = T("while", c)

        def pre(x):
            cc = self.ev(s.test, x, fr)
            x.guards = self.add_guard(x.guards, cc, True)

        self.loop(s, st, fr, it, pre)
        if is_const(c, True) is False and not st.dead:
            pass

    def loop(self, s, st, fr, it, bind):
        base = st.guards
        # pass 1 (muted): find loop-carried values
        def dry(a):
            fr.loops.append([])
            nret = len(fr.returns)
            self.muted += 1
            outer = self.loopstack
            self.loopstack = outer + (it,)
            bind(a)
            self.block(s.body, a, fr)
            self.loopstack = outer
            for x in reversed([x for x, brk in fr.loops[-1] if not brk]):
                self._merge_into(a, x, self.exit_cond(a, x, it)) if not a.dead else self._adopt(a, x)
            self.muted -= 1
            fr.loops.pop()
            del fr.returns[nret:]
        a = st.copy()
        fold0 = self.folded
        dry(a)
        b = st.copy()
        lc = T("loopcarried", it)
        for k, v in a.env.items():
            if k in st.env and st.env[k] is not v:
                b.env[k] = T("phi", lc, v, st.env[k]) if v.k != "phi" or v.a[0] is not lc else v
        for k, v in a.heap.items():
            o = st.heap.get(k) or self.heap_default(k)
            if o is not v:
                b.heap[k] = T("phi", lc, v, o)
        if self.folded > fold0:
            # a branch was decided by first-iteration values: values it hides are loop-carried too
            new = set()
            for _ in range(2):
                a = b.copy()
                dry(a)
                for k, v in a.env.items():
                    if k in new or k in st.env and b.env.get(k) is st.env[k] and v is not st.env[k]:
                        new.add(k)
                        b.env[k] = T("phi", lc, v, st.env[k]) if v.k != "phi" or v.a[0] is not lc else v
                if not new:
                    break
        old = self.loopstack
        self.loopstack = old + (it,)
        fr.loops.append([])
        pre_env, pre_heap = dict(st.env), dict(st.heap)
        bind(b)
        gb = b.guards
        self.block(s.body, b, fr)
        self.loopstack = old
        exits = [x for x, _ in fr.loops.pop()]
        common = exits
        if b.dead and exits:
            self._adopt(b, exits[-1])
            exits = exits[:-1]
        for x in reversed(exits):
            self._merge_into(b, x, self.exit_cond(b, x, it))
        infinite = isinstance(s, ast.While) and is_const(it.a[0], True)
        if b.dead:
            # every iteration returns/raises: the fall-through is the zero-iteration state
            st.env, st.heap = pre_env, pre_heap
            st.guards = base
            if infinite:
                st.dead = True
            return
        ran = T("ran", it)
        out = State(pre_env, pre_heap, base)
        if infinite:
            out.env, out.heap = b.env, b.heap
        else:
            self._merge_into(out, b, ran)
        st.env, st.heap, st.guards = out.env, out.heap, base
        # raises inside the loop body establish facts for all elements
        facts = tuple(g for g in b.guards[len(gb):] if all(g in x.guards for x in common))
        for g in facts:
            ft = T("forall", it, g[0], g[1])
            st.guards = st.guards + ((ft, True),)

    def exit_cond(self, cur, x, it):
        """the condition under which the early exit x is taken instead of cur's path, if one test separates them"""
        for d, w in cur.guards:
            if (d, w) in x.guards:
                continue
            if self.implied(x.guards, d) is (not w):
                return self.neg(d) if w else d
            break
        return T("brk", it)

    def _adopt(self, a, x):
        a.env, a.heap, a.dead = dict(x.env), dict(x.heap), False

    def s_Break(self, s, st, fr):
        if isinstance(s, ast.Break):
            self.emit("break", s, st, fr)
        if fr.loops:
            fr.loops[-1].append((st.copy(), isinstance(s, ast.Break)))
        st.dead = True

    s_Continue = s_Break

    def s_With(self, s, st, fr):
        old = self.ctxs
        for i in s.items:
            c = self.ev(i.context_expr, st, fr)
            if i.optional_vars is not None:
                e = T("enter", c)
                if c in self.types:
                    self.types[e] = self.types[c]
                self.assign(i.optional_vars, e, st, fr, s)
            self.ctxs = self.ctxs + (c,)
        self.block(s.body, st, fr)
        self.ctxs = old

    s_AsyncWith = s_With

    def s_Try(self, s, st, fr):
        self._uid += 1
        tid = (fr.func.qual, s.lineno)
        old = self.tries
        hn = tuple(ast.unparse(h.type) if h.type is not None else "*" for h in s.handlers)
        base = st.guards
        pre = st.copy()
        self.tries = old + (("try", tid, hn, bool(s.finalbody)),)
        self.block(s.body, st, fr)
        if s.orelse and not st.dead:
            self.block(s.orelse, st, fr)
        ends = []
        for h in s.handlers:
            x = pre.copy()
            # the handler may see partial effects of the body
            if not st.dead:
                self._merge_into(x, st, T("partial", *tid))
            x.guards = base + ((T("exc", fr.func.qual, s.lineno, ast.unparse(h.type) if h.type else "*"), True),)
            x.dead = False
            if h.name:
                x.env[h.name] = T("excvar", fr.func.qual, s.lineno)
            self.tries = old + (("handler", tid, hn, bool(s.finalbody)),)
            self.block(h.body, x, fr)
            ends.append((h, x))
        self.tries = old
        alive = [(h, x) for h, x in ends if not x.dead]
        if st.dead and alive:
            self._adopt(st, alive[0][1])
            st.guards = base
            alive = alive[1:]
        for h, x in alive:
            self._merge_into(st, x, T("exc", fr.func.qual, s.lineno, ast.unparse(h.type) if h.type else "*"))
            st.guards = tuple(g for g in st.guards if g in base)
        if s.finalbody:
            dead = st.dead
            g = st.guards
            st.dead = False
            st.guards = base
            self.tries = old + (("finally", tid, hn, True),)
            self.block(s.finalbody, st, fr)
            self.tries = old
            st.dead = dead or st.dead
            st.guards = g

    s_TryStar = s_Try

    def s_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)
        states = []
        for i, c in enumerate(s.cases):
            x = st.copy()
            cond = T("match", subj, ast.unparse(c.pattern))
            x.guards = x.guards + ((cond, True),)
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    x.env[n.name] = T("matchvar", subj, n.name)
            self.block(c.body, x, fr)
            states.append((cond, x))
        alive = [(c, x) for c, x in states if not x.dead]
        for c, x in alive:
            self._merge_into(st, x, c)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st, fr) -> T:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return T("unknown", type(e).__name__, fr.func.qual, getattr(e, "lineno", 0), getattr(e, "col_offset", 0))
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, (int, float, str, bool, bytes, complex)) or v is None:
            return const(v)
        return T("unknown", repr(v))

    def binding_term(self, r, name):
        if r is None:
            return T("global", "?." + name)
        if r[0] == "cls":
            return T("global", r[1].qual)
        if r[0] == "func":
            return T("global", r[1].qual)
        if r[0] in ("ext",):
            return T("global", r[1])
        if r[0] == "mod":
            return T("module", r[1])
        return T("global", "?." + name)

    def e_Name(self, e, st, fr):
        if e.id in st.env:
            return st.env[e.id]
        r = self.ix.lookup(fr.func.module, e.id)
        if r is not None:
            if r[0] == "assign":
                x = r[1]
                if isinstance(x, ast.Constant):
                    return self.e_Constant(x, st, fr)
                if isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant) and isinstance(x.op, ast.USub):
                    return const(-x.operand.value)
                if isinstance(x, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(y, ast.Constant) for y in x.elts):
                    return T("tuple", tuple(const(y.value) for y in x.elts))
                return T("global", r[2].name + "." + e.id)
            return self.binding_term(r, e.id)
        if e.id in BUILTINS:
            return T("global", "builtins." + e.id)
        return T("global", "?." + e.id)

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        return self.attr(b, e.attr, st, fr, e)

    def attr(self, b, name, st, fr, node):
        if b.k == "module":
            r = self.ix.resolve_attr(("mod", b.a[0]), name)
            if r and r[0] == "assign":
                if isinstance(r[1], ast.Constant):
                    return self.e_Constant(r[1], st, fr)
                return T("global", r[2].name + "." + name)
            t = self.binding_term(r, name)
            if t.k == "global" and t.a[0] in ("math.inf", "numpy.inf", "torch.inf"):
                return const(float("inf"))
            if t.k == "global" and t.a[0] in ("math.nan", "numpy.nan", "torch.nan"):
                return T("nan")
            return t
        if b.k == "global":
            c = self.ix.classes.get(b.a[0])
            if c is not None:
                f = self.ix.find_method(c, name)
                if f is not None:
                    return T("global", f.qual)
                ca = self.ix.find_class_attr(c, name)
                if ca is not None and isinstance(ca[0], ast.Constant):
                    return self.e_Constant(ca[0], st, fr)
                return T("attr", b, name)
            if not b.a[0].startswith(("?", "builtins", "spflow")):
                return T("global", b.a[0] + "." + name)
            return T("attr", b, name)
        h = st.heap.get((b, name))
        if h is not None:
            return h
        if b.k == "phi" and name not in ("data", "grad"):
            # distribute attribute access over alternatives with a stored value
            pass
        c = self.types.get(b)
        if c is not None:
            f = self.ix.find_method(c, name)
            if f is not None and f.kind == "property":
                if b.k == "self" and self.inline_props and name not in self.opaque_props and self.may_inline(f, fr):
                    nm = f.all_param_names()[0]
                    return self.inline(f, c, {nm: b}, st, fr, node)
                t = T("attr", b, name)
                if f.node.returns is not None:
                    self._annotate(t, f.node.returns, f)
                return t
            if f is None:
                ca = self.ix.find_class_attr(c, name)
                if ca is not None and isinstance(ca[0], ast.Constant) and b.k == "self":
                    return self.e_Constant(ca[0], st, fr)
                for k in self.ix.mro(c):
                    for fn, ann, _ in k.fields:
                        if fn == name:
                            t = T("attr", b, name)
                            for ex in strip_optional(ann):
                                r = self.ix.resolve_expr(k.module, ex)
                                if r and r[0] == "cls":
                                    self.types.setdefault(t, r[1])
                            return t
        t = T("attr", b, name)
        if name in ("inputs", "root_node", "root") and self.module_cls is not None and t not in self.types and c is not None and self.module_cls in self.ix.mro(c):
            self.types[t] = self.module_cls
        return t

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        i = self.ev(e.slice, st, fr)
        return self.item(b, i)

    def item(self, b, i):
        if b.k in ("tuple", "list") and i.k == "const" and isinstance(i.a[0], int) and not any(x.k == "star" for x in b.a[0]):
            try:
                return b.a[0][i.a[0]]
            except IndexError:
                pass
        if b.k == "dict" and i.k == "const":
            for k, v in b.a[0]:
                if k is i:
                    return v
        if b.k == "phi" and i.k == "const":
            x, y = self.item(b.a[1], i), self.item(b.a[2], i)
            if not (x.k == "item" and y.k == "item"):
                return self.phi(b.a[0], x, y)
        if b.k == "store" and i.k == "const":
            if b.a[1] is i:
                return b.a[2]
            if b.a[1].k == "const" and b.a[0].k in ("dict", "store"):
                return self.item(b.a[0], i)
        return T("item", b, i)

    def e_Slice(self, e, st, fr):
        f = lambda x: NONE if x is None else self.ev(x, st, fr)
        return T("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st, fr):
        return T("tuple", tuple(self.ev(x, st, fr) for x in e.elts))

    def e_List(self, e, st, fr):
        return T("list", tuple(self.ev(x, st, fr) for x in e.elts))

    def e_Set(self, e, st, fr):
        return T("set", tuple(self.ev(x, st, fr) for x in e.elts))

    def e_Dict(self, e, st, fr):
        return T("dict", tuple((NONE if k is None else self.ev(k, st, fr), self.ev(v, st, fr)) if k is not None else (T("starstar"), self.ev(v, st, fr)) for k, v in zip(e.keys, e.values)))

    def e_Starred(self, e, st, fr):
        return T("star", self.ev(e.value, st, fr))

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.ev(v.value, st, fr))
        if all(p.k == "const" for p in parts):
            return const("".join(str(p.a[0]) for p in parts))
        return T("fstr", tuple(parts))

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return self.neg(v)
        if isinstance(e.op, ast.USub):
            if v.k == "const" and isinstance(v.a[0], (int, float)):
                return const(-v.a[0])
            return op("neg", (v,))
        if isinstance(e.op, ast.Invert):
            return op("not_", (v,))
        return v

    def binop(self, n, a, b):
        if a.k == "const" and b.k == "const" and isinstance(a.a[0], (int, float)) and isinstance(b.a[0], (int, float)):
            x, y = a.a[0], b.a[0]
            try:
                if n == "add":
                    return const(x + y)
                if n == "sub":
                    return const(x - y)
                if n == "mul":
                    return const(x * y)
                if n == "floordiv":
                    return const(x // y)
                if n == "div":
                    return const(x / y)
                if n == "pow":
                    return const(x ** y)
            except Exception:
                pass
        if n == "add" and a.k == b.k and a.k in ("tuple", "list"):
            return T(a.k, a.a[0] + b.a[0])
        if n == "mul" and a.k in ("tuple", "list") and b.k == "const" and isinstance(b.a[0], int) and b.a[0] < 6:
            return T(a.k, a.a[0] * b.a[0])
        t = op(n, (a, b))
        return self.simplify_op(t) if n == "sub" else t

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(O.BINOP.get(type(e.op), "binop"), a, b)

    def e_BoolOp(self, e, st, fr):
        # later operands are evaluated under earlier ones
        vals = []
        g = st.guards
        isand = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.ev(x, st, fr)
            tv = self.truth(v)
            if tv is not None:
                if tv != isand:  # short circuit
                    vals.append(v)
                    break
                if x is not e.values[-1]:
                    continue
            vals.append(v)
            st.guards = self.add_guard(st.guards, v, isand)
        st.guards = g
        if len(vals) == 1:
            return vals[0]
        if vals and vals[-1].k == "const" and (bool(vals[-1].a[0]) != isand):
            return vals[-1]
        flat = []
        n = "and" if isand else "or"
        for v in vals:
            if v.k == "op" and v.a[0] == n:
                flat.extend(v.a[1])
            else:
                flat.append(v)
        return op(n, tuple(flat))

    def e_Compare(self, e, st, fr):
        l = self.ev(e.left, st, fr)
        out = []
        for o, c in zip(e.ops, e.comparators):
            r = self.ev(c, st, fr)
            out.append(self.cmp(O.CMPOP[type(o)], l, r))
            l = r
        if len(out) == 1:
            return out[0]
        if any(is_const(x, False) for x in out):
            return FALSE
        out = [x for x in out if not is_const(x, True)]
        return op("and", tuple(out)) if len(out) > 1 else (out[0] if out else TRUE)

    def cmp(self, n, l, r):
        if n in ("is", "isnot"):
            if l.k == "const" and r.k == "const":
                v = l.a[0] is r.a[0] or (l.a[0] == r.a[0] and type(l.a[0]) is type(r.a[0]))
                return const(v if n == "is" else not v)
            if is_const(r, None) and self.never_none(l):
                return const(n == "isnot")
            if n == "isnot":
                return op("isnot", (l, r))
            return op("is", (l, r))
        if l.k == "const" and r.k == "const":
            try:
                x, y = l.a[0], r.a[0]
                return const({"eq": x == y, "ne": x != y, "lt": None, "le": None, "gt": None, "ge": None, "in": None, "notin": None}[n]
                             if n in ("eq", "ne") else
                             (x < y if n == "lt" else x <= y if n == "le" else x > y if n == "gt" else x >= y if n == "ge" else x in y if n == "in" else x not in y))
            except Exception:
                pass
        if n in ("in", "notin") and l.k == "const" and r.k in ("tuple", "list", "set") and all(x.k == "const" for x in r.a[0]):
            v = any(x is l for x in r.a[0])
            return const(v if n == "in" else not v)
        if n in ("gt", "ge"):  # canonical: a > b == b < a
            return op("lt" if n == "gt" else "le", (r, l))
        return op(n, (l, r))

    def never_none(self, t):
        if t.k == "op":
            return t.a[0] not in ("or", "and")
        if t.k in ("tuple", "list", "dict", "set", "comp", "self", "func", "lambda", "store", "fstr"):
            return True
        if t.k == "call" and t.a[0].k == "global" and (t.a[0].a[0] in self.ix.classes):
            return True
        if t.k == "phi":
            return self.never_none(t.a[1]) and self.never_none(t.a[2])
        return False

    def e_IfExp(self, e, st, fr):
        c = self.ev(e.test, st, fr)
        tv = self.truth(c)
        if tv is None:
            tv = self.implied(st.guards, c)
        if tv is not None:
            return self.ev(e.body if tv else e.orelse, st, fr)
        g = st.guards
        st.guards = self.add_guard(g, c, True)
        a = self.ev(e.body, st, fr)
        st.guards = self.add_guard(g, c, False)
        b = self.ev(e.orelse, st, fr)
        st.guards = g
        return self.phi(c, a, b)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr, e)
        return v

    def e_Lambda(self, e, st, fr):
        fi = FuncInfo(fr.func.qual + ".<lambda>", "<lambda>", e, fr.func.module, None, "lambda", fr.func)
        t = T("func", fi.qual, e.lineno, e.col_offset)
        self.funcvals[t] = (fi, dict(st.env), fr.cls, fr.owner)
        return t

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        self.emit("yield", e, st, fr, term=v)
        return T("sent", v)

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.emit("yield", e, st, fr, term=self.elem(v), name="from")
        return T("sent", v)

    def elem(self, it):
        if it.k == "call" and it.a[0].k == "global":
            n = it.a[0].a[0]
            if n == "builtins.enumerate" and it.a[1]:
                return T("tuple", (T("idx", it.a[1][0]), self.elem(it.a[1][0])))
            if n == "builtins.zip":
                return T("tuple", tuple(self.elem(x) for x in it.a[1]))
            if n in ("builtins.reversed", "builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted") and it.a[1]:
                return self.elem(it.a[1][0])
            if n in ("itertools.chain",) and it.a[1]:
                es = [self.elem(x) for x in it.a[1]]
                r = es[-1]
                for x in reversed(es[:-1]):
                    r = self.phi(T("choice", "chain"), x, r)
                return r
        if it.k == "call" and it.a[0].k == "attr" and it.a[0].a[1] in ("items", "values", "keys") and not it.a[1]:
            b = it.a[0].a[0]
            k, v = T("key", b), T("val", b)
            if b.k == "comp" and b.a[0] == "dict":
                k, v = b.a[1].a[0][0], b.a[1].a[0][1]
            return {"items": T("tuple", (k, v)), "values": v, "keys": k}[it.a[0].a[1]]
        if it.k == "comp" and it.a[0] != "dict":
            return it.a[1]
        if it.k == "tuple" or it.k == "list":
            if len(it.a[0]) == 1:
                x = it.a[0][0]
                return self.elem(x.a[0]) if x.k == "star" else x
        if it.k == "phi":
            return self.phi(it.a[0], self.elem(it.a[1]), self.elem(it.a[2]))
        # nested loops over one collection have different elements
        n = self.loopstack.count(it)
        t = T("elem", it) if n <= 0 else T("elem", it, n)
        if it.k == "attr" and it.a[1] in ("inputs", "root_node", "children") and self.module_cls is not None:
            self.types.setdefault(t, self.module_cls)
        return t

    def _comp(self, kind, elt_fn, gens, st, fr):
        s2 = st.copy()
        iters, conds = [], []
        old = self.loopstack
        for g in gens:
            it = self.ev(g.iter, s2, fr)
            lits = self.literal_items(it)
            if lits is not None and len(gens) == 1 and not g.ifs and len(lits) <= 8 and kind in ("list", "gen") and len(lits) > 0:
                vals = []
                for x in lits:
                    self.assign(g.target, x, s2, fr, g.iter)
                    vals.append(elt_fn(s2))
                self.loopstack = old
                return T("list", tuple(vals))
            el = self.elem(it)
            self.loopstack = self.loopstack + (it,)
            self.assign(g.target, el, s2, fr, g.iter)
            iters.append(it)
            for c in g.ifs:
                ct = self.ev(c, s2, fr)
                s2.guards = self.add_guard(s2.guards, ct, True)
                conds.append(ct)
        v = elt_fn(s2)
        self.loopstack = old
        return T("comp", kind, v, tuple(iters), tuple(conds))

    def e_ListComp(self, e, st, fr):
        return self._comp("list", lambda s: self.ev(e.elt, s, fr), e.generators, st, fr)

    def e_SetComp(self, e, st, fr):
        return self._comp("set", lambda s: self.ev(e.elt, s, fr), e.generators, st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self._comp("gen", lambda s: self.ev(e.elt, s, fr), e.generators, st, fr)

    def e_DictComp(self, e, st, fr):
        return self._comp("dict", lambda s: T("tuple", (self.ev(e.key, s, fr), self.ev(e.value, s, fr))), e.generators, st, fr)

    # ---------------------------------------------------------------- calls
    def may_inline(self, fi, fr):
        if fi is None or fi.name in self.opaque or fi.qual in self.opaque_quals:
            return False
        if fr.depth >= self.max_depth:
            return False
        if fi in self.stack or fi is fr.func:
            return False
        if any(d.split(".")[-1] in ("abstractmethod", "contextmanager", "lru_cache", "cache") for d in fi.decorators):
            return False
        if self.inline_pred is not None and not self.inline_pred(fi):
            return False
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fi.node)):
            return False
        return True

    def inline(self, fi, cls, bind, st, fr, node, closure=None, owner=None):
        sub = Frame(fi, cls, owner or fi.cls, fr.depth + 1)
        s2 = State(dict(closure) if closure else {}, st.heap, st.guards)
        s2.heap = dict(st.heap)
        pos, kwo, va, kw = fi.params()
        if fi.name in self.fresh:
            bind = {n: T("param", fi.qual, n) for n in pos + kwo}
        a = fi.node.args
        defaults = {}
        dl = a.defaults
        for n, d in zip(pos[len(pos) - len(dl):], dl):
            defaults[n] = d
        for n, d in zip(kwo, a.kw_defaults):
            if d is not None:
                defaults[n] = d
        dst = State({}, {}, st.guards)
        dfr = Frame(fi, cls, owner or fi.cls, fr.depth + 1)
        for n in pos + kwo:
            if n in bind:
                s2.env[n] = bind[n]
            elif n in defaults:
                s2.env[n] = self.ev(defaults[n], dst, dfr)
            else:
                s2.env[n] = T("unbound", fi.qual, n)
            self._annotate(s2.env[n], self._ann_of(fi, n), fi)
        if va:
            s2.env[va] = bind.get("*" + va, T("tuple", ()))
        if kw:
            s2.env[kw] = bind.get("**" + kw, T("dict", ()))
        self.stack.append(fi)
        base = st.guards
        saved_loops = fr.loops
        end = self.exec_func(sub, s2)
        self.stack.pop()
        val = self.merge_returns(sub, base)
        if sub.returns:
            st.heap = end.heap
            # facts holding on every return path persist in the caller
            facts = [g for g in sub.returns[0][0].guards if g not in base and all(g in s.guards for s, _ in sub.returns[1:])]
            st.guards = base + tuple(facts)
            # propagate functional updates of argument objects to caller variables
            self._propagate_arg_updates(bind, s2, end, st)
        else:
            st.dead = True
        return val

    def _propagate_arg_updates(self, bind, s2, end, st):
        for n, old in bind.items():
            if n not in end.env:
                continue
            new = end.env[n]
            if new is old or new.k not in ("store", "phi"):
                continue
            if self._is_update_of(new, old):
                for k, v in list(st.env.items()):
                    if v is old:
                        st.env[k] = new

    def _is_update_of(self, new, old, d=0):
        if new is old:
            return True
        if d > 20:
            return False
        if new.k == "store":
            return self._is_update_of(new.a[0], old, d + 1)
        if new.k == "phi":
            return self._is_update_of(new.a[1], old, d + 1) and self._is_update_of(new.a[2], old, d + 1)
        return False

    def bind_args(self, fi, args, kwargs, selfterm=None):
        pos, kwo, va, kw = fi.params()
        b = {}
        rest = []
        ps = list(pos)
        if selfterm is not None and ps:
            b[ps[0]] = selfterm
            ps = ps[1:]
        star = False
        for i, a in enumerate(args):
            if a.k == "star":
                star = True
                b["*args"] = a
                continue
            if star:
                continue
            if i < len(ps):
                b[ps[i]] = a
            else:
                rest.append(a)
        if va:
            b["*" + va] = T("tuple", tuple(rest))
        extra = []
        for k, v in kwargs:
            if k in pos or k in kwo:
                b[k] = v
            elif k == "**":
                if v.k == "dict" and all(x[0].k == "const" for x in v.a[0]):
                    for kk, vv in v.a[0]:
                        b[kk.a[0]] = vv
                else:
                    extra.append((T("starstar"), v))
                    for p in ps + kwo:
                        if p not in b:
                            b["?" + p] = v
            else:
                extra.append((const(k), v))
        if kw:
            b["**" + kw] = T("dict", tuple(extra))
        return b

    def e_Call(self, e, st, fr):
        f = e.func
        # super()
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            args, kwargs = self.ev_args(e, st, fr)
            owner = fr.owner or (fr.func.parent and fr.func.parent.cls)
            selfterm = None
            for n, v in st.env.items():
                if v.k == "self":
                    selfterm = v
                    break
            tgt = self.ix.find_method(fr.cls, f.attr, after=owner) if (fr.cls and owner) else None
            return self.do_call(e, T("attr", T("super", owner.qual if owner else "?"), f.attr), f.attr, selfterm or T("super"), tgt, fr.cls, selfterm, args, kwargs, st, fr)
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, st, fr)
            args, kwargs = self.ev_args(e, st, fr)
            return self.call_attr(e, recv, f.attr, args, kwargs, st, fr, f)
        fn = self.ev(f, st, fr)
        args, kwargs = self.ev_args(e, st, fr)
        return self.call_term(e, fn, args, kwargs, st, fr)

    def ev_args(self, e, st, fr):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                if v.k in ("tuple", "list") and not any(x.k == "star" for x in v.a[0]):
                    args.extend(v.a[0])
                else:
                    args.append(T("star", v))
            else:
                args.append(self.ev(a, st, fr))
        kwargs = []
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                if v.k == "dict" and all(x[0].k == "const" for x in v.a[0]):
                    kwargs.extend((kk.a[0], vv) for kk, vv in v.a[0])
                else:
                    kwargs.append(("**", v))
            else:
                kwargs.append((k.arg, v))
        return args, kwargs

    def call_term(self, e, fn, args, kwargs, st, fr):
        if fn.k == "global":
            q = fn.a[0]
            c = self.ix.classes.get(q)
            if c is not None:
                return self.ctor(e, c, fn, args, kwargs, st, fr)
            fi = self.ix.functions.get(q)
            if fi is not None:
                return self.do_call(e, fn, fi.name, None, fi, fi.cls, None, args, kwargs, st, fr)
            lo = O.lib_op(q)
            if lo is not None:
                return self.mk_op(e, lo, args, kwargs, st, fr, q)
            if q.startswith("builtins."):
                return self.builtin(e, q[9:], fn, args, kwargs, st, fr)
            if q == "copy.deepcopy" or q == "copy.copy":
                t = T("call", fn, tuple(args), tuple(kwargs))
                if args and args[0] in self.types:
                    self.types[t] = self.types[args[0]]
                self.emit("call", e, st, fr, term=t, name=q.split(".")[-1], args=tuple(args), kwargs=dict(kwargs), npos=len(args))
                return t
        if fn.k == "func":
            fi, clo, cls, owner = self.funcvals[fn]
            b = self.bind_args(fi, args, kwargs)
            ev = self.emit("call", e, st, fr, term=T("call", fn, tuple(args), tuple(kwargs)), name=fi.name, callee=fi, args=tuple(args), kwargs=b, npos=len(args))
            if self.may_inline(fi, fr):
                if ev:
                    ev.inlined = True
                return self.inline(fi, cls, b, st, fr, e, closure=clo, owner=owner)
            return T("call", fn, tuple(args), tuple(kwargs))
        if fn.k == "attr":
            return self.call_attr(e, fn.a[0], fn.a[1], args, kwargs, st, fr, None)
        if fn.k == "phi":
            # call of one of several functions: keep both
            x = self.call_term(e, fn.a[1], args, kwargs, st, fr)
            y = self.call_term(e, fn.a[2], args, kwargs, st, fr)
            return self.phi(fn.a[0], x, y)
        nm = fn.a[-1] if fn.k in ("param", "localclass") else fn.k
        t = T("call", fn, tuple(args), tuple(sorted(kwargs, key=lambda x: x[0])))
        self.emit("call", e, st, fr, term=t, name=str(nm), recv=fn, args=tuple(args), kwargs=dict(kwargs), npos=len(args))
        return t

    def ctor(self, e, c, fn, args, kwargs, st, fr):
        init = self.ix.find_method(c, "__init__")
        if init is not None:
            b = self.bind_args(init, args, kwargs, selfterm=T("new"))
            b.pop(init.all_param_names()[0], None)
            order = init.all_param_names()
        else:
            names = [f for k in reversed(self.ix.mro(c)) for f, _, _ in k.fields]
            b = dict(zip(names, args))
            b.update({k: v for k, v in kwargs})
            order = names
        items = tuple(sorted(((k, v) for k, v in b.items() if isinstance(v, T)), key=lambda x: x[0]))
        t = T("call", fn, (), items)
        self.types[t] = c
        self.emit("call", e, st, fr, term=t, name=c.name, callee=init, args=tuple(args), kwargs=b, npos=len(args), idx="ctor")
        return t

    def call_attr(self, e, recv, name, args, kwargs, st, fr, fnode):
        t = self.call_attr_(e, recv, name, args, kwargs, st, fr, fnode)
        if name in self.site and t.k == "call":
            return T("call", t.a[0], t.a[1], t.a[2] + (("#site", const((e.lineno, e.col_offset))),))
        return t

    def call_attr_(self, e, recv, name, args, kwargs, st, fr, fnode):
        if recv.k in ("module", "global"):
            t = self.attr(recv, name, st, fr, e)
            if t.k == "global" or t.k == "func":
                return self.call_term(e, t, args, kwargs, st, fr)
            if recv.k == "global" and recv.a[0] in self.ix.classes:
                fi = self.ix.find_method(self.ix.classes[recv.a[0]], name)
                if fi:
                    return self.do_call(e, t, name, recv, fi, self.ix.classes[recv.a[0]], None, args, kwargs, st, fr)
        h = st.heap.get((recv, name))
        if h is not None and h.k == "func":
            return self.call_term(e, h, args, kwargs, st, fr)
        c = self.types.get(recv)
        if c is not None:
            fi = self.ix.find_method(c, name)
            if fi is not None and fi.kind != "property":
                return self.do_call(e, T("attr", recv, name), name, recv, fi, c, recv, args, kwargs, st, fr)
            if fi is None and recv.k == "self" and name in self.opaque:
                pass
        # tensor / array method
        discarded = name in ("add", "update", "pop") and e is getattr(self, "_stmt_call", None)
        if c is None and not discarded and (name in O.SIG or name in O.CREATE or (name.endswith("_") and not name.startswith("_"))) and not (recv.k == "const" and isinstance(recv.a[0], str)):
            nm = O.RENAME.get(name, name)
            return self.mk_op(e, nm, [recv] + list(args), kwargs, st, fr, None, method=True)
        # protocol call on an unresolved receiver: bind against Module's signature
        kw2 = dict(kwargs)
        fi = None
        if self.module_cls is not None and name in PROTO:
            fi = self.ix.find_method(self.module_cls, name)
            if fi is not None:
                b = self.bind_args(fi, args, kwargs, selfterm=recv)
                b.pop(fi.all_param_names()[0], None)
                kw2 = b
        fn = T("attr", recv, name)
        if fi is not None:
            t = T("call", fn, (), tuple(sorted(((k, v) for k, v in kw2.items() if isinstance(v, T)), key=lambda x: x[0])))
        else:
            t = T("call", fn, tuple(args), tuple(sorted(kwargs, key=lambda x: x[0])))
        self.emit("call", e, st, fr, term=t, name=name, recv=recv, args=tuple(args), kwargs=kw2, npos=len(args), callee=None)
        if name in ("append", "extend", "add", "update", "insert", "setdefault", "pop", "clear") and fnode is not None:
            self.mutate(recv, const("#" + name), T("tuple", tuple(args)), st, fnode.value, fr)
        return t

    def do_call(self, e, fn, name, recv, fi, cls, selfterm, args, kwargs, st, fr):
        if fi is None:
            t = T("call", fn, tuple(args), tuple(sorted(kwargs, key=lambda x: x[0])))
            self.emit("call", e, st, fr, term=t, name=name, recv=recv, args=tuple(args), kwargs=dict(kwargs), npos=len(args))
            return t
        bound_self = None
        if fi.cls is not None and fi.kind in ("method", "property", "setter"):
            bound_self = selfterm
            if bound_self is None and args:  # Class.method(obj, ...)
                bound_self = args[0]
                args = args[1:]
        elif fi.kind == "classmethod":
            bound_self = recv if recv is not None and recv.k == "global" else T("global", cls.qual if cls else "?")
        b = self.bind_args(fi, args, kwargs, selfterm=bound_self)
        shown = dict(b)
        if bound_self is not None and fi.all_param_names():
            shown.pop(fi.all_param_names()[0], None)
        items = tuple(sorted(((k, v) for k, v in shown.items() if isinstance(v, T)), key=lambda x: x[0]))
        t = T("call", fn, (), items)
        ev = self.emit("call", e, st, fr, term=t, name=name, recv=recv, callee=fi, args=tuple(args), kwargs=shown, npos=len(args))
        ok = self.may_inline(fi, fr)
        if ok and bound_self is not None and bound_self.k != "self" and not self.inline_typed:
            ok = False
        if ok:
            if ev:
                ev.inlined = True
            return self.inline(fi, cls, b, st, fr, e)
        if fi.node.returns is not None if hasattr(fi.node, "returns") else False:
            self._annotate(t, fi.node.returns, fi)
        return t

    def mk_op(self, e, nm, args, kwargs, st, fr, q, method=False):
        if nm in ("clamp_min", "clamp_max", "clamp_min_", "clamp_max_") and args:
            end = nm.rstrip("_")[-3:]
            nm, kwargs = ("clamp_" if nm.endswith("_") else "clamp"), list(kwargs) + ([(end, args[1])] if len(args) > 1 else [])
            args = list(args)[:1]
        sig = O.SIG.get(nm)
        kw = []
        for k, v in kwargs:
            k2 = O.KWALIAS.get(k, k)
            if k == "**" or k2 not in ("out",) or True:
                kw.append((k2, v))
        args = list(args)
        if sig is not None:
            n_in = 1
            if nm in ("where",):
                n_in = 3
            elif len(sig) > 1 and sig[1] == "other":
                n_in = 2
            elif nm in ("masked_fill", "masked_fill_", "fill_", "copy_"):
                n_in = len(sig)
            pos = args[:n_in]
            have = {k for k, _ in kw}
            for i, a in enumerate(args[n_in:], n_in):
                if i < len(sig) and sig[i] not in have:
                    kw.append((sig[i], a))
                else:
                    pos.append(a)
            # inputs given by keyword
            kd = dict(kw)
            for i in range(len(pos), n_in):
                if i < len(sig) and sig[i] in kd:
                    pos.append(kd.pop(sig[i]))
                elif i < len(sig) and i == 0 and ("x" in kd or "a" in kd or "tensor" in kd):
                    for alt in ("x", "a", "tensor"):
                        if alt in kd:
                            pos.append(kd.pop(alt))
                            break
            kw = list(kd.items())
            args = pos
        if nm == "pow" and len(args) == 2:
            pass
        t = op(nm, tuple(args), tuple(sorted(kw, key=lambda x: x[0])))
        t = self.simplify_op(t)
        self.emit("call", e, st, fr, term=t, name=nm, recv=args[0] if args else None, args=tuple(args), kwargs=dict(kw), npos=len(args), idx="op", target=T("global", q) if q else None)
        if nm.endswith("_") and args and method and nm not in ("not_", "and_", "or_"):
            f = e.func.value if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) else None
            if f is not None and nm not in ("requires_grad_",):
                self.mutate(args[0], const("#" + nm), t, st, f, fr)
        return t

    def simplify_op(self, t):
        n, a, kw = t.a[0], t.a[1], dict(t.a[2])
        if n == "gt" and len(a) == 2:
            return op("lt", (a[1], a[0]))
        if n == "ge" and len(a) == 2:
            return op("le", (a[1], a[0]))
        if n == "sub" and len(a) == 2 and a[1].k == "op" and a[1].a[0] == "logsumexp" and a[1].a[1][0] is a[0]:      # x - logsumexp(x) over a kept axis
            k = dict(a[1].a[2])
            if is_const(k.get("keepdim", NONE), True) and "dim" in k:
                return op("log_softmax", (a[0],), (("dim", k["dim"]),))
        return t

    def builtin(self, e, n, fn, args, kwargs, st, fr):
        t = None
        if n == "isinstance" and len(args) == 2:
            t = self.isinstance_(args[0], args[1])
        elif n == "getattr" and len(args) >= 2 and args[1].k == "const":
            if len(args) == 2:
                t = self.attr(args[0], args[1].a[0], st, fr, e)
            else:
                t = self.attr(args[0], args[1].a[0], st, fr, e)
        elif n == "setattr" and len(args) == 3 and args[1].k == "const":
            self.store_attr(args[0], args[1].a[0], args[2], st, fr, e)
            return NONE
        elif n in ("int", "float", "bool") and len(args) == 1 and args[0].k == "const" and n != "bool":
            try:
                t = const({"int": int, "float": float}[n](args[0].a[0]))
                if t.a[0] != t.a[0]:
                    t = T("nan")
            except Exception:
                t = None
        elif n == "len" and len(args) == 1 and args[0].k in ("tuple", "list") and not any(x.k == "star" for x in args[0].a[0]):
            t = const(len(args[0].a[0]))
        elif n == "type" and len(args) == 1 and args[0] in self.types and args[0].k == "self":
            t = T("attr", args[0], "__class__")
        elif n == "list" and len(args) == 1 and args[0].k in ("list", "tuple"):
            t = T("list", args[0].a[0])
        elif n == "list" and not args:
            t = T("list", ())
        elif n == "dict" and not args:
            t = T("dict", tuple((const(k), v) for k, v in kwargs if k != "**"))
        elif n == "sum" and len(args) >= 1:
            t = T("call", fn, tuple(args), tuple(kwargs))
        if t is None:
            t = T("call", fn, tuple(args), tuple(sorted(kwargs, key=lambda x: x[0])))
        self.emit("call", e, st, fr, term=t, name=n, args=tuple(args), kwargs=dict(kwargs), npos=len(args), idx="builtin")
        return t

    def isinstance_(self, x, c):
        cs = c.a[0] if c.k == "tuple" else (c,)
        xc = self.types.get(x)
        if x.k == "self" and xc is not None:
            names = [k.qual for k in self.ix.mro(xc)]
            if any(t.k == "global" and t.a[0] in names for t in cs):
                return TRUE
            if all(t.k == "global" and t.a[0] in self.ix.classes for t in cs):
                return FALSE
        if x.k == "call" and xc is not None and x.a[0].k == "global" and x.a[0].a[0] == xc.qual:
            names = [k.qual for k in self.ix.mro(xc)]
            if any(t.k == "global" and t.a[0] in names for t in cs):
                return TRUE
        if x.k in ("list",) and any(t.k == "global" and t.a[0] == "builtins.list" for t in cs):
            return TRUE
        return op("isinstance", (x, T("tuple", tuple(cs))))


def _load(t):
    import copy
    t2 = copy.deepcopy(t)
    for n in ast.walk(t2):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t2


def root(t):
    """object identity behind views / functional updates"""
    while True:
        if t.k in ("store",):
            t = t.a[0]
        else:
            return t
