"""Source index of the SPFlow tree: modules, imports, classes, MROs, functions.

Everything is read from the working tree of /repo on every run; nothing is imported or executed.
"""
from __future__ import annotations
import ast
import os
from dataclasses import dataclass, field

REPO = os.environ.get("SPFLOW_REPO", "/repo")


class AnalysisError(Exception):
    """The analysed tree no longer has the shape a rule relies on (reported as 'error', not as violation)."""


@dataclass(eq=False)
class FuncInfo:
    qual: str
    name: str
    node: ast.AST
    module: "ModInfo"
    cls: "ClassInfo | None" = None
    kind: str = "function"  # function|method|property|setter|static|classmethod|lambda|nested
    parent: "FuncInfo | None" = None
    decorators: tuple = ()

    @property
    def file(self):
        return self.module.rel

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg

    def all_param_names(self):
        p, k, v, kw = self.params()
        return p + k

    def __repr__(self):
        return f"<F {self.qual}>"


@dataclass(eq=False)
class ClassInfo:
    qual: str
    name: str
    node: ast.ClassDef
    module: "ModInfo"
    base_exprs: list = field(default_factory=list)
    bases: list = field(default_factory=list)  # ClassInfo or str
    methods: dict = field(default_factory=dict)  # name -> FuncInfo (methods + property getters)
    setters: dict = field(default_factory=dict)
    attrs: dict = field(default_factory=dict)  # class-level assignments name -> ast expr
    fields: list = field(default_factory=list)  # annotated class-level names, in order (dataclass fields)
    decorators: tuple = ()
    _mro: list | None = None

    @property
    def file(self):
        return self.module.rel

    def __repr__(self):
        return f"<C {self.qual}>"


@dataclass(eq=False)
class ModInfo:
    name: str
    path: str
    rel: str
    tree: ast.Module
    src: str
    is_pkg: bool = False
    names: dict = field(default_factory=dict)  # local name -> ('cls',ClassInfo)|('func',FuncInfo)|('ext',dotted)|('mod',dotted)|('assign',expr)
    star: list = field(default_factory=list)


class Index:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules: dict[str, ModInfo] = {}
        self.classes: dict[str, ClassInfo] = {}
        self.functions: dict[str, FuncInfo] = {}
        self._load()
        self._link()

    # ------------------------------------------------------------------ load
    def _load(self):
        base = os.path.join(self.root, "spflow")
        if not os.path.isdir(base):
            raise AnalysisError(f"package directory {base} not found")
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                src = open(p, encoding="utf-8").read()
                tree = ast.parse(src, p)
                self.modules[name] = ModInfo(name, p, rel, tree, src, is_pkg)

    def _pkg(self, m: ModInfo, level: int):
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts)

    def import_bindings(self, m: ModInfo, st) -> dict:
        out = {}
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    out[a.asname] = ("mod", a.name)
                else:
                    out[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            src = st.module or ""
            if st.level:
                pkg = self._pkg(m, st.level)
                src = pkg + ("." + src if src else "")
            for a in st.names:
                if a.name == "*":
                    m.star.append(src)
                    continue
                out[a.asname or a.name] = ("from", src, a.name)
        return out

    def _scan_body(self, m: ModInfo, body):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                m.names.update(self.import_bindings(m, st))
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._mk_func(m, st, None)
                m.names[st.name] = ("func", f)
                self.functions[f.qual] = f
            elif isinstance(st, ast.ClassDef):
                c = self._mk_class(m, st)
                m.names[st.name] = ("cls", c)
                self.classes[c.qual] = c
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("assign", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.names[st.target.id] = ("assign", st.value)
            elif isinstance(st, ast.If):
                self._scan_body(m, st.body)
                self._scan_body(m, st.orelse)
            elif isinstance(st, ast.Try):
                self._scan_body(m, st.body)
                for h in st.handlers:
                    pre = dict(m.names)
                    self._scan_body(m, h.body)
                    for k, v in pre.items():  # try-body bindings win
                        m.names[k] = v
                self._scan_body(m, st.orelse)
                self._scan_body(m, st.finalbody)
            elif isinstance(st, ast.With):
                self._scan_body(m, st.body)

    def _mk_func(self, m, node, cls):
        decs = []
        kind = "method" if cls else "function"
        for d in node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            s = ast.unparse(t)
            decs.append(s)
            last = s.split(".")[-1]
            if last in ("property", "cached_property", "abstractproperty"):
                kind = "property"
            elif last == "setter":
                kind = "setter"
            elif last == "staticmethod":
                kind = "static"
            elif last == "classmethod":
                kind = "classmethod"
        qual = (cls.qual if cls else m.name) + "." + node.name
        return FuncInfo(qual, node.name, node, m, cls, kind, None, tuple(decs))

    def _mk_class(self, m, node):
        c = ClassInfo(m.name + "." + node.name, node.name, node, m, list(node.bases))
        c.decorators = tuple(ast.unparse(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list)
        self._scan_class_body(m, c, node.body)
        return c

    def _scan_class_body(self, m, c, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._mk_func(m, st, c)
                if f.kind == "setter":
                    f.qual += ".setter"
                    c.setters[st.name] = f
                else:
                    c.methods[st.name] = f
                self.functions[f.qual] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.fields.append((st.target.id, st.annotation, st.value))
                if st.value is not None:
                    c.attrs[st.target.id] = st.value
            elif isinstance(st, ast.If):
                self._scan_class_body(m, c, st.body)
                self._scan_class_body(m, c, st.orelse)

    # ------------------------------------------------------------------ link
    def _link(self):
        for m in self.modules.values():
            self._scan_body(m, m.tree.body)
        for c in self.classes.values():
            for b in c.base_exprs:
                if isinstance(b, ast.Subscript):
                    b = b.value
                r = self.resolve_expr(c.module, b)
                if r and r[0] == "cls":
                    c.bases.append(r[1])
                else:
                    c.bases.append(r[1] if r else ast.unparse(b))

    def lookup(self, m: ModInfo, name: str, depth=0):
        """Resolve a module-level name to ('cls',C)|('func',F)|('ext',dotted)|('mod',dotted)|('assign',expr,mod)."""
        if depth > 12:
            return None
        b = m.names.get(name)
        if b is None:
            for s in m.star:
                sm = self.modules.get(s)
                if sm:
                    r = self.lookup(sm, name, depth + 1)
                    if r:
                        return r
            return None
        return self._resolve_binding(m, b, depth)

    def _resolve_binding(self, m, b, depth=0):
        if b[0] in ("cls", "func"):
            return b
        if b[0] == "mod":
            return ("mod", b[1])
        if b[0] == "assign":
            if isinstance(b[1], ast.Name) and b[1].id in m.names and m.names[b[1].id] is not b:
                r = self.lookup(m, b[1].id, depth + 1)
                if r:
                    return r
            return ("assign", b[1], m)
        if b[0] == "from":
            _, src, nm = b
            sub = src + "." + nm
            sm = self.modules.get(src)
            if sm is not None:
                if nm in sm.names or sm.star:
                    r = self.lookup(sm, nm, depth + 1)
                    if r:
                        return r
                if sub in self.modules:
                    return ("mod", sub)
                return ("ext", sub)
            if sub in self.modules:
                return ("mod", sub)
            return ("ext", sub)
        return None

    def resolve_expr(self, m: ModInfo, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            return self.resolve_attr(b, e.attr)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(m, ast.parse(e.value, mode="eval").body)
            except SyntaxError:
                return None
        return None

    def resolve_attr(self, b, attr):
        if not b:
            return None
        if b[0] == "mod":
            mod = self.modules.get(b[1])
            if mod is not None:
                r = self.lookup(mod, attr)
                if r:
                    return r
                if b[1] + "." + attr in self.modules:
                    return ("mod", b[1] + "." + attr)
            return ("ext", b[1] + "." + attr)
        if b[0] == "ext":
            return ("ext", b[1] + "." + attr)
        if b[0] == "cls":
            f = self.find_method(b[1], attr)
            if f:
                return ("func", f)
        return None

    # ------------------------------------------------------------------ classes
    def mro(self, c: ClassInfo):
        if c._mro is None:
            seqs = [list(self.mro(b)) for b in c.bases if isinstance(b, ClassInfo)]
            seqs.append([b for b in c.bases if isinstance(b, ClassInfo)])
            out = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in t if x is not h] for t in seqs]
                seqs = [t for t in seqs if t]
            c._mro = out
        return c._mro

    def find_method(self, c: ClassInfo, name, after: ClassInfo | None = None):
        chain = self.mro(c)
        if after is not None:
            chain = chain[chain.index(after) + 1:] if after in chain else chain
        for k in chain:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
            if name in k.methods and k.methods[name].kind != "property":
                return None
        return None

    def find_class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k.attrs[name], k
        return None

    def is_subclass(self, c, base):
        return base in self.mro(c)

    def subclasses(self, base: ClassInfo, strict=True):
        return [c for c in self.classes.values() if base in self.mro(c) and (not strict or c is not base)]

    def abstract_left(self, c: ClassInfo):
        seen, left = set(), []
        for k in self.mro(c):
            for n, f in k.methods.items():
                if n in seen:
                    continue
                seen.add(n)
                if any(d.split(".")[-1] in ("abstractmethod", "abstractproperty") for d in f.decorators):
                    left.append(n)
            for n in k.attrs:
                seen.add(n)
        return left

    def is_concrete(self, c):
        return not self.abstract_left(c)

    def cls(self, qual_or_name):
        if qual_or_name in self.classes:
            return self.classes[qual_or_name]
        hits = [c for c in self.classes.values() if c.name == qual_or_name]
        if len(hits) == 1:
            return hits[0]
        raise AnalysisError(f"class {qual_or_name} not found uniquely in the tree ({len(hits)} candidates)")

    def func(self, qual):
        if qual in self.functions:
            return self.functions[qual]
        raise AnalysisError(f"function {qual} not found in the tree")

    def find_func(self, name):
        """All functions/methods with this short name."""
        return [f for f in self.functions.values() if f.name == name]

    def module_subtypes(self, concrete=True):
        base = self.cls("spflow.modules.module.Module")
        out = self.subclasses(base)
        if concrete:
            out = [c for c in out if self.is_concrete(c)]
        return sorted(out, key=lambda c: c.qual)
