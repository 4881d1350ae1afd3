"""Shared analysis context: index, engines, cached method summaries."""
from __future__ import annotations
from .index import Index, AnalysisError
from .engine import Engine
from .terms import *


class Ctx:
    def __init__(self, tier="quick"):
        self.tier = tier
        self.ix = Index()
        self.Module = self.ix.cls("spflow.modules.module.Module")
        self.Leaf = self.ix.cls("spflow.modules.leaves.leaf.LeafModule")
        sc = self.ix.modules.get("spflow.utils.sampling_context")
        if sc is None:
            raise AnalysisError("spflow.utils.sampling_context vanished")
        self.sc_funcs = {f.qual for f in self.ix.functions.values() if f.module is sc and f.cls is None}
        self.SC = self.ix.cls("spflow.utils.sampling_context.SamplingContext")
        self.sc_quals = {f.qual for f in self.ix.functions.values() if f.cls is self.SC}
        self._runs = {}

    def engine(self, sampling_opaque=True, **kw):
        oq = set(kw.pop("opaque_quals", ()))
        if sampling_opaque:
            oq |= self.sc_funcs | self.sc_quals
        return Engine(self.ix, opaque_quals=oq, **kw)

    def run(self, cls, method, **kw):
        key = (cls.qual, method, tuple(sorted((k, repr(v)) for k, v in kw.items())))
        if key in self._runs:
            return self._runs[key]
        fi = self.ix.find_method(cls, method) if isinstance(method, str) else method
        if fi is None:
            r = None
        else:
            en = self.engine(**kw)
            r = en.run(fi, cls)
            r.engine = en
        self._runs[key] = r
        return r

    def run_func(self, fi, cls=None, **kw):
        en = self.engine(**kw)
        r = en.run(fi, cls)
        r.engine = en
        return r

    def owner(self, cls, method):
        """class in the MRO that defines the method"""
        f = self.ix.find_method(cls, method)
        return f.cls if f else None

    def modules(self, concrete=True):
        return self.ix.module_subtypes(concrete)

    def leaves(self):
        return [c for c in self.modules() if self.Leaf in self.ix.mro(c)]


def self_attr(t, name=None):
    return t.k == "attr" and t.a[0].k == "self" and (name is None or t.a[1] == name)


def is_param(t, name=None):
    return t.k == "param" and (name is None or t.a[1] == name)


def strip_store(t):
    while t.k == "store":
        t = t.a[0]
    return t


VIEW_OPS = {"view", "reshape", "squeeze", "unsqueeze", "expand", "expand_as", "permute", "transpose", "T", "rearrange", "flatten",
            "narrow", "select", "diagonal", "unbind", "contiguous", "to", "float", "double", "long", "detach", "cpu", "cuda", "numpy",
            "broadcast_to", "movedim", "swapaxes", "chunk", "split", "as_tensor", "asarray", "from_numpy", "type_as", "view_as",
            "unflatten", "ravel", "requires_grad_", "mT"}


def is_basic_index(i):
    """indexing that yields a view (no mask / integer-array indexing)"""
    if i.k == "slice" or i.k in ("idx",):
        return True
    if i.k == "const":
        return i.a[0] is None or isinstance(i.a[0], (int,)) and not isinstance(i.a[0], bool) or i.a[0] is Ellipsis
    if i.k == "tuple":
        return all(is_basic_index(x) for x in i.a[0])
    if i.k == "elem":
        return False
    if i.k == "unknown":
        return "Ellipsis" in str(i.a)
    return False


def may_alias(t, pred):
    """Does t possibly share storage with an object satisfying pred?  (views, no-op casts, functional updates)"""
    todo, seen = [t], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if pred(t):
            return True
        if t.k == "store":
            todo.append(t.a[0])
        elif t.k == "phi":
            todo += [t.a[1], t.a[2]]
        elif t.k == "item":
            if is_basic_index(t.a[1]):
                todo.append(t.a[0])
        elif t.k == "op":
            if (t.a[0] in VIEW_OPS or (t.a[0].endswith("_") and t.a[0] not in ("not_", "and_", "or_"))) and t.a[1]:
                todo.append(t.a[1][0])
        elif t.k == "attr":
            if t.a[1] in ("data", "T", "mT"):
                todo.append(t.a[0])
        elif t.k in ("elem", "val"):
            todo.append(t.a[0])
    return False


def probe(ctx, modname, src, cls=None, **kw):
    """Analyse a small client function written against module `modname` (a symbolic caller)."""
    import ast
    from .index import FuncInfo
    m = ctx.ix.modules.get(modname)
    if m is None:
        raise AnalysisError(f"module {modname} vanished")
    node = ast.parse(src).body[0]
    fi = FuncInfo(modname + ".__probe__" + node.name, node.name, node, m, cls)
    en = ctx.engine(**kw)
    r = en.run(fi, cls)
    r.engine = en
    return r
