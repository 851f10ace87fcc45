"""Loads the package of /repo for symbolic execution.

The modules are read from the working tree on every run.  What is executed is the repository's own
syntax tree with these mechanical rewrites (nothing else is dropped but annotations):
  * for/while statements call the loop rule of lists.py with the body as a nested function;
  * comprehensions and generator expressions (evaluated eagerly) call lists.comp;
  * `in`, subscript reads, list/dict/set displays, attribute stores and calls of builtins
    (len, range, zip, max, ...) go through functions that accept symbolic values;
  * imports of numpy, pyvista, scipy, shapely, gmsh, copy are bound to the models.
"""
from __future__ import annotations

import ast
import builtins as _b
import os
import types

import numpy as np
import z3

from . import core, lists
from .core import Sym, SBool, SInt, SReal, SStr, Unsupported, ctx, is_conc_num, integer, term, wrap
from .arr import SymArr, asarr, from_conc, quantified, I
from .lists import BRK, UNBOUND, Iter, PList, Ret, SymSet, as_iter, comp, is_symseq, recursive, run_for, run_while, stamp
from .dicts import PDict
from .npm import np_model, symbolic

BUILTINS = {"len", "range", "isinstance", "enumerate", "zip", "max", "min", "sum", "sorted", "any", "all", "int", "float", "bool", "list", "tuple",
            "set", "dict", "setattr", "map", "filter", "reversed", "round", "iter", "next", "frozenset", "abs", "str", "hasattr", "divmod"}


# ---------------------------------------------------------------- runtime support
def r_getitem(o, k):
    if isinstance(o, np.ndarray) and symbolic_key(k):
        return from_conc(o)[k]
    if type(o) in (list, tuple) and isinstance(k, (SInt, SymArr)):
        if isinstance(k, SymArr):
            k = k.as_scalar()
        return lists.index_concrete(list(o), k) if isinstance(k, SInt) else o[k]
    if type(o) is dict and isinstance(k, Sym):
        return PDict(o)[k]
    if isinstance(o, PList) and isinstance(k, SymArr):
        k = k.as_scalar()
    return o[k]


def symbolic_key(k):
    if isinstance(k, tuple):
        return any(symbolic_key(x) for x in k)
    return symbolic(k)


def r_in(x, c):
    if isinstance(c, (SymSet,)):
        return c.contains(x)
    if isinstance(c, dict):
        return PDict.__contains__(c, x) if isinstance(c, PDict) else (x in c if not isinstance(x, Sym) else any(truth(eqv(k, x)) for k in c))
    if isinstance(c, PList) and c.sym is not None:
        a = asarr(c)
        return wrap(quantified(list(a.dims), lambda q: term(core.eq(wrap(a.at(tuple(q))), x)), False))
    if isinstance(c, SymArr):
        return (c == x).any()
    if isinstance(c, (list, tuple, set, frozenset)) and (isinstance(x, (Sym, SymArr)) or any(isinstance(e, (Sym, SymArr)) for e in c)):
        for e in c:
            if e is x or truth(eqv(x, e)):
                return True
        return False
    return x in c


def eqv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, (Sym, str)) or is_conc_num(a):
            if isinstance(b, (Sym, str)) or is_conc_num(b):
                return core.eq(a, b)
        return False
    return a == b


def truth(x):
    return x if isinstance(x, bool) else bool(x)


def r_list(*parts):
    """list display; parts are ("v", x) or ("s", iterable)"""
    r = PList()
    for k, x in parts:
        if k == "v":
            r._add([("c", [x])], log=False)
        else:
            r._add(lists.to_segs(x), log=False)
    return r


def r_dict(*parts):
    r = PDict()
    for p in parts:
        if len(p) == 2:
            r._put(p[0], p[1])
        else:
            for k, v in dict.items(p[0]):
                r._put(k, v)
    return r


def r_set(*xs):
    if any(isinstance(x, (Sym, SymArr)) for x in xs):
        raise Unsupported("set of symbolic elements")
    return set(xs)


def r_setattr(o, name, v):
    if core.CTX is None:
        setattr(o, name, v)
        return
    d = getattr(o, "__dict__", None)
    if d is not None and isinstance(getattr(type(o), name, None), property):
        setattr(o, name, v)
        return
    if d is None or isinstance(o, types.ModuleType):
        raise Unsupported("attribute of an object without a dictionary")
    if "born" not in d and type(o).__module__.startswith("pvgridder"):
        d["born"] = stamp()
    old = d.get(name, UNBOUND)

    def undo():
        if old is UNBOUND:
            d.pop(name, None)
        else:
            d[name] = old

    core.CTX.record("attr", o, undo, name=name, value=v, old=old)
    object.__setattr__(o, name, v) if not hasattr(type(o), "__setattr__") or type(o).__setattr__ is object.__setattr__ else setattr(o, name, v)


class _B:
    """builtins on symbolic values"""

    @staticmethod
    def len(x):
        f = getattr(x, "sym_len", None)
        return f() if f is not None else _b.len(x)

    @staticmethod
    def range(*a):
        return lists.sym_range(*a)

    @staticmethod
    def isinstance(x, cls):
        if isinstance(cls, tuple):
            return _b.any(_B.isinstance(x, c) for c in cls)
        if isinstance(x, SymArr):
            if cls in (np.ndarray,):
                return x.ndim > 0 or True
            if isinstance(cls, type) and issubclass(np.ndarray, cls):
                return True
            return False
        if isinstance(x, SBool):
            return cls in (bool, np.bool_, object) or cls is int
        if isinstance(x, SInt):
            return cls in (int, np.integer, np.int64, object) or getattr(cls, "__name__", "") in ("Integral", "Number")
        if isinstance(x, SReal):
            return cls in (float, np.floating, np.float64, object) or getattr(cls, "__name__", "") in ("Real", "Number")
        if isinstance(x, SStr):
            return cls in (str, object)
        if isinstance(x, Iter):
            return cls in (list, tuple, object) or getattr(cls, "__name__", "") in ("Sequence", "Iterable")
        return _b.isinstance(x, cls)

    @staticmethod
    def enumerate(x, start=0):
        return lists.sym_enumerate(x, start)

    @staticmethod
    def zip(*a, **k):
        k.pop("strict", None)
        return lists.sym_zip(*a)

    @staticmethod
    def _extreme(what, a, k):
        if _b.len(a) == 1:
            x = a[0]
            if isinstance(x, SymArr):
                return x.max() if what == "max" else x.min()
            if is_symseq(x):
                r = asarr(x)
                if k:
                    raise Unsupported("max with options")
                return r.max() if what == "max" else r.min()
            items = list(x)
        else:
            items = list(a)
        if not any(symbolic(i) for i in items):
            return getattr(_b, what)(items, **k)
        if k:
            raise Unsupported("max of symbolic values with options")
        if not items:
            raise ValueError("max() arg is an empty sequence")
        r = items[0]
        if any(isinstance(i, SymArr) for i in items):
            items = [i.as_scalar() if isinstance(i, SymArr) else i for i in items]
            r = items[0]
        for i in items[1:]:
            better = core.ge(i, r) if what == "max" else core.le(i, r)
            if isinstance(better, SBool) and core.CTX is not None:
                worse = core.le(i, r) if what == "max" else core.ge(i, r)
                if core.CTX.valid(better.t):
                    better = True
                elif core.CTX.valid(core.boolean(worse)):
                    better = False
            r = (i if better else r) if isinstance(better, bool) else core.ite(better, i, r)
        return r

    @staticmethod
    def max(*a, **k):
        return _B._extreme("max", a, k)

    @staticmethod
    def min(*a, **k):
        return _B._extreme("min", a, k)

    @staticmethod
    def sum(x, start=0):
        if is_symseq(x):
            return core.add(asarr(x).sum(), start) if not (is_conc_num(start) and start == 0) else asarr(x).sum()
        r = start
        for i in (list(x) if not isinstance(x, SymArr) else [x[k] for k in range(_b.len(x))]):
            r = r + i
        return r

    @staticmethod
    def sorted(x, **k):
        if isinstance(x, SymSet) and not k:
            few = x.few()
            if few is not None:
                return PList(few)
        if is_symseq(x) or isinstance(x, (Iter, SymSet)) or isinstance(x, SymArr) and not isinstance(x.dims[0], int):
            raise Unsupported("sorted of a sequence of any length")
        # every comparison of symbolic values is a branch
        return PList(_b.sorted(_b.list(x), **k))

    @staticmethod
    def any(x):
        if is_symseq(x):
            return bool(asarr(x).astype(bool).any())
        if isinstance(x, SymArr) and not isinstance(x.dims[0], int):
            return bool(x.any())
        return _b.any(truth(i) for i in x)

    @staticmethod
    def all(x):
        if is_symseq(x):
            return bool(asarr(x).astype(bool).all())
        if isinstance(x, SymArr) and not isinstance(x.dims[0], int):
            return bool(x.all())
        return _b.all(truth(i) for i in x)

    @staticmethod
    def int(x=0, *a):
        if isinstance(x, SymArr):
            x = x.as_scalar()
        if isinstance(x, (SInt, SBool)):
            return wrap(integer(x)) if isinstance(x, SBool) else x
        if isinstance(x, SReal):
            from .arr import truncate, to_kind

            return wrap(to_kind(x.t, "i"))
        return _b.int(x, *a)

    @staticmethod
    def float(x=0.0):
        if isinstance(x, SymArr):
            x = x.as_scalar()
        if isinstance(x, Sym) and not isinstance(x, SStr):
            return SReal(core.real(x))
        return _b.float(x)

    @staticmethod
    def bool(x=False):
        if isinstance(x, SBool):
            return x
        if isinstance(x, (SInt, SReal)):
            return wrap(x.t != 0)
        return _b.bool(x)

    @staticmethod
    def list(x=()):
        return PList(x)

    @staticmethod
    def tuple(x=()):
        if is_symseq(x) or isinstance(x, SymArr) and not isinstance(x.dims[0], int):
            return PList(x)
        if isinstance(x, SymArr):
            return tuple(x[k] for k in range(_b.len(x)))
        return _b.tuple(x)

    @staticmethod
    def set(x=()):
        if is_symseq(x):
            return SymSet(x)
        if isinstance(x, SymArr):
            return SymSet(PList(x)) if not isinstance(x.dims[0], int) else SymSet(_force(x))
        items = list(x)
        if any(isinstance(i, (Sym, SymArr)) for i in items):
            raise Unsupported("set of symbolic elements")
        return _b.set(items)

    frozenset = set

    @staticmethod
    def dict(*a, **k):
        return PDict(*a, **k)

    @staticmethod
    def setattr(o, n, v):
        r_setattr(o, n, v)

    @staticmethod
    def map(f, *its):
        if len(its) == 1:
            return comp("gen", its[0], None, lambda x: [f(x)])
        return comp("gen", lists.sym_zip(*its), None, lambda t: [f(*t)])

    @staticmethod
    def filter(f, it):
        f = f if f is not None else (lambda v: v)
        return comp("gen", it, None, lambda x: [x] if f(x) else [])

    @staticmethod
    def reversed(x):
        if is_symseq(x) or isinstance(x, SymArr):
            return x[::-1]
        return _b.reversed(x)

    @staticmethod
    def round(x, *a):
        if isinstance(x, Sym):
            raise Unsupported("round")
        return _b.round(x, *a)

    @staticmethod
    def abs(x):
        return _b.abs(x)

    @staticmethod
    def str(x=""):
        if isinstance(x, SStr):
            return x
        return _b.str(x)

    @staticmethod
    def hasattr(o, n):
        if isinstance(o, Sym) and n == "__call__":
            return False
        return _b.hasattr(o, n)

    @staticmethod
    def iter(x, *a):
        if is_symseq(x):
            raise Unsupported("iter of a symbolic sequence")
        return _b.iter(x, *a)

    @staticmethod
    def next(x, *a):
        if isinstance(x, PList):  # an eagerly evaluated generator
            if x.sym is not None:
                raise Unsupported("next of a symbolic sequence")
            items = list(x)
            if items:
                return items[0]
            if a:
                return a[0]
            raise StopIteration
        return _b.next(x, *a)

    @staticmethod
    def divmod(a, b):
        return a // b, a % b


def _force(x):
    r = PList()
    r.sym = [("a", x.copy())]
    return r


def copy_model(x):
    from .mesh import DataSet

    if isinstance(x, DataSet):
        return x.copy(deep=False)
    if isinstance(x, (PList, PDict)):
        return x.copy()
    if isinstance(x, (SymArr,)):
        return x.copy()
    if isinstance(x, Sym) or x is None or is_conc_num(x) or isinstance(x, (str, tuple)):
        return x
    if type(x).__module__.startswith("pvgridder"):
        r = object.__new__(type(x))
        r.__dict__.update(x.__dict__)
        r.__dict__["born"] = stamp()
        return r
    import copy

    return copy.copy(x)


class Opaque:
    """a library that is not modelled"""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Opaque(self._name + "." + n)

    def __call__(self, *a, **k):
        raise Unsupported(f"{self._name} is not modelled")


SUPPORT = dict(__pvc_getitem__=r_getitem, __pvc_in__=r_in, __pvc_list__=r_list, __pvc_dict__=r_dict, __pvc_set__=r_set, __pvc_setattr__=r_setattr,
               __pvc_for__=run_for, __pvc_while__=run_while, __pvc_rec__=recursive, __pvc_comp__=comp, __pvc_Ret__=Ret, __pvc_BRK__=BRK, __pvc_UNBOUND__=UNBOUND, __pvc_B__=_B,
               __pvc_isinst__=_b.isinstance)


# ---------------------------------------------------------------- rewriting
def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def call(f, *args):
    return ast.Call(name(f), list(args), [])


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.out = []

    def add(self, n):
        if n not in self.out:
            self.out.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)


def assigned(nodes):
    v = Assigned()
    for n in nodes:
        v.visit(n)
    return v.out


def has_yield(nodes):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for n in nodes for x in ast.walk(n))


class Flow(ast.NodeTransformer):
    """continue, break and return of a loop body that became a function"""

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_Break(self, n):
        return ast.copy_location(ast.Return(name("__pvc_BRK__")), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(call("__pvc_Ret__", n.value or ast.Constant(None))), n)


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []  # stack of function infos
        self.k = 0
        self.qual = []

    # -- scopes
    def visit_FunctionDef(self, n):
        n.returns = None
        for a in [*n.args.args, *n.args.kwonlyargs, *n.args.posonlyargs, n.args.vararg, n.args.kwarg]:
            if a is not None:
                a.annotation = None
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        declared = [x for b in n.body for x in ast.walk(b) if isinstance(x, (ast.Global, ast.Nonlocal))]
        info = dict(names=[], params={a.arg for a in [*n.args.args, *n.args.kwonlyargs, *n.args.posonlyargs] + [x for x in (n.args.vararg, n.args.kwarg) if x]},
                    native=bool(declared) or has_yield(n.body), loops=0)
        self.fn.append(info)
        self.qual.append(n.name)
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.fn.pop()
        self.qual.pop()
        dummy = [x for x in info["names"] if x not in info["params"]]
        if dummy:
            stmt = ast.If(ast.Constant(False), [ast.Assign([name(x, True)], ast.Constant(None)) for x in dummy], [])
            at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            body.insert(at, stmt)
        n.body = body
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == n.name for b in body for x in ast.walk(b)):
            # a recursive function: calls of itself by its contract, where the task has one
            n.decorator_list.append(call("__pvc_rec__", ast.Constant(f"{self.mod}:{'.'.join([*self.qual, n.name])}")))
        return n

    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        saved, self.fn = self.fn, []
        n.body = [y for s in n.body for y in self._many(self.visit(s))]
        self.fn = saved
        self.qual.pop()
        return n

    @staticmethod
    def _many(r):
        return r if isinstance(r, list) else [r] if r is not None else []

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass() if self.fn else n
        return self.visit(ast.copy_location(ast.Assign([n.target], n.value), n))

    # -- loops
    def _state_fns(self, k, names):
        get = ast.FunctionDef(f"__get_{k}", ast.arguments([], [], None, [], [], None, []),
                              [ast.Assign([name("__s", True)], ast.Dict([], []))]
                              + [ast.Try([ast.Assign([ast.Subscript(name("__s"), ast.Constant(x), ast.Store())], name(x))],
                                         [ast.ExceptHandler(name("NameError"), None, [ast.Pass()])], [], []) for x in names]
                              + [ast.Return(name("__s"))], [], None, None, type_params=[])
        body = [ast.Nonlocal(list(names))] if names else []
        for x in names:
            body.append(ast.Assign([name(x, True)], ast.Call(ast.Attribute(name("__s"), "get", ast.Load()), [ast.Constant(x), name("__pvc_UNBOUND__")], [])))
            body.append(ast.If(ast.Compare(name(x), [ast.Is()], [name("__pvc_UNBOUND__")]), [ast.Delete([ast.Name(x, ast.Del())])], []))
        set_ = ast.FunctionDef(f"__set_{k}", ast.arguments([], [ast.arg("__s")], None, [], [], None, []), body or [ast.Pass()], [], None, None, type_params=[])
        return [get, set_]

    def _loop(self, n, kind):
        info = self.fn[-1] if self.fn else None
        if info is None or info["native"] or has_yield([n]):
            return self.generic_visit(n)
        k = self.k
        self.k += 1
        info["loops"] += 1
        ordinal = info["loops"]
        nodes = [n.target, *n.body] if kind == "for" else n.body
        names = [x for x in assigned(nodes)]
        for x in names:
            if x not in info["names"]:
                info["names"].append(x)
        site = f"{self.mod}.{'.'.join(self.qual)}#{ordinal}"
        if kind == "for":
            it = self.visit(n.iter)
            target = n.target
        else:
            test = self.visit(n.test)
        body = [y for s in n.body for y in self._many(self.visit(s))]
        body = [y for s in body for y in self._many(Flow().visit(s))]
        head = [ast.Nonlocal(list(names))] if names else []
        if kind == "for":
            head.append(ast.Assign([target], name("__item")))
        bf = ast.FunctionDef(f"__body_{k}", ast.arguments([], [ast.arg("__item")] if kind == "for" else [], None, [], [], None, []),
                             head + body + [ast.Return(ast.Constant(None))], [], None, None, type_params=[])
        first = it if kind == "for" else ast.Lambda(ast.arguments([], [], None, [], [], None, []), test)
        args = [ast.Constant(site), first, name(f"__body_{k}"), name(f"__get_{k}"), name(f"__set_{k}"), ast.Tuple([ast.Constant(x) for x in names], ast.Load())]
        run = ast.Assign([name(f"__r_{k}", True)], ast.Call(name("__pvc_for__" if kind == "for" else "__pvc_while__"), args, []))
        ret = ast.If(ast.Call(name("__pvc_isinst__"), [name(f"__r_{k}"), name("__pvc_Ret__")], []), [ast.Return(ast.Attribute(name(f"__r_{k}"), "v", ast.Load()))], [])
        out = [bf, *self._state_fns(k, names), run, ret]
        if n.orelse:
            els = [y for s in n.orelse for y in self._many(self.visit(s))]
            out.append(ast.If(ast.Compare(name(f"__r_{k}"), [ast.IsNot()], [name("__pvc_BRK__")]), els, []))
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def visit_For(self, n):
        return self._loop(n, "for")

    def visit_While(self, n):
        return self._loop(n, "while")

    # -- expressions
    def _pattern(self, t):
        """(pattern, names) or None"""
        if isinstance(t, ast.Name):
            return ast.Constant(None), [t.id]
        if isinstance(t, (ast.Tuple, ast.List)):
            ps, ns = [], []
            for e in t.elts:
                r = self._pattern(e)
                if r is None:
                    return None
                ps.append(r[0])
                ns += r[1]
            return ast.Tuple(ps, ast.Load()), ns
        return None

    def _comp(self, n, kind, elt):
        if not self.fn:
            return self.generic_visit(n)
        if any(self._pattern(g.target) is None or g.is_async for g in n.generators):
            return self.generic_visit(n)
        if isinstance(elt, tuple):
            e = ast.Tuple([self.visit(elt[0]), self.visit(elt[1])], ast.Load())
        else:
            e = self.visit(elt)
        inner = ast.List([e], ast.Load())
        for p, g in enumerate(reversed(n.generators)):
            pat, names = self._pattern(g.target)
            seen = []
            for q, x in enumerate(names):
                names[q] = x if x not in seen else f"__dup_{q}"
                seen.append(x)
            body = inner
            if g.ifs:
                conds = [self.visit(c) for c in g.ifs]
                body = ast.IfExp(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds), inner, ast.List([], ast.Load()))
            lam = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body)
            last = p == len(n.generators) - 1
            inner = call("__pvc_comp__", ast.Constant(kind if last else "chunk"), self.visit(g.iter), pat, lam)
        return ast.copy_location(inner, n)

    def visit_ListComp(self, n):
        return self._comp(n, "list", n.elt)

    def visit_SetComp(self, n):
        return self._comp(n, "set", n.elt)

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen", n.elt)

    def visit_DictComp(self, n):
        return self._comp(n, "dict", (n.key, n.value))

    def visit_Subscript(self, n):
        n = self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load) or not self.fn:
            return n
        return ast.copy_location(call("__pvc_getitem__", n.value, self._key(n.slice)), n)

    def _key(self, s):
        if isinstance(s, ast.Slice):
            return call("slice", *[x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in s.elts):
                return ast.Tuple([self._key(e) if not isinstance(e, ast.Starred) else e for e in s.elts], ast.Load())
            return ast.Tuple([self._key(e) for e in s.elts], ast.Load())
        return s

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if self.fn and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = call("__pvc_in__", n.left, n.comparators[0])
            return ast.copy_location(c if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), c), n)
        return n

    def visit_List(self, n):
        n = self.generic_visit(n)
        if not self.fn or not isinstance(n.ctx, ast.Load):
            return n
        parts = [ast.Tuple([ast.Constant("s"), e.value] if isinstance(e, ast.Starred) else [ast.Constant("v"), e], ast.Load()) for e in n.elts]
        return ast.copy_location(call("__pvc_list__", *parts), n)

    def visit_Tuple(self, n):
        n = self.generic_visit(n)
        return n

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if not self.fn:
            return n
        parts = [ast.Tuple([v] if k is None else [k, v], ast.Load()) for k, v in zip(n.keys, n.values)]
        return ast.copy_location(call("__pvc_dict__", *parts), n)

    def visit_Set(self, n):
        n = self.generic_visit(n)
        return ast.copy_location(call("__pvc_set__", *n.elts), n) if self.fn else n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if self.fn and isinstance(n.func, ast.Name) and n.func.id in BUILTINS:
            n.func = ast.copy_location(ast.Attribute(name("__pvc_B__"), n.func.id, ast.Load()), n.func)
        return n

    def visit_Assign(self, n):
        n = self.generic_visit(n)
        if not self.fn:
            return n
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(call("__pvc_setattr__", t.value, ast.Constant(t.attr), n.value)), n)
        bad = [x for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)]
        if bad:
            # several targets: a temporary and one store each
            k = self.k
            self.k += 1
            tmp = f"__t_{k}"
            out = [ast.Assign([name(tmp, True)], n.value)]
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    out.append(ast.Expr(call("__pvc_setattr__", t.value, ast.Constant(t.attr), name(tmp))))
                elif isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                    for p, e in enumerate(t.elts):
                        v = call("__pvc_getitem__", name(tmp), ast.Constant(p))
                        out.append(ast.Expr(call("__pvc_setattr__", e.value, ast.Constant(e.attr), v)) if isinstance(e, ast.Attribute) else ast.Assign([e], v))
                else:
                    out.append(ast.Assign([t], name(tmp)))
            for o in out:
                ast.copy_location(o, n)
            return out
        return n

    def visit_AugAssign(self, n):
        n = self.generic_visit(n)
        if self.fn and isinstance(n.target, ast.Attribute):
            t = n.target
            load = ast.Attribute(t.value, t.attr, ast.Load())
            return ast.copy_location(ast.Expr(call("__pvc_setattr__", t.value, ast.Constant(t.attr), ast.BinOp(load, n.op, n.value))), n)
        return n


# ---------------------------------------------------------------- the package
class Package:
    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        self.sources = {}
        from . import mesh

        self.models = {
            "numpy": np_model,
            "pyvista": mesh.PV,
            "copy": types.SimpleNamespace(copy=copy_model, deepcopy=copy_model),
            "pyrequire": types.SimpleNamespace(require_package=lambda *a, **k: (lambda f: f)),
        }
        self.root = self.module("pvgridder")

    def path_of(self, full):
        rel = full.replace(".", "/")
        p = os.path.join(self.repo, rel, "__init__.py")
        if os.path.exists(p):
            return p, True
        p = os.path.join(self.repo, rel + ".py")
        return (p, False) if os.path.exists(p) else (None, False)

    def module(self, full):
        if full in self.mods:
            return self.mods[full]
        path, is_pkg = self.path_of(full)
        if path is None:
            raise ImportError(f"No module named '{full}'")
        if full == "pvgridder.examples":
            m = types.ModuleType(full)
            self.mods[full] = m
            m.__getattr__ = lambda n: Opaque("examples." + n)
            m.__all__ = []
            return m
        src = open(path).read()
        tree = ast.parse(src, path)
        self.sources[full] = src
        tree = Rewrite(full).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if is_pkg else full.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[full] = m
        g = m.__dict__
        b = dict(vars(_b))
        b["__import__"] = self.importer
        g["__builtins__"] = b
        g.update(SUPPORT)
        exec(compile(tree, path, "exec"), g)
        if "." in full:
            parent, _, child = full.rpartition(".")
            if parent in self.mods:
                setattr(self.mods[parent], child, m)
        return m

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
            m = self.module(full)
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f):
                    p, _ = self.path_of(full + "." + f)
                    if p:
                        setattr(m, f, self.module(full + "." + f))
            return m
        top = name.split(".")[0]
        if top == "pvgridder":
            return self.module(name) if fromlist else self.module("pvgridder")
        if name in self.models:
            return self.models[name]
        if name in ("numpy.typing",) or top in ("typing", "typing_extensions", "abc", "collections", "itertools", "functools", "math", "warnings", "__future__", "operator", "inspect"):
            return __import__(name, globals, locals, fromlist, 0)
        if name == "pyvista.core.cell":
            from . import mesh

            return mesh.CELL_MODULE
        if name == "scipy.spatial.transform":
            from . import mesh

            return mesh.TRANSFORM
        if name == "scipy.spatial":
            from . import mesh

            o = Opaque(name)
            o.__dict__["KDTree"] = mesh.KDTree
            return o
        if name == "vtk":
            from vtkmodules.vtkCommonCore import vtkVersion

            o = Opaque(name)
            o.__dict__["__version__"] = vtkVersion.GetVTKVersion()
            return o
        return Opaque(name)

    def get(self, dotted):
        """object by its dotted path under pvgridder"""
        parts = dotted.split(".")
        for k in range(len(parts), 0, -1):
            full = ".".join(["pvgridder", *parts[:k]])
            if full in self.mods or self.path_of(full)[0]:
                o = self.module(full)
                for p in parts[k:]:
                    o = getattr(o, p)
                return o
        o = self.root
        for p in parts:
            o = getattr(o, p)
        return o

    def stub(self, dotted, fn):
        """replace a function by its contract wherever it is bound; returns an undo"""
        orig = self.get(dotted)
        done = []
        for m in list(self.mods.values()):
            for k, v in list(m.__dict__.items()):
                if v is orig:
                    m.__dict__[k] = fn
                    done.append((m.__dict__, k))
        parts = dotted.split(".")
        owner = self.get(".".join(parts[:-1])) if len(parts) > 1 else None
        if isinstance(owner, type):
            raw = owner.__dict__[parts[-1]]
            setattr(owner, parts[-1], staticmethod(fn) if isinstance(raw, staticmethod) else fn)

            def undo():
                setattr(owner, parts[-1], raw)

            return undo

        def undo():
            for d, k in done:
                d[k] = orig

        return undo
