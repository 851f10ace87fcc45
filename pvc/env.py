"""The language contracts are written in.

A contract task is a function of an environment E that declares inputs and preconditions, calls
functions of the repository and states what must hold.  The same task is read twice: symbolically
(SymEnv: inputs are symbols, statements become proof obligations) and concretely (ConcEnv: inputs
are numbers, the calls go to the real package under CPython) for replaying counterexamples and for
cross-checking the engine.
"""
from __future__ import annotations

import importlib
import math
import os
import random
from fractions import Fraction

import numpy as np

TASKS: dict[str, list] = {}


class Task:
    def __init__(self, prop, name, fn, functions, ms, secs, n_conc, assumes, max_paths=400, branch_ms=1500):
        self.max_paths, self.branch_ms = max_paths, branch_ms
        self.prop, self.name, self.fn, self.functions = prop, name, fn, list(functions)
        self.ms, self.secs, self.n_conc, self.assumes = ms, secs, n_conc, list(assumes)


def task(prop, name, functions=(), ms=8000, secs=60, n_conc=30, assumes=(), **kw):
    def deco(fn):
        for p in prop.split(","):
            TASKS.setdefault(p, []).append(Task(p, name, fn, functions, ms, secs, n_conc, assumes, **kw))
        return fn

    return deco


def concrete_topology(points, cells):
    import pyvista as pv

    flat = []
    for t, c in cells:
        q = [len(c), *[x for f in c for x in (len(f), *f)]] if t == 42 else list(c)
        flat += [len(q), *q]
    return pv.UnstructuredGrid(np.array(flat), np.array([t for t, _ in cells], dtype=np.uint8), points)


class Thinning:
    """calls of a recursive function that thins out a polyline, by their contract (symbolic)"""

    def __init__(self, E, near, modular):
        self.E, self.near, self.modular, self.tops = E, near, modular, []
        E.recursion = self
        E.weak = True

    def split(self, a, k):
        from .arr import SymArr, asarr
        from .core import Unsupported

        vals = [*a, *[k[x] for x in sorted(k)]]
        arrays = [v for v in vals if isinstance(v, SymArr) and v.ndim == 2]
        if len(arrays) != 1:
            raise Unsupported("recursive call with other arguments than expected")
        return arrays[0], [v for v in vals if v is not arrays[0]]

    def enter(self, a, k):
        from types import SimpleNamespace
        from .arr import dim_size
        from .core import integer

        P, rest = self.split(a, k)
        top = SimpleNamespace(P=P.copy(), rest=rest, n=integer(dim_size(P.dims[0])), calls=[], result=None)
        self.tops.append(top)
        self.E.prove("precondition of the recursive function: two points at least", wrap_bool(top.n >= 2))
        return top

    def by_contract(self, a, k):
        """a call from outside, by the contract too (another task proves it for the body)"""
        import z3

        top = self.enter(a, k)
        return self.given(top, top.P, z3.IntVal(0), top.n)

    def leave(self, top, r):
        top.result = r
        return r

    def call(self, top, a, k):
        import z3
        from .arr import dim_size, split
        from .core import Unsupported, boolean, eq, integer, real

        E, c = self.E, self.E.c
        A, rest = self.split(a, k)
        if len(rest) != len(top.rest) or not all(x is y or c.valid(boolean(eq(x, y))) for x, y in zip(rest, top.rest)):
            raise Unsupported("recursive call with other arguments than expected")
        L = integer(dim_size(A.dims[0]))
        E.prove("recursive calls on fewer points, but two at least", wrap_bool(z3.And(L >= 2, L < top.n)))
        g, h = A.snap(), top.P.snap()
        row = lambda f, d, i, q: real(f((split(i, d), z3.IntVal(q))))
        c.counter += 1
        j = z3.Int(f"row!{c.counter}")

        def part(off):
            return z3.Implies(z3.And(j >= 0, j < L), z3.And(*[row(g, A.dims[0], j, q) == row(h, top.P.dims[0], off + j, q) for q in range(3)]))

        def part_(off):
            n0 = len(c.conds)
            c.conds += [j >= 0, j < L, off + j >= 0, off + j < top.n]
            try:
                return part(off)
            finally:
                del c.conds[n0:]

        off = z3.IntVal(0) if c.valid(part_(z3.IntVal(0))) else z3.simplify(top.n - L)
        E.prove("recursive calls on parts of the polyline", wrap_bool(part_(off)))
        return self.given(top, top.P, off, L)

    def given(self, top, P, off, L):
        """what the contract says of the result for the points from off"""
        import z3
        from types import SimpleNamespace
        from .arr import SymArr, dim_of, lin, split
        from .core import wrap

        c, h = self.E.c, P.snap()
        m = c.fresh("m", z3.IntSort())
        keep, seg = c.fresh_fun("keep", [z3.IntSort()], z3.IntSort()), c.fresh_fun("seg", [z3.IntSort()], z3.IntSort())
        u, v = z3.Int("th!u"), z3.Int("th!v")
        c.fact(z3.And(m >= 2, m <= L, keep(z3.IntVal(0)) == 0, keep(m - 1) == L - 1))
        c.fact(z3.ForAll([u], z3.Implies(z3.And(u >= 0, u < m), z3.And(keep(u) >= 0, keep(u) < L)), patterns=[keep(u)]))
        c.fact(z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, u < v, v < m), keep(u) < keep(v)), patterns=[z3.MultiPattern(keep(u), keep(v))]))
        sub = SimpleNamespace(off=off, L=L, m=m, keep=keep, seg=seg)
        top.calls.append(sub)
        d = dim_of(wrap(m))
        return SymArr((d, 3), lambda idx: h((split(off + keep(lin(idx[0], d)), top.P.dims[0]), idx[1])), "f")

    def witness(self, k, P, n, Q):
        """which points are kept, and between which each lies"""
        import z3
        from types import SimpleNamespace
        from .core import Unsupported, boolean, integer, ite, wrap

        E, c = self.E, self.E.c
        if k >= len(self.tops):
            raise Unsupported("recursion expected")
        top = self.tops[k]
        N = integer(n)
        if not top.calls:
            return SimpleNamespace(size=2, keep=lambda i: ite(boolean(E.eq(i, 0)), 0, wrap(N - 1)), around=lambda i: (0, 0, wrap(N - 1)), near=lambda i: None)
        parts, start = [], z3.IntVal(0)
        for s in top.calls:
            parts.append((start, s))
            start = start + s.m - 1

        def keep(i):
            i = integer(i)
            r = None
            for st, s in reversed(parts):
                j = z3.simplify(i - st)
                t = s.off + s.keep(j)
                c.conds.append(z3.Implies(z3.And(j >= 0, j < s.m), z3.And(s.keep(j) >= 0, s.keep(j) < s.L)))
                c.conds.append(z3.Implies(z3.And(j >= 0, j < s.m - 1), s.keep(j) < s.keep(j + 1)))
                r = t if r is None else z3.If(i < st + s.m - 1, t, r)
            return wrap(r)

        def around(i):
            """number of the kept point before a point, and the kept points around it"""
            i = integer(i)
            for n_, (st, s) in enumerate(parts):
                if n_ + 1 == len(parts) or c.branch(i < s.off + s.L - 1):
                    j = z3.simplify(i - s.off)
                    return wrap(st + s.seg(j)), wrap(s.off + s.keep(s.seg(j))), wrap(s.off + s.keep(s.seg(j) + 1))

        def near(i):
            """the contract of the calls, at an index"""
            i = integer(i)
            for st, s in parts:
                j = z3.simplify(i - s.off)
                a, b = s.keep(s.seg(j)), s.keep(s.seg(j) + 1)
                at = lambda q: [top.P[wrap(s.off + q), x] for x in range(3)]
                hyp = [j >= 0, j < s.L, s.seg(j) >= 0, s.seg(j) < s.m - 1, a <= j, j <= b, a >= 0, b < s.L, a < b]
                n0 = len(c.conds)
                c.conds += hyp
                try:
                    t = boolean(self.near(*at(j), *at(a), *at(b)))
                finally:
                    del c.conds[n0:]
                c.conds.append(z3.Implies(z3.And(j >= 0, j < s.L), z3.And(*hyp, t)))

        return SimpleNamespace(size=wrap(start + 1), keep=keep, around=around, near=near)


class ConcThinning:
    """the kept points of a result, found by search (concrete)"""

    def __init__(self, E, near):
        self.E, self.near = E, near

    def witness(self, k, P, n, Q):
        from types import SimpleNamespace

        P, Q = np.asarray(P, float), np.asarray(Q, float)
        n, m = len(P), len(Q)
        eq = lambda a, b: np.allclose(a, b, rtol=1e-5, atol=1e-6)
        ok = lambda a, b: all(self.near(*P[i], *P[a], *P[b]) for i in range(a, b + 1))
        # reach[j]: matches i of vertex j that continue to the end
        prev = [{} for _ in range(m)]
        if m and eq(Q[0], P[0]):
            prev[0][0] = None
        for j in range(1, m):
            for i in range(n):
                if eq(Q[j], P[i]):
                    for a in prev[j - 1]:
                        if a < i and ok(a, i):
                            prev[j][i] = a
                            break
        ks = []
        if m and n - 1 in prev[m - 1]:
            i = n - 1
            for j in range(m - 1, -1, -1):
                ks.append(i)
                i = prev[j][i]
            ks.reverse()
        else:  # none: the statements fail
            ks = [0] * max(m, 2)
        seg = lambda i: max([j for j in range(len(ks) - 1) if ks[j] <= i] or [0])
        return SimpleNamespace(size=m, keep=lambda i: ks[int(i)], around=lambda i: (seg(i), ks[seg(i)], ks[seg(i) + 1]), near=lambda i: None)


class ConcSearch:
    def witness(self, points, out, n):
        """which point each is, points given several times once each"""
        points, out = np.asarray(points, float), np.asarray(out, float)
        w = points.shape[1]
        left, ks = list(range(len(points))), []
        for q in out:
            d = [np.abs(points[i] - q[:w]).max() for i in left]
            ks.append(left.pop(int(np.argmin(d))) if left else -1)
        return lambda i: ks[int(i)] if int(i) < len(ks) else -1


class Skip(Exception):
    """the concrete input does not satisfy the precondition"""


class Failed(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, f"{name}: {detail}")
        self.name, self.detail = name, detail


# ---------------------------------------------------------------- symbolic
class Obligation:
    __slots__ = ("name", "status", "model", "reason", "secs", "size", "backend")

    def __init__(self, name, status, model=None, reason="", secs=0.0, size=0, backend="z3"):
        self.name, self.status, self.model, self.reason, self.secs, self.size, self.backend = name, status, model, reason, secs, size, backend


class SymBlock:
    """cells of one part of a mesh: n cells per layer"""

    def __init__(self, E, mesh, part, start, n, width):
        self.E, self.mesh, self.part, self.start, self.n, self.w = E, mesh, part, start, n, width

    def data(self, key, k, i):
        a = self.mesh.cell_data[key]
        j = self.start + i + k * self.n
        return a[j] if a.ndim == 1 else [a[j, c] for c in range(a.dims[1])]

    def celltype(self, k, i):
        return self.mesh.celltypes[self.start + i + k * self.n]

    def vertex(self, k, i, v):
        """coordinates"""
        p, w = self.part, self.w + 1
        u = p.__dict__.get("_x_uniform")
        q = u[i + k * self.n, v] if u is not None else p.cells[i * w + self.n * (k * w) + (v + 1)]
        return [p.points[q, c] for c in range(3)]

    def width(self, k, i):
        p, w = self.part, self.w + 1
        u = p.__dict__.get("_x_uniform")
        return u.dims[1] if u is not None else p.cells[i * w + self.n * (k * w)]


class ConcBlock:
    def __init__(self, mesh, idx, n):
        self.mesh, self.idx, self.n = mesh, idx, n
        self.offset, self.conn, self.points = np.asarray(mesh.offset), np.asarray(mesh.cell_connectivity), np.asarray(mesh.points, dtype=float)
        self.types = np.asarray(mesh.celltypes)

    def data(self, key, k, i):
        return np.asarray(self.mesh.cell_data[key])[self.idx[i + k * self.n]]

    def celltype(self, k, i):
        return self.types[self.idx[i + k * self.n]]

    def vertex(self, k, i, v):
        j = self.idx[i + k * self.n]
        return self.points[self.conn[self.offset[j] + v]]

    def width(self, k, i):
        j = self.idx[i + k * self.n]
        return self.offset[j + 1] - self.offset[j]


def functions_of(t):
    """names of the functions of a term"""
    import z3

    seen, stack, out = set(), [t], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e.decl().name())
        stack.extend(e.children())
    return out


def zero_by_cases(c, t, depth=8):
    """whether the term is zero, conditionals decided one after the other"""
    import z3
    from .core import find_ite

    t = z3.simplify(c.settle(z3.simplify(t)), som=True)
    while True:
        if z3.is_rational_value(t):
            return t.as_fraction() == 0
        e = find_ite(t)
        if e is None:
            e = find_ite(t, deep=True)
        if e is None:
            return c.valid(t == 0)
        while True:  # one whose condition has none
            inner = find_ite(e.arg(0), deep=True)
            if inner is None:
                break
            e = inner
        d = c.decided(e.arg(0))
        if d is not True and d is not False:
            break
        t = z3.simplify(z3.substitute(t, (e, e.arg(1 if d else 2))), som=True)
    if depth == 0:
        return False
    for k, cond in ((1, e.arg(0)), (2, z3.Not(e.arg(0)))):
        n = len(c.conds)
        c.conds.append(cond)
        try:
            if not zero_by_cases(c, z3.substitute(t, (e, e.arg(k))), depth - 1):
                return False
        finally:
            del c.conds[n:]
    return True


def opaque_roots(c, goal):
    """the goal from the small hypotheses, the roots being constants (equal for equal polynomials): a subset of what is known"""
    import z3
    from .core import quantifies

    names, seen = {}, {}

    def walk(e):
        k = e.get_id()
        if k in seen:
            return seen[k][0]
        if not z3.is_app(e) or not e.num_args():
            r = e
        elif e.decl().name() == "sqrt":
            t = z3.simplify(e.arg(0), som=True).sexpr()
            r = names.setdefault(t, z3.Real(f"root!{len(names)}"))
        else:
            ch = [walk(x) for x in e.children()]
            r = e if all(x.eq(y) for x, y in zip(ch, e.children())) else (
                e.decl()(*ch) if not z3.is_and(e) and not z3.is_or(e) else (z3.And if z3.is_and(e) else z3.Or)(*ch))
        seen[k] = (r, e)
        return r

    def size(e, lim=400):
        n, st = 0, [e]
        while st and n <= lim:
            x = st.pop()
            n += 1
            st.extend(x.children())
        return n

    hyps = [walk(z3.simplify(h)) for h in c.facts + c.conds if not quantifies(h)]
    if any(quantifies(g) for g in goal):
        return z3.unknown
    gs = [walk(z3.simplify(g)) for g in goal]
    if not names:
        return z3.unknown
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(*[h for h in hyps if size(h) <= 400], *gs, *[v >= 0 for v in names.values()])
    return s.check()


def wrap_bool(t):
    from .core import wrap

    return wrap(t)


class SymEnv:
    sym = True
    internal = False  # the task calls functions that are not part of the public interface

    def __init__(self, pkg, ctx, ms=8000):
        from . import npm, mesh

        self.pkg, self.c, self.ms = pkg, ctx, ms
        self.inputs = {}  # name -> description for the concrete reading
        self.arrays = {}  # name -> (array, initial getter)
        self.meshes = {}
        self.sizes = []
        self.obligations = []
        self.np = npm.np_model
        self.pv = mesh.PV
        self.undo = []
        self.loops = []
        self.notes = []
        self.frozen = {}
        ctx.env = self

    # -- code
    def fn(self, dotted):
        try:
            f = self.pkg.get(dotted)
        except (AttributeError, KeyError, ImportError) as e:
            from .core import Unsupported

            raise Unsupported(f"no {dotted} in the package")
        self.internal = self.internal or "." in dotted
        if isinstance(f, type) or not callable(f):
            return f

        def call(*a, **k):
            r = f(*a, **k)
            if isinstance(r, np.ndarray):
                from .arr import asarr

                r = asarr(r)
            return r

        return call

    def stub(self, dotted, fn):
        self.undo.append(self.pkg.stub(dotted, fn))

    def close(self):
        for u in reversed(self.undo):
            u()

    def loop_rule(self, site, it):
        for pat, rule in self.loops:
            if pat in site:
                return rule
        return None

    def attempt(self, fn):
        try:
            return fn(), None
        except Exception as e:
            return None, e

    # -- inputs
    def int(self, name, lo=None, hi=None, size=False):
        import z3
        from .core import SInt

        v = z3.Int(name)
        self.inputs[name] = ("int", v)
        if lo is not None:
            self.c.assume(v >= lo)
        if hi is not None:
            self.c.assume(v <= hi)
        self.sizes.append(v)
        return SInt(v)

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        import z3
        from .core import SReal, real

        v = z3.Real(name)
        self.inputs[name] = ("real", v)
        if lo is not None:
            self.c.assume(v >= real(lo))
        if hi is not None:
            self.c.assume(v <= real(hi))
        if gt is not None:
            self.c.assume(v > real(gt))
        if lt is not None:
            self.c.assume(v < real(lt))
        return SReal(v)

    def bool(self, name):
        import z3
        from .core import SBool

        v = z3.Bool(name)
        self.inputs[name] = ("bool", v)
        return SBool(v)

    def choice(self, name, options):
        import z3

        v = z3.Int(name)
        self.inputs[name] = ("choice", v, options)
        self.c.assume(z3.And(v >= 0, v < len(options)))
        for k in range(len(options) - 1):
            if self.c.branch(v == k):
                return options[k]
        return options[-1]

    def arr(self, name, shape, kind="f"):
        import z3
        from .arr import SORT, SymArr, dim_of
        from .npm import flat_dims, flat_index

        dims = tuple(dim_of(s) for s in (shape if isinstance(shape, (list, tuple)) else (shape,)))
        n = sum(len(flat_dims(d)) for d in dims)
        f = z3.Function(name, *[z3.IntSort()] * n, SORT[kind]) if n else z3.Const(name, SORT[kind])

        def get(idx):
            args = [v for i, d in zip(idx, dims) for v in flat_index(i, d)]
            return f(*args) if n else f

        a = SymArr(dims, get, kind, owner=name)
        self.inputs[name] = ("arr", dims, get, kind)
        self.arrays[name] = (a, get)
        return a

    def vec(self, name, n=3):
        """a short list of reals"""
        return [self.real(f"{name}{k}") for k in range(n)]

    def ascending(self, name, m, first=None, last=None):
        """ascending array of m + 1 numbers"""
        import z3
        from .core import integer, real

        a = self.arr(name, [m + 1])
        g = self.arrays[name][1]
        u, v = z3.Int("asc!u"), z3.Int("asc!v")
        N = integer(m)
        self.c.assume(z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, u <= v, v <= N), g((u,)) <= g((v,)))))
        if first is not None:
            self.c.assume(g((z3.IntVal(0),)) == real(first))
        if last is not None:
            self.c.assume(g((N,)) == real(last))
        return a

    def structured(self, name, dims, cls="StructuredGrid"):
        """structured grid with points[i, j, k, c] arbitrary"""
        from .arr import dim_fac, dim_of, mk_dim
        from . import mesh

        ds = tuple(dim_of(d) for d in dims)
        n = mk_dim([f for d in ds for f in dim_fac(d)])
        pts = self.arr(name + ".points", [size_value(n), 3])
        m = getattr(mesh, cls).make(ds, pts)
        self.meshes[name] = m
        self.inputs[name] = ("structured", ds, cls)
        return m

    def ugrid(self, name, n_points, n_cells, celltype, width, like=None):
        """unstructured grid of cells of one type with arbitrary points and vertices (those of another grid if given)"""
        import z3
        from . import mesh
        from .core import integer

        pts = self.arr(name + ".points", [n_points, 3])
        if like is None:
            conn = self.arr(name + ".conn", [n_cells, width], "i")
            i, v = z3.Int("ug!i"), z3.Int("ug!v")
            t = self.arrays[name + ".conn"][1]((i, v))
            self.c.assume(z3.ForAll([i, v], z3.And(t >= 0, t < integer(n_points)), patterns=[t]))
        else:
            conn = like.__dict__["_x_uniform"]
        m = mesh.UnstructuredGrid.uniform(pts, celltype, conn)
        self.meshes[name] = m
        return m

    def conn(self, mesh):
        return mesh.__dict__["_x_uniform"]

    def mixed(self, name, n_points, n_cells, types):
        """unstructured grid of cells of any of the types (vertices not modelled)"""
        import z3
        from . import mesh
        from .core import integer

        pts = self.arr(name + ".points", [n_points, 3])
        t = self.arr(name + ".types", [n_cells], "i")
        i = z3.Int("mx!i")
        v = self.arrays[name + ".types"][1]((i,))
        self.c.assume(z3.ForAll([i], z3.Or(*[v == k for k in types]), patterns=[v]))
        m = mesh.UnstructuredGrid._new()
        d = m.__dict__
        d["_npd"], d["_ncd"], d["_points"], d["_x_celltypes"] = pts.dims[0], t.dims[0], pts, t
        self.meshes[name] = m
        return m, t

    def topology(self, name, n_points, cells):
        """unstructured grid of given cells, (type, points) or (42, faces), through arbitrary points"""
        from . import mesh
        from .arr import asarr

        r = concrete_topology(np.random.default_rng(0).normal(size=(n_points, 3)), cells)
        pts = self.arr(name + ".points", [n_points, 3])
        m = mesh.UnstructuredGrid.make(pts, asarr(np.asarray(r.celltypes, dtype=int)), asarr(np.asarray(r.offset, dtype=int)), asarr(np.asarray(r.cell_connectivity, dtype=int)))
        m.__dict__["_x_like"] = r
        self.meshes[name] = m
        return m

    def patchwork(self, name, n_points, cells, apart=True):
        """unstructured grid of a few cells (type, number of points) through any of the points, which differ in place"""
        from . import mesh
        from .arr import asarr

        pts = self.arr(name + ".points", [n_points, 3])
        ids = []
        for k, (t, w) in enumerate(cells):
            f = [self.int(f"{name}.f{k}{v}", lo=0) for v in range(w)]
            for v in range(w):
                self.assume(f[v] < n_points)
                for u in range(v):
                    self.assume(self.neg(self.eq(f[v], f[u])))
            ids.append(f)
        if apart:
            for f in ids:
                for v in range(len(f)):
                    for u in range(v):
                        self.assume(self.neg(self.both(*[self.eq(pts[f[v], x], pts[f[u], x]) for x in range(3)])))
        off = [0]
        for f in ids:
            off.append(off[-1] + len(f))
        m = mesh.UnstructuredGrid.make(pts, asarr(np.array([t for t, w in cells])), asarr(np.array(off)), asarr([i for f in ids for i in f]))
        m.__dict__["_x_listed"] = [asarr(f) for f in ids]
        self.meshes[name] = m
        return m, ids

    def edges(self, mesh):
        """the segments of a mesh: pairs of numbers of points"""
        L = mesh.lines
        if not isinstance(L.dims[0], int) or L.dims[0] % 3:
            from .core import Unsupported

            raise Unsupported("segments")
        return [(L[k + 1], L[k + 2]) for k in range(0, L.dims[0], 3)]

    def table(self, values, k):
        """value of a dictionary at a symbolic key"""
        r = None
        for key, v in values.items():
            r = v if r is None else self.ite(self.eq(k, key), v, r)
        return r

    def kept(self, mesh, source, i):
        """whether cell i of the mesh it comes from is among the cells"""
        from . import mesh as model
        from .core import integer, wrap

        if isinstance(mesh, model.Selected):
            return wrap(mesh.__dict__["_x_mask"].at((integer(i),)))
        return True

    def polyline(self, name, n, segments=False):
        from . import mesh

        pts = self.arr(name + ".points", [n, 3])
        m = mesh.PolyData.polyline(pts, segments)
        self.meshes[name] = m
        return m

    def polygon(self, name, n, points):
        """mesh of one polygon through points that are an input array"""
        from . import mesh, npm
        from .arr import asarr

        m = mesh.PolyData(points, faces=npm.concatenate([asarr([n]), npm.arange(n)], 0))
        self.meshes[name] = m
        return m

    def netting(self, name, n_points, sizes, links, tol, joined=False):
        """polygons of the given sizes through any points, of which as many pairs as given are close"""
        from . import mesh
        from .arr import asarr

        a = self.arr(name + ".points", [n_points, 3])
        F = []
        for k, w in enumerate(sizes):
            f = [self.int(f"{name}.f{k}{v}", lo=0) for v in range(w)]
            for v in range(w):
                self.assume(f[v] < n_points)
                for u in range(v):
                    self.assume(self.neg(self.eq(f[v], f[u])))
            F.append(f)
        pairs = []
        for k in range(links):
            i, j = self.int(f"{name}.i{k}", lo=0), self.int(f"{name}.j{k}", lo=0)
            self.assume(i < j)
            self.assume(j < n_points)
            for x, y in pairs:
                self.assume(self.neg(self.both(self.eq(i, x), self.eq(j, y))))
            pairs.append((i, j))
        if joined:
            # the first two pairs are apart, the third joins them
            (i, j), (u, v), (x, y) = pairs[:3]
            self.assume(self.both(*[self.neg(self.eq(s, t)) for s in (i, j) for t in (u, v)]))
            first, second = lambda s: self.either(self.eq(s, i), self.eq(s, j)), lambda s: self.either(self.eq(s, u), self.eq(s, v))
            self.assume(self.either(self.both(first(x), second(y)), self.both(first(y), second(x))))
        m = mesh.PolyData.polygons(a.copy(), [asarr(f) for f in F]) if F else mesh.PolyData(a)
        self.links = (a.copy(), tol, pairs)
        self.meshes[name] = m
        return m, F, pairs

    def placed(self, name, mesh, i, place):
        """the point of that number ends up at the place"""
        b = mesh.__dict__.get("_x_before")
        if b is None:
            from .core import Unsupported

            raise Unsupported("points that are not cleaned")
        q = b._points
        self.prove(name, self.both(*[self.eq(q[i, c], place[c]) for c in range(3)]))

    def kept_points(self, name, mesh, n, away, place):
        """the points for which the condition holds end up at their places, and there are no others"""
        b = mesh.__dict__.get("_x_before")
        if b is None:
            from .core import Unsupported

            raise Unsupported("points that are not cleaned")
        q = b._points
        self.shape(name, q, [n, 3])
        self.forall(name, [n, 3], lambda i, c: self.implies(away(i), self.eq(q[i, c], place(i, c))))

    def loops_of(self, mesh):
        """vertices of the polygons of a cleaned mesh"""
        b = mesh.__dict__.get("_x_before")
        f = b.__dict__.get("_x_polys") if b is not None else None
        if f is None:
            from .core import Unsupported

            raise Unsupported("polygons")
        if not all(isinstance(x.dims[0], int) for x in f):
            from .core import Unsupported

            raise Unsupported("number of vertices")
        return [[[b._points[x[v], c] for c in range(3)] for v in range(x.dims[0])] for x in f]

    def data(self, mesh, where, key, name, comps=None, kind="f", among=None):
        """attach an arbitrary data array (of values among those given) to an input mesh"""
        d = mesh._npd if where == "point" else mesh._ncd
        shape = [size_value(d)] + ([comps] if comps else [])
        a = self.arr(name, shape, kind)
        dict.__setitem__(mesh.point_data if where == "point" else mesh.cell_data, key, a)
        if among is not None:
            import z3
            from .npm import flat_dims, flat_index
            from .arr import Comp

            vs = [z3.Int(f"among!{k}") for k in range(len(flat_dims(d)))]
            g = self.arrays[name][1]
            t = g((Comp(vs) if len(vs) > 1 else vs[0] if vs else z3.IntVal(0),))
            from .core import integer

            cond = z3.Or(*[t == integer(v) for v in among])
            self.c.assume(z3.ForAll(vs, cond) if vs else cond)
        return a

    def thinning(self, near, modular=False):
        """contract of a recursive function that thins out a polyline: a call of itself gives vertices of its argument, in order, with both
        ends, and each point near (a predicate) the vertices given around it; used in place of the body for calls of itself"""
        return Thinning(self, near, modular)

    def same_point(self, Q, i, p, k, width):
        return self.both(*[self.eq(Q[i, c], p[k, c], 1e-6) for c in range(width)])

    def search(self, n, first, length):
        """loops over orders of n points, by invariants"""
        from .loops import Invariants

        return Invariants(self, n, first, length)

    def line_size(self, mesh, th, k):
        """number of points of line k, the result of a recursion"""
        return th.witness(k, None, 1, None).size

    def line(self, mesh, k, sizes=None):
        """points of line k of a mesh of polylines; for a result of lines of the given sizes"""
        from .arr import asarr

        b = mesh.__dict__["_x_before"]
        start = 0
        for n in sizes[:k]:
            start = start + n + 1
        ids = b.lines[start + 1:start + 1 + sizes[k]]
        return b.points[ids]

    def segments(self, name, mesh, n, first, last):
        """the mesh consists of n lines of two points"""
        b = mesh.__dict__["_x_before"]
        self.shape(name, b.lines, [3 * n])

        def body(k):
            L = b.lines
            p, q = b.points[L[3 * k + 1]], b.points[L[3 * k + 2]]
            u, v = first(k), last(k)
            return self.both(self.eq(L[3 * k], 2), *[self.both(self.eq(p[c], u[c], 1e-6), self.eq(q[c], v[c], 1e-6)) for c in range(3)])

        self.forall(name, [n], body)

    def segment(self, mesh, j):
        """first and last point of segment j"""
        b = mesh.__dict__["_x_before"]
        return b.points[b.lines[3 * j + 1]], b.points[b.lines[3 * j + 2]]

    def segment_count(self, name, mesh, n):
        """the mesh consists of n lines of two points"""
        b = mesh.__dict__["_x_before"]
        self.shape(name, b.lines, [3 * n])
        self.forall(name, [n], lambda k: self.eq(b.lines[3 * k], 2))

    def point_keys(self, name, mesh, keys):
        self.prove(name, set(mesh.__dict__["_x_keys"]) == set(keys))

    def line_sizes(self, name, mesh, sizes):
        """the mesh consists of polylines of these sizes, through points that exist"""
        import z3
        from .core import integer

        b = mesh.__dict__["_x_before"]
        total = 0
        for n in sizes:
            self.prove(name, self.eq(b.lines[total], n))
            total = total + n + 1
        self.shape(name, b.lines, [total])

    def polylines(self, name, sizes):
        from . import mesh

        n = sizes[0]
        for x in sizes[1:]:
            n = n + x
        pts = self.arr(name + ".points", [n, 3])
        m = mesh.PolyData.polylines(pts, sizes)
        self.meshes[name] = m
        return m

    def linework(self, name, n_points, sizes):
        """polylines of the given sizes through any of the points, and the numbers of those points"""
        import z3
        from . import mesh
        from .core import integer

        pts = self.arr(name + ".points", [n_points, 3])
        ids = []
        for k, n in enumerate(sizes):
            a = self.arr(f"{name}.line{k}", [n], "i")
            i = z3.Int("lw!i")
            t = self.arrays[f"{name}.line{k}"][1]((i,))
            self.c.assume(z3.ForAll([i], z3.And(t >= 0, t < integer(n_points)), patterns=[t]))
            ids.append(a)
        m = mesh.PolyData.linework(pts, ids)
        self.meshes[name] = m
        return m, ids

    def extremes(self, i):
        """what the code knows of the positions of largest and smallest values, at an index"""
        from .core import integer

        for inst in self.c.cache.get("extremes", []):
            self.c.conds.append(inst(integer(i)))

    def predicate(self, name, fn, n):
        """a named condition on n reals; unfolded where asked for"""
        import z3
        from .core import boolean, real, wrap

        P = z3.Function(name, *[z3.RealSort()] * n, z3.BoolSort())

        def at(*xs):
            return wrap_bool(P(*[real(x) for x in xs]))

        def unfold(*xs):
            self.c.assume(P(*[real(x) for x in xs]) == boolean(fn(*xs)))

        at.unfold = unfold
        return at

    def given(self, shape, fn):
        """precondition for all indices, used at the indices named by the contract"""
        import z3
        from .core import boolean

        self.weak = True

        def use(*i):
            t = fn(*i)
            t = z3.simplify(boolean(t)) if not isinstance(t, bool) else z3.BoolVal(t)
            for x in t.children() if z3.is_and(t) else [t]:
                self.c.assume(x)

        return use

    def same(self, a, b, tol=None):
        """equality of reals, by algebra if possible"""
        from . import algebra

        return True if algebra.identical(self.c, a, b) else self.eq(a, b, tol)

    def lemma(self, name, cond):
        """proved, then used"""
        n = len(self.obligations)
        self.prove("lemma: " + name, cond)
        if all(o.status == "discharged" for o in self.obligations[n:]) and cond is not True:
            self.c.assume(cond)

    def nonzero(self, a, least):
        """assumed not to be (near) zero"""
        from .core import real

        self.assume(self.either(self.lt(least, a), self.lt(a, -least)))
        self.c.nonzero = [*getattr(self.c, "nonzero", ()), real(a)]

    def lemma_eq(self, name, a, b):
        from .core import real

        self.prove("lemma: " + name, self.same(a, b))
        if self.obligations[-1].status == "discharged":
            self.c.assume(wrap_bool(real(a) == real(b)))

    def total(self, n, fn):
        """the sum over all indices; equal to each sum of the code whose terms are equal"""
        import z3
        from .arr import SymArr, dim_of
        from .core import SInt, integer, real, term, wrap

        def at(idx):
            n0 = len(self.c.conds)
            self.c.conds += [idx[0] >= 0, idx[0] < integer(n)]
            try:
                return real(fn(wrap(idx[0])))
            finally:
                del self.c.conds[n0:]

        a = SymArr((dim_of(n),), at, "f")
        before = list(self.c.sums)
        s = a.sum()
        c = self.c
        mine = next((functions_of(t) for r, t, b, size in c.sums if r.eq(real(s))), None)
        c.counter += 1
        v = z3.Int(f"sum!{c.counter}")
        n0 = len(c.conds)
        for r, t, b, size in before:
            if not z3.is_real(r) or r.eq(real(s)) or mine is not None and functions_of(t) != mine or not c.valid(size == integer(n)):
                continue
            c.conds += [v >= 0, v < integer(n)]
            try:
                ok = zero_by_cases(c, z3.substitute(t, (b, v)) - real(fn(wrap(v))))
            finally:
                del c.conds[n0:]
            if ok:
                c.assume(wrap_bool(r == real(s)))
                n0 = len(c.conds)
        return s

    def lt0(self, a):
        """negative, exactly"""
        from .core import lt

        return lt(a, 0)

    def value(self, i):
        """number of an index of a flattened array"""
        from .arr import lin
        from .core import wrap

        return wrap(lin(i.i, i.dim)) if hasattr(i, "dim") else i

    def put(self, mesh, where, key, a):
        """a copy of an input array as data of an input mesh"""
        dict.__setitem__(mesh.point_data if where == "point" else mesh.cell_data, key, a.copy())

    def order(self, name, below, shape, at, axis, up):
        """precondition: coordinates along the axis follow each other in the stacking direction"""
        from .core import and_, ite, le

        a, b = self.arrays[name][0], self.arrays[below][0]
        self.assume_all(shape, lambda *i: self.ite(up, le(b[at(*i), axis], a[at(*i), axis]), le(a[at(*i), axis], b[at(*i), axis])))

    def tie(self, name, shape, where, value):
        """precondition: the input array `name` has value(i) at where(i), for all i"""
        import z3
        from .core import eq

        a = self.arrays[name][0]
        self.assume_all(shape, lambda *i: eq(a[where(*i)], value(*i)))

    def func(self, name, n=3):
        """an arbitrary function of n coordinates, applied to arrays element by element"""
        import z3
        from .arr import SymArr, asarr, memo
        from .core import real, wrap
        from . import npm

        f = z3.Function(name, *[z3.RealSort()] * n, z3.RealSort())

        def call(*xs):
            xs = [asarr(x) for x in xs]
            if all(x.ndim == 0 for x in xs):
                return wrap(f(*[real(x.as_scalar()) for x in xs]))
            from .arr import bget, broadcast_dims

            dims = broadcast_dims([x.dims for x in xs])
            gs = [bget(x, dims) for x in xs]
            return SymArr(dims, memo(lambda idx: f(*[real(g(idx)) for g in gs])), "f")

        call.value = lambda *xs: wrap(f(*[real(x) for x in xs]))
        return call

    def turning(self, vec):
        """matrix of the rotation of a rotation vector in degrees"""
        from .core import wrap
        from .mesh import rotation_matrix

        return [[wrap(x) for x in row] for row in rotation_matrix(vec)]

    def rotated(self, vector, angle, center, p, c):
        """coordinate c of the point p turned about the axis"""
        import z3
        from .core import real, wrap
        from .mesh import rotation

        return wrap(rotation([real(v) for v in vector] + [real(angle)] + [real(v) for v in center], [real(v) for v in p], z3.IntVal(c)))

    def assume(self, cond):
        self.c.assume(cond)

    def assume_all(self, shape, fn):
        """precondition for all indices"""
        import z3
        from .core import SInt, boolean, integer

        vs, hyp, t = self._bound(shape, fn, "pre")
        self.c.assume(z3.ForAll(vs, z3.Implies(z3.And(*hyp), t)))

    def _bound(self, shape, fn, base):
        """body of a quantified condition"""
        import z3
        from .core import SInt, Unsupported, boolean, integer

        vs, hyp = [], []
        for n in shape:
            self.c.counter += 1
            v = z3.Int(f"{base}!{self.c.counter}")
            vs.append(v)
            hyp += [v >= 0, v < integer(n)]
        n0 = len(self.c.conds)
        base0 = self.c.sub_base
        if base0 is None:
            self.c.sub_base = n0
        self.c.conds += hyp
        try:
            t = boolean(fn(*[SInt(v) for v in vs]))
            new = self.c.conds[n0 + len(hyp):]
            del self.c.conds[n0 + len(hyp):]
            if new and not self.c.valid(z3.And(*new)):
                raise Unsupported("branch under a quantifier")
        finally:
            self.c.sub_base = base0
            del self.c.conds[n0:]
        return vs, hyp, t

    # -- values in statements
    def lin(self, idx, shape):
        """index of a flattened array (first index fastest)"""
        from .arr import Comp, I, dim_fac, dim_of, lin, mk_dim, split
        from .core import integer
        from .index import Raw

        comps, facs = [], []
        for i, n in zip(idx, shape):
            d = dim_of(n)
            f = dim_fac(d)
            if not f:
                continue
            t = integer(i)
            comps += [t] if len(f) == 1 else list(split(t, d).i)
            facs += f
        full = mk_dim(facs)
        if isinstance(full, int):
            t, m = I(0), 1
            for i, n in zip(idx, shape):
                t = t + m * integer(i)
                m *= int(n)
            return Raw(t, full)
        return Raw(I(0) if not comps else comps[0] if len(comps) == 1 else Comp(comps), full)

    def eq(self, a, b, tol=None):
        import z3
        from .core import SStr, eq, real, term, wrap

        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            return eq(a, b)
        ta, tb = term(a), term(b)
        if z3.is_bool(ta) and z3.is_bool(tb):
            return wrap(ta == tb)
        if z3.is_real(ta) or z3.is_real(tb):
            d = z3.simplify(real(ta) - real(tb), som=True)
            return wrap(d == 0)
        return eq(a, b)

    def eq0(self, a):
        """exactly zero"""
        from .core import eq

        return eq(a, 0.0)

    def le(self, a, b, tol=None):
        from .core import le

        return le(a, b)

    def lt(self, a, b):
        from .core import lt

        return lt(a, b)

    def both(self, *cs):
        from .core import and_

        r = True
        for c in cs:
            r = and_(r, c) if r is not True else c
        return r

    def either(self, *cs):
        from .core import or_

        r = False
        for c in cs:
            r = or_(r, c) if r is not False else c
        return r

    def neg(self, c):
        from .core import not_

        return not_(c)

    def implies(self, a, b):
        return self.either(self.neg(a), b)

    def iff(self, a, b):
        import z3
        from .core import boolean, wrap

        return wrap(boolean(a) == boolean(b))

    def ite(self, c, a, b):
        from .core import ite

        return ite(c, a, b)

    def exists(self, shape, fn):
        """there is an index where the condition holds"""
        import z3
        from .core import wrap

        vs, hyp, t = self._bound(shape, fn, "ex")
        return wrap(z3.Exists(vs, z3.And(*hyp, t)))

    def sin(self, x):
        from .core import SIN, fun1

        return fun1(SIN)(x)

    def cos(self, x):
        from .core import COS, fun1

        return fun1(COS)(x)

    def rad(self, deg):
        return self.np.deg2rad(deg)

    def log10(self, x):
        from .core import LOG10, fun1

        return fun1(LOG10)(x)

    def sqrt(self, x):
        from .core import sqrt

        return sqrt(x)

    def length(self, a):
        from .load import _B

        return _B.len(a)

    def arclength(self, p, n):
        """length along the points p of the polyline, from its first point: a function of the index"""
        import z3
        from .core import integer, sqrt, term, wrap

        c = self.c
        L = c.fresh_fun("arc", [z3.IntSort()], z3.RealSort())
        u, v = z3.Int("arc!u"), z3.Int("arc!v")
        N = integer(n)
        g = p.snap()

        def seg(i):
            d = [g((i + 1, z3.IntVal(k))) - g((i, z3.IntVal(k))) for k in range(3)]
            return term(sqrt(wrap(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])))

        c.fact(L(z3.IntVal(0)) == 0)
        c.fact(z3.ForAll([u], z3.Implies(z3.And(u >= 0, u + 1 < N), L(u + 1) == L(u) + seg(u)), patterns=[L(u + 1)]))
        c.fact(z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, u <= v, v < N), L(u) <= L(v)), patterns=[z3.MultiPattern(L(u), L(v))]))
        r = lambda i: wrap(L(integer(i)))
        r.terms = (L, seg, N, n)
        return r

    def same_sums(self, arc):
        """lemma by induction: running sums of the code that are this length"""
        import z3
        from .arr import dim_of, dims_equal

        c = self.c
        L, seg, N, n = arc.terms
        u = z3.Int("arc!u")
        for f, d in c.cache.get("cumsums", []):
            k = c.fresh_const("ind", z3.IntSort())
            step = z3.Implies(z3.And(k >= 0, k + 1 < N, f(k) == L(k), L(k + 1) == L(k) + seg(k)), f(k + 1) == L(k + 1))
            if dims_equal(d, dim_of(n)) and c.valid(f(z3.IntVal(0)) == 0) and c.valid(step):
                c.fact(z3.ForAll([u], z3.Implies(z3.And(u >= 0, u < N), f(u) == L(u)), patterns=[f(u)]))
                c.fact(f(N - 1) == L(N - 1))

    def located(self, arc, k, x):
        """the segment where the code located the position that depends on k"""
        from .core import Unsupported, wrap

        cs = [self.c.cache[key[1]](t) for key, t in list(self.c.cache.items())
              if isinstance(key, tuple) and key and key[0] == "interp at" and self.mentions(t, k)]
        if not cs:
            raise Unsupported("no position located")
        return wrap(cs[0])

    @staticmethod
    def mentions(t, v):
        from .core import integer, mentions

        return mentions(t, integer(v))

    def cell_size(self, mesh, what):
        from .mesh import cell_size_array

        return cell_size_array(mesh, what)

    def centers(self, mesh):
        """parametric centers of the cells"""
        from .mesh import cell_center_array

        return cell_center_array(mesh)

    def nan(self):
        from .core import NAN, wrap

        return wrap(NAN)

    def path(self, cond):
        """decide a condition on the present path"""
        return bool(cond)

    # -- statements
    def prove(self, name, cond, extra=()):
        import time
        import z3
        from .core import boolean
        from . import core

        t0 = time.time()
        t = cond if isinstance(cond, bool) else boolean(cond)
        if t is True or not isinstance(t, bool) and z3.is_true(z3.simplify(t, som=True)):
            self.obligations.append(Obligation(name, "discharged", secs=time.time() - t0, backend="simplifier"))
            return
        if t is False:
            t = z3.BoolVal(False)
        if self.c.tainted:
            self.obligations.append(Obligation(name, "undischarged", reason="; ".join(self.c.tainted)))
            return
        goal = [*extra, z3.Not(t)]
        if os.environ.get("PVC_DEBUG") == "2":
            print("GOAL", name, t)
            print("   FACTS", self.c.facts, "CONDS", self.c.conds)
        quick = min(1500, self.ms)
        r, s = self.c.solve(goal, quick)
        if r == z3.unknown and opaque_roots(self.c, goal) == z3.unsat:
            r = z3.unsat
        if r == z3.unknown and quick < self.ms:
            r, s = self.c.solve(goal, self.ms)
        if os.environ.get("PVC_DUMP"):
            open(os.environ["PVC_DUMP"] + f"/{len(self.obligations)}-{time.time()-t0:.1f}-{str(r)}-{name[:20].replace(' ', '_')}.smt2", "w").write(s.to_smt2())
        backend = "z3"
        if r == z3.unknown:
            r2 = cvc5_check(self.c, goal, self.ms)
            if r2 == "unsat":
                r, backend = z3.unsat, "cvc5"
        if r == z3.unsat:
            st, model, why = "discharged", None, ""
        elif r == z3.sat and not getattr(self, "weak", False):
            st, model, why = "refuted", self.values(s, goal), str(z3.simplify(t))[:600]
        else:
            st, model, why = "unknown", self.guess(goal), "precondition used at named indices only" if r == z3.sat else s.reason_unknown()
        self.obligations.append(Obligation(name, st, model, why, time.time() - t0, backend=backend))

    def forall(self, name, shape, fn):
        """the statement holds at every index"""
        from .arr import dim_of, gen_index, lin
        from .core import SInt, wrap

        c = self.c
        dims = [dim_of(n) for n in shape]

        def body():
            idx = []
            for d in dims:
                i = gen_index(d, "k")
                idx.append(wrap(lin(i, d)))
            return fn(*idx)

        self._cases(name, body)

    def _cases(self, name, body):
        c = self.c
        try:
            res = c.sub_explore(body)
        except Exception as e:
            raise
        n0 = len(c.conds)
        base0 = c.sub_base
        for cond, (what, val), eff in res:
            if base0 is None:
                c.sub_base = n0
            c.conds.append(cond)
            try:
                if what == "exc":
                    r, s = c.solve([], self.ms)
                    import z3

                    if r != z3.unsat:
                        self.obligations.append(Obligation(name, "refuted" if r == z3.sat and not c.tainted else "unknown",
                                                           self.values(s, []) if r == z3.sat else None, f"{type(val).__name__}: {val}"))
                    continue
                self.prove(name, val)
            finally:
                c.sub_base = base0
                del c.conds[n0:]
        if not res:
            self.obligations.append(Obligation(name, "discharged", reason="no index", backend="simplifier"))

    def case(self, name, fn):
        """a statement whose evaluation may branch"""
        self._cases(name, fn)

    def shape(self, name, a, shape):
        from .arr import asarr, dim_of, dim_size, same_struct
        from .core import integer
        import z3

        a = asarr(a)
        if len(a.dims) != len(shape):
            self.prove(name, False)
            return
        for d, n in zip(a.dims, shape):
            if same_struct(d, dim_of(n)):
                self.prove(name, True)
            else:
                self.prove(name, integer(dim_size(d)) == integer(n))

    def dimensions(self, name, mesh, dims):
        from .core import integer

        if not hasattr(type(mesh), "dimensions"):
            self.prove(name, False)
            return
        for a, b in zip(mesh.dimensions, dims):
            self.prove(name, integer(a) == integer(b))

    def cells(self, name, mesh, n, celltype, width, corner):
        """n cells of one type, corner v of cell i being corner(i, v)"""
        from .arr import dim_size
        from .core import Unsupported, integer

        u = mesh.__dict__.get("_x_uniform")
        if u is None and "_x_cells" in mesh.__dict__:
            # number of vertices and vertices of one cell after the other
            cells, w = mesh.cells, width + 1
            self.prove(name, integer(dim_size(mesh._ncd)) == integer(n))
            self.forall(name, [n], lambda i: self.eq(mesh.celltypes[i], celltype))
            self.prove(name, integer(dim_size(cells.dims[0])) == integer(n * w))
            self.forall(name, [n], lambda i: self.eq(cells[i * w], width))
            for v in range(width):
                self.forall(name, [n], lambda i: self.eq(cells[i * w + (v + 1)], corner(i, v)))
            return
        if u is None:
            raise Unsupported("cells of a mesh not made of one type")
        self.prove(name, integer(dim_size(mesh._ncd)) == integer(n))
        self.forall(name, [n], lambda i: self.eq(mesh.celltypes[i], celltype))
        if u.dims[1] != width:
            self.prove(name, False)
            return
        for v in range(width):
            self.forall(name, [n], lambda i: self.eq(u[i, v], corner(i, v)))

    def layers(self, name, mesh, layers, n, celltype, width, corner):
        """layers (a number) of n cells of one type, corner v of cell i of layer k being corner(k, i, v)"""
        from .arr import dim_size
        from .core import integer

        cells, w = mesh.cells, width + 1
        self.prove(name, integer(dim_size(mesh._ncd)) == integer(n * layers))
        self.prove(name, integer(dim_size(cells.dims[0])) == integer(n * (layers * w)))
        for k in range(layers):
            self.forall(name, [n], lambda i: self.eq(mesh.celltypes[i + k * n], celltype))
            self.forall(name, [n], lambda i: self.eq(cells[i * w + n * (k * w)], width))
            for v in range(width):
                self.forall(name, [n], lambda i: self.eq(cells[i * w + n * (k * w) + (v + 1)], corner(k, i, v)))

    def polyhedra(self, name, mesh, layers, n, sizes):
        """layers of n polyhedra with faces of these sizes"""
        from .arr import dim_size
        from .core import integer

        cells, w = mesh.cells, 2 + sum(s + 1 for s in sizes)
        self.prove(name, integer(dim_size(mesh._ncd)) == integer(n * layers))
        self.prove(name, integer(dim_size(cells.dims[0])) == integer(n * (layers * w)))
        for k in range(layers):
            self.forall(name, [n], lambda i: self.eq(mesh.celltypes[i + k * n], 42))
            at = lambda i, j: cells[i * w + n * (k * w) + j]
            self.forall(name, [n], lambda i: self.both(self.eq(at(i, 0), w - 1), self.eq(at(i, 1), len(sizes))))
            j = 2
            for s in sizes:
                self.forall(name, [n], lambda i: self.eq(at(i, j), s))
                j += s + 1

    def face(self, mesh, layers, n, sizes, k, i, f):
        """vertices of face f of polyhedron i of layer k"""
        cells, w = mesh.cells, 2 + sum(s + 1 for s in sizes)
        j = 3 + sum(s + 1 for s in sizes[:f])
        return [cells[i * w + n * (k * w) + (j + v)] for v in range(sizes[f])]

    def block(self, name, mesh, key, value, layers, n, width):
        """the layers of n cells whose data are the value, in order"""
        import z3
        from .arr import I, dim_size
        from .core import Unsupported, integer

        m = mesh.__dict__.get("_x_before", mesh)
        parts = m.__dict__["_x_chain"] if "_x_chain" in m.__dict__ else [m]
        start, found = 0, []
        data = mesh.cell_data[key]
        for p in parts:
            size = dim_size(p._ncd)
            if not dict.__contains__(p.cell_data, key):
                raise Unsupported("cells without the data that tell the parts")
            t = z3.simplify(dict.__getitem__(p.cell_data, key).snap()((z3.Int("part!i"),) if not (isinstance(size, int) and size == 1) else (I(0),)))
            if not z3.is_int_value(t):
                raise Unsupported("data that do not tell the parts")
            # the data of the result still tell them
            s0 = start
            self.forall(name, [size], lambda i: self.eq(data[s0 + i], t.as_long()))
            if t.as_long() == value:
                found.append((p, start))
            start = start + size
        self.prove(name, len(found) == 1)
        if len(found) != 1:
            raise Unsupported("parts with the same data")
        p, start = found[0]
        self.prove(name, integer(dim_size(p._ncd)) == integer(n * layers))
        self.prove(name, integer(dim_size(mesh._ncd)) == integer(dim_size(m._ncd)))
        return SymBlock(self, mesh, p, start, n, width)

    def pieces(self, name, mesh, patches, tol=1e-4):
        """the mesh consists of the cells of the patches (nx, ny, point(i, j)), in any order, coinciding points shared"""
        from .core import Unsupported

        parts = mesh.__dict__.get("_x_parts")
        if parts is None:
            raise Unsupported("mesh that is not a union of grids")
        if len(parts) != len(patches):
            self.prove(name, False)
            return
        for g, (nx, ny, point) in zip(parts, patches):
            dims = [nx + 1, ny + 1, 1]
            self.dimensions(name, g, dims)
            P = g.points
            for c in range(3):
                self.forall(name, [nx + 1, ny + 1], lambda i, j: self.eq(P[self.lin((i, j, 0), dims), c], point(i, j)[c], tol))

    def corners(self, name, mesh, n, celltype, width, corner, tol=1e-4):
        """n cells of one type in order, the coordinates of corner v of cell i being corner(i, v)"""
        from .arr import dim_size
        from .core import Unsupported, integer

        m = mesh.__dict__.get("_x_before", mesh)
        u = m.__dict__.get("_x_uniform")
        if u is None:
            raise Unsupported("cells of a mesh not made of one type")
        self.prove(name, integer(dim_size(m._ncd)) == integer(n))
        self.forall(name, [n], lambda i: self.eq(m.celltypes[i], celltype))
        if u.dims[1] != width:
            self.prove(name, False)
            return
        for v in range(width):
            for c in range(3):
                self.forall(name, [n], lambda i: self.eq(m.points[u[i, v], c], corner(i, v)[c], tol))

    def has_keys(self, name, data, keys):
        self.prove(name, set(dict.keys(data)) == set(keys))

    def unchanged(self, name, *only):
        """frame: the contents of the input arrays and meshes are what they were"""
        from .arr import asarr, lin
        from .arr import gen_index

        for n, (a, g) in self.arrays.items():
            if a.store.get is g:
                self.prove(name, True)
                continue
            new = a.store.get

            def body(a=a, g=g, new=new):
                idx = tuple(gen_index(d, "fr") for d in a.dims)
                from .core import wrap

                return wrap(new(idx) == g(idx))

            self._cases(name, body)
        for n, m in self.meshes.items():
            for what, d in self.frozen.get(n, {}).items():
                now = self._contents(m)[what]
                self.prove(name, list(now) == list(d))
                for k, g in d.items():
                    if k in now and now[k] is not g:
                        self._cases(name, lambda x=now[k], y=g: _same(x, y))

    def _contents(self, m):
        """what a mesh holds: getters of its arrays"""
        out = {"points": {"points": m._points}}
        for w in ("point_data", "cell_data"):
            out[w] = dict(dict.items(getattr(m, w)))
        out["field_data"] = dict.fromkeys(dict.keys(m.field_data))
        out["user_dict"] = {k: list(v.items()) if isinstance(v, dict) else v for k, v in dict.items(m.user_dict)}
        return {w: {k: (_Snap(v) if hasattr(v, "snap") else v) for k, v in d.items()} for w, d in out.items()}

    def ready(self):
        self.frozen = {n: self._contents(m) for n, m in self.meshes.items()}

    # -- counterexamples
    def values(self, s, goal):
        """values of the inputs in a model, small sizes preferred"""
        import z3

        m = None
        for cap in (3, 6):
            try:
                r, s2 = self.c.solve([*goal, *[v <= cap for v in self.sizes], *[v >= -cap for v in self.sizes]], self.ms)
            except Exception:
                r = z3.unknown
            if r == z3.sat:
                m = s2.model()
                break
        if m is None:
            m = s.model()
        return read_model(m, self.inputs)

    def guess(self, goal):
        """candidate inputs when the solver cannot decide: a model of small sizes, if it finds one"""
        import z3

        try:
            r, s2 = self.c.solve([*goal, *[v <= 3 for v in self.sizes]], min(self.ms, 3000))
            if r == z3.sat:
                return read_model(s2.model(), self.inputs)
        except BaseException:
            pass
        return None


class _Snap:
    def __init__(self, a):
        self.dims, self.get, self.kind = a.dims, a.snap(), a.kind


def _same(x, y):
    """the two snapshots agree at a generic index"""
    from .arr import gen_index, same_struct
    from .core import wrap

    if not isinstance(x, _Snap) or not isinstance(y, _Snap):
        return x == y
    if len(x.dims) != len(y.dims) or not all(same_struct(a, b) for a, b in zip(x.dims, y.dims)) or x.kind != y.kind:
        return False
    idx = tuple(gen_index(d, "fr") for d in x.dims)
    return wrap(x.get(idx) == y.get(idx))


def size_value(d):
    from .arr import dim_size

    return dim_size(d)


def num(v):
    import z3

    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def read_model(m, inputs):
    import itertools
    import z3
    from .arr import Comp, Rad, dim_size, dim_fac
    from .core import integer

    out = {}
    for name, d in inputs.items():
        if d[0] in ("int", "real", "bool", "choice"):
            v = num(m.eval(d[1], model_completion=True))
            if v is None:
                return None
            out[name] = v
        elif d[0] == "arr":
            sizes, ranges = [], []
            for dim in d[1]:
                fs = dim_fac(dim)
                ns = [f if isinstance(f, int) else num(m.eval(f, model_completion=True)) for f in fs]
                if any(n is None or n < 0 or n > 64 for n in ns):
                    return None
                sizes.append(ns)
            tot = 1
            for ns in sizes:
                for n in ns:
                    tot *= n
            if tot > 20000:
                return None
            shape = [int(np.prod(ns)) if ns else 1 for ns in sizes]
            a = np.zeros(shape, dtype={"f": float, "i": np.int64, "b": bool, "U": object}[d[3]])
            for pos in itertools.product(*[range(n) for n in shape]):
                idx = []
                for p, ns, dim in zip(pos, sizes, d[1]):
                    if not ns:
                        idx.append(z3.IntVal(0))
                    elif len(ns) == 1:
                        idx.append(z3.IntVal(p))
                    else:
                        cs = []
                        for n in ns:
                            cs.append(z3.IntVal(p % n))
                            p //= n
                        idx.append(Comp(cs) if isinstance(dim, Rad) else z3.IntVal(pos[len(idx)]))
                v = num(m.eval(d[2](tuple(idx)), model_completion=True))
                if v is None:
                    return None
                a[pos] = v
            out[name] = a
    return out


def cvc5_check(c, goal, ms):
    """second opinion on what z3 leaves open"""
    try:
        import z3
        import cvc5
        from .core import axioms, names_distinct

        allc = c.facts + c.conds + list(goal)
        s = z3.Solver()
        for t in allc + axioms(allc) + names_distinct():
            s.add(t)
        text = s.to_smt2()
        if "lambda" in text or len(text) > 200000:
            return "unknown"
        tm = cvc5.Solver()
        tm.setOption("tlimit-per", str(int(ms)))
        tm.setLogic("ALL")
        p = cvc5.InputParser(tm)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            o = str(cmd.invoke(tm, sm)).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
        return res
    except Exception:
        return "unknown"


# ---------------------------------------------------------------- concrete
class ConcEnv:
    """the same task on numbers, with the real code"""

    sym = False
    internal = False

    def __init__(self, values=None, rng=None, tol=1e-7):
        import pyvista

        self.values, self.rng = values or {}, rng or random.Random(0)
        self.np = np
        self.pv = pyvista
        self.used = {}
        self.tol = tol
        self.frames = []
        self.checked = 0
        self.meshes = {}
        self.mesh_copies = []
        self.face_cache = {}

    def fn(self, dotted):
        self.internal = self.internal or "." in dotted
        try:
            f = self._find(dotted)
        except AttributeError:
            raise Skip()
        if "." not in dotted:
            return f

        def call(*a, **k):
            import inspect

            try:
                inspect.signature(f).bind(*a, **k)
            except TypeError:
                raise Skip()
            return f(*a, **k)

        return call

    def _find(self, dotted):
        parts = dotted.split(".")
        for k in range(len(parts), -1, -1):
            try:
                o = importlib.import_module(".".join(["pvgridder", *parts[:k]]))
            except ImportError:
                continue
            for p in parts[k:]:
                o = getattr(o, p)
            return o
        raise AttributeError(dotted)

    def stub(self, dotted, fn):
        pass

    def attempt(self, fn):
        try:
            return fn(), None
        except Skip:
            raise
        except Exception as e:
            return None, e

    # -- inputs
    def _given(self, name):
        return name in self.values and self.values[name] is not None

    def int(self, name, lo=None, hi=None, size=False):
        if self._given(name):
            v = int(self.values[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise Skip()
        else:
            a = lo if lo is not None else -3
            b = hi if hi is not None else a + 5
            v = self.rng.randint(a, min(b, a + 5) if lo is not None else b)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        if self._given(name):
            v = float(self.values[name])
        else:
            a = lo if lo is not None else gt if gt is not None else -4.0
            b = hi if hi is not None else lt if lt is not None else a + 8.0
            r = self.rng.random()
            v = a + (b - a) * (self.rng.random() if r < 0.6 else self.rng.choice([0.25, 0.5, 0.75]))
            if r > 0.9 and lo is not None:
                v = float(lo)
            if r < 0.1 and lo is None and gt is None and hi is None and lt is None:
                v = float(self.rng.choice([0.0, 1.0, -1.0, 2.0]))
            v = float(v)
        if lo is not None and v < lo or hi is not None and v > hi or gt is not None and v <= gt or lt is not None and v >= lt:
            raise Skip()
        self.used[name] = v
        return v

    def bool(self, name):
        v = bool(self.values[name]) if self._given(name) else self.rng.random() < 0.5
        self.used[name] = v
        return v

    def choice(self, name, options):
        k = int(self.values[name]) if self._given(name) else self.rng.randrange(len(options))
        if not 0 <= k < len(options):
            raise Skip()
        self.used[name] = k
        return options[k]

    def arr(self, name, shape, kind="f"):
        shape = tuple(int(s) for s in (shape if isinstance(shape, (list, tuple)) else (shape,)))
        if self._given(name):
            a = np.array(self.values[name])
            a = a.reshape(shape) if a.size == int(np.prod(shape)) else None
            if a is None:
                raise Skip()
            a = a.astype({"f": float, "i": np.int64, "b": bool}[kind])
        elif kind == "f":
            g = np.random.default_rng(self.rng.randrange(2**31))
            a = np.round(g.normal(size=shape) * 2, 2) if self.rng.random() < 0.7 else g.integers(-2, 3, size=shape).astype(float)
        elif kind == "i":
            g = np.random.default_rng(self.rng.randrange(2**31))
            a = g.integers(-3, 8, size=shape)
        else:
            g = np.random.default_rng(self.rng.randrange(2**31))
            a = g.random(size=shape) < 0.5
        self.used[name] = a.tolist()
        self.frames.append((name, a, a.copy()))
        return a

    def vec(self, name, n=3):
        return [self.real(f"{name}{k}") for k in range(n)]

    def ascending(self, name, m, first=None, last=None):
        if self._given(name):
            a = np.array(self.values[name], dtype=float)
            if a.shape != (m + 1,) or (np.diff(a) < 0).any():
                raise Skip()
            if first is not None and a[0] != first or last is not None and a[-1] != last:
                raise Skip()
        else:
            g = np.random.default_rng(self.rng.randrange(2**31))
            a = np.sort(g.random(m + 1))
            if first is not None:
                a[0] = first
            if last is not None:
                a[-1] = last
            a = np.sort(a) if first is None and last is None else a
        self.used[name] = a.tolist()
        self.frames.append((name, a, a.copy()))
        return a

    def structured(self, name, dims, cls="StructuredGrid"):
        n = int(np.prod(dims))
        if cls == "StructuredGrid":
            p = self.arr(name + ".points", [n, 3])
            m = self.pv.StructuredGrid()
            m.dimensions = tuple(int(d) for d in dims)
            m.points = p.copy()
        else:
            raise Skip()
        self.meshes[name] = m
        return m

    def ugrid(self, name, n_points, n_cells, celltype, width, like=None):
        p = self.arr(name + ".points", [n_points, 3])
        if like is None:
            key = name + ".conn"
            u = self.arr(key, [n_cells, width], "i")
            if not self._given(key):
                for i in range(n_cells):
                    u[i] = self.rng.sample(range(n_points), width) if n_points >= width else [self.rng.randrange(n_points) for _ in range(width)]
                self.used[key] = u.tolist()
                self.frames[-1] = (key, u, u.copy())
            elif ((u < 0) | (u >= n_points)).any():
                raise Skip()
        else:
            u = self.conn(like)
        m = self.pv.UnstructuredGrid(np.column_stack((np.full(len(u), width), u)).ravel(), np.full(len(u), celltype), p.copy())
        self.meshes[name] = m
        return m

    def conn(self, mesh):
        return mesh.cell_connectivity.reshape((mesh.n_cells, -1)).copy()

    def mixed(self, name, n_points, n_cells, types):
        p = self.arr(name + ".points", [n_points, 3])
        key = name + ".types"
        t = self.arr(key, [n_cells], "i")
        if not self._given(key):
            some = self.rng.sample(list(types), self.rng.randint(1, min(4, len(types))))
            t[:] = [self.rng.choice(some) for _ in range(n_cells)]
            self.used[key] = t.tolist()
            self.frames[-1] = (key, t, t.copy())
        elif not np.isin(t, list(types)).all():
            raise Skip()
        cells = []
        for k in t:
            w = types[int(k)]
            cells += [w, *[self.rng.randrange(n_points) for _ in range(w)]]
        m = self.pv.UnstructuredGrid(np.array(cells), t.copy(), p.copy())
        self.meshes[name] = m
        return m, t

    def topology(self, name, n_points, cells):
        m = concrete_topology(self.arr(name + ".points", [n_points, 3]).copy(), cells)
        self.meshes[name] = m
        return m

    def patchwork(self, name, n_points, cells, apart=True):
        a = self.arr(name + ".points", [n_points, 3])
        ids = []
        for k, (t, w) in enumerate(cells):
            if n_points < w:
                raise Skip()
            pick = self.rng.sample(range(n_points), w)
            f = [int(self.values[f"{name}.f{k}{v}"]) if self._given(f"{name}.f{k}{v}") else pick[v] for v in range(w)]
            if len(set(f)) != w or min(f) < 0 or max(f) >= n_points:
                raise Skip()
            for v in range(w):
                self.used[f"{name}.f{k}{v}"] = f[v]
            ids.append(f)
        if len({tuple(np.round(q, 4)) for q in a}) != n_points:
            raise Skip()
        m = self.pv.UnstructuredGrid(np.array([x for f in ids for x in (len(f), *f)]), [t for t, w in cells], a.copy())
        self.meshes[name] = m
        return m, ids

    def edges(self, mesh):
        L = np.asarray(mesh.lines).reshape(-1, 3)
        return [(int(a), int(b)) for _, a, b in L]

    def table(self, values, k):
        return values[int(k)]

    def kept(self, mesh, source, i):
        if mesh.n_cells == 0:
            return False
        ids = mesh.cell_data["vtkOriginalCellIds"] if "vtkOriginalCellIds" in mesh.cell_data else np.arange(source.n_cells)
        return int(i) in set(np.asarray(ids).tolist())

    def polyline(self, name, n, segments=False):
        p = self.arr(name + ".points", [n, 3])
        if segments:
            m = self.pv.PolyData(p.copy(), lines=np.column_stack((np.full(n - 1, 2), np.arange(n - 1), np.arange(1, n))).ravel())
        else:
            m = self.pv.PolyData(p.copy(), lines=np.concatenate(([n], np.arange(n))))
        self.meshes[name] = m
        return m

    def polygon(self, name, n, points):
        m = self.pv.PolyData(np.array(points), faces=np.concatenate(([n], np.arange(n))))
        self.meshes[name] = m
        return m

    def netting(self, name, n_points, sizes, links, tol, joined=False):
        a = self.arr(name + ".points", [n_points, 3])
        if not self._given(name + ".points"):
            # some of the points follow another at a short step
            for k in range(1, n_points):
                if self.rng.random() < 0.5:
                    u = np.array([self.rng.gauss(0, 1) for _ in range(3)])
                    a[k] = a[self.rng.randrange(k)] + u / np.linalg.norm(u) * tol * self.rng.choice([0.3, 0.7, 0.9])
            self.used[name + ".points"] = a.tolist()
            self.frames[-1] = (name + ".points", a, a.copy())
        F = []
        for k, w in enumerate(sizes):
            if n_points < w:
                raise Skip()
            pick = self.rng.sample(range(n_points), w)
            f = [int(self.values[f"{name}.f{k}{v}"]) if self._given(f"{name}.f{k}{v}") else pick[v] for v in range(w)]
            if len(set(f)) != w or min(f) < 0 or max(f) >= n_points:
                raise Skip()
            for v in range(w):
                self.used[f"{name}.f{k}{v}"] = f[v]
            F.append(f)
        D = np.linalg.norm(a[:, None] - a[None], axis=2)
        if (np.abs(D - tol)[np.triu_indices(n_points, 1)] < 1e-6 * tol).any():
            raise Skip()
        pairs = [(i, j) for i in range(n_points) for j in range(i + 1, n_points) if D[i, j] <= tol]
        m = self.pv.PolyData(a.copy(), faces=np.array([x for f in F for x in (len(f), *f)])) if F else self.pv.PolyData(a.copy())
        self.meshes[name] = m
        return m, F, pairs

    def placed(self, name, mesh, i, place):
        self.prove(name, bool((np.abs(np.asarray(mesh.points) - np.array(place, dtype=float)).max(axis=1, initial=0.0) < 1e-5).any()))

    def kept_points(self, name, mesh, n, away, place):
        want = np.array([[place(i, c) for c in range(3)] for i in range(n)], dtype=float)
        q = np.asarray(mesh.points)
        d = np.abs(q[:, None] - want[None]).max(axis=2)
        self.prove(name, bool((d.min(axis=1) < 1e-5).all() and (d.min(axis=0) < 1e-5).all()))

    def loops_of(self, mesh):
        f = mesh.irregular_faces if mesh.n_faces_strict else ()
        return [[[float(y) for y in mesh.points[v]] for v in x] for x in f]

    def data(self, mesh, where, key, name, comps=None, kind="f", among=None):
        n = mesh.n_points if where == "point" else mesh.n_cells
        a = self.arr(name, [n] + ([comps] if comps else []), kind)
        if among is not None:
            if not self._given(name):
                a[:] = [self.rng.choice(among) for _ in range(n)]
                self.used[name] = a.tolist()
                self.frames[-1] = (name, a, a.copy())
            elif not np.isin(a, among).all():
                raise Skip()
        (mesh.point_data if where == "point" else mesh.cell_data)[key] = a.astype(np.uint8) if name.endswith(".ghost") else a.copy()  # flags VTK heeds
        return a

    def thinning(self, near, modular=False):
        return ConcThinning(self, near)

    def same_point(self, Q, i, p, k, width):
        return bool(np.allclose(np.asarray(Q)[i, :width], np.asarray(p)[k, :width], rtol=1e-5, atol=1e-6))

    def search(self, n, first, length):
        return ConcSearch()

    def line_size(self, mesh, th, k):
        return int(mesh.get_cell(k).n_points) if k < mesh.n_cells else 0

    def line(self, mesh, k, sizes=None):
        if k >= mesh.n_cells:
            return np.zeros((0, 3))
        return mesh.points[mesh.get_cell(k).point_ids]

    def segments(self, name, mesh, n, first, last):
        self.prove(name, mesh.n_cells == n)
        for k in range(n):
            p = mesh.get_cell(k).points
            self.prove(name, len(p) == 2 and np.allclose(p, [first(k), last(k)], atol=1e-6))

    def segment(self, mesh, j):
        return mesh.points[mesh.get_cell(j).point_ids]

    def segment_count(self, name, mesh, n):
        self.prove(name, [mesh.get_cell(k).n_points for k in range(mesh.n_cells)] == [2] * n)

    def point_keys(self, name, mesh, keys):
        self.prove(name, set(mesh.point_data.keys()) == set(keys))

    def line_sizes(self, name, mesh, sizes):
        have = [mesh.get_cell(k).n_points for k in range(mesh.n_cells)]
        self.prove(name, have == list(sizes))

    def polylines(self, name, sizes):
        p = self.arr(name + ".points", [sum(sizes), 3])
        lines, k = [], 0
        for n in sizes:
            lines += [n, *range(k, k + n)]
            k += n
        m = self.pv.PolyData(p.copy(), lines=lines)
        self.meshes[name] = m
        return m

    def linework(self, name, n_points, sizes):
        p = self.arr(name + ".points", [n_points, 3])
        ids, lines = [], []
        for k, n in enumerate(sizes):
            key = f"{name}.line{k}"
            u = self.arr(key, [n], "i")
            if not self._given(key):
                u[:] = self.rng.sample(range(n_points), n) if n_points >= n else [self.rng.randrange(n_points) for _ in range(n)]
                self.used[key] = u.tolist()
                self.frames[-1] = (key, u, u.copy())
            elif ((u < 0) | (u >= n_points)).any():
                raise Skip()
            ids.append(u)
            lines += [n, *u.tolist()]
        m = self.pv.PolyData(p.copy(), lines=lines)
        self.meshes[name] = m
        return m, ids

    def extremes(self, i):
        pass

    def predicate(self, name, fn, n):
        def at(*xs):
            return bool(fn(*xs))

        at.unfold = lambda *xs: None
        return at

    def given(self, shape, fn):
        self.assume_all(shape, fn)
        return lambda *i: None

    def same(self, a, b, tol=None):
        return self.eq(a, b, tol)

    def lemma(self, name, cond):
        self.prove("lemma: " + name, cond)

    def nonzero(self, a, least):
        self.assume(abs(a) > least)

    def lemma_eq(self, name, a, b):
        self.prove("lemma: " + name, self.eq(a, b))

    def total(self, n, fn):
        return float(sum(fn(i) for i in range(int(n))))

    def lt0(self, a):
        return float(a) < 0.0

    def value(self, i):
        return int(i)

    def put(self, mesh, where, key, a):
        (mesh.point_data if where == "point" else mesh.cell_data)[key] = np.array(a)

    def order(self, name, below, shape, at, axis, up):
        f = {n: a for n, a, b in self.frames}

        def value(*i):
            x, y = f[below][at(*i), axis], f[name][at(*i), axis]
            d = abs(y - x)
            return x + d if up else x - d

        self.tie(name, shape, lambda *i: (at(*i), axis), value)

    def tie(self, name, shape, where, value):
        for k, (n, a, b) in enumerate(self.frames):
            if n == name:
                m = self.meshes.get(name[:-7]) if name.endswith(".points") else None
                for idx in np.ndindex(*[int(x) for x in shape]):
                    w = where(*[int(i) for i in idx])
                    a[w] = value(*[int(i) for i in idx])
                    if m is not None:
                        m.points[w] = a[w]
                self.frames[k] = (n, a, a.copy())
                self.used[name] = a.tolist()

    def func(self, name, n=3):
        if self._given(name):
            k = list(self.values[name])
        else:
            k = [round(self.rng.uniform(-2, 2), 2) for _ in range(n + 2)]
        self.used[name] = k

        def call(*xs):
            return k[0] + sum(a * x for a, x in zip(k[1:], xs)) + k[-1] * xs[0] * xs[-1]

        call.value = call
        return call

    def turning(self, vec):
        from scipy.spatial.transform import Rotation

        return Rotation.from_rotvec(np.array(vec, dtype=float), degrees=True).as_matrix()

    def rotated(self, vector, angle, center, p, c):
        u = np.array(vector, dtype=float)
        u = u / np.linalg.norm(u)
        q = np.array(p, dtype=float) - np.array(center, dtype=float)
        t = math.radians(angle)
        r = q * math.cos(t) + np.cross(u, q) * math.sin(t) + u * (u @ q) * (1 - math.cos(t))
        return float((r + np.array(center))[c])

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def assume_all(self, shape, fn):
        for idx in np.ndindex(*[int(n) for n in shape]):
            if not bool(fn(*[int(i) for i in idx])):
                raise Skip()

    def ready(self):
        """remembers the inputs (called before the code under contract)"""
        self.mesh_copies = [(n, m, m.copy(deep=True)) for n, m in self.meshes.items()]

    # -- values
    def lin(self, idx, shape):
        t, m = 0, 1
        for i, n in zip(idx, shape):
            t += m * int(i)
            m *= int(n)
        return t

    def eq(self, a, b, tol=None):
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        a, b = float(a), float(b)
        if math.isnan(a) and math.isnan(b):
            return True
        return abs(a - b) <= (tol or self.tol) * max(1.0, abs(a), abs(b))

    def eq0(self, a):
        return float(a) == 0.0

    def le(self, a, b, tol=None):
        return float(a) <= float(b) + (tol or self.tol) * max(1.0, abs(float(a)), abs(float(b)))

    def lt(self, a, b):
        return float(a) < float(b) + self.tol * max(1.0, abs(float(a)), abs(float(b)))

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def neg(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def exists(self, shape, fn):
        return any(bool(fn(*[int(i) for i in idx])) for idx in np.ndindex(*[int(n) for n in shape]))

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def rad(self, x):
        return math.radians(x)

    def log10(self, x):
        return math.log10(x)

    def sqrt(self, x):
        return math.sqrt(max(0.0, x))

    def length(self, a):
        return len(a)

    def arclength(self, p, n):
        L = np.insert(np.cumsum(np.linalg.norm(np.diff(np.asarray(p), axis=0), axis=1)), 0, 0.0)
        r = lambda i: L[int(i)]
        r.n = int(n)
        return r

    def same_sums(self, arc):
        pass

    def located(self, arc, k, x):
        return max([s for s in range(arc.n - 1) if arc(s) <= x] or [0])

    def centers(self, mesh):
        from vtkmodules.vtkCommonCore import reference

        m = mesh.copy()
        m.cell_data.pop("vtkGhostType", None)
        m = m.cast_to_unstructured_grid()
        out = np.full((m.n_cells, 3), np.nan)
        for i, t in enumerate(m.celltypes):
            if t == 0:
                continue
            cell = m.GetCell(i)
            pc, x, w = [0.0] * 3, [0.0] * 3, [0.0] * max(1, cell.GetNumberOfPoints())
            sub = reference(cell.GetParametricCenter(pc))
            cell.EvaluateLocation(sub, pc, x, w)
            out[i] = x
        return out

    def nan(self):
        return float("nan")

    def cell_size(self, mesh, what):
        return mesh.compute_cell_sizes(length=what == "Length", area=what == "Area", volume=what == "Volume").cell_data[what]

    def path(self, cond):
        return bool(cond)

    # -- statements
    def prove(self, name, cond, extra=()):
        self.checked += 1
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not bool(cond):
            raise Failed(name, "false")

    def forall(self, name, shape, fn):
        for idx in np.ndindex(*[int(n) for n in shape]):
            self.checked += 1
            if not bool(fn(*[int(i) for i in idx])):
                raise Failed(name, f"at index {tuple(int(i) for i in idx)}")

    def case(self, name, fn):
        self.prove(name, fn())

    def shape(self, name, a, shape):
        self.checked += 1
        s = tuple(int(n) for n in shape)
        if np.shape(a) != s:
            raise Failed(name, f"shape {np.shape(a)}, expected {s}")

    def dimensions(self, name, mesh, dims):
        self.checked += 1
        if not hasattr(mesh, "dimensions") or tuple(mesh.dimensions) != tuple(int(d) for d in dims):
            raise Failed(name, f"dimensions {getattr(mesh, 'dimensions', None)}, expected {dims}")

    def cells(self, name, mesh, n, celltype, width, corner):
        ok = mesh.n_cells == n and (mesh.celltypes == celltype).all()
        if ok:
            u = mesh.cells_dict[celltype]
            ok = u.shape == (n, width) and all(u[i, v] == corner(i, v) for i in range(n) for v in range(width))
        self.prove(name, bool(ok))

    def layers(self, name, mesh, layers, n, celltype, width, corner):
        self.cells(name, mesh, n * layers, celltype, width, lambda i, v: corner(i // n, i % n, v))

    def polyhedra(self, name, mesh, layers, n, sizes):
        ok = mesh.n_cells == n * layers and (mesh.celltypes == 42).all()
        ok = ok and all([len(f.point_ids) for f in c.faces] == list(sizes) for c in mesh.cell)
        self.prove(name, bool(ok))

    def face(self, mesh, layers, n, sizes, k, i, f):
        c = self.face_cache.setdefault(id(mesh), {})
        if i + k * n not in c:
            c[i + k * n] = [list(q.point_ids) for q in mesh.get_cell(i + k * n).faces]
        return c[i + k * n][f]

    def block(self, name, mesh, key, value, layers, n, width):
        idx = np.flatnonzero(np.asarray(mesh.cell_data[key]) == value) if key in mesh.cell_data else []
        self.prove(name, len(idx) == n * layers)
        return ConcBlock(mesh, idx, n)

    def pieces(self, name, mesh, patches, tol=1e-4):
        want = []
        for nx, ny, point in patches:
            for i in range(nx):
                for j in range(ny):
                    want.append(np.array([point(i + u, j + v) for u, v in ((0, 0), (1, 0), (1, 1), (0, 1))], dtype=float))
        P = np.asarray(mesh.points, dtype=float)
        got = [P[c.point_ids] for c in mesh.cell]
        ok = len(got) == len(want)
        W = np.array([w.mean(axis=0) for w in want])
        scale = max(1.0, float(np.abs(W).max()))
        free = set(range(len(want)))
        for q in got if ok else ():
            near = [k for k in free if np.abs(W[k] - q.mean(axis=0)).max() < tol * scale]
            k = next((k for k in near if len(q) == 4 and np.abs(q[:, None] - want[k][None]).max(axis=2).min(axis=0).max() < tol * scale), None)
            if k is None:
                ok = False
                break
            free.discard(k)
        self.prove(name, bool(ok))

    def corners(self, name, mesh, n, celltype, width, corner, tol=1e-4):
        ok = mesh.n_cells == n and (mesh.celltypes == celltype).all()
        for i in range(n) if ok else ():
            q = np.asarray(mesh.points, dtype=float)[mesh.get_cell(i).point_ids]
            w = np.array([corner(i, v) for v in range(width)], dtype=float)
            ok = ok and q.shape == w.shape and np.abs(q - w).max() < tol * max(1.0, np.abs(w).max())
        self.prove(name, bool(ok))

    def has_keys(self, name, data, keys):
        self.checked += 1
        if set(data.keys()) != set(keys):
            raise Failed(name, f"keys {sorted(data.keys())}")

    def unchanged(self, name, *only):
        self.checked += 1
        for n, a, b in self.frames:
            if not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
                raise Failed(name, f"input {n} was modified")
        for n, m, c in self.mesh_copies:
            if not np.array_equal(m.points, c.points):
                raise Failed(name, f"points of {n} were modified")
            for w in ("point_data", "cell_data"):
                x, y = getattr(m, w), getattr(c, w)
                if list(x.keys()) != list(y.keys()) or any(not np.array_equal(x[k], y[k]) for k in x.keys()):
                    raise Failed(name, f"{w} of {n} was modified")



