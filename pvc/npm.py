"""Model of the numpy functions used by the code; concrete arguments go to numpy itself."""
from __future__ import annotations

import zlib

import numpy as np
import z3

from . import core
from .core import Sym, SBool, SInt, SReal, Unsupported, ctx, integer, is_conc_num, real, term, wrap, boolean, add, sub, mul
from .arr import (Comp, DType, I, Rad, Rag, SORT, ShapeTuple, Sub, SymArr, asarr, bget, broadcast_dims, canonical_index, const_arr,
                  conv, dim_fac, dim_of, dim_size, dims_equal, elementwise, expand, from_conc, idx_id, join_kind, kind_of,
                  kind_of_dtype, lin, map1, memo, mk_dim, quantified, same_struct, split, stack_arrays, to_kind, iter_any, extremum)


def symbolic(x):
    from .lists import is_symseq

    if isinstance(x, (Sym, SymArr)) or is_symseq(x):
        return True
    if isinstance(x, (list, tuple, set)):
        return any(symbolic(e) for e in x)
    if isinstance(x, dict):
        return any(symbolic(e) for e in x.values())
    if isinstance(x, slice):
        return any(symbolic(e) for e in (x.start, x.stop, x.step))
    return hasattr(x, "_symbolic")


def ints(x):
    return int(x)


def shape_dims(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(dim_of(s) for s in shape)
    if isinstance(shape, (SymArr, np.ndarray)) and shape.ndim == 1:
        return tuple(dim_of(s) for s in iter_any(shape))
    return (dim_of(shape),)


M = {}


def model(fn):
    M[fn.__name__.rstrip("_")] = fn
    return fn


# -- creation
@model
def asarray(x, dtype=None, **k):
    if isinstance(x, SymArr):
        return x if dtype is None or kind_of_dtype(dtype) == x.kind else x.astype(dtype)
    return asarr(x, dtype)


M["asanyarray"] = asarray
M["ascontiguousarray"] = asarray


@model
def array(x, dtype=None, **k):
    r = asarr(x, dtype)
    r = r.copy() if isinstance(x, SymArr) else r
    nd = k.get("ndmin", 0)
    while r.ndim < nd:
        r = expand(r, 0)
    return r


@model
def copy(x):
    return asarr(x).copy()


def zeros(shape, dtype=float, **k):
    return const_arr(shape_dims(shape), 0, kind_of_dtype(dtype))


def ones(shape, dtype=float, **k):
    return const_arr(shape_dims(shape), 1, kind_of_dtype(dtype))


def empty(shape, dtype=float, **k):
    dims = shape_dims(shape)
    kind = kind_of_dtype(dtype)
    return fresh_arr("empty", dims, kind)


def fresh_arr(base, dims, kind, owner=None):
    """array of unknown contents"""
    c = ctx()
    n = sum(len(flat_dims(d)) for d in dims)
    f = c.fresh_fun(base, [z3.IntSort()] * n, SORT[kind]) if n else None
    k0 = c.fresh(base, SORT[kind]) if not n else None

    def get(idx):
        args = [v for i, d in zip(idx, dims) for v in flat_index(i, d)]
        return f(*args) if n else k0

    a = SymArr(dims, get, kind, owner=owner)
    a.fun = f
    return a


def flat_dims(d):
    if isinstance(d, Rad):
        return [x for f in d.f for x in flat_dims(f)]
    if isinstance(d, Rag):
        return flat_dims(d.inner) + flat_dims(d.n)
    if isinstance(d, Sub):
        return flat_dims(d.base)
    return [] if isinstance(d, int) and d == 1 else [d]


def flat_index(i, d):
    if isinstance(d, Rad):
        i = split(i, d)
        return [x for k, f in zip(i.i, d.f) for x in flat_index(k, f)]
    if isinstance(d, Rag):
        return flat_index(i.i[0], d.inner) + flat_index(i.i[1], d.n)
    if isinstance(d, Sub):
        return flat_index(i, d.base)
    return [] if isinstance(d, int) and d == 1 else [lin(i, d)]


def full(shape, value, dtype=None, **k):
    if isinstance(value, float) and value != value and dtype is None:
        # a value that is stored and overwritten, never computed with
        return const_arr(shape_dims(shape), core.NAN, "f")
    v = asarr(value)
    kind = kind_of_dtype(dtype) if dtype is not None else v.kind
    if v.ndim == 0:
        s = v.as_scalar()
        return const_arr(shape_dims(shape), s, kind)
    dims = shape_dims(shape)
    broadcast_to_check(v, dims)
    g = bget(v, dims)
    return SymArr(dims, lambda idx: to_kind(g(idx), kind), kind)


def broadcast_to_check(v, dims):
    if len(v.dims) > len(dims):
        raise ValueError("input operand has more dimensions than allowed")
    for a, b in zip(v.dims[::-1], tuple(dims)[::-1]):
        if isinstance(a, int) and a == 1:
            continue
        if not dims_equal(a, b):
            raise ValueError("could not broadcast input array from shape into shape")


@model
def zeros_like(a, dtype=None, **k):
    a = asarr(a)
    return const_arr(a.dims, 0, kind_of_dtype(dtype) if dtype is not None else a.kind)


@model
def ones_like(a, dtype=None, **k):
    a = asarr(a)
    return const_arr(a.dims, 1, kind_of_dtype(dtype) if dtype is not None else a.kind)


@model
def full_like(a, v, dtype=None, **k):
    a = asarr(a)
    return const_arr(a.dims, v, kind_of_dtype(dtype) if dtype is not None else a.kind)


@model
def empty_like(a, dtype=None, **k):
    a = asarr(a)
    return fresh_arr("empty", a.dims, kind_of_dtype(dtype) if dtype is not None else a.kind)


@model
def arange(*a, dtype=None):
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if not (is_conc_num(step) and int(step) == 1) or kind_of(start) != "i" or kind_of(stop) != "i":
        raise Unsupported("arange")
    n = sub(stop, start) if not (is_conc_num(start) and start == 0) else stop
    if not ctx().valid(integer(n) >= 0):
        if ctx().branch(integer(n) < 0):
            n = 0
    d = dim_of(n)
    s = integer(start)
    conc0 = is_conc_num(start) and start == 0
    r = SymArr((d,), lambda idx: lin(idx[0], d) if conc0 else s + lin(idx[0], d), "i")
    if conc0:
        r.trusted_range = d
        r.arange = True
    return r if dtype is None else r.astype(dtype)


@model
def linspace(start, stop, num=50, **k):
    if k:
        raise Unsupported("linspace options")
    c = ctx()
    if not c.branch(integer(num) > 1):
        raise Unsupported("linspace with less than two points")
    d = dim_of(num)
    n1 = integer(dim_size(d)) - 1
    a, b = real(start), real(stop)

    def get(idx):
        t = lin(idx[0], d)
        # numpy sets the last point to stop exactly
        return a + real(t) / real(n1) * (b - a)

    r = SymArr((d,), get, "f")
    r.linspace = (a, b)
    return r


# -- shapes
@model
def ndim(x):
    return asarr(x).ndim


@model
def shape(x):
    return asarr(x).shape


@model
def size(x, axis=None):
    a = asarr(x)
    return a.size if axis is None else dim_size(a.dims[axis])


@model
def expand_dims(a, axis):
    a = asarr(a)
    if isinstance(axis, (tuple, list)):
        for k in sorted(axis):
            a = expand(a, k)
        return a
    if not -a.ndim - 1 <= axis <= a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim + 1)
    return expand(a, axis)


@model
def transpose(a, axes=None):
    return asarr(a).transpose(axes) if axes is not None else asarr(a).transpose()


@model
def swapaxes(a, i, j):
    a = asarr(a)
    ax = list(range(a.ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return a.transpose(ax)


@model
def moveaxis(a, i, j):
    a = asarr(a)
    ax = [k for k in range(a.ndim) if k != i % a.ndim]
    ax.insert(j % a.ndim, i % a.ndim)
    return a.transpose(ax)


@model
def reshape(a, shape=None, order="C", newshape=None, **k):
    return asarr(a).reshape(shape if shape is not None else newshape, order=order)


@model
def ravel(a, order="C"):
    return asarr(a).ravel(order)


@model
def squeeze(a, axis=None):
    return asarr(a).squeeze()


@model
def atleast_1d(a):
    a = asarr(a)
    return expand(a, 0) if a.ndim == 0 else a


@model
def atleast_2d(a):
    a = asarr(a)
    while a.ndim < 2:
        a = expand(a, 0)
    return a


@model
def broadcast_to(a, shape, **k):
    a = asarr(a)
    dims = shape_dims(shape)
    broadcast_to_check(a, dims)
    return SymArr(dims, bget(a, dims), a.kind, ro=True)


# -- joining
@model
def concatenate(arrs, axis=0, **k):
    from .lists import is_symseq, seq_concat

    if is_symseq(arrs):
        return seq_concat(arrs, axis)
    arrs = [asarr(a) for a in (iter_any(arrs) if isinstance(arrs, SymArr) else list(arrs))]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd if -nd <= axis < nd else _axis_error(axis, nd)
    kind = join_kind(*[a.kind for a in arrs])
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        for q in range(nd):
            if q != axis and not dims_equal(a.dims[q], arrs[0].dims[q]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    if len(arrs) == 1:
        return arrs[0].copy()
    arrs = [a for a in arrs if not (isinstance(a.dims[axis], int) and a.dims[axis] == 0)] or arrs[:1]
    if len(arrs) == 1:
        r = arrs[0].copy()
        return r if r.kind == kind else r.astype({"f": float, "i": int, "b": bool}[kind])
    sizes = [dim_size(a.dims[axis]) for a in arrs]
    total = sizes[0]
    starts = [0]
    for s in sizes[1:]:
        starts.append(total)
        total = add(total, s)
    d = dim_of(total)
    dims = list(arrs[0].dims)
    dims[axis] = d
    gs = [a.snap() for a in arrs]
    ad = [a.dims for a in arrs]

    def get(idx):
        t = z3.simplify(lin(idx[axis], d))

        def el(p):
            loc = z3.simplify(t - integer(starts[p]))
            ii = []
            for q in range(nd):
                if q == axis:
                    ii.append(split(loc, ad[p][q]))
                else:
                    ii.append(conv(idx[q], dims[q], ad[p][q]))
            return to_kind(gs[p](tuple(ii)), kind)

        if z3.is_int_value(t) and all(is_conc_num(s) for s in starts):
            v = t.as_long()
            for p in range(len(arrs) - 1, -1, -1):
                if v >= starts[p]:
                    return el(p)
        # parts the index cannot be in are not evaluated
        out = []
        for p in range(len(arrs)):
            if p == len(arrs) - 1:
                out.append((None, p))
                break
            c = ctx().decided(t < integer(starts[p + 1]))
            if c is False:
                continue
            out.append((c, p))
            if c is True:
                break
        r = el(out[-1][1])
        for c, p in reversed(out[:-1]):
            r = z3.If(c, el(p), r)
        return r

    r = SymArr(dims, memo(get), kind)
    r.parts = (axis, arrs, starts)
    return r


def _axis_error(axis, nd):
    raise np.exceptions.AxisError(axis, nd)


@model
def vstack(arrs, **k):
    from .lists import is_symseq, seq_concat

    if is_symseq(arrs):
        return seq_concat(arrs, 0, two_d=True)
    return concatenate([atleast_2d(a) for a in arrs], 0)


@model
def hstack(arrs, **k):
    arrs = [atleast_1d(a) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


@model
def stack(arrs, axis=0, **k):
    return stack_arrays([asarr(a) for a in arrs], axis)


@model
def column_stack(arrs):
    from .lists import is_symseq, seq_columns

    if is_symseq(arrs):
        return seq_columns(arrs)
    cols = []
    for a in arrs if not isinstance(arrs, SymArr) else iter_any(arrs):
        a = asarr(a)
        if a.ndim < 2:
            if a.ndim == 0:
                a = expand(a, 0)
            a = expand(a, 1)
        cols.append(a)
    r = concatenate(cols, 1)
    return r


@model
def append(a, v, axis=None):
    if axis is None:
        return concatenate([asarr(a).ravel(), asarr(v).ravel()], 0)
    return concatenate([a, v], axis)


@model
def insert(a, pos, v, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
        axis = 0
    axis = axis % a.ndim
    if not is_conc_num(pos):
        p = asarr(pos)
        if p.ndim == 0:
            pos = p.as_scalar()
        elif p.ndim == 1 and isinstance(p.dims[0], int) and p.dims[0] == 1:
            pos = p[0]
        else:
            raise Unsupported("insert at several positions")
    if not is_conc_num(pos):
        raise Unsupported("insert at a symbolic position")
    pos = int(pos)
    n = dim_size(a.dims[axis])
    if pos < 0:
        pos = add(n, pos)
    v = asarr(v)
    kind = a.kind
    dims1 = list(a.dims)
    dims1[axis] = 1
    if v.ndim == 0:
        piece = const_arr(dims1, v.as_scalar(), kind if v.kind != "f" or kind == "f" else kind)
    else:
        # values are broadcast to the selected slab; with a scalar position the axis comes first
        rest = [d for q, d in enumerate(a.dims) if q != axis]
        if v.ndim <= len(rest):
            broadcast_to_check(v, rest)
            g = bget(v, tuple(rest))
            piece = SymArr(dims1, lambda idx: to_kind(g(tuple(x for q, x in enumerate(idx) if q != axis)), kind), kind)
        elif v.ndim == 1 and a.ndim == 1:
            piece = v.astype(DT[kind])
        else:
            raise Unsupported("insert of a block")
    key0 = [slice(None)] * a.ndim
    key0[axis] = slice(0, pos)
    key1 = [slice(None)] * a.ndim
    key1[axis] = slice(pos, None)
    parts = []
    if not (is_conc_num(pos) and pos == 0):
        parts.append(a[tuple(key0)])
    parts.append(piece)
    last = is_conc_num(n) and is_conc_num(pos) and pos == n
    if not last:
        parts.append(a[tuple(key1)])
    return concatenate(parts, axis)


DT = {"f": float, "i": int, "b": bool, "U": str}


@model
def delete(a, pos, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
        axis = 0
    axis = axis % a.ndim
    if not is_conc_num(pos):
        raise Unsupported("delete of several positions")
    pos = int(pos)
    key0 = [slice(None)] * a.ndim
    key1 = [slice(None)] * a.ndim
    n = dim_size(a.dims[axis])
    if not ctx().branch(integer(n) > (pos if pos >= 0 else -pos - 1)):
        raise IndexError(f"index {pos} is out of bounds for axis {axis}")
    if pos == -1:
        key0[axis] = slice(None, -1)
        return a[tuple(key0)].copy()
    if pos == 0:
        key1[axis] = slice(1, None)
        return a[tuple(key1)].copy()
    key0[axis] = slice(None, pos)
    key1[axis] = slice(pos + 1 if pos != -1 else n, None)
    return concatenate([a[tuple(key0)], a[tuple(key1)]], axis)


@model
def repeat(a, repeats, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
        axis = 0
    axis = axis % a.ndim if -a.ndim <= axis < a.ndim else _axis_error(axis, a.ndim)
    r = asarr(repeats)
    if r.ndim != 0:
        if not all(isinstance(x, int) and x == 1 for x in r.dims):
            raise Unsupported("repeat by an array")
        repeats = r.as_scalar()
    else:
        repeats = r.as_scalar()
    if not ctx().branch(integer(repeats) >= 0):
        raise ValueError("repeats may not contain negative values.")
    rd = dim_of(repeats)
    d = a.dims[axis]
    nd = mk_dim([*dim_fac(rd), *dim_fac(d)])
    dims = list(a.dims)
    dims[axis] = nd
    g = a.snap()
    nr = len(dim_fac(rd))
    nb = len(dim_fac(d))

    def get(idx):
        i = idx[axis]
        if isinstance(nd, int):
            t = lin(i, nd)
            k = t / rd if isinstance(rd, int) and rd > 1 else t
            k = I(0) if nb == 0 else k
        elif nr == 0:
            k = i
        elif nb == 0:
            k = I(0)
        else:
            cs = split(i, nd).i[nr:]
            k = cs[0] if nb == 1 else Comp(cs)
        return g(tuple(k if q == axis else x for q, x in enumerate(idx)))

    return SymArr(dims, memo(get), a.kind)


@model
def tile(a, reps):
    a = asarr(a)
    reps = list(iter_any(reps)) if isinstance(reps, (list, tuple, np.ndarray, SymArr)) else [reps]
    while a.ndim < len(reps):
        a = expand(a, 0)
    while len(reps) < a.ndim:
        reps.insert(0, 1)
    dims, plan = [], []
    for d, r in zip(a.dims, reps):
        r = r.as_scalar() if isinstance(r, SymArr) else r
        if not ctx().valid(integer(r) >= 0):
            if ctx().branch(integer(r) < 0):
                raise ValueError("negative dimensions are not allowed")
        rd = dim_of(r)
        nd = mk_dim([*dim_fac(d), *dim_fac(rd)])
        dims.append(nd)
        plan.append((d, rd, nd))
    g = a.snap()

    def get(idx):
        out = []
        for i, (d, rd, nd) in zip(idx, plan):
            nb = len(dim_fac(d))
            if nb == 0:
                out.append(I(0))
            elif same_struct(nd, d):
                out.append(i)
            elif isinstance(nd, int):
                out.append(lin(i, nd) % d)
            else:
                cs = split(i, nd).i[:nb]
                out.append(cs[0] if nb == 1 else Comp(cs))
        return g(tuple(out))

    return SymArr(dims, memo(get), a.kind)


@model
def roll(a, shift, axis=None):
    a = asarr(a)
    if a.ndim != 1 and axis is None:
        raise Unsupported("roll of a matrix")
    axis = 0 if axis is None else axis % a.ndim
    d = a.dims[axis]
    if isinstance(d, (Rag, Sub)):
        raise Unsupported("roll of a ragged dimension")
    n = integer(dim_size(d))
    g = a.snap()
    s = integer(shift)
    if isinstance(d, int) and z3.is_int_value(z3.simplify(s)):
        sv = z3.simplify(s).as_long()

        def src(t):
            t0 = z3.simplify(t)
            if z3.is_int_value(t0):
                return I((t0.as_long() - sv) % d if d else 0)
            return (t - sv) % d
    elif z3.is_int_value(z3.simplify(s)) and abs(z3.simplify(s).as_long()) <= 1 and ctx().valid(n >= 1):
        sv = z3.simplify(s).as_long()

        def src(t):
            q = t - sv
            return z3.simplify(z3.If(q < 0, q + n, z3.If(q >= n, q - n, q)))
    else:
        def src(t):
            q = t - s
            if ctx().valid(z3.And(s <= 0, s >= -n)):
                return z3.If(q >= n, q - n, q)
            if ctx().valid(z3.And(s >= 0, s <= n)):
                return z3.If(q < 0, q + n, q)
            raise Unsupported("roll by an unknown shift")

    return SymArr(a.dims, memo(lambda idx: g(tuple(split(src(lin(x, d)), d) if q == axis else x for q, x in enumerate(idx)))), a.kind)


@model
def flip(a, axis=None):
    a = asarr(a)
    key = [slice(None, None, -1) if axis is None or q == axis % a.ndim else slice(None) for q in range(a.ndim)]
    return a[tuple(key)]


@model
def diff(a, n=1, axis=-1, **k):
    if n != 1 or k:
        raise Unsupported("diff")
    a = asarr(a)
    axis = axis % a.ndim
    hi = [slice(None)] * a.ndim
    lo = [slice(None)] * a.ndim
    hi[axis] = slice(1, None)
    lo[axis] = slice(None, -1)
    return a[tuple(hi)] - a[tuple(lo)]


@model
def meshgrid(*a, **k):
    raise Unsupported("meshgrid")


# -- element-wise
def ew1(name, fn, kind=None):
    def f(x, *a, **k):
        if k.get("out") is not None or k.get("where") is not None:
            raise Unsupported("out / where")
        x = asarr(x)
        return map1(fn, x, kind or x.kind)

    M[name] = f


ew1("abs", abs)
ew1("absolute", abs)
ew1("fabs", abs)
ew1("sqrt", core.sqrt, "f")
ew1("sin", core.fun1(core.SIN), "f")
ew1("cos", core.fun1(core.COS), "f")
ew1("arccos", core.fun1(core.ACOS), "f")
ew1("log10", core.fun1(core.LOG10), "f")
ew1("square", lambda x: core.mul(x, x))
ew1("negative", lambda x: core.sub(0, x))
ew1("deg2rad", lambda x: core.mul(core.SReal(core.PI / 180), x) if not is_conc_num(x) else wrap(core.PI / 180 * real(x)), "f")
ew1("radians", lambda x: wrap(core.PI / 180 * real(x)), "f")
ew1("rad2deg", lambda x: wrap(180 / core.PI * real(x)), "f")
ew1("sign", lambda x: core.ite(core.gt(x, 0), 1, core.ite(core.lt(x, 0), -1, 0)))
ew1("logical_not", core.not_, "b")


@model
def isnan(x):
    raise Unsupported("isnan")

ew1("isfinite", lambda x: True, "b")


def ew2(name, fn):
    def f(x, y, **k):
        return elementwise(fn, x, y)

    M[name] = f


for _n, _f in dict(add=core.add, subtract=core.sub, multiply=core.mul, divide=core.div, true_divide=core.div, power=core.power,
                   equal=core.eq, not_equal=core.ne, less=core.lt, less_equal=core.le, greater=core.gt, greater_equal=core.ge,
                   logical_and=core.and_, logical_or=core.or_, bitwise_and=core.and_, bitwise_or=core.or_, mod=core.mod,
                   floor_divide=core.floordiv).items():
    ew2(_n, _f)
ew2("maximum", lambda x, y: core.ite(core.ge(x, y), x, y))
ew2("minimum", lambda x, y: core.ite(core.le(x, y), x, y))


@model
def where(c, *ab):
    if not ab:
        return (flatnonzero(c),)
    c, a, b = asarr(c), asarr(ab[0]), asarr(ab[1])
    kind = join_kind(a.kind, b.kind)
    dims = broadcast_dims([c.dims, a.dims, b.dims])
    gc, ga, gb = bget(c, dims), bget(a, dims), bget(b, dims)

    def get(idx):
        t = z3.simplify(boolean(gc(idx)))
        if z3.is_true(t):
            return to_kind(ga(idx), kind)
        if z3.is_false(t):
            return to_kind(gb(idx), kind)
        return z3.If(t, to_kind(ga(idx), kind), to_kind(gb(idx), kind))

    r = SymArr(dims, memo(get), kind)
    return r if dims else r.as_scalar()


@model
def clip(a, lo, hi):
    return asarr(a).clip(lo, hi)


# -- reductions
def red(name):
    def f(a, axis=None, **k):
        k.pop("keepdims", None)
        return getattr(asarr(a), name)(axis=axis, **k)

    M[name] = f
    return f


for _n in ("sum", "prod", "mean", "min", "max", "all", "any"):
    red(_n)
M["amin"], M["amax"] = M["min"], M["max"]


@model
def argmin(a, axis=None):
    return asarr(a).argmin(axis)


@model
def argmax(a, axis=None):
    return asarr(a).argmax(axis)


@model
def cumsum(a, axis=None):
    return asarr(a).cumsum()


@model
def ptp(a, axis=None):
    a = asarr(a)
    return a.max(axis=axis) - a.min(axis=axis)


@model
def count_nonzero(a, axis=None):
    a = asarr(a)
    return (a != 0).sum(axis=axis) if a.kind != "b" else a.sum(axis=axis)


@model
def dot(a, b):
    from .arr import matmul

    return matmul(a, b)


M["matmul"] = dot


@model
def average(a, axis=None, weights=None):
    a = asarr(a)
    if weights is None:
        return a.mean(axis=axis)
    w = asarr(weights)
    if a.ndim == 2 and axis == 0 and w.ndim == 1:
        return (a * expand(w, 1)).sum(axis=0) / w.sum()
    raise Unsupported("average")


@model
def cross(a, b, **k):
    a, b = asarr(a), asarr(b)
    if k or not (a.dims[-1] == 3 and b.dims[-1] == 3):
        raise Unsupported("cross product")

    def comp(x, k):
        return x[..., k]

    out = []
    for i, j in ((1, 2), (2, 0), (0, 1)):
        out.append(comp(a, i) * comp(b, j) - comp(a, j) * comp(b, i))
    out = [asarr(o) for o in out]
    return stack_arrays(out, -1) if out[0].ndim == 0 else stack_arrays(out, out[0].ndim)


@model
def einsum(spec, a, b):
    if spec == "ij,ij->i":
        return (asarr(a) * asarr(b)).sum(axis=1)
    raise Unsupported("einsum")


@model
def norm(a, ord=None, axis=None, **k):
    if ord is not None or k:
        raise Unsupported("norm")
    a = asarr(a)
    s = (a * a).sum(axis=axis)
    return M["sqrt"](s)


# -- comparisons of arrays
@model
def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = asarr(a), asarr(b)
    if k:
        raise Unsupported("allclose options")
    if a.kind in "ib" and b.kind in "ib" and conc_zero(rtol, atol):
        return (a == b).all()
    dims = broadcast_dims([a.dims, b.dims])
    ga, gb = bget(a, dims), bget(b, dims)
    ct = elementwise(core.le, abs_(a - b), asarr(atol) + asarr(rtol) * abs_(b))
    return asarr(ct).all() if isinstance(ct, SymArr) else ct


def conc_zero(*x):
    return False


def abs_(a):
    return M["abs"](a)


@model
def isclose(a, b, rtol=1e-5, atol=1e-8):
    a, b = asarr(a), asarr(b)
    return elementwise(core.le, abs_(a - b), asarr(atol) + asarr(rtol) * abs_(b))


@model
def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.dims, b.dims):
        if not dims_equal(x, y):
            return False
    return asarr(a == b).all() if a.ndim else (a == b)


@model
def isin(a, b, **k):
    a, b = asarr(a), asarr(b)
    if k:
        raise Unsupported("isin options")
    gb = b.snap()
    ga = a.snap()
    return SymArr(a.dims, memo(lambda idx: quantified(list(b.dims), lambda q: _eqt(ga(idx), gb(tuple(q))), False)), "b")


def _eqt(x, y):
    if x.sort() == y.sort():
        return x == y
    return real(x) == real(y)


M["in1d"] = isin


@model
def flatnonzero(a):
    from .index import filter_dim

    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("flatnonzero of a matrix")
    a = a if a.kind == "b" else (a != 0)
    d = a.dims[0]
    if isinstance(d, int):
        return np.array([k for k in range(d) if bool(a[k])], dtype=int)
    sd = filter_dim(d, a)
    r = SymArr((sd,), lambda idx: lin(idx[0], d), "i")
    r.trusted_range = d
    return r


@model
def sort(a, axis=-1, **k):
    """sorted copy: recognised when the array is provably ascending or descending"""
    a = asarr(a)
    if a.ndim != 1 or k:
        raise Unsupported("sort")
    d = a.dims[0]
    if isinstance(d, int):
        if d <= 1:
            return a.copy()
    g = a.snap()
    c = ctx()
    n = integer(dim_size(d))
    i = c.fresh_const("sorti", z3.IntSort())
    hyp = z3.And(i >= 0, i + 1 < n)
    x, y = g((split(i, d),)), g((split(i + 1, d),))
    r, _ = c.solve([hyp, z3.Not(x <= y)], c.prove_ms)
    if r == z3.unsat:
        return a.copy()
    r, _ = c.solve([hyp, z3.Not(x >= y)], c.prove_ms)
    if r == z3.unsat:
        return SymArr((d,), memo(lambda idx: g((split(n - 1 - lin(idx[0], d), d),))), a.kind)
    # in general: an ascending rearrangement p of the array
    p = c.fresh_fun("perm", [z3.IntSort()], z3.IntSort())
    q = c.fresh_fun("perminv", [z3.IntSort()], z3.IntSort())
    u, v = z3.Int("su!b"), z3.Int("sv!b")
    inr = lambda t: z3.And(t >= 0, t < n)
    gu = g((split(u, d),))
    c.fact(z3.ForAll([u], z3.Implies(inr(u), z3.And(inr(p(u)), q(p(u)) == u)), patterns=[p(u)]))
    c.fact(z3.ForAll([u], z3.Implies(inr(u), z3.And(inr(q(u)), p(q(u)) == u)), patterns=[q(u)] + ([gu] if z3.is_app(gu) and gu.decl().kind() == z3.Z3_OP_UNINTERPRETED and gu.num_args() else [])))
    c.fact(z3.ForAll([u, v], z3.Implies(z3.And(inr(u), inr(v), u <= v), g((split(p(u), d),)) <= g((split(p(v), d),))), patterns=[z3.MultiPattern(p(u), p(v))]))
    r = SymArr((d,), lambda idx: g((split(p(lin(idx[0], d)), d),)), a.kind)
    r.sorted_from = (a, p, q)
    return r


@model
def unique(a, **k):
    raise Unsupported("unique")


@model
def argsort(a, **k):
    raise Unsupported("argsort")


@model
def interp(x, xp, fp, **k):
    x, xp, fp = asarr(x), asarr(xp), asarr(fp)
    if k or xp.ndim != 1 or fp.ndim != 1:
        raise Unsupported("interp options")
    c = ctx()
    d = xp.dims[0]
    if not dims_equal(d, fp.dims[0]):
        raise ValueError("fp and xp are not of the same length.")
    g = x.snap()
    if c.scope or not isinstance(d, (int, z3.ExprRef)):
        # an uninterpreted functional of the two arrays, applied to the position
        F = functional("interp", xp, fp)
        return SymArr(x.dims, memo(lambda idx: F(real(g(idx)))), "f")
    n = integer(dim_size(d))
    X, Y = (lambda a: lambda i: real(a.snap()((i,))))(xp), (lambda a: lambda i: real(a.snap()((i,))))(fp)
    w = c.fresh_const("step", z3.IntSort())
    if not c.valid(z3.Implies(z3.And(w >= 0, w + 1 < n), X(w) <= X(w + 1))):
        raise Unsupported("interp with positions that may descend")
    v = z3.Int("fun0")
    key = ("interp", z3.simplify(X(v)).sexpr(), z3.simplify(n).sexpr(), c.ckey())
    if key not in c.cache:
        c.cache[key] = c.fresh_fun("segment", [z3.RealSort()], z3.IntSort())
    S = c.cache[key]

    def get(idx):
        t = real(g(idx))
        s = S(t)
        done = ("interp at", key, t.get_id(), c.ckey())
        if done not in c.cache:
            c.cache[done] = t
            c.fact(z3.Implies(z3.And(t > X(I(0)), t < X(n - 1)), z3.And(s >= 0, s + 1 < n, X(s) <= t, t < X(s + 1))))
        return z3.If(t >= X(n - 1), Y(n - 1), z3.If(t <= X(I(0)), Y(I(0)), Y(s) + (t - X(s)) * ((Y(s + 1) - Y(s)) / (X(s + 1) - X(s)))))

    return SymArr(x.dims, memo(get), "f")


def functional(name, *arrs):
    """uninterpreted function determined by the contents of arrays"""
    lams, sizes = [], []
    for a in arrs:
        g = a.snap()
        b = [canonical_index(d, f"fun{k}") if not isinstance(d, int) or d > 1 else I(0) for k, d in enumerate(a.dims)]
        from .arr import comp_vars

        t = z3.simplify(to_kind(g(tuple(b)), a.kind))
        for v in reversed([v for i in b if not z3.is_int_value(i if not isinstance(i, Comp) else I(1)) or isinstance(i, Comp) for v in comp_vars(i)]):
            t = z3.Lambda([v], t)
        lams.append(t)
        sizes += [integer(dim_size(d)) for d in a.dims]
    key = name + "|" + "|".join(t.sort().sexpr() for t in lams) + f"|{len(sizes)}"
    f = z3.Function(f"{name}!{zlib.crc32(key.encode())}", *[t.sort() for t in lams], *[z3.IntSort()] * len(sizes), z3.RealSort(), z3.RealSort())
    return lambda x: f(*lams, *sizes, x)


CREATE = dict(zeros=zeros, ones=ones, full=full, empty=empty)
PASS = {"newaxis", "nan", "inf", "pi", "e", "float64", "float32", "int64", "int32", "int8", "uint8", "bool_", "integer", "floating", "number", "ndarray",
        "generic", "dtype", "str_", "exceptions", "errstate", "random", "typing", "iinfo", "finfo", "object_", "intp"}


class Linalg:
    def __getattr__(self, name):
        real_fn = getattr(np.linalg, name)
        if name == "norm":
            return lambda *a, **k: norm(*a, **k) if symbolic(list(a)) or symbolic(k) else real_fn(*a, **k)

        def f(*a, **k):
            if symbolic(list(a)) or symbolic(k):
                raise Unsupported(f"numpy.linalg.{name}")
            return real_fn(*a, **k)

        return f


class NP:
    """stands for the module numpy in the code under verification"""

    linalg = Linalg()
    pi = np.pi

    def __getattr__(self, name):
        if name in PASS:
            return getattr(np, name)
        if name in CREATE:
            def f(*a, **k):
                if core.CTX is None:
                    return getattr(np, name)(*a, **k)
                vals = [x for x in list(a[1:]) + [v for q, v in k.items() if q != "dtype"]]
                if name != "full" and not symbolic(list(a)) and any(isinstance(v, float) and v != v for v in vals):
                    raise Unsupported("array of NaN")
                return CREATE[name](*a, **k)

            return f
        real_fn = getattr(np, name)
        if not callable(real_fn) or isinstance(real_fn, type):
            return real_fn

        def g(*a, **k):
            if not symbolic(list(a)) and not symbolic(k):
                a = [list(x) if isinstance(x, list) else x for x in a]
                return real_fn(*a, **k)
            fn = M.get(name)
            if fn is None:
                raise Unsupported(f"numpy.{name}")
            return fn(*a, **k)

        return g


np_model = NP()
