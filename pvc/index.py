"""Indexing of symbolic arrays with numpy's semantics."""
from __future__ import annotations

import z3
import numpy as np

from . import core
from .core import Sym, SBool, SInt, Unsupported, ctx, integer, is_conc_num, term, wrap, boolean, add, sub
from .arr import (Comp, I, Rad, Rag, Sub, SymArr, asarr, assign_all, bget, conv, dim_of, dim_size, dims_equal, in_range,
                  kind_of, lin, memo, mk_dim, split, to_kind, same_struct, quantified)


class Raw:
    """an index given as the component tuple of a composite dimension"""

    def __init__(self, i, dim=None):
        self.i, self.dim = i, dim


def is_mask(k):
    return isinstance(k, SymArr) and k.kind == "b" or isinstance(k, np.ndarray) and k.dtype.kind == "b" or (
        isinstance(k, list) and len(k) > 0 and all(isinstance(x, (bool, np.bool_)) for x in k))


def is_fancy(k):
    return isinstance(k, (SymArr, np.ndarray)) and k.ndim > 0 or isinstance(k, list) or isinstance(k, SymArr)


def norm_index(i, d):
    """index value as index of dimension d (negative wraps, out of range raises)"""
    if isinstance(i, Raw):
        if i.dim is None or same_struct(i.dim, d):
            return i.i
        if isinstance(d, (Rag, Sub)) or not dims_equal(i.dim, d):
            raise IndexError("index of another dimension")
        return conv(i.i, i.dim, d)
    if isinstance(i, (SymArr, np.ndarray)) and i.ndim == 0:
        i = i.as_scalar() if isinstance(i, SymArr) else i.item()
    if isinstance(i, (bool, np.bool_, SBool)):
        raise Unsupported("Boolean scalar index")
    if isinstance(i, (float, core.SReal, np.floating, str)):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if is_conc_num(i) or hasattr(i, "__index__") and not isinstance(i, Sym):
        i = int(i)
        if isinstance(d, int):
            if not -d <= i < d:
                raise IndexError(f"index {i} is out of bounds for axis 0 with size {d}")
            return I(i % d)
        if isinstance(d, Rag):
            raise Unsupported("position in a ragged dimension")
        if isinstance(d, Sub):
            raise Unsupported("position in a filtered dimension")
        n = integer(dim_size(d))
        if i >= 0:
            if not ctx().branch(n > i, expect=True):
                raise IndexError(f"index {i} is out of bounds")
            return split(I(i), d)
        if not ctx().branch(n >= -i, expect=True):
            raise IndexError(f"index {i} is out of bounds")
        if isinstance(d, Rad) and i == -1:
            return Comp([lin_last(f) for f in d.f])
        return split(n + i, d)
    if isinstance(i, SInt):
        n = integer(dim_size(d))
        t = ctx().settle(i.t)
        if ctx().branch(z3.And(t >= 0, t < n), expect=True):
            return split(t, d)
        if ctx().branch(z3.And(t < 0, t >= -n)):
            return split(t + n, d)
        raise IndexError("index out of bounds")
    raise Unsupported(f"index {type(i).__name__}")


def lin_last(f):
    return I(f - 1) if isinstance(f, int) else f - 1


def norm_slice(s, d):
    """(start term, step, length size) of a slice of dimension d"""
    step = 1 if s.step is None else s.step
    if not is_conc_num(step):
        raise Unsupported("symbolic step")
    step = int(step)
    if step not in (1, -1, 2):
        if isinstance(d, int) and all(x is None or is_conc_num(x) for x in (s.start, s.stop)):
            r = range(*slice(s.start, s.stop, step).indices(d))
            return I(r.start), step, len(r)
        raise Unsupported("step of a slice")
    n = dim_size(d)
    c = ctx()

    def sc(v):
        if isinstance(v, (SymArr, np.ndarray)):
            v = v.as_scalar() if isinstance(v, SymArr) else v.item()
        if not (is_conc_num(v) or isinstance(v, SInt)):
            if hasattr(v, "__index__"):
                return int(v)
            raise TypeError("slice indices must be integers")
        return v

    if isinstance(d, int) and all(x is None or is_conc_num(sc(x)) for x in (s.start, s.stop)):
        r = range(*slice(s.start, s.stop, step).indices(d))
        return I(r.start), step, len(r)

    def clamp(v, lo, hi):
        """v (may be negative) clamped into [lo, hi]"""
        v = sc(v)
        if is_conc_num(v):
            v = int(v)
            neg = v < 0
        else:
            neg = c.branch(integer(v) < 0)
        if neg:
            v = add(n, v)
        if not is_conc_num(v) and c.valid(z3.And(integer(v) >= integer(lo), integer(v) <= integer(hi))):
            return v
        if c.branch(integer(v) <= integer(lo)):
            return lo
        if c.branch(integer(v) >= integer(hi)):
            return hi
        return v

    if step == 1:
        a = 0 if s.start is None else clamp(s.start, 0, n)
        b = n if s.stop is None else clamp(s.stop, 0, n)
        if not (is_conc_num(a) and a == 0) or s.stop is not None:
            ln = sub(b, a)
            if c.branch(integer(ln) <= 0):
                ln = 0
        else:
            ln = b
        return integer(a), 1, ln
    if step == 2:
        raise Unsupported("step of a slice")
    # step -1
    nm1 = sub(n, 1)
    a = nm1 if s.start is None else clamp(s.start, -1, nm1)
    b = -1 if s.stop is None else clamp(s.stop, -1, nm1)
    ln = sub(a, b)
    if s.start is None and s.stop is None:
        ln = n
    elif c.branch(integer(ln) <= 0):
        ln = 0
    return integer(a), -1, ln


def full_slice(k):
    return isinstance(k, slice) and k.start is None and k.stop is None and (k.step is None or k.step == 1)


def expand_key(a, key):
    key = list(key) if isinstance(key, tuple) else [key]
    # a Boolean mask consumes as many axes as it has dimensions
    used = sum(0 if k is None or k is Ellipsis else (asarr(k).ndim if is_mask(k) else 1) for k in key)
    if any(k is Ellipsis for k in key):
        p = next(i for i, k in enumerate(key) if k is Ellipsis)
        key[p:p + 1] = [slice(None)] * (a.ndim - used)
        key = [k for k in key if k is not Ellipsis]
    elif used < a.ndim:
        key += [slice(None)] * (a.ndim - used)
    if used > a.ndim:
        raise IndexError("too many indices for array")
    return key


def basic_view(a, key):
    """view for a key of integers, slices and newaxis"""
    dims, plan = [], []  # plan per base axis: ("fix", idx) | ("slice", out axis, start, step, base dim, out dim)
    ax = 0
    for k in key:
        if k is None:
            dims.append(1)
            continue
        d = a.dims[ax]
        if isinstance(k, slice):
            if full_slice(k):
                plan.append(("all", len(dims)))
                dims.append(d)
            elif isinstance(d, Sub) or isinstance(d, Rag):
                raise Unsupported("slice of a ragged dimension")
            else:
                start, step, ln = norm_slice(k, d)
                s0 = z3.simplify(start)
                od = dim_of(ln)
                if step == 1 and z3.is_int_value(s0) and s0.as_long() == 0 and same_struct(od, d):
                    plan.append(("all", len(dims)))
                    dims.append(d)
                else:
                    if isinstance(od, Rad):
                        od_l = od
                    plan.append(("slice", len(dims), start, step, d, od))
                    dims.append(od)
        else:
            plan.append(("fix", norm_index(k, d), d))
        ax += 1
    n_new = len(dims)

    def fwd(idx):
        out = []
        for p in plan:
            if p[0] == "all":
                out.append(idx[p[1]])
            elif p[0] == "fix":
                out.append(p[1])
            else:
                _, o, start, step, d, od = p
                t = lin(idx[o], od)
                out.append(split(z3.simplify(start + t if step == 1 else start + step * t), d))
        return tuple(out)

    def inv(b):
        conds = []
        out = [I(0)] * n_new
        for i, p in zip(b, plan):
            if p[0] == "all":
                out[p[1]] = i
            elif p[0] == "fix":
                conds.append(lin(i, p[2]) == lin(p[1], p[2]) if not isinstance(i, Comp) or not isinstance(p[1], Comp)
                             else z3.And(*[x == y for x, y in zip(i.i, p[1].i)]))
            else:
                _, o, start, step, d, od = p
                t = lin(i, d)
                if step == 1:
                    r = t - start
                elif step == -1:
                    r = start - t
                else:
                    r = (t - start) / step
                    conds.append((t - start) % step == 0)
                r = z3.simplify(r)
                conds.append(z3.And(r >= 0, r < integer(dim_size(od))))
                out[o] = split(r, od)
        return (z3.And(*conds) if conds else z3.BoolVal(True)), tuple(out)

    return a._remap(dims, fwd, inv)


def getitem(a, key):
    from .lists import is_symseq

    key = expand_key(a, key)
    if not any(is_fancy(k) or is_symseq(k) for k in key):
        v = basic_view(a, key)
        if not v.dims:
            return v.as_scalar()
        return v
    return fancy_get(a, key)


def fancy_get(a, key):
    fancy = [n for n, k in enumerate(key) if is_fancy(k) or not isinstance(k, (slice, int, type(None), np.integer, Sym))]
    masks = [n for n in fancy if is_mask(key[n])]
    if masks:
        if len(fancy) > 1:
            raise Unsupported("mask combined with other arrays")
        return mask_get(a, key, masks[0])
    ids = {n: asarr(key[n]) for n in fancy}
    for n, x in ids.items():
        if x.kind not in "i":
            if x.kind == "f" and x.ndim == 1 and isinstance(x.dims[0], int) and x.dims[0] == 0:
                ids[n] = x.astype(int)
                continue
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
    # integers together with arrays are advanced indices as well
    ints = [n for n, k in enumerate(key) if n not in ids and k is not None and not isinstance(k, slice)]
    if len(ids) > 1 or ints:
        allf = sorted(list(ids) + ints)
        if allf != list(range(allf[0], allf[-1] + 1)):
            raise Unsupported("separated advanced indices")
    from .arr import broadcast_dims

    bd = broadcast_dims([x.dims for x in ids.values()])
    gets = {n: bget(x, bd) for n, x in ids.items()}
    dims, plan, ax, placed = [], [], 0, None
    for n, k in enumerate(key):
        if k is None:
            dims.append(1)
            continue
        d = a.dims[ax]
        if n in ids or n in ints:
            if placed is None:
                placed = len(dims)
                dims.extend(bd)
            if n in ids:
                check_range(ids[n], d)
                plan.append(("fancy", gets[n], d))
            else:
                plan.append(("fix", norm_index(k, d)))
        else:
            if full_slice(k):
                plan.append(("all", len(dims)))
                dims.append(d)
            else:
                start, step, ln = norm_slice(k, d)
                plan.append(("slice", len(dims), start, step, d, dim_of(ln)))
                dims.append(dim_of(ln))
        ax += 1
    g = a.snap()
    m = len(bd)

    def get(idx):
        fi = idx[placed:placed + m]
        out = []
        for p in plan:
            if p[0] == "all":
                out.append(idx[p[1]])
            elif p[0] == "fix":
                out.append(p[1])
            elif p[0] == "slice":
                _, o, start, step, d, od = p
                out.append(split(start + step * lin(idx[o], od), d))
            else:
                t = p[1](fi)
                d = p[2]
                out.append(wrap_neg(t, d))
        return g(tuple(out))

    r = SymArr(dims, memo(get), a.kind)
    return r if dims else r.as_scalar()


def wrap_neg(t, d):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        k = t.as_long()
        if k >= 0:
            return split(t, d)
        return split(z3.simplify(integer(dim_size(d)) + k), d)
    if ctx().env is not None and getattr(ctx(), "nonneg", None) is not None and any(t.eq(x) for x in ctx().nonneg):
        return split(t, d)
    n = integer(dim_size(d))
    if ctx().valid(t >= 0):
        return split(t, d)
    return split(z3.If(t < 0, t + n, t), d)


def check_range(ids, d):
    """raises IndexError on the paths where some index is out of range"""
    if getattr(ids, "trusted_range", None) is not None and same_struct(ids.trusted_range, d):
        return
    n = integer(dim_size(d))
    g = ids.snap()
    if ids.ndim == 1 and not isinstance(ids.dims[0], (int, Rad, Rag, Sub)):
        c = ctx()
        c.counter += 1
        v = z3.Int(f"r!{c.counter}")
        t = g((v,))
        n0 = len(c.conds)
        c.conds += [v >= 0, v < integer(dim_size(ids.dims[0]))]
        try:
            if c.quick(z3.And(t >= -n, t < n)):
                return
        finally:
            del c.conds[n0:]
    ok = quantified(list(ids.dims), lambda idx: z3.And(g(tuple(idx)) >= -n, g(tuple(idx)) < n), True)
    if not ctx().branch(ok):
        raise IndexError("index out of bounds")


def mask_get(a, key, n):
    mask = asarr(key[n])
    if mask.ndim != 1:
        if mask.ndim == a.ndim and len(key) == 1:
            raise Unsupported("multi-dimensional mask")
        raise Unsupported("multi-dimensional mask")
    ax = sum(1 for k in key[:n] if k is not None)
    d = a.dims[ax]
    if not dims_equal(mask.dims[0], d):
        raise IndexError("boolean index did not match indexed array")
    if isinstance(d, int):
        # concrete length: decide every entry
        ids = [k for k in range(d) if bool(mask[k])]
        key = list(key)
        key[n] = np.array(ids, dtype=int)
        return fancy_get(a, key)
    sd = filter_dim(d, mask)
    key2 = list(key)
    key2[n] = slice(None)
    v = basic_view(a, key2)
    out_ax = sum(1 for k in key[:n] if k is None or isinstance(k, slice))
    dims = list(v.dims)
    dims[out_ax] = sd
    return SymArr(dims, v.snap(), a.kind)


def filter_dim(d, mask):
    c = ctx()
    g = mask.snap()
    md = mask.dims[0]

    def pred(k):
        return boolean(g((conv(k, d, md),)))

    from .arr import canonical_index, dim_key

    ci = canonical_index(d, "filter")
    key = ("filter", dim_key(d) if not isinstance(d, Rag) else d.key, z3.simplify(pred(ci)).sexpr())
    ck = ("filtercount", key, tuple(x.get_id() for x in c.scope), c.ckey())
    if ck not in c.cache:
        n = c.fresh("count", z3.IntSort())
        c.fact(z3.And(n >= 0, n <= integer(dim_size(d))))
        ok = quantified([d], lambda idx: pred(idx[0]), True)
        c.fact((n == integer(dim_size(d))) == ok)
        some = quantified([d], lambda idx: pred(idx[0]), False)
        c.fact((n > 0) == some)
        c.cache[ck] = n
    return Sub(d, pred, key, c.cache[ck])


def setitem(a, key, value):
    from .lists import is_symseq

    if a.ro:
        raise Unsupported("write through a reshaped view")
    key = expand_key(a, key)
    if not any(is_fancy(k) or is_symseq(k) for k in key):
        assign_all(basic_view(a, key), value)
        return
    fancy = [n for n, k in enumerate(key) if is_fancy(k) or is_symseq(k)]
    if len(fancy) > 1:
        raise Unsupported("write with several index arrays")
    n = fancy[0]
    k = key[n]
    st, kind, old = a.store, a.kind, a.store.get
    view = a.view

    def base(b):
        """condition and index in a of a base index"""
        if view is None:
            return z3.BoolVal(True), b
        return view.inv(b)

    if is_mask(k):
        mask = asarr(k)
        val = asarr(value)
        if len(key) == 1 and mask.ndim == a.ndim:
            for x, y in zip(mask.dims, a.dims):
                if not dims_equal(x, y):
                    raise IndexError("boolean index did not match indexed array")
            mg = bget(mask, a.dims)
            if val.ndim == 0 or all(isinstance(d, int) and d == 1 for d in val.dims):
                vt = to_kind(term(val.as_scalar()), kind)
                vg = lambda i: vt
            elif a.ndim == 1 and val.ndim == 1 and isinstance(a.dims[0], int):
                ids = [q for q in range(a.dims[0]) if bool(mask[q])]
                for p, q in enumerate(ids):
                    a[q] = val[p]
                return
            elif a.ndim == 1 and val.ndim == 1 and isinstance(val.dims[0], Sub):
                sd = filter_dim(a.dims[0], mask)
                if not same_struct(sd, val.dims[0]):
                    raise Unsupported("masked write of another selection")
                g = val.snap()
                vg = lambda i: to_kind(g(i), kind)
            else:
                raise Unsupported("masked write of an array")
        elif mask.ndim == 1 and all(full_slice(x) or q == n for q, x in enumerate(key)):
            if not dims_equal(mask.dims[0], a.dims[n]):
                raise IndexError("boolean index did not match indexed array")
            g1 = mask.snap()
            mg = lambda i: g1((conv(i[n], a.dims[n], mask.dims[0]),))
            if val.ndim == 0:
                vt = to_kind(term(val.as_scalar()), kind)
                vg = lambda i: vt
            elif n == 0 and val.ndim == a.ndim and isinstance(a.dims[0], int) and isinstance(val.dims[0], int):
                ids = [q for q in range(a.dims[0]) if bool(mask[q])]
                if val.dims[0] not in (1, len(ids)):
                    raise ValueError("NumPy boolean array indexing assignment cannot assign input values")
                for p, q in enumerate(ids):
                    a[q] = val[p if val.dims[0] != 1 else 0]
                return
            elif n == 0 and val.ndim == a.ndim and isinstance(val.dims[0], Sub):
                sd = filter_dim(a.dims[0], mask)
                if not same_struct(sd, val.dims[0]):
                    raise Unsupported("masked write of another selection")
                gg = bget(val, (val.dims[0],) + tuple(a.dims[1:]))
                vg = lambda i: to_kind(gg(i), kind)
            elif n == 0 and val.ndim < a.ndim:
                gg = bget(val, a.dims)
                vg = lambda i: to_kind(gg(i), kind)
            else:
                raise Unsupported("masked write of an array")
        else:
            raise Unsupported("masked write")

        def new(b):
            c, i = base(b)
            c = z3.simplify(z3.And(c, boolean(mg(i))))
            if z3.is_false(c):
                return old(b)
            return z3.If(c, vg(i), old(b))

        st.set(memo(new))
        return
    ids = asarr(k)
    if ids.ndim == 1 and isinstance(ids.dims[0], int):
        m = ids.dims[0]
        val = asarr(value)
        # position of the index axis in the selected shape
        sel_dims = []
        for q, x in enumerate(key):
            if q == n:
                sel_dims.append(m)
            elif full_slice(x):
                sel_dims.append(a.dims[q])
            elif isinstance(x, slice) or x is None:
                raise Unsupported("write with index array and slices")
        lead = sum(1 for q in range(n) if isinstance(key[q], slice))
        vg = bget(val, tuple(sel_dims)) if val.ndim else None
        for p in range(m):
            kk = list(key)
            kk[n] = ids[p]
            if vg is None:
                assign_all(basic_view(a, kk), value)
            else:
                part = SymArr(tuple(sel_dims[:lead]) + tuple(sel_dims[lead + 1:]),
                              lambda idx, p=p: vg(tuple(idx[:lead]) + (I(p),) + tuple(idx[lead:])), val.kind)
                assign_all(basic_view(a, kk), part)
        return
    if ids.ndim == 1 and n == 0 and all(full_slice(x) for x in key[1:]):
        val = asarr(value)
        check_range(ids, a.dims[0])
        if val.ndim >= a.ndim and val.ndim > 0 and not (isinstance(val.dims[0], int) and val.dims[0] == 1):
            raise Unsupported("write of an array at symbolic positions")
        ig = ids.snap()
        vg = bget(val, a.dims)
        d0 = a.dims[0]

        member = None
        if isinstance(ids.dims[0], z3.ExprRef) and not ctx().scope:
            # which positions are written: a named predicate with a witness
            c = ctx()
            M = c.fresh_fun("written", [z3.IntSort()], z3.BoolSort())
            W = c.fresh_fun("writer", [z3.IntSort()], z3.IntSort())
            q, i0 = z3.Int("w!q"), z3.Int("w!i")
            at = lambda t: lin(wrap_neg(ig((t,)), d0), d0)
            c.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ids.dims[0]), M(at(q)))))
            c.fact(z3.ForAll([i0], z3.Implies(M(i0), z3.And(W(i0) >= 0, W(i0) < ids.dims[0], at(W(i0)) == i0)), patterns=[M(i0)]))
            member = M

        def new(b):
            c, i = base(b)
            mem = member(lin(i[0], d0)) if member is not None else \
                quantified(list(ids.dims), lambda q: lin(wrap_neg(ig(tuple(q)), d0), d0) == lin(i[0], d0), False)
            return z3.If(z3.And(c, mem), to_kind(vg(i), kind), old(b))

        st.set(memo(new))
        return
    raise Unsupported("write with an index array")
