"""Lists, comprehensions and loops over symbolic sequences.

A loop over a sequence of symbolic length is verified at one generic iteration j: its body is run
on every path, and what it does is generalised to all iterations by one of these rules:
  * appends to lists become a segment "for all j in order: these elements" (map rule);
  * numeric variables incremented by an amount that does not depend on them become prefix sums;
  * array writes that touch only the row of the iteration become a definition by cases on the row;
  * exceptions become "some iteration raises" / "no iteration raises";
  * anything else needs a loop rule (invariant) supplied with the contract, or is unsupported.
"""
from __future__ import annotations

import copy as _copy

import numpy as np
import functools

import z3

from . import core
from .core import Sym, SBool, SInt, SReal, SStr, Unsupported, ctx, integer, is_conc_num, real, term, wrap, add, sub, mul, subst
from .arr import (Comp, I, Rad, Rag, Sub, SymArr, Store, asarr, comp_vars, conv, dim_fac, dim_key, dim_of, dim_size, dims_equal,
                  gen_index, lin, memo, mk_dim, quantified, split, stack_arrays, subst_dim, to_kind, idx_eq, in_range)


class Poison:
    """value of a variable that the loop body must not read before it assigns it"""

    def __init__(self, name):
        self._n = name

    def _bad(self, *a, **k):
        raise Unsupported(f"variable '{self._n}' is carried from one iteration to the next")

    __getattr__ = __add__ = __radd__ = __iadd__ = __sub__ = __mul__ = __getitem__ = __setitem__ = __call__ = __iter__ = __len__ = _bad
    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __or__ = __ior__ = __and__ = __iand__ = __neg__ = __contains__ = _bad

    def __hash__(self):
        return id(self)


UNBOUND = object()
BRK = object()


class Ret:
    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------- substitution in values
def subst_value(v, pairs):
    if not pairs or v is None or isinstance(v, (int, float, str, bool, np.ndarray, np.generic, type)):
        return v
    if isinstance(v, SInt):
        w = wrap(subst(v.t, pairs))
        if isinstance(w, SInt) and v.fac:
            w.fac = tuple(f if isinstance(f, int) else subst(f, pairs) for f in v.fac)
        return w
    if isinstance(v, Sym):
        return wrap(subst(v.t, pairs))
    if isinstance(v, SymArr):
        g = v.snap()
        dims = tuple(subst_dim(d, pairs) for d in v.dims)
        r = SymArr(dims, memo(lambda idx: subst(g(idx), pairs)), v.kind)
        if hasattr(v, "trusted_range"):
            r.trusted_range = subst_dim(v.trusted_range, pairs)
        return r
    if isinstance(v, PList):
        r = PList()
        if v.sym is None:
            list.extend(r, [subst_value(e, pairs) for e in list.__iter__(v)])
        else:
            r.sym = [subst_seg(s, pairs) for s in v.sym]
        return r
    if isinstance(v, tuple):
        return type(v)(subst_value(e, pairs) for e in v) if type(v) is tuple or hasattr(v, "_cmp") else v
    if isinstance(v, list):
        return [subst_value(e, pairs) for e in v]
    if isinstance(v, dict):
        r = type(v)()
        for k, e in dict.items(v):
            dict.__setitem__(r, k, subst_value(e, pairs))
        return r
    if hasattr(v, "_subst"):
        return v._subst(pairs)
    if isinstance(v, (set, frozenset)) or callable(v):
        return v
    if hasattr(v, "__dict__"):
        r = object.__new__(type(v))
        for k, e in v.__dict__.items():
            r.__dict__[k] = subst_value(e, pairs)
        return r
    return v


def subst_seg(s, pairs):
    if s[0] == "c":
        return ("c", [subst_value(e, pairs) for e in s[1]])
    if s[0] == "a":
        return ("a", subst_value(s[1], pairs))
    m = s[1]
    return ("m", Mapped(subst_dim(m.dim, pairs), m.gidx, [(subst(c, pairs), [subst_seg(x, pairs) for x in segs]) for c, segs in m.cases]))


class Mapped:
    """for every index of dim, in order: the elements of the case that holds"""

    def __init__(self, dim, gidx, cases):
        self.dim, self.gidx, self.cases = dim, gidx, cases

    def pairs(self, idx):
        if self.gidx is None:
            return []
        a, b = comp_vars(self.gidx), comp_vars(idx)
        return [(x, y if isinstance(y, z3.ExprRef) else I(y)) for x, y in zip(a, b) if not x.eq(y if isinstance(y, z3.ExprRef) else I(y)) and not z3.is_int_value(x)]

    def single(self):
        """the element of each index if there is exactly one, else None"""
        out = []
        for c, segs in self.cases:
            if len(segs) == 1 and segs[0][0] == "c" and len(segs[0][1]) == 1:
                out.append((c, segs[0][1][0]))
            else:
                return None
        return out

    def item(self, idx):
        s = self.single()
        if s is None:
            raise Unsupported("element of a sequence of varying chunks")
        p = self.pairs(idx)
        vals = [(subst(c, p), subst_value(v, p)) for c, v in s]
        return merge_values(vals)


def merge_values(vals):
    """value by cases"""
    if len(vals) == 1:
        return vals[0][1]
    live = []
    for c, v in vals:
        if z3.is_false(z3.simplify(c)):
            continue
        live.append((c, v))
    if len(live) == 1:
        return live[0][1]
    v0 = live[0][1]
    if all(v is v0 for _, v in live):
        return v0
    if all(isinstance(v, (Sym, str)) or is_conc_num(v) for _, v in live):
        r = live[-1][1]
        for c, v in reversed(live[:-1]):
            r = core.ite(c, v, r)
        return r
    if all(isinstance(v, tuple) and len(v) == len(v0) for _, v in live):
        return tuple(merge_values([(c, v[k]) for c, v in live]) for k in range(len(v0)))
    if all(isinstance(v, (SymArr, np.ndarray)) for _, v in live):
        arrs = [(c, asarr(v)) for c, v in live]
        from .arr import same_struct

        d0 = arrs[0][1].dims
        if all(len(a.dims) == len(d0) and all(same_struct(x, y) for x, y in zip(a.dims, d0)) for _, a in arrs):
            from .arr import join_kind

            kind = join_kind(*[a.kind for _, a in arrs])
            gs = [(c, a.snap()) for c, a in arrs]

            def get(idx):
                r = to_kind(gs[-1][1](idx), kind)
                for c, g in reversed(gs[:-1]):
                    r = z3.If(c, to_kind(g(idx), kind), r)
                return r

            return SymArr(d0, memo(get), kind)
    # decide on the current path
    for c, v in live[:-1]:
        if ctx().branch(c):
            return v
    ctx().assume(live[-1][0])
    return live[-1][1]


# ---------------------------------------------------------------- lists
class Growing:
    """What a loop knows of a list it appends to: its length and last element at the start of an iteration."""

    def __init__(self, L):
        self.L = L
        self.phys = L._phys()  # length before the loop, in which the iteration's own elements are counted
        self.len = None  # carried length
        self.last = None  # carried last element
        self.comps = []  # its components
        self.first = None  # last element before the loop


class PList(list):
    __slots__ = ("_sym", "born", "view")

    @property
    def sym(self):
        c = core.CTX
        if c is not None and c.depth > 0:
            if self.view is not None:
                raise Unsupported("a list is read while it grows")
            c.list_reads[id(self)] = self
        return self._sym

    @sym.setter
    def sym(self, v):
        self._sym = v

    def __init__(self, it=()):
        list.__init__(self)
        self._sym = None
        self.view = None
        self.born = stamp()
        segs = to_segs(it)
        self._add(segs, log=False)

    def _add(self, segs, log=True):
        if not segs:
            return
        if self._sym is None and all(s[0] == "c" for s in segs):
            n0 = list.__len__(self)
            for s in segs:
                list.extend(self, s[1])

            def undo():
                list.__delitem__(self, slice(n0, None))
        else:
            old = self._sym
            items = list(list.__iter__(self)) if old is None else None
            base = ([("c", items)] if items else []) if old is None else list(old)
            if old is None:
                list.clear(self)
            for s in segs:
                if s[0] == "c" and base and base[-1][0] == "c":
                    base[-1] = ("c", base[-1][1] + list(s[1]))
                else:
                    base.append(s)
            self._sym = base

            def undo():
                self._sym = old
                if items is not None:
                    list.clear(self)
                    list.extend(self, items)

        if log and core.CTX is not None:
            core.CTX.record("append", self, undo, segs=segs)

    # mutation
    def append(self, x):
        self._add([("c", [x])])

    def extend(self, it):
        self._add(to_segs(it))

    def __iadd__(self, it):
        self.extend(it)
        return self

    def _other(self, what):
        if core.CTX is not None and core.CTX.depth > 0:
            core.CTX.record("other", self, None, what=what)
            raise Unsupported(f"list {what} in a symbolic loop")
        if self.sym is not None:
            raise Unsupported(f"list {what} of a symbolic list")

    def __setitem__(self, k, v):
        if self.sym is not None:
            raise Unsupported("assignment to an element of a symbolic list")
        if core.CTX is not None:
            if isinstance(k, SInt):
                raise Unsupported("assignment at a symbolic position of a list")
            old = list(list.__iter__(self))

            def undo():
                list.clear(self)
                list.extend(self, old)

            core.CTX.record("setitem", self, undo, key=k, value=v)
        list.__setitem__(self, k, v)

    def insert(self, k, v):
        self._other("insert")
        list.insert(self, k, v)

    def pop(self, *a):
        self._other("pop")
        return list.pop(self, *a)

    def remove(self, v):
        self._other("remove")
        list.remove(self, v)

    def sort(self, **k):
        self._other("sort")
        list.sort(self, **k)

    def reverse(self):
        self._other("reverse")
        list.reverse(self)

    def clear(self):
        self._other("clear")
        list.clear(self)

    def __delitem__(self, k):
        self._other("del")
        list.__delitem__(self, k)

    # reading
    def _phys(self):
        if self._sym is None:
            return list.__len__(self)
        n = 0
        for s in self._sym:
            n = add(n, seg_len(s))
        return n

    def sym_len(self):
        if self.view is not None:
            return add(self.view.len, core.sub(self._phys(), self.view.phys))
        self.sym
        return self._phys()

    def __len__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n
        raise Unsupported("len of a symbolic list by native code")

    def __bool__(self):
        n = self.sym_len()
        return bool(n) if isinstance(n, int) else ctx().branch(integer(n) != 0)

    def __iter__(self):
        if self.sym is not None:
            raise Unsupported("native iteration over a symbolic list")
        return list.__iter__(self)

    def __getitem__(self, k):
        if self.view is not None and is_conc_num(k) and k == -1:
            if self._sym is None and isinstance(self.view.phys, int) and list.__len__(self) > self.view.phys:
                return list.__getitem__(self, -1)
            if self.view.last is None or self._sym is not None:
                raise Unsupported("last element of a growing list")
            self.view.used = True
            return self.view.last
        if self.sym is None:
            if isinstance(k, SInt):
                return index_concrete(list(list.__iter__(self)), k)
            if isinstance(k, slice):
                if any(isinstance(x, Sym) for x in (k.start, k.stop)):
                    raise Unsupported("symbolic slice of a list")
                return PList(list.__getitem__(self, k))
            return list.__getitem__(self, k)
        return sym_getitem(self, k)

    def __add__(self, o):
        r = PList()
        r._add(to_segs(self), log=False)
        r._add(to_segs(o), log=False)
        return r

    def __radd__(self, o):
        r = PList()
        r._add(to_segs(o), log=False)
        r._add(to_segs(self), log=False)
        return r

    def __mul__(self, n):
        return repeat_list(self, n)

    __rmul__ = __mul__

    def copy(self):
        return PList(self)

    def __eq__(self, o):
        if self.sym is not None:
            raise Unsupported("comparison of symbolic lists")
        r = True
        if not isinstance(o, list):
            return False
        if isinstance(o, PList) and o.sym is not None:
            raise Unsupported("comparison of symbolic lists")
        if list.__len__(self) != list.__len__(o):
            return False
        for a, b in zip(list.__iter__(self), list.__iter__(o)):
            e = a == b
            if not (e is True or bool(e)):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __contains__(self, x):
        if self.sym is not None:
            raise Unsupported("membership in a symbolic list")
        return list.__contains__(self, x)

    def index(self, v, *a):
        if self.sym is not None:
            raise Unsupported("index in a symbolic list")
        for k, x in enumerate(list.__iter__(self)):
            if bool(x == v):
                return k
        raise ValueError(f"{v!r} is not in list")


_clock = [0]


def stamp():
    _clock[0] += 1
    return _clock[0]


def index_concrete(items, k):
    vals = []
    n = len(items)
    if not ctx().branch(z3.And(k.t >= -n, k.t < n)):
        raise IndexError("list index out of range")
    t = z3.If(k.t < 0, k.t + n, k.t)
    return merge_values([(t == p, v) for p, v in enumerate(items)])


def seg_len(s):
    if s[0] == "c":
        return len(s[1])
    if s[0] == "a":
        return dim_size(s[1].dims[0])
    m = s[1]
    if m.gidx is None:
        ls = [(c, segs_len(x)) for c, x in m.cases]
        r = ls[-1][1]
        for c, n in reversed(ls[:-1]):
            r = core.ite(c, n, r) if not (is_conc_num(n) and is_conc_num(r) and n == r) else r
        return r
    lens = [segs_len(x) for _, x in m.cases]
    if all(is_conc_num(x) and x == lens[0] for x in lens):
        return mul(lens[0], dim_size(m.dim))
    if len(lens) == 1 and not any(core.mentions(term(lens[0]), v) for v in comp_vars(m.gidx)):
        return mul(lens[0], dim_size(m.dim))
    from .arr import opaque_size

    return dim_size(mapped_dim(m, lens)) if all(is_conc_num(x) and x in (0, 1) for x in lens) else opaque_size(Rag(m.dim, None, 1, ("len", id(m))))


def segs_len(segs):
    n = 0
    for s in segs:
        n = add(n, seg_len(s))
    return n


def is_symseq(x):
    return isinstance(x, PList) and x.sym is not None or isinstance(x, (Iter,)) and not isinstance(x, type)


def to_segs(it):
    if isinstance(it, PList):
        if it.sym is not None:
            return list(it.sym)
        items = list(list.__iter__(it))
        return [("c", items)] if items else []
    if isinstance(it, SymArr):
        if isinstance(it.dims[0], int) and it.dims[0] <= 64:
            return [("c", [it[k] for k in range(it.dims[0])])] if it.dims[0] else []
        return [("a", it.copy())]
    if isinstance(it, Iter):
        g = it.generic()
        return [("m", Mapped(it.dim, g, [(z3.BoolVal(True), [("c", [it.item(g)])])]))]
    items = list(it)
    return [("c", items)] if items else []


def arr_to_list(a):
    if a.ndim == 0:
        return a.as_scalar()
    d = a.dims[0]
    r = PList()
    if isinstance(d, int) and d <= 64:
        r._add([("c", [arr_to_list(a[k]) if a.ndim > 1 else a[k] for k in range(d)])] if d else [], log=False)
    else:
        r._add([("a", a.copy())], log=False)
    return r


def repeat_list(x, n):
    if is_conc_num(n):
        r = PList()
        for _ in range(int(n)):
            r._add(to_segs(x), log=False)
        return r
    g = ctx().fresh_const("rep", z3.IntSort())
    r = PList()
    r._add([("m", Mapped(dim_of(n), g, [(z3.BoolVal(True), to_segs(x))]))], log=False)
    return r


def sym_getitem(L, k):
    it = as_iter(L)
    if isinstance(k, slice):
        if it is None:
            raise Unsupported("slice of a list of several segments")
        return it.slice(k)
    if it is not None:
        from .index import norm_index

        return it.item(norm_index(k, it.dim))
    # several segments: concrete head or tail
    if is_conc_num(k):
        segs = L.sym
        if k >= 0:
            for s in segs:
                n = seg_len(s)
                if is_conc_num(n):
                    if k < n:
                        return s[1][k] if s[0] == "c" else s[1][k]
                    k -= n
                else:
                    break
        else:
            for s in reversed(segs):
                n = seg_len(s)
                if is_conc_num(n):
                    if -k <= n:
                        return s[1][k]
                    k += n
                else:
                    it = as_iter_seg(s)
                    if it is not None:
                        from .index import norm_index

                        return it.item(norm_index(k, it.dim))
                    break
    raise Unsupported("element of a list of several segments")


# ---------------------------------------------------------------- iterables
class Iter:
    """a sequence of symbolic length with random access"""

    _symbolic = True

    def __init__(self, dim, item, own=None, gidx=None):
        self.dim, self._item, self.own, self._g = dim, item, own or [], gidx

    def generic(self):
        if self._g is not None:
            return self._g
        return fresh_gidx(self.dim)

    def item(self, idx):
        return self._item(idx)

    def sym_len(self):
        return dim_size(self.dim)

    def __len__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n
        raise Unsupported("len of a symbolic sequence by native code")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic sequence")

    def slice(self, k):
        from .index import norm_slice

        start, step, ln = norm_slice(k, self.dim)
        od = dim_of(ln)
        return Iter(od, lambda idx: self.item(split(z3.simplify(start + step * lin(idx, od)), self.dim)))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.slice(k)
        from .index import norm_index

        return self.item(norm_index(k, self.dim))


def fresh_gidx(d, base="j"):
    """fresh generic index (no assumption)"""
    c = ctx()
    if isinstance(d, int) and d == 1:
        return I(0)
    if isinstance(d, Rad):
        return Comp([fresh_gidx(f, base) for f in d.f])
    if isinstance(d, Rag):
        o = fresh_gidx(d.n, base)
        return Comp([c.fresh_const(base, z3.IntSort()), o])
    if isinstance(d, Sub):
        return fresh_gidx(d.base, base)
    return c.fresh_const(base, z3.IntSort())


def range_cond(i, d):
    if isinstance(d, Rad):
        return z3.And(*[range_cond(x, f) for x, f in zip(i.i, d.f)])
    if isinstance(d, Rag):
        o = i.i[1]
        inner = subst_dim(d.inner, [(d.j, lin(o, d.n))])
        return z3.And(range_cond(o, d.n), range_cond(i.i[0], inner))
    if isinstance(d, Sub):
        return z3.And(range_cond(i, d.base), d.pred(i))
    t = lin(i, d)
    return z3.And(t >= 0, t < integer(dim_size(d)))


class SymRange(Iter):
    def __init__(self, start, n):
        d = dim_of(n)
        s = start
        Iter.__init__(self, d, lambda idx: wrap(lin(idx, d)) if is_conc_num(s) and s == 0 else add(s, wrap(lin(idx, d))))


def sym_range(*a):
    a = [x.as_scalar() if isinstance(x, SymArr) else x for x in a]
    if all(is_conc_num(x) for x in a):
        return range(*[int(x) for x in a])
    for x in a:
        if isinstance(x, SReal):
            raise TypeError("'float' object cannot be interpreted as an integer")
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if not (is_conc_num(step) and int(step) == 1):
        raise Unsupported("range with a step")
    n = stop if is_conc_num(start) and start == 0 else sub(stop, start)
    if not ctx().valid(integer(n) >= 0):
        if ctx().branch(integer(n) < 0):
            return range(0)
    return SymRange(start, n)


def as_iter_seg(s):
    if s[0] == "a":
        a = s[1]
        return Iter(a.dims[0], lambda idx: row(a, idx))
    if s[0] == "m":
        m = s[1]
        single = m.single()
        if single is not None and m.gidx is not None:
            own = []
            if len(single) == 1 and is_mutable(single[0][1]):
                return Iter(m.dim, lambda idx, v=single[0][1]: v if not m.pairs(idx) else subst_value(v, m.pairs(idx)), own=[single[0][1]], gidx=m.gidx)
            return Iter(m.dim, m.item)
        lens = [segs_len(x) for _, x in m.cases]
        if all(is_conc_num(x) and x in (0, 1) for x in lens):
            d = mapped_dim(m, lens)
            full = [(c, segs[0][1][0]) for (c, segs), n in zip(m.cases, lens) if n == 1]

            def item(idx):
                p = m.pairs(idx)
                return merge_values([(subst(c, p), subst_value(v, p)) for c, v in full])

            return Iter(d, item)
        # nested: a sequence of sequences flattened
        if len(m.cases) == 1 and len(m.cases[0][1]) == 1:
            inner = as_iter_seg(m.cases[0][1][0])
            if inner is not None and m.gidx is not None:
                return nested_iter(m, inner)
    if s[0] == "c":
        items = s[1]
        return Iter(len(items), lambda idx: index_term(items, idx))
    return None


def index_term(items, idx):
    t = z3.simplify(lin(idx, len(items)))
    if z3.is_int_value(t):
        return items[t.as_long()]
    return merge_values([(t == p, v) for p, v in enumerate(items)])


def nested_iter(m, inner):
    gv = comp_vars(m.gidx)
    dep = any(core.mentions(t, v) for t in _terms(inner.dim) for v in gv)
    if isinstance(inner.dim, Sub) or dep:
        if len(gv) != 1:
            raise Unsupported("nested ragged sequence")
        d = Rag(m.dim, gv[0], inner.dim, ("nest", dim_key(m.dim) if not isinstance(m.dim, Rag) else m.dim.key, repr(_key(inner.dim, gv[0]))))

        def item(idx):
            return subst_value(inner.item(idx.i[0]), [(gv[0], lin(idx.i[1], m.dim))])

        return Iter(d, item)
    d = mk_dim([*dim_fac(inner.dim), *dim_fac(m.dim)])
    ni = len(dim_fac(inner.dim))

    def item(idx):
        if isinstance(d, int):
            raise Unsupported("nested concrete sequence")
        cs = split(idx, d).i if isinstance(d, Rad) else (idx,)
        a, b = cs[:ni], cs[ni:]
        ii = I(0) if ni == 0 else a[0] if ni == 1 else Comp(a)
        oo = b[0] if len(b) == 1 else Comp(b)
        return subst_value(inner.item(ii), m.pairs(oo))

    return Iter(d, item)


def _key(d, v):
    return dim_key(subst_dim(d, [(v, z3.Int("canon!outer"))]))


def _terms(d):
    from .arr import _dim_terms

    return _dim_terms(d)


def is_mutable(v):
    return isinstance(v, (PList,)) or hasattr(v, "_mutable_model") or (hasattr(v, "__dict__") and type(v).__module__.startswith("pvgridder"))


def row(a, idx):
    from .index import Raw

    return a[(Raw(idx),)]


def as_iter(x):
    """Iter for a sequence of symbolic length, None for a concrete one"""
    if isinstance(x, Iter):
        return x
    if isinstance(x, SymArr):
        if x.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        if isinstance(x.dims[0], int) and x.dims[0] <= 64:
            return None
        return Iter(x.dims[0], lambda idx: row(x, idx))
    if isinstance(x, PList) and x.sym is not None:
        segs = [s for s in x.sym if not (s[0] == "c" and not s[1])]
        if len(segs) == 1:
            return as_iter_seg(segs[0])
        return None if False else _multi(x)
    if hasattr(x, "_as_iter"):
        return x._as_iter()
    return None


def _multi(x):
    return None


def sym_zip(*its, **k):
    its_ = [as_iter(x) for x in its]
    if all(i is None for i in its_) and not any(is_symseq(x) for x in its):
        return zip(*its)
    if not all(i is not None for i in its_):
        # lists of one concrete element before a mapped part, and the like
        raise Unsupported("zip of symbolic and concrete sequences")
    from .arr import same_struct

    d = its_[0].dim
    for i in its_[1:]:
        if not dims_equal(d, i.dim):
            raise Unsupported("zip of sequences of different length")
    own = [o for i in its_ for o in i.own]
    g = next((i._g for i in its_ if i._g is not None), None)
    return Iter(d, lambda idx: tuple(i.item(conv(idx, d, i.dim)) for i in its_), own=own, gidx=g)


def sym_enumerate(x, start=0):
    it = as_iter(x)
    if it is None:
        if isinstance(x, PList) and x.sym is not None:
            raise Unsupported("enumerate of a list of several segments")
        return enumerate(x, start)
    return Iter(it.dim, lambda idx: (add(start, pos(idx, it.dim)), it.item(idx)), own=it.own, gidx=it._g)


def pos(idx, d):
    """position (as a number) of an index"""
    if isinstance(d, Sub):
        c = ctx()
        key = ("rank", d.key, c.ckey(), tuple(x.get_id() for x in c.scope))
        if key not in c.cache:
            if c.scope:
                raise Unsupported("position in a filtered sequence inside a loop")
            from .npm import flat_index

            n = len(comp_vars(idx))
            c.cache[key] = z3.Function(f"rank!{c.counter}", *[z3.IntSort()] * n, z3.IntSort())
            c.counter += 1
        return SInt(c.cache[key](*comp_vars(idx)))
    if isinstance(d, Rag):
        raise Unsupported("position in a ragged sequence")
    t = lin(idx, d)
    if isinstance(d, Rad):
        return SInt(t)
    return wrap(t)


def mapped_dim(m, lens):
    """dimension of a sequence with at most one element per index"""
    if all(n == 1 for n in lens):
        return m.dim
    conds = [c for (c, _), n in zip(m.cases, lens) if n == 1]
    cond = z3.simplify(z3.Or(*conds)) if conds else z3.BoolVal(False)
    from .index import filter_dim

    gv = comp_vars(m.gidx)
    mask = SymArr((m.dim,), lambda idx: subst(cond, m.pairs(idx[0])), "b")
    if isinstance(m.dim, int):
        raise Unsupported("filter of a concrete sequence")
    return filter_dim(m.dim, mask)


# ---------------------------------------------------------------- sequences to arrays
def piece_of(segs, splice):
    """one array for a list of segments (elements, or arrays to be joined if splice)"""
    from . import npm

    parts = []
    for s in segs:
        if s[0] == "c":
            if not s[1]:
                continue
            if splice:
                parts += [asarr(e) for e in s[1]]
            else:
                parts.append(asarr(list(s[1])))
        elif s[0] == "a":
            if splice:
                a = s[1]
                if a.ndim < 2:
                    raise ValueError("zero-dimensional arrays cannot be concatenated")
                dims = (mk_dim([*dim_fac(a.dims[1]), *dim_fac(a.dims[0])]),) + a.dims[2:]
                parts.append(a.reshape((-1, *[dim_size(x) for x in a.dims[2:]])))
            else:
                parts.append(s[1])
        else:
            parts.append(mapped_arr(s[1], splice))
    if not parts:
        return None
    if len(parts) == 1:
        return parts[0]
    r = npm.concatenate(parts, 0)
    return r


def mapped_arr(m, splice):
    pieces = [(c, piece_of(segs, splice)) for c, segs in m.cases]
    some = [(c, p) for c, p in pieces if p is not None]
    if not some:
        return asarr(np.zeros(0))
    kinds = [p.kind for _, p in some]
    from .arr import join_kind, same_struct

    kind = join_kind(*kinds)
    rest = some[0][1].dims[1:]
    for _, p in some[1:]:
        if len(p.dims) != len(rest) + 1 or not all(dims_equal(a, b) for a, b in zip(p.dims[1:], rest)):
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    if m.gidx is None:
        return merge_values(pieces)
    gv = comp_vars(m.gidx)
    inner = some[0][1].dims[0]
    uniform = len(some) == len(pieces) and all(same_struct(p.dims[0], inner) for _, p in some)
    dep = any(core.mentions(t, v) for t in _terms(inner) for v in gv)
    gs = [(c, p.snap(), p.dims) for c, p in some]

    def value(ii, rest_idx, pairs):
        out = None
        for c, g, dims in reversed(gs):
            i0 = ii if same_struct(dims[0], inner) else conv(ii, inner, dims[0]) if uniform else ii
            v = subst(to_kind(g((i0,) + tuple(rest_idx)), kind), pairs)
            out = v if out is None else z3.If(subst(c, pairs), v, out)
        return out

    if uniform and not dep:
        d = mk_dim([*dim_fac(inner), *dim_fac(m.dim)])
        ni = len(dim_fac(inner))
        no = len(dim_fac(m.dim))

        def get(idx):
            if isinstance(d, int):
                t = lin(idx[0], d)
                ii = t % inner if isinstance(inner, int) and inner > 1 and no else (t if ni else I(0))
                oo = (t / inner if isinstance(inner, int) and inner > 1 else t) if no else I(0)
            else:
                cs = split(idx[0], d).i if isinstance(d, Rad) else (idx[0],)
                a, b = cs[:ni], cs[ni:]
                ii = I(0) if ni == 0 else a[0] if ni == 1 else Comp(a)
                oo = I(0) if not b else b[0] if len(b) == 1 else Comp(b)
            return value(ii, idx[1:], m.pairs(oo))

        return SymArr((d,) + tuple(rest), memo(get), kind)
    lens = [1 if (p is not None and isinstance(p.dims[0], int) and p.dims[0] == 1) else 0 if p is None or p.dims[0] == 0 else 2 for _, p in pieces]
    if all(n in (0, 1) for n in lens):
        d = mapped_dim(m, lens)
        return SymArr((d,) + tuple(rest), memo(lambda idx: value(I(0), idx[1:], m.pairs(idx[0]))), kind)
    # ragged: size by cases
    if len(gv) != 1:
        raise Unsupported("ragged sequence over a composite index")
    size = dim_size(pieces[-1][1].dims[0]) if pieces[-1][1] is not None else 0
    for c, p in reversed(pieces[:-1]):
        size = core.ite(c, dim_size(p.dims[0]) if p is not None else 0, size)
    ind = dim_of(size)
    if isinstance(ind, Rad):
        ind = term(size)
    key = ("rag", dim_key(m.dim) if not isinstance(m.dim, (Rag, Sub)) else m.dim.key, z3.simplify(subst(integer(size), [(gv[0], z3.Int("canon!outer"))])).sexpr())
    d = Rag(m.dim, gv[0], ind, key)

    def get(idx):
        i = idx[0]
        pairs = m.pairs(i.i[1])
        out = None
        for c, g, dims in reversed(gs):
            ii = split(lin(i.i[0], ind), subst_dim(dims[0], pairs)) if isinstance(dims[0], Rad) else i.i[0]
            v = subst(to_kind(g((ii,) + tuple(idx[1:])), kind), pairs)
            out = v if out is None else z3.If(subst(c, pairs), v, out)
        return out

    return SymArr((d,) + tuple(rest), memo(get), kind)


def seq_to_arr(x):
    if isinstance(x, Iter):
        x = PList(x)
    p = piece_of(x.sym, False)
    return p if p is not None else asarr(np.zeros(0))


def seq_concat(x, axis, two_d=False):
    if isinstance(x, Iter):
        x = PList(x)
    if axis not in (0, None):
        raise Unsupported("concatenation of a symbolic list along another axis")
    segs = x.sym
    if two_d:
        segs = [map_seg(s, lambda v: asarr(v) if asarr(v).ndim > 1 else _expand0(asarr(v))) for s in segs]
    p = piece_of(segs, True)
    if p is None:
        raise ValueError("need at least one array to concatenate")
    return p


def _expand0(a):
    from .arr import expand

    return expand(a, 0)


def map_seg(s, f):
    if s[0] == "c":
        return ("c", [f(v) for v in s[1]])
    if s[0] == "a":
        a = s[1]
        if a.ndim == 2:
            return ("a", _insert1(a))
        raise Unsupported("rows of an array")
    m = s[1]
    return ("m", Mapped(m.dim, m.gidx, [(c, [map_seg(x, f) for x in segs]) for c, segs in m.cases]))


def _insert1(a):
    from .arr import expand

    return expand(a, 1)


def seq_columns(x):
    """column_stack of a symbolic list of 1-D arrays"""
    it = as_iter(x)
    if it is None:
        raise Unsupported("column_stack of several segments")
    g = it.generic()
    c = ctx()
    a = asarr(it.item(g))
    if a.ndim != 1:
        raise Unsupported("column_stack of matrices")
    gv = comp_vars(g)
    if any(core.mentions(t, v) for t in _terms(a.dims[0]) for v in gv):
        raise Unsupported("columns of varying length")
    get0 = a.snap()

    def pairs(i):
        return [(p, q) for p, q in zip(gv, comp_vars(i)) if not z3.is_int_value(p)]

    return SymArr((a.dims[0], it.dim), memo(lambda idx: subst(get0((idx[0],)), pairs(idx[1]))), a.kind)


# ---------------------------------------------------------------- comprehensions
def unpack(v, pat):
    """values of the names of a target pattern"""
    if pat is None:
        return [v]
    out = []
    if isinstance(v, SymArr):
        vals = [v[k] for k in range(len(v))]
    elif isinstance(v, PList) and v.sym is not None:
        raise Unsupported("unpacking of a symbolic list")
    else:
        vals = list(v)
    if len(vals) != len(pat):
        raise ValueError("not enough values to unpack" if len(vals) < len(pat) else "too many values to unpack")
    for x, p in zip(vals, pat):
        out += unpack(x, p)
    return out


def comp(kind, iterable, pat, fn):
    """fn(*names) gives the list of elements for one item"""
    it = as_iter(iterable) if core.CTX is not None else None
    if it is None:
        if isinstance(iterable, PList) and iterable.sym is not None:
            out = PList()
            for s in iterable.sym:
                sub_ = PList()
                sub_._add([s], log=False)
                out._add(to_segs(comp("list", sub_, pat, fn) if s[0] != "c" else comp("list", list(s[1]), pat, fn)), log=False)
        else:
            out = PList()
            for x in iterable:
                out._add(to_segs(fn(*unpack(x, pat))), log=False)
        return finish(kind, out)
    c = ctx()
    g = it.generic()
    gv = [v for v in comp_vars(g) if not z3.is_int_value(v)]
    rc = range_cond(g, it.dim)

    def body():
        c.assume(rc)
        return fn(*unpack(it.item(g), pat))

    n0 = len(c.scope)
    c.scope.extend(v for v in gv if not any(v.eq(s) for s in c.scope))
    try:
        res = c.sub_explore(body)
    finally:
        del c.scope[n0:]
    cases = []
    for cond, (what, val), eff in res:
        if what == "exc":
            raise_if_some(it, g, cond, val)
            continue
        if [e for e in eff if e[0] in ("append", "store", "setitem", "attr", "dict") and getattr(e[1], "born", 0) < 0]:
            raise Unsupported("comprehension with side effects")
        cases.append((strip(cond, rc), to_segs(val)))
    if not cases:
        return finish(kind, PList())
    out = PList()
    out._add([("m", Mapped(it.dim, g, cases))], log=False)
    return finish(kind, out)


def strip(cond, rc):
    """the branch condition without the range of the generic index"""
    parts = [x for x in (cond.children() if z3.is_and(cond) else [cond])]
    rcs = rc.children() if z3.is_and(rc) else [rc]
    s = z3.simplify(rc)
    keep = [p for p in parts if not p.eq(rc) and not p.eq(s) and not any(p.eq(r) for r in rcs)]
    return z3.And(*keep) if len(keep) > 1 else keep[0] if keep else z3.BoolVal(True)


def raise_if_some(it, g, cond, exc):
    some = exists_index(it.dim, g, cond)
    if ctx().branch(some):
        raise exc


def exists_index(d, g, cond):
    gv = comp_vars(g)

    def body(idx):
        pr = [(x, y) for x, y in zip(gv, comp_vars(idx[0])) if not z3.is_int_value(x)]
        return subst(cond, pr)

    if isinstance(d, int) and d == 1:
        return cond
    return quantified([d], body, False)


def finish(kind, out):
    if kind == "list":
        return out
    if kind in ("gen", "chunk"):
        return out
    if kind == "set":
        if out.sym is not None:
            return SymSet(out)
        return set(list.__iter__(out))
    if kind == "dict":
        if out.sym is not None:
            from .dicts import mapped_dict

            return mapped_dict(out)
        from .dicts import PDict

        d = PDict()
        for k, v in list.__iter__(out):
            dict.__setitem__(d, k, v)
        return d
    raise Unsupported(kind)


class SymSet:
    """the set of the elements of a symbolic sequence"""

    _symbolic = True

    def __init__(self, seq):
        self.seq = seq

    def few(self):
        """the elements in order, if there are but a few integers"""
        a = asarr(self.seq)
        if a.ndim != 1 or not isinstance(a.dims[0], int) or not 1 <= a.dims[0] <= 4 or a.kind != "i":
            return None
        out = []
        for q in range(a.dims[0]):
            v = a[q]
            if not any(bool(core.eq(v, u)) for u in out):
                out.append(v)
        for i in range(len(out)):
            for j in range(len(out) - 1 - i):
                u, v = out[j], out[j + 1]
                c = core.le(u, v)
                out[j], out[j + 1] = core.ite(c, u, v), core.ite(c, v, u)
        return out

    def contains(self, x):
        a = asarr(self.seq)
        return wrap(quantified(list(a.dims), lambda q: core.term(core.eq(wrap(a.at(tuple(q))), x)), False))

    def difference(self, other):
        if isinstance(other, (set, frozenset)):
            return SymSetDiff(self, other)
        raise Unsupported("set difference")

    def __sub__(self, other):
        return self.difference(other)

    def _as_iter(self):
        # order and multiplicity are not meaningful; loops over sets must not depend on them
        return as_iter(self.seq)


class SymSetDiff:
    _symbolic = True

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __bool__(self):
        arr = asarr(self.a.seq)
        b = list(self.b)

        def body(q):
            t = arr.at(tuple(q))
            return z3.And(*[z3.Not(core.boolean(core.eq(wrap(t), x))) for x in b])

        return ctx().branch(quantified(list(arr.dims), body, False))

    def __iter__(self):
        # some element outside the other set: used for messages only
        from pyvista import CellType

        return iter([CellType.EMPTY_CELL])


# ---------------------------------------------------------------- loops
def run_for(site, iterable, body, get, set_, names):
    """the for statement; returns None, BRK or Ret"""
    it = as_iter(iterable) if core.CTX is not None else None
    if it is None:
        if isinstance(iterable, PList) and iterable.sym is not None:
            for s in iterable.sym:
                sub_ = PList()
                sub_._add([s], log=False)
                r = run_for(site, sub_ if s[0] != "c" else list(s[1]), body, get, set_, names)
                if r is not None:
                    return r
            return None
        for x in (iterable if not isinstance(iterable, PList) else list(list.__iter__(iterable))):
            r = body(x)
            if r is BRK or isinstance(r, Ret):
                return r
        return None
    c = ctx()
    rule = c.env.loop_rule(site, it) if c.env is not None else None
    if rule is not None:
        return rule(site, it, body, get, set_, names)
    return map_loop(site, it, body, get, set_, names)


def numeric(v):
    return isinstance(v, (SInt, SReal)) or is_conc_num(v) and not isinstance(v, bool)


def grow(c, L):
    """view of a list that a loop both reads and appends to"""
    if L.view is not None:
        raise Unsupported("nested loops that read a growing list")
    g = Growing(L)
    g.len = SInt(c.fresh_const("len", z3.IntSort()))
    g.used = False
    if L._sym is None and list.__len__(L):
        first = g.first = list.__getitem__(L, -1)
        if numeric(first):
            g.comps = [(c.fresh_const("last", z3.RealSort()), real(first))]
            g.last = SReal(g.comps[0][0])
        elif isinstance(first, SymArr) and first.ndim == 1 and isinstance(first.dims[0], int) and first.kind in "fi":
            f = first.snap()
            g.comps = [(c.fresh_const("last", z3.RealSort()), real(f((I(k),)))) for k in range(first.dims[0])]
            g.last = seq_to_arr_of([SReal(t) for t, _ in g.comps])
    return g


def seq_to_arr_of(xs):
    from .arr import asarr

    return asarr(xs)


def generic_runs(site, it, body, get, set_, names, track=None, grown=()):
    """all paths of the body at a generic iteration"""
    c = ctx()
    g = it.generic()
    gv = [v for v in comp_vars(g) if not z3.is_int_value(v)]
    rc = range_cond(g, it.dim)
    state0 = get()
    carried = {}
    start = {}
    for n in names:
        v = state0.get(n, UNBOUND)
        if v is UNBOUND:
            start[n] = UNBOUND
        elif numeric(v):
            sort = z3.IntSort() if kind_int(v) else z3.RealSort()
            X = c.fresh_const(f"x_{n}", sort)
            carried[n] = X
            start[n] = SInt(X) if kind_int(v) else SReal(X)
        elif isinstance(v, PList):
            start[n] = v  # may grow, not be replaced
        else:
            start[n] = Poison(n)

    def once():
        c.assume(rc)
        set_(start)
        if track:
            for st in track:
                st.reads = []
        r = body(it.item(g))
        st = get()
        if views:
            st = dict(st)
            for v in views:
                st[("len", id(v.L))] = v.L.sym_len()
                if v.last is not None:
                    st[("last", id(v.L))] = v.L[-1]
        return r, st, [list(x.reads) for x in track] if track else []

    n0 = len(c.scope)
    c.scope.extend(v for v in gv if not any(v.eq(s) for s in c.scope))
    views = [grow(c, L) for L in grown]
    for v in views:
        carried[("len", id(v.L))] = v.len.t
        state0 = dict(state0)
        state0[("len", id(v.L))] = v.phys
        c.scope.extend(t for t, _ in v.comps)
    c.scope.extend(carried.values())
    clock0 = _clock[0]
    try:
        for v in views:
            v.L.view = v
        res = c.sub_explore(once)
    finally:
        for v in views:
            v.L.view = None
        del c.scope[n0:]
        set_({k: v for k, v in state0.items() if isinstance(k, str)})
        if track:
            for st in track:
                st.reads = None
    return g, rc, state0, carried, start, res, clock0, views


def kind_int(v):
    return isinstance(v, (SInt, int, np.integer))


def effect_targets(res, clock0):
    objs = {}
    for _, _, eff in res:
        for e in eff:
            if getattr(e[1], "born", None) is not None and e[1].born > clock0:
                continue
            objs.setdefault(id(e[1]), (e[0], e[1]))
    return objs


def name_cond(cond, gv, carried):
    """a symbol for a large condition on the iteration, with its definition"""
    c = ctx()
    if c.scope or not gv or term_size(cond, 80) < 80 or any(core.mentions(cond, X) for X in carried):
        return cond
    B = c.fresh_fun("case", [z3.IntSort()] * len(gv), z3.BoolSort())
    here = B(*gv)
    c.cases[here.decl().name()] = (list(gv), cond)
    c.fact(z3.ForAll(gv, here == cond, patterns=[here]))
    return here


def term_size(t, limit):
    seen, stack = set(), [t]
    while stack and len(seen) < limit:
        e = stack.pop()
        if e.get_id() not in seen:
            seen.add(e.get_id())
            stack.extend(e.children())
    return len(seen)


def map_loop(site, it, body, get, set_, names):
    c = ctx()
    outer, c.list_reads = c.list_reads, {}
    try:
        g, rc, state0, carried, start, res, clock0, views = generic_runs(site, it, body, get, set_, names)
        read = dict(c.list_reads)
    finally:
        outer.update(c.list_reads)
        c.list_reads = outer
    stores = [o for k, o in effect_targets(res, clock0).values() if k == "store"]
    grown = [o for k, o in effect_targets(res, clock0).values() if k == "append" and isinstance(o, PList) and id(o) in read and not any(o is w for w in it.own)]
    if stores or grown:
        # run again, recording which elements of the written arrays are read, and with the lists as they are in any iteration
        g, rc, state0, carried, start, res, clock0, views = generic_runs(site, it, body, get, set_, names, track=stores, grown=grown)
    gv = [v for v in comp_vars(g) if not z3.is_int_value(v)]
    ok = []
    for cond, (what, val), eff in res:
        cond = strip(cond, rc)
        if what == "exc":
            if any(core.mentions(cond, X) for X in carried.values()):
                raise Unsupported("exception depending on a carried variable")
            raise_if_some(it, g, cond, val)
            continue
        r, st, rd = val
        if r is BRK or isinstance(r, Ret):
            if isinstance(it.dim, int) and it.dim == 1:
                raise Unsupported("break in a loop of one iteration")
            if c.branch(exists_index(it.dim, g, cond)):
                raise Unsupported("break or return in a symbolic loop")
            continue
        for n, v in start.items():
            if isinstance(v, PList) and st.get(n, UNBOUND) is not v:
                raise Unsupported(f"list '{n}' is replaced in the loop")
        ok.append((cond, st, eff, rd))
    if not ok:
        # every iteration raises or there is none
        return None
    if len(ok) > 1:
        ok = [(name_cond(cond, gv, carried.values()), *rest) for cond, *rest in ok]
    # -- carried numbers
    pairs = []
    final = {}
    for n, X in carried.items():
        news = [(cond, st.get(n, UNBOUND)) for cond, st, _, _ in ok]
        assigned = any(v is UNBOUND or not (isinstance(v, Sym) and v.t.eq(X)) for _, v in news)
        if not assigned:
            pairs.append((X, term(state0[n])))
            final[n] = state0[n]
            continue
        if all(numeric(v) and not core.mentions(term(v), X) for _, v in news):
            # overwritten in every iteration: last value, if any iteration
            final[n] = ("last", n)
            if any(mentions_any(x, X) for x in ok):
                raise Unsupported(f"variable '{n}' is read before it is overwritten")
            continue
        deltas = []
        for cond, v in news:
            if not numeric(v):
                raise Unsupported(f"variable '{n}' changes type in the loop")
            vt = real_like(v, X)
            d = z3.simplify(vt - X, som=True)
            if core.mentions(d, X) or core.mentions(cond, X):
                raise Unsupported(f"variable '{n}' is carried in an unknown way")
            deltas.append((cond, d))
        dt = deltas[-1][1]
        for cond, d in reversed(deltas[:-1]):
            dt = d if d.eq(dt) else z3.If(cond, d, dt)
        x0 = real_like(state0[n], X)
        if not any(core.mentions(dt, v) for v in gv) and not any(core.mentions(dt, Y) for Y in carried.values()):
            j = lin(g, it.dim)
            j = z3.ToReal(j) if dt.sort() == z3.RealSort() else j
            pairs.append((X, x0 + dt * j))
            tot = integer(dim_size(it.dim))
            tot = z3.ToReal(tot) if dt.sort() == z3.RealSort() else tot
            final[n] = wrap_product(x0, dt, dim_size(it.dim))
        else:
            if any(core.mentions(dt, Y) for Y in carried.values()):
                raise Unsupported("coupled carried variables")
            if isinstance(it.dim, (Rag, Sub)) or c.scope:
                raise Unsupported("prefix sum inside a loop or over a ragged dimension")
            ps = c.fresh_fun(f"prefix_{n}", [z3.IntSort()], X.sort())
            v = z3.Int("ps!b")
            dj = lambda t: subst(dt, [(a, b) for a, b in zip(gv, comp_vars(split(t, it.dim)))])
            N = integer(dim_size(it.dim))
            zero = z3.IntVal(0) if X.sort() == z3.IntSort() else z3.RealVal(0)
            c.fact(ps(I(0)) == zero)
            c.fact(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < N), ps(v + 1) == ps(v) + dj(v)), patterns=[ps(v + 1)]))
            if hasattr(c, "prefix"):
                c.prefix.append((n, ps, it))
            else:
                c.prefix = [(n, ps, it)]
            pairs.append((X, x0 + ps(lin(g, it.dim))))
            final[n] = wrap(x0 + ps(N))
    for v in views:
        if not v.used:
            continue
        # the last element: a sequence defined by recursion
        if isinstance(it.dim, (Rag, Sub)) or c.scope:
            raise Unsupported("recursive sequence inside a loop or over a ragged dimension")
        m = len(v.comps)
        P = [c.fresh_fun("scan", [z3.IntSort()], z3.RealSort()) for _ in range(m)]
        news = []
        for cond, st, _, _ in ok:
            x = st[("last", id(v.L))]
            if isinstance(v.last, SymArr):
                if not (isinstance(x, SymArr) and x.ndim == 1 and isinstance(x.dims[0], int) and x.dims[0] == m):
                    raise Unsupported("elements of a growing list change shape")
                xg = x.snap()
                news.append((cond, [real(xg((I(k),))) for k in range(m)]))
            else:
                news.append((cond, [real(x)]))
        t = z3.Int("scan!j")
        N = integer(dim_size(it.dim))
        here = list(zip(gv, comp_vars(split(t, it.dim)))) + [(y, P[k](t)) for k, (y, _) in enumerate(v.comps)]
        for k in range(m):
            e = news[-1][1][k]
            for cond, xs in reversed(news[:-1]):
                e = z3.If(cond, xs[k], e)
            c.fact(P[k](I(0)) == v.comps[k][1])
            law = z3.Implies(z3.And(t >= 0, t < N), P[k](t + 1) == subst(subst(e, pairs) if pairs else e, here))
            c.fact(z3.ForAll([t], law, patterns=[P[k](t + 1)]))
            c.scans[P[k].name()] = lambda i, law=law, t=t: z3.substitute(law, (t, i))
            pairs.append((v.comps[k][0], P[k](lin(g, it.dim))))
    sub_ = lambda t: subst(t, pairs) if pairs else t
    # -- effects, object by object
    objs = {}
    for cond, st, eff, rd in ok:
        for e in eff:
            if getattr(e[1], "born", None) is not None and e[1].born > clock0:
                continue
            if e[0] == "new":
                continue
            objs.setdefault(id(e[1]), e[1])
    for obj in objs.values():
        kinds = {e[0] for _, _, eff, _ in ok for e in eff if e[1] is obj}
        if isinstance(obj, PList) and kinds == {"append"}:
            cases = []
            for cond, st, eff, rd in ok:
                segs = [subst_seg(s, pairs) for e in eff if e[1] is obj for s in e[3]["segs"]]
                cases.append((sub_(cond), segs))
            if any(obj is o for o in it.own):
                if len(cases) == 1:
                    obj._add(cases[0][1])
                else:
                    obj._add([("m", Mapped(1, None, cases))])
            else:
                obj._add([("m", Mapped(it.dim, g, cases))])
        elif isinstance(obj, Store) and kinds == {"store"}:
            if isinstance(obj.get, type(None)):
                raise Unsupported("store")
            row_writes(obj, it, g, rc, ok, pairs, stores)
        elif hasattr(obj, "_loop_effect"):
            obj._loop_effect(it, g, [(sub_(cond), [(e[0], {k: subst_value(v, pairs) if k != "undo" else v for k, v in e[3].items()}) for e in eff if e[1] is obj]) for cond, st, eff, rd in ok])
        else:
            raise Unsupported(f"loop effect {sorted(kinds)} on {type(obj).__name__}")
    # -- variables after the loop
    state = {k: v for k, v in state0.items() if isinstance(k, str)}
    nsize = dim_size(it.dim)
    for n in names:
        if n in final and not isinstance(final[n], tuple):
            state[n] = final[n]
            continue
        same = all(st.get(n, UNBOUND) is start[n] for _, st, _, _ in ok)
        if same:
            state[n] = state0.get(n, UNBOUND)
            continue
        state[n] = LastValue.make(n, it, g, ok, pairs, state0.get(n, UNBOUND))
    set_(state)
    return None


def wrap_product(x0, dt, n):
    d = wrap(dt)
    r = mul(d, n) if not (is_conc_num(d) and d == 1) else n
    x = wrap(x0)
    return add(x, r) if not (is_conc_num(x) and x == 0) else r


def real_like(v, X):
    t = term(v)
    if X.sort() == z3.RealSort():
        return core.real(t)
    if z3.is_real(t):
        raise Unsupported("integer variable becomes real in the loop")
    return integer(t)


def mentions_any(path, X):
    cond, st, eff, rd = path
    if core.mentions(cond, X):
        return True
    for e in eff:
        for v in e[3].values():
            if value_mentions(v, X):
                return True
    return False


def value_mentions(v, X, depth=0):
    if isinstance(v, Sym):
        return core.mentions(v.t, X)
    if isinstance(v, SymArr):
        return True if depth > 5 else any(core.mentions(t, X) for d in v.dims for t in _terms(d)) or core.mentions(v.at(tuple(probe(d) for d in v.dims)), X)
    if isinstance(v, (list, tuple)) and not (isinstance(v, PList) and v.sym is not None):
        return any(value_mentions(e, X, depth + 1) for e in (list.__iter__(v) if isinstance(v, PList) else v) if not isinstance(e, str))
    return False


def probe(d):
    from .arr import canonical_index

    if isinstance(d, Rag):
        return Comp([z3.Int("probe!0"), canonical_index(d.n, "probe")])
    if isinstance(d, Sub):
        return probe(d.base)
    if isinstance(d, int):
        return I(0)
    return canonical_index(d, "probe")


class LastValue(Poison):
    """value a variable has after a symbolic loop: that of the last iteration, if it is needed"""

    @staticmethod
    def make(n, it, g, ok, pairs, before):
        try:
            vals = [(cond, st.get(n, UNBOUND)) for cond, st, _, _ in ok]
            if all(numeric(v) or isinstance(v, (SBool, bool)) for _, v in vals) and (before is UNBOUND or numeric(before)):
                last = lin_last_index(it.dim)
                gv = comp_vars(g)
                pr = [(a, b) for a, b in zip(gv, comp_vars(last)) if not z3.is_int_value(a)]
                v = merge_values([(subst(subst(c, pairs), pr), subst_value(subst_value(x, pairs), pr)) for c, x in vals])
                if before is UNBOUND:
                    return v if ctx().valid(integer(dim_size(it.dim)) > 0) else Poison(n)
                return core.ite(integer(dim_size(it.dim)) > 0, v, before)
        except Unsupported:
            pass
        return Poison(n)


def lin_last_index(d):
    if isinstance(d, int):
        return I(d - 1)
    if isinstance(d, Rad):
        return Comp([lin_last_index(f) for f in d.f])
    if isinstance(d, (Rag, Sub)):
        raise Unsupported("last of a ragged dimension")
    return d - 1


def row_writes(store, it, g, rc, ok, pairs, stores):
    """every iteration writes only row g of the array"""
    c = ctx()
    old = store.get
    d = it.dim
    probe_idx = None
    # number of dimensions is found from the recorded writes
    arr = getattr(store, "arr_dims", None)
    k = stores.index(store) if store in stores else None
    for cond, st, eff, rd in ok:
        if k is not None:
            for b in rd[k]:
                first = b[0]
                if not rows_equal(first, g):
                    raise Unsupported("loop reads other elements of an array it writes")
    news = []
    for cond, st, eff, rd in ok:
        ws = [e[3]["new"] for e in eff if e[1] is store]
        news.append((cond, ws[-1] if ws else old))
    gv = comp_vars(g)

    def check(b):
        # writes outside the row are not allowed; verified at the element asked for
        for cond, new in news:
            if new is old:
                continue
            t_new, t_old = new(b), old(b)
            diff = z3.And(rc, cond, z3.Not(row_eq(b[0], g)), t_new != t_old)
            r, _ = c.solve([subst(diff, pairs)], c.branch_ms)
            if r != z3.unsat:
                raise Unsupported("loop writes outside the row of the iteration")

    checked = [False]

    def final(b):
        if not checked[0]:
            gb = tuple(Comp([c.fresh_const("wb", z3.IntSort()) for _ in x.i]) if isinstance(x, Comp) else c.fresh_const("wb", z3.IntSort()) for x in b)
            check(gb)
            checked[0] = True
        bv = comp_vars(b[0])
        pr = [(x, y) for x, y in zip(gv, bv) if not z3.is_int_value(x)]
        out = old(b)
        for cond, new in reversed(news):
            if new is old:
                continue
            cc = subst(subst(z3.And(rc, cond), pairs), pr)
            v = subst(subst(new(b), pairs), pr)
            out = z3.If(cc, v, out)
        return out

    store.set(memo(final))


def rows_equal(a, g):
    x, y = comp_vars(a), comp_vars(g)
    return len(x) == len(y) and all((p.eq(q) if isinstance(p, z3.ExprRef) else False) or ctx_equal(p, q) for p, q in zip(x, y))


def ctx_equal(p, q):
    return z3.simplify(p - q).eq(I(0))


def row_eq(a, g):
    return z3.And(*[p == q for p, q in zip(comp_vars(a), comp_vars(g))])


def recursive(site):
    """a recursive function: the calls of itself use the contract of the task, if it has one"""

    def deco(f):
        active = []

        @functools.wraps(f)
        def g(*a, **k):
            c = core.CTX
            rule = getattr(c.env, "recursion", None) if c is not None else None
            if rule is None:
                return f(*a, **k)
            if active:
                return rule.call(active[0], a, k)
            if rule.modular:
                return rule.by_contract(a, k)
            active.append(rule.enter(a, k))
            try:
                r = f(*a, **k)
                return rule.leave(active[0], r)
            finally:
                active.clear()

        return g

    return deco


def run_while(site, cond, body, get, set_, names):
    n = 0
    rule = getattr(core.CTX.env, "while_rule", None) if core.CTX is not None else None
    if rule is not None:
        return rule(site, cond, body, get, set_, names)
    while True:
        r = cond()
        if not r:
            return None
        x = body()
        if x is BRK:
            return BRK
        if isinstance(x, Ret):
            return x
        n += 1
        if n > 64:
            raise Unsupported("long while loop")
