"""Symbolic arrays: a shape of symbolic sizes and a function from index to element.

A dimension is a Python int, a z3 integer term, or a product of sizes (Rad, fastest first) whose
index is the tuple of the component indices (Comp), so that reshaping needs no arithmetic on
products.  Views created by basic indexing write through to their base, like numpy's.
"""
from __future__ import annotations

import zlib

import z3
import numpy as np

from . import core
from .core import (SBool, SInt, SReal, SStr, Sym, Unsupported, add, boolean, cancel, conc, ctx, div, eq, fac_eq,
                   factors_of, from_factors, integer, is_conc_num, ite, le, lt, mul, ne, prod_term, real, sub, term, wrap)

I = z3.IntVal


# ---------------------------------------------------------------- dimensions and indices
class Rad:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return "Rad" + repr(self.f)


class Rag:
    """Concatenation over i < n of pieces whose size depends on i: index (inner, i)."""

    __slots__ = ("n", "j", "inner", "key")

    def __init__(self, n, j, inner, key):
        self.n, self.j, self.inner, self.key = n, j, inner, key

    def __repr__(self):
        return f"Rag({self.n},{self.inner})"


class Sub:
    """The indices of a dimension that satisfy a predicate, in order."""

    __slots__ = ("base", "pred", "key", "count")

    def __init__(self, base, pred, key, count):
        self.base, self.pred, self.key, self.count = base, pred, key, count

    def __repr__(self):
        return f"Sub({self.base})"


class Comp:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = tuple(i)

    def __repr__(self):
        return "Comp" + repr(self.i)


def mk_dim(fac):
    fac = [f for f in fac if not (isinstance(f, int) and f == 1)]
    if not fac:
        return 1
    if any(isinstance(f, int) and f == 0 for f in fac):
        return 0
    if all(isinstance(f, int) for f in fac):
        n = 1
        for f in fac:
            n *= f
        return n
    if len(fac) == 1:
        return fac[0]
    return Rad(fac)


def dim_of(x):
    """dimension of a size value"""
    if isinstance(x, (Rad, Rag, Sub)):
        return x
    if isinstance(x, SInt):
        return mk_dim(factors_of(x))
    if isinstance(x, z3.ExprRef):
        x = wrap(x)
        return dim_of(x)
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (np.ndarray,)) and x.ndim == 0:
        return int(x)
    if isinstance(x, SymArr) and x.ndim == 0:
        return dim_of(x.as_scalar())
    if isinstance(x, (float, SReal, SBool, str, list, tuple)) or x is None:
        raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")
    raise Unsupported(f"size {x!r}")


def dim_fac(d):
    if isinstance(d, Rad):
        return d.f
    if isinstance(d, (Rag, Sub)):
        return (d,)
    if isinstance(d, int):
        return () if d == 1 else (d,)
    return (d,)


def dim_size(d):
    """size value (int or SInt)"""
    if isinstance(d, int):
        return d
    if isinstance(d, Rad):
        return SInt(prod_term(d.f), d.f) if not any(isinstance(f, (Rag, Sub)) for f in d.f) else opaque_size(d)
    if isinstance(d, Sub):
        return SInt(d.count)
    if isinstance(d, Rag):
        return opaque_size(d)
    return wrap(d)


def opaque_size(d):
    c = ctx()
    key = ("size", repr(dim_key(d)))
    if key not in c.cache:
        t = c.fresh("ragsize", z3.IntSort())
        c.fact(t >= 0)
        c.cache[key] = t
    return SInt(c.cache[key])


def dim_key(d):
    if isinstance(d, Rag):
        return ("rag", d.key)
    if isinstance(d, Sub):
        return ("sub", d.key)
    if isinstance(d, Rad):
        return ("rad",) + tuple(dim_key(f) for f in d.f)
    if isinstance(d, int):
        return d
    return z3.simplify(d).sexpr()


def lin(i, d):
    """z3 integer term of an index"""
    if isinstance(i, Comp):
        if isinstance(d, Rad) and len(d.f) == len(i.i):
            t, m = I(0), None
            for k, f in zip(i.i, d.f):
                if isinstance(f, (Rag, Sub)):
                    raise Unsupported("position in a ragged dimension")
                k = lin(k, f)
                t = k if m is None else t + m * k
                f = I(f) if isinstance(f, int) else f
                m = f if m is None else m * f
            return t
        raise Unsupported("index of a ragged or filtered dimension used as a number")
    if isinstance(d, (Rag, Sub)):
        raise Unsupported("index of a ragged or filtered dimension used as a number")
    return I(i) if isinstance(i, int) else i


def monomials(t):
    """the terms of a sum, as (coefficient, factors)"""
    t = z3.simplify(t, som=True)
    out = []
    for m in t.children() if z3.is_add(t) else [t]:
        k, fs = 1, []
        for x in m.children() if z3.is_mul(m) else [m]:
            if z3.is_int_value(x):
                k *= x.as_long()
            else:
                fs.append(x)
        out.append((k, fs))
    return out


def of_monomials(ms):
    ts = []
    for k, fs in ms:
        p = I(k)
        for x in fs:
            p = x if z3.is_int_value(p) and p.as_long() == 1 else p * x
        ts.append(p)
    return z3.simplify(z3.Sum(ts)) if ts else I(0)


def euclid(t, f):
    """(quotient, remainder) of a linear term by a factor, if it is seen from the form of the term"""
    ms = monomials(t)
    if isinstance(f, int):
        q = [(k // f, fs) for k, fs in ms]
        r = [(k % f, fs) for k, fs in ms]
        r = [(k, fs) for k, fs in r if k]
        q = [(k, fs) for k, fs in q if k]
        rt = of_monomials(r)
        if not r or all(not fs for k, fs in r):
            v = sum(k for k, fs in r)
            q.append((v // f, []))
            return of_monomials([x for x in q if x[0]]), I(v % f)
    else:
        if not (z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return None
        q, r = [], []
        for k, fs in ms:
            i = next((i for i, x in enumerate(fs) if x.eq(f)), None)
            if i is None:
                r.append((k, fs))
            else:
                q.append((k, fs[:i] + fs[i + 1:]))
        rt = of_monomials(r)
        if z3.is_int_value(rt) and rt.as_long() == 0:
            return of_monomials(q), rt
        if not q:
            q = [(0, [])]
    if ctx().valid(z3.And(rt >= 0, rt < f)):
        return of_monomials(q), rt
    return None


def split(t, d):
    """index of dimension d from an integer term"""
    if isinstance(d, Rad):
        if isinstance(t, Comp):
            return t
        t = I(t) if isinstance(t, int) else ctx().settle(t)
        s = z3.simplify(t)
        if z3.is_int_value(s) and s.as_long() == 0:
            return Comp([I(0)] * len(d.f))
        if any(isinstance(f, (Rag, Sub)) for f in d.f):
            raise Unsupported("number used as index of a ragged dimension")
        c = ctx()
        key = ("split", s.sexpr(), tuple(dim_key(f) for f in d.f), tuple(x.get_id() for x in c.scope), c.ckey())
        if key not in c.cache:
            out, rest = [], t
            fs = list(d.f)
            while len(fs) > 1:
                qr = euclid(rest, fs[0])
                if qr is not None:
                    rest, r = qr
                    out.append(r)
                elif isinstance(fs[0], int):
                    out.append(rest % fs[0])
                    rest = rest / fs[0]
                else:
                    break
                fs.pop(0)
            if len(fs) == 1:
                out.append(rest)
            else:
                ks = [c.fresh("digit", z3.IntSort()) for _ in fs]
                acc, m = ks[0], None
                lims = []
                for k, f in zip(ks, fs):
                    ft = I(f) if isinstance(f, int) else f
                    lims.append(z3.And(k >= 0, k < ft))
                    if m is None:
                        m = ft
                    else:
                        acc = acc + m * k
                        m = m * ft
                hyp = z3.And(rest >= 0, rest < m)
                c.fact(z3.Implies(hyp, z3.And(acc == rest, *lims)))
                out += ks
            c.cache[key] = Comp(out)
        return c.cache[key]
    if isinstance(d, (Rag, Sub)):
        raise Unsupported("number used as index of a ragged dimension")
    return t


def same_struct(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    if isinstance(a, (Rag, Sub)) or isinstance(b, (Rag, Sub)):
        return type(a) is type(b) and a.key == b.key
    if isinstance(a, Rad) or isinstance(b, Rad):
        return isinstance(a, Rad) and isinstance(b, Rad) and len(a.f) == len(b.f) and all(same_struct(x, y) for x, y in zip(a.f, b.f))
    return fac_eq(a, b)


def match(a, b):
    """the dimensions have the same factors, provably"""
    if same_struct(a, b):
        return True
    if isinstance(a, (Rag, Sub)) or isinstance(b, (Rag, Sub)):
        return False
    fa, fb = dim_fac(a), dim_fac(b)
    if len(fa) != len(fb):
        return False
    for x, y in zip(fa, fb):
        if same_struct(x, y):
            continue
        if isinstance(x, (Rag, Sub)) or isinstance(y, (Rag, Sub)):
            return False
        x, y = (I(v) if isinstance(v, int) else v for v in (x, y))
        if not ctx().valid(x == y):
            return False
    return True


def conv(i, a, b):
    """index i of dimension a as index of dimension b (same size)"""
    if same_struct(a, b):
        return i
    if isinstance(i, Comp) and isinstance(b, Rad) and match(a, b):
        return i
    if isinstance(a, (Rag, Sub)) or isinstance(b, (Rag, Sub)):
        raise Unsupported("index between ragged dimensions")
    return split(lin(i, a), b)


def dims_equal(a, b):
    """decides (with a branch if needed) whether two sizes agree"""
    if same_struct(a, b):
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, (Rag, Sub)) or isinstance(b, (Rag, Sub)):
        if isinstance(a, Sub) and isinstance(b, (int, z3.ExprRef)) or isinstance(b, Sub) and isinstance(a, (int, z3.ExprRef)):
            x, y = dim_size(a), dim_size(b)
            return ctx().branch(term(x) == term(y))
        raise Unsupported("comparison of ragged sizes")
    x, y = dim_size(a), dim_size(b)
    if core.cancel(factors_of(x), factors_of(y)) == () or match(a, b):
        return True
    return ctx().branch(integer(x) == integer(y))


def gen_index(d, base="i"):
    """a generic index of dimension d; its range is assumed on the current path"""
    c = ctx()
    if isinstance(d, int):
        if d == 1:
            return I(0)
        k = c.fresh_const(base, z3.IntSort())
        c.assume(z3.And(k >= 0, k < d))
        return k
    if isinstance(d, Rad):
        return Comp([gen_index(f, base) for f in d.f])
    if isinstance(d, Rag):
        o = gen_index(d.n, base)
        inner = subst_dim(d.inner, [(d.j, lin(o, d.n))])
        return Comp([gen_index(inner, base), o])
    if isinstance(d, Sub):
        k = gen_index(d.base, base)
        c.assume(d.pred(k))
        return k
    k = c.fresh_const(base, z3.IntSort())
    c.assume(z3.And(k >= 0, k < d))
    return k


def in_range(i, d):
    """condition: i is an index of d"""
    if isinstance(d, Rad) and isinstance(i, Comp):
        return z3.And(*[in_range(k, f) for k, f in zip(i.i, d.f)])
    t = lin(i, d)
    n = integer(dim_size(d))
    return z3.And(t >= 0, t < n)


def idx_eq(a, b, d):
    if isinstance(a, Comp) and isinstance(b, Comp) and len(a.i) == len(b.i):
        fs = d.f if isinstance(d, Rad) else (d.inner, d.n) if isinstance(d, Rag) else None
        return z3.And(*[idx_eq(x, y, f) for x, y, f in zip(a.i, b.i, fs)])
    return lin(a, d) == lin(b, d)


def subst_dim(d, pairs):
    if isinstance(d, int):
        return d
    if isinstance(d, Rad):
        return mk_dim([subst_dim(f, pairs) for f in d.f])
    if isinstance(d, Rag):
        if any(core.mentions(x, p[0]) for p in pairs for x in _dim_terms(d)):
            return Rag(subst_dim(d.n, pairs), d.j, subst_dim(d.inner, pairs), (d.key, str(pairs)))
        return d
    if isinstance(d, Sub):
        ps = [(a, b) for a, b in pairs]
        test = d.count
        if any(core.mentions(test, a) for a, _ in ps):
            return Sub(subst_dim(d.base, ps), lambda k, p=d.pred: core.subst(p(k), ps), (d.key, str(ps)), core.subst(d.count, ps))
        return d
    s = core.subst(d, pairs)
    w = wrap(s)
    return w if isinstance(w, int) else s


def _dim_terms(d):
    if isinstance(d, z3.ExprRef):
        return [d]
    if isinstance(d, Rad):
        return [t for f in d.f for t in _dim_terms(f)]
    if isinstance(d, Rag):
        return _dim_terms(d.n) + _dim_terms(d.inner)
    if isinstance(d, Sub):
        return _dim_terms(d.base) + [d.count]
    return []


def subst_idx(i, pairs):
    if isinstance(i, Comp):
        return Comp([subst_idx(k, pairs) for k in i.i])
    if isinstance(i, int):
        return i
    return core.subst(i, pairs)


# ---------------------------------------------------------------- dtypes
class DType:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return self.kind == kind_of_dtype(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return f"dtype({self.kind})"

    @property
    def type(self):
        return {"f": np.float64, "i": np.int64, "b": np.bool_, "U": np.str_}.get(self.kind, object)

    @property
    def name(self):
        return {"f": "float64", "i": "int64", "b": "bool", "U": "str"}.get(self.kind, "object")


def kind_of_dtype(d):
    if d is None:
        return "f"
    if isinstance(d, DType):
        return d.kind
    k = np.dtype(d).kind
    return {"u": "i"}.get(k, k)


def kind_of(x):
    if isinstance(x, SymArr):
        return x.kind
    if isinstance(x, (bool, np.bool_, SBool)):
        return "b"
    if isinstance(x, (int, np.integer, SInt)):
        return "i"
    if isinstance(x, (float, np.floating, SReal)):
        return "f"
    if isinstance(x, (str, SStr)):
        return "U"
    raise Unsupported(f"kind of {type(x).__name__}")


def to_kind(t, kind):
    if kind == "f":
        return real(t)
    if kind == "i":
        if z3.is_real(t):
            s = z3.simplify(t)
            if z3.is_rational_value(s) and s.denominator_as_long() == 1:
                return I(s.numerator_as_long())
            if z3.is_app_of(s, z3.Z3_OP_TO_REAL):
                return s.arg(0)
            return truncate(t)
        return integer(t)
    if kind == "b":
        return boolean(t)
    return t


def truncate(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def join_kind(*ks):
    ks = set(ks)
    if "U" in ks:
        return "U"
    if "O" in ks:
        return "O"
    if "f" in ks:
        return "f"
    if "i" in ks:
        return "i"
    return "b"


SORT = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort(), "U": core.Name}


# ---------------------------------------------------------------- arrays
class Store:
    __slots__ = ("get", "owner", "version", "reads", "val", "dims", "kind", "born")

    def __init__(self, get, owner=None, dims=None, kind=None):
        self.get = get
        self.dims, self.kind = dims, kind
        from .lists import stamp

        self.born = stamp()
        self.owner = owner
        self.version = 0
        self.reads = None

    def set(self, get):
        old = self.get
        self.get = get
        self.version += 1

        def undo():
            self.get = old
            self.version -= 1

        ctx().record("store", self, undo, old=old, new=get)


class View:
    __slots__ = ("fwd", "inv")

    def __init__(self, fwd, inv):
        self.fwd, self.inv = fwd, inv


class SymArr:
    _is_symarr = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, shape, get, kind, store=None, view=None, ro=False, owner=None):
        self.dims = tuple(shape)
        self.kind = kind
        self.store = store if store is not None else Store(get, owner, self.dims, kind)
        self.view = view
        self.ro = ro

    # -- reading
    def at(self, idx):
        if self.store.reads is not None:
            self.store.reads.append(self.view.fwd(idx) if self.view else idx)
        return self.store.get(self.view.fwd(idx)) if self.view else self.store.get(idx)

    def snap(self):
        """pure getter of the present contents"""
        g, v, st = self.store.get, self.view, self.store
        if st.reads is None:
            return (lambda idx: g(v.fwd(idx))) if v else g

        def f(idx):
            b = v.fwd(idx) if v else idx
            if st.reads is not None:
                st.reads.append(b)
            return g(b)

        return f

    def as_scalar(self):
        if any(not (isinstance(d, int) and d == 1) for d in self.dims):
            raise Unsupported("array used as scalar")
        return wrap(self.at((I(0),) * len(self.dims)))

    def scalar(self, *idx):
        return wrap(self.at(idx))

    # -- attributes
    @property
    def shape(self):
        return ShapeTuple(dim_size(d) for d in self.dims)

    @shape.setter
    def shape(self, v):
        raise Unsupported("shape assigned")

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        n = 1
        for d in self.dims:
            n = mul(n, dim_size(d))
        return n

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        raise Unsupported("flat")

    def sym_len(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        return dim_size(self.dims[0])

    def __len__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n
        raise Unsupported("len of a symbolic array by native code")

    def __array__(self, *a, **k):
        raise Unsupported("symbolic array converted to a real one")

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self.dims):
            return bool(self.as_scalar())
        n = self.size
        if isinstance(n, int) and n == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return f"SymArr{self.dims}:{self.kind}"

    def __format__(self, s):
        return repr(self)

    def __iter__(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d array")
        d = self.dims[0]
        if isinstance(d, int):
            return (self[k] for k in range(d))
        raise Unsupported("native iteration over a symbolic array")

    def __index__(self):
        return self.as_scalar().__index__()

    def __float__(self):
        s = self.as_scalar()
        if is_conc_num(s):
            return float(s)
        raise Unsupported("float of a symbolic array")

    __int__ = __index__

    def __contains__(self, x):
        return bool(self.__eq__(x).any())

    # -- copies and shapes
    def copy(self, order="C"):
        return SymArr(self.dims, self.snap(), self.kind)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True, **k):
        kind = kind_of_dtype(dtype)
        g = self.snap()
        if kind == self.kind:
            return SymArr(self.dims, g, kind)
        return SymArr(self.dims, lambda idx: to_kind(g(idx), kind), kind)

    def view_as(self, *a):
        raise Unsupported("view")

    def transpose(self, *axes):
        if len(axes) == 1 and (isinstance(axes[0], (tuple, list)) or axes[0] is None):
            axes = axes[0]
        n = self.ndim
        axes = list(range(n))[::-1] if not axes else [a % n for a in axes]
        if sorted(axes) != list(range(n)):
            raise ValueError("axes don't match array")
        inv = [axes.index(k) for k in range(n)]
        dims = [self.dims[a] for a in axes]
        return self._remap(dims, lambda idx: tuple(idx[k] for k in inv), lambda b: (z3.BoolVal(True), tuple(b[a] for a in axes)))

    def _remap(self, dims, fwd, inv):
        """view with an index map"""
        if self.view:
            f0, i0 = self.view.fwd, self.view.inv

            def inv2(b, i0=i0, inv=inv):
                c0, m = i0(b)
                c1, r = inv(m)
                return z3.And(c0, c1), r

            v = View(lambda idx: f0(fwd(idx)), inv2)
        else:
            v = View(fwd, inv)
        return SymArr(dims, None, self.kind, store=self.store, view=v, ro=self.ro)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and (isinstance(shape[0], (tuple, list)) or isinstance(shape[0], (SymArr, np.ndarray)) and shape[0].ndim == 1):
            shape = tuple(iter_any(shape[0]))
        dims, new2old = reshape_map(self.dims, list(shape), order)
        g = self.snap()
        return SymArr(dims, lambda idx: g(new2old(idx)), self.kind, ro=True)

    def ravel(self, order="C"):
        r = self.reshape((-1,), order=order)
        r.ro = True
        return r

    def flatten(self, order="C"):
        return self.reshape((-1,), order=order).copy()

    def squeeze(self, axis=None):
        ks = [k for k, d in enumerate(self.dims) if not (isinstance(d, int) and d == 1)]
        for k in ks:
            d = self.dims[k]
            if not isinstance(d, int) and not ctx().valid(integer(dim_size(d)) != 1):
                if ctx().branch(integer(dim_size(d)) == 1):
                    raise Unsupported("squeeze of a symbolic unit dimension")
        n = self.ndim

        def fwd(idx):
            out = [I(0)] * n
            for k, i in zip(ks, idx):
                out[k] = i
            return tuple(out)

        return self._remap([self.dims[k] for k in ks], fwd, lambda b: (z3.BoolVal(True), tuple(b[k] for k in ks)))

    def tolist(self):
        from .lists import arr_to_list

        return arr_to_list(self)

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return self.as_scalar()

    def fill(self, v):
        self[...] = v

    # -- indexing
    def __getitem__(self, key):
        from .index import getitem

        return getitem(self, key)

    def __setitem__(self, key, value):
        from .index import setitem

        setitem(self, key, value)

    # -- operators
    def _op(self, o, fn, refl=False):
        if isinstance(o, (list, tuple)):
            o = asarr(o)
        if not (isinstance(o, (SymArr, np.ndarray, Sym, str)) or is_conc_num(o)):
            if o is None:
                return NotImplemented
            if type(o).__name__ in ("CellType",):
                o = int(o)
            else:
                return NotImplemented
        return elementwise(fn, o, self) if refl else elementwise(fn, self, o)

    def __add__(self, o):
        return self._op(o, core.add)

    def __radd__(self, o):
        return self._op(o, core.add, True)

    def __sub__(self, o):
        return self._op(o, core.sub)

    def __rsub__(self, o):
        return self._op(o, core.sub, True)

    def __mul__(self, o):
        return self._op(o, core.mul)

    def __rmul__(self, o):
        return self._op(o, core.mul, True)

    def __truediv__(self, o):
        return self._op(o, core.div)

    def __rtruediv__(self, o):
        return self._op(o, core.div, True)

    def __floordiv__(self, o):
        return self._op(o, core.floordiv)

    def __mod__(self, o):
        return self._op(o, core.mod)

    def __pow__(self, o):
        return self._op(o, core.power)

    def __neg__(self):
        return elementwise(core.sub, 0, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return map1(lambda x: abs(x), self, self.kind)

    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("bitwise not")
        return map1(core.not_, self, "b")

    def __and__(self, o):
        return self._op(o, core.and_)

    __rand__ = __and__

    def __or__(self, o):
        return self._op(o, core.or_)

    __ror__ = __or__

    def __xor__(self, o):
        return self._op(o, core.xor_)

    def __eq__(self, o):
        if o is None:
            return elementwise(core.eq, self, "\0none")
        return self._op(o, core.eq)

    def __ne__(self, o):
        return self._op(o, core.ne)

    def __lt__(self, o):
        return self._op(o, core.lt)

    def __le__(self, o):
        return self._op(o, core.le)

    def __gt__(self, o):
        return self._op(o, core.gt)

    def __ge__(self, o):
        return self._op(o, core.ge)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def _iop(self, o, fn):
        r = self._op(o, fn)
        if r is NotImplemented:
            return r
        if r.kind == "f" and self.kind in "ib":
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        assign_all(self, r)
        return self

    def __iadd__(self, o):
        return self._iop(o, core.add)

    def __isub__(self, o):
        return self._iop(o, core.sub)

    def __imul__(self, o):
        return self._iop(o, core.mul)

    def __itruediv__(self, o):
        return self._iop(o, core.div)

    def __iand__(self, o):
        return self._iop(o, core.and_)

    def __ior__(self, o):
        return self._iop(o, core.or_)

    # -- reductions
    def sum(self, axis=None, **k):
        return reduce_(self, axis, core.add, "sum", 0)

    def prod(self, axis=None, **k):
        return reduce_(self, axis, core.mul, "prod", 1)

    def mean(self, axis=None, **k):
        s = self.sum(axis=axis)
        n = self.size if axis is None else dim_size(self.dims[axis % self.ndim])
        return s / n

    def min(self, axis=None, **k):
        return extremum(self, axis, "min", k.get("initial"))

    def max(self, axis=None, **k):
        return extremum(self, axis, "max", k.get("initial"))

    def all(self, axis=None, **k):
        return quantify(self, axis, True)

    def any(self, axis=None, **k):
        return quantify(self, axis, False)

    def argmax(self, axis=None):
        return arg_extremum(self, "max", axis)

    def argmin(self, axis=None):
        return arg_extremum(self, "min", axis)

    def cumsum(self, axis=None):
        return cumsum(self)

    def dot(self, o):
        return matmul(self, o)

    def clip(self, lo, hi):
        return map1(lambda x: core.ite(core.lt(x, lo), lo, core.ite(core.gt(x, hi), hi, x)), self, join_kind(self.kind, kind_of(lo)))

    def round(self, *a):
        raise Unsupported("round")

    def sort(self, *a, **k):
        raise Unsupported("in-place sort")

    def nonzero(self):
        raise Unsupported("nonzero")

    def repeat(self, n, axis=None):
        from . import npm

        return npm.repeat(self, n, axis)


class ShapeTuple(tuple):
    """shape with symbolic sizes: comparisons decide (by branching)"""

    def __new__(cls, it):
        return tuple.__new__(cls, tuple(it))

    def _cmp(self, o):
        if not isinstance(o, (tuple, list)):
            return False
        if len(self) != len(o):
            return False
        r = True
        for a, b in zip(self, o):
            e = core.eq(a, b)
            if e is False:
                return False
            if e is not True:
                r = core.and_(r, e) if r is not True else e
        return r

    def __eq__(self, o):
        return self._cmp(o)

    def __ne__(self, o):
        r = self._cmp(o)
        return (not r) if isinstance(r, bool) else core.not_(r)

    def __hash__(self):
        return tuple.__hash__(self)

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return ShapeTuple(r) if isinstance(k, slice) else r

    def index(self, v, *a):
        for k, x in enumerate(self):
            e = core.eq(x, v)
            if e is True or (e is not False and bool(e)):
                return k
        raise ValueError("tuple.index(x): x not in tuple")

    def __contains__(self, v):
        return any(bool(core.eq(x, v)) for x in self)

    def count(self, v):
        return sum(1 for x in self if bool(core.eq(x, v)))


def iter_any(x):
    if isinstance(x, SymArr):
        return [x[k] for k in range(len(x))]
    return list(x)


# ---------------------------------------------------------------- construction
def const_arr(dims, value, kind=None):
    kind = kind or kind_of(value)
    t = to_kind(term(value), kind)
    return SymArr(dims, lambda idx: t, kind)


def from_conc(a):
    """symbolic array of a real one"""
    a = np.asarray(a)
    kind = {"u": "i"}.get(a.dtype.kind, a.dtype.kind)
    if kind not in "fibU":
        raise Unsupported(f"array of kind {kind}")
    if a.size > 4096:
        raise Unsupported("large concrete array")
    if a.ndim == 0:
        t = to_kind(term(a.item()), kind)
        return SymArr((), lambda idx: t, kind)
    dims = tuple(int(n) for n in a.shape)
    vals = a.copy()
    cache = {}

    def get(idx):
        ks = [z3.simplify(lin(i, d)) for i, d in zip(idx, dims)]
        if all(z3.is_int_value(k) for k in ks):
            v = vals[tuple(k.as_long() for k in ks)]
            return to_kind(term(v.item()), kind)
        key = tuple(k.get_id() for k in ks)
        hit = cache.get(key)
        if hit is not None:
            return hit[0]

        def rec(pos, sub_):
            if pos == len(ks):
                return to_kind(term(sub_.item()), kind)
            if z3.is_int_value(ks[pos]):
                return rec(pos + 1, sub_[ks[pos].as_long()])
            if len(sub_) == 0:
                raise Unsupported("element of an empty array")
            r = rec(pos + 1, sub_[-1])
            for k in range(len(sub_) - 2, -1, -1):
                e = rec(pos + 1, sub_[k])
                r = e if e.eq(r) else z3.If(ks[pos] == k, e, r)
            return r

        t = rec(0, vals)
        cache[key] = (t, ks)
        return t

    return SymArr(dims, get, kind)


def is_conc_seq(x):
    if isinstance(x, (list, tuple)):
        if getattr(x, "sym", None) is not None:
            return False
        return all(is_conc_seq(e) for e in x)
    return is_conc_num(x) or isinstance(x, (str, np.ndarray)) or type(x).__name__ == "CellType"


def asarr(x, dtype=None):
    """symbolic array of anything array-like"""
    from .lists import seq_to_arr, is_symseq

    if isinstance(x, SymArr):
        return x if dtype is None or kind_of_dtype(dtype) == x.kind else x.astype(dtype)
    if isinstance(x, np.ndarray):
        r = from_conc(x)
    elif isinstance(x, (Sym, str)) or is_conc_num(x):
        k = kind_of(x)
        t = term(x)
        r = SymArr((), lambda idx: to_kind(t, k), k)
    elif is_symseq(x):
        r = seq_to_arr(x)
    elif isinstance(x, (list, tuple)):
        if is_conc_seq(x):
            r = from_conc(np.asarray(x))
        else:
            if len(x) == 0:
                r = from_conc(np.asarray(x))
            else:
                r = stack_arrays([asarr(e) for e in x], 0)
    elif type(x).__name__ == "CellType":
        return asarr(int(x))
    elif hasattr(x, "_as_symarr"):
        r = x._as_symarr()
    else:
        raise Unsupported(f"array of {type(x).__name__}")
    if dtype is not None and kind_of_dtype(dtype) != r.kind:
        r = r.astype(dtype)
    return r


def broadcast_dims(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            p = k - (n - len(s))
            if p < 0:
                continue
            e = s[p]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
                continue
            if dims_equal(d, e):
                continue
            # a symbolic size may be one
            if not isinstance(e, int) and ctx().branch(integer(dim_size(e)) == 1):
                raise Unsupported("broadcast of a symbolic size equal to one")
            if not isinstance(d, int) and ctx().branch(integer(dim_size(d)) == 1):
                raise Unsupported("broadcast of a symbolic size equal to one")
            raise ValueError("operands could not be broadcast together")
        out.append(d)
    return tuple(out)


def bget(a, dims):
    """getter of array a broadcast to dims"""
    g = a.snap()
    off = len(dims) - len(a.dims)

    def get(idx):
        out = []
        for k, d in enumerate(a.dims):
            i = idx[k + off]
            out.append(I(0) if isinstance(d, int) and d == 1 else conv(i, dims[k + off], d))
        return g(tuple(out))

    return get


ARITH = {core.add, core.sub, core.mul, core.mod, core.floordiv, core.power}
COMPARE = {core.eq, core.ne, core.lt, core.le, core.gt, core.ge}
LOGIC = {core.and_, core.or_, core.xor_}


def elementwise(fn, *args):
    arrs = [asarr(a) for a in args]
    dims = broadcast_dims([a.dims for a in arrs])
    ks = [a.kind for a in arrs]
    if fn in COMPARE:
        kind = "b"
        if ("U" in ks) != (ks[0] == "U" and ks[1] == "U"):
            # comparison of strings and numbers
            v = fn is core.ne
            return const_arr(dims, v, "b")
    elif fn in ARITH:
        kind = join_kind(*ks)
        if kind == "b":
            kind = "i"
        if fn is core.power:
            kind = "f" if kind == "f" else kind
        if kind == "U":
            raise TypeError("unsupported operand type(s)")
    elif fn is core.div:
        kind = "f"
    elif fn in LOGIC:
        if set(ks) != {"b"}:
            raise Unsupported("bitwise operation on integers")
        kind = "b"
    else:
        kind = join_kind(*ks)
    gs = [bget(a, dims) for a in arrs]
    r = SymArr(dims, memo(lambda idx: to_kind(term(fn(*[wrap_k(g(idx)) for g in gs])), kind)), kind)
    if not dims:
        return r.as_scalar()
    return r


def wrap_k(t):
    """like wrap, keeping numerals as Python numbers"""
    return wrap(t)


def memo(get):
    cache = {}

    def f(idx):
        c = core.CTX
        # values may be simplified by what holds in the branch of a loop body
        conds = c.conds[c.sub_base:] if c is not None and c.sub_base is not None else []
        key = (idx_id(idx), tuple(x.get_id() for x in conds))
        hit = cache.get(key)
        if hit is not None:
            return hit[0]
        r = get(idx)
        if len(cache) > 64:
            cache.clear()
        cache[key] = (r, idx, list(conds))
        return r

    return f


def idx_id(i):
    if isinstance(i, tuple):
        return tuple(idx_id(k) for k in i)
    if isinstance(i, Comp):
        return ("c",) + tuple(idx_id(k) for k in i.i)
    if isinstance(i, int):
        return ("i", i)
    return i.get_id()


def map1(fn, a, kind=None):
    a = asarr(a)
    g = a.snap()
    kind = kind or a.kind
    r = SymArr(a.dims, memo(lambda idx: to_kind(term(fn(wrap(g(idx)))), kind)), kind)
    return r if a.dims else r.as_scalar()


def assign_all(view, value):
    """view[...] = value, through to the base"""
    if view.ro:
        raise Unsupported("write through a reshaped view")
    value = asarr(value)
    if value.kind == "U" and view.kind != "U":
        raise ValueError("could not convert string to float")
    # the value may have leading unit dimensions
    vd = value.dims
    while len(vd) > len(view.dims):
        if not (isinstance(vd[0], int) and vd[0] == 1):
            raise ValueError("could not broadcast input array")
        value = value[0]
        vd = value.dims
    for k, d in enumerate(vd):
        t = view.dims[k + len(view.dims) - len(vd)]
        if isinstance(d, int) and d == 1:
            continue
        if not dims_equal(d, t):
            raise ValueError("could not broadcast input array from shape into shape")
    g = bget(value, view.dims)
    st, kind = view.store, view.kind
    old = st.get
    if view.view is None:
        st.set(memo(lambda idx: to_kind(g(idx), kind)))
        return
    inv = view.view.inv

    def new(b):
        c, vi = inv(b)
        c = z3.simplify(c) if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c))
        if z3.is_false(c):
            return old(b)
        v = to_kind(g(vi), kind)
        if z3.is_true(c):
            return v
        return z3.If(c, v, old(b))

    st.set(memo(new))


def stack_arrays(arrs, axis):
    """np.stack"""
    dims = arrs[0].dims
    kind = join_kind(*[a.kind for a in arrs])
    for a in arrs[1:]:
        if len(a.dims) != len(dims):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        for x, y in zip(dims, a.dims):
            if not dims_equal(x, y):
                raise ValueError("all input arrays must have the same shape")
    axis = axis % (len(dims) + 1)
    gs = [a.snap() for a in arrs]
    m = len(arrs)
    alld = [a.dims for a in arrs]

    def get(idx):
        k = z3.simplify(lin(idx[axis], m))
        rest = idx[:axis] + idx[axis + 1:]

        def el(p):
            return to_kind(gs[p](tuple(conv(i, d, e) for i, d, e in zip(rest, dims, alld[p]))), kind)

        if z3.is_int_value(k):
            return el(k.as_long())
        r = el(m - 1)
        for p in range(m - 2, -1, -1):
            r = z3.If(k == p, el(p), r)
        return r

    return SymArr(dims[:axis] + (m,) + dims[axis:], memo(get), kind)


# ---------------------------------------------------------------- reshape
def reshape_map(dims, shape, order):
    if order not in ("C", "F"):
        raise Unsupported(f"order {order}")
    shape = list(shape)
    unknown = [k for k, s in enumerate(shape) if is_conc_num(s) and int(s) == -1]
    if len(unknown) > 1:
        raise ValueError("can only specify one unknown dimension")
    old_order = list(range(len(dims))) if order == "F" else list(range(len(dims)))[::-1]
    new_order = list(range(len(shape))) if order == "F" else list(range(len(shape)))[::-1]
    of = []  # (factor, dim, pos)
    for k in old_order:
        for p, f in enumerate(dim_fac(dims[k])):
            of.append((f, k, p))
    ndims = [None if k in unknown else dim_of(s) for k, s in enumerate(shape)]
    if unknown:
        have = [f for k, d in enumerate(ndims) if d is not None for f in dim_fac(d)]
        ofs = [f for f, _, _ in of]
        rest = cancel_struct(ofs, have)
        if rest is None:
            # sizes not matched factor by factor: solve for the unknown size
            raise_or_unsupported(dims, [d for d in ndims if d is not None])
        ndims[unknown[0]] = mk_dim(rest)
    nf = []
    for k in new_order:
        for p, f in enumerate(dim_fac(ndims[k])):
            nf.append((f, k, p))
    # two-pointer match of factors; groups: list of (old atoms, new atoms)
    groups = []
    o = [[f, k, p] for f, k, p in of]
    n = [[f, k, p] for f, k, p in nf]
    oi = ni = 0
    # atoms: refined pieces in fastest-first order; each remembers its old slot and new slot
    atoms = []  # (size, (odim, opos), (ndim, npos))
    osplit = {}
    while oi < len(o) and ni < len(n):
        a, b = o[oi][0], n[ni][0]
        if same_struct(a, b):
            atoms.append((a, (o[oi][1], o[oi][2]), (n[ni][1], n[ni][2])))
            oi += 1
            ni += 1
        elif isinstance(a, int) and isinstance(b, int):
            if a % b == 0:
                atoms.append((b, (o[oi][1], o[oi][2]), (n[ni][1], n[ni][2])))
                o[oi][0] = a // b
                ni += 1
            elif b % a == 0:
                atoms.append((a, (o[oi][1], o[oi][2]), (n[ni][1], n[ni][2])))
                n[ni][0] = b // a
                oi += 1
            else:
                raise_or_unsupported(dims, ndims)
        else:
            # b as a product of several old factors
            m = match_prefix([x[0] for x in o[oi:]], b)
            if m:
                for x in o[oi:oi + m]:
                    atoms.append((x[0], (x[1], x[2]), (n[ni][1], n[ni][2])))
                oi += m
                ni += 1
                continue
            m = match_prefix([x[0] for x in n[ni:]], a)
            if m:
                for x in n[ni:ni + m]:
                    atoms.append((x[0], (o[oi][1], o[oi][2]), (x[1], x[2])))
                ni += m
                oi += 1
                continue
            raise_or_unsupported(dims, ndims)
    if oi < len(o) or ni < len(n):
        raise_or_unsupported(dims, ndims)
    # new dimensions from the atoms
    out = []
    slots = {}
    for k in range(len(shape)):
        mine = [a for a in atoms if a[2][0] == k]
        out.append(mk_dim([a[0] for a in mine]))
        slots[k] = mine

    def new2old(idx):
        val = {}
        for k, mine in slots.items():
            i = idx[k]
            if not mine:
                continue
            d = out[k]
            if len(mine) == 1:
                val[id(mine[0])] = i
            elif isinstance(d, int):
                t = lin(i, d)
                for a in mine[:-1]:
                    val[id(a)] = t % a[0]
                    t = t / a[0]
                val[id(mine[-1])] = t
            else:
                i = split(i, d)
                for a, x in zip(mine, i.i):
                    val[id(a)] = x
        old = []
        for k, d in enumerate(dims):
            facs = dim_fac(d)
            comps = []
            for p, f in enumerate(facs):
                mine = [a for a in atoms if a[1] == (k, p)]
                if len(mine) == 1:
                    comps.append(val[id(mine[0])])
                else:
                    t, m = None, None
                    for a in mine:
                        v = lin(val[id(a)], a[0])
                        t = v if t is None else t + m * v
                        s = I(a[0]) if isinstance(a[0], int) else a[0]
                        m = s if m is None else m * s
                    comps.append(t)
            old.append(I(0) if not facs else comps[0] if len(facs) == 1 else Comp(comps))
        return tuple(old)

    return tuple(out), new2old


def cancel_struct(xs, ys):
    xs = list(xs)
    for y in ys:
        for i, x in enumerate(xs):
            if same_struct(x, y):
                del xs[i]
                break
        else:
            if isinstance(y, int):
                for i, x in enumerate(xs):
                    if isinstance(x, int) and x % y == 0:
                        xs[i] = x // y
                        break
                else:
                    return None
            else:
                # y as a product of factors
                for i in range(len(xs)):
                    m = match_prefix(xs[i:], y)
                    if m:
                        del xs[i:i + m]
                        break
                else:
                    return None
    return xs


def match_prefix(fs, target):
    """number of leading factors whose product is the target"""
    if isinstance(target, (Rag, Sub)):
        return 0
    t = I(target) if isinstance(target, int) else target
    acc = None
    for m, f in enumerate(fs, 1):
        if isinstance(f, (Rag, Sub)):
            return 0
        ft = I(f) if isinstance(f, int) else f
        acc = ft if acc is None else acc * ft
        if m > 1 and (z3.simplify(acc - t, som=True).eq(I(0)) or (m == len(fs) or m <= 3) and ctx().valid(acc == t)):
            return m
    return 0


def raise_or_unsupported(a, b):
    try:
        fa = prod_term([f for d in a for f in dim_fac(d)])
        fb = prod_term([f for d in b for f in dim_fac(d)])
        differ = ctx().valid(fa != fb)
    except Exception:
        differ = False
    if differ:
        raise ValueError("cannot reshape array")
    raise Unsupported(f"reshape of {a} to {b}")


# ---------------------------------------------------------------- reductions
def axis_list(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return sorted(k % a.ndim for k in axis)
    return [axis % a.ndim]


def merge_idx(n, axes, red, rest):
    out, r, q = [], list(red), list(rest)
    for k in range(n):
        out.append(r.pop(0) if k in axes else q.pop(0))
    return tuple(out)


def reduce_(a, axis, fn, what, zero):
    a = asarr(a)
    axes = axis_list(a, axis)
    rest_dims = [d for k, d in enumerate(a.dims) if k not in axes]
    red_dims = [a.dims[k] for k in axes]
    g = a.snap()
    kind = "i" if a.kind == "b" else a.kind
    if all(isinstance(d, int) for d in red_dims):
        import itertools

        combos = list(itertools.product(*[range(d) for d in red_dims]))
        if len(combos) > 64:
            raise Unsupported("long concrete reduction")

        def get(idx):
            r = zero
            for c in combos:
                v = wrap(g(merge_idx(a.ndim, axes, [I(k) for k in c], idx)))
                r = v if r is zero and zero == 0 and what == "sum" and kind != "i" else fn(r, v)
            return to_kind(term(r), kind)

        r = SymArr(rest_dims, memo(get), kind)
        return r if rest_dims else r.as_scalar()
    if what != "sum":
        raise Unsupported("symbolic product")
    # a sum over a symbolic range: one symbol per summand, as a function of the free indices
    def get(idx):
        return symbolic_sum(a.dims, axes, g, idx, kind)

    r = SymArr(rest_dims, memo(get), kind)
    return r if rest_dims else r.as_scalar()


SUMS = {}


def symbolic_sum(dims, axes, g, idx, kind):
    """Sum over the given axes, as an uninterpreted functional of its summand: two sums are the same
    term exactly when their summands (as functions of the summation index) are."""
    c = ctx()
    bound = []
    for n, k in enumerate(axes):
        bound.append(canonical_index(dims[k], f"sum{len(axes)}_{n}"))
    t = to_kind(g(merge_idx(len(dims), axes, bound, idx)), kind)
    t = z3.simplify(t, som=True)
    vs = [v for b in bound for v in comp_vars(b)]
    lam = t
    for v in reversed(vs):
        lam = z3.Lambda([v], lam)
    sizes = [integer(dim_size(dims[k])) for k in axes]
    key = ("Sum", lam.sort().sexpr(), len(sizes))
    f = z3.Function("Sum!" + str(zlib.crc32(repr(key).encode())), lam.sort(), *[z3.IntSort()] * len(sizes), SORT[kind])
    r = f(lam, *sizes)
    if len(vs) == 1 and not any(r.eq(x) for x, *_ in c.sums):
        c.sums.append((r, t, vs[0], sizes[0]))
    return r


def canonical_index(d, base):
    if isinstance(d, Rad):
        return Comp([canonical_index(f, f"{base}_{k}") for k, f in enumerate(d.f)])
    if isinstance(d, (Rag, Sub)):
        raise Unsupported("sum over a ragged dimension")
    return z3.Int(f"{base}!bound")


def comp_vars(i):
    return [v for k in i.i for v in comp_vars(k)] if isinstance(i, Comp) else [i]


def quantify(a, axis, universal):
    a = asarr(a)
    axes = axis_list(a, axis)
    rest_dims = [d for k, d in enumerate(a.dims) if k not in axes]
    red_dims = [a.dims[k] for k in axes]
    g = a.snap()
    if all(isinstance(d, int) for d in red_dims):
        import itertools

        combos = list(itertools.product(*[range(d) for d in red_dims]))

        def get(idx):
            ts = [boolean(g(merge_idx(a.ndim, axes, [I(k) for k in c], idx))) for c in combos]
            return z3.simplify(z3.And(*ts) if universal else z3.Or(*ts)) if ts else z3.BoolVal(universal)

        r = SymArr(rest_dims, memo(get), "b")
        return r if rest_dims else r.as_scalar()

    def get(idx):
        return quantified([a.dims[k] for k in axes], lambda red: boolean(g(merge_idx(a.ndim, axes, red, idx))), universal)

    r = SymArr(rest_dims, memo(get), "b")
    return r if rest_dims else r.as_scalar()


def quantified(dims, body, universal):
    """A Boolean symbol p with p <=> forall (exists) index of dims: body."""
    c = ctx()
    if dims and all(isinstance(d, int) for d in dims) and np.prod(dims) <= 12:
        ts = [body([I(int(k)) for k in i]) for i in np.ndindex(*dims)]
        return z3.simplify(z3.And(*ts) if universal else z3.Or(*ts))
    vs, rng, sizes = [], [], []

    def bound(d):
        if isinstance(d, int) and d == 1:
            return I(0)
        if isinstance(d, Rad):
            return Comp([bound(f) for f in d.f])
        if isinstance(d, Rag):
            raise Unsupported("quantifier over a ragged dimension")
        if isinstance(d, Sub):
            k = bound(d.base)
            rng.append(d.pred(k))
            return k
        c.counter += 1
        v = z3.Int(f"q!{c.counter}")
        vs.append(v)
        n = integer(dim_size(d))
        sizes.append(n)
        rng.append(z3.And(v >= 0, v < n))
        return v

    idx = [bound(d) for d in dims]
    t = z3.simplify(body(idx))
    if z3.is_true(t) and universal or z3.is_false(t) and not universal:
        return z3.BoolVal(universal)
    free = generic_symbols(t, c)
    key = ("quant", universal, canon(t, rng, vs), c.ckey())
    if key in c.cache:
        return c.cache[key]
    hyp = z3.And(*rng) if rng else z3.BoolVal(True)
    wits = [c.fresh("w", z3.IntSort()) for _ in vs]
    pairs = list(zip(vs, wits))
    p = c.fresh("p", z3.BoolSort())
    at_w = core.subst(z3.And(hyp, t if not universal else z3.Not(t)), pairs)
    if universal:
        c.fact(z3.Implies(p, z3.ForAll(vs, z3.Implies(hyp, t)) if vs else t))
        c.fact(z3.Implies(z3.Not(p), at_w))
    else:
        c.fact(z3.Implies(p, at_w))
        c.fact(z3.Implies(z3.Not(p), z3.ForAll(vs, z3.Implies(hyp, z3.Not(t))) if vs else z3.Not(t)))
        # instances of the last fact at the first and last index
        if vs:
            ends = [z3.simplify(n - 1) for n in sizes]
            for at in ([I(0)] * len(vs), ends):
                c.fact(z3.Implies(core.subst(z3.And(hyp, t), list(zip(vs, at))), p))
    c.cache[key] = p
    return p


def generic_symbols(t, c):
    return [s for s in c.scope if core.mentions(t, s)]


def canon(t, rng, vs):
    pairs = [(v, z3.Int(f"canon!{k}")) for k, v in enumerate(vs)]
    return core.subst(z3.And(t, *rng), pairs).sexpr()


def extremum(a, axis, what, initial=None):
    a = asarr(a)
    axes = axis_list(a, axis)
    rest_dims = [d for k, d in enumerate(a.dims) if k not in axes]
    red_dims = [a.dims[k] for k in axes]
    g = a.snap()
    better = (lambda x, y: core.lt(x, y)) if what == "min" else (lambda x, y: core.gt(x, y))
    if all(isinstance(d, int) for d in red_dims):
        import itertools

        combos = list(itertools.product(*[range(d) for d in red_dims]))
        if not combos and initial is None:
            raise ValueError("zero-size array to reduction operation which has no identity")

        def get(idx):
            r = initial
            for c in combos:
                v = wrap(g(merge_idx(a.ndim, axes, [I(k) for k in c], idx)))
                r = v if r is None else core.ite(better(v, r), v, r)
            return to_kind(term(r), a.kind)

        r = SymArr(rest_dims, memo(get), a.kind)
        return r if rest_dims else r.as_scalar()
    if initial is not None:
        raise Unsupported("extremum with initial value")
    n = 1
    for d in red_dims:
        n = mul(n, dim_size(d))
    if not ctx().branch(integer(n) > 0):
        raise ValueError(f"zero-size array to reduction operation {what}imum which has no identity")
    cache = {}

    def get(idx):
        key = idx_id(tuple(idx))
        if key in cache:
            return cache[key][0]
        c = ctx()
        vs, rng = [], []

        def bound(d):
            if isinstance(d, int) and d == 1:
                return I(0)
            if isinstance(d, Rad):
                return Comp([bound(f) for f in d.f])
            if isinstance(d, Rag):
                raise Unsupported("extremum over a ragged dimension")
            if isinstance(d, Sub):
                k = bound(d.base)
                rng.append(d.pred(k))
                return k
            c.counter += 1
            v = z3.Int(f"q!{c.counter}")
            vs.append(v)
            rng.append(z3.And(v >= 0, v < integer(dim_size(d))))
            return v

        red = [bound(d) for d in red_dims]
        t = g(merge_idx(a.ndim, axes, red, idx))
        ck = (what, canon_term(t, rng, vs), c.ckey())
        if ck in c.cache:
            m = c.cache[ck]
        else:
            m = c.fresh(what, SORT[a.kind])
            ws = [c.fresh("w", z3.IntSort()) for _ in vs]
            pairs = list(zip(vs, ws))
            hyp = z3.And(*rng)
            c.fact(z3.ForAll(vs, z3.Implies(hyp, t >= m if what == "min" else t <= m)))
            c.fact(core.subst(z3.And(hyp, t == m), pairs))
            c.cache[ck] = m
        cache[key] = (m, idx)
        return m

    r = SymArr(rest_dims, get, a.kind)
    return r if rest_dims else r.as_scalar()


def canon_term(t, rng, vs):
    pairs = [(v, z3.Int(f"canon!{k}")) for k, v in enumerate(vs)]
    return core.subst(t, pairs).sexpr() + "|" + (core.subst(z3.And(*rng), pairs).sexpr() if rng else "")


def arg_extremum(a, what, axis=None):
    a = asarr(a)
    if axis is not None or a.ndim != 1:
        raise Unsupported("argmax along an axis")
    d = a.dims[0]
    g = a.snap()
    c = ctx()
    n = dim_size(d)
    if not c.branch(integer(n) > 0):
        raise ValueError(f"attempt to get arg{what} of an empty sequence")
    k = c.fresh("arg" + what, z3.IntSort())
    c.counter += 1
    v = z3.Int(f"q!{c.counter}")
    hyp = z3.And(v >= 0, v < integer(n))
    c.fact(z3.And(k >= 0, k < integer(n)))
    n0 = len(c.conds)
    c.conds.append(hyp)
    try:
        tv, tk = g((split(v, d),)), g((split(k, d),))
    finally:
        del c.conds[n0:]
    for e in (I(0), z3.simplify(integer(n) - 1)):  # the value at either end, by congruence
        c.fact(z3.Implies(k == e, tk == z3.simplify(g((split(e, d),)), som=True)))
    c.fact(z3.ForAll([v], z3.Implies(hyp, tv <= tk if what == "max" else tv >= tk)))
    c.fact(z3.ForAll([v], z3.Implies(z3.And(hyp, v < k), tv < tk if what == "max" else tv > tk)))
    if not c.scope:
        c.cache.setdefault("extremes", []).append(lambda i: core.subst(z3.Implies(hyp, tv <= tk if what == "max" else tv >= tk), [(v, i)]))
    return wrap(k)


def cumsum(a):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    d = a.dims[0]
    g = a.snap()
    if isinstance(d, int):
        acc, out = None, []
        for k in range(d):
            v = wrap(g((I(k),)))
            acc = v if acc is None else core.add(acc, v)
            out.append(acc)
        return asarr(out)
    c = ctx()
    f = c.fresh_fun("cumsum", [z3.IntSort()], SORT[a.kind])
    v = z3.Int("cs!bound")
    c.fact(z3.Implies(integer(dim_size(d)) > 0, f(I(0)) == g((split(I(0), d),))))
    n = integer(dim_size(d))
    c.fact(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v + 1 < n), f(v + 1) == f(v) + g((split(v + 1, d),)))))
    w = c.fresh_const("step", z3.IntSort())
    if a.kind == "f" and not c.scope and c.valid(z3.Implies(z3.And(w >= 1, w < n), g((split(w, d),)) >= 0)):
        # sums of increments that are not negative ascend (by induction)
        u = z3.Int("cs!u")
        c.fact(z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, u <= v, v < n), f(u) <= f(v)), patterns=[z3.MultiPattern(f(u), f(v))]))
    if a.kind == "f" and not c.scope:
        c.cache.setdefault("cumsums", []).append((f, d))
    return SymArr((d,), lambda idx: f(lin(idx[0], d)), a.kind)


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if a.ndim == 2 and b.ndim == 1:
        return (a * b).sum(axis=1)
    if a.ndim == 1 and b.ndim == 2:
        return (expand(a, 1) * b).sum(axis=0)
    if a.ndim == 2 and b.ndim == 2:
        return (expand(a, 2) * expand(b, 0)).sum(axis=1)
    raise Unsupported("matmul")


def expand(a, axis):
    a = asarr(a)
    n = a.ndim + 1
    axis = axis % n
    dims = a.dims[:axis] + (1,) + a.dims[axis:]
    return a._remap(dims, lambda idx: idx[:axis] + idx[axis + 1:], lambda b: (z3.BoolVal(True), b[:axis] + (I(0),) + b[axis:]))
