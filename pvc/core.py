"""Symbolic values, path exploration and obligations.

The code of /repo is executed by CPython itself on the values defined here; every branch on a
symbolic condition is decided by the solver under the path condition, both sides being explored
when both are feasible.  Reals stand for floats (stated assumption), integers are unbounded.
"""
from __future__ import annotations

import time
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 0)


class Control(BaseException):
    """Control flow of the engine; never caught by code under verification."""


class Unsupported(Control):
    """The code left the subset the engine models: the obligation stays undischarged."""


class PathEnd(Control):
    """The path is infeasible (an assumption does not hold)."""


class BudgetEnd(Control):
    """Time or path budget used up."""


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside a run")
    return CTX


Name = z3.DeclareSort("Name")
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
ACOS = z3.Function("acos", z3.RealSort(), z3.RealSort())
LOG10 = z3.Function("log10", z3.RealSort(), z3.RealSort())
PI = z3.Real("pi")
SPECIAL = {f.name(): f for f in (SQRT, SIN, COS, ACOS, LOG10)}


# ---------------------------------------------------------------- scalars
def real(x):
    """z3 real of a python or symbolic number."""
    t = term(x)
    if z3.is_bool(t):
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def integer(x):
    t = term(x)
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(t):
        return t
    raise Unsupported(f"real used as integer: {t}")


NAN = z3.Real("nan!")


def term(x):
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if isinstance(x, str):
        return name_const(x)
    import numpy as np

    if isinstance(x, np.bool_):
        return z3.BoolVal(bool(x))
    if isinstance(x, np.integer):
        return z3.IntVal(int(x))
    if isinstance(x, np.floating):
        return term(float(x))
    if isinstance(x, np.str_):
        return name_const(str(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return term(x.item())
    if hasattr(x, "as_scalar"):
        return term(x.as_scalar())
    raise Unsupported(f"not a scalar: {type(x).__name__}")


_names: dict[str, z3.ExprRef] = {}


def name_const(s):
    if s not in _names:
        _names[s] = z3.Const(f"name!{s}", Name)
    return _names[s]


def names_distinct():
    v = list(_names.values())
    return [z3.Distinct(*v)] if len(v) > 1 else []


def is_conc_num(x):
    import numpy as np

    return isinstance(x, (int, float, bool, np.integer, np.floating, np.bool_))


def wrap(t):
    if not isinstance(t, z3.ExprRef):
        return t
    if z3.is_bool(t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)
    if z3.is_int(t):
        if z3.is_int_value(t):
            return t.as_long()
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        return SInt(t)
    if z3.is_real(t):
        return SReal(t)
    if t.sort() == Name:
        for k, v in _names.items():
            if v.eq(t):
                return k
        return SStr(t)
    raise Unsupported(f"sort {t.sort()}")


class Sym:
    __slots__ = ("t", "fac")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t, fac=None):
        self.t = t
        self.fac = fac

    def __repr__(self):
        return f"<{self.t}>"

    def __format__(self, spec):
        return repr(self)

    def __array__(self, *a, **k):
        raise Unsupported("symbolic value converted to a real array")

    # numpy-scalar look-alike attributes
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1


def _arr(o):
    return hasattr(o, "_is_symarr") or type(o).__module__ == "numpy" and type(o).__name__ == "ndarray"


def _num(o):
    return isinstance(o, (Sym,)) and not isinstance(o, SStr) or is_conc_num(o)


def _lift(o, fn, a, refl=False):
    """arithmetic with a real ndarray: lift it to a symbolic array"""
    from .arr import asarr, elementwise

    if isinstance(o, str):
        return NotImplemented
    o = asarr(o)
    return elementwise(fn, o, a) if refl else elementwise(fn, a, o)


class SNum(Sym):
    __slots__ = ()

    def _bin(self, o, fn, refl=False):
        if _num(o):
            return fn(o, self) if refl else fn(self, o)
        if _arr(o):
            return _lift(o, fn, self, refl)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, add)

    def __radd__(self, o):
        return self._bin(o, add, True)

    def __sub__(self, o):
        return self._bin(o, sub)

    def __rsub__(self, o):
        return self._bin(o, sub, True)

    def __mul__(self, o):
        return self._bin(o, mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            from .lists import repeat_list

            return repeat_list(o, self)
        return self._bin(o, mul, True)

    def __truediv__(self, o):
        return self._bin(o, div)

    def __rtruediv__(self, o):
        return self._bin(o, div, True)

    def __floordiv__(self, o):
        return self._bin(o, floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, floordiv, True)

    def __mod__(self, o):
        return self._bin(o, mod)

    def __rmod__(self, o):
        return self._bin(o, mod, True)

    def __pow__(self, o):
        return self._bin(o, power)

    def __rpow__(self, o):
        return self._bin(o, power, True)

    def __neg__(self):
        return sub(0, self) if isinstance(self, SInt) else wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        t = integer(self) if not isinstance(self, SReal) else self.t
        return wrap(z3.If(t >= 0, t, -t))

    def __eq__(self, o):
        return self._bin(o, eq)

    def __ne__(self, o):
        return self._bin(o, ne)

    def __lt__(self, o):
        return self._bin(o, lt)

    def __le__(self, o):
        return self._bin(o, le)

    def __gt__(self, o):
        return self._bin(o, gt)

    def __ge__(self, o):
        return self._bin(o, ge)

    def __hash__(self):
        return self.t.hash()

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __round__(self, n=None):
        raise Unsupported("round")

    def clip(self, lo, hi):
        t = real(self)
        return wrap(z3.If(t < real(lo), real(lo), z3.If(t > real(hi), real(hi), t)))

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, k):
        from .arr import to_kind, kind_of_dtype

        return wrap(to_kind(self.t, kind_of_dtype(k)))

    @property
    def dtype(self):
        from .arr import DType

        return DType("i" if isinstance(self, SInt) else "b" if isinstance(self, SBool) else "f")


class SInt(SNum):
    __slots__ = ()

    def __index__(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported(f"symbolic integer where Python needs a concrete one: {s}")

    def __int__(self):
        return self.__index__()

    def bit_length(self):
        raise Unsupported("bit_length")


class SReal(SNum):
    __slots__ = ()

    def __float__(self):
        raise Unsupported("symbolic float where Python needs a concrete one")


class SBool(SNum):
    __slots__ = ()

    def __bool__(self):
        return ctx().branch(self.t)

    def _b(self, o, f, fn):
        if isinstance(o, (SBool, bool)) or type(o).__name__ == "bool_":
            return wrap(f(self.t, term(o)))
        if _arr(o):
            return _lift(o, fn, self)
        return NotImplemented

    def __and__(self, o):
        return self._b(o, z3.And, and_)

    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, z3.Or, or_)

    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, z3.Xor, xor_)

    __rxor__ = __xor__

    def __invert__(self):
        return wrap(z3.Not(self.t))

    def all(self, *a, **k):
        return self

    any = all


class SStr(Sym):
    """A string known only up to equality, with a possible leading tilde."""

    __slots__ = ()

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return wrap(self.t == term(o))
        return False

    def __ne__(self, o):
        if isinstance(o, (str, SStr)):
            return wrap(self.t != term(o))
        return True

    def __hash__(self):
        return self.t.hash()

    def startswith(self, s):
        if s == "~":
            return wrap(TILDE(self.t))
        raise Unsupported("startswith")

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start == 1 and k.stop is None:
            ctx().need_tilde(self.t)
            return wrap(UNTILDE(self.t))
        raise Unsupported("string slice")

    def __bool__(self):
        return True


TILDE = z3.Function("has_tilde", Name, z3.BoolSort())
UNTILDE = z3.Function("without_tilde", Name, Name)


# ---------------------------------------------------------------- arithmetic on scalars
def _both_int(a, b):
    return not z3.is_real(a) and not z3.is_real(b)


def _coerce(x, y):
    a, b = term(x), term(y)
    if z3.is_bool(a) or z3.is_bool(b) or _both_int(a, b):
        if not z3.is_real(a) and not z3.is_real(b):
            return integer(a), integer(b)
    return real(a), real(b)


def conc(*xs):
    return all(is_conc_num(x) for x in xs)


def add(x, y):
    if conc(x, y):
        return x + y
    if is_conc_num(x) and x == 0 and isinstance(y, SInt):
        return y
    if is_conc_num(y) and y == 0 and isinstance(x, SInt):
        return x
    a, b = _coerce(x, y)
    return wrap(a + b)


def sub(x, y):
    if conc(x, y):
        return x - y
    if is_conc_num(y) and y == 0 and isinstance(x, SInt):
        return x
    a, b = _coerce(x, y)
    return wrap(a - b)


def mul(x, y):
    if conc(x, y):
        return x * y
    for u, v in ((x, y), (y, x)):
        if isinstance(u, int) and not isinstance(u, bool) and u == 1 and isinstance(v, SInt):
            return v
    a, b = _coerce(x, y)
    r = wrap(a * b)
    if isinstance(r, SInt):
        r.fac = factors_of(x) + factors_of(y)
    return r


def factors_of(x):
    """factors, fastest first, of an integer used as a size"""
    if isinstance(x, SInt) and x.fac:
        return tuple(x.fac)
    if isinstance(x, Sym):
        return (x.t,)
    if isinstance(x, z3.ExprRef):
        return (x,)
    return () if int(x) == 1 else (int(x),)


def fac_eq(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b) or z3.simplify(a).eq(z3.simplify(b))


def cancel(xs, ys):
    """xs with the factors ys removed, or None"""
    xs = list(xs)
    for y in ys:
        for i, x in enumerate(xs):
            if fac_eq(x, y):
                del xs[i]
                break
        else:
            return None
    return tuple(xs)


def prod_term(fac):
    t = None
    for f in fac:
        f = z3.IntVal(f) if isinstance(f, int) else f
        t = f if t is None else t * f
    return z3.IntVal(1) if t is None else t


def from_factors(fac):
    fac = tuple(fac)
    if not fac:
        return 1
    if all(isinstance(f, int) for f in fac):
        n = 1
        for f in fac:
            n *= f
        return n
    if len(fac) == 1:
        return SInt(fac[0])
    return SInt(prod_term(fac), fac)


def floordiv(x, y):
    if conc(x, y):
        return x // y
    fx, fy = None, None
    if isinstance(x, SInt) and (isinstance(y, SInt) or isinstance(y, int)):
        r = cancel(factors_of(x), factors_of(y))
        if r is not None and ctx().valid(integer(y) != 0):
            return from_factors(r)
    a, b = _coerce(x, y)
    if z3.is_real(a):
        raise Unsupported("floor division of reals")
    if not ctx().valid(b > 0):
        raise Unsupported("floor division by a possibly non-positive number")
    return wrap(a / b)


def mod(x, y):
    if conc(x, y):
        return x % y
    a, b = _coerce(x, y)
    if z3.is_real(a):
        raise Unsupported("modulo of reals")
    if isinstance(x, SInt) and isinstance(y, SInt):
        r = cancel(factors_of(x), factors_of(y))
        if r is not None:
            return 0
    if not ctx().valid(b > 0):
        raise Unsupported("modulo by a possibly non-positive number")
    return wrap(a % b)


def div(x, y):
    if conc(x, y):
        return x / y
    a, b = real(x), real(y)
    if not ctx().valid(b != 0):
        # numpy yields inf or nan here: the result is unknown on that part
        c = ctx()
        c.taint("division by zero is possible")
        return wrap(z3.If(b == 0, c.fresh("divzero", z3.RealSort()), a / b))
    return wrap(a / b)


def power(x, y):
    if conc(x, y):
        return x**y
    if isinstance(y, (SReal, SInt)):
        t = z3.simplify(y.t)
        if z3.is_rational_value(t) or z3.is_int_value(t):
            y = t.as_long() if z3.is_int_value(t) else float(t.as_fraction())
    if is_conc_num(y):
        if float(y) == 2.0:
            return mul(x, x)
        if float(y) == 1.0:
            return x
        if float(y) == 0.5:
            return sqrt(x)
        if isinstance(y, int) and y >= 0:
            r = 1
            for _ in range(y):
                r = mul(r, x)
            return r
    raise Unsupported("power")


def sqrt(x):
    if is_conc_num(x) and float(x) >= 0 and float(x) ** 0.5 == int(float(x) ** 0.5):
        return float(x) ** 0.5
    t = z3.simplify(real(x), som=True)
    if CTX is not None and find_ite(t) is not None:
        t = z3.simplify(CTX.settle(t), som=True)
    if is_unit(t):
        return SReal(z3.RealVal(1))
    return SReal(SQRT(t))


def is_unit(t):
    """the square of a length that is divided by a length: a lemma, proved by itself, that it is one"""
    c = CTX
    if c is None:
        return False
    key = ("unit", t.get_id(), c.ckey())
    if key in c.cache:
        return c.cache[key]
    c.cache[key] = False
    c.cache[key, "term"] = t
    inner = [e for e in special_apps([t]) if e.decl().name() == "sqrt"]
    if not inner or len(inner) > 2:
        return False
    s = z3.SolverFor("QF_NRA")
    s.set("timeout", 1000)
    pairs = [(e, z3.Real(f"unit!{k}")) for k, e in enumerate(inner)]
    flat = lambda x: atoms_to_vars(z3.substitute(x, *pairs))
    for e, v in pairs:
        s.add(v > 0, v * v == flat(e.arg(0)))
    s.add(flat(t) != 1)
    c.stats["queries"] += 1
    if s.check() == z3.unsat and c.valid(z3.And(*[e > 0 for e in inner])):
        c.cache[key] = True
    return c.cache[key]


def atoms_to_vars(t):
    """the term as a polynomial expression over fresh variables, one per other subterm"""
    def walk(e):
        k = e.decl().kind()
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return e
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER):
            ch = [walk(x) for x in e.children()]
            return e.decl()(*ch) if k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else (z3.Sum(ch) if k == z3.Z3_OP_ADD else z3.Product(ch))
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return e
        return z3.Real(f"atom!{e.get_id()}")

    return walk(t)


def fun1(f):
    def g(x):
        return SReal(f(z3.simplify(real(x), som=True)))

    return g


def _cmp(op, cop):
    def f(x, y):
        if conc(x, y):
            return bool(cop(x, y))
        a, b = _coerce(x, y)
        return wrap(op(a, b))

    return f


import operator as _op

_lt = _cmp(lambda a, b: a < b, _op.lt)
_le = _cmp(lambda a, b: a <= b, _op.le)


def lt(x, y):
    return _lt(x, y)


def le(x, y):
    return _le(x, y)


def gt(x, y):
    return _lt(y, x)


def ge(x, y):
    return _le(y, x)


def eq(x, y):
    if isinstance(x, (str, SStr)) or isinstance(y, (str, SStr)):
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
            return wrap(term(x) == term(y))
        return False
    if conc(x, y):
        return bool(x == y)
    if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
        return wrap(term(x) == term(y))
    a, b = _coerce(x, y)
    if a.eq(b):
        return True
    return wrap(a == b)


def ne(x, y):
    r = eq(x, y)
    return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))


def and_(x, y):
    if is_conc_num(x) and is_conc_num(y):
        return x & y
    return wrap(z3.And(boolean(x), boolean(y)))


def or_(x, y):
    if is_conc_num(x) and is_conc_num(y):
        return x | y
    return wrap(z3.Or(boolean(x), boolean(y)))


def xor_(x, y):
    if is_conc_num(x) and is_conc_num(y):
        return x ^ y
    return wrap(z3.Xor(boolean(x), boolean(y)))


def boolean(x):
    t = term(x)
    if z3.is_bool(t):
        return t
    return t != 0


def not_(x):
    if is_conc_num(x):
        return not x
    return wrap(z3.Not(boolean(x)))


def ite(c, a, b):
    """merge of two scalars"""
    c = boolean(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        return wrap(z3.If(c, term(a), term(b)))
    ta, tb = term(a), term(b)
    if z3.is_bool(ta) and z3.is_bool(tb):
        return wrap(z3.If(c, ta, tb))
    ta, tb = _coerce(a, b)
    return wrap(z3.If(c, ta, tb))


# ---------------------------------------------------------------- context
class Frame:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []
        self.alts = []


class Ctx:
    def __init__(self, prefix=(), deadline=None, branch_ms=1500, prove_ms=6000):
        self.frames = [Frame(prefix)]
        self.conds = []  # path condition and definitional facts
        self.facts = []  # quantified or definitional facts on fresh symbols (always true)
        self.counter = 0
        self.log = []  # mutations, for undo
        self.scope = []  # generic index symbols in force
        self.tainted = []
        self.deadline = deadline
        self.branch_ms = branch_ms
        self.prove_ms = prove_ms
        self.cache = {}
        self.stats = dict(queries=0, solver_s=0.0, branches=0)
        self.env = None
        self.depth = 0
        self.scans = {}  # sequences defined by recursion: step to each element
        self.cases = {}  # named conditions of loop iterations
        self.list_reads = {}  # lists read in the loop body in progress
        self.sub_base = None
        self.sums = []  # sums over one index of symbolic range: (term, summand, index, size)

    # -- fresh symbols
    def fresh(self, base, sort):
        self.counter += 1
        nm = f"{base}!{self.counter}"
        if self.scope:
            dom = [s.sort() for s in self.scope]
            return z3.Function(nm, *dom, sort)(*self.scope)
        return z3.Const(nm, sort)

    def fresh_const(self, base, sort):
        self.counter += 1
        return z3.Const(f"{base}!{self.counter}", sort)

    def fresh_fun(self, base, dom, sort):
        self.counter += 1
        nm = f"{base}!{self.counter}"
        dom = list(dom)
        if self.scope:
            sc = list(self.scope)
            f = z3.Function(nm, *[s.sort() for s in sc], *dom, sort)
            return lambda *a: f(*sc, *a)
        return z3.Function(nm, *dom, sort)

    def fact(self, t):
        """a definitional fact about fresh symbols; closed over the generic indices in force"""
        t = t if isinstance(t, z3.ExprRef) else z3.BoolVal(bool(t))
        if self.sub_base is not None:
            hyp = self.conds[self.sub_base:]
            t = z3.Implies(z3.And(*hyp), t) if hyp else t
        if self.scope:
            used = [s for s in self.scope if mentions(t, s)]
            t = z3.ForAll(used, t) if used else t
        self.facts.append(t)

    def ckey(self):
        """what facts recorded now depend on"""
        return tuple(x.get_id() for x in self.conds[self.sub_base:]) if self.sub_base is not None else ()

    def taint(self, why):
        if why not in self.tainted:
            self.tainted.append(why)

    # -- solving
    def solve(self, extra, ms, ground=False):
        """ground: only the quantifier-free hypotheses, so that only unsat means anything"""
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise BudgetEnd()
        allc = self.facts + self.conds + list(extra)
        if self.scans:
            allc = allc + self.unfold(allc)
        free = [c for c in allc if not quantifies(c)]
        more = axioms(allc) + list(names_distinct())
        stages = [(free, min(ms, 2000)), (allc, ms)]
        if not ground and not any(nonlinear(e) for e in extra):
            # where the goal is linear the linear hypotheses are often enough
            part = [c for c in allc if not nonlinear(c)]
            if len(part) < len(allc):
                stages.insert(0, (part, min(ms, 1000)))
        if self.cases and not ground and ms > 2000:
            inst = self.unfold_cases(free)
            if inst:
                stages.insert(1, ([z3.simplify(x, som=True) for x in free + inst], ms))
        for part, t in stages:
            if part is allc and (ground or len(free) == len(allc) and r != z3.unknown):
                break
            s = z3.Solver()
            s.set("timeout", int(t))
            s.add(*part, *more)
            r = s.check()
            # a subset of the hypotheses is enough for a proof, not for a counterexample
            if r == z3.unsat:
                break
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        return r, s

    def unfold(self, exprs):
        """the defining equation at the indices present of the sequences defined by recursion"""
        seen, out = set(), []
        stack = [e for e in exprs if not quantifies(e)]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.num_args() == 1 and e.decl().name() in self.scans:
                    out.append(self.scans[e.decl().name()](z3.simplify(e.arg(0) - 1)))
                stack.extend(e.children())
        return out

    def unfold_cases(self, exprs):
        """definitions of the named conditions present"""
        seen, out = set(), []
        stack = list(exprs)
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.decl().name() in self.cases:
                    gv, cond = self.cases[e.decl().name()]
                    out.append(e == z3.substitute(cond, *[(v, a) for v, a in zip(gv, e.children())]))
                    stack.append(out[-1])
                stack.extend(e.children())
        return out

    def feasible(self, cond=None):
        r, _ = self.solve([] if cond is None else [cond], self.branch_ms)
        return r != z3.unsat

    def valid(self, cond):
        cond = cond if isinstance(cond, z3.ExprRef) else z3.BoolVal(bool(cond))
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = ("valid", c.get_id(), tuple(x.get_id() for x in self.conds), len(self.facts))
        if key in self.cache and self.cache[key][1].eq(c):
            return self.cache[key][0]
        v = self.quick(c) or self.solve([z3.Not(c)], self.branch_ms)[0] == z3.unsat
        self.cache[key] = (v, c)
        return v

    def quick(self, c):
        """whether the small quantifier-free hypotheses about the same constants imply the condition"""
        mine = consts_of(c)[0]
        part = []
        new = []
        for h in self.facts + self.conds:
            names, n, quant = consts_of(h)
            if not quant and n <= 60 and names & mine:
                part.append(h)
                new += [x for x in names if isinstance(x, tuple) and x not in mine]
        if new:  # hypotheses on sums and roots equal to these
            part += [h for h in self.conds if not consts_of(h)[2] and consts_of(h)[1] <= 60 and consts_of(h)[0].intersection(new)]
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(*part, z3.Not(c))
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        return r == z3.unsat

    def decided(self, c):
        """True or False where the hypotheses decide the condition quickly, else the condition"""
        c = z3.simplify(c)
        if z3.is_true(c) or self.quick(c):
            return True
        if z3.is_false(c) or self.quick(z3.Not(c)):
            return False
        return c

    def settle(self, t):
        """the term without the conditionals whose condition is decided by the hypotheses"""
        for _ in range(20):
            e = find_ite(t)
            if e is None:
                return t
            c = e.arg(0)
            if self.quick(c):
                t = z3.simplify(z3.substitute(t, (e, e.arg(1))))
            elif self.quick(z3.Not(c)):
                t = z3.simplify(z3.substitute(t, (e, e.arg(2))))
            else:
                return t
        return t

    def branch(self, cond, expect=False):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
            fr.pos += 1
            fr.taken.append(d)
            self.conds.append(c if d else z3.Not(c))
            return d
        self.stats["branches"] += 1
        # the quantifier-free hypotheses decide most conditions quickly
        if expect and self.quick(c):
            d = True
        elif self.solve([c], self.branch_ms, ground=True)[0] == z3.unsat:
            d = False
        elif self.solve([z3.Not(c)], self.branch_ms, ground=True)[0] == z3.unsat:
            d = True
        elif self.solve([c], self.branch_ms)[0] == z3.unsat:
            d = False
        else:
            rf, _ = self.solve([z3.Not(c)], self.branch_ms)
            if rf == z3.unsat:
                d = True
            else:
                d = True
                fr.alts.append(fr.taken + [False])
        fr.pos += 1
        fr.prefix.append(d)
        fr.taken.append(d)
        self.conds.append(c if d else z3.Not(c))
        return d

    def assume(self, cond):
        c = cond.t if isinstance(cond, Sym) else cond
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.conds.append(c)
        if z3.is_false(c):
            raise PathEnd()

    def need_tilde(self, t):
        if not self.valid(TILDE(t)):
            raise Unsupported("first character of a string dropped")

    # -- mutations
    def record(self, kind, obj, undo, **info):
        self.log.append((kind, obj, undo, info))

    def undo_to(self, mark):
        while len(self.log) > mark:
            _, _, undo, _ = self.log.pop()
            if undo is not None:
                undo()

    # -- nested exploration
    def sub_explore(self, fn, limit=200):
        """Runs fn on every path, undoing its mutations; list of (condition, outcome, effects)."""
        out = []
        stack = [[]]
        n0 = len(self.conds)
        self.depth += 1
        base0 = self.sub_base
        if base0 is None:
            self.sub_base = n0
        try:
            while stack:
                if len(out) > limit:
                    raise Unsupported("too many paths in a loop body")
                prefix = stack.pop()
                fr = Frame(prefix)
                self.frames.append(fr)
                mark = len(self.log)
                try:
                    try:
                        outcome = ("ok", fn())
                    except PathEnd:
                        outcome = None
                    except Exception as e:  # raised by the code under verification
                        outcome = ("exc", e)
                    effects = list(self.log[mark:])
                finally:
                    self.undo_to(mark)
                    self.frames.pop()
                    conds = self.conds[n0:]
                    del self.conds[n0:]
                stack.extend(fr.alts)
                if outcome is not None:
                    out.append((z3.And(*conds) if conds else z3.BoolVal(True), outcome, effects))
        finally:
            self.depth -= 1
            self.sub_base = base0
        return out


_quant_cache = {}


_const_cache = {}


def consts_of(t):
    """(names of the uninterpreted constants, number of nodes, whether quantified)"""
    hit = _const_cache.get(t.get_id())
    if hit is not None and hit[0].eq(t):
        return hit[1]
    seen, stack, names, quant = set(), [t], set(), False
    while stack and len(seen) < 200:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            quant = True
            break
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(e.decl().name())
        if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and (e.decl().name() == "sqrt" or e.decl().name().startswith("Sum!")):
            names.add((e.decl().name(), i))
            continue
        stack.extend(e.children())
    r = (names, len(seen), quant)
    _const_cache[t.get_id()] = (t, r)
    return r


def find_ite(t, deep=False):
    """a conditional of the term (outside of function arguments, unless deep)"""
    stack = [t]
    while stack:
        e = stack.pop()
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE:
                return e
            if deep or e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
                stack.extend(e.children())
    return None


_nl_cache = {}


def nonlinear(t):
    """products of reals or roots"""
    r = _nl_cache.get(t.get_id())
    if r is not None and r[1].eq(t):
        return r[0]
    if z3.is_quantifier(t):
        v = nonlinear(t.body())
    elif not z3.is_app(t):
        v = False
    else:
        k = t.decl().kind()
        v = z3.is_real(t) and (k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(x) for x in t.children()) > 1
                               or k == z3.Z3_OP_POWER or k == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1))
                               or k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.decl().name() in ("sqrt", "sin", "cos", "acos", "log10"))
        v = v or any(nonlinear(x) for x in t.children())
    _nl_cache[t.get_id()] = (v, t)
    return v


def quantifies(t):
    """whether the formula contains a quantifier"""
    hit = _quant_cache.get(t.get_id())
    if hit is not None and hit[1].eq(t):
        return hit[0]
    seen, stack, r = set(), [t], False
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            r = True
            break
        stack.extend(e.children())
    _quant_cache[t.get_id()] = (r, t)
    return r


_mention_cache = {}


def mentions(t, s):
    key = (t.get_id(), s.get_id())
    hit = _mention_cache.get(key)
    if hit is not None and hit[1].eq(t) and hit[2].eq(s):
        return hit[0]
    seen = set()
    stack = [t]
    r = False
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if e.eq(s):
            r = True
            break
        if z3.is_quantifier(e):
            stack.append(e.body())
        else:
            stack.extend(e.children())
    _mention_cache[key] = (r, t, s)
    return r


def special_apps(exprs):
    """ground applications of the special functions"""
    seen, out = set(), []
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e):
            if e.decl().name() in SPECIAL and e.num_args() == 1:
                out.append(e)
            stack.extend(e.children())
    return out


def axioms(exprs):
    """instances, on the ground terms present, of the assumed facts on sqrt, sin, cos, acos, log10"""
    apps = special_apps(exprs)
    out = []
    logs = []
    for e in apps:
        n, x = e.decl().name(), e.arg(0)
        if n == "sqrt":
            out.append(z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)))
            out.append(z3.Implies(x > 0, e > 0))
        elif n == "sin":
            out.append(e * e + COS(x) * COS(x) == 1)
        elif n == "cos":
            out.append(e * e + SIN(x) * SIN(x) == 1)
            out.append(z3.And(e >= -1, e <= 1))
        elif n == "acos":
            out.append(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(COS(e) == x, SIN(e) >= 0, e >= 0)))
            out.append(z3.Implies(x == 1, e == 0))
            out.append(z3.Implies(z3.And(x >= -1, x < 1), e > 0))
        elif n == "log10":
            logs.append(e)
            out.append(z3.Implies(x == 1, e == 0))
            out.append(z3.Implies(x == 10, e == 1))
            out.append(z3.Implies(x > 0, z3.And((x > 1) == (e > 0), (x < 1) == (e < 0), (x > 10) == (e > 1), (x < 10) == (e < 1))))
    for i, a in enumerate(logs):
        for b in logs[i + 1:]:
            x, y = a.arg(0), b.arg(0)
            out.append(z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (a < b), (x == y) == (a == b))))
    # strict concavity on equally spaced arguments
    if len(logs) <= 5:
        for a in logs:
            for b in logs:
                for d in logs:
                    if a.eq(b) or b.eq(d) or a.eq(d):
                        continue
                    x, y, w = a.arg(0), b.arg(0), d.arg(0)
                    out.append(z3.Implies(z3.And(x > 0, x < y, y < w, y - x == w - y), b - a > d - b))
    return out


# ---------------------------------------------------------------- exploration of whole tasks
def explore(run, deadline, max_paths=400, **kw):
    """run(ctx) on every path.  Yields (ctx, outcome)."""
    global CTX
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        c = Ctx(prefix, deadline=deadline, **kw)
        n += 1
        prev, CTX = CTX, c
        try:
            try:
                outcome = ("ok", run(c))
            except PathEnd:
                outcome = ("dead", None)
            except (Unsupported, BudgetEnd) as e:
                outcome = ("unsupported", e)
        finally:
            CTX = prev
        stack.extend(c.frames[0].alts)
        yield c, outcome
        if outcome[0] == "unsupported" and isinstance(outcome[1], BudgetEnd):
            return
        if n >= max_paths and stack:
            c.tainted.append("path budget")
            yield c, ("unsupported", Unsupported("path budget used up"))
            return


def subst(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t
