"""Identities of real terms with divisions and square roots, by polynomial reduction (sympy).

A term is a rational function of its atoms (other subterms) and of square roots L with L*L = x.  An
identity a = b holds if the numerator of a - b, reduced with these relations, is the zero polynomial;
every denominator must be shown different from zero and every radicand not negative by the solver.
Roots whose radicands differ by a rational square factor are the same up to the root of the factor.
"""
from __future__ import annotations

import random
from fractions import Fraction

import z3

from . import core


class NotAlgebraic(Exception):
    pass


def rational_sqrt(q):
    import math

    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    return Fraction(a, b) if a * a == q.numerator and b * b == q.denominator else None


class Conv:
    def __init__(self, c):
        import sympy

        self.sp = sympy
        self.c = c
        self.atoms = {}
        self.roots = []  # (symbol, radicand), inner ones first
        self.cache = {}

    def atom(self, t):
        k = t.get_id()
        if k not in self.atoms:
            self.atoms[k] = (self.sp.Symbol(f"v{len(self.atoms)}", real=True), t)
        return self.atoms[k][0]

    def conv(self, t):
        k = t.get_id()
        if k not in self.cache:
            self.cache[k] = (self._conv(t), t)
        return self.cache[k][0]

    def _conv(self, t):
        sp, kind = self.sp, t.decl().kind()
        if z3.is_rational_value(t):
            return sp.Rational(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_int_value(t):
            return sp.Integer(t.as_long())
        if kind == z3.Z3_OP_ADD:
            return sp.Add(*[self.conv(x) for x in t.children()])
        if kind == z3.Z3_OP_SUB:
            ch = [self.conv(x) for x in t.children()]
            return ch[0] - sp.Add(*ch[1:])
        if kind == z3.Z3_OP_MUL:
            return sp.Mul(*[self.conv(x) for x in t.children()])
        if kind == z3.Z3_OP_UMINUS:
            return -self.conv(t.arg(0))
        if kind == z3.Z3_OP_TO_REAL and z3.is_int_value(t.arg(0)):
            return self.conv(t.arg(0))
        if kind == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() >= 0:
            return self.conv(t.arg(0)) ** t.arg(1).as_long()
        if kind == z3.Z3_OP_DIV:
            if not self.nonzero(t.arg(1)):
                raise NotAlgebraic("a denominator may be zero")
            return self.conv(t.arg(0)) / self.conv(t.arg(1))
        if kind == z3.Z3_OP_ITE:
            d = self.c.decided(t.arg(0))
            if d is True or d is not False and self.c.valid(t.arg(0)):
                return self.conv(t.arg(1))
            if d is False or self.c.valid(z3.Not(t.arg(0))):
                return self.conv(t.arg(2))
            raise NotAlgebraic("an undecided case")
        if kind == z3.Z3_OP_TO_REAL and t.arg(0).decl().kind() == z3.Z3_OP_ITE:
            e = t.arg(0)
            return self.conv(z3.If(e.arg(0), z3.ToReal(e.arg(1)), z3.ToReal(e.arg(2))))
        if t.decl().name() == "sqrt":
            x = t.arg(0)
            if not self.c.valid(x >= 0):
                raise NotAlgebraic("a radicand may be negative")
            x = self.conv(x)
            return self.root(x)
        return self.atom(t)

    def nonzero(self, t):
        """different from zero: a constant multiple of a term assumed to be, or by the solver"""
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return not z3.is_true(z3.simplify(t == 0))
        sp = self.sp
        for y in getattr(self.c, "nonzero", ()):
            x, y = self.conv(t), self.conv(y)
            k = self.ratio(x, y) or self.ratio(-x, y)
            for q in ([k, -k] if k else []):
                if self.zero(x - sp.Rational(q.numerator, q.denominator) * y):
                    return True
        return self.c.valid(t != 0)

    def root(self, x):
        sp = self.sp
        if x.is_Rational:
            q = rational_sqrt(Fraction(int(x.p), int(x.q)))
            if q is not None:
                return sp.Rational(q.numerator, q.denominator)
        for s, y in self.roots:
            k = self.ratio(x, y)
            if k is not None and self.zero(x - sp.Rational(k.numerator, k.denominator) * y):
                q = rational_sqrt(k)
                if q is not None:
                    return sp.Rational(q.numerator, q.denominator) * s
        # a radicand that is a constant in disguise
        k = self.ratio(x, sp.Integer(1))
        if k is not None and self.zero(x - sp.Rational(k.numerator, k.denominator)):
            q = rational_sqrt(k)
            if q is not None:
                return sp.Rational(q.numerator, q.denominator)
        s = sp.Symbol(f"L{len(self.roots)}", positive=True)
        self.roots.append((s, x))
        return s

    def ratio(self, x, y):
        """x / y if it looks like a rational constant"""
        got = []
        for seed in (3, 4):
            rnd = random.Random(seed)
            val = {}
            for a, _ in sorted(self.atoms.values(), key=lambda q: q[0].name):
                val[a] = rnd.uniform(0.5, 2.0)
            try:
                for s, r in self.roots:
                    v = float(r.subs(val))
                    if v <= 0:
                        return None
                    val[s] = v**0.5
                a, b = float(x.subs(val)), float(y.subs(val))
            except (TypeError, ValueError, ZeroDivisionError):
                return None
            if abs(b) < 1e-12:
                return None
            got.append(a / b)
        if abs(got[0] - got[1]) > 1e-9 * max(1.0, abs(got[0])):
            return None
        k = Fraction(got[0]).limit_denominator(64)
        return k if k > 0 and abs(float(k) - got[0]) < 1e-9 * max(1.0, abs(got[0])) else None

    def zero(self, x):
        """the numerator reduces to zero"""
        sp = self.sp
        work = [sp.fraction(sp.together(x))[0]]
        for s, r in reversed(self.roots):
            nxt = []
            num, den = sp.fraction(sp.together(r))
            for w in work:
                p = sp.Poly(sp.expand(w), s)
                parts = [sp.Integer(0), sp.Integer(0)]
                top = p.degree() // 2
                for (e,), co in p.terms():
                    parts[e % 2] += co * num ** (e // 2) * den ** (top - e // 2)
                nxt += [sp.expand(q) for q in parts]
            work = [w for w in nxt if w != 0]
            if not work:
                return True
        return all(sp.expand(w) == 0 for w in work)


def identical(c, a, b):
    """whether a = b by algebra, under the hypotheses of the path"""
    try:
        k = Conv(c)
        d = k.conv(z3.simplify(core.real(a))) - k.conv(z3.simplify(core.real(b)))
        return bool(k.zero(d))
    except NotAlgebraic as e:
        if __import__("os").environ.get("PVC_DEBUG"):
            print("algebra:", e)
        return False
