"""Loops by invariants: a search over orders of points.

The loop is cut: everything it changes becomes arbitrary except for invariants, each of which has been shown to hold on entry and to be
preserved by every path of the body. The candidates are given by the task in terms of what the variables hold (orders, lengths), not by their
names; those that do not hold are dropped (and what needs them is then not provable)."""
from __future__ import annotations

import z3

from . import core
from .arr import SymArr, dim_of, dim_size, lin, split
from .core import PathEnd, SInt, SReal, Unsupported, ctx, integer, real, term, wrap
from .lists import BRK, UNBOUND, Poison, Ret, kind_int, numeric, range_cond, stamp, _clock


class Invariants:
    """orders of n points that start with a given one, and their lengths"""

    modular = False

    def __init__(self, E, n, first, length):
        self.E, self.n, self.first, self.length = E, integer(n), integer(first), length
        self.final = None
        E.loops.append(("", self.for_rule))
        E.while_rule = self.while_rule

    # -- state
    def is_order(self, a):
        return a.kind == "i" and len(a.dims) == 1 and ctx().valid(integer(dim_size(a.dims[0])) == self.n)

    def content(self, item, state):
        kind, o = item
        s = o if kind == "store" else state[o].store
        if kind == "name":
            g, d = state[o].snap(), state[o].dims[0]
        else:
            g, d = o.get, o.dims[0]
        return lambda i: g((split(i, d),))

    def holds(self, t):
        c = ctx()
        t = z3.simplify(t) if isinstance(t, z3.ExprRef) else z3.BoolVal(bool(t))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return c.quick(t) or c.solve([z3.Not(t)], 3000)[0] == z3.unsat

    def index(self, base="i"):
        c = ctx()
        c.counter += 1
        v = z3.Int(f"{base}!{c.counter}")
        return v, z3.And(v >= 0, v < self.n)

    def under(self, hyp, fn):
        c = ctx()
        n0 = len(c.conds)
        c.conds.append(hyp)
        try:
            return fn()
        finally:
            del c.conds[n0:]

    def alike(self, g, h):
        from .env import functions_of

        v, r = self.index()

        def same():
            x, y = g(v), h(v)
            c = ctx()
            return x.eq(y) or functions_of(x) == functions_of(y) and (c.quick(x == y) or c.solve([x != y], 800, ground=True)[0] == z3.unsat)

        return self.under(r, same)

    def len(self, g, known):
        """length of an order: known if it is one met before"""
        for h, t in known:
            if self.alike(g, h):
                return t
        t = real(self.length(lambda i: wrap(g(integer(i)))))
        ctx().assume(t >= 0)  # a sum of roots
        known.append((g, t))
        return t

    # -- candidates
    def candidates(self, arrays, reals):
        out = [(w, k) for k in range(len(arrays)) for w in ("range", "injective", "first")]
        if len(arrays) > 1:
            out.append(("same",))
        out += [("length", x, k) for x in reals for k in range(len(arrays))]
        out += [("shorter", x) for x in reals]
        return out

    def check(self, cand, arrays, state, entry, known):
        w = cand[0]
        if w in ("range", "injective", "first"):
            g = self.content(arrays[cand[1]], state)
            if w == "first":
                return self.holds(g(z3.IntVal(0)) == self.first)
            v, r = self.index()
            if w == "range":
                return self.under(r, lambda: self.holds(z3.And(g(v) >= 0, g(v) < self.n)))
            u, q = self.index()
            return self.under(z3.And(r, q, u < v), lambda: self.holds(g(u) != g(v)))
        if w == "same":
            gs = [self.content(a, state) for a in arrays]
            return all(self.alike(gs[0], h) for h in gs[1:])
        x = state.get(cand[1], UNBOUND)
        if not numeric(x) or kind_int(x):
            return False
        if w == "length":
            return self.holds(real(x) == self.len(self.content(arrays[cand[2]], state), known))
        return self.holds(real(x) <= entry[cand[1]])

    def order(self, ranged):
        """an arbitrary order; the range of its values is a fact at every index met"""
        c = ctx()
        raw = c.fresh_fun("order", [z3.IntSort()], z3.IntSort())
        met = set()

        def f(i):
            t = raw(i)
            if ranged and t.get_id() not in met:
                met.add(t.get_id())
                c.facts.append(z3.And(t >= 0, t < self.n))  # of a fresh symbol, whose values outside of the array do not matter
            return t

        f.raw = raw
        return f

    # -- the rule
    def havoc(self, arrays, reals, ints, cands, state0, entry, set_, names):
        """an arbitrary state with the invariants"""
        c = ctx()
        fs, known = [], []
        u, v = z3.Int("inv!u"), z3.Int("inv!v")
        for k in range(len(arrays)):
            if k and ("same",) in cands:
                fs.append(fs[0])
                continue
            fs.append(self.order(("range", k) in cands))
        for k, f in enumerate(fs):
            if ("range", k) in cands:
                # values outside of the array do not matter
                t = f.raw(u)
                c.conds.append(z3.ForAll([u], z3.And(t >= 0, t < self.n), patterns=[t]))
            if ("injective", k) in cands:
                f = f.raw
                c.conds.append(z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, u < self.n, v >= 0, v < self.n, u != v), f(u) != f(v)),
                                         patterns=[z3.MultiPattern(f(u), f(v))]))
            if ("first", k) in cands:
                c.conds.append(fs[k](z3.IntVal(0)) == self.first)
        st = {n: (state0[n] if n in state0 and state0[n] is UNBOUND else Poison(n)) for n in names}
        for (kind, o), f in zip(arrays, fs):
            if kind == "store":
                d = o.dims[0]
                o.set(lambda idx, f=f, d=d: f(lin(idx[0], d)))
            else:
                d = state0[o].dims[0]
                st[o] = SymArr((d,), lambda idx, f=f, d=d: f(lin(idx[0], d)), "i")
        for x in ints:
            st[x] = SInt(c.fresh_const(f"x_{x}", z3.IntSort()))
        for x in reals:
            X = c.fresh_const(f"x_{x}", z3.RealSort())
            st[x] = SReal(X)
            for k, f in enumerate(fs):
                if ("length", x, k) in cands:
                    c.conds.append(X == self.len(f, known))
            if ("shorter", x) in cands:
                c.conds.append(X <= entry[x])
        set_(st)
        self.final = fs[0] if fs else self.final
        return st, known

    def establish(self, step, get, set_, names, body):
        """arrays, numbers and the invariants that hold; step runs the body once and says whether it goes on"""
        E, c = self.E, ctx()
        if c.scope:
            raise Unsupported("loop by invariants inside of a loop by cases")
        state0 = dict(get())
        arrays, reals, ints, entry = [], [], [], {}
        for n in names:
            v = state0.get(n, UNBOUND)
            if isinstance(v, SymArr) and self.is_order(v):
                arrays.append(("name", n))
            elif numeric(v) and kind_int(v):
                ints.append(n)
            elif numeric(v):
                reals.append(n)
                entry[n] = real(v)
        for cell in getattr(body, "__closure__", None) or ():
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            if isinstance(v, SymArr) and v.view is None and self.is_order(v) and not any(
                    o is v.store if k == "store" else state0[o].store is v.store for k, o in arrays):
                arrays.append(("store", v.store))
        n_obl, n_sums = len(E.obligations), len(c.sums)
        cands = None
        for _ in range(40):
            if cands is None:
                known = []
                cands = self.candidates(arrays, reals)
                n0 = len(c.conds)
                cands = [x for x in cands if self.check(x, arrays, state0, entry, known)]
                del c.conds[n0:]
            clock0 = _clock[0]
            failed, found, variant = set(), [], []

            def once():
                del c.sums[n_sums:]
                st0, known = self.havoc(arrays, reals, ints, cands, state0, entry, set_, names)
                mark = len(c.log)
                going = step()
                for e in c.log[mark:]:
                    if e[0] == "store" and e[1].born <= clock0 and not any(k == "store" and o is e[1] for k, o in arrays):
                        found.append(e[1])
                    elif e[0] != "store" and getattr(e[1], "born", 0) is not None and getattr(e[1], "born", 0) <= clock0:
                        raise Unsupported(f"loop by invariants changes something else ({e[0]})")
                if found:
                    return
                st = get()
                if isinstance(going, Ret):
                    raise Unsupported("return in a loop by invariants")
                for x in cands:
                    if x not in failed and not self.check(x, arrays, st, entry, known):
                        failed.add(x)
                if going is None:  # goes on: something gets shorter
                    variant.append(any(("length", x, k) in cands and numeric(st.get(x, UNBOUND)) and self.holds(real(st[x]) < real(st0[x]))
                                       for x in reals for k in range(len(arrays))))

            del E.obligations[n_obl:]
            res = c.sub_explore(once)
            set_(state0)
            for cond, (what, val), eff in res:
                if what == "exc":
                    raise Unsupported(f"exception in a loop by invariants: {val}")
            if found:
                for s in found:
                    if not any(k == "store" and o is s for k, o in arrays):
                        if not (s.kind == "i" and len(s.dims) == 1 and c.valid(integer(dim_size(s.dims[0])) == self.n)):
                            raise Unsupported("loop by invariants changes another array")
                        arrays.append(("store", s))
                cands = None
                continue
            if failed:
                cands = [x for x in cands if x not in failed]
                continue
            del c.sums[n_sums:]
            if len({id(state0[o].store) for k, o in arrays if k == "name"} | {id(o) for k, o in arrays if k == "store"}) < len(arrays):
                raise Unsupported("loop by invariants on shared arrays")
            for x in cands:
                E.prove("loop invariant: " + {"range": "indices of points", "injective": "no point twice", "first": "starts with the chosen point",
                                              "same": "orders in step", "length": "length of the order", "shorter": "not longer than before"}[x[0]], True)
            return state0, arrays, reals, ints, cands, entry, variant
        raise Unsupported("invariants of a loop not found")

    def for_rule(self, site, it, body, get, set_, names):
        c = ctx()

        def step():
            g = it.generic()
            c.assume(range_cond(g, it.dim))
            r = body(it.item(g))
            return r if isinstance(r, Ret) else BRK

        state0, arrays, reals, ints, cands, entry, _ = self.establish(step, get, set_, names, body)
        self.havoc(arrays, reals, ints, cands, state0, entry, set_, names)
        return None

    def while_rule(self, site, cond, body, get, set_, names):
        c = ctx()

        def step():
            if not cond():
                raise PathEnd()
            return body()

        state0, arrays, reals, ints, cands, entry, variant = self.establish(step, get, set_, names, body)
        from .env import Obligation

        self.E.obligations.append(Obligation("loop variant: a pass that does not end the search shortens the line", "discharged" if all(variant) else "unknown"))
        self.havoc(arrays, reals, ints, cands, state0, entry, set_, names)
        if not cond():
            return None
        r = body()
        if r is BRK or isinstance(r, Ret):
            return r
        raise PathEnd()

    def witness(self, points, out, n):
        if self.final is None:
            raise Unsupported("no loop")
        return lambda i: wrap(self.final(integer(i)))
