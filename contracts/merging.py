"""C09: merging structured grids."""
from pvc.env import task

G = "merge"


def grid(E, name, n):
    return E.structured(name, [k + 1 for k in n])


def replaced(t, axis, v):
    t = list(t)
    t[axis] = v
    return t


NAMES = "abcd"


def joined(E, axis, data, count=2, flat=None):
    """count grids of any sizes that fit together, flat along one of the axes if asked for"""
    size = [1 if k == flat else E.int(f"n{k}", lo=1) for k in range(3)]
    pts = lambda n: [1 if k == flat else v + 1 for k, v in enumerate(n)]
    cells = [replaced(size, axis, size[axis] if g == 0 else E.int(f"n{NAMES[g]}", lo=1)) for g in range(count)]
    points = [pts(n) for n in cells]
    grids = [E.structured(NAMES[g], points[g]) for g in range(count)]
    others = [k for k in range(3) if k != axis]
    full = lambda p, q, v: [p if k == others[0] else q if k == others[1] else v for k in range(3)]
    P0 = [g.points for g in grids]
    for g in range(1, count):
        E.tie(f"{NAMES[g]}.points", [points[0][others[0]], points[0][others[1]], 3],
              lambda p, q, c, g=g: (E.lin(full(p, q, 0), points[g]), c),
              lambda p, q, c, g=g: P0[g - 1][E.lin(full(p, q, cells[g - 1][axis]), points[g - 1]), c])
    if data:
        s = [E.data(m, "cell", "s", "s" + NAMES[g]) for g, m in enumerate(grids)]
        v = [E.data(m, "cell", "v", "v" + NAMES[g], 3) for g, m in enumerate(grids)]
        E.data(grids[0], "cell", "only", "onlya")
        E.data(grids[1], "cell", "other", "onlyb")
    E.ready()
    m = E.fn(G)(grids, axis=axis)
    first, total = [], 0
    for n in cells:
        first.append(total)
        total = total + n[axis]
    nm = replaced(cells[0], axis, total)
    dm = pts(nm)
    E.dimensions("sizes add up along the axis", m, dm)
    E.has_keys("cell data common to both", m.cell_data, ["s", "v"] if data else [])
    P = m.points
    S, V = (m.cell_data["s"], m.cell_data["v"]) if data else (None, None)
    shift = lambda i, s: replaced(i, axis, i[axis] + s)
    if data:
        E.shape("vector cell data", V, [nm[0] * nm[1] * nm[2], 3])
    for g in range(count):
        what = f"of grid {g + 1}"
        for c in range(3):
            E.forall(f"points {what} at their place, coordinate {c}", points[g],
                     lambda *i: E.eq(P[E.lin(shift(i, first[g]), dm), c], P0[g][E.lin(i, points[g]), c], 1e-5))
        if data:
            E.forall(f"cell data {what} at their place", cells[g], lambda *i: E.eq(S[E.lin(shift(i, first[g]), nm)], s[g][E.lin(i, cells[g])]))
            E.forall(f"vector cell data {what} at their place", [*cells[g], 3],
                     lambda i, j, k, c: E.eq(V[E.lin(shift((i, j, k), first[g]), nm), c], v[g][E.lin((i, j, k), cells[g]), c]))
    E.unchanged("grids unchanged")


def mk(axis, data, count=2, flat=None):
    @task("C09", f"merge-{count}-axis{axis}" + ("" if flat is None else f"-flat{flat}") + ("-data" if data else ""), [G], secs=150, n_conc=25)
    def t(E):
        joined(E, axis, data, count, flat)


for ax in range(3):
    mk(ax, False)
    mk(ax, True)
    mk(ax, True, 3)
    for fl in range(3):
        if fl != ax:
            mk(ax, True, 2, fl)


@task("C09", "merge-invalid", [G])
def invalid(E):
    n = [E.int(f"n{k}", lo=1) for k in range(3)]
    a, b = grid(E, "a", n), grid(E, "b", n)
    _, e = E.attempt(lambda: E.fn(G)([a, b]))
    E.prove("missing axis raises ValueError", isinstance(e, ValueError))


def mk_mismatch(axis):
    @task("C09", f"merge-mismatch-axis{axis}", [G], n_conc=60)
    def t(E):
        n = [E.int(f"n{k}", lo=1) for k in range(3)]
        d = [k + 1 for k in n]
        a, b = grid(E, "a", n), grid(E, "b", n)
        PA, PB = a.points, b.points
        idx = [E.int(f"i{k}", lo=0) for k in range(3)]
        c = E.choice("c", [0, 1, 2])
        for k in range(3):
            E.assume(E.le(idx[k] + 1, d[k]))
        other = list(idx)
        idx[axis], other[axis] = n[axis], 0
        big = 20.0
        E.assume_all([*d, 3], lambda i, j, k, c: E.both(*[E.both(E.le(-big, P[E.lin((i, j, k), d), c]), E.le(P[E.lin((i, j, k), d), c], big)) for P in (PA, PB)]))
        x, y = PA[E.lin(idx, d), c], PB[E.lin(other, d), c]
        E.assume(E.either(E.le(x + 0.5, y), E.le(y + 0.5, x)))
        _, e = E.attempt(lambda: E.fn(G)([a, b], axis=axis))
        E.prove("interfaces that do not match raise ValueError", isinstance(e, ValueError))


for ax in range(3):
    mk_mismatch(ax)
