"""C14: cell centers."""
from pvc.env import task
from .listing import SIZE, TYPES

F = "get_cell_centers"
SHAPES = {k: n for k, n in SIZE.items() if k not in (1, 2)} | {1: 1}
KNOWN = ["cell_centers() gives the parametric centers of the cells that are neither empty nor hidden, in order"]


def hidden(E, m):
    E.data(m, "cell", "s", "m.s")
    E.data(m, "cell", "vtkGhostType", "m.ghost", kind="i", among=[0, 1, 32])


def structured(ghost, method):
    def body(E):
        n = [E.int(f"n{k}", lo=1) for k in range(3)]
        N = [q + 1 for q in n]
        m = E.structured("m", N)
        if ghost:
            hidden(E, m)
        c = E.centers(m)
        E.ready()
        out = E.fn(F)(m, method) if method else E.fn(F)(m)
        E.forall("the center of every cell", [*n, 3], lambda i, j, k, v: E.eq(out[E.lin((i, j, k), n), v], c[E.lin((i, j, k), n), v], 1e-5))
        E.unchanged("mesh unchanged")

    return body


def mixed(ghost, method):
    def body(E):
        p, n = E.int("p", lo=1), E.int("n", lo=1)
        m, t = E.mixed("m", p, n, SHAPES)
        if ghost:
            hidden(E, m)
        c = E.centers(m)
        E.ready()
        out = E.fn(F)(m, method) if method else E.fn(F)(m)
        E.shape("one row per cell", out, [n, 3])
        E.forall("the center of every cell, NaN if it is empty", [n, 3], lambda i, v: E.eq(out[i, v], E.ite(E.eq(t[i], 0), E.nan(), c[i, v]), 1e-5))
        E.unchanged("mesh unchanged")

    return body


for ghost in (False, True):
    for method in (None, "box", "geometric", "tetra"):
        name = ("-hidden" if ghost else "") + (f"-{method}" if method else "")
        if method in (None, "tetra"):
            task("C14", "structured" + name, [F], assumes=KNOWN)(structured(ghost, method))
        task("C14", "mixed" + name, [F], assumes=KNOWN)(mixed(ghost, method))


TET = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]
PYR = [[0, 3, 2, 1], [0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]]
WEDGE = [[1, 0, 2], [3, 4, 5], [0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5]]
HEX = [[3, 2, 1, 0], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
CELLS = {
    "tetrahedron": [(42, TET)],
    "pyramid": [(42, PYR)],
    "wedge": [(42, WEDGE)],
    "hexahedron": [(42, HEX)],
    "several": [(0, []), (10, [0, 1, 2, 3]), (42, [[x + 2 for x in f] for f in TET]), (0, []), (42, PYR), (5, [0, 1, 2])],
}


def solid(cells, method):
    def body(E):
        size = 1 + max(x for t, c in cells for f in ([c] if t != 42 else c) for x in f)
        m = E.topology("m", size, cells)
        P = m.points
        C = E.centers(m)
        faces = {i: c for i, (t, c) in enumerate(cells) if t == 42}

        def moments(f):
            """six times the signed volume, and 24 times the first moments, of the tetrahedra between the origin and the faces"""
            V, M = 0, [0, 0, 0]
            for q in f:
                for a, b in zip(q[1:], q[2:]):
                    x, y, z = [[P[k, c] for c in range(3)] for k in (q[0], a, b)]
                    d = x[0] * (y[1] * z[2] - y[2] * z[1]) - x[1] * (y[0] * z[2] - y[2] * z[0]) + x[2] * (y[0] * z[1] - y[1] * z[0])
                    V = V + d
                    M = [M[c] + d * (x[c] + y[c] + z[c]) for c in range(3)]
            return V, M

        vol = {i: moments(f) for i, f in faces.items()}
        if method == "tetra":
            for V, _ in vol.values():
                E.nonzero(V, 1e-3)
        E.ready()
        out = E.fn(F)(m, method)
        E.shape("one row per cell", out, [len(cells), 3])
        for i, (t, f) in enumerate(cells):
            for c in range(3):
                if t == 0:
                    E.prove(f"cell {i} is empty: NaN", E.eq(out[i, c], E.nan()))
                elif t != 42 or method not in ("geometric", "tetra"):
                    E.prove(f"cell {i}: its parametric center", E.eq(out[i, c], C[i, c], 1e-5))
                elif method == "geometric":
                    ids = sorted({x for q in f for x in q})
                    E.prove(f"cell {i}: the average of its points", E.eq(out[i, c] * len(ids), sum(P[k, c] for k in ids), 1e-4))
                else:
                    V, M = vol[i]
                    E.prove(f"cell {i}: its centroid", E.same(4 * V * out[i, c], M[c], 1e-3))
        E.unchanged("mesh unchanged")

    return body


for name, cells in CELLS.items():
    for method in ("geometric", "tetra"):
        task("C14", f"{name}-{method}", [F], assumes=KNOWN)(solid(cells, method))
