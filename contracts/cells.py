"""C26: quadratic meshes."""
from pvc.env import task


def mk_quadratic(name, ct, qt, w):
    @task("C26", name, ["quadraticize"])
    def t(E):
        n, k = E.int("n_points", lo=1), E.int("n_cells", lo=1)
        m = E.ugrid("mesh", n, k, ct, w)
        u, p = E.conn(m), m.points
        E.ready()
        q = E.fn("quadraticize")(m)
        P = q.points
        E.shape("points of the mesh and one per edge", P, [n + k * w, 3])
        for c in range(3):
            E.forall(f"points of the mesh keep their number and place, coordinate {c}", [n], lambda i: E.eq(P[i, c], p[i, c], 1e-6))
        E.cells("corners are kept and followed by one point per edge", q, k, qt, 2 * w, lambda i, v: u[i, v] if v < w else n + i * w + (v - w))
        for c in range(3):
            for v in range(w):
                E.forall(f"midpoint of edge {v}, coordinate {c}", [k], lambda i: E.eq(P[n + i * w + v, c], (p[u[i, v], c] + p[u[i, (v + 1) % w], c]) / 2, 1e-5))
        E.unchanged("mesh unchanged")


mk_quadratic("triangles", 5, 22, 3)
mk_quadratic("quads", 9, 23, 4)


def mk_other(name, ct, w):
    @task("C26", "other-" + name, ["quadraticize"])
    def t(E):
        n, k = E.int("n_points", lo=1), E.int("n_cells", lo=1)
        m = E.ugrid("mesh", n, k, ct, w)
        E.ready()
        _, e = E.attempt(lambda: E.fn("quadraticize")(m))
        E.prove("other cell types raise NotImplementedError", isinstance(e, NotImplementedError))
        E.unchanged("mesh unchanged")


for nm, ct, w in (("line", 3, 2), ("pixel", 8, 4), ("tetra", 10, 4), ("quadratic-triangle", 22, 6)):
    mk_other(nm, ct, w)


# ---------------------------------------------------------------- C04
def mk_prisms(name, ct, vt, w, order, n, data=False):
    """uniform surfaces of any number of points and cells, n layers"""
    @task("C04", f"prisms-{name}-{n}" + ("-data" if data else ""), ["Volume"], secs=120)
    def t(E):
        np_, nc = E.int("n_points", lo=1), E.int("n_cells", lo=1)
        a = E.ugrid("a", np_, nc, ct, w)
        b = E.ugrid("b", np_, nc, ct, w, like=a)
        u, pa, pb = E.conn(a), a.points, b.points
        keys_p, keys_c = [], []
        if data:
            s, v = E.data(a, "point", "s", "ps"), E.data(a, "point", "v", "pv", 2)
            cs, cv = E.data(a, "cell", "c", "cs", kind="i"), E.data(a, "cell", "w", "cv", 3)
            g = E.data(a, "cell", "vtkGhostType", "g", kind="i", among=[0, 32])
            keys_p, keys_c = ["s", "v"], ["c", "w"]
        E.ready()
        mesh = E.fn("Volume")(a, b, n)
        P = mesh.points
        E.shape("one level of points per position", P, [np_ * (n + 1), 3])
        for k in range(n + 1):
            for c in range(3):
                E.forall(f"level {k} at a + t (b - a), coordinate {c}", [np_], lambda i: E.eq(P[i + k * np_, c], pa[i, c] + (k / n) * (pb[i, c] - pa[i, c]), 1e-5))
        E.layers("one prism per cell and layer, on the cell at consecutive levels", mesh, n, nc, vt, 2 * w,
                 lambda k, i, v: (u[i, order[v % w]] + (k + v // w) * np_))
        E.has_keys("point data kept", mesh.point_data, keys_p)
        E.has_keys("cell data kept", mesh.cell_data, [*keys_c, "vtkGhostType"])
        if data:
            S, V = mesh.point_data["s"], mesh.point_data["v"]
            S2, V2 = mesh.cell_data["c"], mesh.cell_data["w"]
            E.shape("vector point data", V, [np_ * (n + 1), 2])
            E.shape("vector cell data", V2, [nc * n, 3])
            for k in range(n + 1):
                E.forall("point data on every level", [np_], lambda i: E.eq(S[i + k * np_], s[i]))
                E.forall("vector point data on every level", [np_, 2], lambda i, c: E.eq(V[i + k * np_, c], v[i, c]))
            for k in range(n):
                E.forall("cell data on every layer", [nc], lambda i: E.eq(S2[i + k * nc], cs[i]))
                E.forall("vector cell data on every layer", [nc, 3], lambda i, c: E.eq(V2[i + k * nc, c], cv[i, c]))
        gh = mesh.cell_data["vtkGhostType"]
        far = lambda i, v, c, d: E.either(E.lt(d, pb[u[i, v], c] - pa[u[i, v], c]), E.lt(d, pa[u[i, v], c] - pb[u[i, v], c]))
        same = lambda i: E.both(*[E.eq0(pb[u[i, v], c] - pa[u[i, v], c]) for v in range(w) for c in range(3)])
        apart = lambda i: E.either(*[far(i, v, c, 2e-8 * n) for v in range(w) for c in range(3)])
        for k in range(n):
            E.forall("hidden if the cells of both surfaces coincide", [nc], lambda i: E.implies(same(i), E.eq(gh[i + k * nc], 32)))
            E.forall("else as the surface's data say", [nc], lambda i: E.implies(apart(i), E.eq(gh[i + k * nc], g[i] if data else 0)))
        E.unchanged("surfaces unchanged")


for n in (1, 2, 3):
    mk_prisms("triangles", 5, 13, 3, (0, 1, 2), n, n == 2)
    mk_prisms("quads", 9, 12, 4, (0, 1, 2, 3), n, n == 2)
    mk_prisms("pixels", 8, 12, 4, (0, 1, 3, 2), n, n == 2)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def mk_polyhedra(w, n, outwards=False):
    """surfaces of polygons of w vertices"""
    @task("C04", f"polyhedra-{w}-{n}", ["Volume"], secs=150, ms=20000 if outwards else 8000)
    def t(E):
        np_, nc = E.int("n_points", lo=1), E.int("n_cells", lo=1)
        a = E.ugrid("a", np_, nc, 7, w)
        b = E.ugrid("b", np_, nc, 7, w, like=a)
        u, pa, pb = E.conn(a), a.points, b.points
        E.ready()
        mesh = E.fn("Volume")(a, b, n)
        P = mesh.points
        E.shape("one level of points per position", P, [np_ * (n + 1), 3])
        for k in range(n + 1):
            for c in range(3):
                E.forall(f"level {k} at a + t (b - a), coordinate {c}", [np_], lambda i: E.eq(P[i + k * np_, c], pa[i, c] + (k / n) * (pb[i, c] - pa[i, c]), 1e-5))
        sizes = [w, w] + [4] * w
        E.polyhedra("one polyhedron per cell and layer, with two polygons and one quad per edge", mesh, n, nc, sizes)
        face = lambda k, i, f: E.face(mesh, n, nc, sizes, k, i, f)

        def same(x, y):
            return E.both(*[E.eq(p, q) for p, q in zip(x, y)])

        def has(edge, faces):
            return E.either(*[E.both(E.eq(f[v], edge[0]), E.eq(f[(v + 1) % len(f)], edge[1])) for f in faces for v in range(len(f))])

        for k in range(n):
            low = lambda i: [u[i, v] + k * np_ for v in range(w)]
            up = lambda i: [u[i, v] + (k + 1) * np_ for v in range(w)]
            E.forall("lower and upper polygon are the cell at consecutive levels, wound in opposite directions", [nc], lambda i: E.either(
                E.both(same(face(k, i, 0), low(i)), same(face(k, i, 1), up(i)[::-1])),
                E.both(same(face(k, i, 0), low(i)[::-1]), same(face(k, i, 1), up(i)))))
            def closed(i):
                F = [face(k, i, j) for j in range(w + 2)]
                return E.both(*[has((F[f][(v + 1) % sizes[f]], F[f][v]), F[:f] + F[f + 1:]) for f in range(w + 2) for v in range(sizes[f])])

            E.forall("each edge is shared with another polygon wound the other way", [nc], closed)
            if not outwards:
                continue

            def lift(i):
                """mean direction of the extrusion, and normal of the base cell"""
                q = [[pa[u[i, v], c] for c in range(3)] for v in range(w)]
                e = [sum(pb[u[i, v], c] - pa[u[i, v], c] for v in range(w)) for c in range(3)]
                m = [0.0, 0.0, 0.0]
                for v in range(w):
                    x = cross([q[v][c] - q[0][c] for c in range(3)], [q[(v + 1) % w][c] - q[0][c] for c in range(3)])
                    m = [m[c] + x[c] for c in range(3)]
                return sum(m[c] * e[c] for c in range(3))

            E.forall("outwards", [nc], lambda i: (lambda d: E.both(
                E.implies(E.lt(1e-6, d), same(face(k, i, 0), low(i)[::-1])), E.implies(E.lt(d, -1e-6), same(face(k, i, 0), low(i)))))(lift(i)))
        E.unchanged("surfaces unchanged")


mk_polyhedra(5, 1)
mk_polyhedra(3, 1, True)
mk_polyhedra(3, 2)


def mk_rejected(name, ct_a, w_a, ct_b, w_b, same_points=True):
    @task("C04", "rejected-" + name, ["Volume"])
    def t(E):
        n, k = E.int("n_points", lo=1), E.int("n_cells", lo=1)
        a = E.ugrid("a", n, k, ct_a, w_a)
        m = n if same_points else n + E.int("more", lo=1)
        b = E.ugrid("b", m, k, ct_b, w_b)
        E.ready()
        _, e = E.attempt(lambda: E.fn("Volume")(a, b, 1))
        E.prove("raises ValueError", isinstance(e, ValueError))
        E.unchanged("surfaces unchanged")


mk_rejected("lines", 3, 2, 3, 2)
mk_rejected("tetrahedra", 10, 4, 10, 4)
mk_rejected("mixed-types", 5, 3, 9, 4)
mk_rejected("points", 5, 3, 5, 3, False)
