"""C05-C07, C27, C29: stacks and extrusions of unstructured surfaces of one cell type."""
from pvc.env import task
from .stack import cut, options

X = "MeshExtrude"
S3 = "MeshStack3D"
TYPES = {"triangles": (5, 3, 13, (0, 1, 2)), "quads": (9, 4, 12, (0, 1, 2, 3)), "pixels": (8, 4, 12, (0, 1, 3, 2))}
NOTE = "unstructured bases of a single cell type; stacks of 2 and 3 surfaces with 1 to 3 layers each"


def ubase(E, kind, name="base"):
    ct, w, vt, order = TYPES[kind]
    n, k = E.int("n_points", lo=1), E.int("n_cells", lo=1)
    m = E.ugrid(name, n, k, ct, w)
    return m, n, k, E.conn(m)


# ---------------------------------------------------------------- C29
def mk_extrude(kind, scale, angle):
    @task("C29", f"extrude-{kind}" + ("-scale" if scale else "") + ("-angle" if angle else ""), [X + ".add"], secs=60)
    def t(E):
        m, n, k, u = ubase(E, kind)
        ct, w = TYPES[kind][:2]
        x = E.fn(X)(m)
        s = E.real("scale") if scale else None
        a = E.real("angle") if angle else None
        v = E.arr("vector", [3])
        E.assume(E.neg(E.both(*[E.eq(v[c], 0) for c in range(3)])))
        E.ready()
        prev = x.items[-1].mesh
        old = E.np.array(prev.points)
        moved = prev.translate(v)
        center = moved.center
        out = x.add(v, scale=s, angle=a)
        E.prove("add returns the builder", out is x)
        E.prove("one item more", E.eq(E.length(x.items), 2))
        new = x.items[-1].mesh
        Q = new.points
        E.shape("as many points", Q, [n, 3])

        def scaled(i, c):
            p = old[i, c] + v[c]
            return (p - center[c]) * s + center[c] if s is not None else p

        if angle:
            q = moved.copy()
            if s is not None:
                q.points = (q.points - E.np.array(list(center))) * s + E.np.array(list(center))
            c2 = q.center
        for c in range(3):
            E.forall(f"points are translated, scaled and rotated, coordinate {c}", [n], lambda i: E.eq(
                Q[i, c], E.rotated([v[0], v[1], v[2]], a, c2, [scaled(i, d) for d in range(3)], c) if angle else scaled(i, c), 1e-4))
        E.cells("topology unchanged", new, k, ct, w, lambda i, j: u[i, j])
        E.prove("a new mesh", new is not prev)
        E.forall("earlier surface unchanged", [n, 3], lambda i, c: E.eq(prev.points[i, c], old[i, c]))
        E.unchanged("base unchanged")


for ki in ("triangles", "quads"):
    mk_extrude(ki, False, False)
    mk_extrude(ki, True, ki == "quads")
    mk_extrude(ki, False, True)


# ---------------------------------------------------------------- C06
def mk_add(axis, kind):
    @task("C06", f"add-{kind}-axis{axis}", ["core._base.MeshStackBase.add"])
    def t(E):
        m, n, k, u = ubase(E, kind)
        ct, w = TYPES[kind][:2]
        up = E.bool("bottom_up")
        st = E.fn(S3)(m, axis=axis, bottom_up=up)
        f, z, h = E.func("f"), E.real("z"), E.real("h")
        E.ready()
        P = m.points
        opt = options(E)
        st.add(z, priority=1)
        st.add(f, **opt)
        st.add(h)
        E.prove("one item each", E.eq(E.length(st.items), 3))
        d = E.ite(E.le(0, h), h, -h)
        want = [lambda i: z, lambda i: f.value(P[i, 0], P[i, 1], P[i, 2]), lambda i: f.value(P[i, 0], P[i, 1], P[i, 2]) + E.ite(up, d, -d)]
        for q, val in enumerate(want):
            new = st.items[q].mesh
            E.shape("as many points", new.points, [n, 3])
            E.cells("topology of the base", new, k, ct, w, lambda i, j: u[i, j])
            for c in range(3):
                E.forall(f"surface {q}, coordinate {c}", [n], lambda i: E.eq(new.points[i, c], val(i) if c == axis else P[i, c], 1e-5))
        E.unchanged("base unchanged")


for ax, ki in ((0, "triangles"), (1, "quads"), (2, "triangles"), (2, "pixels")):
    mk_add(ax, ki)


# ---------------------------------------------------------------- C05, C07
def shape_of(E, what, mesh, key, q, layers, k, kind, place, tol=1e-5):
    """the cells of item q: place(level, point) gives the coordinates"""
    ct, w, vt, order = TYPES[kind]
    b = E.block(f"{what}: cells of item {q}", mesh, key, q, layers, k, 2 * w)
    for l in range(layers):
        E.forall(f"{what}: type of the cells", [k], lambda i: E.both(E.eq(b.celltype(l, i), vt), E.eq(b.width(l, i), 2 * w)))
        for v in range(2 * w):
            for c in range(3):
                E.forall(f"{what}: corner {v}, coordinate {c}", [k], lambda i: E.eq(b.vertex(l, i, v)[c], place(l + v // w, i, order[v % w])[c], tol))
    return b


def ids(E, b, layers, k, first, own):
    for l in range(layers):
        E.forall("column number is that of the base cell", [k], lambda i: E.eq(b.data("ColumnId", l, i), E.value(i)))
        E.forall("layers are counted through all items", [k], lambda i: E.eq(b.data("LayerId", l, i), first + l))
        E.forall("other data of the base cell are kept", [k], lambda i: E.eq(b.data("own", l, i), own[i]))


def group(E, mesh, b, layers, k, name):
    table = mesh.user_dict["CellGroup"]
    E.prove("the group name is in the table", name in list(table.keys()))
    number = table[name]
    for l in range(layers):
        E.forall("group of the item", [k], lambda i: E.eq(b.data("CellGroup", l, i), number))


def mk_stack(kind, axis, up, layers):
    @task("C05", f"generate-{kind}-axis{axis}-{'up' if up else 'down'}-{'-'.join(map(str, layers))}", ["core._base.MeshStackBase._generate_mesh"], secs=150, n_conc=20, assumes=[NOTE])
    def t(E):
        m, n, k, u = ubase(E, kind)
        own = E.data(m, "cell", "own", "own")
        st = E.fn(S3)(m, axis=axis, bottom_up=up)
        f0 = E.func("f0")
        hs = [E.real(f"h{q}", lo=0.01) for q in range(len(layers))]
        P = m.points
        E.ready()
        st.add(f0)
        for q, l in enumerate(layers):
            st.add(hs[q], resolution=l, group=f"g{q}")
        mesh = st.generate_mesh()
        first, base = 0, lambda p: f0.value(P[p, 0], P[p, 1], P[p, 2])
        E.prove("as many cells as layers and columns", E.eq(mesh.n_cells, k * sum(layers)))
        for q, l in enumerate(layers):
            h = hs[q] if up else -hs[q]

            def place(level, i, v, base=base, h=h, l=l):
                p = u[i, v]
                return [base(p) + level * h / l if c == axis else P[p, c] for c in range(3)]

            b = shape_of(E, "prisms between consecutive surfaces", mesh, "StackItem", q, l, k, kind, place)
            ids(E, b, l, k, first, own)
            group(E, mesh, b, l, k, f"g{q}")
            first += l
            base = lambda p, base=base, h=h: base(p) + h
        E.prove("no cell hidden", "vtkGhostType" not in list(mesh.cell_data.keys()))
        E.unchanged("base unchanged")


mk_stack("triangles", 2, True, (2,))
mk_stack("quads", 2, False, (1, 2))
mk_stack("triangles", 0, True, (1, 1))
mk_stack("pixels", 1, False, (2,))
mk_stack("triangles", 1, True, (4,))


def mk_cut(kind, axis, up, lower):
    @task("C07", f"generate-{kind}-axis{axis}-{'up' if up else 'down'}-{'-'.join('lower' if q else 'higher' for q in lower)}", ["core._base.MeshStackBase._generate_mesh"], secs=150, n_conc=20, assumes=[NOTE])
    def t(E):
        m, n, k, u = ubase(E, kind)
        st = E.fn(S3)(m, axis=axis, bottom_up=up)
        items = len(lower) + 1
        f = [E.func(f"f{q}") for q in range(items)]
        pr = [E.int(f"priority{q}") for q in range(items)]
        th = [None] + [E.real(f"thickness{q}", lo=0.001) for q in range(1, items)]
        for q in range(1, items):
            E.assume(E.lt0(pr[q] - pr[q - 1]) if lower[q - 1] else E.le(pr[q - 1], pr[q]))
        P = m.points
        E.ready()
        st.add(f[0], priority=pr[0])
        for q in range(1, items):
            st.add(f[q], priority=pr[q], thickness=th[q])
        mesh = st.generate_mesh()
        E.prove("one layer between consecutive surfaces", E.eq(mesh.n_cells, k * len(lower)))

        def coords(p):
            z = [g.value(P[p, 0], P[p, 1], P[p, 2]) for g in f]
            for q in range(1, items):
                z[q - 1], z[q] = cut(E, z[q - 1], z[q], lower[q - 1], th[q], up)
            return z

        for q in range(len(lower)):
            def place(level, i, v, q=q):
                p = u[i, v]
                return [coords(p)[q + level] if c == axis else P[p, c] for c in range(3)]

            shape_of(E, "only surfaces nearer than the thickness are moved, along the axis, to that distance", mesh, "StackItem", q, 1, k, kind, place)
        for q in range(items):
            E.forall("surfaces of the builder stay where they were added", [n], lambda p: E.eq(st.items[q].mesh.points[p, axis], f[q].value(P[p, 0], P[p, 1], P[p, 2]), 1e-5))
        E.unchanged("base unchanged")


for ki, ax, up, lo in (("triangles", 2, True, (False,)), ("triangles", 2, False, (True,)), ("quads", 0, True, (True,)), ("pixels", 1, False, (False,)), ("triangles", 2, True, (True, False)), ("quads", 2, True, (False, True))):
    mk_cut(ki, ax, up, lo)
