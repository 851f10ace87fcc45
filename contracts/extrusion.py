"""C05: generated extrusions."""
from pvc.env import task
from .stack import X, at3, base, spacing


def generated(E, axis, kinds):
    m, cx, cy = base(E, axis)
    own = E.data(m, "cell", "own", "own")
    d2, c2 = at3(axis, cx + 1, cy + 1, 1), at3(axis, cx, cy, 1)
    at2 = lambda i, j: E.lin(at3(axis, i, j, 0), d2)
    P0 = m.points
    vec, opts = [], []
    for q, kind in enumerate(kinds):
        vec.append(E.vec(f"v{q}"))
        opts.append(spacing(E, f"resolution{q}", kind))
    E.ready()
    ex = E.fn(X)(m)
    for q, (kind, v, (res, _, _)) in enumerate(zip(kinds, vec, opts)):
        ex.add(v, resolution=res, group=f"g{q}", method=kind if kind.startswith("log") else None)
    mesh = ex.generate_mesh()
    total = 0
    for _, _, n in opts:
        total = total + n
    dims, cd = at3(axis, cx + 1, cy + 1, total + 1), at3(axis, cx, cy, total)
    E.dimensions("one level of points per layer and surface", mesh, dims)
    P = mesh.points
    first, moved = 0, [0, 0, 0]
    for q, (_, t, n) in enumerate(opts):
        at = lambda i, j, k: E.lin(at3(axis, i, j, first + k), dims)
        cat = lambda i, j, k: E.lin(at3(axis, i, j, first + k), cd)
        for c in range(3):
            E.forall(f"layers between consecutive surfaces as subdivided, coordinate {c}", [cx + 1, cy + 1, n + 1],
                     lambda i, j, k: E.eq(P[at(i, j, k), c], P0[at2(i, j), c] + moved[c] + t(k) * vec[q][c], 1e-4))
        col, lay, it, grp = (mesh.cell_data[k] for k in ("ColumnId", "LayerId", "ExtrudeItem", "CellGroup"))
        E.forall("column number is that of the base cell", [cx, cy, n], lambda i, j, k: E.eq(col[cat(i, j, k)], E.value(E.lin(at3(axis, i, j, 0), c2))))
        E.forall("layers are counted through all items", [cx, cy, n], lambda i, j, k: E.eq(lay[cat(i, j, k)], first + k))
        E.forall("item number", [cx, cy, n], lambda i, j, k: E.eq(it[cat(i, j, k)], q))
        E.forall("other data of the base cell are kept", [cx, cy, n], lambda i, j, k: E.eq(mesh.cell_data["own"][cat(i, j, k)], own[E.lin(at3(axis, i, j, 0), c2)]))
        E.prove("the group name is in the table", f"g{q}" in list(mesh.user_dict["CellGroup"].keys()))
        number = mesh.user_dict["CellGroup"][f"g{q}"]
        E.forall("group of the item", [cx, cy, n], lambda i, j, k: E.eq(grp[cat(i, j, k)], number))
        first = first + n
        moved = [a + b for a, b in zip(moved, [vec[q][c] for c in range(3)])]
    E.unchanged("base unchanged")


def mk(axis, kinds):
    @task("C05", f"extrude-axis{axis}" + "".join("-" + k for k in kinds), [X + ".generate_mesh", X + ".add"], secs=150, n_conc=20,
          assumes=["C05: extrusions of 1 and 2 items of any size (the number of items is bounded, sizes and subdivisions are not)"])
    def t(E):
        generated(E, axis, kinds)


for ax, kinds in ((0, ("int",)), (1, ("array",)), (2, ("log",)), (2, ("int", "array")), (1, ("none", "int")), (0, ("int", "int"))):
    mk(ax, kinds)


@task("C05", "extrude-nothing", [X + ".generate_mesh"])
def nothing(E):
    m, cx, cy = base(E, 2)
    E.ready()
    _, e = E.attempt(lambda: E.fn(X)(m).generate_mesh())
    E.prove("nothing to extrude raises ValueError", isinstance(e, ValueError))
    E.unchanged("base unchanged")


# ---------------------------------------------------------------- unstructured bases
def mk_prisms(kind, layers):
    from .ugrids import NOTE, group, ids, shape_of, ubase

    @task("C05", f"extrude-{kind}-{'-'.join(map(str, layers))}", [X + ".generate_mesh", X + ".add"], secs=150, n_conc=20, assumes=[NOTE])
    def t(E):
        m, n, k, u = ubase(E, kind)
        own = E.data(m, "cell", "own", "own")
        vec = [E.vec(f"v{q}") for q in range(len(layers))]
        P = m.points
        E.ready()
        ex = E.fn(X)(m)
        for q, l in enumerate(layers):
            ex.add(vec[q], resolution=l, group=f"g{q}")
        mesh = ex.generate_mesh()
        E.prove("as many cells as layers and columns", E.eq(mesh.n_cells, k * sum(layers)))
        first, moved = 0, [0, 0, 0]
        for q, l in enumerate(layers):
            def place(level, i, v, moved=moved, w=vec[q], l=l):
                return [P[u[i, v], c] + moved[c] + level * w[c] / l for c in range(3)]

            b = shape_of(E, "prisms between consecutive surfaces", mesh, "ExtrudeItem", q, l, k, kind, place, 1e-4)
            ids(E, b, l, k, first, own)
            group(E, mesh, b, l, k, f"g{q}")
            first += l
            moved = [a + vec[q][c] for c, a in enumerate(moved)]
        E.unchanged("base unchanged")


for ki, ls in (("triangles", (2,)), ("quads", (1, 2)), ("triangles", (1, 1))):
    mk_prisms(ki, ls)


# ---------------------------------------------------------------- C27
def mk_again(axis, later):
    from .frames import same

    @task("C27", f"extrude-{'later' if later else 'again'}-axis{axis}", [X + ".generate_mesh", X + ".add"], secs=150, n_conc=15)
    def t(E):
        m, cx, cy = base(E, axis)
        v = [E.vec(f"v{q}") for q in range(2)]
        res = [E.int(f"resolution{q}", lo=1) for q in range(2)]
        E.ready()
        P0 = m.points
        add = lambda x, q: x.add(v[q], resolution=res[q], group=f"g{q}")
        ex = E.fn(X)(m)
        add(ex, 0)
        one = ex.generate_mesh()
        at = lambda i, j: E.lin(at3(axis, i, j, 0), at3(axis, cx + 1, cy + 1, 1))
        for q in (0, 1):
            for c in range(3):
                E.forall("surfaces of the builder stay where they were added", [cx + 1, cy + 1],
                         lambda i, j: E.eq(ex.items[q].mesh.points[at(i, j), c], P0[at(i, j), c] + (v[0][c] if q else 0), 1e-4))
            E.prove("and without data added", E.eq(E.length(list(ex.items[q].mesh.cell_data.keys())), 0))
        total = res[0] + res[1] if later else res[0]
        if later:
            add(ex, 1)
            one = ex.generate_mesh()
            fresh = E.fn(X)(m)
            add(fresh, 0)
            add(fresh, 1)
            two = fresh.generate_mesh()
        else:
            two = ex.generate_mesh()
        same(E, one, two, at3(axis, cx + 1, cy + 1, total + 1), at3(axis, cx, cy, total), ("ColumnId", "LayerId", "ExtrudeItem", "CellGroup"))
        E.unchanged("base unchanged")


for ax in range(3):
    mk_again(ax, False)
mk_again(2, True)
mk_again(0, True)
