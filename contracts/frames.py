"""C27: generation leaves builders unchanged and is repeatable."""
from pvc.env import task
from .stack import base
from .volumes import at3

S3 = "MeshStack3D"
KEYS = ("ColumnId", "LayerId", "StackItem", "CellGroup")


def added(E, st, f, q, pr, th, res):
    st.add(f[q], priority=pr[q], thickness=th[q], resolution=res[q], group=f"g{q}")


def same(E, a, b, dims, cells, keys=KEYS):
    n, m = dims[0] * dims[1] * dims[2], cells[0] * cells[1] * cells[2]
    E.dimensions("same dimensions", a, dims)
    E.dimensions("same dimensions", b, dims)
    for c in range(3):
        E.forall(f"same points, coordinate {c}", dims, lambda *i: E.eq(a.points[E.lin(i, dims), c], b.points[E.lin(i, dims), c]))
    for k in keys:
        E.forall(f"same {k}", cells, lambda *i: E.eq(a.cell_data[k][E.lin(i, cells)], b.cell_data[k][E.lin(i, cells)]))
    ga, gb = a.user_dict["CellGroup"], b.user_dict["CellGroup"]
    E.prove("same name table", [(k, v) for k, v in ga.items()] == [(k, v) for k, v in gb.items()])


def mk(axis, up, later):
    @task("C27", f"stack-{'later' if later else 'again'}-axis{axis}-{'up' if up else 'down'}", ["core._base.MeshStackBase._generate_mesh", "core._base.MeshStackBase.add"], secs=150, n_conc=15)
    def t(E):
        m, cx, cy = base(E, axis)
        items = 3 if later else 2
        f = [E.func(f"f{q}") for q in range(items)]
        pr = [E.int(f"priority{q}") for q in range(items)]
        th = [0.0] + [E.real(f"thickness{q}", lo=0.0) for q in range(1, items)]
        res = [None] + [E.int(f"resolution{q}", lo=1) for q in range(1, items)]
        if later:
            res[1] = None
            E.assume(E.le(pr[0], pr[1]))
            E.assume(E.lt0(pr[2] - pr[1]))
        else:
            E.assume(E.lt0(pr[1] - pr[0]) if axis == 2 else E.le(pr[0], pr[1]))
        E.ready()
        st = E.fn(S3)(m, axis=axis, bottom_up=up)
        added(E, st, f, 0, pr, th, res)
        added(E, st, f, 1, pr, th, res)
        one = st.generate_mesh()
        P0 = m.points
        at = lambda i, j: E.lin(at3(axis, i, j, 0), at3(axis, cx + 1, cy + 1, 1))
        for q in (0, 1):
            E.forall("surfaces of the builder stay where they were added", [cx + 1, cy + 1],
                     lambda i, j: E.eq(st.items[q].mesh.points[at(i, j), axis], f[q].value(*[P0[at(i, j), c] for c in range(3)]), 1e-5))
        total = res[1] if not later else 1 + res[2]
        dims, cells = at3(axis, cx + 1, cy + 1, total + 1), at3(axis, cx, cy, total)
        if later:
            added(E, st, f, 2, pr, th, res)
            one = st.generate_mesh()
            fresh = E.fn(S3)(m, axis=axis, bottom_up=up)
            for q in range(3):
                added(E, fresh, f, q, pr, th, res)
            two = fresh.generate_mesh()
        else:
            two = st.generate_mesh()
        same(E, one, two, dims, cells)
        E.unchanged("base unchanged")


for ax, up in ((2, True), (0, False), (1, True)):
    mk(ax, up, False)
for ax, up in ((2, True), (1, False)):
    mk(ax, up, True)
