"""Runtime contracts C05-C08, C10, C29: stack, extrusion, groups, merge builders."""
from __future__ import annotations

import numpy as np
import pyvista as pv
import pvgridder as pvg

from .core import case, need, close, equal, raises, Violation, Skip
from .gen import *

NAMES = ["A", "B", "C", "D", "E"]


# ------------------------------------------------------------------ groups (specification)
def rand_base_groups(mesh, rng, p=0.6):
    """Give the mesh a CellGroup numbering (arbitrary numbers and order)."""
    if not rng.bool(p):
        return {}
    k = rng.int(1, 4)
    names = [NAMES[i] for i in rng.perm(5)[:k]]
    nums = rng.g.permutation(8)[:k] if rng.bool() else np.arange(k)
    table = {n: int(v) for n, v in zip(names, nums)}
    mesh.cell_data["CellGroup"] = rng.g.choice(list(table.values()), mesh.n_cells).astype(int)
    mesh.user_dict["CellGroup"] = dict(table)
    return table


def base_names(mesh):
    """Base group name per cell (None without group)."""
    if "CellGroup" in mesh.cell_data and "_PYVISTA_USER_DICT" in mesh.field_data and "CellGroup" in mesh.user_dict:
        inv = {v: k for k, v in mesh.user_dict["CellGroup"].items()}
        return [inv.get(int(i)) for i in mesh.cell_data["CellGroup"]]
    return [None] * mesh.n_cells


def spec_groups(mesh, spec, default, ignore):
    """Names per cell: last selecting entry of the mapping, else base group unless ignored, else default."""
    base = base_names(mesh)
    n = mesh.n_cells
    out = [b if b is not None and b not in ignore else None for b in base]
    if spec:
        if isinstance(spec, str):
            items = [(spec, np.ones(n, dtype=bool))]
        else:
            items = list(spec.items())
        for k, v in items:
            if callable(v):
                v = v(mesh)
            if isinstance(v, str):
                v = [v]
            if isinstance(v, (list, tuple, np.ndarray)) and len(v) and all(isinstance(x, str) for x in v):
                sel = np.zeros(n, dtype=bool)
                for name in v:
                    inv = name.startswith("~")
                    nm = name[1:] if inv else name
                    s = np.array([b == nm for b in base])
                    sel |= ~s if inv else s
            else:
                v = np.asarray(v)
                if v.size == 0:
                    sel = np.zeros(n, dtype=bool)
                elif v.dtype.kind == "b":
                    sel = v.copy()
                else:
                    sel = np.zeros(n, dtype=bool)
                    for i in v.ravel():
                        sel[int(i)] = True
            if k.startswith("~"):
                k = k[1:]
                sel = ~sel
            for i in np.flatnonzero(sel):
                out[i] = k
    return [default if o is None else o for o in out]


def rand_group_spec(mesh, rng, table):
    k = rng.int(0, 6)
    n = mesh.n_cells
    if k == 0:
        return None
    if k == 1:
        return rng.choice(NAMES + ["new"])
    spec = {}
    for _ in range(rng.int(1, 3)):
        key = rng.choice(NAMES + ["new", "zz"])
        if rng.bool(0.25):
            key = "~" + key
        kind = rng.int(0, 6)
        if kind == 0 and table:
            v = rng.choice(list(table))
            v = "~" + v if rng.bool(0.3) else v
        elif kind == 1 and table:
            v = [("~" if rng.bool(0.2) else "") + rng.choice(list(table)) for _ in range(rng.int(1, 2))]
            v = rng.choice([v, tuple(v), np.array(v)])
        elif kind == 2:
            v = rng.g.random(n) < 0.5
            v = v if rng.bool() else v.tolist()
        elif kind == 3:
            v = [int(i) for i in rng.g.integers(0, n, rng.int(1, n))]
            v = v if rng.bool() else np.array(v)
        elif kind == 4:
            mk = rng.g.random(n) < 0.5
            v = lambda m, mk=mk: mk
        elif kind == 5:
            ix = np.flatnonzero(rng.g.random(n) < 0.5)
            v = (lambda m, ix=ix: ix) if rng.bool() else (lambda m, ix=ix: ix.tolist())
        else:
            v = [n - 1, -1] if rng.bool() else np.ones(n, dtype=bool)
        spec.pop(key, None)
        spec[key] = v
    return spec


def group_contract(mesh, names, what=""):
    """Numbers and table of a generated mesh agree with the expected names."""
    need("CellGroup" in mesh.cell_data, f"{what}: no group numbers")
    table = dict(mesh.user_dict["CellGroup"])
    nums = [int(v) for v in table.values()]
    need(len(set(nums)) == len(nums), f"{what}: two names share a number: {table}")
    inv = {int(v): k for k, v in table.items()}
    data = [int(i) for i in mesh.cell_data["CellGroup"]]
    need(all(i in inv for i in data), f"{what}: numbers {sorted(set(data))} not all in name table {table}")
    got = [inv[i] for i in data]
    for i, (g, e) in enumerate(zip(got, names)):
        need(g == e, f"{what}: cell {i} is in group {g!r}, expected {e!r} (table {table})")
    need(len(got) == len(names), f"{what}: {len(got)} cells, expected {len(names)}")
    need(set(inv.values()) == set(got), f"{what}: unused names in table {table}, used {sorted(set(got))}")
    gg = pvg.get_cell_group(mesh)
    need(list(map(str, gg)) == got, f"{what}: get_cell_group disagrees with the name table")


def polyline(P):
    return pv.PolyData(np.array(P, dtype=float), lines=[len(P), *range(len(P))])


# ------------------------------------------------------------------ stack (specification)
class StackSpec:
    def __init__(self, base, axis, bottom_up, default, ignore):
        self.base, self.axis, self.sign = base, axis, 1.0 if bottom_up else -1.0
        self.P = np.array(base.points, dtype=float)
        self.surf, self.items = [], []
        self.default, self.ignore = default or "default", ignore or []

    def add(self, z, **kw):
        Q = self.P.copy()
        Q[:, self.axis] = z
        self.surf.append(Q)
        self.items.append(kw)

    def cut(self):
        S = [s.copy() for s in self.surf]
        a, sg = self.axis, self.sign
        for i in range(1, len(S)):
            it = self.items[i]
            lo, hi = sg * S[i - 1][:, a], sg * S[i][:, a]
            bad = hi - lo - it["thickness"] < 0.0
            if it["priority"] < self.items[i - 1]["priority"]:
                S[i][bad, a] = sg * (lo[bad] + it["thickness"])
            else:
                S[i - 1][bad, a] = sg * (hi[bad] - it["thickness"])
        return S


def cells_of_base(base):
    if isinstance(base, pv.StructuredGrid):
        u = base.cast_to_unstructured_grid()
        return [c for _, c in cell_lists(u)], [t for t, _ in cell_lists(u)]
    cl = cell_lists(base)
    return [c if t != 8 else (c[0], c[1], c[3], c[2]) for t, c in cl], [t for t, _ in cl]


def layered_contract(mesh, base, surfaces, items, axis, names_of_item, item_key, tol=1e-6):
    """Cells of a stacked/extruded mesh: numbering, geometry, groups and base data."""
    bc, bt = cells_of_base(base)
    C = len(bc)
    ts = [spec_perc(it.get("resolution"), it.get("method")) for it in items[1:]]
    nl = [len(t) - 1 for t in ts]
    L = sum(nl)
    need(mesh.n_cells == C * L, f"{mesh.n_cells} cells, expected {C} x {L}")
    structured = isinstance(mesh, pv.StructuredGrid)
    if structured:
        dims = list(mesh.dimensions)
        cd = [max(1, d - 1) for d in dims]
        idx = np.indices(cd)
        layer = idx[axis].ravel(order="F")
        need(cd[axis] == L, f"{cd[axis]} layers along axis {axis}, expected {L}")
        other = [k for k in range(3) if k != axis]
        # columns numbered in F order over the other axes
        col = (idx[other[0]] + cd[other[0]] * idx[other[1]]).ravel(order="F")
    else:
        # the order of the cells of an unstructured mesh is that of pyvista.merge: not specified
        layer = np.asarray(mesh.cell_data["LayerId"]).astype(int)
        col = np.asarray(mesh.cell_data["ColumnId"]).astype(int)
        need(sorted(zip(layer.tolist(), col.tolist())) == [(l, c) for l in range(L) for c in range(C)],
             "layer and column numbers do not give every cell exactly once")
    item_of = np.concatenate([np.full(n, i) for i, n in enumerate(nl)])
    sub_of = np.concatenate([np.arange(n) for n in nl])
    equal(np.asarray(mesh.cell_data["LayerId"]), layer, "layer numbers")
    equal(np.asarray(mesh.cell_data["ColumnId"]), col, "column numbers")
    equal(np.asarray(mesh.cell_data[item_key]), item_of[layer], "item numbers")
    # geometry
    pts = np.asarray(mesh.points, dtype=float)
    cl = cell_lists(mesh)
    scale = max(1.0, np.abs(pts).max())
    for c in range(mesh.n_cells):
        i, s = item_of[layer[c]], sub_of[layer[c]]
        A, B_ = surfaces[i], surfaces[i + 1]
        ids = list(bc[col[c]])
        lo = A[ids] + ts[i][s] * (B_[ids] - A[ids])
        hi = A[ids] + ts[i][s + 1] * (B_[ids] - A[ids])
        exp = np.vstack((lo, hi))
        t, g = cl[c]
        gid = sorted({p for f in g for p in f}) if t == 42 else list(g)
        got = pts[gid]
        d = np.abs(got[:, None] - exp[None]).max(axis=2)
        need(d.min(axis=1).max() <= tol * scale and d.min(axis=0).max() <= tol * scale,
             lambda: f"cell {c} (column {col[c]}, layer {layer[c]}): corners {got.tolist()}, expected {exp.tolist()}")
    group_contract(mesh, [names_of_item[item_of[layer[c]]][col[c]] for c in range(mesh.n_cells)], "groups")
    for k, v in base.cell_data.items():
        if k in ("CellGroup", "vtkGhostType"):
            continue
        need(k in mesh.cell_data, f"cell data {k!r} of the base mesh lost")
        equal(np.asarray(mesh.cell_data[k]), np.asarray(v)[col], f"cell data {k!r}")


def rand_base(rng, axis, dim=None, data=True):
    """Base mesh of a stack along `axis`: (argument, mesh as stacked)."""
    dim = dim or rng.choice([2, 3, 3])
    if dim == 2:
        n = rng.int(2, 6)
        if rng.bool(0.3):
            arr = np.cumsum(rng.uniform(0.3, 1.5, n))
            arg = arr if rng.bool() else arr.tolist()
            P = np.zeros((n, 3))
            P[:, (axis + 1) % 3] = arr
            m = pv.lines_from_points(P)
        else:
            m = line_poly(rng, axis, data=False, as_lines=True)
            P = np.array(m.points)
            P[:, axis] = 0.1 * rng.normal(len(P))
            arg = pv.PolyData(P, lines=[len(P), *range(len(P))])
            if data:
                add_data(arg, rng, point=False)
            m = pv.lines_from_points(P)  # one column per segment, data of the polyline on each of them
            for k, v in arg.cell_data.items():
                m.cell_data[k] = np.repeat(np.asarray(v), len(P) - 1, axis=0)
        return arg, m, 2
    if rng.bool(0.55):
        m = structured_surface(rng, axis, nmax=4, data=False, warp=rng.bool())
    else:
        m = unstructured_surface(rng, axis, kinds=rng.choice([("tri",), ("quad",), ("poly",), ("tri", "quad", "poly", "pixel")]), nmax=3, data=False, warp=False)
    if data:
        add_data(m, rng, point=False)
    arg = m
    if isinstance(m, pv.StructuredGrid) and rng.bool(0.15):
        d = list(m.dimensions)
        arg = pv.ImageData(dimensions=d, spacing=(1.0, 1.5, 0.5))
        m = arg.cast_to_structured_grid()
    return arg, m, 3


def rand_stack(rng, cross=True, n_items=None, axis=None, groups=True, interp=False, data=True, dim=None):
    """Build a stack and its specification; every intermediate fact is in `log`."""
    axis = rng.int(0, 2) if axis is None else axis
    bottom_up = rng.bool(0.6)
    arg, base, dim = rand_base(rng, axis, dim, data=data)
    table = {}
    if groups and isinstance(arg, pv.DataSet) and arg is base:
        table = rand_base_groups(base, rng)
    default = rng.choice([None, "dflt", "A"])
    ignore = rng.choice([None, None, ["A"], ["B", "C"]])
    rng.note(axis=axis, bottom_up=bottom_up, dim=dim, base=type(base).__name__, table=table, default=default, ignore=ignore, base_points=base.points,
             dims=getattr(base, "dimensions", None))
    cls = pvg.MeshStack2D if dim == 2 else pvg.MeshStack3D
    with Frame(base=arg):
        st = cls(arg, axis, bottom_up, default, ignore)
    spec = StackSpec(base, axis, bottom_up, default, ignore)
    sg = spec.sign
    n = n_items or rng.int(2, 5)
    log = []
    z = 0.0
    for i in range(n):
        kw = {}
        if i:
            r, m = rand_resolution(rng, hi=3)
            if r is not None and not isinstance(r, int):
                r = rng.choice([[0.0, 0.25, 1.0], [0.0, 1.0], np.array([0.0, 0.5, 0.75, 1.0])])
            kw = dict(resolution=r, method=m)
        kw["priority"] = rng.int(0, 2) if rng.bool(0.6) else 0
        th = rng.choice([0.0, 0.0, 0.1, 0.5]) if i else 0.0
        if i:
            kw["thickness"] = th
        if i and groups:
            g = rand_group_spec(base, rng, table)
            kw["group"] = g
        step = rng.uniform(0.5, 2.0)
        kind = rng.int(0, 3 if not interp else 4)
        if kind == 0:
            val = rng.choice([float(step), -float(step), round(float(step)) + 1])
            if i == 0:
                zz = np.full(len(spec.P), float(val))
                z = float(val)
            else:
                zz = spec.surf[-1][:, axis] + sg * abs(val)
                z = z + sg * abs(val)
            a = val if rng.bool(0.8) else np.asarray(val)
        else:
            z = z + sg * step if i else float(step)
            o = [k for k in range(3) if k != axis]
            c = rng.normal(2) * (0.4 if cross else 0.02)
            f = lambda x, y, zc, z=z, o=o, c=c: z + c[0] * (x, y, zc)[o[0]] + c[1] * (x, y, zc)[o[1]]
            zz = f(*spec.P.T)
            a = f
        log.append((type(a).__name__ if callable(a) else a, {k: v for k, v in kw.items() if k != "group"}, repr(kw.get("group"))))
        st.add(a, **kw)
        spec.add(zz, **{**dict(thickness=0.0, priority=0), **kw})
        need(len(st.items) == i + 1, "number of items after add")
    rng.note(items=log, z=[s[:, axis].tolist() for s in spec.surf])
    return st, spec, base, table


def item_names(spec, base):
    return [spec_groups(base, it.get("group"), spec.default, spec.ignore) for it in spec.items[1:]]


@case("C05", "stack", weight=2)
def c05_stack(rng):
    st, spec, base, table = rand_stack(rng, cross=rng.bool(0.3), data=True)
    m = st.generate_mesh()
    layered_contract(m, base, spec.cut(), spec.items, spec.axis, item_names(spec, base), "StackItem")


@case("C05", "stack_large", weight=0.1)
def c05_large(rng):
    """More cells than fit a byte and several items."""
    axis = rng.int(0, 2)
    n = [rng.int(9, 14), rng.int(9, 14)]
    n.insert(axis, 1)
    b = pv.ImageData(dimensions=n)
    st = pvg.MeshStack3D(b, axis)
    spec = StackSpec(b.cast_to_structured_grid(), axis, True, None, None)
    z = 0.0
    for i in range(rng.int(2, 4)):
        z += 1.0
        r = rng.int(1, 6)
        kw = dict(resolution=r) if i else {}
        st.add(1.0, **kw)
        spec.add(np.full(len(spec.P), z), thickness=0.0, priority=0, **kw)
    rng.note(n=n, axis=axis)
    layered_contract(st.generate_mesh(), spec.base, spec.cut(), spec.items, axis, item_names(spec, spec.base), "StackItem")


@case("C05", "extrude", weight=1.5)
def c05_extrude(rng):
    ex, surfs, items, base, table, default, ignore, axis = rand_extrude(rng)
    m = ex.generate_mesh()
    names = [spec_groups(base, it.get("group"), default or "default", ignore or []) for it in items[1:]]
    layered_contract(m, base, surfs, items, axis, names, "ExtrudeItem")


@case("C05", "transition", weight=0.15)
def c05_transition(rng):
    axis = 2
    n = rng.int(3, 6)
    x = np.linspace(0.0, 4.0, n)
    st = pvg.MeshStack2D(x, axis)
    st.add(0.0)
    r1 = rng.int(1, 3)
    st.add(1.0, r1, group="low")
    k = rng.int(2, 6)
    P = np.zeros((k + 1, 3))
    P[:, 0] = np.linspace(0.0, 4.0, k + 1)
    st.set_transition(polyline(P))
    st.add(lambda x, y, z: np.full_like(x, 2.0), group="mid")
    r2 = rng.int(1, 3)
    st.add(1.0, r2, group="top")
    rng.note(n=n, k=k, r1=r1, r2=r2)
    m = st.generate_mesh()
    item = np.asarray(m.cell_data["StackItem"])
    lay = np.asarray(m.cell_data["LayerId"])
    col = np.asarray(m.cell_data["ColumnId"])
    need(np.isin(item, [0, 1, 2]).all(), "item numbers")
    equal(lay[item == 0], np.repeat(np.arange(r1), n - 1), "layers below transition")
    need((lay[item == 1] == r1).all() and (col[item == 1] == -1).all() and (item == 1).any(), "transition layer and column")
    equal(lay[item == 2], np.repeat(np.arange(r2) + r1 + 1, k), "layers above transition")
    equal(col[item == 0], np.tile(np.arange(n - 1), r1), "columns below")
    equal(col[item == 2], np.tile(np.arange(k), r2), "columns above")
    area = np.abs(m.compute_cell_sizes()["Area"])
    for i in range(3):
        close(area[item == i].sum(), 4.0, 1e-5, f"area of item {i}")
    names = np.array(list(map(str, pvg.get_cell_group(m))))
    need((names == np.array(["low", "mid", "top"])[item]).all(), "groups of items")


@case("C05", "errors", n=4)
def c05_errors(rng):
    b = pv.ImageData(dimensions=(3, 3, 1)).cast_to_structured_grid()
    if rng.index == 0:
        raises(ValueError, lambda: pvg.MeshStack3D(b).generate_mesh(), "no item")
    elif rng.index == 1:
        raises(ValueError, lambda: pvg.MeshStack3D(b).add(0.0).generate_mesh(), "one item")
    elif rng.index == 2:
        raises(ValueError, lambda: pvg.MeshExtrude(b).generate_mesh(), "nothing to extrude")
    else:
        raises(ValueError, lambda: pvg.MeshStack2D([0.0, 1.0]).add(0.0).generate_mesh(), "one item")


# ------------------------------------------------------------------ C06
@case("C06", "placement", weight=2)
def c06(rng):
    st, spec, base, _ = rand_stack(rng, cross=True, groups=False, n_items=rng.int(1, 5))
    for i, (it, S) in enumerate(zip(st.items, spec.surf)):
        close(it.mesh.points, S, 1e-6, f"surface {i}")
        need(it.mesh.n_cells == base.n_cells and type(it.mesh) is type(base), f"surface {i} has another topology")
        if not isinstance(base, pv.PolyData):
            need(cell_lists(it.mesh) == cell_lists(base), f"surface {i} has another topology")
    close(st.mesh.points, spec.P, 1e-7, "base mesh points")


def spec_interp_points(rng, axis, o, lo, hi, f, n):
    """Scattered points enclosing the box [lo, hi], affine coordinate along axis."""
    span = hi - lo + 1.0
    corners = np.array([[lo[0] - span[0], lo[1] - span[1]], [hi[0] + span[0], lo[1] - span[1]], [hi[0] + span[0], hi[1] + span[1]], [lo[0] - span[0], hi[1] + span[1]]])
    inner = np.column_stack([rng.uniform(lo[k] - span[k], hi[k] + span[k], n) for k in range(2)])
    q = np.vstack((corners, inner))
    q = q[rng.perm(len(q))]
    P = np.zeros((len(q), 3))
    P[:, o] = q
    P[:, axis] = f(q[:, 0], q[:, 1])
    return P


@case("C06", "interpolation", weight=1)
def c06_interp(rng):
    axis = rng.int(0, 2)
    bottom_up = rng.bool()
    _, base, dim = rand_base(rng, axis, 3)
    o = [k for k in range(3) if k != axis]
    P = np.array(base.points)
    c = rng.normal(3)
    f = lambda u, v: c[0] + c[1] * u + c[2] * v
    st = pvg.MeshStack3D(base, axis, bottom_up)
    lo, hi = P[:, o].min(axis=0), P[:, o].max(axis=0)
    for i in range(rng.int(1, 2)):
        Q = spec_interp_points(rng, axis, o, lo, hi, f, rng.int(0, 6))
        kind = rng.int(0, 2)
        arg = Q if kind == 0 else Q.tolist() if kind == 1 else pv.PolyData(Q) if rng.bool() else pv.PolyData(Q).cast_to_unstructured_grid()
        rng.note(axis=axis, coef=c, kind=kind)
        with Frame(arg=arg, base=base):
            st.add(arg)
        S = P.copy()
        S[:, axis] = f(P[:, o[0]], P[:, o[1]])
        close(st.items[-1].mesh.points, S, 1e-5, "interpolated surface")


@case("C06", "interpolation_line", weight=0.7)
def c06_line(rng):
    """Interpolation from a line: piecewise linear in the varying coordinate, whatever the order of its points."""
    axis = rng.int(0, 2)
    arg, base, _ = rand_base(rng, axis, 2)
    k = (axis + 1) % 3
    P = np.array(base.points)
    j = 3 - axis - k
    Q0 = P.copy()
    PP = np.array(P)
    PP[:, j] = 0.0
    base2 = polyline(PP)
    n = rng.int(0, 5)
    x = np.concatenate([[PP[:, k].min() - 0.5, PP[:, k].max() + 0.5], rng.uniform(PP[:, k].min() - 0.4, PP[:, k].max() + 0.4, n)])
    order = rng.int(0, 2)
    x = np.sort(x) if order == 0 else np.sort(x)[::-1] if order == 1 else x[rng.perm(len(x))]
    y = rng.normal(len(x))
    Q = np.zeros((len(x), 3))
    Q[:, k], Q[:, axis] = x, y
    s = np.argsort(x)
    exp = PP.copy()
    exp[:, axis] = np.interp(PP[:, k], x[s], y[s])
    rng.note(axis=axis, x=x, y=y, base=PP)
    arg = Q if rng.bool() else pv.PolyData(Q)
    st = pvg.MeshStack2D(base2, axis, rng.bool())
    with Frame(arg=arg):
        st.add(arg)
    close(st.items[-1].mesh.points, exp, 1e-5, "interpolated line")
    # outside of the points
    far = Q.copy()
    w = rng.choice([100.0, -100.0, 0.9, -0.9])
    far[:, k] += w
    if not far[:, k].min() > PP[:, k].min() + 1e-3 and not far[:, k].max() < PP[:, k].max() - 1e-3:
        raise Skip
    raises(ValueError, lambda: pvg.MeshStack2D(base2, axis).add(far), "points not enclosing the base mesh")
    st.add(far, extrapolation="nearest")
    exp[:, axis] = np.interp(PP[:, k], (x + w)[s], y[s])
    close(st.items[-1].mesh.points, exp, 1e-5, "nearest extrapolation")


@case("C06", "outside", weight=0.3)
def c06_outside(rng):
    axis = rng.int(0, 2)
    _, base, _ = rand_base(rng, axis, 3)
    o = [k for k in range(3) if k != axis]
    P = np.array(base.points)
    n = rng.int(4, 7)
    Q = np.zeros((n, 3))
    Q[:, o] = rng.uniform(0, 1, (n, 2)) + P[:, o].max(axis=0) + 1.0
    partly = rng.bool()
    if partly:
        # a part of the base mesh is enclosed
        lo, hi = P[:, o].min(axis=0), P[:, o].max(axis=0)
        Q[:4, o] = lo - 0.5 + np.array([[0, 0], [1, 0], [0, 1], [1, 1]]) * (0.5 + rng.uniform(0.2, 0.8, 2) * (hi - lo))
        Q = Q[:4]
        n = 4
    Q[:, axis] = rng.normal(n)
    rng.note(axis=axis, Q=Q)
    raises(ValueError, lambda: pvg.MeshStack3D(base, axis).add(Q), "points not enclosing the base mesh")
    st = pvg.MeshStack3D(base, axis).add(Q, extrapolation="nearest")
    d = np.linalg.norm(P[:, o][:, None] - Q[:, o][None], axis=2)
    s = np.sort(d, axis=1)
    if (s[:, 1] - s[:, 0]).min() < 1e-6:
        raise Skip
    exp = P.copy()
    exp[:, axis] = Q[d.argmin(axis=1), axis]
    got = np.asarray(st.items[-1].mesh.points)
    if partly:
        out = (P[:, o] > Q[:, o].max(axis=0) + 1e-6).any(axis=1)
        need(out.any() and np.isfinite(got).all(), "values outside of the data")
        exp, got = exp[out], got[out]
    close(got, exp, 1e-5, "nearest extrapolation")


@case("C06", "plane", weight=0.5)
def c06_plane(rng):
    axis = rng.int(0, 2)
    _, base, _ = rand_base(rng, axis, 3, data=False)
    o = [k for k in range(3) if k != axis]
    ang = rng.uniform(-40, 40, 3)
    pt = rng.normal(3) * 3
    a = ang if rng.bool() else ang.tolist()
    rng.note(axis=axis, angles=a, point=pt)
    # give the base mesh a vertex at the point
    b = base.copy()
    P = np.array(b.points)
    P[0, o] = pt[o]
    b.points = P
    st = pvg.MeshStack3D(b, axis)
    with Frame(angles=a, point=pt, base=b):
        st.add_plane(a, pt if rng.bool() else pt.tolist() if rng.bool() else tuple(pt.tolist()))
    S = np.asarray(st.items[0].mesh.points, dtype=float)
    close(S[:, o], P[:, o], 1e-6, "other coordinates of a plane")
    close(S[0, axis], pt[axis], 1e-6, "plane does not contain the given point")
    M = np.column_stack((S[:, o], np.ones(len(S))))
    x = np.linalg.lstsq(M, S[:, axis], rcond=None)[0]
    close(M @ x, S[:, axis], 1e-5, "surface is not a plane")
    # no rotation: constant; the angle around the stacking axis does not matter
    st.add_plane(np.zeros(3), pt)
    close(np.asarray(st.items[1].mesh.points)[:, axis], np.full(len(P), pt[axis]), 1e-6, "flat plane")
    a2 = np.array(ang)
    a2[axis] += 33.0
    st.add_plane(a2, pt)
    close(st.items[2].mesh.points, S, 1e-6, "rotation around the stacking axis changes the plane")
    # slope is governed by the rotation: steeper for larger angle
    a3 = np.zeros(3)
    a3[o[0]] = 30.0
    st.add_plane(a3, pt)
    T = np.asarray(st.items[3].mesh.points, dtype=float)
    h = np.abs(T[:, axis] - pt[axis])
    d = np.abs(P[:, o[1]] - pt[o[1]])
    need(np.all((h > 0.4 * d - 1e-6) & (h < 0.7 * d + 1e-6)), "slope of a plane rotated by 30 degrees")


@case("C06", "errors", n=8)
def c06_errors(rng):
    b = pv.ImageData(dimensions=(3, 3, 1)).cast_to_structured_grid()
    i = rng.index
    if i == 0:
        raises(ValueError, lambda: pvg.MeshStack3D(b).add(np.zeros((4, 2))), "2D array without three columns")
    elif i == 1:
        raises(ValueError, lambda: pvg.MeshStack3D(b).add([1.0, 2.0, 3.0]), "1D array")
    elif i == 2:
        raises(ValueError, lambda: pvg.MeshStack3D(b, axis=3), "axis 3")
    elif i == 3:
        raises(ValueError, lambda: pvg.MeshStack3D(b, axis=0), "base mesh not flat along the axis")
    elif i == 4:
        raises(ValueError, lambda: pvg.MeshStack3D(pv.ImageData(dimensions=(3, 3, 3))), "3D base mesh")
    elif i == 5:
        raises(ValueError, lambda: pvg.MeshStack2D(b), "2D stack of a surface")
    elif i == 6:
        raises(ValueError, lambda: pvg.MeshStack3D(pv.lines_from_points(np.eye(3))), "3D stack of a line")
    else:
        raises(ValueError, lambda: pvg.MeshStack3D(b).add(np.zeros((2, 2, 3))), "3D array")


# ------------------------------------------------------------------ C07
def surfaces_of(mesh, spec, base):
    """Coordinates along the axis of each surface in a generated structured mesh."""
    dims = list(mesh.dimensions)
    L = [len(spec_perc(it.get("resolution"), it.get("method"))) - 1 for it in spec.items[1:]]
    pos = np.concatenate([[0], np.cumsum(L)])
    P = np.asarray(mesh.points, dtype=float).reshape(dims + [3], order="F")
    out = []
    for k in pos:
        sl = [slice(None)] * 3
        sl[spec.axis] = int(k)
        out.append(P[tuple(sl)].reshape((-1, 3), order="F"))
    return out


@case("C07", "cut", weight=3)
def c07(rng):
    axis = rng.int(0, 2)
    bottom_up = rng.bool()
    # structured base: surfaces observed directly on the generated mesh
    if rng.bool(0.3):
        n = rng.int(2, 6)
        P = np.zeros((n, 3))
        P[:, (axis + 1) % 3] = np.arange(n)
        base = pv.lines_from_points(P)
        st = pvg.MeshStack2D(polyline(P), axis, bottom_up)
    else:
        base = structured_surface(rng, axis, nmax=4, data=False, warp=False)
        st = pvg.MeshStack3D(base, axis, bottom_up)
    spec = StackSpec(base, axis, bottom_up, None, None)
    sg = spec.sign
    n = rng.int(2, 5)
    N = len(spec.P)
    log = []
    for i in range(n):
        z = sg * i + 1.2 * rng.normal(N)
        # a surface never dips below two earlier ones: only consecutive conflicts (see known findings)
        if i >= 2:
            prev = [spec.items[j].get("thickness", 0.0) for j in range(len(spec.items))]
            cur = spec.cut()
            zz = sg * cur[i - 2][:, axis] + spec.items[i - 1]["thickness"] + 0.01
        th = rng.choice([0.0, 0.2, 0.7]) if i else 0.0
        if i >= 2:
            z = sg * np.maximum(sg * z, zz + th)
        pr = rng.int(-1, 2)
        kw = dict(priority=pr, thickness=th)
        if i:
            r = rng.int(1, 3)
            kw["resolution"] = r
        f = lambda x, y, c, z=z: z.copy()
        st.add(f, **kw)
        spec.add(z, **kw)
        log.append((z.tolist(), kw))
    rng.note(axis=axis, bottom_up=bottom_up, items=log)
    m = st.generate_mesh()
    want = spec.cut()
    got = surfaces_of(m, spec, base)
    for i, (g, w) in enumerate(zip(got, want)):
        close(g, w, 1e-6, f"surface {i} after cutting")
    for i in range(1, n):
        gap = sg * (got[i][:, axis] - got[i - 1][:, axis])
        need((gap >= spec.items[i]["thickness"] - 1e-6).all(), f"surfaces {i - 1} and {i} nearer than the minimum thickness")


@case("C07", "pair", weight=1)
def c07_pair(rng):
    """Two surfaces, unstructured base, any axis: exactly the lower priority one moves, only where needed."""
    axis = rng.int(0, 2)
    bottom_up = rng.bool()
    base = unstructured_surface(rng, axis, kinds=("tri", "quad"), nmax=3, data=False, warp=False)
    st = pvg.MeshStack3D(base, axis, bottom_up)
    spec = StackSpec(base, axis, bottom_up, None, None)
    N = len(spec.P)
    for i in range(2):
        z = spec.sign * i * 0.5 + rng.normal(N)
        kw = dict(priority=rng.int(0, 1), thickness=rng.choice([0.0, 0.3, 1.0]))
        st.add(lambda x, y, c, z=z: z, **kw)
        spec.add(z, **kw)
    rng.note(axis=axis, bottom_up=bottom_up, z=[s[:, axis].tolist() for s in spec.surf], items=[str(i) for i in spec.items])
    m = st.generate_mesh(tolerance=1e-12)
    S = spec.cut()
    pts = np.asarray(m.points, dtype=float)
    exp = np.vstack(S)
    d = np.abs(pts[:, None] - exp[None]).max(axis=2)
    need(d.min(axis=0).max() < 1e-6 and d.min(axis=1).max() < 1e-6, "points of the generated mesh are not those of the cut surfaces")


# ------------------------------------------------------------------ C08
@case("C08", "extrude", weight=2)
def c08(rng):
    base = structured_surface(rng, 2, nmax=4, data=False) if rng.bool() else unstructured_surface(rng, 2, kinds=("tri", "quad"), nmax=3, data=False)
    table = rand_base_groups(base, rng, 0.8)
    default = rng.choice([None, "dflt", "A", "C"])
    ignore = rng.choice([None, ["A"], ["B", "C"], ["A", "B", "C", "D", "E"], ["unknown"]])
    spec = rand_group_spec(base, rng, table)
    rng.note(table=table, data=base.cell_data["CellGroup"] if table else None, default=default, ignore=ignore,
             spec=repr({k: (v(base) if callable(v) else v) for k, v in spec.items()}) if isinstance(spec, dict) else spec)
    n = rng.int(1, 2)
    specs = [spec] + [rand_group_spec(base, rng, table) for _ in range(n - 1)]
    how = rng.int(0, 1)
    if how == 0:
        b = pvg.MeshExtrude(base, default_group=default, ignore_groups=ignore)
        for s in specs:
            b.add([0.0, 0.0, 1.0], group=s)
    else:
        b = pvg.MeshStack3D(base, 2, True, default, ignore)
        b.add(0.0)
        h = rng.choice([1.0, lambda x, y, z: np.maximum(0.0, x - np.median(x))])
        for s in specs:
            b.add(1.0 if b.items[1:] else h, group=s)
    m = b.generate_mesh()
    names = [spec_groups(base, s, default or "default", ignore or []) for s in specs]
    lay, col = m.cell_data["LayerId"], m.cell_data["ColumnId"]
    group_contract(m, [names[l][c] for l, c in zip(lay, col)], "groups")


@case("C08", "line", weight=0.5)
def c08_line(rng):
    n = rng.int(2, 8)
    P = np.zeros((n, 3))
    P[:, 0] = np.arange(n)
    base = pv.lines_from_points(P)
    table = {}
    default = rng.choice([None, "dflt", "A"])
    ignore = rng.choice([None, ["A"], ["B", "C"]])
    spec = rand_group_spec(base, rng, table)
    rng.note(table=table, default=default, ignore=ignore, spec=repr(spec))
    m = pvg.MeshStack2D(polyline(P), 2, True, default, ignore).add(0.0).add(1.0, group=spec).generate_mesh()
    group_contract(m, spec_groups(base, spec, default or "default", ignore or []), "groups")


@case("C08", "errors", n=3)
def c08_errors(rng):
    base = structured_surface(rng, 2, data=False)
    bad = [np.linspace(0, 1, base.n_cells), [0.5, 1.5], np.array([1.0 + 0j])][rng.index]
    raises(ValueError, lambda: pvg.MeshExtrude(base).add([0, 0, 1.0], group={"A": bad}).generate_mesh(), "mask of another kind")


# ------------------------------------------------------------------ C29
def spec_transform(P, vector, scale, angle):
    Q = P + vector
    ctr = lambda X: 0.5 * (X.min(axis=0) + X.max(axis=0))
    if scale is not None:
        c = ctr(Q)
        Q = (Q - c) * scale + c
    if angle is not None:
        c = ctr(Q)
        k = np.asarray(vector, dtype=float) / np.linalg.norm(vector)
        th = np.deg2rad(angle)
        R = Q - c
        Q = c + R * np.cos(th) + np.cross(k, R) * np.sin(th) + np.outer(R @ k, k) * (1 - np.cos(th))
    return Q


def rand_extrude(rng, groups=True, transforms=True):
    axis = rng.int(0, 2)
    kind = rng.int(0, 2)
    if kind == 0:
        base = unstructured_surface(rng, axis, kinds=rng.choice([("tri",), ("quad", "poly"), ("tri", "quad", "poly", "pixel")]), nmax=3, data=False, warp=False, shift=rng.normal(3) * 5)
        add_data(base, rng, point=False)
        arg = base
    else:
        base = structured_surface(rng, axis, nmax=4, data=False, warp=rng.bool(0.3), shift=rng.normal(3) * 5)
        add_data(base, rng, point=False)
        arg = base
        if kind == 2 and rng.bool(0.4):
            arg = pv.ImageData(dimensions=base.dimensions, spacing=(1.0, 2.0, 1.5), origin=(3.0, -1.0, 2.0))
            base = arg.cast_to_structured_grid()
    table = rand_base_groups(base, rng) if groups and arg is base else {}
    default = rng.choice([None, "dflt", "A"])
    ignore = rng.choice([None, None, ["A"], ["B", "C"]])
    ds = rng.choice([None, None, 0.8, 1.5]) if transforms else None
    da = rng.choice([None, None, 30.0, -15.0]) if transforms else None
    with Frame(base=arg):
        ex = pvg.MeshExtrude(arg, ds, da, default, ignore)
    surfs, items = [np.array(base.points, dtype=float)], [{}]
    log = []
    for _ in range(rng.int(1, 4)):
        v = np.zeros(3)
        v[axis] = rng.choice([1.0, -1.5, 2.0])
        if rng.bool(0.4):
            v += 0.2 * rng.normal(3)
        s = rng.choice([None, None, 1.2, 0.7, 1.0]) if transforms else None
        a = rng.choice([None, None, 20.0, -40.0, 0.0]) if transforms else None
        r, m = rand_resolution(rng, hi=3)
        if r is not None and not isinstance(r, int):
            r = rng.choice([[0.0, 0.25, 1.0], [0.0, 1.0]])
        g = rand_group_spec(base, rng, table) if groups else None
        va = v if rng.bool() else v.tolist()
        prev = [snapshot(it.mesh) for it in ex.items]
        with Frame(vector=va, base=arg):
            ex.add(va, resolution=r, method=m, scale=s, angle=a, group=g)
        for k, (p, it) in enumerate(zip(prev, ex.items)):
            same(p, snapshot(it.mesh), f"surface {k} added before")
        log.append((v.tolist(), s, a, r, m, repr(g)))
        surfs.append(spec_transform(surfs[-1], v, s if s is not None else ds, a if a is not None else da))
        items.append(dict(resolution=r, method=m, group=g))
    rng.note(axis=axis, base=type(base).__name__, dims=getattr(base, "dimensions", None), table=table, default=default, ignore=ignore, scale=ds, angle=da, items=log)
    return ex, surfs, items, base, table, default, ignore, axis


@case("C29", "surfaces", weight=2)
def c29(rng):
    ex, surfs, items, base, *_ = rand_extrude(rng, groups=False)
    need(len(ex.items) == len(surfs), "number of surfaces")
    for i, (it, S) in enumerate(zip(ex.items, surfs)):
        close(it.mesh.points, S, 1e-5, f"surface {i}")
        need(it.mesh.n_cells == base.n_cells and type(it.mesh) is type(base), f"surface {i} topology")


@case("C29", "errors", n=8)
def c29_errors(rng):
    b = pv.ImageData(dimensions=(3, 3, 1)).cast_to_structured_grid()
    i = rng.index
    bad = [[0.0, 1.0], [1.0], 1.0, [[0.0, 0.0, 1.0]], [0.0, 0.0, 1.0, 0.0]]
    if i < 5:
        raises(ValueError, lambda: pvg.MeshExtrude(b).add(bad[i]), f"vector {bad[i]!r}")
    elif i == 5:
        raises(ValueError, lambda: pvg.MeshExtrude(pv.ImageData(dimensions=(3, 3, 2))), "3D base mesh")
    elif i == 6:
        raises(ValueError, lambda: pvg.MeshExtrude(pv.ImageData(dimensions=(3, 1, 1))), "1D base mesh")
    else:
        raises(ValueError, lambda: pvg.MeshExtrude(pv.ImageData(dimensions=(3, 3, 3)).cast_to_unstructured_grid()), "3D base mesh")
