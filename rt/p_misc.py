"""Runtime contracts C09-C19, C23, C25, C26, C28: mesh utilities."""
from __future__ import annotations

import itertools

import numpy as np
import pyvista as pv
import pvgridder as pvg

from .core import case, need, close, equal, raises, Violation, Skip
from .gen import *
from .p_core import rand_base_groups, base_names, NAMES, polyline

T = pv.CellType


# ------------------------------------------------------------------ C09
def rand_structured(rng, dims, shift=0.0):
    g = [np.cumsum(rng.uniform(0.5, 1.5, n)) for n in dims]
    X, Y, Z = np.meshgrid(*g, indexing="ij")
    w = lambda: 0.1 * rng.normal(*X.shape)
    return X + w() + shift, Y + w() + shift, Z + w() - shift


@case("C09", "merge", weight=3)
def c09(rng):
    axis = rng.int(0, 2)
    dims = [rng.int(1, 4) for _ in range(3)]
    k = rng.int(2, 4)
    parts = [rng.int(1, 3) for _ in range(k)]
    dims[axis] = sum(parts) + 1
    flat = [d for d in dims if d > 1]
    X = rand_structured(rng, dims, rng.choice([0.0, 1000.0]))
    C = [max(1, d - 1) for d in dims]
    fields = {}
    for name, shape, p in (("s", (), 0.8), ("v", (3,), 0.6), ("t", (2,), 0.3), ("i", (), 0.5)):
        if rng.bool(p):
            a = rng.normal(*C, *shape)
            fields[name] = (a * 100).astype(int) if name == "i" else a
    grids, o = [], 0
    drop = {}
    for j, p in enumerate(parts):
        sl = [slice(None)] * 3
        sl[axis] = slice(o, o + p + 1)
        cl = [slice(None)] * 3
        cl[axis] = slice(o, o + p)
        g = pv.StructuredGrid(*(x[tuple(sl)] for x in X))
        for n, a in fields.items():
            if rng.bool(0.1):
                drop[n] = j
                continue
            v = a[tuple(cl)]
            g.cell_data[n] = v.reshape((-1, *v.shape[3:]), order="F")
        if rng.bool(0.2):
            g.cell_data[f"only{j}"] = np.arange(g.n_cells)
        grids.append(g)
        o += p
    rng.note(axis=axis, dims=dims, parts=parts, fields=sorted(fields), drop=drop)
    with Frame(grids=grids):
        m = pvg.merge(grids, axis=axis)
    need(isinstance(m, pv.StructuredGrid), "merged structured grids are not structured")
    need(tuple(m.dimensions) == tuple(dims), f"dimensions {m.dimensions}, expected {dims}")
    P = np.column_stack([x.ravel(order="F") for x in X])
    close(m.points, P, 1e-9, "merged points")
    for n, a in fields.items():
        if n in drop:
            continue
        need(n in m.cell_data, f"cell data {n!r} lost")
        equal(np.asarray(m.cell_data[n]), a.reshape((-1, *a.shape[3:]), order="F"), f"cell data {n!r}")
    # mismatching interfaces
    j = rng.int(1, k - 1)
    bad = [g.copy() for g in grids]
    Q = np.array(bad[j].points).reshape([*bad[j].dimensions, 3], order="F")
    sl = [rng.int(0, d - 1) for d in bad[j].dimensions]
    sl[axis] = 0
    Q[tuple(sl) + (rng.int(0, 2),)] += 0.3 * (1 + abs(Q).max() * 0.01)
    bad[j].points = Q.reshape((-1, 3), order="F")
    raises(ValueError, lambda: pvg.merge(bad, axis=axis), f"interface of grids {j - 1} and {j} does not match")
    raises(ValueError, lambda: pvg.merge(grids), "merge without axis")


# ------------------------------------------------------------------ C10
def cell_keys(mesh, names=None, nd=5):
    P = np.asarray(mesh.points, dtype=float)
    out = []
    for i, (t, c) in enumerate(cell_lists(mesh)):
        r = lambda ids: tuple(tuple(np.round(P[k], nd) + 0.0) for k in ids)
        key = tuple(r(f) for f in c) if t == 42 else r(c)
        out.append((t, key, names[i] if names is not None else None))
    return out


@case("C10", "merge", weight=1)
def c10(rng):
    default = rng.choice([None, "dflt", "A"])
    ignore = rng.choice([None, ["A"], ["B", "C"]])
    b = pvg.MeshMerge(default, ignore)
    want, metas, meshes = [], [], []
    pts = []
    for j in range(rng.int(1, 4)):
        kind = rng.int(0, 3)
        off = np.array([3.0 * rng.int(0, 1), 3.0 * rng.int(0, 1), 0.0])
        if kind == 0:
            m = pv.ImageData(dimensions=(rng.int(2, 4), rng.int(2, 4), rng.int(1, 3)), origin=off)
            m = m if rng.bool() else m.cast_to_structured_grid()
        elif kind == 1:
            m = unstructured_surface(rng, 2, nmax=2, data=False, warp=False, shift=off)
        elif kind == 2:
            m = pv.ImageData(dimensions=(rng.int(2, 3), rng.int(2, 3), 2), origin=off).cast_to_unstructured_grid()
        else:
            m = pv.PolyData(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0.0]]) + off, faces=rng.choice([[4, 0, 1, 2, 3], [3, 0, 1, 2, 3, 0, 2, 3]]))
        if not isinstance(m, pv.ImageData):
            m.points = np.round(np.asarray(m.points, dtype=float), 2)
        rand_base_groups(m, rng)
        grp = rng.choice([None, "A", "new", "Z"])
        ig = ignore or []
        names = [n if n is not None and n not in ig else grp or default or "default" for n in base_names(m)]
        u = m.cast_to_unstructured_grid()
        want += cell_keys(u, names)
        used = sorted({k for c in cell_lists(u) for k in (c[1] if c[0] != 42 else sum(c[1], ()))})
        pts += [tuple(np.round(np.asarray(u.points)[k], 5) + 0.0) for k in used]
        metas.append((type(m).__name__, grp, names[:6]))
        meshes.append(m)
        with Frame(mesh=m):
            b.add(m, grp)
    rng.note(default=default, ignore=ignore, meshes=metas)
    with Frame(meshes=meshes):
        r = b.generate_mesh()
        r2 = b.generate_mesh()
    got_names = list(map(str, pvg.get_cell_group(r)))
    got = cell_keys(r, got_names)
    gs, ws = sorted(map(repr, got)), sorted(map(repr, want))
    need(len(gs) == len(ws), f"{len(gs)} cells, expected {len(ws)}")
    for g, w in zip(gs, ws):
        need(g == w, f"merged cell {g[:300]}, expected {w[:300]}")
    need(r.n_points == len(set(pts)), f"{r.n_points} points, expected {len(set(pts))} distinct ones")
    table = dict(r.user_dict["CellGroup"])
    need(set(table) == set(got_names), f"name table {table} does not match the used names {sorted(set(got_names))}")
    need(len(set(table.values())) == len(table), f"names share a number: {table}")
    same_mesh(r, r2, "second generation")


@case("C10", "errors", n=1)
def c10_errors(rng):
    raises(ValueError, lambda: pvg.MeshMerge().generate_mesh(), "nothing to merge")


# ------------------------------------------------------------------ C11
@case("C11", "remap", weight=1)
def c11(rng):
    pref = rng.choice(["cell", "point"])
    m = pv.ImageData(dimensions=(rng.int(2, 5), rng.int(2, 4), 1)).cast_to_structured_grid()
    n = m.n_cells if pref == "cell" else m.n_points
    data = m.cell_data if pref == "cell" else m.point_data
    k = rng.int(1, 5)
    vals = [int(v) for v in rng.g.permutation(9)[:k] - 2]
    arr = rng.g.choice(vals, n).astype(rng.choice([np.int64, np.int32, np.int8]))
    data["key"] = arr
    labelled = rng.bool(0.7)
    table = {}
    if labelled:
        for v in vals:
            if rng.bool(0.85):
                table[f"n{v}"] = v
        if rng.bool(0.4):
            table["unused"] = 17
        items = list(table.items())
        table = dict(items[i] for i in rng.perm(len(items)))
        if table:
            m.user_dict["key"] = dict(table)
    src = [v for v in vals if rng.bool(0.7)]
    if rng.bool(0.2):
        src.append(40)
    inv = {v: n_ for n_, v in table.items()}
    # new numbers: a permutation / chain of existing numbers that keeps different categories apart
    pool = [v for v in range(-2, 12)]
    keep = {int(v) for v in np.unique(arr)} - set(src)
    tgt = [v for v in pool if v not in keep]
    tgt = [int(v) for v in rng.g.permutation(tgt)[:len(src)]]
    src = [src[i] for i in rng.perm(len(src))][:len(tgt)]
    mapping = {}
    for s, t in zip(src, tgt):
        mapping[inv[s] if s in inv and rng.bool() else s] = t
    inplace = rng.bool()
    rng.note(pref=pref, data=arr, table=table, mapping=mapping, inplace=inplace)
    before = m.copy()
    snap = snapshot(m)
    with Frame(mapping=mapping):
        r = pvg.remap_categorical_data(m, "key", mapping, pref, inplace)
    if inplace:
        need(r is None, "in place remapping returns something")
        r = m
    else:
        same(snap, snapshot(m), "mesh remapped not in place")
    num = {(table[a] if isinstance(a, str) else a): b for a, b in mapping.items()}
    exp = np.array([num.get(int(v), int(v)) for v in arr])
    got = np.asarray((r.cell_data if pref == "cell" else r.point_data)["key"])
    equal(got.astype(int), exp, "remapped values")
    if labelled and table:
        t2 = dict(r.user_dict["key"])
        want = {nm: num.get(v, v) for nm, v in table.items() if (arr == v).any()}
        need(t2 == want, f"name table {t2}, expected {want}")
        need(list(t2.values()) == sorted(t2.values()), f"name table not in ascending order: {t2}")
    equal(np.asarray(r.points), np.asarray(before.points), "points")


@case("C11", "errors", n=6)
def c11_errors(rng):
    m = pv.ImageData(dimensions=(3, 3, 1)).cast_to_structured_grid()
    m.cell_data["a"] = np.arange(4)
    m.cell_data["f"] = np.arange(4) * 1.5
    m.cell_data["b"] = np.arange(4) > 1
    m.user_dict["a"] = {"x": 0, "y": 1}
    snap = snapshot(m)
    i = rng.index
    bad = [lambda: pvg.remap_categorical_data(m, "a", {"zz": 3}), lambda: pvg.remap_categorical_data(m, "f", {0: 3}),
           lambda: pvg.remap_categorical_data(m, "b", {0: 3}), lambda: pvg.remap_categorical_data(m, "a", {0: 3}, preference="field"),
           lambda: pvg.remap_categorical_data(m, "a", {"x": 4, "zz": 3}, inplace=True), lambda: pvg.remap_categorical_data(m, "f", {0: 3}, inplace=True)][i]
    raises(ValueError, bad, "invalid remapping")
    same(snap, snapshot(m), "mesh after a failed remapping")


# ------------------------------------------------------------------ volumes
HEX2TET = [[0, 1, 3, 4], [1, 2, 3, 6], [1, 4, 5, 6], [3, 4, 6, 7], [1, 3, 4, 6]]


def volume_mesh(rng, kinds=("wedge", "hex", "voxel", "poly", "tet", "pyr"), nlay=None, empty=False, dup=False, collapse=False, shift=None):
    """Unstructured 3D mesh built independently of the code: layers over a random surface."""
    surf = unstructured_surface(rng, 2, kinds=("tri", "quad", "poly"), nmax=2, data=False, warp=False)
    nl = nlay or rng.int(1, 2)
    n = surf.n_points
    P0 = np.array(surf.points)
    P = [P0 + [0, 0, 1.0 * k] for k in range(nl + 1)]
    for k in range(nl + 1):
        P[k][:, 2] += 0.05 * rng.normal(n)
    if collapse:
        k = rng.int(1, nl)
        sel = rng.g.random(n) < 0.6
        P[k][sel] = P[k - 1][sel]
    P = list(np.vstack(P))
    cells, types = [], []
    for k in range(nl):
        for t, c in cell_lists(surf):
            lo, hi = [i + k * n for i in c], [i + (k + 1) * n for i in c]
            kk = rng.choice(list(kinds))
            if len(c) == 3 and t == T.TRIANGLE:
                cells.append(lo + hi)
                types.append(T.WEDGE)
            elif len(c) == 4 and kk == "voxel":
                cells.append([lo[0], lo[1], lo[3], lo[2], hi[0], hi[1], hi[3], hi[2]])
                types.append(T.VOXEL)
            elif len(c) == 4 and kk == "tet":
                h = lo + hi
                for q in HEX2TET:
                    cells.append([h[z] for z in q])
                    types.append(T.TETRA)
            elif len(c) == 4 and kk == "pyr":
                P.append(np.mean([P[i] for i in lo + hi], axis=0))
                a = len(P) - 1
                h = lo + hi
                for f in ([0, 1, 2, 3], [4, 7, 6, 5], [0, 4, 5, 1], [1, 5, 6, 2], [2, 6, 7, 3], [3, 7, 4, 0]):
                    cells.append([h[z] for z in f] + [a])
                    types.append(T.PYRAMID)
            elif len(c) == 4 and kk != "poly":
                cells.append(lo + hi)
                types.append(T.HEXAHEDRON)
            else:
                faces = [lo[::-1], hi] + [[lo[z], lo[(z + 1) % len(c)], hi[(z + 1) % len(c)], hi[z]] for z in range(len(c))]
                faces = [faces[z] for z in rng.perm(len(faces))]
                cells.append(("P", faces))
                types.append(T.POLYHEDRON)
    o = rng.perm(len(cells))
    cells, types = [cells[i] for i in o], [types[i] for i in o]
    if dup:
        i = rng.int(0, len(cells) - 1)
        cells.append(cells[i])
        types.append(types[i])
    if empty:
        for _ in range(rng.int(1, 2)):
            i = rng.int(0, len(cells))
            cells.insert(i, [])
            types.insert(i, T.EMPTY_CELL)
    flat = []
    for c in cells:
        if isinstance(c, tuple):
            s = [len(c[1])] + [x for f in c[1] for x in (len(f), *f)]
            flat += [len(s), *s]
        else:
            flat += [len(c), *c]
    P = np.array(P)
    if shift is not None:
        P = P + shift
    return pv.UnstructuredGrid(np.array(flat), np.array([int(t) for t in types], dtype=np.uint8), P)


def vtk_faces(u, i, dim):
    """Edges (dim 1, 2) or faces (dim 3) of a cell from VTK's own cell description."""
    c = u.GetCell(i)
    t = u.GetCellType(i)
    if t == T.EMPTY_CELL:
        return []
    ids = lambda x: tuple(x.GetPointId(k) for k in range(x.GetNumberOfPoints()))
    if dim == 3:
        out = []
        for k in range(c.GetNumberOfFaces()):
            f = c.GetFace(k)
            q = ids(f)
            out.append((q[0], q[1], q[3], q[2]) if f.GetCellType() == T.PIXEL else q)
        return out
    if t in (T.LINE, T.POLY_LINE):
        q = ids(c)
        return list(zip(q[:-1], q[1:]))
    return [ids(c.GetEdge(k)) for k in range(c.GetNumberOfEdges())]


def cyc(a, b):
    """Same polygon up to rotation and reversal."""
    if len(a) != len(b):
        return False
    n = len(a)
    bb = list(b)
    for r in (bb, bb[::-1]):
        for k in range(n):
            if list(a) == r[k:] + r[:k]:
                return True
    return False


def geom_of(poly):
    faces = []
    for t, c in cell_lists(poly):
        if t == T.PIXEL:
            c = (c[0], c[1], c[3], c[2])
        faces.append(c)
    return faces


def rand_any_mesh(rng, dims=(1, 2, 3)):
    """(mesh, unstructured mesh without hidden cells, dim)"""
    dim = rng.choice(list(dims))
    if dim == 1:
        n = rng.int(3, 7)
        P = rng.normal(n, 3)
        cells = []
        for _ in range(rng.int(1, 4)):
            k = rng.int(2, min(4, n))
            q = [int(z) for z in rng.perm(n)[:k]]
            cells += [len(q), *q]
        return pv.PolyData(P, lines=cells), 1
    if dim == 2:
        k = rng.int(0, 3)
        if k == 0:
            m = structured_surface(rng, rng.int(0, 2), nmax=4, data=False)
            if rng.bool(0.4):
                m.cell_data["vtkGhostType"] = np.where(rng.g.random(m.n_cells) < 0.3, 32, 0).astype(np.uint8)
            return m, 2
        m = unstructured_surface(rng, 2, nmax=3, data=False, flip=rng.choice([False, True, "mixed"]))
        if k == 1:
            # non-manifold: extra triangle on an existing edge
            cl = cell_lists(m)
            e = vtk_faces(m, rng.int(0, m.n_cells - 1), 2)[0]
            P = np.vstack((m.points, [[0.3, 0.2, 2.0]]))
            flat = [x for _, c in cl for x in (len(c), *c)] + [3, *e, len(P) - 1]
            m = pv.UnstructuredGrid(np.array(flat), np.array([t for t, _ in cl] + [5], dtype=np.uint8), P)
        return m, 2
    if rng.bool(0.25):
        m = pv.ImageData(dimensions=[rng.int(2, 4) for _ in range(3)])
        m = m if rng.bool() else m.cast_to_structured_grid()
        if rng.bool(0.5):
            m.cell_data["vtkGhostType"] = np.where(rng.g.random(m.n_cells) < 0.3, 32, 0).astype(np.uint8)
        return m, 3
    kinds = rng.choice([("wedge", "hex", "voxel", "poly", "tet", "pyr"), ("hex",), ("poly",), ("tet",)])
    return volume_mesh(rng, kinds, empty=rng.bool(0.2), dup=rng.bool(0.15)), 3


# ------------------------------------------------------------------ C12
def spec_geometry(m, dim, ghosts_removed):
    if not ghosts_removed and "vtkGhostType" in m.cell_data:
        m = m.copy()
        m.clear_data()
    u = m.cast_to_unstructured_grid()
    P = np.asarray(u.points)
    table = {}
    for i in range(u.n_cells):
        for f in vtk_faces(u, i, dim):
            e = table.setdefault(frozenset(f), dict(face=f, cells=[]))
            e["cells"].append(i)
    if ghosts_removed:
        for k in list(table):
            f = table[k]["face"]
            Q = P[list(f)]
            if (dim < 3 and np.all(Q[0] == Q[1])) or (dim == 3 and len({tuple(x) for x in Q.tolist()}) < 3):
                del table[k]
    return table, u


@case("C12", "geometry", weight=2)
def c12(rng):
    m, dim = rand_any_mesh(rng)
    if dim == 3 and rng.bool(0.25):
        m = volume_mesh(rng, ("wedge", "hex", "poly"), collapse=True)
    if dim < 3 and not isinstance(m, pv.ImageData) and rng.bool(0.35):
        # edges of no length
        u = m.cast_to_unstructured_grid()
        P = np.array(m.points)
        for _ in range(rng.int(1, 3)):
            e = rng.choice(vtk_faces(u, rng.int(0, u.n_cells - 1), dim) or [(0, 0)])
            P[e[1]] = P[e[0]]
        m.points = P
    rem = rng.bool(0.8)
    rng.note(kind=type(m).__name__, dim=dim, remove=rem, n_cells=m.n_cells, points=m.points, cells=cell_lists(m.cast_to_unstructured_grid())[:20],
             ghost=m.cell_data.get("vtkGhostType", None))
    add_data(m, rng)
    table, u = spec_geometry(m, dim, rem)
    if not table:
        raise Skip
    with Frame(mesh=m):
        g = pvg.extract_cell_geometry(m, rem)
        nb = pvg.get_neighborhood(m, rem)
        co = pvg.get_connectivity(m, None, rem)
    faces = geom_of(g)
    ids = np.asarray(g.cell_data["vtkOriginalCellIds"])
    need(ids.ndim == 2 and ids.shape[0] == len(faces) and ids.shape[1] >= 2, f"shape of labels {ids.shape}")
    close(g.points, u.points, 1e-9, "points of the geometry")
    seen = set()
    for f, row in zip(faces, ids):
        k = frozenset(f)
        need(k in table, f"{f} is not an edge or face of any cell")
        need(k not in seen, f"{f} appears twice")
        seen.add(k)
        need(cyc(f, table[k]["face"]), f"vertices of face {f} out of order, expected {table[k]['face']}")
        row = row.tolist()
        got = [x for x in row if x != -1]
        need(row == got + [-1] * (len(row) - len(got)), f"labels {row} not padded at the end")
        need(got == table[k]["cells"], f"face {f} labelled {got}, expected {table[k]['cells']}")
    need(len(seen) == len(table), lambda: f"missing faces {[tuple(k) for k in table if k not in seen][:3]}")
    # neighborhood and connection lines
    want = [[] for _ in range(m.n_cells)]
    pairs = []
    for e in table.values():
        for a, b in itertools.combinations(e["cells"], 2):
            want[a].append(b)
            want[b].append(a)
            pairs.append(tuple(sorted((a, b))))
    need(len(nb) == m.n_cells, f"{len(nb)} neighborhoods for {m.n_cells} cells")
    for i, (x, y) in enumerate(zip(nb, want)):
        need(sorted(int(z) for z in x) == sorted(y), f"neighbors of cell {i}: {sorted(map(int, x))}, expected {sorted(y)}")
    got = sorted(tuple(sorted(c)) for _, c in cell_lists(co)) if co.n_lines else []
    need(got == sorted(pairs), f"connection lines {got[:8]}, expected {sorted(pairs)[:8]}")
    c0 = pvg.get_cell_centers(m)
    close(co.points, c0, 1e-6, "ends of connection lines") if np.isfinite(c0).all() else None
    ctr = rng.normal(m.n_cells, 3)
    with Frame(c=ctr, mesh=m):
        co = pvg.get_connectivity(m, ctr if rng.bool() else ctr.tolist(), rem)
    close(co.points, ctr, 1e-6, "given cell centers")


@case("C12", "repeated", weight=0.4)
def c12_repeated(rng):
    """Cells that name a point twice: their faces are those of the points they have."""
    if rng.bool(0.7):
        # hexahedra along x, one edge of a side merged, a tetrahedron (or pyramid) behind each triangle that is left
        P = [(x, y, z) for x in range(3) for z in (0, 1) for y in (0, 1)]
        at = lambda x, y, z: 4 * x + 2 * z + y
        hexa = lambda x: [at(x, 0, 0), at(x + 1, 0, 0), at(x + 1, 1, 0), at(x, 1, 0), at(x, 0, 1), at(x + 1, 0, 1), at(x + 1, 1, 1), at(x, 1, 1)]
        cells = [(12, hexa(0))]
        if rng.bool():
            cells.append((12, hexa(1)))
        side = vtk_faces(pv.UnstructuredGrid(np.array([8, *cells[-1][1]]), np.array([12], dtype=np.uint8), np.array(P, dtype=float)), 0, 3)[rng.int(0, 5)]
        a, b = side[0], side[1]
        cells = [(t, [a if q == b else q for q in c]) for t, c in cells]
        tri = [a if q == b else q for q in side]
        tri = [q for k, q in enumerate(tri) if q not in tri[:k]]
        for _ in range(rng.int(1, 2)):
            P.append(tuple(rng.normal(3) * 4))
            cells.append((10, [tri[k] for k in rng.perm(3)] + [len(P) - 1]))
        cells = [cells[k] for k in rng.perm(len(cells))]
        dim = 3
    else:
        # quadrilaterals with a side of no length, sharing edges with triangles
        P = [tuple(x) for x in rng.normal(6, 3)]
        k = rng.int(0, 3)
        q = [0, 1, 2]
        q.insert(k, q[min(k, 2)])
        cells = [(9, q), (5, [0, 1, 3]), (5, [1, 2, 4]), (5, [2, 0, 5])]
        cells = [cells[k] for k in rng.perm(4)[: rng.int(2, 4)]]
        dim = 2
    P = np.array(P, dtype=float)
    m = pv.UnstructuredGrid(np.array([x for _, c in cells for x in (len(c), *c)]), np.array([t for t, _ in cells], dtype=np.uint8), P)
    rng.note(cells=cells, points=P)
    table = {}
    for i in range(m.n_cells):
        for f in vtk_faces(m, i, dim):
            k = frozenset(f)
            if len(k) < dim:
                continue
            table.setdefault(k, []).append(i)
    if any(len(set(v)) != len(v) for v in table.values()):
        raise Skip
    with Frame(mesh=m):
        g = pvg.extract_cell_geometry(m)
        nb = pvg.get_neighborhood(m)
    got = {}
    for f, row in zip(geom_of(g), np.asarray(g.cell_data["vtkOriginalCellIds"]).tolist()):
        k = frozenset(f)
        need(k not in got, f"{sorted(k)} appears twice")
        got[k] = [x for x in row if x != -1]
    need(got == table, lambda: f"edges or faces {sorted((sorted(k), v) for k, v in got.items())}, expected {sorted((sorted(k), v) for k, v in table.items())}")
    want = [[] for _ in cells]
    for v in table.values():
        for a, b in itertools.combinations(v, 2):
            want[a].append(b)
            want[b].append(a)
    for i, (x, y) in enumerate(zip(nb, want)):
        need(sorted(int(z) for z in x) == sorted(y), f"neighbors of cell {i}: {sorted(map(int, x))}, expected {sorted(y)}")


@case("C12", "errors", n=4)
def c12_errors(rng):
    m = pv.ImageData(dimensions=(3, 3, 1)).cast_to_unstructured_grid()
    i = rng.index
    if i == 0:
        raises(ValueError, lambda: pvg.get_connectivity(m, np.zeros((3, 3))), "centers of another number")
    elif i == 1:
        raises(ValueError, lambda: pvg.get_connectivity(m, np.zeros((4, 2))), "centers of another size")
    elif i == 2:
        q = pv.UnstructuredGrid(np.array([6, 0, 1, 2, 3, 4, 5]), np.array([22], dtype=np.uint8), np.eye(6)[:, :3])
        raises(NotImplementedError, lambda: pvg.extract_cell_geometry(q), "quadratic triangle")
    else:
        q = pv.UnstructuredGrid(np.array([10, *range(10), 4, 0, 1, 2, 3]), np.array([24, 10], dtype=np.uint8), np.random.default_rng(0).normal(size=(10, 3)))
        raises(NotImplementedError, lambda: pvg.extract_cell_geometry(q), "quadratic tetrahedron among others")
        q = pv.UnstructuredGrid(np.array([10, *range(10)]), np.array([24], dtype=np.uint8), q.points)
        raises(NotImplementedError, lambda: pvg.extract_cell_geometry(q), "quadratic tetrahedron")


# ------------------------------------------------------------------ C13
def mixed_mesh(rng, empty=True):
    m = volume_mesh(rng, empty=False, nlay=1)
    cl = cell_lists(m)
    cells = [(t, c) for t, c in cl]
    n = m.n_points
    for _ in range(rng.int(0, 5)):
        k = rng.int(0, 5)
        q = [int(z) for z in rng.perm(n)[:4]]
        e = [(1, q[:1]), (3, q[:2]), (4, q[:3]), (5, q[:3]), (9, q), (7, q)][k]
        cells.insert(rng.int(0, len(cells)), e)
    if empty:
        for _ in range(rng.int(0, 2)):
            cells.insert(rng.int(0, len(cells)), (0, []))
    if rng.bool(0.4):
        cells = [c for c in cells if c[0] in (0, 1, 3, 4, 5, 7, 9)] or [(5, [0, 1, 2])]
    if rng.bool(0.3):
        cells = [c for c in cells if c[0] in (0, 1, 3, 4)] or [(3, [0, 1])]
    flat, types = [], []
    for t, c in cells:
        if t == 42:
            s = [len(c)] + [x for f in c for x in (len(f), *f)]
            flat += [len(s), *s]
        else:
            flat += [len(c), *c]
        types.append(t)
    return pv.UnstructuredGrid(np.array(flat), np.array(types, dtype=np.uint8), m.points), cells


DIM = {0: -1, 1: 0, 2: 0, 3: 1, 4: 1, 5: 2, 6: 2, 7: 2, 8: 2, 9: 2, 10: 3, 11: 3, 12: 3, 13: 3, 14: 3, 42: 3}


@case("C13", "connectivity", weight=1)
def c13(rng):
    m, cells = mixed_mesh(rng)
    add_data(m, rng)
    rng.note(cells=cells)
    if all(t == 0 for t, _ in cells):
        raise Skip
    with Frame(mesh=m):
        con = pvg.get_cell_connectivity(m)
        flat = pvg.get_cell_connectivity(m, flatten=True)
        d = pvg.get_dimension(m)
    need(isinstance(con, tuple) and len(con) == len(cells), f"{len(con)} cells, expected {len(cells)}")
    for i, ((t, c), got) in enumerate(zip(cells, con)):
        if t == 42:
            need([tuple(map(int, f)) for f in got] == [tuple(f) for f in c], f"faces of polyhedron {i}")
        else:
            need(tuple(map(int, got)) == tuple(c), f"points of cell {i}: {list(map(int, got))}, expected {list(c)}")
    r = pv.UnstructuredGrid(np.asarray(flat), m.celltypes, m.points)
    need(cell_lists(r) == cell_lists(m), "mesh rebuilt from the flattened connectivity has other cells")
    need(d == max(DIM[t] for t, _ in cells), f"dimension {d}, expected {max(DIM[t] for t, _ in cells)}")


@case("C13", "dimension", n=22)
def c13_dim(rng):
    """Dimension of a single cell of each type, against VTK."""
    from vtkmodules.vtkCommonDataModel import vtkGenericCell

    types = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 41]
    t = types[rng.index]
    n = {1: 1, 2: 3, 3: 2, 4: 3, 5: 3, 6: 4, 7: 5, 8: 4, 9: 4, 10: 4, 11: 8, 12: 8, 13: 6, 14: 5, 15: 10, 16: 12, 21: 3, 22: 6, 23: 8, 24: 10, 25: 20, 41: 6}[t]
    m = pv.UnstructuredGrid(np.array([n, *range(n)]), np.array([t], dtype=np.uint8), rng.normal(n, 3))
    g = vtkGenericCell()
    g.SetCellType(t)
    rng.note(type=t)
    need(pvg.get_dimension(m) == g.GetCellDimension(), f"dimension of a cell of type {t}: {pvg.get_dimension(m)}, expected {g.GetCellDimension()}")


@case("C13", "dimension_grids", weight=0.3)
def c13_grid(rng):
    d = [rng.choice([1, 1, 2, 3]) for _ in range(3)]
    kind = rng.int(0, 2)
    m = pv.ImageData(dimensions=d)
    m = m if kind == 0 else m.cast_to_structured_grid() if kind == 1 else pv.RectilinearGrid(*(np.arange(k, dtype=float) for k in d))
    rng.note(dims=d, kind=kind)
    need(pvg.get_dimension(m) == sum(k > 1 for k in d), f"dimension of a grid {d}")


@case("C13", "by_dimension", weight=1)
def c13_by(rng):
    m, cells = mixed_mesh(rng)
    add_data(m, rng)
    ndim = rng.choice([None, 0, 1, 2, 3])
    method = rng.choice(["upper", "lower"])
    keep = rng.bool(0.3)
    rng.note(cells=cells, ndim=ndim, method=method, keep=keep)
    nd = ndim if ndim is not None else max(DIM[t] for t, _ in cells)
    sel = [i for i, (t, _) in enumerate(cells) if (keep if t == 0 else (DIM[t] >= nd if method == "upper" else DIM[t] <= nd))]
    if not sel:
        raise Skip
    with Frame(mesh=m):
        r = pvg.extract_cells_by_dimension(m, ndim, method, keep)
    need(r.n_cells == len(sel), f"{r.n_cells} cells, expected {len(sel)}")
    a, b = cell_keys(m, nd=9), cell_keys(r, nd=9)
    for j, i in enumerate(sel):
        need(b[j] == a[i], f"cell {j} is not cell {i} of the mesh")
    for k, v in m.cell_data.items():
        equal(np.asarray(r.cell_data[k]), np.asarray(v)[sel], f"cell data {k!r}")
    raises(ValueError, lambda: pvg.extract_cells_by_dimension(m, 2, "other"), "unknown method")


@case("C13", "extract", weight=0.7)
def c13_extract(rng):
    k = rng.int(0, 2)
    m = pv.ImageData(dimensions=(rng.int(2, 4), rng.int(2, 4), rng.int(1, 3))) if k == 0 else structured_surface(rng, 2, data=False) if k == 1 else mixed_mesh(rng, False)[0]
    add_data(m, rng, ghost=False)
    if rng.bool():
        m.cell_data["vtkGhostType"] = np.where(rng.g.random(m.n_cells) < 0.4, 32, 0).astype(np.uint8)
    mask = rng.g.random(m.n_cells) < 0.6
    mask[rng.int(0, m.n_cells - 1)] = True
    inv = rng.bool(0.3) and not mask.all()
    sel = np.flatnonzero(~mask if inv else mask)
    arg = mask if rng.bool() else np.flatnonzero(mask) if rng.bool() else np.flatnonzero(mask).tolist()
    rng.note(kind=type(m).__name__, mask=mask, inv=inv, ghost=m.cell_data.get("vtkGhostType", None))
    with Frame(mesh=m, arg=arg):
        r = pvg.extract_cells(m, arg, invert=bool(inv))
    need(r.n_cells == len(sel), f"{r.n_cells} cells extracted, expected {len(sel)}")
    for kk, v in m.cell_data.items():
        equal(np.asarray(r.cell_data[kk]), np.asarray(v)[sel], f"cell data {kk!r}")
    b = m.copy()
    b.cell_data.pop("vtkGhostType", None)
    a, c = cell_keys(b.cast_to_unstructured_grid(), nd=9), cell_keys(r, nd=9)
    for j, i in enumerate(sel):
        need(c[j][:2] == a[i][:2], f"extracted cell {j} is not cell {i}")


# ------------------------------------------------------------------ C14
def centroid(P, faces):
    c0 = P.mean(axis=0)
    V, C = 0.0, np.zeros(3)
    for f in faces:
        for a, b in zip(f[1:-1], f[2:]):
            q = np.array([P[f[0]], P[a], P[b]]) - c0
            v = abs(np.linalg.det(q)) / 6.0
            V += v
            C += v * (q.sum(axis=0) / 4.0)
    return c0 + C / V


@case("C14", "centers", weight=1)
def c14(rng):
    k = rng.int(0, 3)
    shift = rng.choice([None, np.array([10.0, -20.0, 5.0])])
    if k == 0:
        m, _ = mixed_mesh(rng, empty=rng.bool(0.4))
    elif k == 1:
        m = volume_mesh(rng, rng.choice([("poly",), ("poly", "hex", "wedge")]), empty=rng.bool(0.3), shift=shift)
    elif k == 2:
        m = structured_surface(rng, rng.int(0, 2), data=False)
    else:
        m = volume_mesh(rng, shift=shift)
    add_data(m, rng)
    if rng.bool(0.4):
        m.cell_data["vtkGhostType"] = np.where(rng.g.random(m.n_cells) < 0.4, 32, 0).astype(np.uint8)
    method = rng.choice([None, "box", "geometric", "tetra"])
    b = m.copy()
    b.cell_data.pop("vtkGhostType", None)
    u = b.cast_to_unstructured_grid()
    P = np.asarray(u.points, dtype=float)
    exp = np.full((u.n_cells, 3), np.nan)
    for i, (t, c) in enumerate(cell_lists(u)):
        if t == 0:
            continue
        if t == 42:
            ids = sorted({p for f in c for p in f})
            Q = P[ids]
            if method in (None, "box"):
                exp[i] = 0.5 * (Q.min(axis=0) + Q.max(axis=0))
            elif method == "geometric":
                exp[i] = Q.mean(axis=0)
            else:
                exp[i] = 0.5 * (Q.min(axis=0) + Q.max(axis=0))  # see c14_convex for the value
        else:
            cell = u.GetCell(i)
            pc = [0.0] * 3
            sub = cell.GetParametricCenter(pc)
            x = [0.0] * 3
            w = [0.0] * max(1, cell.GetNumberOfPoints())
            import vtkmodules.vtkCommonCore as vc

            s = vc.reference(sub)
            cell.EvaluateLocation(s, pc, x, w)
            exp[i] = x
    rng.note(kind=type(m).__name__, method=method, cells=cell_lists(u)[:6], points=P)
    with Frame(mesh=m):
        got = pvg.get_cell_centers(m, method)
    need(got.shape == exp.shape, f"{got.shape} centers, expected {exp.shape}")
    poly = np.array([t == 42 for t, _ in cell_lists(u)], dtype=bool)
    close(got[~poly], exp[~poly], 1e-6, "cell centers")
    if method == "tetra":
        for i in np.flatnonzero(poly):
            Q = P[sorted({p for f in cell_lists(u)[i][1] for p in f})]
            need((got[i] >= Q.min(axis=0) - 1e-6).all() and (got[i] <= Q.max(axis=0) + 1e-6).all(), f"centroid of polyhedron {i} outside of its box")
    else:
        close(got[poly], exp[poly], 1e-6, f"polyhedron centers with method {method}")


@case("C14", "convex", weight=0.5)
def c14_convex(rng):
    """Convex polyhedra with planar faces: exact centroid."""
    n = rng.int(3, 7)
    th = np.sort(rng.uniform(0, 2 * np.pi, n))
    if n == 3 or np.diff(np.append(th, th[0] + 2 * np.pi)).max() > np.pi * 0.95:
        th = np.linspace(0, 2 * np.pi, n, endpoint=False) + rng.uniform(0, 0.2, n)
    base = np.column_stack((np.cos(th), np.sin(th), np.zeros(n))) * rng.uniform(0.5, 3.0)
    apex = rng.bool()
    s = rng.normal(3) * 5
    if apex:
        P = np.vstack((base, [[0.3, -0.2, rng.uniform(1, 4)]])) + s
        faces = [list(range(n))[::-1]] + [[i, (i + 1) % n, n] for i in range(n)]
    else:
        P = np.vstack((base, base + [0.5, 0.2, 2.0])) + s
        faces = [list(range(n))[::-1], list(range(n, 2 * n))] + [[i, (i + 1) % n, n + (i + 1) % n, n + i] for i in range(n)]
    faces = [faces[i] for i in rng.perm(len(faces))]
    flat = [len(faces)] + [x for f in faces for x in (len(f), *f)]
    m = pv.UnstructuredGrid(np.array([len(flat), *flat]), np.array([42], dtype=np.uint8), P)
    rng.note(points=P, faces=faces)
    close(pvg.get_cell_centers(m, "tetra")[0], centroid(P, faces), 1e-5, "centroid of a convex polyhedron")
    close(pvg.get_cell_centers(m, "geometric")[0], P.mean(axis=0), 1e-5, "average of the points")
    close(pvg.get_cell_centers(m, "box")[0], 0.5 * (P.min(axis=0) + P.max(axis=0)), 1e-5, "center of the box")


@case("C14", "nonconvex", weight=0.5)
def c14_nonconvex(rng):
    """Prisms over a polygon that need not be convex: the centroid is that of the polygon, halfway up."""
    n = rng.int(4, 9)
    th = 2 * np.pi * (np.arange(n) + rng.uniform(-0.3, 0.3, n)) / n
    r = rng.uniform(0.3, 3.0, n)
    B = np.column_stack((r * np.cos(th), r * np.sin(th)))
    B = np.roll(B, rng.int(0, n - 1), axis=0)
    x, y = B.T
    x1, y1 = np.roll(x, -1), np.roll(y, -1)
    w = x * y1 - x1 * y
    c = np.array([((x + x1) * w).sum(), ((y + y1) * w).sum()]) / (3.0 * w.sum())
    h, sh = rng.uniform(0.5, 3.0), rng.normal(2)
    s = rng.normal(3) * 5
    P = np.vstack((np.column_stack((B, np.zeros(n))), np.column_stack((B + sh, np.full(n, h))))) + s
    want = np.array([c[0] + sh[0] / 2, c[1] + sh[1] / 2, h / 2]) + s
    faces = [list(range(n))[::-1], list(range(n, 2 * n))] + [[i, (i + 1) % n, n + (i + 1) % n, n + i] for i in range(n)]
    faces = [np.roll(f, rng.int(0, n)).tolist() for f in faces]
    if rng.bool(0.3):
        faces = [f[::-1] for f in faces]
    faces = [faces[i] for i in rng.perm(len(faces))]
    flat = [len(faces)] + [x for f in faces for x in (len(f), *f)]
    m = pv.UnstructuredGrid(np.array([len(flat), *flat]), np.array([42], dtype=np.uint8), P)
    rng.note(points=P, faces=faces)
    close(pvg.get_cell_centers(m, "tetra")[0], want, 1e-5, "centroid of a prism")


# ------------------------------------------------------------------ C15
@case("C15", "average", weight=1)
def c15(rng):
    n = rng.int(2, 40) if rng.bool(0.9) else rng.int(80, 200)
    tol = rng.choice([0.0, 0.05, 0.1])
    if tol == 0.0:
        P = rng.g.integers(0, 4, (n, 3)).astype(float)
    else:
        P = rng.uniform(0, 1, (n, 3)) * [1, 1, 0 if rng.bool() else 0.3]
        if rng.bool():
            # chains
            k = rng.int(2, n)
            P[:k] = np.linspace([0, 0, 0], [0.8 * tol * k, 0, 0], k)
            P = P[rng.perm(n)]
    D = np.linalg.norm(P[:, None] - P[None], axis=2)
    if tol > 0 and (np.abs(D - tol)[np.triu_indices(n, 1)] < 1e-9).any():
        raise Skip
    lab = np.arange(n)
    while True:
        new = np.array([lab[D[i] <= tol].min() for i in range(n)])
        if (new == lab).all():
            break
        lab = new
    newP = np.array([P[lab == lab[i]].mean(axis=0) for i in range(n)])
    faces = []
    if n >= 3 and rng.bool(0.85):
        for _ in range(rng.int(1, 12)):
            k = rng.int(3, min(7, n))
            faces.append([int(z) for z in rng.perm(n)[:k]])
    rng.note(tol=tol, points=P if n < 60 else n, faces=faces)
    m = pv.PolyData(P, faces=np.array([x for f in faces for x in (len(f), *f)])) if faces else pv.PolyData(P)
    want, orig = [], []
    for i, f in enumerate(faces):
        q = [int(lab[z]) for z in f]
        q = [z for k, z in enumerate(q) if k == 0 or z != q[k - 1]]
        if len(q) > 1 and q[0] == q[-1]:
            q = q[:-1]
        if len(q) >= 3:
            want.append(q)
            orig.append(i)
    # distinct groups at the same mean, or a polygon visiting a group twice: VTK's clean() decides, not specified
    reps = [i for i in range(n) if lab[i] == i]
    Q = newP[reps]
    if len(Q) > 1:
        dd = np.linalg.norm(Q[:, None] - Q[None], axis=2) + np.eye(len(Q))
        if dd.min() < 1e-6:
            raise Skip
    if any(len(set(q)) != len(q) for q in want):
        raise Skip
    with Frame(mesh=m):
        r = pvg.average_points(m, tol)
    if faces:
        if not want:
            need(r.n_cells == 0, "polygons kept that have fewer than three vertices")
            return
        got = cell_lists(r)
        equal(np.asarray(r.cell_data["vtkOriginalCellIds"]), np.array(orig), "labels of the kept polygons")
        need(len(got) == len(want), f"{len(got)} polygons, expected {len(want)}")
        for j, ((_, c), q) in enumerate(zip(got, want)):
            A, B = np.asarray(r.points)[list(c)], newP[q]
            need(A.shape == B.shape, f"polygon {j} has {len(A)} vertices, expected {len(B)}")
            need(min(np.abs(np.roll(A, s, axis=0) - B).max() for s in range(len(A))) < 1e-5, f"polygon {j}: vertices {A.tolist()}, expected {B.tolist()}")
    else:
        A = np.asarray(r.points)
        need(len(A) == len(Q), f"{len(A)} points, expected {len(Q)}")
        d = np.linalg.norm(A[:, None] - Q[None], axis=2)
        need(d.min(axis=0).max() < 1e-5 and d.min(axis=1).max() < 1e-5, "averaged points")


@case("C15", "lines", n=1)
def c15_lines(rng):
    raises(NotImplementedError, lambda: pvg.average_points(pv.lines_from_points(rng.normal(4, 3)), 0.1), "mesh with lines")


# ------------------------------------------------------------------ C16
def dist_line(p, a, b):
    u = b - a
    n = np.linalg.norm(u)
    return np.linalg.norm(np.cross(u, p - a)) / n if n > 0 else np.linalg.norm(p - a)


@case("C16", "decimate", weight=1)
def c16(rng):
    lines, pts = [], []
    L = []
    sc = rng.choice([1.0, 1.0, 1.0e-2, 100.0])
    tol = rng.choice([1e-8, 1e-3, 0.05, 0.3, 1.0]) * sc
    for _ in range(rng.int(1, 3)):
        n = rng.choice([2, 3, 5, 10, 30])
        kind = rng.int(0, 4)
        if kind == 0:
            P = rng.normal(n, 3) * 3
        elif kind == 4:
            P = np.outer(np.arange(n), [1.0, 2.0, 0.5]) + 10.0 ** rng.uniform(-6.5, -2) * rng.normal(n, 3)
        elif kind == 1:
            t = np.linspace(0, 2 * np.pi, n) if n > 2 else np.array([0.0, 1.0])
            P = np.column_stack((np.cos(t), np.sin(t), 0.1 * t)) * 5
        elif kind == 2:
            P = np.cumsum(rng.g.integers(0, 2, (n, 3)).astype(float) + [1, 0, 0], axis=0)
        else:
            P = np.outer(np.arange(n), [1.0, 2.0, 0.5]) + 0.02 * rng.normal(n, 3)
        if n > 3 and rng.bool(0.25):
            P[-1] = P[0]
        P = (P + 20.0 * len(L)) * sc
        if np.abs(P - P[0]).max() <= 3 * tol:
            raise Skip
        L.append(P)
    o = 0
    for P in L:
        lines += [len(P), *range(o, o + len(P))]
        o += len(P)
    m = pv.PolyData(np.vstack(L), lines=lines)
    rng.note(tol=tol, lines=[P.tolist() for P in L])
    with Frame(mesh=m):
        r = pvg.decimate_rdp(m, tol) if tol != 1e-8 or rng.bool() else pvg.decimate_rdp(m)
    got = cell_lists(r)
    need(len(got) == len(L), f"{len(got)} lines, expected {len(L)}")
    for j, ((_, c), P) in enumerate(zip(got, L)):
        Q = np.asarray(r.points, dtype=float)[list(c)]
        need(len(Q) >= 2, "line of less than two points")
        # greedy matching along the line
        idx, k = [], 0
        for q in Q:
            while k < len(P) and np.abs(P[k] - q).max() > 1e-5 * max(1, np.abs(P).max()):
                k += 1
            need(k < len(P), f"line {j}: kept points are not points of the line in order")
            idx.append(k)
            k += 1
        close(Q[0], P[0], 1e-6, f"line {j}: first point")
        close(Q[-1], P[-1], 1e-6, f"line {j}: last point")
        idx[-1] = len(P) - 1
        if len({tuple(x) for x in P.tolist()}) == len(P):
            for a, b in zip(idx[:-1], idx[1:]):
                for z in range(a, b + 1):
                    need(dist_line(P[z], P[a], P[b]) <= tol * (1 + 1e-6) + 1e-9, f"line {j}: point {z} is farther than {tol} from the line between kept points {a} and {b}")


# ------------------------------------------------------------------ C17
def rand_lines(rng, kinds=True, data=True, extra=False):
    n = rng.int(4, 10)
    P = np.round(rng.normal(n, 3) * 256) / 64
    cells = []
    for _ in range(rng.int(1, 4)):
        k = rng.int(2, 5)
        q = [int(z) for z in rng.perm(n)[:min(k, n)]]
        cells.append(q)
    kw = {}
    if extra and rng.bool(0.5):
        kw["verts"] = np.array([1, 0, 1, 2])
    if extra and rng.bool(0.5):
        kw["faces"] = np.array([3, 0, 1, 2, 4, 0, 1, 2, 3])
    m = pv.PolyData(P, lines=np.array([x for c in cells for x in (len(c), *c)]), **kw)
    nv = 2 if "verts" in kw else 0
    if data:
        m.point_data["ps"] = rng.normal(n)
        if rng.bool():
            m.point_data["pv"] = rng.normal(n, 3)
        if rng.bool(0.7):
            m.cell_data["cs"] = rng.normal(m.n_cells)
        if rng.bool():
            m.cell_data["cv"] = rng.normal(m.n_cells, 3)
        if rng.bool(0.5):
            m.cell_data["ct"] = np.array([f"t{i}" for i in range(m.n_cells)])
        if rng.bool(0.4):
            m.cell_data["ci"] = rng.g.integers(0, 9, m.n_cells)
    return m, cells, nv


@case("C17", "split", weight=1)
def c17(rng):
    m, cells, nv = rand_lines(rng, extra=True)
    as_lines = rng.bool()
    rng.note(cells=cells, as_lines=as_lines, n_cells=m.n_cells)
    with Frame(mesh=m):
        r = pvg.split_lines(m, as_lines) if rng.bool(0.9) or not as_lines else pvg.split_lines(m)
    need(len(r) == len(cells), f"{len(r)} lines, expected {len(cells)}")
    P = np.asarray(m.points)
    for i, (line, c) in enumerate(zip(r, cells)):
        exp_cells = [(0, 1)] if len(c) == 2 else [(k, k + 1) for k in range(len(c) - 1)] if as_lines else [tuple(range(len(c)))]
        need([q for _, q in cell_lists(line)] == exp_cells, f"cells of line {i}")
        close(line.points, P[c], 1e-6, f"points of line {i}")
        for k, v in m.point_data.items():
            equal(np.asarray(line.point_data[k]), np.asarray(v)[c], f"point data {k!r} of line {i}")
        for k, v in m.cell_data.items():
            v = np.asarray(v)[nv + i]
            need(k in line.cell_data, f"cell data {k!r} lost")
            g = np.asarray(line.cell_data[k])
            need(len(g) == line.n_cells and all(np.array_equal(x, v) for x in g), f"cell data {k!r} of line {i}: {g.tolist()}, expected {v!r}")


@case("C17", "merge", weight=1)
def c17_merge(rng):
    parts = [rand_lines(rng) for _ in range(rng.int(1, 3))]
    ms = [p[0] for p in parts]
    if len(ms) > 1 and rng.bool():
        Q = np.array(ms[1].points)
        Q[: 2] = np.asarray(ms[0].points)[:2]
        ms[1].points = Q
    as_lines = rng.bool()
    rng.note(cells=[p[1] for p in parts], as_lines=as_lines)
    with Frame(meshes=ms):
        r = pvg.merge_lines(ms, as_lines)
    pk = set.intersection(*(set(m.point_data) for m in ms))
    ck = set.intersection(*(set(m.cell_data) for m in ms))
    need(set(r.point_data) == pk, f"point data {set(r.point_data)}, expected {pk}")
    need(set(r.cell_data) == ck, f"cell data {set(r.cell_data)}, expected {ck}")
    want, data = [], []
    for m, cells, _ in parts:
        P = np.asarray(m.points, dtype=float)
        for i, c in enumerate(cells):
            segs = [(c[k], c[k + 1]) for k in range(len(c) - 1)] if as_lines else [c]
            for s in segs:
                want.append(P[list(s)])
                data.append({k: np.asarray(m.cell_data[k])[i] for k in ck})
    got = cell_lists(r)
    need(len(got) == len(want), f"{len(got)} lines, expected {len(want)}")
    R = np.asarray(r.points, dtype=float)
    for j, ((_, c), w) in enumerate(zip(got, want)):
        close(R[list(c)], w, 1e-6, f"points of line {j}")
    for k in ck:
        for j, d in enumerate(data):
            need(np.array_equal(np.asarray(r.cell_data[k])[j], d[k]), f"cell data {k!r} of line {j}")
    allp = np.vstack(want)
    need(len({tuple(x) for x in np.round(allp, 6).tolist()}) == len(R), "coinciding points are not shared")
    if len(ms) == 1 or len({tuple(x) for m in ms for x in np.round(m.points, 6).tolist()}) == sum(m.n_points for m in ms):
        src = {tuple(np.round(p, 6).tolist()): (m, i) for m in ms for i, p in enumerate(np.asarray(m.points, dtype=float))}
        for i, p in enumerate(np.round(R, 6).tolist()):
            m, z = src[tuple(p)]
            for k in pk:
                need(np.array_equal(np.asarray(r.point_data[k])[i], np.asarray(m.point_data[k])[z]), f"point data {k!r} of point {i}")


# ------------------------------------------------------------------ C18
@case("C18", "reconstruct", weight=1)
def c18(rng):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
    d = rng.choice([2, 3])
    P = rng.normal(n, d) if rng.bool(0.7) else rng.g.integers(0, 3, (n, d)).astype(float)
    if rng.bool(0.2) and n > 2:
        P[rng.int(0, n - 1)] = P[rng.int(0, n - 1)]
    start = rng.int(0, n - 1)
    close_ = rng.bool() and n > 2
    tol = rng.choice([1e-8, 0.0, 0.1])
    if n == 1:
        close_ = False
        raise Skip
    arg = P if rng.bool() else P.tolist()
    if d == 3 and rng.bool(0.4):
        arg = pv.PolyData(P)
        if rng.bool():
            arg = arg.cast_to_unstructured_grid()
    rng.note(points=P, start=start, close=close_, tol=tol)
    with Frame(points=arg):
        r = pvg.reconstruct_line(arg, start, close_, tol)
    P3 = P if d == 3 else np.column_stack((P, np.zeros(n)))
    R = np.asarray(r.points, dtype=float)
    segs = [c for _, c in cell_lists(r)]
    order = [segs[0][0]]
    for c in segs:
        for a, b in zip(c[:-1], c[1:]):
            need(order[-1] == a, "line is not continuous")
            order.append(b)
    if close_:
        need(np.allclose(R[order[0]], R[order[-1]]), "line is not closed")
        order = order[:-1]
    Q = R[order]
    need(len(Q) == n, f"{len(Q)} points visited, expected {n}")
    a = sorted(map(tuple, np.round(Q, 5).tolist()))
    b = sorted(map(tuple, np.round(P3, 5).tolist()))
    need(np.allclose(a, b, atol=1e-4), f"visited points {a} are not the given points {b}")
    close(Q[0], P3[start], 1e-5, "first point")
    L = lambda X: np.linalg.norm(np.diff(np.vstack((X, X[:1])) if close_ else X, axis=0), axis=1).sum()
    need(L(Q) <= L(np.roll(P3, -start, axis=0)) * (1 + 1e-5) + 1e-9, f"length {L(Q)} > {L(np.roll(P3, -start, axis=0))}")


@case("C18", "errors", n=3)
def c18_errors(rng):
    bad = [np.zeros((4, 1)), np.zeros((4, 4)), np.zeros((2, 2, 3))][rng.index]
    raises(ValueError, lambda: pvg.reconstruct_line(bad), "points of another size")


# ------------------------------------------------------------------ C19
def star_polygon(rng, n=None, convex=False):
    n = n or rng.int(3, 10)
    th = np.arange(n) * 2 * np.pi / n + rng.uniform(-0.2, 0.2, n) * 2 * np.pi / n
    r = np.full(n, 3.0) if convex else rng.uniform(2.0, 4.0, n)
    return np.column_stack((r * np.cos(th), r * np.sin(th)))


def edge_offsets(P, Q):
    """Signed outward distance of each edge of Q from the matching edge of P, and parallelism defect."""
    area = poly_area2(np.column_stack((P, np.zeros(len(P)))))[2]
    s = np.sign(area)
    e = np.roll(P, -1, axis=0) - P
    f = np.roll(Q, -1, axis=0) - Q
    en = e / np.linalg.norm(e, axis=1)[:, None]
    normal = s * np.column_stack((en[:, 1], -en[:, 0]))
    return ((Q - P) * normal).sum(axis=1), ((np.roll(Q, -1, axis=0) - P) * normal).sum(axis=1), e, f


@case("C19", "offset", weight=1)
def c19(rng):
    polys = []
    k = rng.int(1, 3)
    pts, faces = [], []
    for _ in range(k):
        p = star_polygon(rng, convex=rng.bool(0.3))
        if rng.bool():
            p = p[::-1]
        p = np.roll(p, rng.int(0, len(p) - 1), axis=0) + rng.choice([np.zeros(2), np.array([50.0, -30.0]), np.array([-7.0, 100.0])])
        axis = rng.int(0, 2)
        off = rng.choice([0.0, 2.5, -100.0])
        polys.append((p, axis, off))
        faces += [len(p), *range(len(pts), len(pts) + len(p))]
        pts += np.insert(p, axis, off, axis=1).tolist()
    d = rng.choice([0.1, 0.3, -0.1, -0.3, 0.0, 1.0])
    if k == 1 and rng.bool(0.4):
        arg = np.array(pts)
        arg = arg if rng.bool() else arg.tolist()
    else:
        arg = pv.PolyData(np.array(pts), faces=np.array(faces))
    rng.note(polys=[(p.tolist(), a, o) for p, a, o in polys], d=d, kind=type(arg).__name__)
    with Frame(arg=arg):
        r = pvg.offset_polygon(arg, d)
    got = cell_lists(r)
    need(len(got) == k, f"{len(got)} polygons, expected {k}")
    for j, ((_, c), (p, axis, off)) in enumerate(zip(got, polys)):
        Q = np.asarray(r.points, dtype=float)[list(c)]
        need(len(Q) == len(p), f"polygon {j}: {len(Q)} vertices, expected {len(p)}")
        close(Q[:, axis], np.full(len(p), off), 1e-5, f"polygon {j}: plane")
        Q = np.delete(Q, axis, axis=1)
        a, b, e, f = edge_offsets(p, Q)
        tol = 1e-4 * max(1.0, np.abs(p).max() / 10)
        need(np.abs(a - d).max() < tol and np.abs(b - d).max() < tol, f"polygon {j}: edge distances {np.round(a, 4).tolist()}, expected {d}")


@case("C19", "errors", n=3)
def c19_errors(rng):
    i = rng.index
    if i == 0:
        raises(ValueError, lambda: pvg.offset_polygon(pv.lines_from_points(rng.normal(4, 3)), 0.1), "no polygon")
    elif i == 1:
        raises(ValueError, lambda: pvg.offset_polygon(rng.normal(4, 3), 0.1), "polygon not parallel to a coordinate plane")
    else:
        raises(ValueError, lambda: pvg.offset_polygon(np.array([[0, 0, 0], [1, 0, 0], [2, 0, 0.0]]), 0.1), "line")


# ------------------------------------------------------------------ C26
@case("C26", "quadratic", weight=1)
def c26(rng):
    m = unstructured_surface(rng, rng.int(0, 2), kinds=("tri", "quad"), nmax=3, flip=rng.choice([False, "mixed"]))
    P = np.asarray(m.points, dtype=float)
    cl = cell_lists(m)
    rng.note(cells=cl, points=P)
    with Frame(mesh=m):
        r = pvg.quadraticize(m)
    R = np.asarray(r.points, dtype=float)
    close(R[: m.n_points], P, 1e-7, "points of the mesh")
    q = cell_lists(r)
    need(len(q) == len(cl), f"{len(q)} cells, expected {len(cl)}")
    for i, ((t, c), (t2, c2)) in enumerate(zip(cl, q)):
        need(t2 == (22 if t == 5 else 23), f"type of cell {i}: {t2}")
        n = len(c)
        need(c2[:n] == c and len(c2) == 2 * n, f"corners of cell {i}: {c2[:n]}, expected {c}")
        close(R[list(c2[n:])], 0.5 * (P[list(c)] + P[[c[(k + 1) % n] for k in range(n)]]), 1e-6, f"midpoints of cell {i}")


@case("C26", "errors", n=3)
def c26_errors(rng):
    t = [7, 8, 10][rng.index]
    m = pv.UnstructuredGrid(np.array([4, 0, 1, 2, 3, 3, 0, 1, 2]), np.array([t, 5], dtype=np.uint8), rng.normal(4, 3))
    raises(NotImplementedError, lambda: pvg.quadraticize(m), f"cell type {t}")
