"""Input generators and mesh observers shared by the runtime contracts."""
from __future__ import annotations

import numpy as np
import pyvista as pv

from .core import Violation, Skip, need, close, equal

METHODS = [None, "constant", "log", "log_r"]


def spec_perc(resolution, method):
    """Specification of the relative positions (independent of the code)."""
    if resolution is None:
        resolution = 1
    if isinstance(resolution, (int, np.integer)) and not isinstance(resolution, bool):
        n = max(1, int(resolution))
        i = np.arange(n + 1)
        if method in (None, "", "constant"):
            return i / n
        if method == "log_r":
            return np.log10(1.0 + 9.0 * i / n)
        if method == "log":
            return 1.0 - np.log10(1.0 + 9.0 * (n - i) / n)
        raise ValueError
    return np.array(sorted(np.asarray(resolution, dtype=float).tolist()))


def rand_resolution(rng, allow_list=True, hi=6):
    k = rng.int(0, 9)
    if k == 0:
        return None, rng.choice(METHODS)
    if k == 1:
        return rng.choice([0, -1, 1]), rng.choice(METHODS)
    if allow_list and k in (2, 3):
        n = rng.int(2, hi)
        p = rng.uniform(0.0, 1.0, n)
        if rng.bool():
            p = np.concatenate([[0.0], p, [1.0]])
        if rng.bool():
            p = np.sort(p)
        else:
            p = rng.g.permutation(p)
        return (p if rng.bool() else p.tolist()), rng.choice(METHODS)
    if k == 4:
        return rng.int(hi, 3 * hi), rng.choice(METHODS)
    return rng.int(1, hi), rng.choice(METHODS)


def rand_shift(rng):
    return rng.choice([np.zeros(3), np.array([5.0, -3.0, 2.0]), np.array([1.0e5, 4.0e6, -1500.0]), np.array([-20.0, -30.0, -40.0])])


def rand_scale(rng):
    """Size of the coordinates: mostly 1, sometimes very small or large."""
    return rng.choice([1.0, 1.0, 1.0, 1.0e-3, 1.0e-5, 2.0e3])


def add_data(mesh, rng, point=True, cell=True, strings=False, ghost=False):
    """Attach data arrays of several kinds."""
    n, c = mesh.n_points, mesh.n_cells
    if point and n and rng.bool(0.8):
        mesh.point_data["ps"] = rng.normal(n)
        if rng.bool():
            mesh.point_data["pv"] = rng.normal(n, 3)
        if rng.bool(0.4):
            mesh.point_data["pi"] = rng.g.integers(0, 50, n)
    if cell and c and rng.bool(0.8):
        mesh.cell_data["cs"] = rng.normal(c)
        if rng.bool():
            mesh.cell_data["cv"] = rng.normal(c, rng.choice([2, 3, 4]))
        if rng.bool(0.4):
            mesh.cell_data["ci"] = rng.g.integers(-5, 50, c)
        if rng.bool(0.3):
            mesh.cell_data["cb"] = rng.g.integers(0, 2, c).astype(bool)
    if strings and c and rng.bool(0.3):
        mesh.cell_data["ct"] = np.array([f"s{i % 3}" for i in range(c)])
    if ghost and c and rng.bool(0.25):
        mesh.cell_data["vtkGhostType"] = np.where(rng.g.random(c) < 0.3, 32, 0).astype(np.uint8)
    return mesh


def structured_surface(rng, axis=None, nmax=5, shift=None, warp=True, data=True):
    """2D structured grid flat along `axis`."""
    axis = rng.int(0, 2) if axis is None else axis
    n1, n2 = rng.int(2, nmax), rng.int(2, nmax)
    u = np.cumsum(rng.uniform(0.3, 1.5, n1))
    v = np.cumsum(rng.uniform(0.3, 1.5, n2))
    dims = [n1, n2]
    dims.insert(axis, 1)
    coords = [u, v]
    coords.insert(axis, np.zeros(1))
    X, Y, Z = np.meshgrid(*coords, indexing="ij")
    P = [X.astype(float), Y.astype(float), Z.astype(float)]
    if warp:
        P[axis] = P[axis] + 0.3 * rng.normal(*P[axis].shape)
    s = np.zeros(3) if shift is None else shift
    m = pv.StructuredGrid(*(p + q for p, q in zip(P, s)))
    if data:
        add_data(m, rng, ghost=True)
    return m


def line_poly(rng, axis=2, nmax=7, data=True, as_lines=None, shift=None):
    n = rng.int(2, nmax)
    t = np.cumsum(rng.uniform(0.2, 1.5, n))
    P = np.zeros((n, 3))
    P[:, (axis + 1) % 3] = t
    P += 0.2 * rng.normal(n, 3)
    if shift is not None:
        P = P + shift
    as_lines = rng.bool(0.7) if as_lines is None else as_lines
    if as_lines:
        cells = np.column_stack((np.full(n - 1, 2), np.arange(n - 1), np.arange(1, n))).ravel()
    else:
        cells = np.concatenate([[n], np.arange(n)])
    m = pv.PolyData(P, lines=cells)
    if data:
        add_data(m, rng, cell=as_lines or n == 2)
    return m


def unstructured_surface(rng, axis=2, kinds=("tri", "quad", "pixel", "poly"), nmax=4, shift=None, data=True, warp=True, flip=False):
    """Conforming 2D unstructured mesh over a random grid of blocks, each block being one or more cells."""
    nu, nv = rng.int(1, nmax), rng.int(1, nmax)
    u = np.cumsum(rng.uniform(0.4, 1.5, nu + 1))
    v = np.cumsum(rng.uniform(0.4, 1.5, nv + 1))
    pts = [(a, b) for b in v for a in u]
    idx = lambda i, j: j * (nu + 1) + i
    cells, types = [], []
    for j in range(nv):
        for i in range(nu):
            q = [idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)]
            k = rng.choice(list(kinds))
            if k == "tri":
                if rng.bool():
                    cc = [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
                else:
                    cc = [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
                tt = [pv.CellType.TRIANGLE] * 2
            elif k == "quad":
                cc, tt = [q], [pv.CellType.QUAD]
            elif k == "pixel":
                cc, tt = [[q[0], q[1], q[3], q[2]]], [pv.CellType.PIXEL]
            else:
                # polygon with extra (private) vertices on a bulge inside
                m = rng.int(0, 3)
                if m == 0:
                    cc, tt = [q], [pv.CellType.POLYGON]
                else:
                    c = np.mean([pts[z] for z in q], axis=0)
                    base = len(pts)
                    a, b = np.array(pts[q[2]]), np.array(pts[q[3]])
                    ex = []
                    for z in range(m):
                        w = (z + 1) / (m + 1)
                        e = a + w * (b - a)
                        pts.append(tuple(e))
                        ex.append(base + z)
                    cc, tt = [[q[0], q[1], q[2], *ex, q[3]]], [pv.CellType.POLYGON]
            for c_, t_ in zip(cc, tt):
                if t_ != pv.CellType.PIXEL:
                    r = rng.int(0, len(c_) - 1)
                    c_ = c_[r:] + c_[:r]
                    if flip is True or (flip == "mixed" and rng.bool()):
                        c_ = c_[::-1]
                cells.append(c_)
                types.append(int(t_))
    o = list(range(len(cells)))
    o = rng.perm(len(cells)) if rng.bool() else o
    cells = [cells[i] for i in o]
    types = [types[i] for i in o]
    P2 = np.array(pts)
    # random renumbering of points
    if rng.bool():
        p = rng.perm(len(P2))
        inv = np.argsort(p)
        P2 = P2[p]
        cells = [[int(inv[i]) for i in c] for c in cells]
    P = np.insert(P2, axis, 0.0, axis=1)
    if warp:
        P[:, axis] += 0.15 * rng.normal(len(P))
    if shift is not None:
        P = P + shift
    flat = np.concatenate([[len(c), *c] for c in cells])
    m = pv.UnstructuredGrid(flat, np.array(types, dtype=np.uint8), P)
    if data:
        add_data(m, rng, ghost=True)
    return m


# ---------------------------------------------------------------- observers


def cell_lists(mesh):
    """Point ids of every cell (faces as tuple of tuples for polyhedra), read through VTK's cell API."""
    from vtkmodules.vtkCommonCore import vtkIdList

    u = mesh if isinstance(mesh, (pv.UnstructuredGrid, pv.PolyData)) else mesh.cast_to_unstructured_grid()
    out = []
    for i in range(u.n_cells):
        t = u.GetCellType(i)
        if t == 42:
            ids = vtkIdList()
            u.GetFaceStream(i, ids)
            s = [ids.GetId(k) for k in range(ids.GetNumberOfIds())]
            faces, k = [], 1
            for _ in range(s[0]):
                n = s[k]
                faces.append(tuple(s[k + 1:k + 1 + n]))
                k += n + 1
            out.append((t, tuple(faces)))
        else:
            ids = vtkIdList()
            u.GetCellPoints(i, ids)
            out.append((t, tuple(ids.GetId(k) for k in range(ids.GetNumberOfIds()))))
    return out


def snapshot(obj):
    """Deep copy of everything observable of an input."""
    if obj is None:
        return None
    if isinstance(obj, np.ndarray):
        return ("arr", obj.copy())
    if isinstance(obj, (list, tuple)):
        return ("seq", type(obj), [snapshot(o) for o in obj])
    if isinstance(obj, dict):
        return ("map", [(k, snapshot(v)) for k, v in obj.items()])
    if isinstance(obj, pv.DataSet):
        d = dict(type=type(obj), points=np.array(obj.points, copy=True), n=obj.n_cells)
        if hasattr(obj, "dimensions"):
            d["dims"] = tuple(obj.dimensions)
        if isinstance(obj, (pv.UnstructuredGrid, pv.PolyData)):
            d["cells"] = cell_lists(obj)
        d["pd"] = {k: np.array(v, copy=True) for k, v in obj.point_data.items()}
        d["cd"] = {k: np.array(v, copy=True) for k, v in obj.cell_data.items()}
        d["ud"] = {k: (dict(v) if hasattr(v, "items") else v) for k, v in dict(obj.user_dict).items()} if "_PYVISTA_USER_DICT" in obj.field_data else {}
        return ("mesh", d)
    return ("val", obj)


def same(a, b, what="input"):
    """Raise Violation when two snapshots differ."""
    if a is None or b is None:
        need(a is b, f"{what} changed")
        return
    need(a[0] == b[0], f"{what} changed type")
    if a[0] == "arr":
        equal(b[1], a[1], f"{what} changed")
    elif a[0] == "seq":
        need(a[1] is b[1] and len(a[2]) == len(b[2]), f"{what} changed length")
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            same(x, y, f"{what}[{i}]")
    elif a[0] == "map":
        need([k for k, _ in a[1]] == [k for k, _ in b[1]], f"{what} changed keys")
        for (k, x), (_, y) in zip(a[1], b[1]):
            same(x, y, f"{what}[{k!r}]")
    elif a[0] == "mesh":
        x, y = a[1], b[1]
        need(x["type"] is y["type"], f"{what} changed mesh type")
        equal(y["points"], x["points"], f"points of {what} changed")
        need(x["n"] == y["n"], f"number of cells of {what} changed")
        need(x.get("dims") == y.get("dims"), f"dimensions of {what} changed")
        need(x.get("cells") == y.get("cells"), f"cells of {what} changed")
        for f, nm in (("pd", "point data"), ("cd", "cell data")):
            need(list(x[f]) == list(y[f]) or set(x[f]) == set(y[f]), f"{nm} names of {what} changed: {list(x[f])} -> {list(y[f])}")
            for k in x[f]:
                equal(y[f][k], x[f][k], f"{nm} {k!r} of {what} changed")
        need(x["ud"] == y["ud"], f"name table of {what} changed: {x['ud']} -> {y['ud']}")
    else:
        need(a[1] == b[1], f"{what} changed")


class Frame:
    """Context manager: objects must be unchanged at exit."""

    def __init__(self, **objs):
        self.objs = objs

    def __enter__(self):
        self.before = {k: snapshot(v) for k, v in self.objs.items()}
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, Exception) and et is not Violation:
            for k, v in self.objs.items():
                same(self.before[k], snapshot(v), f"argument {k!r}")
        return False


def same_mesh(a, b, what="mesh", data=True):
    x, y = snapshot(a), snapshot(b)
    if not data:
        for s in (x, y):
            s[1]["pd"] = {}
            s[1]["cd"] = {}
            s[1]["ud"] = {}
    same(x, y, what)


def poly_area2(P):
    """Twice the vector area of a polygon."""
    P = np.asarray(P, dtype=float)
    P = P - P[0]
    return np.cross(P, np.roll(P, -1, axis=0)).sum(axis=0)


def poly_volume(points, faces):
    """Signed volume enclosed by the faces (positive if normals point outwards)."""
    c = np.mean(points, axis=0)
    v = 0.0
    for f in faces:
        P = np.asarray(points)[list(f)] - c
        v += sum(np.dot(P[0], np.cross(P[k], P[k + 1])) for k in range(1, len(P) - 1)) / 6.0
    return v
