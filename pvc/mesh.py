"""Model (assumed contract) of the part of pyvista the verified functions use."""
from __future__ import annotations

import types
import zlib

import numpy as np
import z3

from . import core
from .core import Sym, SInt, SReal, Unsupported, ctx, integer, is_conc_num, real, wrap
from .arr import (Comp, I, Rad, Rag, SORT, ShapeTuple, Sub, SymArr, asarr, canonical_index, comp_vars, const_arr, conv, dim_fac, dim_of,
                  dim_size, dims_equal, extremum, lin, memo, mk_dim, split)
from .dicts import PDict
from .lists import Iter, PList, stamp

import pyvista as _pv

CellType = _pv.CellType


def set_slot(o, name, v):
    """assignment of an attribute of a model object, undone with the path"""
    d = o.__dict__
    old = d.get(name)

    def undo():
        d[name] = old

    if core.CTX is not None:
        core.CTX.record("attr", o, undo, name=name, value=v, old=old)
    d[name] = v


class DataDict(PDict):
    """point_data, cell_data: arrays of a fixed length"""

    def __init__(self, mesh, what):
        PDict.__init__(self)
        self.mesh = mesh
        self.what = what

    def dim(self):
        return self.mesh._npd if self.what == "point" else self.mesh._ncd if self.what == "cell" else None

    def check(self, key, v):
        d = self.dim()
        if isinstance(v, PList) and v.sym is None:
            v = asarr(list(list.__iter__(v)))
        v = asarr(v)
        if d is None:
            return v
        if v.ndim == 0:
            return const_arr((d,), v.as_scalar(), v.kind)
        if not dims_equal(v.dims[0], d):
            raise ValueError("Invalid array shape: data length does not match the mesh")
        return v

    @property
    def active_scalars_name(self):
        return None

    def copy(self):
        raise Unsupported("copy of mesh data")

    _loop_effect = None


del DataDict._loop_effect


def share(a):
    """the same array object seen through another reference"""
    return SymArr(a.dims, None, a.kind, store=a.store, view=a.view, ro=a.ro)


class DataSet:
    _mutable_model = True
    _kind = "DataSet"

    def __init__(self):
        self.born = stamp()
        self._npd = 0
        self._ncd = 0
        self._points = None
        self.point_data = DataDict(self, "point")
        self.cell_data = DataDict(self, "cell")
        self.field_data = PDict()
        self.user_dict = PDict()

    # -- basic attributes
    @property
    def points(self):
        return self._points

    @points.setter
    def points(self, v):
        v = asarr(v)
        if v.ndim != 2 or not (isinstance(v.dims[1], int) and v.dims[1] == 3):
            raise ValueError("points must be (n, 3)")
        if not dims_equal(v.dims[0], self._npd):
            raise Unsupported("number of points of a mesh changed")
        if v.kind != "f":
            v = v.astype(float)
        set_slot(self, "_points", v if v.view is None and not v.ro else v.copy())

    @property
    def n_points(self):
        return dim_size(self._npd)

    @property
    def n_cells(self):
        return dim_size(self._ncd)

    number_of_points = n_points
    number_of_cells = n_cells

    @property
    def array_names(self):
        return PList([*dict.keys(self.point_data), *dict.keys(self.cell_data), *dict.keys(self.field_data)])

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"{type(self).__name__}.{n} is not modelled")

    def __setattr__(self, n, v):
        if n == "user_dict" and "born" in self.__dict__ and n in self.__dict__:
            if isinstance(v, dict) or v is None:
                return set_slot(self, "user_dict", PDict() if v is None else PDict(v))
            raise TypeError("user_dict can only be set with type dict, UserDict, or str.")
        if "born" in self.__dict__ and n in self.__dict__ and not n.startswith("_"):
            raise Unsupported(f"assignment of {n}")
        object.__setattr__(self, n, v)

    # -- copies
    def _copy_into(self, r, deep=True, points=True):
        f = (lambda a: a.copy()) if deep else share
        d = r.__dict__
        d["_npd"], d["_ncd"] = self._npd, self._ncd
        if points and self._points is not None:
            d["_points"] = f(self._points)
        for what in ("point_data", "cell_data"):
            for k, v in dict.items(getattr(self, what)):
                dict.__setitem__(getattr(r, what), k, f(v))
        for k, v in dict.items(self.field_data):
            dict.__setitem__(r.field_data, k, v)
        for k, v in dict.items(self.user_dict):
            dict.__setitem__(r.user_dict, k, v.copy() if isinstance(v, PDict) else v)
        for k, v in self.__dict__.items():
            if k.startswith("_x_"):
                d[k] = f(v) if isinstance(v, SymArr) else v
        return r

    def copy(self, deep=True):
        return self._copy_into(type(self)._new(), deep)

    @classmethod
    def _new(cls):
        r = object.__new__(cls)
        DataSet.__init__(r)
        return r

    def clear_data(self):
        self.point_data.clear()
        self.cell_data.clear()
        self.field_data.clear()
        self.user_dict.clear()

    def clear_cell_data(self):
        self.cell_data.clear()

    def clear_point_data(self):
        self.point_data.clear()

    def set_active_scalars(self, *a, **k):
        return None

    # -- geometry
    @property
    def bounds(self):
        out = []
        for k in range(3):
            c = self._points[:, k]
            out += [c.min(), c.max()]
        return tuple(out)

    @property
    def center(self):
        b = self.bounds
        return tuple((b[2 * k] + b[2 * k + 1]) / 2 for k in range(3))

    def translate(self, xyz, transform_all_input_vectors=False, inplace=False):
        v = asarr(xyz)
        if v.ndim != 1 or not dims_equal(v.dims[0], 3):
            raise ValueError("translation must be a vector of length 3")
        r = self if inplace else self.copy()
        new = r._points + v
        set_slot(r, "_points", new)
        return r

    def rotate_vector(self, vector, angle, point=(0.0, 0.0, 0.0), transform_all_input_vectors=False, inplace=False):
        v, p = asarr(vector), asarr(list(point) if isinstance(point, tuple) else point)
        args = [real(v[k]) for k in range(3)] + [real(angle)] + [real(p[k]) for k in range(3)]
        r = self if inplace else self.copy()
        g = r._points.snap()
        d = r._npd
        new = SymArr((d, 3), memo(lambda idx: rotation(args, [g((idx[0], I(k))) for k in range(3)], idx[1])), "f")
        set_slot(r, "_points", new)
        return r

    def __getitem__(self, key):
        if not isinstance(key, str):
            raise Unsupported("subscript of a mesh")
        for d in (self.cell_data, self.point_data):
            if key in d:
                return d[key]
        raise KeyError(key)

    def compute_cell_sizes(self, length=True, area=True, volume=True, **k):
        r = self.copy(deep=False)
        for on, name in ((length, "Length"), (area, "Area"), (volume, "Volume")):
            if on:
                dict.__setitem__(r.cell_data, name, cell_size_array(self, name))
        return r

    def cell_centers(self, *a, **k):
        """the centers of the cells that are neither empty nor hidden, in order"""
        if a or k or "vtkGhostType" in self.cell_data:
            raise Unsupported("cell_centers of some of the cells")
        c = cell_center_array(self)
        if isinstance(self, UnstructuredGrid):
            c = c[self.celltypes != 0]
        return PolyData(c)

    def cast_to_unstructured_grid(self):
        raise Unsupported("cast_to_unstructured_grid")

    def extract_surface(self, *a, **k):
        raise Unsupported("extract_surface")

    def _loop_effect(self, it, g, cases):
        raise Unsupported("mesh attribute assigned in a symbolic loop")


ROT = [z3.Function(f"rotated{k}", *[z3.RealSort()] * 10, z3.RealSort()) for k in range(3)]


def rotation(args, p, comp):
    c = z3.simplify(comp) if isinstance(comp, z3.ExprRef) else I(comp)
    vals = [f(*args, *p) for f in ROT]
    if z3.is_int_value(c):
        return vals[c.as_long()]
    return z3.If(c == 0, vals[0], z3.If(c == 1, vals[1], vals[2]))


def lam_of(a):
    g = a.snap()
    b = [canonical_index(d, f"cs{k}") if not isinstance(d, int) or d > 1 else I(0) for k, d in enumerate(a.dims)]
    t = z3.simplify(g(tuple(b)), som=True)
    for i in reversed(b):
        for v in reversed(comp_vars(i)):
            if not z3.is_int_value(v):
                t = z3.Lambda([v], t)
    return t


def cell_size_array(mesh, name):
    """size of every cell: an unknown function of the points, the topology and the cell"""
    if name == "Length" and isinstance(mesh, PolyData) and mesh.__dict__.get("_x_lines") is not None:
        return segment_lengths(mesh)
    lam = lam_of(mesh._points)
    sizes = mesh._topology_terms()
    d = mesh._ncd
    from .npm import flat_index, flat_dims

    n = len(flat_dims(d))
    key = f"{name}|{lam.sort().sexpr()}|{[str(s.sort()) for s in sizes]}|{n}|{type(mesh).__name__}"
    f = z3.Function(f"cell{name}!{zlib.crc32(key.encode())}", lam.sort(), *[s.sort() for s in sizes], *[z3.IntSort()] * n, z3.RealSort())
    return SymArr((d,), memo(lambda idx: f(lam, *sizes, *flat_index(idx[0], d))), "f")


def segment_lengths(mesh):
    """of listed segments: zero if and only if the ends coincide"""
    a, n = mesh.__dict__["_x_lines"], mesh._ncd
    if not isinstance(n, int) or a.dims[0] != 3 * n:
        raise Unsupported("lengths of lines")
    c, P = ctx(), mesh._points
    out = []
    for k in range(n):
        r = c.fresh_const("len", z3.RealSort())
        u, v = integer(a.at((I(3 * k + 1),))), integer(a.at((I(3 * k + 2),)))
        same = z3.And(*[core.real(P.at((u, I(x)))) == core.real(P.at((v, I(x)))) for x in range(3)])
        c.fact(z3.And(r >= 0, (r == 0) == same))
        out.append(core.wrap(r))
    return asarr(out)


def cell_center_array(mesh):
    """center of every cell: an unknown function of the points, the topology, the cell and the coordinate"""
    lam = lam_of(mesh._points)
    sizes = mesh._topology_terms()
    d = mesh._ncd
    from .npm import flat_index, flat_dims

    n = len(flat_dims(d))
    key = f"{lam.sort().sexpr()}|{[str(s.sort()) for s in sizes]}|{n}|{type(mesh).__name__}"
    f = z3.Function(f"center!{zlib.crc32(key.encode())}", lam.sort(), *[s.sort() for s in sizes], *[z3.IntSort()] * (n + 1), z3.RealSort())
    return SymArr((d, 3), memo(lambda idx: f(lam, *sizes, *flat_index(idx[0], d), idx[1])), "f")


class StructuredGrid(DataSet):
    def __init__(self, x=None, y=None, z=None):
        DataSet.__init__(self)
        if x is None:
            raise Unsupported("empty structured grid")
        x, y, z = asarr(x), asarr(y), asarr(z)
        if x.ndim == 1 and not (x.ndim == y.ndim == z.ndim) or x.ndim > 3:
            raise ValueError("Input point array shapes must match exactly")
        for a in (y, z):
            if len(a.dims) != len(x.dims) or not all(dims_equal(p, q) for p, q in zip(x.dims, a.dims)):
                raise ValueError("Input point array shapes must match exactly")
        dims = list(x.dims)
        while len(dims) < 3:
            dims.append(1)
        xs = [a.reshape((-1,), order="F") for a in (x, y, z)]
        d = xs[0].dims[0]
        gs = [(a.snap(), a.dims[0]) for a in xs]

        def get(idx):
            c = z3.simplify(lin(idx[1], 3))
            vals = [real(g((conv(idx[0], d, e),))) for g, e in gs]
            if z3.is_int_value(c):
                return vals[c.as_long()]
            return z3.If(c == 0, vals[0], z3.If(c == 1, vals[1], vals[2]))

        self._set(dims, SymArr((d, 3), memo(get), "f"))

    def _set(self, dims, points):
        d = self.__dict__
        d["_x_dims"] = tuple(dims)
        d["_npd"] = points.dims[0]
        d["_ncd"] = mk_dim([f for n in dims for f in dim_fac(minus_one(n))])
        d["_points"] = points
        return self

    @classmethod
    def make(cls, dims, points):
        r = cls._new()
        return r._set(dims, points)

    def _topology_terms(self):
        return [integer(dim_size(d)) for d in self._x_dims]

    @property
    def dimensions(self):
        return ShapeTuple(dim_size(d) for d in self._x_dims)

    def _axis(self, k):
        a = self._points[:, k]
        dims, new2old = _reshape_f(a.dims[0], self._x_dims)
        # a view in VTK: writes go through
        from .arr import View

        inv = _inverse_f(a.dims[0], self._x_dims)
        if inv is None:
            return a.reshape(tuple(dim_size(d) for d in self._x_dims), order="F")
        return a._remap(dims, lambda idx: (new2old(idx),), lambda b: (z3.BoolVal(True), inv(b[0])))

    @property
    def x(self):
        return self._axis(0)

    @property
    def y(self):
        return self._axis(1)

    @property
    def z(self):
        return self._axis(2)

    def cast_to_structured_grid(self):
        return self.copy()

    def cast_to_unstructured_grid(self):
        r = Joined._new()
        set_slot(r, "_x_parts", [self.copy()])
        return r


def _reshape_f(d, dims):
    def new2old(idx):
        comps = []
        for i, n in zip(idx, dims):
            f = dim_fac(n)
            if not f:
                continue
            if len(f) == 1:
                comps.append(i)
            else:
                comps += list(split(i, n).i)
        full = mk_dim([f for n in dims for f in dim_fac(n)])
        i = I(0) if not comps else comps[0] if len(comps) == 1 else Comp(comps)
        if isinstance(full, int):
            # concrete sizes
            t, m = I(0), 1
            for i_, n in zip(idx, dims):
                t = t + m * lin(i_, n)
                m *= n
            i = t
        return conv(i, full, d)

    return tuple(dims), new2old


def _inverse_f(d, dims):
    fs = [f for n in dims for f in dim_fac(n)]
    full = mk_dim(fs)
    from .arr import same_struct

    if not same_struct(full, d):
        return None
    if isinstance(full, int):
        def inv(i):
            t, out = lin(i, d), []
            for n in dims:
                out.append(t % n if n > 1 else I(0))
                t = t / n if n > 1 else t
            return tuple(out)

        return inv

    def inv(i):
        comps = list(i.i) if isinstance(i, Comp) else [i]
        out = []
        for n in dims:
            k = len(dim_fac(n))
            part, comps = comps[:k], comps[k:]
            out.append(I(0) if k == 0 else part[0] if k == 1 else Comp(part))
        return tuple(out)

    return inv


def minus_one(d):
    """max(1, n - 1)"""
    if isinstance(d, int):
        return max(1, d - 1)
    n = integer(dim_size(d))
    c = ctx()
    m = z3.simplify(n - 1)
    if c.valid(n >= 2):
        return m if not z3.is_int_value(m) else m.as_long()
    if c.branch(n >= 2):
        return m if not z3.is_int_value(m) else m.as_long()
    return 1


class _Regular(DataSet):
    """ImageData, RectilinearGrid: structured points that convert to a structured grid"""

    @classmethod
    def make(cls, dims, points):
        r = cls._new()
        d = r.__dict__
        d["_x_dims"] = tuple(dims)
        d["_npd"] = points.dims[0]
        d["_ncd"] = mk_dim([f for n in dims for f in dim_fac(minus_one(n))])
        d["_points"] = points
        return r

    @property
    def dimensions(self):
        return ShapeTuple(dim_size(d) for d in self._x_dims)

    def cast_to_structured_grid(self):
        r = StructuredGrid._new()
        return self._copy_into(r)

    def _topology_terms(self):
        return [integer(dim_size(d)) for d in self._x_dims]


class ImageData(_Regular):
    pass


class RectilinearGrid(_Regular):
    pass


class ExplicitStructuredGrid(DataSet):
    pass


class UnstructuredGrid(DataSet):
    def __init__(self, *a, **k):
        DataSet.__init__(self)
        if len(a) == 3 and not isinstance(a[0], DataSet):
            cells, celltypes, points = asarr(a[0]), asarr(a[1]), asarr(a[2])
            d = self.__dict__
            d["_npd"] = points.dims[0]
            d["_ncd"] = celltypes.dims[0]
            d["_points"] = points.astype(float) if points.kind != "f" else points.copy()
            d["_x_cells"] = cells
            d["_x_celltypes"] = celltypes.copy()
        elif len(a) == 1 and isinstance(a[0], UnstructuredGrid):
            a[0]._copy_into(self, deep=k.get("deep", False))
        elif len(a) == 2 and isinstance(a[0], dict) and len(a[0]) == 1:
            (ct, cells), = a[0].items()
            cells, points = asarr(cells).copy(), asarr(a[1])
            if cells.ndim != 2 or not isinstance(cells.dims[1], int) or cells.kind != "i":
                raise Unsupported("cells that are not a two-dimensional integer array")
            d = self.__dict__
            d["_npd"], d["_ncd"] = points.dims[0], cells.dims[0]
            d["_points"] = points.astype(float) if points.kind != "f" else points.copy()
            t = I(int(ct))
            d["_x_celltypes"] = SymArr((cells.dims[0],), lambda idx: t, "i")
            d["_x_uniform"] = cells
        else:
            raise Unsupported("unstructured grid from a dictionary")

    @classmethod
    def make(cls, points, celltypes, offset, connectivity):
        r = cls._new()
        d = r.__dict__
        d["_npd"] = points.dims[0]
        d["_ncd"] = celltypes.dims[0]
        d["_points"] = points
        d["_x_celltypes"] = celltypes
        d["_x_offset"] = offset
        d["_x_conn"] = connectivity
        return r

    @classmethod
    def uniform(cls, points, celltype, conn):
        """cells of a single type, conn[cell, vertex]"""
        r = cls._new()
        d = r.__dict__
        w = conn.dims[1]
        d["_npd"], d["_ncd"] = points.dims[0], conn.dims[0]
        d["_points"] = points
        t, n = I(int(celltype)), dim_size(conn.dims[0])
        d["_x_type"] = int(celltype)
        d["_x_celltypes"] = SymArr((conn.dims[0],), lambda idx: t, "i")
        d["_x_uniform"] = conn
        d["_x_offset"] = SymArr((dim_of(n + 1),), lambda idx: idx[0] * w, "i")
        d["_x_conn"] = conn.copy().reshape(-1)
        return r

    def extract_cells(self, ind, invert=False, progress_bar=False, **k):
        """the cells selected, in their order, with their data"""
        a = asarr(ind)
        if k or a.kind != "b" or a.ndim != 1:
            raise Unsupported("extract_cells by number")
        if not dims_equal(a.dims[0], self._ncd):
            raise ValueError("mask of another length")
        r = Selected._new()
        r.__dict__["_x_source"] = self.copy()
        r.__dict__["_x_mask"] = a.copy() if not invert else (~a)
        return r

    def GetCells(self):
        if self.__dict__.get("_x_listed") is not None:
            return Listed([c.copy() for c in self.__dict__["_x_listed"]])
        return Cells(self)

    def GetPolyhedronFaces(self):
        return self._known("GetPolyhedronFaces")

    def GetPolyhedronFaceLocations(self):
        return self._known("GetPolyhedronFaceLocations")

    def _known(self, name):
        from pyvista.core.cell import _get_irregular_cells

        if "_x_like" not in self.__dict__:
            raise Unsupported("faces of polyhedra")
        return Listed([np.asarray(c, dtype=int) for c in _get_irregular_cells(getattr(self.__dict__["_x_like"], name)())])

    @property
    def cell(self):
        """the cells one after the other"""
        if "_x_type" not in self.__dict__:
            raise Unsupported("cells of a mesh not made of one type")
        return Iter(self._ncd, lambda idx: self._get_cell(idx))

    def get_cell(self, i):
        from .index import norm_index

        if "_x_type" not in self.__dict__:
            raise Unsupported("cells of a mesh not made of one type")
        return self._get_cell(norm_index(i, self._ncd))

    def _get_cell(self, idx):
        return Cell(self, idx)

    def _topology_terms(self):
        # sizes of the cells are functions of the topology, which the copies share
        t = self.__dict__.get("_x_celltypes")
        return [lam_of(t)] if t is not None else []

    @property
    def celltypes(self):
        return self._x_celltypes

    @property
    def offset(self):
        if "_x_offset" not in self.__dict__:
            raise Unsupported("offset of a generated mesh")
        return self._x_offset

    @property
    def cell_connectivity(self):
        if "_x_conn" not in self.__dict__:
            raise Unsupported("connectivity of a generated mesh")
        return self._x_conn

    @property
    def cells(self):
        if "_x_cells" not in self.__dict__:
            raise Unsupported("cells of an input mesh")
        return self._x_cells

    def cast_to_unstructured_grid(self):
        return self.copy()

    def clean(self, tolerance=0, remove_unused_points=True, produce_merge_map=True, **k):
        """cells, their order and data unchanged up to the numbering of the points, which is not known any more;
        points not farther than the tolerance are identified"""
        if k or self.point_data or not any(x in self.__dict__ for x in ("_x_uniform", "_x_cells", "_x_chain")):
            raise Unsupported("clean")
        if not (is_conc_num(tolerance) and tolerance == 0) and produce_merge_map:
            raise Unsupported("clean with a merge map")
        r = Cleaned._new()
        before = self.copy()
        set_slot(r, "_ncd", self._ncd)
        set_slot(r, "_x_before", before)
        r._take_cells(before)
        return r

    def _take_cells(self, o):
        """data and types of the cells of a mesh with the same cells"""
        d = self.__dict__
        if "_x_celltypes" in o.__dict__:
            d["_x_celltypes"] = o.__dict__["_x_celltypes"].copy()
        for k, v in dict.items(o.cell_data):
            dict.__setitem__(self.cell_data, k, v.copy())
        for k, v in dict.items(o.field_data):
            dict.__setitem__(self.field_data, k, v)
        for k, v in dict.items(o.user_dict):
            dict.__setitem__(self.user_dict, k, v.copy() if isinstance(v, PDict) else v)


class Selected(UnstructuredGrid):
    """some of the cells of a mesh: which ones is all that is known"""

    @property
    def points(self):
        raise Unsupported("points of selected cells")

    @property
    def celltypes(self):
        raise Unsupported("types of selected cells")

    def copy(self, deep=True):
        raise Unsupported("copy of selected cells")


class Cells:
    def __init__(self, mesh):
        self.mesh = mesh


class Chain(UnstructuredGrid):
    """The cells of several meshes, one mesh after the other (vtkAppendFilter)."""

    @property
    def points(self):
        raise Unsupported("points of a merged mesh")


def merge(dataset, merge_points=True, **k):
    """pyvista.merge: the cells of the second, third ... and, last, first mesh; data all of them have;
    coinciding points are shared or not, which the coordinates of the corners do not depend on"""
    from . import npm

    ms = list(list.__iter__(dataset)) if isinstance(dataset, PList) and dataset.sym is None else list(dataset) if isinstance(dataset, (list, tuple)) and not isinstance(dataset, PList) else None
    if k or ms is None or not ms or not all(isinstance(m, UnstructuredGrid) and not isinstance(m, (Joined, Cleaned)) for m in ms):
        raise Unsupported("merge of these meshes")
    if any(m.point_data for m in ms):
        raise Unsupported("merge of meshes with point data")
    if len(ms) == 1:
        return ms[0].copy()
    order = [*ms[1:], ms[0]]
    parts = [q for m in order for q in (m._x_chain if "_x_chain" in m.__dict__ else [m.copy()])]
    types_ = npm.concatenate([m.celltypes for m in order])
    r = Chain._new()
    d = r.__dict__
    d["_ncd"] = types_.dims[0]
    d["_npd"] = None
    d["_x_celltypes"] = types_
    d["_x_chain"] = parts
    for key in dict.keys(ms[0].cell_data):
        if all(dict.__contains__(m.cell_data, key) for m in ms[1:]):
            arrs = [dict.__getitem__(m.cell_data, key) for m in order]
            if any(a.ndim != arrs[0].ndim or a.kind != arrs[0].kind for a in arrs):
                raise Unsupported("merge of data of different kinds")
            dict.__setitem__(r.cell_data, key, npm.concatenate(arrs))
    for kk, v in dict.items(ms[0].field_data):
        dict.__setitem__(r.field_data, kk, v)
    for kk, v in dict.items(ms[0].user_dict):
        dict.__setitem__(r.user_dict, kk, v.copy() if isinstance(v, PDict) else v)
    return r


class Cell:
    """a cell of a mesh of one type"""

    def __init__(self, mesh, idx):
        import pyvista

        u = mesh.__dict__["_x_uniform"]
        self.type = pyvista.CellType(mesh.__dict__["_x_type"])
        g = u.snap()
        self._ids = [wrap(g((idx, I(v)))) for v in range(u.dims[1])]
        self._mesh = mesh

    @property
    def point_ids(self):
        return PList(self._ids)

    @property
    def points(self):
        return self._mesh.points[asarr(list(self._ids))].copy()

    @property
    def n_points(self):
        return len(self._ids)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"cell.{n} is not modelled")


class Joined(UnstructuredGrid):
    """Unstructured union of structured grids: the cells of each, coinciding points shared.

    Only its parts are known, not the numbering of its points and cells."""

    @property
    def points(self):
        raise Unsupported("points of a union of grids")

    def copy(self, deep=True):
        r = Joined._new()
        set_slot(r, "_x_parts", [p.copy(deep=deep) for p in self._x_parts])
        return r

    def translate(self, xyz, transform_all_input_vectors=False, inplace=False):
        r = self if inplace else self.copy()
        set_slot(r, "_x_parts", [p.translate(xyz) for p in r._x_parts])
        return r

    def __add__(self, o):
        if not isinstance(o, Joined):
            raise Unsupported("sum of meshes")
        r = Joined._new()
        set_slot(r, "_x_parts", [*self._x_parts, *o._x_parts])
        return r


class Cleaned(UnstructuredGrid):
    @property
    def points(self):
        raise Unsupported("points of a cleaned mesh")

    def copy(self, deep=True):
        r = Cleaned._new()
        set_slot(r, "_ncd", self._ncd)
        set_slot(r, "_x_before", self._x_before.copy())
        r._take_cells(self)
        return r

    def translate(self, xyz, transform_all_input_vectors=False, inplace=False):
        r = self if inplace else self.copy()
        set_slot(r, "_x_before", r._x_before.translate(xyz))
        return r


class PolyData(DataSet):
    def __init__(self, var_inp=None, faces=None, lines=None, **k):
        DataSet.__init__(self)
        d = self.__dict__
        d["_x_lines"] = None
        d["_x_single"] = False
        if var_inp is None:
            return
        if isinstance(var_inp, PolyData):
            var_inp._copy_into(self, deep=k.get("deep", False))
            return
        pts = asarr(var_inp)
        if pts.ndim == 1:
            from .arr import expand

            pts = expand(pts, 0)
        if pts.ndim != 2 or not (isinstance(pts.dims[1], int) and pts.dims[1] == 3):
            raise ValueError("Array of points must have three values per point")
        d["_points"] = pts.astype(float) if pts.kind != "f" else pts.copy()
        d["_npd"] = pts.dims[0]
        if faces is not None:
            if lines is not None:
                raise Unsupported("polydata with faces and lines")
            f = asarr(faces)
            n = dim_size(f.dims[0])
            if is_conc_num(n) and n == 0:
                d["_x_polys"], d["_ncd"] = (), 0
                return
            # a single face
            if not (f.ndim == 1 and ctx().valid(integer(f.at((I(0),))) + 1 == integer(n))):
                raise Unsupported("polydata with several faces")
            d["_x_faces"] = f.copy()
            d["_ncd"] = 1
            return
        if lines is None:
            d["_ncd"] = pts.dims[0]
            d["_x_bare"] = True
            return
        if isinstance(lines, PList) and lines.sym is None and is_conc_num(0):
            lines = asarr(list(list.__iter__(lines)))
        d["_x_lines"] = asarr(lines)
        d["_ncd"] = line_count(d["_x_lines"])

    @classmethod
    def polyline(cls, points, segments=False):
        """one line through the points in order; one cell, or one cell per segment"""
        r = cls._new()
        d = r.__dict__
        d["_points"] = points
        d["_npd"] = points.dims[0]
        d["_x_single"] = True
        d["_x_segments"] = segments
        d["_x_lines"] = None
        d["_ncd"] = minus_one(points.dims[0]) if segments else 1
        return r

    @classmethod
    def polylines(cls, points, sizes):
        """polylines of the given numbers of points, one after the other"""
        r = cls._new()
        d = r.__dict__
        d["_points"] = points
        d["_npd"] = points.dims[0]
        d["_x_sizes"] = tuple(sizes)
        d["_ncd"] = len(sizes)
        return r

    @classmethod
    def linework(cls, points, ids):
        """polylines through the points of the given numbers, one after the other"""
        r = cls._new()
        d = r.__dict__
        d["_points"] = points
        d["_npd"] = points.dims[0]
        d["_x_ids"] = tuple(ids)
        d["_x_lines"], d["_x_single"] = None, False
        d["_ncd"] = len(ids)
        return r

    def extract_cells_by_type(self, types, *a, **k):
        """of a mesh of lines only: the same points, data and lines in their order"""
        if a or k or not {int(t) for t in types} >= {3, 4} or self._line_ids() is None:
            raise Unsupported("extract_cells_by_type")
        return self.copy(deep=True)

    def _line_ids(self):
        from . import npm

        d = self.__dict__
        if d.get("_x_ids") is not None:
            return [a.copy() for a in d["_x_ids"]]
        if d.get("_x_single") and not d.get("_x_segments"):
            return [npm.arange(dim_size(self._npd))]
        if d.get("_x_lines") is not None and isinstance(d["_ncd"], int) and d["_ncd"] == 1:
            return [d["_x_lines"][1:].copy()]
        return None

    def GetLines(self):
        return Lines(self)

    def merge_points(self, *a, **k):
        """coinciding points are shared; the lines and the data of cells stay as they are"""
        if a or k or self.__dict__.get("_x_lines") is None:
            raise Unsupported("merge_points")
        r = CleanedLines()
        r.__dict__["_x_before"] = self
        r.__dict__["_ncd"] = self._ncd
        for key, v in dict.items(self.cell_data):
            dict.__setitem__(r.cell_data, key, v.copy())
        r.__dict__["_x_keys"] = tuple(dict.keys(self.point_data))
        return r

    @property
    def cell(self):
        from . import npm

        d = self.__dict__
        if d.get("_x_sizes") is not None:
            out, k = [], 0
            for n in d["_x_sizes"]:
                out.append(LineCell(self, npm.arange(n) + k, "POLY_LINE"))
                k = k + n
            return out
        if self._x_single and d.get("_x_segments"):
            return Iter(self._ncd, lambda idx: LineCell(self, asarr([wrap(lin(idx, self._ncd)), wrap(lin(idx, self._ncd) + 1)]), "LINE"))
        if self._x_single:
            return [LineCell(self, npm.arange(dim_size(self._npd)), "POLY_LINE")]
        raise Unsupported("cells of a polydata")

    def clean(self, *a, **k):
        """coinciding points are merged; the vertices of the lines stay where they are (no line collapses)"""
        d = self.__dict__
        if not a and not k and len(self.point_data) == 0 and (d.get("_x_polys") is not None or d.get("_x_bare")):
            r = CleanedLines()
            r.__dict__["_x_before"] = self
            r.__dict__["_ncd"] = self._ncd
            for key, v in dict.items(self.cell_data):
                dict.__setitem__(r.cell_data, key, v.copy())
            return r
        if a or k or self.__dict__.get("_x_lines") is None or len(self.point_data) or len(self.cell_data):
            raise Unsupported("clean")
        r = CleanedLines()
        r.__dict__["_x_before"] = self
        return r

    def _topology_terms(self):
        return []

    def copy(self, deep=True):
        r = DataSet.copy(self, deep)
        return r

    @property
    def n_lines(self):
        if self._x_single:
            return dim_size(self._ncd)
        if self._x_lines is None:
            return 0
        raise Unsupported("n_lines")

    @classmethod
    def polygons(cls, points, faces):
        """polygons through the points of the given numbers"""
        r = cls._new()
        d = r.__dict__
        d["_points"] = points
        d["_npd"] = points.dims[0]
        d["_x_lines"], d["_x_single"] = None, False
        d["_x_polys"] = tuple(asarr(f).copy() for f in faces)
        d["_ncd"] = len(faces)
        return r

    @classmethod
    def from_irregular_faces(cls, points, faces):
        if not isinstance(faces, (list, tuple)) or isinstance(faces, PList) and faces.sym is not None:
            raise Unsupported("faces that are not listed")
        faces = list(faces)
        if not faces:
            raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'same_kind'")
        p = asarr(points)
        if p.ndim != 2 or p.dims[1] != 3:
            raise Unsupported("points of faces")
        return cls.polygons(p.astype(float) if p.kind != "f" else p.copy(), faces)

    @property
    def n_faces_strict(self):
        if self.__dict__.get("_x_polys") is not None:
            return len(self.__dict__["_x_polys"])
        return 1 if self.__dict__.get("_x_faces") is not None else 0

    @property
    def faces(self):
        if self.__dict__.get("_x_faces") is None:
            raise Unsupported("faces")
        return self._x_faces.copy()

    @property
    def irregular_faces(self):
        if self.__dict__.get("_x_polys") is not None:
            return tuple(f.copy() for f in self.__dict__["_x_polys"])
        return (self.faces[1:],)

    @property
    def lines(self):
        if self._x_single and not self.__dict__.get("_x_segments"):
            from . import npm

            n = dim_size(self._npd)
            return npm.concatenate([asarr([n]), npm.arange(n)], 0)
        if self._x_lines is not None:
            return self._x_lines
        if self._x_single:
            from . import npm

            n = dim_size(self._ncd)
            i = npm.arange(n)
            return npm.column_stack((npm.full(n, 2), i, i + 1)).reshape((-1,))
        raise Unsupported("lines")

    def strip(self, join=False, max_length=1000, **k):
        if not self._x_single:
            raise Unsupported("strip")
        if not join:
            raise Unsupported("strip without join")
        r = PolyData.polyline(self._points.copy())
        return r

    def cast_to_unstructured_grid(self):
        raise Unsupported("polydata to unstructured grid")


class Lines:
    def __init__(self, mesh):
        self.mesh = mesh


class Listed:
    """a list of cells that is known"""

    def __init__(self, cells):
        self.cells = cells


def irregular_cells(x):
    if isinstance(x, Listed):
        return tuple(x.cells)
    if isinstance(x, Cells) and "_x_type" in x.mesh.__dict__:
        m = x.mesh
        u = m.__dict__["_x_uniform"]
        g = u.snap()
        return Iter(m._ncd, lambda idx: SymArr((u.dims[1],), lambda j: g((idx, j[0])), "i"))
    ids = x.mesh._line_ids() if isinstance(x, Lines) else None
    if ids is None:
        raise Unsupported("irregular cells")
    return tuple(ids)


def line_count(a):
    """number of lines of a list of them: one line, or segments"""
    c = ctx()
    if a.ndim != 1:
        return None
    if isinstance(a.dims[0], int) and a.dims[0] > 3 and a.dims[0] % 3 == 0:
        if all(c.valid(integer(a.at((I(k),))) == 2) for k in range(0, a.dims[0], 3)):
            return a.dims[0] // 3
    n = integer(dim_size(a.dims[0]))
    if not c.valid(n >= 3):
        return None
    if c.valid(integer(a.at((I(0),))) + 1 == n):
        return 1
    d = a.dims[0]
    fac = dim_fac(d)
    if len(fac) == 2 and isinstance(fac[0], int) and fac[0] == 3:  # the fastest varying first
        k = fac[1]
        i = c.fresh_const("seg", z3.IntSort())
        c.conds.append(z3.And(i >= 0, i < integer(dim_size(k))))
        try:
            ok = c.valid(integer(a.at((Comp([I(0), i]),))) == 2)
        finally:
            c.conds.pop()
        return k if ok else None
    return None


class LineCell:
    def __init__(self, mesh, ids, kind):
        import pyvista

        self.type = getattr(pyvista.CellType, kind)
        self._ids, self._mesh = ids, mesh

    @property
    def point_ids(self):
        return self._ids.copy()

    @property
    def points(self):
        return self._mesh.points[self._ids].copy()

    @property
    def n_points(self):
        return dim_size(self._ids.dims[0])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"cell.{n} is not modelled")


class CleanedLines(PolyData):
    """lines after merging points: only the vertices of the lines are known, not the numbering of the points"""

    def __init__(self):
        PolyData.__init__(self)

    @property
    def points(self):
        raise Unsupported("points after clean")

    @property
    def lines(self):
        raise Unsupported("lines after clean")


def MultipleLines(points=None):
    p = asarr(points)
    if p.ndim != 2 or not (isinstance(p.dims[1], int) and p.dims[1] == 3):
        raise ValueError("Array of points must have three values per point")
    n = integer(dim_size(p.dims[0]))
    if not ctx().branch(n >= 2):
        raise ValueError(">=2 points need to define multiple lines.")
    r = PolyData.polyline(p.astype(float) if p.kind != "f" else p.copy())
    # VTK adds texture coordinates; the code clears them
    return r


def lines_from_points(points, close=False):
    p = asarr(points)
    if p.ndim != 2 or not (isinstance(p.dims[1], int) and p.dims[1] == 3):
        raise ValueError("Array of points must have three values per point")
    if close:
        from . import npm

        n = dim_size(p.dims[0])
        i = npm.arange(n - 1)
        seg = npm.column_stack((npm.full(n - 1, 2), i, i + 1)).reshape((-1,))
        return PolyData(p.copy(), lines=npm.concatenate([seg, asarr([2, n - 1, 0])], 0))
    return PolyData.polyline(p.copy(), segments=True)


class _PVNamespace:
    StructuredGrid = StructuredGrid
    UnstructuredGrid = UnstructuredGrid
    PolyData = PolyData
    ImageData = ImageData
    RectilinearGrid = RectilinearGrid
    ExplicitStructuredGrid = ExplicitStructuredGrid
    DataSet = DataSet
    CellType = CellType
    MultipleLines = staticmethod(MultipleLines)
    lines_from_points = staticmethod(lines_from_points)
    merge = staticmethod(merge)

    def __getattr__(self, n):
        from .load import Opaque

        return Opaque("pyvista." + n)


PV = _PVNamespace()
CELL_MODULE = types.SimpleNamespace(_get_irregular_cells=irregular_cells)


# -- rotations of scipy: a linear map, of which nothing else is known
MATRIX = [[z3.Function(f"rotvec{i}{j}", *[z3.RealSort()] * 3, z3.RealSort()) for j in range(3)] for i in range(3)]


def rotation_matrix(vec):
    """of a rotation vector in degrees"""
    v = [real(x) for x in vec]
    return [[f(*v) for f in row] for row in MATRIX]


class Rotation:
    def __init__(self, m):
        self.m = m

    @classmethod
    def from_rotvec(cls, rotvec, degrees=False):
        v = asarr(rotvec)
        if degrees is not True or v.ndim != 1 or v.dims[0] != 3:
            raise Unsupported("rotation vector")
        return cls(rotation_matrix([v[k] for k in range(3)]))

    def apply(self, vectors, inverse=False):
        p = asarr(vectors)
        if p.ndim != 2 or p.dims[1] != 3:
            raise Unsupported("rotation of one point")
        g = p.snap()
        M = self.m

        def get(idx):
            q = [core.real(g((idx[0], I(k)))) for k in range(3)]
            rows = [z3.Sum(*[(M[k][c] if inverse else M[c][k]) * q[k] for k in range(3)]) for c in range(3)]
            c = z3.simplify(idx[1]) if isinstance(idx[1], z3.ExprRef) else I(idx[1])
            return rows[c.as_long()] if z3.is_int_value(c) else z3.If(c == 0, rows[0], z3.If(c == 1, rows[1], rows[2]))

        return SymArr((p.dims[0], 3), memo(get), "f")

    def as_matrix(self):
        M = self.m
        return asarr([[core.wrap(M[i][j]) for j in range(3)] for i in range(3)])

    def inv(self):
        return Rotation([[self.m[j][i] for j in range(3)] for i in range(3)])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Rotation.{n}")


TRANSFORM = types.SimpleNamespace(Rotation=Rotation)


# -- trees of scipy: the close pairs are those the task declares, in any order
class KDTree:
    def __init__(self, data, *a, **k):
        if a or k:
            raise Unsupported("KDTree")
        self.points = asarr(data).copy()

    def query_pairs(self, r, *a, **k):
        c = ctx()
        known = getattr(c.env, "links", None)
        if a or k or known is None:
            raise Unsupported("query_pairs")
        points, tol, pairs = known
        i = c.fresh_const("pt", z3.IntSort())
        n = integer(dim_size(points.dims[0]))
        ok = self.points.ndim == 2 and c.valid(integer(dim_size(self.points.dims[0])) == n) and c.valid(core.real(r) == core.real(tol))
        if ok:
            c.conds.append(z3.And(i >= 0, i < n))
            try:
                ok = all(c.valid(core.real(self.points.at((i, I(x)))) == core.real(points.at((i, I(x))))) for x in range(3))
            finally:
                c.conds.pop()
        if not ok:
            raise Unsupported("close pairs of other points")
        return list(pairs)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"KDTree.{n}")


SPATIAL = types.SimpleNamespace(KDTree=KDTree)
