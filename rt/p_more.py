"""Bounded layer: circles and polylines of Voronoi meshes (C32), holes, clusters and argument forms (C24)."""
from __future__ import annotations

import numpy as np
import pyvista as pv
import pvgridder as pvg

from .core import case, need, close, equal, raises, Skip, Violation
from .gen import Frame, cell_lists
from .p_prims import voronoi_axes, clip_cell


def flat_base(rng, axis, lx=10.0, ly=10.0, n=(7, 11), offset=True):
    nx, ny = rng.int(*n), rng.int(*n)
    u, v = np.linspace(0.0, lx, nx), np.linspace(0.0, ly, ny)
    o = np.array([rng.uniform(-3, 3), rng.uniform(-3, 3)])
    g = [u + o[0], v + o[1]]
    g.insert(axis, np.array([rng.uniform(-2, 2) if offset and rng.bool() else 0.0]))
    m = pv.StructuredGrid(*np.meshgrid(*g, indexing="ij"))
    P = np.array(m.points)
    k = voronoi_axes(axis)
    inner = np.ones(len(P), dtype=bool)
    for a, w in zip(k, (u + o[0], v + o[1])):
        inner &= (P[:, a] > w[0]) & (P[:, a] < w[-1])
    P[np.ix_(inner, k)] += 0.1 * rng.normal(int(inner.sum()), 2)
    m.points = P
    if rng.bool(0.3):
        m = m.cast_to_unstructured_grid()
    return m, o


def lift(Q, axis, value=0.0):
    return np.insert(np.asarray(Q, dtype=float), axis, value, axis=-1)


def cells_of(m, axis):
    o = voronoi_axes(axis)
    P = np.asarray(m.points, dtype=float)
    return [P[list(c)][:, o] for _, c in cell_lists(m)]


def union(polys):
    import shapely

    return shapely.union_all([shapely.Polygon(q).buffer(1e-7) for q in polys])


def covers(what, polys, want, size):
    """the union of the polygons is the wanted polygon"""
    import shapely

    e = 1e-4 * size
    got = union(polys)
    d = got.difference(want.buffer(e)).area + want.difference(got.buffer(e)).area
    need(d < 1e-4 * size**2, lambda: f"{what}: area {got.area}, expected {want.area}; they differ by {d}")
    close(sum(shapely.Polygon(q).area for q in polys), want.area, 1e-3, what + ": total area of the cells")


def seeds_of(m, axis):
    return np.column_stack([m.cell_data[k] for k in "XYZ"])[:, voronoi_axes(axis)]


def same_set(a, b, tol, what):
    need(len(a) == len(b), lambda: f"{what}: {len(a)} seeds, expected {len(b)}")
    d = np.linalg.norm(a[:, None] - b[None], axis=2)
    need(d.min(axis=0).max() < tol and d.min(axis=1).max() < tol, lambda: f"{what}: seeds {a.tolist()}, expected {b.tolist()}")


@case("C32", "circle", weight=1)
def c32_circle(rng):
    import shapely

    axis = rng.int(0, 2)
    base, o = flat_base(rng, axis)
    default = rng.choice([None, "dflt"])
    vm = pvg.VoronoiMesh2D(base, axis, default_group=default)
    circles, L = [], []
    for q in range(rng.choice([1, 1, 2])):
        n = rng.choice([None, 8, 10, 12, 16]) if rng.bool(0.9) else 9
        if n is None:
            n = 24
            kw = dict(resolution=n)
        else:
            kw = dict(resolution=n)
        r = rng.uniform(0.5, 1.5)
        fac = rng.choice([None, rng.uniform(1.2, 1.7), rng.uniform(1.2, 1.7)])
        if fac is not None:
            kw["constraint_radius"] = r * fac
        dr = r * ((fac or 1.5) - 1.0)
        if r * np.tan(np.pi / n) > 0.7 * dr:
            raise Skip
        c = o + np.array([rng.uniform(r + dr + 0.3, 9.7 - r - dr), (2.5 if q else 7.5) + rng.uniform(-0.3, 0.3)])
        if r + dr > 2.1:
            raise Skip
        center = rng.choice([lift(c, axis), lift(c, axis, 1.7), c, list(map(float, lift(c, axis))), tuple(map(float, c))])
        plain = rng.bool(0.4)
        prio = rng.choice([0, 0, 1, 3])
        grp = rng.choice(["c", "hole", None]) if q == 0 else "second"
        if plain:
            kw["plain"] = True
        with Frame(center=np.asarray(center)):
            out = vm.add_circle(r, center=center, priority=prio, group=grp, **kw)
        need(out is vm, "add_circle returns the builder")
        circles.append((c, r, dr, n, plain, grp or default or "default"))
    rng.note(axis=axis, circles=circles, dims=getattr(base, "dimensions", None))
    with Frame(base=base):
        m = vm.generate_mesh()
    names = np.array(list(map(str, pvg.get_cell_group(m))))
    cells = cells_of(m, axis)
    S = seeds_of(m, axis)
    close(sum(shapely.Polygon(q).area for q in cells), 100.0, 1e-3, "the cells cover the domain")
    for c, r, dr, n, plain, grp in circles:
        t = 2 * np.pi * np.arange(n) / n
        ring = np.column_stack((np.cos(t), np.sin(t)))
        poly = shapely.Polygon(c + r * ring)
        # cells of the circle: those whose seed lies within the inscribed polygon
        mine = [i for i in range(len(cells)) if poly.contains(shapely.Point(S[i]))]
        need(all(names[i] == grp for i in mine), lambda: f"cells within the circle have groups {sorted(set(names[mine]))}, expected {grp}")
        nxt = np.roll(ring, -1, axis=0)
        tri = (r - dr) * (ring + nxt) / 3
        quad = (2 * r - dr) * (ring + nxt) / 4
        if plain:
            need(len(mine) == 1, lambda: f"a plain circle has {len(mine)} cells, expected one")
        else:
            same_set(S[mine], c + np.vstack((tri, quad)), 1e-4, "circle")
            cons = c + (2 * r + dr) * (ring + nxt) / 4
            d = np.linalg.norm(S[:, None] - cons[None], axis=2)
            need(d.min(axis=0).max() < 1e-4, "constraint seeds mirror those within the circle")
            if grp not in ("default", "dflt"):
                need(all(names[i] != grp for i in d.argmin(axis=0)), "cells around the circle do not belong to its group")
        covers("circle", [cells[i] for i in mine], poly, r)
        if grp not in ("default", "dflt"):
            need(sorted(np.flatnonzero(names == grp)) == sorted(mine), "only the cells within the circle belong to its group")


@case("C32", "circle-alone", weight=0.2)
def c32_alone(rng):
    axis = rng.int(0, 2)
    base, o = flat_base(rng, axis)
    vm = pvg.VoronoiMesh2D(base, axis)
    r = rng.uniform(0.7, 2.0)
    n = rng.choice([6, 8, 12])
    if rng.bool(0.3):
        raises(ValueError, lambda: vm.add_circle(r, r * rng.uniform(0.2, 0.99), n, center=lift(o + 5.0, axis)), "constraint within the circle")
        return
    c = o + rng.uniform(3, 7, 2)
    rng.note(axis=axis, r=r, n=n, c=c)
    vm.add_circle(r, r, n, lift(c, axis), group="c")
    m = vm.generate_mesh()
    t = 2 * np.pi * np.arange(n) / n
    ring = np.column_stack((np.cos(t), np.sin(t)))
    mine = np.flatnonzero(pvg.get_cell_group(m) == "c")
    same_set(seeds_of(m, axis)[mine], c + r * (ring + np.roll(ring, -1, axis=0)) / 3, 1e-4, "circle without constraint")


def polyline_points(P, pref, pad):
    P = np.asarray(P, dtype=float)
    if pref == "point":
        return P
    a = P[0] + pad * (P[0] - P[1]) / np.linalg.norm(P[0] - P[1])
    b = P[-1] + pad * (P[-1] - P[-2]) / np.linalg.norm(P[-1] - P[-2])
    return np.vstack((a, 0.5 * (P[:-1] + P[1:]), b))


@case("C32", "polyline-straight", weight=1)
def c32_straight(rng):
    import shapely

    axis = rng.int(0, 2)
    base, o = flat_base(rng, axis, 20.0, 20.0)
    vm = pvg.VoronoiMesh2D(base, axis)
    lines, args = [], []
    pref = rng.choice([None, "cell", "point"])
    w = rng.uniform(0.6, 1.6)
    res = rng.choice([None, None, 1, 2, 3, [0.0, 0.5, 1.0]])
    nr = {None: 1, 1: 1, 2: 2, 3: 3}.get(res if not isinstance(res, list) else 2)
    step = w / nr * rng.uniform(0.8, 1.3)
    cons = rng.choice([None, 1, 2, (1, 2), (2, 1), 3])
    pad = None if rng.bool() else step * rng.uniform(0.4, 0.8)
    if pref != "point":
        eff = pad if pad is not None else 0.5 * w
        if not 0.7 * w / nr < 0.5 * step + eff < 1.45 * w / nr:
            raise Skip
    for q in range(rng.choice([1, 1, 2])):
        n = rng.int(3, 6)
        th = rng.choice([0.0, np.pi / 2, rng.uniform(0, 2 * np.pi), rng.uniform(0, 2 * np.pi)])
        d = np.array([np.cos(th), np.sin(th)])
        if q:
            d = lines[0][1]
            nrm = np.array([-d[1], d[0]])
            start = lines[0][0][0] + nrm * (4 * w + 1.5)
        else:
            start = o + 10.0 - d * step * (n - 1) / 2 + rng.uniform(-1, 1, 2)
        P = start + d * step * np.arange(n)[:, None]
        lines.append((P, d))
    ext = 3.5 * step + w * 2
    for P, d in lines:
        if (P - ext < o).any() or (P + ext > o + 20).any():
            raise Skip
    z = rng.choice([0.0, 2.5])
    kw = {}
    if pref:
        kw["preference"] = pref
    if pad is not None:
        kw["padding"] = pad
    if cons is not None:
        kw["constraint"] = cons
    if res is not None:
        kw["resolution"] = res
    if rng.bool():
        kw["priority"] = rng.choice([0, 1, 2])
    if len(lines) == 1:
        arg = rng.choice([lift(lines[0][0], axis, z), pv.MultipleLines(lift(lines[0][0], axis, z)), lift(lines[0][0], axis, z).tolist()])
    else:
        arg = pvg.merge_lines([pv.MultipleLines(lift(P, axis, z)) for P, _ in lines], as_lines=False)
    rng.note(axis=axis, lines=[P for P, _ in lines], width=w, kw=kw)
    with Frame(arg=np.asarray(arg) if isinstance(arg, list) else arg):
        out = vm.add_polyline(arg, w, group="line", **kw)
    need(out is vm, "add_polyline returns the builder")
    with Frame(base=base):
        m = vm.generate_mesh()
    names = np.array(list(map(str, pvg.get_cell_group(m))))
    cells, S = cells_of(m, axis), seeds_of(m, axis)
    mine = np.flatnonzero(names == "line")
    want, strips = [], []
    for P, d in lines:
        T = polyline_points(P, pref or "cell", pad if pad is not None else 0.5 * w)
        nrm = np.array([-d[1], d[0]])
        mid = 0.5 * (T[:-1] + T[1:])
        for k in range(nr):
            want.append(mid + nrm * w * ((k + 0.5) / nr - 0.5))
        strips.append(shapely.Polygon([T[0] - nrm * w / 2, T[-1] - nrm * w / 2, T[-1] + nrm * w / 2, T[0] + nrm * w / 2]))
    same_set(S[mine], np.vstack(want), 1e-4, "polyline")
    for s in strips:
        idx = [i for i in mine if s.buffer(1e-6).contains(shapely.Point(S[i]))]
        covers("strip around the polyline", [cells[i] for i in idx], s, w)
    close(sum(shapely.Polygon(q).area for q in cells), 400.0, 1e-3, "the cells cover the domain")


@case("C32", "polyline-bent", weight=0.6)
def c32_bent(rng):
    axis = rng.int(0, 2)
    base, o = flat_base(rng, axis, 20.0, 20.0)
    vm = pvg.VoronoiMesh2D(base, axis)
    n = rng.int(2, 7)
    w = rng.uniform(0.3, 0.8)
    th = rng.uniform(0, 2 * np.pi) + np.cumsum(rng.uniform(-0.6, 0.6, n - 1))
    L = w * rng.uniform(1.2, 2.0, n - 1)
    P = np.vstack(([0.0, 0.0], np.cumsum(L[:, None] * np.column_stack((np.cos(th), np.sin(th))), axis=0)))
    P += o + 10.0 - P.mean(axis=0)
    pref = rng.choice(["cell", "point"])
    pad = rng.choice([None, w * rng.uniform(0.2, 1.5)])
    cons = rng.choice([0, 1, 2, (0, 1), (2, 1), (1, 0)])
    if (P - 6 * w < o).any() or (P + 6 * w > o + 20).any():
        raise Skip
    arg = lift(P, axis, rng.choice([0.0, 1.0]))
    rng.note(axis=axis, P=P, w=w, pref=pref, pad=pad, cons=cons)
    vm.add_polyline(arg, w, pref, pad, cons, None, 3, "line")
    m = vm.generate_mesh()
    S = seeds_of(m, axis)
    names = np.array(list(map(str, pvg.get_cell_group(m))))
    T = polyline_points(P, pref, 0.5 * w if pad is None else pad)
    same_set(S[names == "line"], 0.5 * (T[:-1] + T[1:]), 1e-4, "polyline")
    # constraint seeds beyond the ends
    a, b = (cons, cons) if isinstance(cons, int) else cons
    for k, E, D in ((a, T[0], T[0] - T[1]), (b, T[-1], T[-1] - T[-2])):
        for j in range(k):
            d = np.linalg.norm(S - (E + (j + 0.5) * D), axis=1)
            need(d.min() < 1e-4 and names[d.argmin()] != "line", f"constraint seed {j} beyond the end of the polyline")


# ------------------------------------------------------------------ C24
def check_cells(m, S, N, axis, dom, ml=0.0):
    import shapely

    need(m.n_cells == len(S), f"{m.n_cells} cells, expected one per seed ({len(S)})")
    rec = seeds_of(m, axis)
    close(rec, S, 1e-6, "recorded seeds")
    size = np.sqrt(dom.area)
    B = shapely.box(*dom.bounds)
    tot = 0.0
    for i, q in enumerate(cells_of(m, axis)):
        pg = shapely.Polygon(q)
        ex = clip_cell(B, S, i).intersection(dom)
        if ex.geom_type != "Polygon" or ex.interiors:
            raise Skip
        e = 1e-6 * size + 1.5 * ml
        d = pg.difference(ex.buffer(e)).area + ex.difference(pg.buffer(e)).area
        need(d < 1e-3 * size, f"cell {i}: area {pg.area}, its Voronoi cell has {ex.area}, difference {d}")
        tot += pg.area
    close(tot, dom.area, 1e-3, "total area")
    got = list(map(str, pvg.get_cell_group(m)))
    need(got == N, f"groups {got}, expected {N}")


@case("C24", "holes", weight=0.4)
def c24_holes(rng):
    import shapely

    axis = rng.int(0, 2)
    o = voronoi_axes(axis)
    n = rng.int(5, 8)
    base, _ = flat_base(rng, axis, n=(n, n))
    base = base.cast_to_structured_grid() if isinstance(base, pv.ImageData) else base
    k = base.n_cells
    side = n - 1
    h = [rng.int(1, side - 2), rng.int(1, side - 2)]
    keep = np.ones((side, side), dtype=bool)
    keep[h[0]: h[0] + rng.int(1, 2), h[1]] = False
    if keep[0].all() and keep[-1].all() and keep[:, 0].all() and keep[:, -1].all():
        pass
    else:
        raise Skip
    if rng.bool(0.5):
        # corner cut out as well
        keep[0, 0] = False
        if rng.bool():
            keep[1, 0] = False
        if not (keep[1, 1] and keep[2, 1] and keep[0, 1]):
            raise Skip
    base = base.cast_to_unstructured_grid().extract_cells(np.flatnonzero(keep.ravel(order="F")))
    for key in list(base.cell_data.keys()) + list(base.point_data.keys()):
        base.cell_data.pop(key, None)
        base.point_data.pop(key, None)
    cells = cells_of(base, axis)
    dom = shapely.union_all([shapely.Polygon(q) for q in cells])
    if dom.geom_type != "Polygon":
        raise Skip
    S = np.asarray(pvg.get_cell_centers(base), dtype=float)[:, o]
    rng.note(axis=axis, n=n, removed=np.argwhere(~keep))
    vm = pvg.VoronoiMesh2D(base, axis)
    N = ["default"] * len(S)
    if rng.bool():
        # points in the hole are outside of the domain
        hole = shapely.Polygon(dom.interiors[0]) if dom.interiors else None
        if hole is not None:
            c = np.array(hole.representative_point().coords[0])
            vm.add(lift(c[None], axis), group="A")
    with Frame(base=base):
        m = vm.generate_mesh(min_length=rng.choice([0.0, 1e-6]))
    need(isinstance(m, pv.UnstructuredGrid), "type of the mesh")
    check_cells(m, S, N, axis, dom)


@case("C24", "cluster", weight=0.5)
def c24_cluster(rng):
    """cells smaller than the minimum edge length vanish; the others keep their seeds and groups"""
    import shapely

    axis = rng.int(0, 2)
    o = voronoi_axes(axis)
    base, org = flat_base(rng, axis, n=(5, 7))
    S = np.asarray(pvg.get_cell_centers(base), dtype=float)[:, o]
    names = ["base"] * len(S)
    ml = rng.choice([0.05, 0.1])
    vm = pvg.VoronoiMesh2D(base, axis, default_group="base")
    seeds, gone = list(S), []
    for q in range(rng.int(1, 2)):
        c = org + rng.uniform(1, 9, 2)
        k = rng.int(4, 6)
        t = 2 * np.pi * np.arange(k) / k + rng.uniform(0, 6)
        d = ml * 0.2
        ring = c + d * np.column_stack((np.cos(t), np.sin(t))) * rng.uniform(0.97, 1.03, k)[:, None]
        pts = np.vstack((ring, c))
        p = rng.perm(k + 1)
        arg = pts[p]
        form = rng.int(0, 2)
        vm.add(arg if form == 0 else lift(arg, axis, 1.0) if form == 1 else pv.PolyData(lift(arg, axis, 2.0)), group=f"g{q}")
        for x, j in zip(arg, p):
            seeds.append(x)
            names.append(f"g{q}")
            gone.append(j == k)
    gone = [False] * len(S) + gone
    A = np.array(seeds)
    dd = np.linalg.norm(A[:, None] - A[None], axis=2)
    far = dd[(dd > 0.6 * ml)]
    if far.size and far.min() < 6 * ml:
        raise Skip
    rng.note(axis=axis, ml=ml, seeds=A)
    m = vm.generate_mesh(min_length=ml)
    live = [i for i, g in enumerate(gone) if not g]
    need(m.n_cells == len(live), lambda: f"{m.n_cells} cells, expected {len(live)}: cells smaller than the minimum edge length vanish")
    close(seeds_of(m, axis), A[live], 1e-5, "recorded seeds")
    got = list(map(str, pvg.get_cell_group(m)))
    need(got == [names[i] for i in live], lambda: f"groups {got}")
    for i, q in zip(live, cells_of(m, axis)):
        need(shapely.Polygon(q).distance(shapely.Point(A[i])) < 2 * ml, lambda: f"the cell of seed {i} does not contain it")
        e = np.linalg.norm(q - np.roll(q, -1, axis=0), axis=1)
    close(sum(shapely.Polygon(q).area for q in cells_of(m, axis)), 100.0, 2e-3, "total area")


# ------------------------------------------------------------------ defaults and argument forms
from .gen import same_mesh, snapshot, same  # noqa: E402


def same_geometry(a, b, what):
    close(a.points, b.points, 1e-9, what + ": points")
    u, v = a.cast_to_unstructured_grid(), b.cast_to_unstructured_grid()
    need(cell_lists(u) == cell_lists(v), what + ": cells")


DEFAULTS_20 = [
    (lambda: pvg.AnnularSector(), lambda: pvg.AnnularSector(0.5, 1.0, 0.0, 90.0, 1, 1)),
    (lambda: pvg.AnnularSector(theta_resolution=3), lambda: pvg.AnnularSector(0.5, 1.0, 0.0, 90.0, None, 3)),
    (lambda: pvg.Annulus(theta_resolution=5), lambda: pvg.Annulus(0.5, 1.0, 1, 5)),
    (lambda: pvg.Circle(resolution=5), lambda: pvg.Circle(1.0, 5, center=(0.0, 0.0, 0.0))),
    (lambda: pvg.CylindricalShell(theta_resolution=4), lambda: pvg.CylindricalShell(0.5, 1.0, 1.0, 1, 4, 1)),
    (lambda: pvg.CylindricalShellSector(theta_resolution=4), lambda: pvg.CylindricalShellSector(0.5, 1.0, 0.0, 90.0, 1.0, 1, 4, 1)),
    (lambda: pvg.Sector(resolution=4), lambda: pvg.Sector(1.0, 0.0, 90.0, 4)),
]
DEFAULTS_21 = [
    (lambda: pvg.Rectangle(), lambda: pvg.Rectangle(1.0, 1.0, 1, 1)),
    (lambda: pvg.Square(), lambda: pvg.Rectangle(1.0, 1.0, 1, 1)),
    (lambda: pvg.RectangleSector(), lambda: pvg.RectangleSector(0.5, 0.5, 1.0, 1, 1)),
    (lambda: pvg.SectorRectangle(), lambda: pvg.SectorRectangle(0.5, 1.0, 1.0, 1, 1)),
    (lambda: pvg.SquareSector(), lambda: pvg.RectangleSector(0.5, 0.5, 1.0, 1, 1)),
    (lambda: pvg.SectorSquare(), lambda: pvg.SectorRectangle(0.5, 1.0, 1.0, 1, 1)),
    (lambda: pvg.Quadrilateral(), lambda: pvg.Quadrilateral([(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (1.0, 1.0, 0.0), (0.0, 1.0, 0.0)])),
]


@case("C20", "defaults", n=len(DEFAULTS_20))
def c20_defaults(rng):
    a, b = DEFAULTS_20[rng.index]
    same_geometry(a(), b(), f"documented defaults {rng.index}")


@case("C21", "defaults", n=len(DEFAULTS_21))
def c21_defaults(rng):
    a, b = DEFAULTS_21[rng.index]
    same_geometry(a(), b(), f"documented defaults {rng.index}")


@case("C05", "defaults", n=6)
def c05_defaults(rng):
    i = rng.index
    b = pv.ImageData(dimensions=(3, 4, 1)).cast_to_structured_grid()
    if i == 0:
        a = pvg.MeshStack3D(b).add(0.0).add(1.0, 3, group="g").add(2.0).generate_mesh()
        c = pvg.MeshStack3D(b, 2, True).add(0.0, priority=0, thickness=0.0).add(1.0, 3, None, 0, 0.0, group="g").add(2.0, None).generate_mesh()
        same_mesh(a, c, "documented defaults")
        close([a.bounds[4], a.bounds[5]], [0.0, 3.0], 1e-6, "the stack grows along z, upwards")
    elif i == 1:
        l = pv.MultipleLines(np.array([[0.0, 0, 0], [1, 0, 0], [2, 0, 0.0]]))
        a = pvg.MeshStack2D(l).add(0.0).add(1.0, 2).generate_mesh()
        close([a.bounds[4], a.bounds[5]], [0.0, 1.0], 1e-6, "the stack grows along z, upwards")
    elif i == 2:
        # equal priorities by default: the earlier surface is cut, to no thickness
        lower = lambda x, y, z: 2.0 + 0.0 * x
        upper = lambda x, y, z: 1.0 + x
        a = pvg.MeshStack3D(b).add(0.0).add(lower).add(upper).generate_mesh()
        c = pvg.MeshStack3D(b).add(0.0).add(lower, priority=0, thickness=0.0).add(upper, priority=0, thickness=0.0).generate_mesh()
        same_mesh(a, c, "default priority and thickness")
        d = pvg.MeshStack3D(b).add(0.0).add(lower).add(upper, priority=-1).generate_mesh()
        need(np.abs(np.asarray(a.points) - np.asarray(d.points)).max() > 0.5, "default priority is not lower than zero")
        e = pvg.MeshStack3D(b).add(0.0).add(lower, priority=1).add(upper).generate_mesh()
        same_mesh_points(d, e)
    elif i == 3:
        raises(ValueError, lambda: pvg.MeshStack2D(pv.PolyData(np.eye(3))), "2D stack of points")
    elif i == 4:
        raises(ValueError, lambda: pvg.MeshStack3D(pv.PolyData(np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]]), faces=[3, 0, 1, 2])), "3D stack of a polydata")
    else:
        e = pvg.MeshExtrude(b).add([0.0, 0.0, 1.0], 2).generate_mesh()
        f = pvg.MeshExtrude(b, None, None).add([0.0, 0.0, 1.0], 2, None, None, None, None).generate_mesh()
        same_mesh(e, f, "documented defaults of an extrusion")
        need(e.n_cells == 12, "number of cells of an extrusion")


def same_mesh_points(a, b):
    close(a.points, b.points, 1e-6, "lower priority given either way")


@case("C06", "base", weight=0.4)
def c06_base(rng):
    """interpolated surfaces do not change what later functions see of the base mesh"""
    from .p_core import rand_base

    axis = rng.int(0, 2)
    _, base, _ = rand_base(rng, axis, 3)
    o = [k for k in range(3) if k != axis]
    st = pvg.MeshStack3D(base, axis, rng.bool())
    P = np.array(st.mesh.points)
    lo, hi = P[:, o].min(axis=0) - 1.0, P[:, o].max(axis=0) + 1.0
    Q = np.zeros((5, 3))
    Q[:4, o] = [[lo[0], lo[1]], [hi[0], lo[1]], [hi[0], hi[1]], [lo[0], hi[1]]]
    Q[4, o] = rng.uniform(lo + 0.4, hi - 0.4)
    Q[:, axis] = 5.0 + rng.uniform(-1, 1, 5)
    rng.note(axis=axis, Q=Q)
    first = rng.int(0, 2)
    snap = snapshot(st.mesh)
    if first:
        st.add(Q if first == 1 else pv.PolyData(Q))
    f = lambda x, y, z: (x, y, z)[axis] + 7.0 + 0.5 * (x, y, z)[o[0]]
    st.add(f)
    st.add(2.0)
    if rng.bool():
        st.add(Q + np.eye(3)[axis] * 40.0)
    same(snapshot(st.mesh), snap, "base mesh of the builder")
    S = P.copy()
    S[:, axis] = P[:, axis] + 7.0 + 0.5 * P[:, o[0]]
    close(st.items[1 if first else 0].mesh.points, S, 1e-5, "function of the base mesh coordinates")


# ------------------------------------------------------------------ C09
@case("C09", "scales", weight=1)
def c09_scales(rng):
    """interfaces are compared coordinate by coordinate, up to single precision"""
    axis = rng.int(0, 2)
    dims = [rng.int(2, 4) for _ in range(3)]
    cut = rng.int(1, 3)
    dims[axis] = cut + rng.int(1, 3) + 1
    if rng.bool(0.3):
        dims[(axis + 1) % 3] = 1
    sc = 10.0 ** rng.uniform(-3, 4, 3)
    g = [np.cumsum(rng.uniform(0.5, 1.5, n)) for n in dims]
    X = [x * s for x, s in zip(np.meshgrid(*g, indexing="ij"), sc)]
    X = [x + 0.1 * s * rng.normal(*x.shape) for x, s in zip(X, sc)]
    for k in range(3):
        # interface around zero, negative coordinates
        if rng.bool(0.4):
            X[k] = X[k] - X[k][tuple(cut if q == axis else rng.int(0, dims[q] - 1) for q in range(3))]
        if rng.bool(0.4):
            X[k] = -X[k]
    top = [np.abs(x).max() for x in X]
    sl = lambda a, b: tuple(slice(a, b) if k == axis else slice(None) for k in range(3))
    A = [np.array(x[sl(0, cut + 1)]) for x in X]
    B = [np.array(x[sl(cut, None)]) for x in X]
    face = tuple(0 if k == axis else slice(None) for k in range(3))
    rng.note(axis=axis, dims=dims, cut=cut, scale=sc)
    C = [b.copy() for b in B]
    for k in range(3):
        C[k][face] += top[k] * 1e-7 * rng.uniform(-1, 1, C[k][face].shape)
    m = pvg.merge([pv.StructuredGrid(*A), pv.StructuredGrid(*C)], axis=axis)
    need(tuple(m.dimensions) == tuple(dims), f"dimensions {m.dimensions}, expected {dims}")
    for k in range(3):
        close(np.asarray(m.points)[:, k] / top[k], X[k].ravel(order="F") / top[k], 1e-6, f"merged coordinate {k}")
    k = rng.int(0, 2)
    C = [b.copy() for b in B]
    at = tuple(0 if q == axis else rng.int(0, C[k].shape[q] - 1) for q in range(3))
    C[k][at] += top[k] * rng.choice([1e-3, -1e-3, 1e-4])
    raises(ValueError, lambda: pvg.merge([pv.StructuredGrid(*A), pv.StructuredGrid(*C)], axis=axis), f"interfaces differ in coordinate {k}")


@case("C09", "other", n=6)
def c09_other(rng):
    """grids that are not all structured are merged like pyvista.merge does"""
    a = pv.ImageData(dimensions=(3, 3, 1)).cast_to_structured_grid()
    b = pv.ImageData(dimensions=(3, 3, 1), origin=(2.0, 0, 0)).cast_to_unstructured_grid()
    i = rng.index
    if i == 0:
        m = pvg.merge([a, b])
        need(m.n_cells == 8 and m.n_points == 15, "merged with shared points by default")
    elif i == 1:
        m = pvg.merge([a, b], merge_points=False)
        need(m.n_cells == 8 and m.n_points == 18, "merged without sharing points")
    elif i == 2:
        need(pvg.merge([b]) is b or same_mesh(pvg.merge([b]), b, "single mesh") is None, "single mesh")
    elif i == 3:
        same_geometry(pvg.merge([a], axis=0), a, "single grid")
    elif i == 4:
        same_geometry(pvg.merge((a, pv.ImageData(dimensions=(2, 3, 1), origin=(2.0, 0, 0)).cast_to_structured_grid()), 0), pv.ImageData(dimensions=(4, 3, 1)).cast_to_structured_grid(), "tuple of grids")
    else:
        c = pv.ImageData(dimensions=(3, 2, 1), origin=(0.0, 2.0, 0)).cast_to_structured_grid()
        raises(ValueError, lambda: pvg.merge((a, c), 0), "wrong axis")
        same_geometry(pvg.merge((a, c), axis=1), pv.ImageData(dimensions=(3, 4, 1)).cast_to_structured_grid(), "grids along y")


# ------------------------------------------------------------------ C10
@case("C10", "tolerance", weight=0.3)
def c10_tolerance(rng):
    n = [rng.int(2, 4), rng.int(2, 4), rng.int(1, 2)]
    gap = rng.choice([0.0, 1e-4, 1e-3])
    a = pv.ImageData(dimensions=n)
    b = pv.ImageData(dimensions=n, origin=(n[0] - 1 + gap, 0.0, 0.0))
    tol = rng.choice([None, 1e-2, 1e-6])
    rng.note(n=n, gap=gap, tol=tol)
    mm = pvg.MeshMerge().add(a).add(b)
    m = mm.generate_mesh() if tol is None else mm.generate_mesh(tol) if rng.bool() else mm.generate_mesh(tolerance=tol)
    shared = gap < (1e-8 if tol is None else tol)
    need(m.n_points == 2 * a.n_points - (n[1] * n[2] if shared else 0), f"{m.n_points} points")
    need(m.n_cells == 2 * a.n_cells, "number of cells")


# ------------------------------------------------------------------ C12, C17, C19, C23, C25
@case("C12", "defaults", weight=0.3)
def c12_defaults(rng):
    from .p_misc import rand_any_mesh, volume_mesh

    m = volume_mesh(rng, empty=True, collapse=True) if rng.bool() else rand_any_mesh(rng)[0]
    if not np.asarray(m.cast_to_unstructured_grid().celltypes).any():
        raise Skip
    try:
        a = pvg.extract_cell_geometry(m)
    except NotImplementedError:
        raise Skip
    b = pvg.extract_cell_geometry(m, remove_ghost_cells=True)
    c = pvg.extract_cell_geometry(m, True)
    for x in (b, c):
        same_geometry(a, x, "ghost cells are removed by default")
        equal(a.cell_data["vtkOriginalCellIds"], x.cell_data["vtkOriginalCellIds"], "labels")


@case("C17", "defaults", weight=0.3)
def c17_defaults(rng):
    from .p_misc import rand_lines

    m = rand_lines(rng)[0]
    a, b = pvg.split_lines(m), pvg.split_lines(m, True)
    need(len(a) == len(b), "number of lines")
    for x, y in zip(a, b):
        same_mesh(x, y, "segments by default")
        need(all(len(c) == 2 for _, c in cell_lists(x)), "lines are split into segments by default")
    x, y = pvg.merge_lines(a), pvg.merge_lines(list(a), as_lines=True)
    same_mesh(x, y, "segments by default")
    need(all(len(c) == 2 for _, c in cell_lists(x)), "merged lines are segments by default")


@case("C19", "copy", weight=0.2)
def c19_copy(rng):
    from .p_misc import star_polygon

    p = np.insert(star_polygon(rng), rng.int(0, 2), 1.0, axis=1)
    m = pv.PolyData(p, faces=[len(p), *range(len(p))])
    m.cell_data["a"] = [3]
    r = pvg.offset_polygon(m, rng.choice([0.0, 0]))
    need(r is not m, "zero distance gives a copy")
    same_geometry(r, m, "zero distance")
    r.points[:] += 1.0
    close(m.points, p, 1e-6, "the copy shares the points of the polygon")
    d = rng.uniform(-0.2, 0.2)
    a, b = pvg.offset_polygon(m, d), pvg.offset_polygon(p.tolist(), d)
    close(a.points, b.points, 1e-6, "polygon given as list")


@case("C23", "point-data", weight=0.4)
def c23_points(rng):
    nx, ny = rng.int(3, 5), rng.int(3, 5)
    m = pv.ImageData(dimensions=(nx, ny, 1)).cast_to_unstructured_grid()
    m.point_data["p"] = rng.uniform(0, 1, m.n_points)
    m.point_data["v"] = rng.uniform(0, 1, (m.n_points, 3))
    i, j = rng.int(0, nx - 3), rng.int(0, ny - 2)
    sel = [j * (nx - 1) + i, j * (nx - 1) + i + 1]
    sel = sel[:: rng.choice([1, -1])]
    rng.note(nx=nx, ny=ny, sel=sel)
    arg = sel if rng.bool() else np.isin(np.arange(m.n_cells), sel)
    r = pvg.fuse_cells(m, arg)
    K = {tuple(x): k for k, x in enumerate(np.asarray(m.points, dtype=float).tolist())}
    idx = [K[tuple(x)] for x in np.asarray(r.points, dtype=float).tolist()]
    for k in ("p", "v"):
        need(k in r.point_data, f"point data {k!r} lost")
        close(r.point_data[k], np.asarray(m.point_data[k])[idx], 1e-6, f"point data {k!r}")


@case("C25", "options", weight=0.4)
def c25_options(rng):
    n = [rng.int(3, 6), rng.int(2, 4), 1]
    m = pv.ImageData(dimensions=n)
    m = m if rng.bool() else m.cast_to_unstructured_grid()
    y = rng.uniform(0.1, 0.9)
    a, b = np.array([-0.7, y, 0.0]), np.array([n[0] - 1 + 0.6, y + rng.uniform(-0.05, 0.05), 0.0])
    line = pv.MultipleLines(np.array([a, b])) if rng.bool() else pvg.split_lines(pv.MultipleLines(np.array([a, 0.5 * (a + b), b])))[0]
    line.cell_data["own"] = np.arange(line.n_cells) + 5
    rng.note(n=n, a=a, b=b)
    with Frame(mesh=m, line=line):
        r = pvg.intersect_polyline(m, line, pass_cell_data=False)
        s = pvg.intersect_polyline(m, line)
        t = pvg.intersect_polyline(m, line, pass_cell_data=True)
    need("own" not in r.cell_data, "data of the line passed though not asked for")
    need("own" in s.cell_data and "own" in t.cell_data, "data of the line passed by default")
    same_geometry(r, s, "same line with and without data")
    same_mesh(s, t, "documented defaults")
    equal(r.cell_data["IntersectedCellIds"], s.cell_data["IntersectedCellIds"], "cells")
    bad = pv.PolyData(np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]]), faces=[3, 0, 1, 2], lines=[2, 0, 1])
    raises(ValueError, lambda: pvg.ray_cast(bad, a, b), "ray cast on faces and lines")
    only = pv.PolyData(np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]]), faces=[3, 0, 1, 2])
    x = rng.uniform(0.05, 0.4, 2)
    g = pvg.ray_cast(only, [x[0], x[1], 1.0], [x[0], x[1], -1.0])
    need(g is not None and g.n_cells == 1, "ray through a face of a polydata")
    close(np.asarray(g.cell_data["IntersectionPoints"])[0], [x[0], x[1], 0.0], 1e-5, "crossing point")
    edges = pv.PolyData(np.array([[0.0, 0, 0], [1, 0, 0], [1.0, 1, 0]]), lines=[2, 0, 1, 2, 1, 2])
    g = pvg.ray_cast(edges, [x[0], -1.0, 0.0], [x[0], 1.0, 0.0])
    need(g is not None and g.n_cells == 1, "ray through a line of a polydata")
    close(np.asarray(g.cell_data["IntersectionPoints"])[0], [x[0], 0.0, 0.0], 1e-5, "crossing point")
    equal(np.ravel(g.cell_data["vtkOriginalCellIds"]), [0], "number of the line crossed")


def halfspaces(P, faces, center):
    """inequalities n.x <= d of a convex cell"""
    out = []
    for f in faces:
        Q = P[list(f)]
        n = np.cross(Q[1] - Q[0], Q[2] - Q[0])
        n = n / np.linalg.norm(n)
        d = n @ Q[0]
        out.append((n, d) if n @ center <= d else (-n, -d))
    return out


@case("C25", "cells", weight=1)
def c25_cells(rng):
    """meshes of simplices, wedges and convex polygons of any orientation"""
    from scipy.spatial import Delaunay
    from .p_misc import vtk_faces

    dim = rng.choice([2, 3])
    npt = rng.int(5, 12)
    X = rng.uniform(0, 3, (npt, dim))
    X = np.vstack((X, np.array(np.meshgrid(*[[0.0, 3.0]] * dim)).reshape(dim, -1).T + 0.05 * rng.normal(2**dim, dim)))
    kind = rng.int(0, 2) if dim == 2 else rng.choice([0, 3])
    if dim == 3 and kind == 3:
        X = X[:, :2]
    tri = Delaunay(X)
    V = np.zeros((len(X), 3))
    V[:, :X.shape[1]] = X
    if kind == 3:
        V = np.vstack((V, V + [0.1, 0.05, 1.0], V + [0.1, 0.05, 2.2]))
        cells = [(13, [int(z) + l * len(X) for l in (k, k + 1) for z in t]) for k in (0, 1) for t in tri.simplices]
    else:
        cells = [(5 if dim == 2 else 10, [int(z) for z in t]) for t in tri.simplices]
    flat = np.array([z for _, c in cells for z in (len(c), *c)])
    m = pv.UnstructuredGrid(flat, np.array([t for t, _ in cells], dtype=np.uint8), V)
    if dim == 2 and kind == 1:
        m = pv.PolyData(V, faces=flat)
    if dim == 2:
        # any plane
        ax = rng.perm(3)
        m.points = np.asarray(m.points)[:, ax]
    P = np.asarray(m.points, dtype=float)
    u = m if isinstance(m, pv.UnstructuredGrid) else m.cast_to_unstructured_grid()
    cl = cell_lists(u)
    A, B = rng.uniform(-2, 5, dim), rng.uniform(-2, 5, dim)
    if rng.bool(0.4):
        A = X[tri.simplices[0]].mean(axis=0) if dim == X.shape[1] else np.append(X[tri.simplices[0]].mean(axis=0), 0.5)
    full = np.zeros((2, 3))
    full[:, :dim] = A, B
    if dim == 2:
        full = full[:, ax]
    A, B = full
    L = np.linalg.norm(B - A)
    if L < 0.5:
        raise Skip
    spans = []
    for i, (_, c) in enumerate(cl):
        ctr = P[list(c)].mean(axis=0)
        if dim == 3:
            hs = halfspaces(P, vtk_faces(u, i, 3), ctr)
        else:
            nrm = np.zeros(3)
            nrm[int(np.argmax(np.asarray(ax) == 2))] = 1.0
            hs = []
            for a, b in zip(c, c[1:] + c[:1]) if isinstance(c, list) else zip(c, tuple(c[1:]) + tuple(c[:1])):
                nn = np.cross(P[b] - P[a], nrm)
                nn = nn / np.linalg.norm(nn)
                hs.append((nn, nn @ P[a]) if nn @ ctr <= nn @ P[a] else (-nn, -(nn @ P[a])))
        t0, t1 = 0.0, 1.0
        for nn, d in hs:
            a, b = nn @ A - d, nn @ B - d
            if a > 0 and b > 0:
                t0, t1 = 1.0, 0.0
            elif a > 0:
                t0 = max(t0, a / (a - b))
            elif b > 0:
                t1 = min(t1, a / (a - b))
        if t1 > t0 + 1e-12:
            spans.append((t0, t1, i))
    spans.sort()
    if not spans:
        raise Skip
    want = []
    if spans[0][0] > 0:
        want.append((0.0, spans[0][0], -1))
    want += spans
    if spans[-1][1] < 1:
        want.append((spans[-1][1], 1.0, -1))
    for (_, e, _), (s, _, _) in zip(want[:-1], want[1:]):
        if abs(e - s) > 1e-9:
            raise Skip
    if min((e - s) * L for s, e, _ in want) < 3e-2:
        raise Skip
    # no vertex or edge close to a crossing
    for s, e, i in spans:
        for t in (s, e):
            if 0 < t < 1:
                Z = A + t * (B - A)
                near = sum(1 for a, b, _ in spans if a - 1e-2 / L < t < b + 1e-2 / L)
                if near > 2 or np.linalg.norm(P - Z, axis=1).min() < 3e-2:
                    raise Skip
                if dim == 3:
                    for q in range(len(cl)):
                        for f in vtk_faces(u, q, 3):
                            for a, b in zip(f, f[1:] + f[:1]):
                                w = P[b] - P[a]
                                z = np.clip((Z - P[a]) @ w / (w @ w), 0, 1)
                                if np.linalg.norm(Z - P[a] - z * w) < 2e-2:
                                    raise Skip
    shift = rng.choice([np.zeros(3), np.array([100.0, -40.0, 7.0])]) if dim == 3 else np.zeros(3)
    m.points = np.asarray(m.points) + shift
    k = rng.int(2, 5)
    T = np.sort(np.concatenate(([0.0, 1.0], rng.uniform(0.02, 0.98, k - 2))))
    cuts = np.array([s for s, _, _ in want[1:]] + [-1.0])
    if np.abs(T[:, None] - cuts).min() * L < 2e-2 or np.diff(T).min() * L < 2e-2:
        raise Skip
    rng.note(points=m.points, cells=cl, line=(A, B), T=T, dim=dim, kind=kind)
    line = pv.lines_from_points(A + T[:, None] * (B - A) + shift)
    r = pvg.intersect_polyline(m, line)
    R = np.asarray(r.points, dtype=float) - shift
    got_c = [int(z) for z in r.cell_data["IntersectedCellIds"]]
    got_l = [int(z) for z in r.cell_data["vtkOriginalCellIds"]]
    tr = (R - A) @ (B - A) / L**2
    close(A + tr[:, None] * (B - A), R, 1e-4, "points on the line")
    close(tr[0] * L, 0.0, 1e-4, "first point")
    close(tr[-1] * L, L, 1e-4, "last point")
    need((np.diff(tr) > 0).all(), "points ordered along the line")
    need(len(R) == len(got_c) + 1 == len(got_l) + 1, "one cell and one line per segment")
    for s, _, _ in want[1:]:
        need(np.abs(tr - s).min() * L < 1e-3, f"crossing at {s} missing")
    for x, y, c, l in zip(tr[:-1], tr[1:], got_c, got_l):
        mid = 0.5 * (x + y)
        exp = [i for s, e, i in want if s <= mid <= e][0]
        need(c == exp, f"segment {x:.4f}-{y:.4f}: cell {c}, expected {exp}")
        need(T[l] - 1e-4 / L <= y <= T[l + 1] + 1e-4 / L, f"segment ending at {y:.4f}: line {l}")
    inside = [c for c in got_c if c >= 0]
    need(len(inside) == len(set(inside)), "cell crossed more than once")
