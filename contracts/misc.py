"""C11, C13, C26, ...: utilities."""
from pvc.env import task
from .stack import base

R = "remap_categorical_data"


# ---------------------------------------------------------------- C11
def remap(E, where, names, keys, inplace):
    """names of the table, keys of the mapping: a name, or a number of the table (#name), or another number (?)"""
    cx, cy, cz = E.int("cx", lo=1), E.int("cy", lo=1), E.int("cz", lo=1)
    m = E.structured("mesh", [cx + 1, cy + 1, cz + 1])
    nums = {k: E.int("n" + k) for k in names}
    vals = list(nums.values())
    for a in range(len(vals)):
        for b in range(a):
            E.assume(E.neg(E.eq(vals[a], vals[b])))
    old = E.data(m, where, "cat", "cat", kind="i")
    other = E.data(m, where, "other", "other")
    if names:
        m.user_dict["cat"] = dict(nums)
    src, new, mapping = [], [], {}
    for q, k in enumerate(keys):
        v = nums[k.lstrip("#")] if k != "?" else E.int(f"key{q}")
        for u in src:
            E.assume(E.neg(E.eq(u, v)))
        x = E.int(f"new{q}")
        src.append(v)
        new.append(x)
        mapping[k if k in nums else v] = x
    E.ready()
    shape = [cx + 1, cy + 1, cz + 1] if where == "point" else [cx, cy, cz]
    at = lambda *i: E.lin(i, shape)
    before, P0 = E.np.array(old), E.np.array(m.points)
    out = E.fn(R)(m, "cat", mapping, preference=where, inplace=inplace)
    E.prove("returns nothing exactly if done in place", (out is None) if inplace else (out is not None))
    res = m if inplace else out
    data = res.cell_data["cat"] if where == "cell" else res.point_data["cat"]

    def image(v):
        r = v
        for s, x in reversed(list(zip(src, new))):
            r = E.ite(E.eq(v, s), x, r)
        return r

    E.forall("mapped values are replaced, all at once, and others kept", shape, lambda *i: E.eq(data[at(*i)], image(before[at(*i)])))
    oth = res.cell_data["other"] if where == "cell" else res.point_data["other"]
    E.forall("other data unchanged", shape, lambda *i: E.eq(oth[at(*i)], other[at(*i)]))
    if names:
        table = res.user_dict["cat"]
        got = list(table.keys())
        E.prove("no new names", all(k in names for k in got))
        for k in names:
            if k in got:
                E.prove("a name still denotes its elements", E.eq(table[k], image(nums[k])))
                E.prove("names of the table are used", E.exists(shape, lambda *i: E.eq(before[at(*i)], nums[k])))
            else:
                E.forall("names that are used stay", shape, lambda *i: E.neg(E.eq(before[at(*i)], nums[k])))
        for a, b in zip(got, got[1:]):
            E.prove("names in ascending number", E.le(table[a], table[b]))
    if inplace:
        dims = [cx + 1, cy + 1, cz + 1]
        E.forall("points unchanged", dims + [3], lambda i, j, k, c: E.eq(m.points[E.lin((i, j, k), dims), c], P0[E.lin((i, j, k), dims), c]))
    else:
        E.unchanged("mesh unchanged")
        if names:
            E.prove("name table of the mesh unchanged", E.both(list(m.user_dict["cat"].keys()) == list(names), *[E.eq(m.user_dict["cat"][k], nums[k]) for k in names]))


def mk_remap(where, names, keys, inplace):
    n = f"remap-{where}-{'table' + str(len(names)) if names else 'plain'}-" + "-".join(k.replace("#", "number").replace("?", "other") for k in keys) + ("-inplace" if inplace else "")

    @task("C11", n, [R], secs=90, n_conc=30, branch_ms=300)
    def t(E):
        remap(E, where, names, keys, inplace)


for wh in ("cell", "point"):
    mk_remap(wh, (), ("?",), False)
    mk_remap(wh, (), ("?", "?"), wh == "point")
    mk_remap(wh, ("A", "B"), ("A",), False)
    mk_remap(wh, ("A", "B"), ("A", "B"), wh == "cell")
    mk_remap(wh, ("A", "B"), ("#A", "B"), False)
mk_remap("cell", ("A", "B"), ("#B", "?"), False)
mk_remap("cell", (), ("?", "?", "?"), False)
mk_remap("cell", ("A", "B", "C"), ("B", "#C"), False)


@task("C11", "remap-invalid", [R])
def remap_invalid(E):
    cx, cy = E.int("cx", lo=1), E.int("cy", lo=1)
    m = E.structured("mesh", [cx + 1, cy + 1, 1])
    E.data(m, "cell", "cat", "cat", kind="i")
    E.data(m, "cell", "real", "real")
    m.user_dict["cat"] = {"A": 0}
    E.ready()
    x = E.int("x")
    for inplace in (False, True):
        for what, call in (("unknown name", lambda: E.fn(R)(m, "cat", {"B": x}, inplace=inplace)), ("data that are not integers", lambda: E.fn(R)(m, "real", {1: x}, inplace=inplace)),
                           ("unknown preference", lambda: E.fn(R)(m, "cat", {"A": x}, preference="face", inplace=inplace))):
            _, e = E.attempt(call)
            E.prove(f"{what}: ValueError", isinstance(e, ValueError))
    E.unchanged("mesh unchanged")
    E.prove("name table unchanged", E.both(list(m.user_dict["cat"].keys()) == ["A"], E.eq(m.user_dict["cat"]["A"], 0)))


# ---------------------------------------------------------------- C31
def mk_polygon(dim, closed, named):
    @task("C31", f"polygon-{dim}d" + ("-closed" if closed else "") + ("-named" if named else ""), ["Polygon"], secs=60)
    def t(E):
        n = E.int("n", lo=3)
        p = E.arr("shell", [n, dim])
        if closed:  # the last point repeats the first
            E.tie("shell", [dim], lambda c: (n - 1, c), lambda c: p[0, c])
        else:
            E.assume(E.either(*[E.neg(E.eq(p[n - 1, c], p[0, c])) for c in range(dim)]))
        E.ready()
        mesh = E.fn("Polygon")(p, celltype="polygon") if named else E.fn("Polygon")(p)
        m = n - 1 if closed else n
        E.shape("one point per vertex", mesh.points, [m, 3])
        for c in range(3):
            E.forall(f"points in order, coordinate {c}", [m], lambda i: E.eq(mesh.points[i, c], p[i, c] if c < dim else 0.0, 1e-5))
        E.prove("a single polygon", E.both(E.eq(mesh.n_cells, 1), E.eq(mesh.celltypes[0], 7)))
        E.shape("cell of all points", mesh.cells, [m + 1])
        E.prove("size of the cell", E.eq(mesh.cells[0], m))
        E.forall("vertices in order", [m], lambda i: E.eq(mesh.cells[i + 1], i))
        E.unchanged("points unchanged")


for di in (2, 3):
    for cl in (False, True):
        mk_polygon(di, cl, di == 3)


@task("C31", "polygon-invalid", ["Polygon"])
def polygon_invalid(E):
    n, k = E.int("n", lo=3), E.int("k", lo=3)
    p, h = E.arr("shell", [n, 3]), E.arr("hole", [k, 3])
    E.ready()
    _, e = E.attempt(lambda: E.fn("Polygon")(p, holes=[h], celltype="polygon"))
    E.prove("single polygon with a hole raises ValueError", isinstance(e, ValueError))
    _, e = E.attempt(lambda: E.fn("Polygon")(p, celltype="hexagon"))
    E.prove("unknown cell type raises ValueError", isinstance(e, ValueError))
    _, e = E.attempt(lambda: E.fn("Polygon")(p, holes=[h], celltype="pentagon"))
    E.prove("unknown cell type with holes raises ValueError", isinstance(e, ValueError))
    E.unchanged("points unchanged")
