"""C10: merging meshes of any kind."""
from pvc.env import task

M = "MeshMerge"
KINDS = {"triangles": (5, 3), "quads": (9, 4), "hexahedra": (12, 8), "wedges": (13, 6)}
NOTE = ["pyvista.merge gives the cells of all meshes, one mesh after the other, with the data they share", "clean() keeps the cells, their order and their data, points closer than the tolerance apart"]


def grouped(E, g, kind, names):
    """a mesh of cells of one type; its groups have arbitrary distinct numbers"""
    ct, w = KINDS[kind]
    p, n = E.int(f"p{g}", lo=1), E.int(f"n{g}", lo=1)
    m = E.ugrid(f"m{g}", p, n, ct, w)
    m.cell_data["part"] = E.np.full(n, g)
    nums = {k: E.int(f"{k}{g}") for k in names}
    v = list(nums.values())
    for a in range(len(v)):
        for b in range(a):
            E.assume(E.neg(E.eq(v[a], v[b])))
    cg = None
    if names:
        cg = E.data(m, "cell", "CellGroup", f"cg{g}", kind="i", among=v)
        m.user_dict["CellGroup"] = dict(nums)
    return m, n, w, ct, cg, nums


def merging(kinds, names, groups, default=None, again=False):
    def body(E):
        parts = [grouped(E, g, k, names[g]) for g, k in enumerate(kinds)]
        P = [p[0].points.copy() if not E.sym else p[0].points for p in parts]
        C = [E.conn(p[0]) for p in parts]
        E.ready()
        x = E.fn(M)(default) if default else E.fn(M)()
        for p, group in zip(parts, groups):
            E.prove("add returns the builder", x.add(p[0], group=group) is x)
        if again:
            x.generate_mesh()
        out = x.generate_mesh()
        table = out.user_dict["CellGroup"]
        keys = list(table.keys())
        total = 0
        for g, (m, n, w, ct, cg, nums) in enumerate(parts):
            what = f"mesh {g + 1}: "
            b = E.block(what + "its cells", out, "part", g, 1, n, w)
            E.forall(what + "their types", [n], lambda i: E.eq(b.celltype(0, i), ct))
            E.forall(what + "their corners", [n, w], lambda i, v: E.both(E.eq(b.width(0, i), w), *[E.eq(b.vertex(0, i, v)[c], P[g][C[g][i, v], c], 1e-5) for c in range(3)]))
            for k, num in (nums or {groups[g] or default or "default": None}).items():
                if k in keys:
                    E.forall(what + f"their group {k}", [n], lambda i: E.implies(True if num is None else E.eq(cg[i], num), E.eq(b.data("CellGroup", 0, i), table[k])))
                else:
                    E.forall(what + f"their group {k}", [n], lambda i: False if num is None else E.neg(E.eq(cg[i], num)))
            total = total + n
        E.prove("no other cells", E.eq(out.n_cells, total))
        possible = {k for p, g in zip(parts, groups) for k in (p[5] or [g or default or "default"])}
        E.prove("no other groups", set(keys) <= possible)
        for a in range(len(keys)):
            for c in range(a):
                E.prove("different names have different numbers", E.neg(E.eq(table[keys[a]], table[keys[c]])))
        E.unchanged("meshes unchanged")

    return body


def mk(name, *a, **k):
    task("C10", name, [M + ".add", M + ".generate_mesh"], secs=60, assumes=NOTE)(merging(*a, **k))


mk("one", ["triangles"], ["AB"], [None])
mk("two-plain", ["triangles", "quads"], ["", ""], ["X", "Y"])
mk("two-same-group", ["quads", "triangles"], ["", ""], ["X", "X"])
mk("two-default", ["triangles", "triangles"], ["", ""], [None, "Y"], "D")
mk("two-tables", ["quads", "hexahedra"], ["AB", "BA"], [None, None])
mk("two-tables-again", ["quads", "quads"], ["AB", "BC"], [None, None], again=True)
mk("two-mixed", ["triangles", "wedges"], ["AB", ""], ["Z", "B"])
mk("three", ["triangles", "quads", "hexahedra"], ["A", "B", ""], [None, None, "A"])
