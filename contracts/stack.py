"""C05-C08, C29: stacks and extrusions."""
from pvc.env import task
from .lines import resolution
from .volumes import at3

X = "MeshExtrude"
S3 = "MeshStack3D"


def base(E, axis, name="base"):
    """structured surface of any size, flat along the axis"""
    cx, cy = E.int("cx", lo=1), E.int("cy", lo=1)
    return E.structured(name, at3(axis, cx + 1, cy + 1, 1)), cx, cy


# ---------------------------------------------------------------- C29
def extrusion(E, scale, angle, default, second):
    m, cx, cy = base(E, 2)
    s = E.real("scale") if scale else None
    a = E.real("angle") if angle else None
    x = E.fn(X)(m, scale=s, angle=a) if default else E.fn(X)(m)
    v = E.arr("vector", [3])
    E.assume(E.neg(E.both(*[E.eq(v[c], 0) for c in range(3)])))
    dims = [cx + 1, cy + 1, 1]
    sides = [cx + 1, cy + 1]
    at = lambda i, j: E.lin((i, j, 0), dims)
    E.ready()
    if second:  # by an arbitrary vector; the surface before is arbitrary in either case
        w = E.arr("before", [3])
        E.assume(E.neg(E.both(*[E.eq(w[c], 0) for c in range(3)])))
        x.add(w)
    count = E.length(x.items)
    prev = x.items[-1].mesh
    P = prev.points
    old = E.np.array(P)
    moved = prev.translate(v)
    center = moved.center
    out = x.add(v) if default else x.add(v, scale=s, angle=a)
    E.prove("add returns the builder", out is x)
    E.prove("one item more", E.eq(E.length(x.items), count + 1))
    E.prove("the earlier item stays", x.items[-2].mesh is prev)
    E.forall("earlier surface unchanged", [*sides, 3], lambda i, j, c: E.eq(prev.points[at(i, j), c], old[at(i, j), c]))
    new = x.items[-1].mesh
    Q = new.points

    def scaled(k, c):
        p = old[k, c] + v[c]
        return (p - center[c]) * s + center[c] if s is not None else p

    if angle:
        # about the center of the scaled surface, which scaling leaves in place
        q = moved.copy()
        if s is not None:
            q.points = (q.points - E.np.array(list(center))) * s + E.np.array(list(center))
        c2 = q.center
        for c in range(3):
            E.forall(f"points are translated, scaled and rotated, coordinate {c}", sides,
                     lambda i, j: E.eq(Q[at(i, j), c], E.rotated([v[0], v[1], v[2]], a, c2, [scaled(at(i, j), d) for d in range(3)], c), 1e-4))
    else:
        for c in range(3):
            E.forall(f"points are translated and scaled, coordinate {c}", sides, lambda i, j: E.eq(Q[at(i, j), c], scaled(at(i, j), c), 1e-4))
    E.dimensions("topology unchanged", new, [cx + 1, cy + 1, 1])
    E.prove("a new mesh", new is not prev)
    E.unchanged("base and earlier surfaces unchanged")


def mk_ex(scale, angle, default, second):
    n = "extrude" + ("-scale" if scale else "") + ("-angle" if angle else "") + ("-default" if default else "") + ("-again" if second else "")

    @task("C29", n, [X + ".add"], secs=90)
    def t(E):
        extrusion(E, scale, angle, default, second)


for sc in (False, True):
    for an in (False, True):
        for de in (False, True):
            mk_ex(sc, an, de, False)
            if not de:
                mk_ex(sc, an, de, True)


@task("C29", "extrude-invalid", [X + ".add", X + ".__init__"])
def extrude_invalid(E):
    m, cx, cy = base(E, 2)
    x = E.fn(X)(m)
    n = E.int("n", lo=1)
    v = E.arr("vector", [n])
    _, e = E.attempt(lambda: x.add(v))
    E.prove("ValueError exactly if the vector has not three components", E.iff(E.neg(E.eq(n, 3)), isinstance(e, ValueError)))
    w = E.arr("w", [n, 3])
    _, e = E.attempt(lambda: x.add(w))
    E.prove("two-dimensional vector raises ValueError", isinstance(e, ValueError))
    cz = E.int("cz", lo=1)
    vol = E.structured("vol", [cx + 1, cy + 1, cz + 1])
    _, e = E.attempt(lambda: E.fn(X)(vol))
    E.prove("volume raises ValueError", isinstance(e, ValueError))
    line = E.structured("line", [cx + 1, 1, 1])
    _, e = E.attempt(lambda: E.fn(X)(line))
    E.prove("line raises ValueError", isinstance(e, ValueError))


# ---------------------------------------------------------------- C06
def stack3(E, axis):
    m, cx, cy = base(E, axis)
    up = E.bool("bottom_up")
    return E.fn(S3)(m, axis=axis, bottom_up=up), m, cx, cy, up


def same_but(E, new, old, axis, sides, value):
    """the coordinate along the axis is value(k), the others and the topology are those of old"""
    Q, P = new.points, old.points
    at = lambda i, j: E.lin(at3(axis, i, j, 0), at3(axis, *sides, 1))
    for c in range(3):
        if c == axis:
            E.forall("coordinate along the axis", sides, lambda i, j: E.eq(Q[at(i, j), c], value(at(i, j)), 1e-5))
        else:
            E.forall(f"other coordinates unchanged, {c}", sides, lambda i, j: E.eq(Q[at(i, j), c], P[at(i, j), c], 1e-5))
    E.prove("the surface is not the base nor an earlier one", new is not old)


def options(E):
    return dict(priority=E.int("priority"), thickness=E.real("thickness"), resolution=E.int("resolution", lo=1), method="log", group="A")


def stored(E, item, opt):
    E.prove("options are stored with the item", E.both(E.eq(item.priority, opt["priority"]), E.eq(item.thickness, opt["thickness"]),
            E.eq(item.resolution, opt["resolution"]), item.method == opt["method"], item.group == opt["group"], item.transition is False))


def mk_add(axis):
    @task("C06", f"add-number-first-axis{axis}", ["core._base.MeshStackBase.add"])
    def first(E):
        st, m, cx, cy, up = stack3(E, axis)
        z = E.real("z")
        E.ready()
        opt = options(E)
        out = st.add(z, **opt)
        E.prove("add returns the builder", out is st)
        E.prove("one item", E.eq(E.length(st.items), 1))
        new = st.items[-1].mesh
        E.prove("priority is stored", E.eq(st.items[-1].priority, opt["priority"]))
        same_but(E, new, m, axis, [cx + 1, cy + 1], lambda k: z)
        E.dimensions("topology of the base", new, at3(axis, cx + 1, cy + 1, 1))
        E.unchanged("base unchanged")

    @task("C06", f"add-number-next-axis{axis}", ["core._base.MeshStackBase.add"])
    def later(E):
        st, m, cx, cy, up = stack3(E, axis)
        E.ready()
        st.add(E.func("f"))  # any surface before
        prev = st.items[-1].mesh
        P = prev.points
        old = E.np.array(P)
        z = E.real("z")
        opt = options(E)
        st.add(z, **opt)
        E.prove("one item more", E.eq(E.length(st.items), 2))
        E.prove("the earlier item stays", st.items[0].mesh is prev)
        new = st.items[-1].mesh
        stored(E, st.items[-1], opt)
        h = E.ite(E.le(0, z), z, -z)
        same_but(E, new, prev, axis, [cx + 1, cy + 1], lambda k: old[k, axis] + E.ite(up, h, -h))
        at = lambda i, j: E.lin(at3(axis, i, j, 0), at3(axis, cx + 1, cy + 1, 1))
        E.forall("earlier surface unchanged", [cx + 1, cy + 1, 3], lambda i, j, c: E.eq(prev.points[at(i, j), c], old[at(i, j), c]))
        E.dimensions("topology of the base", new, at3(axis, cx + 1, cy + 1, 1))
        E.unchanged("base and earlier surfaces unchanged")

    @task("C06", f"add-function-axis{axis}", ["core._base.MeshStackBase.add"])
    def function(E):
        st, m, cx, cy, up = stack3(E, axis)
        P = m.points
        f = E.func("f")
        E.ready()
        if E.bool("later"):
            st.add(E.func("g"))
        opt = options(E)
        n0 = E.length(st.items)
        st.add(f, **opt)
        E.prove("one item more", E.eq(E.length(st.items), n0 + 1))
        new = st.items[-1].mesh
        same_but(E, new, m, axis, [cx + 1, cy + 1], lambda k: f.value(P[k, 0], P[k, 1], P[k, 2]))
        E.dimensions("topology of the base", new, at3(axis, cx + 1, cy + 1, 1))
        E.unchanged("base and earlier surfaces unchanged")


    @task("C06", f"add-plane-axis{axis}", ["core.stack.MeshStack3D.add_plane", "core._base.MeshStackBase.add"],
          assumes=["scipy's Rotation applies a linear map that depends on the rotation vector alone"])
    def plane(E):
        st, m, cx, cy, up = stack3(E, axis)
        P = m.points
        angles, point = E.vec("angles"), E.vec("point")
        E.ready()
        if E.bool("later"):
            st.add(E.func("g"))
        opt = options(E)
        n0 = E.length(st.items)
        out = st.add_plane(angles, point, **opt)
        E.prove("add returns the builder", out is st)
        E.prove("one item more", E.eq(E.length(st.items), n0 + 1))
        new = st.items[-1].mesh
        R = E.turning([0 if c == axis else angles[c] for c in range(3)])
        # planar, through the point, inclined by the rotation
        same_but(E, new, m, axis, [cx + 1, cy + 1], lambda k: point[axis] + sum(R[c][axis] * (P[k, c] - point[c]) for c in range(3) if c != axis))
        E.dimensions("topology of the base", new, at3(axis, cx + 1, cy + 1, 1))
        E.unchanged("base, earlier surfaces and arguments unchanged")


for ax in range(3):
    mk_add(ax)


@task("C06", "add-invalid", ["core._base.MeshStackBase.add", "core._base.MeshStackBase.__init__"])
def add_invalid(E):
    m, cx, cy = base(E, 2)
    st = E.fn(S3)(m)
    n = E.int("n", lo=1)
    a = E.arr("a", [n])
    _, e = E.attempt(lambda: st.add(a))
    E.prove("one-dimensional array raises ValueError", isinstance(e, ValueError))
    b = E.arr("b", [n, 2])
    _, e = E.attempt(lambda: st.add(b))
    E.prove("array of two columns raises ValueError", isinstance(e, ValueError))
    E.prove("nothing added", E.eq(E.length(st.items), 0))
    for ax in (0, 1):
        _, e = E.attempt(lambda: E.fn(S3)(m, axis=ax))
        E.prove("axis the base is not flat along raises ValueError", isinstance(e, ValueError))
    _, e = E.attempt(lambda: E.fn(S3)(m, axis=3))
    E.prove("unknown axis raises ValueError", isinstance(e, ValueError))
    vol = E.structured("vol", [cx + 1, cy + 1, E.int("cz", lo=1) + 1])
    _, e = E.attempt(lambda: E.fn(S3)(vol))
    E.prove("volume raises ValueError", isinstance(e, ValueError))


# ---------------------------------------------------------------- C05, C07
def spacing(E, name, kind):
    """resolution argument with positions from 0 to 1: (argument, t, number of layers)"""
    if kind in ("log", "log_r"):
        n, t, _ = resolution(E, name, kind)
        return n, t, n
    if kind == "none":
        return None, (lambda k: k), 1
    if kind == "int":
        n = E.int(name, lo=1)
        return n, (lambda k: k / n), n
    m = E.int(name + ".m", lo=1)
    a = E.ascending(name + ".t", m, first=0.0, last=1.0)
    return a, (lambda k: a[k]), m


def cut(E, a, b, lower, thickness, up):
    """coordinates of two consecutive surfaces at a point after the cut (lower: the later one has the lower priority)"""
    s = E.ite(up, 1.0, -1.0)
    gap = s * (b - a) - thickness
    near = E.lt0(gap)
    return E.ite(E.both(near, E.neg(lower)), a + s * gap, a), E.ite(E.both(near, lower), b - s * gap, b)


def generated(E, axis, items, what, up=None, lower=None, kinds=None):
    """up, lower: fix the direction and which of the surfaces have lower priority than the one before"""
    m, cx, cy = base(E, axis)
    up = E.bool("bottom_up") if up is None else up
    own = E.data(m, "cell", "own", "own") if what == "ids" else None
    st = E.fn(S3)(m, axis=axis, bottom_up=up)
    d2, c2 = at3(axis, cx + 1, cy + 1, 1), at3(axis, cx, cy, 1)
    at2 = lambda i, j: E.lin(at3(axis, i, j, 0), d2)
    P0 = m.points
    f0 = E.func("f0")
    height, opts, pr, th = [lambda i, j: f0.value(*[P0[at2(i, j), c] for c in range(3)])], [], [], [None]
    for q in range(items):
        pr.append(E.int(f"priority{q}") if what == "cut" else 0)
        if q and lower is not None:
            E.assume(E.lt0(pr[q] - pr[q - 1]) if lower[q - 1] else E.le(pr[q - 1], pr[q]))
    E.ready()
    st.add(f0, priority=pr[0])
    for q in range(1, items):
        if what == "cut":
            res, t, n = None, (lambda k: k), 1
            f = E.func(f"f{q}")
            th.append(E.real(f"thickness{q}", lo=0.0))
            height.append(lambda i, j, f=f: f.value(*[P0[at2(i, j), c] for c in range(3)]))
            arg = f
        else:
            # a number: the surface follows in the stacking direction, nothing is cut
            res, t, n = spacing(E, f"resolution{q}", kinds[q - 1])
            arg = E.real(f"h{q}", lo=0.0)
            th.append(0.0)
            step = arg if up else -arg
            z = lambda i, j, b=height[-1], h=step: b(i, j) + h
            z.step = step
            height.append(z)
        opts.append((t, n))
        st.add(arg, resolution=res, priority=pr[q], thickness=th[q], group=f"g{q}",
               method=kinds[q - 1] if kinds and kinds[q - 1].startswith("log") else None)
    mesh = st.generate_mesh()
    total = 0
    for t, n in opts:
        total = total + n
    dims, cd = at3(axis, cx + 1, cy + 1, total + 1), at3(axis, cx, cy, total)
    E.dimensions("one level of points per layer and surface", mesh, dims)
    P = mesh.points
    other = [c for c in range(3) if c != axis]

    def coords(i, j):
        z = [h(i, j) for h in height]
        if what == "cut":
            for q in range(1, items):
                z[q - 1], z[q] = cut(E, z[q - 1], z[q], E.lt0(pr[q] - pr[q - 1]), th[q], up)
        return z

    first = 0
    for q, (t, n) in enumerate(opts):
        at = lambda i, j, k: E.lin(at3(axis, i, j, first + k), dims)
        cat = lambda i, j, k: E.lin(at3(axis, i, j, first + k), cd)
        for c in other:
            E.forall(f"other coordinates are those of the base, {c}", [cx + 1, cy + 1, n + 1], lambda i, j, k: E.eq(P[at(i, j, k), c], P0[at2(i, j), c], 1e-5))
        if what == "cut":
            E.forall("only surfaces nearer than the thickness are moved, along the axis, to that distance", [cx + 1, cy + 1],
                     lambda i, j: E.both(*[E.eq(P[at(i, j, k), axis], coords(i, j)[q + k], 1e-5) for k in (0, 1)]))
        else:
            for k in (0, n):
                E.forall("first and last level of an item are the surfaces added", [cx + 1, cy + 1],
                         lambda i, j: E.eq(P[at(i, j, k), axis], coords(i, j)[q + (k is n)], 1e-5))
            h = height[q + 1].step
            E.forall("layers between consecutive surfaces as subdivided", [cx + 1, cy + 1, n + 1],
                     lambda i, j, k: E.eq(P[at(i, j, k), axis], coords(i, j)[q] + t(k) * h, 1e-5))
            col, lay, it, grp = (mesh.cell_data[k] for k in ("ColumnId", "LayerId", "StackItem", "CellGroup"))
            E.forall("column number is that of the base cell", [cx, cy, n], lambda i, j, k: E.eq(col[cat(i, j, k)], E.value(E.lin(at3(axis, i, j, 0), c2))))
            E.forall("layers are counted through all items", [cx, cy, n], lambda i, j, k: E.eq(lay[cat(i, j, k)], first + k))
            E.forall("item number", [cx, cy, n], lambda i, j, k: E.eq(it[cat(i, j, k)], q))
            E.forall("other data of the base cell are kept", [cx, cy, n], lambda i, j, k: E.eq(mesh.cell_data["own"][cat(i, j, k)], own[E.lin(at3(axis, i, j, 0), c2)]))
            E.prove("the group name is in the table", f"g{q + 1}" in list(mesh.user_dict["CellGroup"].keys()))
            number = mesh.user_dict["CellGroup"][f"g{q + 1}"]
            E.forall("group of the item", [cx, cy, n], lambda i, j, k: E.eq(grp[cat(i, j, k)], number))
        first = first + n
    E.unchanged("base unchanged")


NOTE = "C05, C07: stacks of 2 and 3 surfaces of any size (the number of surfaces is bounded, sizes and subdivisions are not)"


def mk_gen(axis, items, what, up=None, lower=None, kinds=()):
    n = f"generate-{what}-{items}-axis{axis}" + ("" if up is None else "-up" if up else "-down")
    n += "".join("-lower" if k else "-higher" for k in lower or ()) + "".join("-" + k for k in kinds)

    @task("C05" if what == "ids" else "C07", n, ["core._base.MeshStackBase._generate_mesh"], secs=150, n_conc=20, assumes=[NOTE])
    def t(E):
        generated(E, axis, items, what, up, lower, kinds)


for ax in range(3):
    mk_gen(ax, 2, "cut")
for ax, up, ki in ((2, True, "int"), (2, False, "array"), (1, True, "array"), (1, False, "int"), (0, True, "int"), (0, False, "array")):
    mk_gen(ax, 2, "ids", up, kinds=(ki,))
for ax, up in ((2, True), (1, False), (0, True)):
    mk_gen(ax, 3, "ids", up, kinds=("int", "int"))
mk_gen(2, 2, "ids", True, kinds=("log",))
mk_gen(1, 3, "ids", True, kinds=("none", "log_r"))
mk_gen(2, 3, "ids", False, kinds=("none", "array"))
for up in (True, False):
    for lo in ((False, False), (False, True), (True, False), (True, True)):
        mk_gen(2 if up else 0, 3, "cut", up, lo)
