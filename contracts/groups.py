"""C08: cell groups of stacks and extrusions."""
from pvc.env import task
from .stack import S3, X, base


def setup(E, names=("A", "B"), row=False):
    """base surface of any size whose cells have groups with arbitrary distinct numbers"""
    if row:
        cx, cy = E.int("cx", lo=1), 1
        m = E.structured("base", [cx + 1, 2, 1])
    else:
        m, cx, cy = base(E, 2)
    nums = [E.int("n" + k) for k in names]
    for a in range(len(nums)):
        for b in range(a):
            E.assume(E.neg(E.eq(nums[a], nums[b])))
    cg = E.data(m, "cell", "CellGroup", "cg", kind="i", among=nums)
    m.user_dict["CellGroup"] = dict(zip(names, nums))
    return m, cx, cy, cg, dict(zip(names, nums))


def check(E, mesh, cells, at, rules):
    """rules: (name, condition on the base cell), the first that holds gives the name of the group"""
    table = mesh.user_dict["CellGroup"]
    grp = mesh.cell_data["CellGroup"]
    names = []
    for n, _ in rules:
        if n not in names:
            names.append(n)

    def resolved(n, *i):
        cond, before = False, False
        for k, c in rules:
            c = c(*i)
            if k == n:
                cond = E.either(cond, E.both(E.neg(before), c))
            before = E.either(before, c)
        return cond

    keys = list(table.keys())
    E.prove("the table has only names that can occur", all(k in names for k in keys))
    for n in names:
        if n in keys:
            E.forall(f"cells of group {n} have its number", cells, lambda *i: E.implies(resolved(n, *i), E.eq(grp[at(*i)], table[n])))
            E.prove(f"group {n} of the table is used", E.exists(cells, lambda *i: E.eq(grp[at(*i)], table[n])))
        else:
            E.forall(f"a group that is not in the table has no cell", cells, lambda *i: E.neg(resolved(n, *i)))
    for a in range(len(keys)):
        for b in range(a):
            E.prove("different names have different numbers", E.neg(E.eq(table[keys[a]], table[keys[b]])))


ALL = lambda *i: True
KINDS = {}


def kind(name):
    def deco(f):
        KINDS[name] = f
        return f
    return deco


@kind("none")
def _(E, s):
    return None, [("A", s["A"]), ("B", s["B"])]


@kind("name")
def _(E, s):
    return "g", [("g", ALL)]


@kind("base-name")
def _(E, s):
    return {"g": "A"}, [("g", s["A"]), ("B", s["B"])]


@kind("not-base-name")
def _(E, s):
    return {"g": "~A"}, [("g", lambda *i: E.neg(s["A"](*i))), ("A", s["A"])]


@kind("not-key")
def _(E, s):
    return {"~g": "A"}, [("g", lambda *i: E.neg(s["A"](*i))), ("A", s["A"])]


@kind("not-both")
def _(E, s):
    return {"~g": "~A"}, [("g", s["A"]), ("B", s["B"])]


@kind("names")
def _(E, s):
    return {"g": ["A", "B"]}, [("g", ALL)]


@kind("names-not")
def _(E, s):
    return {"g": ["~A"], "h": ["A"]}, [("h", s["A"]), ("g", ALL)]


@kind("mask")
def _(E, s):
    return {"g": s["mask"]}, [("g", s["masked"]), ("A", s["A"]), ("B", s["B"])]


@kind("not-mask")
def _(E, s):
    return {"~g": s["mask"]}, [("g", lambda *i: E.neg(s["masked"](*i))), ("A", s["A"]), ("B", s["B"])]


@kind("function")
def _(E, s):
    return {"g": lambda mesh: s["mask"]}, [("g", s["masked"]), ("A", s["A"]), ("B", s["B"])]


@kind("last-wins")
def _(E, s):
    return {"g": s["mask"], "h": "A"}, [("h", s["A"]), ("g", s["masked"]), ("B", s["B"])]


@kind("last-wins-swapped")
def _(E, s):
    return {"h": "A", "g": s["mask"]}, [("g", s["masked"]), ("h", s["A"]), ("B", s["B"])]


@kind("base-reused")
def _(E, s):
    return {"B": s["mask"]}, [("B", s["masked"]), ("A", s["A"]), ("B", s["B"])]


@kind("swapped-names")
def _(E, s):
    return {"B": "A", "A": "B"}, [("B", s["A"]), ("A", s["B"])]


@kind("ignored")
def _(E, s):
    s["opts"] = dict(ignore_groups=["A"])
    return None, [("B", s["B"]), ("default", ALL)]


@kind("ignored-default")
def _(E, s):
    s["opts"] = dict(ignore_groups=["A"], default_group="D")
    return {"g": s["mask"]}, [("g", s["masked"]), ("B", s["B"]), ("D", ALL)]


@kind("indices")
def _(E, s):
    p = E.int("p", lo=1)
    ids = E.arr("ids", [p], kind="i")
    E.assume_all([p], lambda q: E.both(E.le(0, ids[q]), E.le(ids[q], s["size"] - 1)))
    chosen = lambda i, j: E.exists([p], lambda q: E.eq(ids[q], E.value(s["at"](i, j))))
    return {"g": ids}, [("g", chosen), ("A", s["A"]), ("B", s["B"])]


def mk(k, builder):
    @task("C08", f"{builder}-{k}", ["core._base.MeshBase._initialize_group_array", "core._base.MeshBase._clean"], secs=220, n_conc=20, branch_ms=300)
    def t(E):
        m, cx, cy, cg, nums = setup(E, row=k == "indices")
        c2 = [cx, cy, 1]
        at = lambda i, j: E.lin((i, j, 0), c2)
        s = {n: (lambda i, j, v=v: E.eq(cg[at(i, j)], v)) for n, v in nums.items()}
        s["mask"] = E.arr("mask", [cx * cy], kind="b")
        s["masked"] = lambda i, j: s["mask"][at(i, j)]
        s["opts"], s["size"], s["at"] = {}, cx * cy, at
        f = E.func("f0")
        group, rules = KINDS[k](E, s)
        E.ready()
        if builder == "stack":
            st = E.fn(S3)(m, **s["opts"])
            st.add(f)
            st.add(1.0, group=group)
        else:
            st = E.fn(X)(m, **s["opts"])
            st.add([0.0, 0.0, 1.0], group=group)
        mesh = st.generate_mesh()
        check(E, mesh, [cx, cy], at, rules)
        E.unchanged("inputs unchanged")


for k in KINDS:
    mk(k, "stack")
for k in ("none", "mask", "names", "ignored-default"):
    mk(k, "extrude")


@task("C08", "stack-two-items", ["core._base.MeshBase._initialize_group_array", "core._base.MeshBase._clean"], secs=220, n_conc=20, branch_ms=300)
def two(E):
    """the items of a stack share one table"""
    m, cx, cy, cg, nums = setup(E, row=True)
    at2 = lambda i, j: E.lin((i, j, 0), [cx, cy, 1])
    f = E.func("f0")
    E.ready()
    st = E.fn(S3)(m)
    st.add(f)
    st.add(1.0, group={"B": "A", "g": "B"})
    st.add(1.0, group="h")
    mesh = st.generate_mesh()
    isA, isB = (lambda i, j, k, v=v: E.eq(cg[at2(i, j)], v) for v in nums.values())
    rules = [("B", lambda i, j, k: E.both(E.eq(k, 0), isA(i, j, k))), ("g", lambda i, j, k: E.both(E.eq(k, 0), isB(i, j, k))), ("h", ALL)]
    check(E, mesh, [cx, cy, 2], lambda i, j, k: E.lin((i, j, k), [cx, cy, 2]), rules)
    E.unchanged("inputs unchanged")


@task("C08", "invalid-mask", ["core._base.MeshBase._initialize_group_array"])
def invalid(E):
    m, cx, cy, cg, nums = setup(E)
    mask = E.arr("mask", [cx * cy])
    f = E.func("f0")
    E.ready()
    st = E.fn(S3)(m)
    st.add(f)
    st.add(1.0, group={"g": mask})
    _, e = E.attempt(lambda: st.generate_mesh())
    E.prove("a mask of real numbers raises ValueError", isinstance(e, ValueError))
    E.unchanged("inputs unchanged")
