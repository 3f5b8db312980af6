"""VTK output: the writers are interpreted on a model of the VTK classes they use (driver/stub/vtk), with symbolic positions and values."""
import db as D
import interp as I
import intrinsics as N
import tensors as T
import strings as STR
from poly import Poly, ZERO
from props import geometry as G
from props import elements as E
from props import mesh as ME
from props import assembly as A
import streams as STM
from props.assembly import run

CLANG_ONLY = tuple(E.CLANG_ONLY) + ("alias template",)
TYPE = {1: 3, 2: 5, 3: 10}
PC = "mito::geometry::PointCloud::"


def load(src="vtk.cc"):
    db = D.extract(src, G.ROOTS)
    db.check_diags(CLANG_ONLY)
    return db


def text(v):
    v = T.L(v)
    if isinstance(v, I.Ptr):
        v = T.L(v.b)
    if isinstance(v, I.Str):
        return v.s
    if isinstance(v, I.Arr) and v.cls == "std::string":
        return "".join(chr(int(T.L(x).cval())) for x in v.e)
    raise I.Undecided(f"a string with unknown contents: {v!r}"[:200])


def seq_of(v):
    """the elements a pointer or an iterator is at, from there on"""
    v = T.L(v)
    if isinstance(v, I.Ptr):
        o = v.o
        if not o.is_const():
            raise I.Undecided("a pointer at a symbolic offset")
        b = v.b
        x = T.L(b)
        if isinstance(x, I.Arr):
            return x.e[int(o.cval()):]
        if o.cval():
            raise I.Undecided("a pointer next to a number")
        return [b]
    if isinstance(v, I.It) and isinstance(v.c, I.Arr):
        p = 0 if v.p is ZERO else int(v.p.cval())
        return v.c.e[p:]
    raise I.Undecided(f"values read through {v!r}"[:200])


class Model:
    """grids, arrays and files of VTK"""

    def __init__(self, ip):
        self.ip = ip
        self.files = []
        self.procs = (1, 0)
        num = self.num

        def new(cls, **f):
            def h(ip, c):
                return I.Ptr(I.Cell(I.Obj(cls, {k: (v() if callable(v) else v) for k, v in f.items()}), cls))
            ip.over[cls + "::New"] = h
        new("vtkPoints", x=list)
        for cls, ty, n in (("vtkLine", 3, 2), ("vtkTriangle", 5, 3), ("vtkTetra", 10, 4)):
            new(cls, type=ty, ids=lambda n=n: I.Obj("vtkIdList", {"id": [None] * n}))
        new("vtkDoubleArray", name="", nc=1, v=dict, nt=None)
        new("vtkUnstructuredGrid", points=None, cells=list, arrays=list)
        new("vtkXMLUnstructuredGridWriter", name="", grid=None, pieces=None, first=None, last=None, parallel=False)
        new("vtkXMLPUnstructuredGridWriter", name="", grid=None, pieces=None, first=None, last=None, parallel=True)
        new("vtkMPIController")

        def on(name):
            def deco(h):
                def g(ip, c):
                    o = T.L(c.o)
                    if isinstance(o, I.Ptr):
                        o = T.L(o.b)
                    return h(o, *c.a)
                for n in (name if isinstance(name, tuple) else (name,)):
                    ip.over[n] = g
                return h
            return deco

        def obj(v):
            v = T.L(v)
            if isinstance(v, I.Obj) and "_p" in v.f:
                v = T.L(v.f["_p"])
            if isinstance(v, I.Ptr):
                v = T.L(v.b)
            if not isinstance(v, I.Obj):
                raise I.Undecided(f"a VTK object is expected, not {v!r}"[:200])
            return v

        @on("vtkPoints::InsertNextPoint")
        def _(o, *x):
            o.f["x"].append([ip.n(T.L(y)) for y in x])
            return Poly.const(len(o.f["x"]) - 1)
        on("vtkPoints::GetNumberOfPoints")(lambda o: Poly.const(len(o.f["x"])))
        on("vtkCell::GetPointIds")(lambda o: I.Ptr(I.Cell(o.f["ids"], "vtkIdList")))
        on("vtkCell::GetCellType")(lambda o: Poly.const(o.f["type"]))

        @on("vtkIdList::SetId")
        def _(o, i, x):
            i = num(i)
            if not 0 <= i < len(o.f["id"]):
                raise I.PathEnd("ub", f"point {i} of a cell of {len(o.f['id'])} points")
            o.f["id"][i] = num(x)
        on("vtkIdList::GetId")(lambda o, i: Poly.const(o.f["id"][num(i)]))
        on("vtkIdList::GetNumberOfIds")(lambda o: Poly.const(len(o.f["id"])))
        on("vtkDoubleArray::SetName")(lambda o, s: o.f.__setitem__("name", text(s)))
        on("vtkDoubleArray::SetNumberOfComponents")(lambda o, n: o.f.__setitem__("nc", num(n)))
        # the array is allocated here, for the number of components that it then has
        on("vtkDoubleArray::SetNumberOfTuples")(lambda o, n: (o.f.__setitem__("nt", num(n)), o.f.__setitem__("size", num(n) * o.f["nc"]))[1])

        @on("vtkDoubleArray::SetTuple")
        def _(o, i, p):
            i = num(i)
            if o.f["nt"] is not None and (i + 1) * o.f["nc"] > o.f["size"]:
                raise I.PathEnd("ub", f"tuple {i} of {o.f['nc']} numbers, beyond the {o.f['size']} allocated")
            if o.f["nt"] is None or not 0 <= i < o.f["nt"]:
                raise I.PathEnd("ub", f"tuple {i} of an array of {o.f['nt']} tuples")
            s = seq_of(p)
            if len(s) < o.f["nc"]:
                raise I.PathEnd("ub", f"{o.f['nc']} components of a tuple are read from {len(s)} numbers")
            o.f["v"][i] = [ip.n(T.L(x)) for x in s[:o.f["nc"]]]

        @on("vtkPointData::AddArray")
        def _(o, a):
            o.f["grid"].f["arrays"].append(obj(a))
            return Poly.const(len(o.f["grid"].f["arrays"]) - 1)
        on("vtkUnstructuredGrid::SetPoints")(lambda o, p: o.f.__setitem__("points", obj(p)))
        on("vtkUnstructuredGrid::GetNumberOfPoints")(lambda o: Poly.const(len(o.f["points"].f["x"]) if o.f["points"] else 0))
        on("vtkUnstructuredGrid::GetPointData")(lambda o: I.Ptr(I.Cell(I.Obj("vtkPointData", {"grid": o}), "vtkPointData")))

        @on("vtkUnstructuredGrid::InsertNextCell")
        def _(o, ty, ids):
            o.f["cells"].append((num(ty), list(obj(ids).f["id"])))
            return Poly.const(len(o.f["cells"]) - 1)
        w = "vtkXMLUnstructuredGridWriter::"
        on(w + "SetFileName")(lambda o, s: o.f.__setitem__("name", text(s)))
        on(w + "SetInputData")(lambda o, g: o.f.__setitem__("grid", obj(g)))

        @on(w + "Write")
        def _(o):
            g = o.f["grid"]
            if g is None:
                raise I.PathEnd("ub", "a writer without a grid writes")
            self.files.append(dict(name=o.f["name"], parallel=o.f["parallel"], pieces=o.f["pieces"], first=o.f["first"], last=o.f["last"],
                                   points=[list(x) for x in (g.f["points"].f["x"] if g.f["points"] else [])], cells=[(t, list(c)) for t, c in g.f["cells"]],
                                   arrays=[(a.f["name"], a.f["nc"], a.f["nt"], dict(a.f["v"])) for a in g.f["arrays"]]))
            return Poly.const(1)
        p = "vtkXMLPUnstructuredGridWriter::"
        on(p + "SetNumberOfPieces")(lambda o, n: o.f.__setitem__("pieces", num(n)))
        on(p + "SetStartPiece")(lambda o, n: o.f.__setitem__("first", num(n)))
        on(p + "SetEndPiece")(lambda o, n: o.f.__setitem__("last", num(n)))
        for x in ("std::to_string", "std::__cxx11::to_string"):
            ip.over[x] = lambda ip, c: I.Str(str(num(c.a[0])))
        m = "vtkMPIController::"
        for x in ("Initialize", "SetGlobalController", "Finalize"):
            ip.over[m + x] = lambda ip, c: None
        ip.over[m + "GetNumberOfProcesses"] = lambda ip, c: Poly.const(self.procs[0])
        ip.over[m + "GetLocalProcessId"] = lambda ip, c: Poly.const(self.procs[1])

    def num(self, v):
        p = self.ip.facts.norm(self.ip.n(T.L(v)))
        if not p.is_const():
            raise I.Undecided("a symbolic number where a known one is needed")
        return int(p.cval())

    def one_file(self, parallel, base="out"):
        """(the grid written, None) or (None, what is wrong)"""
        k, i = self.procs
        want = [base + ".vtu"] if not parallel else [f"{base}_{i}.vtu", base + ".pvtu"]
        names = [f["name"] for f in self.files]
        if sorted(names) != sorted(want):
            return None, f"the files written are {names}, not {want}"
        if parallel:
            p = next(f for f in self.files if f["name"] == base + ".pvtu")
            if not p["parallel"] or (p["pieces"], p["first"], p["last"]) != (k, i, i):
                return None, f"process {i} of {k} writes the pieces {p['first']} to {p['last']} of {p['pieces']}"
            q = next(f for f in self.files if f is not p)
            if q["parallel"]:
                return None, "the file of a process is not written as one"
            if p["points"] != q["points"] or p["cells"] != q["cells"] or p["arrays"] != q["arrays"]:
                return None, "the two files are of different grids"
            return q, None
        if self.files[0]["parallel"]:
            return None, "a serial file is written in pieces"
        return self.files[0], None


def judge_cells(f, n, at, want):
    """want: the positions of the nodes of each cell, in order"""
    for t, c in f["cells"]:
        if t != TYPE[n]:
            return f"a cell of the VTK type {t}"
        if any(i is None or not 0 <= i < len(at) for i in c):
            return f"a cell on the points {c} of {len(at)}"
    got = [[at[i] for i in c] for _, c in f["cells"]]
    return None if got == want else f"the cells written are at {got}"


def positions(f, n):
    out = []
    for x in f["points"]:
        if any(not p.is_const() or p.cval() for p in x[n:]):
            return None, f"a point of dimension {n} is written at {x}"
        out.append(tuple(repr(p) for p in x[:n]))
    return out, None


def judge_arrays(f, want):
    """want: [(name, one tuple of values for each point)]"""
    got = [(a[0], a[1]) for a in f["arrays"]]
    if got != [(k, len(v[0])) for k, v in want]:
        return f"the fields written are {got} (name, components)"
    for (name, nc, nt, v), (_, w) in zip(f["arrays"], want):
        if nt != len(w) or sorted(v) != list(range(nt)):
            return f"the field {name} has {nt} values, of which {len(v)} are set, for {len(w)} points"
        for i in range(nt):
            if any((a - b).t for a, b in zip(v[i], w[i])):
                return f"the field {name} is {v[i]} at a point where it is {w[i]}"
    return None


def o02(R):
    R.minimum = 60
    R.rule("grid", "the grid written for a mesh has a point for each node, once, at its position, and the cells of the mesh in order, each of the right type and with the points of its nodes in their order")
    R.rule("cloud", "the grid written for a cloud has each of its points once, at its position")
    R.rule("fields", "a recorded field is written under the name given, or else its own, with one tuple per point of the grid: the value of the field at the node or point that is written there")
    R.rule("files", "a serial writer writes one file, with the name given and .vtu; on k processes, process i writes its grid to the name, _i and .vtu, and takes part in the .pvtu with piece i of k alone")
    R.rule("positions", "a point given in polar or spherical coordinates is written at its Cartesian position")
    M = ME.Meshes(R, load())
    M.W.pick = 0
    ip = M.ip
    ip.decide_asserts = True
    STR.install(ip, N)
    STM.install(ip, N)
    V = Model(ip)
    st = {}

    def cloud_points(ip, c):
        return I.Arr([M.T.handle(st["pt"], M.T.resource(("p", i))) for i in range(M.T.n_points)], st["pt"], "std::vector")
    ip.over[PC + "points"] = cloud_points
    ip.over[PC + "size"] = lambda ip, c: Poly.const(M.T.n_points)
    ip.over[PC + "begin"] = lambda ip, c: I.It(st.setdefault("all", cloud_points(ip, c)), ZERO)
    ip.over[PC + "end"] = lambda ip, c: I.It(st.setdefault("all", cloud_points(ip, c)), "end")

    class X:
        ip, W = M.ip, M.W

    def cell(p):
        return I.Cell(p, "double")
    PROCS = [(0, 1, 0), (1, 1, 0), (1, 3, 0), (1, 3, 2)]
    for n in (1, 2, 3):
        kind = (n, n)
        pos = lambda k, n=n: tuple(repr(p) for p in G.names(n, f"x{k}_"))
        for nth, (what, cells) in enumerate(ME.COMPLEX[n]):
            for own in (False, True):
                for par, k, i in PROCS if nth == 0 else [PROCS[0], PROCS[1 + nth % 3]]:
                    conv = ME.CONVENTIONS[(nth + own) % 3]
                    lab = f"{['', 'segments', 'triangles', 'tetrahedra'][n]}, {what}, {'nodes of their own' if own else 'shared nodes'}, " + ("serial" if not par else f"process {i} of {k}")

                    def build():
                        V.files.clear()
                        V.procs = (k, i)
                        m = M.start(kind, *conv)
                        st.clear()
                        st["pt"] = D.strip_cvref(ip.db.t(M.fn("vk_pset")["params"][1]["t"]))
                        for j in sorted({x for c in cells for x in c}, key=lambda x: (5 * x + 2) % 7):
                            M.node(j)
                        et = D.tmpl(D.strip_cvref(ip.db.t(M.fn("ms_insert")["params"][1]["t"])))[1][0]
                        owner = {}      # the number of the node -> the node at which it is
                        for e, c in enumerate(cells):
                            if own:
                                for j in c:
                                    M.nodes[(j, e)] = M.call("ms_again", M.nodes[j])
                                    owner[(j, e)] = j
                                M.call("ms_insert", m, I.Arr([M.nodes[(j, e)] for j in c], et, "std::array"))
                            else:
                                owner.update((j, j) for j in c)
                                M.insert(m, c)
                        return m, owner
                    want = [[pos(j) for j in c] for c in cells]

                    def grid(owner):
                        f, e = V.one_file(par)
                        if e:
                            return None, None, e
                        at, e = positions(f, n)
                        if e:
                            return None, None, e
                        if sorted(at) != sorted(pos(j) for j in owner.values()):
                            return None, None, f"the points written are at {at}"
                        e = judge_cells(f, n, at, want)
                        if e:
                            return None, None, e
                        # the node that each point stands for: by the cells
                        who = {}
                        for (_, ix), c, el in zip(f["cells"], cells, range(len(cells))):
                            for q, j in zip(ix, c):
                                key = (j, el) if own else j
                                if who.setdefault(q, key) != key:
                                    return None, None, f"one point is written for the nodes {who[q]} and {key}"
                        return f, [who[q] for q in range(len(at))], None

                    def go():
                        m, owner = build()
                        M.call("vk_mesh", I.Str("out"), m, M.cs, ix=(par,))
                        return grid(owner)[2]
                    run(X, R, "grid", lab, "mito::io::vtk::MeshVTKWriter::", go)

                    def go():
                        m, owner = build()
                        s, v = M.call("vk_sfield", m), M.call("vk_vfield", m)
                        a = {key: [Poly.atom(f"s{t}")] for t, key in enumerate(owner)}
                        b = {key: [Poly.atom(f"v{t}{x}") for x in "xyz"] for t, key in enumerate(owner)}
                        for key in owner:
                            M.call("vk_set", s, M.nodes[key], *map(cell, a[key]))
                            M.call("vk_setv", v, M.nodes[key], *map(cell, b[key]))
                        M.call("vk_fields", I.Str("out"), m, M.cs, s, v, ix=(par,))
                        f, who, e = grid(owner)
                        return e or judge_arrays(f, [("scalars", [a[w] for w in who]), ("another name", [b[w] for w in who])])
                    run(X, R, "fields", lab, "mito::io::vtk::FieldVTKWriter::", go)

                    if own:
                        continue

                    def go():
                        build()
                        M.call("vk_cloud", I.Str("out"), M.T.cloud, M.cs, ix=(par,))
                        f, e = V.one_file(par)
                        if e:
                            return e
                        at, e = positions(f, n)
                        if e:
                            return e
                        if sorted(at) != sorted(pos(j) for j in sorted({x for c in cells for x in c})):
                            return f"the points written are at {at}"
                        return None if all(len(c) == 1 for _, c in f["cells"]) else "a cloud is written with cells"
                    run(X, R, "cloud", lab, "mito::io::vtk::PointCloudVTKWriter::", go)

                    def go():
                        build()
                        s, v = M.call("vk_spoint", M.T.cloud), M.call("vk_vpoint", M.T.cloud)
                        a, b = {}, {}
                        for t, h in enumerate(cloud_points(ip, None).e):
                            c = T.L(M.call("vk_at", M.cs, h))
                            p = tuple(repr(q) for q in M.W.get((n, 0), c))
                            a[p], b[p] = [Poly.atom(f"s{t}")], [Poly.atom(f"v{t}{x}") for x in "xyz"]
                            M.call("vk_pset", s, h, *map(cell, a[p]))
                            M.call("vk_psetv", v, h, *map(cell, b[p]))
                        M.call("vk_cloud_fields", I.Str("out"), M.T.cloud, M.cs, s, v, ix=(par,))
                        f, e = V.one_file(par)
                        if e:
                            return e
                        at, e = positions(f, n)
                        if e:
                            return e
                        if sorted(at) != sorted(a):
                            return f"the points written are at {at}"
                        return judge_arrays(f, [("scalars", [a[p] for p in at]), ("another name", [b[p] for p in at])])
                    run(X, R, "fields", "cloud, " + lab, "mito::io::vtk::FieldVTKWriter::", go)

    # points in other coordinates
    ring = G.Trig()
    W = M.W
    for kn in ((1, 0), (2, 0), (3, 0), (2, 1), (3, 2)):
        def go():
            def point():
                ip.analysed = set()
                p = ip.call_fn(W.by["vk_new"][0], None, [])
                ip.call_fn(W.fn("vk_point", kn), None, [W.coords(kn, "a"), I.Cell(p, "vtkSmartPointer")])
                q = T.L(p)
                q = T.L(q.f["_p"]) if isinstance(q, I.Obj) else q
                return T.L(q.b).f["x"]
            xs = W.one(point)
            R.used(ip)
            w = W.where("mito::io::vtk::insert_vtk_point")
            want = G.position(kn[1], G.names(kn[0], "a"))
            if len(xs) != 1:
                R.bad("positions", G.LABEL[kn], w, f"{len(xs)} points are written for one")
                return
            G.compare(R, "positions", G.LABEL[kn], w, ring, xs[0], want + [ZERO] * (3 - len(want)), "position")
        R.guard("positions", G.LABEL[kn], "", go)
    spaces(R)


def spaces(R):
    db = load("vtk_space.cc")
    W = A.World(db, R)
    S = A.Spaces(W)
    ip = W.ip
    ip.decide_asserts = True
    STR.install(ip, N)
    STM.install(ip, N)
    V = Model(ip)

    def fn(name, *ix):
        for f in W.by.get(name, []):
            ta = D.split_targs(f.get("ta") or "")
            if E.short(W, f) == S.el and [int(z) for z in ta[1:]] == list(ix):
                return f
        raise D.AnalysisBroken(f"no {name} for {S.el}")

    def call(name, *a, ix=()):
        return ip.call_fn(fn(name, *ix), None, list(a))
    for el, patches in A.PATCH.items():
        n = A.CELL[el]
        for nth, (pn, cells, bcs) in enumerate(patches):
            on, order = A.ORDERS[nth % 3]
            for par, k, i in [(0, 1, 0), (1, 3, 2)]:
                S.order = order
                lab = f"space of {el}, {pn}, addresses {on}, " + ("serial" if not par else f"process {i} of {k}")
                pos = lambda j: tuple(repr(p) for p in G.names(n, f"x{j}_"))
                mesh_nodes = sorted({j for c in cells for j in c})

                def build():
                    V.files.clear()
                    V.procs = (k, i)
                    S.setup(el, cells, bcs[-1])
                    return I.Obj("mito::geometry::CoordinateSystem", {})

                def grid():
                    f, e = V.one_file(par)
                    if e:
                        return None, None, e
                    at, e = positions(f, n)
                    if e:
                        return None, None, e
                    if sorted(at) != sorted(pos(j) for j in mesh_nodes):
                        return None, None, f"the points written are at {at}"
                    return f, [next(j for j in mesh_nodes if pos(j) == p) for p in at], judge_cells(f, n, at, [[pos(j) for j in c] for c in cells])

                def go():
                    cs = build()
                    call("vs_space", I.Str("out"), S.space, cs, ix=(par,))
                    return grid()[2]
                run(S, R, "grid", lab, "mito::io::vtk::NodeVTKWriter::", go)

                def go():
                    cs = build()
                    s, v = call("vs_sfield", S.space), call("vs_vfield", S.space)
                    out = I.Arr([], D.tmpl(D.strip_cvref(db.t(fn("vs_list")["params"][1]["t"])))[1][0], "std::vector")
                    call("vs_list", s, out)
                    a, b = {}, {}
                    for h in out.e:
                        h = T.L(h)
                        t = A.addr(h)
                        a[t], b[t] = [Poly.atom(f"s{t}")], [Poly.atom(f"v{t}{x}") for x in "xyz"]
                        call("vs_set", s, h, *[I.Cell(p, "double") for p in a[t]])
                        call("vs_setv", v, h, *[I.Cell(p, "double") for p in b[t]])
                    own = {j: A.addr(T.L(S.call("as_map", S.space, S.node(j)))) for j in mesh_nodes}
                    call("vs_fields", I.Str("out"), S.space, cs, s, v, ix=(par,))
                    f, who, e = grid()
                    return e or judge_arrays(f, [("scalars", [a[own[j]] for j in who]), ("another name", [b[own[j]] for j in who])])
                run(S, R, "fields", lab, "mito::io::vtk::FieldVTKWriter::", go)
