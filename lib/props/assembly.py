"""Function spaces and discrete systems: discretisation, numbering of the equations, scatter and read-back are interpreted on patches of
stand-in cells, with symbolic elementary contributions and a linear system that only takes note."""
import itertools
import db as D
import interp as I
import more
import tensors as T
from poly import Poly, ZERO, ONE
from props import geometry as G
from props import elements as E
from props import blocks as B
from props.geometry import World, names

U = "mito::utilities::"

# patches: nodes of the cells, and the constrained boundary (pairs of nodes; single nodes in one dimension)
SEGMENTS = [("chain", [(0, 1), (1, 2), (2, 3)], [[], [0], [3, 0], [0, 1, 2, 3]]),
            ("cells against each other", [(1, 0), (1, 2), (3, 2)], [[0, 3], [2]]),
            ("closed loop", [(0, 1), (1, 2), (2, 0)], [[], [1]]),
            ("disconnected", [(0, 1), (2, 3)], [[0], [1, 2]])]
TRIANGLES = [("one cell", [(0, 1, 2)], [[], [(0, 1)], [(1, 2)], [(2, 0)], [(0, 1), (1, 2), (2, 0)]]),
             ("two cells", [(0, 1, 2), (2, 1, 3)], [[], [(3, 2)], [(0, 1), (1, 3), (3, 2), (2, 0)]]),
             ("shared edge rotated", [(1, 2, 0), (3, 2, 1)], [[(2, 3), (0, 1)]]),
             ("shared edge, same direction", [(0, 1, 2), (3, 1, 2)], [[(0, 1)]]),
             ("around an interior node", [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)], [[(0, 1), (1, 2), (2, 3), (3, 0)], [(0, 1)]]),
             ("cells that meet in a node", [(0, 1, 2), (2, 3, 4)], [[(3, 4), (0, 1)]])]
ORDERS = [("ascending", lambda k: 1 + k), ("descending", lambda k: 1000 - k), ("scattered", lambda k: 1 + (37 * k + 11) % 101)]
PATCH = {"IsoparametricSegmentP1": SEGMENTS, "IsoparametricTriangleP1": TRIANGLES, "IsoparametricTriangleP2": TRIANGLES}
CELL = {"IsoparametricSegmentP1": 1, "IsoparametricTriangleP1": 2, "IsoparametricTriangleP2": 2}
EDGES = [(0, 1), (1, 2), (2, 0)]


def load():
    db = D.extract("assembly.cc", G.ROOTS)
    db.check_diags(E.CLANG_ONLY)
    return db


class Spaces:
    """stand-ins for meshes, manifolds and shared handles"""

    def __init__(self, W):
        self.W, self.ip = W, W.ip
        self.C = B.Elements(W)
        ip = W.ip
        self.n_handles = 0
        self.order = ORDERS[0][1]
        self.log = []

        def field(name, n=None):
            def h(ip, c):
                o = T.L(c.o)
                return o.f[name] if isinstance(o, I.Obj) and name in o.f else NotImplemented
            return h
        ip.over["mito::mesh::Mesh::cells"] = field("mesh.cells")
        more.standins(ip)
        ip.over["mito::manifolds::Manifold::elements"] = field("man.cells")
        ip.over["mito::manifolds::Manifold::coordinate_system"] = field("man.cs")
        ip.over["mito::manifolds::Manifold::mesh"] = field("man.mesh")

        def count(name):
            def h(ip, c):
                o = T.L(c.o)
                return Poly.const(len(o.f[name].e)) if isinstance(o, I.Obj) and name in o.f else NotImplemented
            return h
        ip.over["mito::manifolds::Manifold::nElements"] = count("man.cells")
        ip.over["mito::mesh::Mesh::nCells"] = count("mesh.cells")

        # shared handles: a new resource has an address of its own
        def handle(ip, c):
            if c.x.get("ctor") in ("copy", "move"):
                return NotImplemented
            self.n_handles += 1
            return self.handle(c.t, 100 + self.n_handles)
        ip.over[U + "StdSharedPointer::StdSharedPointer"] = handle
        ip.over[U + "StdSharedPointer::id"] = lambda ip, c: T.L(c.o).f["addr"].v if isinstance(T.L(c.o), I.Obj) and "addr" in T.L(c.o).f else NotImplemented
        arrow = ip.over[U + "StdSharedPointer::operator->"]
        ip.over[U + "StdSharedPointer::operator->"] = lambda ip, c: arrow(ip, I.Call(c.e, c.x, T.L(c.o).f["node"], c.a, c.t)) if isinstance(T.L(c.o), I.Obj) and "node" in T.L(c.o).f else arrow(ip, c)

        # segmented vectors behave as sequences (U02-U05)
        sv = U + "SegmentedVector::"
        ip.over[sv + "SegmentedVector"] = lambda ip, c: NotImplemented if c.x.get("ctor") in ("copy", "move") else I.Arr([], D.tmpl(c.t)[1][0], "std::vector")

        def emplace(ip, c):
            v = T.L(c.o)
            if not isinstance(v, I.Arr):
                return NotImplemented
            cs = [f for f in ip.db.fns.values() if f.get("ctor") and not f.get("defaulted") and f.get("ct") is not None and ip.db.t(f["ct"]) == D.strip_cvref(v.et) and len(f["params"]) == len(c.a) and f["ctor"] not in ("copy", "move")]
            if len(cs) != 1:
                raise I.Undecided(f"{len(cs)} constructors of {v.et} with {len(c.a)} arguments")
            o = I.Obj(D.strip_cvref(v.et))
            ip.call_fn(cs[0], o, c.a)
            v.e = v.e + [o]
            return o
        ip.over[sv + "emplace"] = emplace
        seq = lambda fn: (lambda ip, c: fn(T.L(c.o), c) if isinstance(T.L(c.o), I.Arr) else NotImplemented)
        ip.over[sv + "begin"] = seq(lambda v, c: I.It(v, ZERO))
        ip.over[sv + "end"] = seq(lambda v, c: I.It(v, "end"))
        ip.over[sv + "size"] = seq(lambda v, c: ip.arr_len(v))
        ip.over[sv + "operator[]"] = seq(lambda v, c: ip.index(v, ip.n(T.L(c.a[0]))))

        # the linear system takes note
        s = "verif::Sink::"
        ip.over[s + "Sink"] = lambda ip, c: I.Obj(c.t, {"n": I.Cell(Poly.const(-1), "int")})

        def create(ip, c):
            ip.write(T.L(c.o).f["n"], T.L(c.a[0]))
            self.note("create", T.L(c.a[0]))
        ip.over[s + "create"] = create
        ip.over[s + "n_equations"] = lambda ip, c: T.L(c.o).f["n"].v
        for k in ("add_rhs_value", "add_matrix_value", "insert_rhs_value", "insert_matrix_value"):
            ip.over[s + k] = lambda ip, c, k=k: self.note(k, *[T.L(a) for a in c.a])

        def solution(ip, c):
            v = T.L(c.a[0])
            self.note("get_solution", Poly.const(len(v.e)))
            for i in range(len(v.e)):
                ip.assign(v.e[i], Poly.atom(f"u{i}"))
        ip.over[s + "get_solution"] = solution
        s = "verif::Solver::"
        ip.over[s + "Solver"] = lambda ip, c: (self.note("solver", T.L(c.a[0])), I.Obj(c.t, {}))[1]
        for k in ("create", "destroy", "solve", "print", "set_options"):
            ip.over[s + k] = lambda ip, c, k=k: self.note("solver." + k)

        def blocks(ip, c):
            el = T.L(c.a[0])
            cell = T.L(ip.call_fn(self.fn("as_cell"), None, [el]))
            k = cell.f["k"]
            nn = len(E.EL[self.el][2])
            ts = D.tmpl(c.t)[1]
            self.note("blocks", k)
            return I.Obj(c.t, {"first": T.new(ts[0], lambda i: Poly.atom(f"K{k}_{i[0]}_{i[1]}")), "second": T.new(ts[1], lambda i: Poly.atom(f"F{k}_{i[0]}"))})
        ip.over["mito::fem::Weakform::compute_blocks"] = blocks

    def note(self, *a):
        self.log.append(a)

    def fn(self, name):
        for f in self.W.by.get(name, []):
            if E.short(self.W, f) == self.el:
                return f
        raise D.AnalysisBroken(f"no {name} for {self.el}")

    def ptype(self, name, k):
        return D.strip_cvref(self.W.db.t(self.fn(name)["params"][k]["t"]))

    def handle(self, t, k, **f):
        return I.Obj(D.strip_cvref(t), {"addr": I.Cell(Poly.const(self.order(k)), "int"), **f})

    def call(self, name, *a):
        return self.ip.call_fn(self.fn(name), None, list(a))

    def setup(self, el, cells, fixed):
        self.el = el
        self.log = []
        self.n_handles = 0
        db = self.W.db
        n = CELL[el]
        nodes = {}
        tn = self.ptype("as_map", 1)

        def node(i):
            if i not in nodes:
                x = names(n, f"x{i}_")
                nodes[i] = self.handle(tn, i, node=I.Obj("node", {"point": I.Obj("point", {"x": self.C.at((n, 0), x), "i": i}), "i": i}))
            return nodes[i]
        self.node = node
        tm = self.ptype("as_space", 0)
        tc = self.ptype("as_cells", 1)
        tc = D.strip_cvref(D.tmpl(tc)[1][0])

        def cell(t, k, ns):
            a = I.Arr([node(i) for i in ns], None, "std::array")
            o = I.Obj(t, {"nodes": a, "k": k})
            r = db.rec_by_t.get(t)
            for f in r["fields"] if r else ():
                if D.tmpl(D.strip_cvref(db.t(f["t"])))[0] == "std::array":
                    o.f[f["n"]] = a
            return o
        cs = I.Arr([cell(tc, k, c) for k, c in enumerate(cells)], None, "std::vector")
        cs_t = "mito::geometry::CoordinateSystem"
        man = I.Obj(tm, {"man.cells": cs, "man.cs": I.Obj(cs_t, {}), "man.mesh": I.Obj("mesh", {"mesh.cells": cs})})
        td = self.ptype("as_bc", 0)
        if n == 1:
            b = I.MapV(tn, None, cls="std::unordered_set", isset=True)
            for i in fixed:
                b.ents.append([node(i), None])
        else:
            b = I.Obj(td, {"mesh.cells": I.Arr([cell(D.strip_cvref(D.tmpl(td)[1][0]), f"b{k}", c) for k, c in enumerate(fixed)], None, "std::vector")})
        self.bc = self.call("as_bc", b)
        self.space = self.call("as_space", man, self.bc)
        return self.space

    def nodes_out(self, name, t=None):
        out = I.Arr([], t or D.tmpl(self.ptype(name, 1))[1][0], "std::vector")
        r = self.call(name, self.space, out)
        return [T.L(x) for x in out.e], r


def addr(o):
    return int(T.L(o.f["addr"]).cval())


class Bad(Exception):
    pass


def run(S, R, rule, inst, where, go):
    """one concrete structure: one path"""
    ip = S.ip

    def fn():
        ip.analysed = set()
        rs = list(ip.paths(lambda ip: go()))
        R.used(ip)
        w = S.W.where(where)
        for r in rs:
            if r[0] in ("ub", "abort", "throw", "exc"):
                R.bad(rule, inst, w, f"{r[0]}: {r[1]}"[:300])
                return
        if len(rs) != 1 or rs[0][0] != "ok":
            raise I.Undecided(f"{[r[:2] for r in rs]!r}"[:300])
        if rs[0][1] is None:
            R.ok(rule, inst, w)
        else:
            R.bad(rule, inst, w, rs[0][1])
    R.guard(rule, inst, "", fn)


def dof_keys(el, c):
    """what identifies the local nodes of a cell: mesh nodes and edges"""
    ks = [(i,) for i in c]
    if E.EL[el][1] == 2:
        ks += [tuple(sorted((c[a], c[b]))) for a, b in EDGES]
    return ks


def e04(R):
    R.minimum = 150
    R.rule("discretisation", "one element per cell, on that cell; local nodes of different elements coincide exactly when they stand for the same mesh node, or the middle of the same edge; the node map sends a mesh node to its own")
    R.rule("constrained nodes", "the constrained nodes are exactly those on the constrained part of the boundary")
    R.rule("fields", "a field on a function space has a value for each of its nodes, once")
    R.rule("equations", "the nodes that are not constrained are numbered 0..n-1, one equation each; the linear system is created with n equations")
    R.rule("scatter", "assembling adds each entry of each element's matrix and vector to the equations of its nodes, and nothing else")
    R.rule("read-back", "the solution at a node that is not constrained is the unknown of its equation; the solution on an element interpolates its nodal values with the shape functions")
    R.rule("solver", "solving assembles the discrete system before the matrix solver runs, and reads the solution afterwards")
    db = load()
    W = World(db, R)
    S = Spaces(W)
    ip = W.ip

    def dofs(el, cells, fixed):
        ks = sorted({k for c in cells for k in dof_keys(el, c)})
        if CELL[el] == 1:
            fx = {(i,) for i in fixed}
        else:
            fx = {(i,) for e in fixed for i in e} | ({tuple(sorted(e)) for e in fixed} if E.EL[el][1] == 2 else set())
        return ks, fx

    def table(el, cells):
        """address -> what it stands for, or a complaint"""
        conn, _ = S.nodes_out("as_conn")
        nn = len(E.EL[el][2])
        if len(conn) != nn * len(cells):
            return None, f"{len(conn) // nn} elements on {len(cells)} cells"
        cs, _ = S.nodes_out("as_cells")
        if sorted(c.f["k"] for c in cs) != list(range(len(cells))):
            return None, f"elements on the cells {[c.f['k'] for c in cs]}"
        fwd, back, order = {}, {}, []
        for e, c in enumerate(cs):
            order.append((c.f["k"], [addr(x) for x in conn[e * nn:(e + 1) * nn]]))
            for a, key in enumerate(dof_keys(el, cells[c.f["k"]])):
                x = addr(conn[e * nn + a])
                lab = f"{'node' if len(key) == 1 else 'edge'} {key}"
                if fwd.setdefault(key, x) != x:
                    return None, f"two discretisation nodes for {lab}"
                if back.setdefault(x, key) != key:
                    return None, f"one discretisation node for {back[x]} and {lab}"
        return (fwd, back, order, conn), None

    for el, patches in PATCH.items():
        for (pn, cells, bcs), (on, order) in itertools.product(patches, ORDERS):
            for fixed in bcs:
                S.order = order
                lab = f"{el}, {pn}, constrained {fixed}, addresses {on}"
                st = {}

                def space():
                    S.setup(el, cells, fixed)
                    t, why = table(el, cells)
                    if why:
                        return why
                    for i in sorted({i for c in cells for i in c}):
                        x = addr(T.L(S.call("as_map", S.space, S.node(i))))
                        if x != t[0][i,]:
                            return f"the node map does not send mesh node {i} to its discretisation node"
                    return None
                run(S, R, "discretisation", lab, "mito::fem::Discretizer", space)

                def constrained():
                    S.setup(el, cells, fixed)
                    t, why = table(el, cells)
                    if why:
                        raise I.Undecided(why)
                    got = [addr(x) for x in S.nodes_out("as_fixed")[0]]
                    _, fx = dofs(el, cells, fixed)
                    want = sorted(t[0][k] for k in fx)
                    if sorted(got) != want:
                        nm = lambda xs: sorted(t[1].get(x, f"unknown {x}") for x in xs)
                        return f"constrained {nm(got)}, the boundary has {nm(want)}"
                run(S, R, "constrained nodes", lab, "mito::fem::Discretizer", constrained)

                def fields():
                    S.setup(el, cells, fixed)
                    t, why = table(el, cells)
                    if why:
                        raise I.Undecided(why)
                    out, n = S.nodes_out("as_field")
                    n = int(ip.n(T.L(n)).cval())
                    got = sorted(addr(x) for x in out)
                    if got != sorted(t[1]) or n != len(t[1]):
                        return f"values for {len(got)} nodes (size {n}), the function space has {len(t[1])}"
                if fixed == bcs[0]:
                    run(S, R, "fields", lab, "mito::fem::FunctionSpace::fem_field", fields)

                def system():
                    S.setup(el, cells, fixed)
                    t, why = table(el, cells)
                    if why:
                        raise I.Undecided(why)
                    S.log = []
                    w = I.Obj(S.ptype("as_system", 1), {})
                    ds = S.call("as_system", S.space, w)
                    return t, ds

                def number(t, ds):
                    """address -> equation, from what is assembled"""
                    S.log = []
                    S.call("as_assemble", ds)
                    log = S.log
                    A, F = {}, {}
                    for x in log:
                        if x[0] == "add_matrix_value":
                            k = int(ip.n(x[1]).cval()), int(ip.n(x[2]).cval())
                            A[k] = A.get(k, ZERO) + ip.n(x[3])
                        elif x[0] == "add_rhs_value":
                            k = int(ip.n(x[1]).cval())
                            F[k] = F.get(k, ZERO) + ip.n(x[2])
                        elif x[0].startswith("insert"):
                            raise I.Undecided("values are inserted")
                    return A, F

                def numbering(t, F):
                    """equations recognised by their right-hand side"""
                    free = {}
                    for k, nodes in t[2]:
                        for a, x in enumerate(nodes):
                            free.setdefault(x, ZERO)
                            free[x] = free[x] + Poly.atom(f"F{k}_{a}")
                    eq, bad = {}, None
                    for e, p in F.items():
                        m = [x for x, q in free.items() if not (p - q).t]
                        if len(m) != 1:
                            bad = f"equation {e} receives {p!r}, which is the sum for no node"
                            continue
                        if m[0] in eq:
                            bad = f"two equations for {t[1][m[0]]}"
                        eq[m[0]] = e
                    return eq, bad

                def equations():
                    t, ds = system()
                    made = [int(ip.n(x[1]).cval()) for x in S.log if x[0] == "create"]
                    n = int(ip.n(T.L(S.call("as_equations", ds))).cval())
                    _, fx = dofs(el, cells, fixed)
                    want = len([k for k in t[0] if k not in fx])
                    if n != want:
                        return f"{n} equations for {want} nodes that are not constrained"
                    if made != [n]:
                        return f"the linear system is created with {made} equations, not {n}"
                    A, F = number(t, ds)
                    eq, bad = numbering(t, F)
                    if bad:
                        return bad
                    if sorted(eq.values()) != list(range(n)):
                        return f"equations {sorted(eq.values())}, not 0..{n - 1}"
                    wrong = [t[1][x] for x in eq if t[1][x] in fx]
                    if wrong:
                        return f"constrained nodes {wrong} have equations"
                run(S, R, "equations", lab, "mito::fem::DiscreteSystem", equations)

                def scatter():
                    t, ds = system()
                    A, F = number(t, ds)
                    eq, bad = numbering(t, F)
                    if bad:
                        return bad
                    want = {}
                    for k, nodes in t[2]:
                        for a, x in enumerate(nodes):
                            for b, y in enumerate(nodes):
                                if x in eq and y in eq:
                                    z = eq[x], eq[y]
                                    want[z] = want.get(z, ZERO) + Poly.atom(f"K{k}_{a}_{b}")
                    for z in sorted(set(A) | set(want)):
                        p, q = A.get(z, ZERO), want.get(z, ZERO)
                        if (p - q).t:
                            return f"matrix entry {z} receives {p!r}, should be {q!r}"[:300]
                run(S, R, "scatter", lab, "mito::fem::DiscreteSystem::assemble", scatter)

                def read():
                    t, ds = system()
                    A, F = number(t, ds)
                    eq, bad = numbering(t, F)
                    if bad:
                        raise I.Undecided(bad)
                    S.call("as_read", ds)
                    val = {}
                    byaddr = {addr(x): x for x in t[3]}
                    for x in t[1]:
                        val[x] = ip.n(T.L(S.call("as_value", ds, byaddr[x])))
                        if x in eq and (val[x] - Poly.atom(f"u{eq[x]}")).t:
                            return f"the solution at {t[1][x]} is {val[x]!r}, its equation is {eq[x]}"
                    th = B.Theory(el)
                    for e, (k, nodes) in enumerate(t[2]):
                        x = S.C.at((CELL[el], 0), th.xi)
                        got = ip.n(T.L(S.call("as_local", ds, S.space, I.Cell(Poly.const(e), "int"), x)))
                        want = T.total(th.phi[a] * val[y] for a, y in enumerate(nodes))
                        if not T.Ring().same(got, want):
                            return f"on element {e} the solution is {got!r}, should be {want!r}"[:300]
                run(S, R, "read-back", lab, "mito::fem::DiscreteSystem::read_solution", read)

        def solver():
            pn, cells, bcs = patches[0]
            S.setup(el, cells, bcs[0])
            w = I.Obj(S.ptype("as_system", 1), {})
            ds = S.call("as_system", S.space, w)
            S.log = []
            S.call("as_solver", ds)
            ev = [x[0] for x in S.log]
            at = {k: [i for i, x in enumerate(ev) if x == k] for k in set(ev)}
            for k in ("solver", "solver.create", "solver.set_options", "solver.solve", "get_solution", "solver.destroy"):
                if len(at.get(k, [])) != 1:
                    return f"{k} happens {len(at.get(k, []))} times"
            adds = at.get("add_matrix_value", []) + at.get("add_rhs_value", [])
            if not adds or max(adds) > at["solver.solve"][0]:
                return "the matrix solver runs before the discrete system is assembled"
            ks = ("solver", "solver.create", "solver.set_options", "solver.solve", "get_solution", "solver.destroy")
            pos = [at[k][0] for k in ks]
            if pos != sorted(pos):
                return f"the order is {ev}"
        run(S, R, "solver", el, "mito::solvers::LinearSolver::solve", solver)
