"""Meshes: insertion, erasure, boundaries, filters and refinement are interpreted on small cell complexes. The topology behind the
meshes is a stand-in that follows what T01-T08 establish, with every convention they leave open chosen arbitrarily."""
import itertools
import db as D
import interp as I
import intrinsics as N
import tensors as T
from fractions import Fraction
from poly import Poly, ZERO, ONE, atom_of
from props import geometry as G
from props import elements as E
from props.geometry import World, names
from props.assembly import run

U = "mito::utilities::"
# the order of the addresses of the resources, by their order of creation
ORDERS = [("ascending", lambda k: 1 + k), ("descending", lambda k: 1000000 - k), ("scattered", lambda k: 1 + (3701 * k + 11) % 10007)]
TP = "mito::topology::"
FACES = {1: [(0,), (1,)], 2: [(0, 1), (1, 2), (2, 0)], 3: [(0, 1, 2), (1, 3, 2), (3, 1, 0), (3, 0, 2)]}


def parity(a, b):
    """the sign of the permutation that takes a to b"""
    b = list(b)
    s = 1
    for i, x in enumerate(a):
        j = b.index(x)
        if j != i:
            b[i], b[j] = b[j], b[i]
            s = -s
    return s


def faces(c):
    """the oriented faces of an oriented simplex: (set of vertices, sign with respect to ascending order)"""
    if len(c) == 2:
        return [(frozenset(c[:1]), -1), (frozenset(c[1:]), 1)]
    return [key([c[i] for i in f]) for f in FACES[len(c) - 1]]


def key(c):
    c = tuple(c)
    return (frozenset(c), parity(sorted(c), c))


class Topology:
    """handles on vertices, simplices and oriented simplices; addresses, representatives and the order of faces are arbitrary"""

    def __init__(self, W):
        self.W, self.ip = W, W.ip
        ip = W.ip
        self.reset(0)
        ip.over[TP + "topology"] = lambda ip, c: self.topo
        for n in ("simplex", "segment", "triangle", "tetrahedron"):
            ip.over[TP + "Topology::" + n] = self.simplex
        ip.over[TP + "Topology::vertex"] = ip.over[TP + "vertex"] = lambda ip, c: self.handle(c.t, self.vertex(c.t))
        ip.over[TP + "Topology::flip"] = ip.over[TP + "flip"] = self.flip
        ip.over[TP + "OrientedSimplex::footprint"] = lambda ip, c: self.member(c, "foot", lambda k: ("f", k[1]))
        ip.over[TP + "OrientedSimplex::orientation"] = lambda ip, c: Poly.const(self.key(c.o)[2])
        ip.over[TP + "flip_diagonal"] = ip.over[TP + "FlipDiagonal::flip_diagonal"] = self.flip_diagonal
        ip.over[TP + "OrientedSimplex::composition"] = lambda ip, c: self.composition(c, *self.key(c.o)[1:])
        ip.over[TP + "OrientedSimplex::vertices"] = lambda ip, c: self.vertices(c, *self.key(c.o)[1:])
        ip.over[TP + "Simplex::composition"] = lambda ip, c: self.composition(c, self.key(c.o)[1], 1)
        ip.over[TP + "Simplex::vertices"] = lambda ip, c: self.vertices(c, self.key(c.o)[1], 1)
        ip.over["mito::geometry::point_cloud"] = lambda ip, c: self.cloud
        ip.over["mito::geometry::PointCloud::point"] = lambda ip, c: self.handle(c.t, self.point())
        ip.over[U + "SharedPointer::id"] = self.id
        ip.over[U + "SharedPointer::SharedPointer"] = self.construct
        ip.over[U + "SharedPointer::~SharedPointer"] = lambda ip, c: None
        ip.over[U + "SharedPointer::operator="] = self.assign
        ip.over[U + "SharedPointer::operator->"] = lambda ip, c: I.Ptr(self.target(c.o))
        ip.over[U + "SharedPointer::is_nullptr"] = lambda ip, c: self.target(c.o) is None
        ip.over[U + "StdSharedPointer::id"] = self.std_id

    def reset(self, order, rep=0, turn=0):
        self.order = ORDERS[order][1]
        self.rep, self.turn = rep, turn
        self.n_id = 0
        self.res = {}
        self.cells = {}
        self.n_vertices = self.n_points = 0
        self.topo = I.Obj("topology", {})
        self.cloud = I.Obj("cloud", {})
        self.alive = []

    def address(self, o):
        m = o.meta if hasattr(o, "meta") and isinstance(o.meta, dict) else None
        for r, n in self.alive:
            if r is o:
                return n
        self.n_id += 1
        n = self.order(self.n_id)
        self.alive.append((o, n))
        return n

    def sign(self, fk):
        """how the representative of a simplex is oriented with respect to ascending order: not for the library to rely on"""
        if len(fk) == 1 or self.rep == 0:
            return 1
        return -1 if self.rep == 1 or sum(fk) % 2 else 1

    def resource(self, k):
        if k not in self.res:
            self.res[k] = I.Obj(TP + {"f": "Simplex", "o": "OrientedSimplex", "v": "Simplex"}.get(k[0], "resource"), {"key": k})
        return self.res[k]

    def handle(self, t, res):
        return I.Obj(D.strip_cvref(t), {"to": I.Ptr(res)})

    def vertex(self, t):
        self.n_vertices += 1
        return self.resource(("f", frozenset([self.n_vertices - 1])))

    def point(self):
        self.n_points += 1
        return self.resource(("p", self.n_points - 1))

    def node_of(self, h):
        for p in T.L(h).f.values():
            p = p.v if isinstance(p, I.Cell) else p
            if isinstance(p, I.Ptr):
                return T.L(p.b)
        raise I.Undecided(f"a node the analysis did not make: {h!r}")

    def target(self, o):
        o = T.L(o)
        if not isinstance(o, I.Obj) or "to" not in o.f:
            raise I.Undecided(f"a handle the analysis did not make: {o!r}"[:200])
        p = o.f["to"]
        return (p.v if isinstance(p, I.Cell) else p).b

    def key(self, o):
        o = T.L(o)
        if not isinstance(o, I.Obj) or "key" not in o.f:
            raise I.Undecided(f"a simplex the analysis did not make: {o!r}"[:200])
        return o.f["key"]

    def id(self, ip, c):
        t = self.target(c.o)
        return ZERO if t is None else Poly.const(self.address(t))

    def std_id(self, ip, c):
        o = T.L(c.o)
        for p in o.f.values():
            p = p.v if isinstance(p, I.Cell) else p
            if isinstance(p, I.Ptr):
                return Poly.const(self.address(T.L(p.b)))
        return NotImplemented

    def construct(self, ip, c):
        if c.x.get("ctor") in ("copy", "move"):
            return self.handle(c.t, self.target(c.a[0]))
        if not c.a:
            return self.handle(c.t, None)
        raise I.Undecided("a handle made from a resource")

    def assign(self, ip, c):
        T.L(c.o).f["to"] = I.Ptr(self.target(c.a[0]))
        return c.o

    def simplex(self, ip, c):
        a = T.L(c.a[0])
        if isinstance(a, I.Arr):
            ks = [self.key(self.target(x)) for x in a.e]
            if all(k[0] == "f" and len(k[1]) == 1 for k in ks):
                vs = [next(iter(k[1])) for k in ks]
                if len(set(vs)) != len(vs):
                    raise I.Undecided("a degenerate simplex")
                return self.oriented(c.t, vs)
            # from its faces
            for k in (1, -1):
                fk = frozenset().union(*[x[1] for x in ks])
                vs = self.order_of(fk, k)
                if set(faces(vs)) == {(x[1], x[2] * self.sign(x[1]) if len(x[1]) > 1 else x[2]) for x in ks}:
                    return self.oriented(c.t, vs)
        raise I.Undecided("a simplex of something else than vertices or faces")

    def oriented(self, t, vs):
        fk, s = key(vs)
        return self.handle(t, self.resource(("o", fk, s * self.sign(fk))))

    def order_of(self, fk, orient):
        """some order of the vertices that agrees with the orientation"""
        vs = sorted(fk)
        if orient * self.sign(fk) < 0:
            vs[0], vs[1] = vs[1], vs[0]
        if len(vs) > 2:
            t = self.turn % 3
            vs = vs[t:3] + vs[:t] + vs[3:]
        return vs

    def flip(self, ip, c):
        k = self.key(self.target(c.a[0]))
        return self.handle(c.t, self.resource(("o", k[1], -k[2])))

    def flip_diagonal(self, ip, c):
        """two triangles with a common edge, by T08: the two on the other diagonal of the quadrilateral, with the same joint boundary"""
        p = T.L(c.a[0])
        ks = [self.key(self.target(p.f[n])) for n in ("first", "second")]
        (fa, fb), rt = [k[1] for k in ks], D.tmpl(D.strip_cvref(c.t))[1][0]
        if len(fa & fb) != 2:
            raise I.Undecided("triangles without a common edge")
        a, b = next(iter(fa - fb)), next(iter(fb - fa))
        x, y = sorted(fa & fb)
        # the first triangle runs along a, x, y
        if key([a, x, y])[1] != ks[0][2] * self.sign(fa):
            x, y = y, x
        if key([b, y, x])[1] != ks[1][2] * self.sign(fb):
            raise I.Undecided("triangles that are not oriented consistently")
        out = [self.oriented(rt, [a, x, b]), self.oriented(rt, [b, y, a])]
        if self.rep == 1:
            out.reverse()
        return I.Obj(D.strip_cvref(c.t), {"first": out[0], "second": out[1]})

    def member(self, c, name, to):
        o = T.L(c.o)
        if name not in o.f:
            o.f[name] = self.handle(c.t, self.resource(to(self.key(o))))
        return o.f[name]

    def composition(self, c, fk, orient):
        et = D.tmpl(D.strip_cvref(c.t))[1][0]
        vs = self.order_of(fk, orient)
        if len(vs) == 2:
            es = [self.handle(et, self.resource(("o", frozenset([v]), s))) for v, s in zip(vs, (-1, 1))]
        else:
            es = [self.oriented(et, [vs[i] for i in f]) for f in FACES[len(vs) - 1]]
        t = self.turn % len(es) if len(vs) > 2 else 0
        return I.Arr(es[t:] + es[:t], et, "std::array")

    def vertices(self, c, fk, orient):
        if c.a:
            v = T.L(c.a[0])
            if isinstance(v, I.MapV) and v.isset:
                for x in self.order_of(fk, orient):
                    N.map_method(self.ip, I.Call(c.e, {"n": "insert"}, v, [self.handle(v.kt, self.resource(("f", frozenset([x]))))], None))
                return None
            if isinstance(v, I.Arr) and v.cls == "std::vector":
                v.e = v.e + [self.handle(v.et, self.resource(("f", frozenset([x])))) for x in self.order_of(fk, orient)]
                return None
            raise I.Undecided("vertices appended to a collection")
        et = D.tmpl(D.strip_cvref(c.t))[1][0]
        return I.Arr([self.handle(et, self.resource(("f", frozenset([v])))) for v in self.order_of(fk, orient)], et, "std::array")


class Segmented:
    """segmented vectors by what U02-U05 establish: elements stay where they are, erased ones are skipped, places may be used again"""

    def __init__(self, W):
        ip = self.ip = W.ip
        self.reuse = False
        sv = U + "SegmentedVector::"
        it = U + "SegmentedContainerIterator::"
        on = lambda fn: (lambda ip, c: fn(T.L(c.o), c) if isinstance(T.L(c.o), I.Obj) and "slots" in T.L(c.o).f else NotImplemented)
        ip.over[sv + "SegmentedVector"] = self.make
        ip.over[sv + "~SegmentedVector"] = lambda ip, c: None
        ip.over[sv + "emplace"] = on(self.emplace)
        ip.over[sv + "erase"] = on(self.erase)
        ip.over[sv + "size"] = on(lambda v, c: Poly.const(len(self.live(v))))
        ip.over[sv + "begin"] = on(lambda v, c: self.iter(c.t, v, self.next(v, 0)))
        ip.over[sv + "end"] = on(lambda v, c: self.iter(c.t, v, None))
        ip.over[sv + "operator[]"] = on(self.index)
        ip.over["std::size"] = self.std(ip.intr.get("std::size"), "size")
        ip.over[it + "operator*"] = lambda ip, c: self.at(c.o)
        ip.over[it + "operator->"] = lambda ip, c: I.Ptr(self.at(c.o))
        ip.over[it + "operator++"] = self.inc
        ip.over[it + "SegmentedContainerIterator"] = lambda ip, c: self.copy_it(c) if c.x.get("ctor") in ("copy", "move") else NotImplemented
        ip.over[U + "operator=="] = self.equal(True)
        ip.over[U + "operator!="] = self.equal(False)

    def std(self, old, name):
        def h(ip, c):
            o = T.L(c.a[0])
            if isinstance(o, I.Obj) and "slots" in o.f:
                return Poly.const(len(self.live(o)))
            return NotImplemented
        return h

    def make(self, ip, c):
        if c.x.get("ctor") in ("copy", "move"):
            src = T.L(c.a[0])
            o = I.Obj(D.strip_cvref(c.t), {"slots": src.f["slots"]})
            if c.x["ctor"] == "move":
                src.f["slots"] = []
            return o
        return I.Obj(D.strip_cvref(c.t), {"slots": []})

    def live(self, v):
        return [x for x, ok in v.f["slots"] if ok]

    def next(self, v, i):
        s = v.f["slots"]
        while i < len(s):
            if s[i][1]:
                return i
            i += 1
        return None

    def iter(self, t, v, i):
        return I.Obj(D.strip_cvref(t), {"of": I.Ptr(v), "pos": i})

    def copy_it(self, c):
        o = T.L(c.a[0])
        return I.Obj(o.cls, {"of": o.f["of"], "pos": o.f["pos"]})

    def at(self, o):
        o = T.L(o)
        if o.f["pos"] is None:
            raise I.PathEnd("ub", "an iterator past the end is followed")
        return T.L(o.f["of"].b).f["slots"][o.f["pos"]][0]

    def inc(self, ip, c):
        o = T.L(c.o)
        if o.f["pos"] is None:
            raise I.PathEnd("ub", "an iterator past the end is advanced")
        old = I.Obj(o.cls, dict(o.f))
        o.f["pos"] = self.next(T.L(o.f["of"].b), o.f["pos"] + 1)
        return old if c.a else c.o

    def equal(self, same):
        def h(ip, c):
            a, b = T.L(c.a[0]), T.L(c.a[1]) if len(c.a) > 1 else None
            if isinstance(a, I.Obj) and isinstance(b, I.Obj) and "pos" in a.f and "pos" in b.f:
                return (a.f["pos"] == b.f["pos"]) == same
            return NotImplemented
        return h

    def index(self, v, c):
        k = self.ip.n(T.L(c.a[0]))
        if not k.is_const():
            raise I.Undecided("an unknown place in a segmented vector")
        s = v.f["slots"]
        if not 0 <= int(k.cval()) < len(s):
            raise I.PathEnd("ub", "an element past the end of a segmented vector")
        return s[int(k.cval())][0]

    def emplace(self, v, c):
        ip = self.ip
        et = D.strip_cvref(D.tmpl(v.cls)[1][0])
        a = [T.L(x) for x in c.a]
        if len(a) == 1 and isinstance(a[0], I.Obj) and a[0].cls == et:
            o = ip.copy(a[0])
        else:
            cs = [f for f in ip.db.fns.values() if f.get("ctor") and not f.get("defaulted") and f.get("ct") is not None and ip.db.t(f["ct"]) == et and len(f["params"]) == len(c.a) and f["ctor"] not in ("copy", "move")]
            if len(cs) != 1:
                raise I.Undecided(f"{len(cs)} constructors of {et} with {len(c.a)} arguments")
            o = I.Obj(et)
            ip.call_fn(cs[0], o, c.a)
        free = next((i for i, x in enumerate(v.f["slots"]) if not x[1]), None) if self.reuse else None
        if free is None:
            v.f["slots"] = v.f["slots"] + [(o, True)]
        else:
            v.f["slots"] = v.f["slots"][:free] + [(o, True)] + v.f["slots"][free + 1:]
        return o

    def erase(self, v, c):
        o = T.L(c.a[0])
        for i, (x, ok) in enumerate(v.f["slots"]):
            if x is o:
                v.f["slots"] = v.f["slots"][:i] + [(x, False)] + v.f["slots"][i + 1:]
                return ok
        raise I.PathEnd("ub", "an element that is not in the segmented vector is erased from it")


def load():
    db = D.extract("mesh.cc", G.ROOTS)
    db.check_diags(E.CLANG_ONLY)
    return db


class Meshes:
    def __init__(self, R, db=None):
        self.W = World(db or load(), R)
        self.ip = self.W.ip
        self.T = Topology(self.W)
        self.ip.destroy_hook = lambda ip, p: True
        self.S = Segmented(self.W)

    def fn(self, name, *ix):
        for f in self.W.by.get(name, []):
            ta = D.split_targs(f.get("ta") or "")
            if self.cell_of(ta[0]) == self.cell and [int(z) for z in ta[1:]] == list(ix):
                return f
        raise D.AnalysisBroken(f"no {name} for {self.cell}")

    def cell_of(self, t):
        b, a = D.tmpl(t)
        return tuple(int(x) for x in a[:2]) if b == "mito::geometry::GeometricSimplex" else None

    def call(self, name, *a, ix=()):
        return self.ip.call_fn(self.fn(name, *ix), None, list(a))

    def start(self, cell, order=0, rep=0, turn=0):
        self.cell = cell
        self.T.reset(order, rep, turn)
        self.cs = self.call("ms_cs")
        self.mesh = self.call("ms_new")
        self.nodes = {}
        return self.mesh

    def node(self, k, x=None):
        if k not in self.nodes:
            x = x or names(self.cell[1], f"x{k}_")
            self.nodes[k] = self.call("ms_node", self.cs, self.at(x))
        return self.nodes[k]

    def at(self, x):
        d = self.cell[1]
        return self.ip.call_fn(self.W.fn("at", (d, 0)), None, [I.Cell(x[i] if i < d else ZERO, "double") for i in range(3)])

    def position(self, k):
        """the position of a node as a combination of those of the nodes of the mesh"""
        c = T.L(self.call("ms_coords", self.cs, self.nodes[k]))
        x = self.W.get((self.cell[1], 0), c)
        out = None
        for i, p in enumerate(x):
            w = {}
            for m, co in p.t.items():
                nm = atom_of(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
                if not isinstance(nm, str) or not nm.endswith(f"_{i}"):
                    raise I.Undecided(f"a position {p!r}")
                w[int(nm[1:].split("_")[0])] = Fraction(co)
            if out is None:
                out = w
            elif w != out:
                raise I.PathEnd("ub", f"a node that is no combination of nodes: {x!r}")
        if sum(out.values()) != 1:
            raise I.PathEnd("ub", f"a node that is no affine combination of nodes: {x!r}")
        return out

    def arr(self, ns):
        t = self.ip.db.t(self.fn("ms_insert")["params"][1]["t"])
        return I.Arr([self.node(k) for k in ns], D.tmpl(D.strip_cvref(t))[1][0], "std::array")

    def insert(self, mesh, ns, copy=False):
        if copy:
            return T.L(self.call("ms_insert_cell", mesh, self.call("ms_cell", self.arr(ns))))
        return T.L(self.call("ms_insert", mesh, self.arr(ns)))

    def which(self, h):
        """the number of a node"""
        a = self.T.node_of(h)
        for k, x in self.nodes.items():
            if self.T.node_of(x) is a:
                return k
        k = f"n{len(self.nodes)}"
        self.nodes[k] = h
        return k

    def vertex_of(self, h):
        o = self.T.node_of(h)
        for x in o.f.values():
            x = T.L(x)
            if isinstance(x, I.Obj) and "to" in x.f:
                k = self.T.target(x).f["key"]
                if k[0] == "f":
                    return next(iter(k[1]))
        raise I.Undecided("a node without a vertex")

    def simplex(self, h):
        """(vertices, sign with respect to ascending order) of a handle on an oriented simplex"""
        k = self.T.key(self.T.target(h))
        return (k[1], k[2] * (self.T.sign(k[1]) if len(k[1]) > 1 else 1))

    def cells(self, mesh, cell=None, name="ms_cells"):
        """[(nodes, simplex, vertices of the nodes)]"""
        save, self.cell = self.cell, cell or self.cell
        try:
            f = self.fn(name)
            out = I.Arr([], D.tmpl(D.strip_cvref(self.ip.db.t(f["params"][1]["t"])))[1][0], "std::vector")
            self.ip.call_fn(f, None, [mesh, out])
            r = []
            for c in out.e:
                c = T.L(c)
                ns = T.L(self.W_call("ms_nodes_of", c)).e
                s = self.simplex(T.L(self.W_call("ms_simplex", c)))
                r.append(([self.which(x) for x in ns], s, [self.vertex_of(x) for x in ns]))
            return r
        finally:
            self.cell = save

    def W_call(self, name, c):
        """by the type of the cell, if the driver has it; otherwise its fields"""
        try:
            f = self.fn(name)
        except D.AnalysisBroken:
            for x in c.f.values():
                x = T.L(x)
                if name == "ms_nodes_of" and isinstance(x, I.Arr):
                    return x
                if name == "ms_simplex" and isinstance(x, I.Obj) and "to" in x.f:
                    return x
            raise
        return self.ip.call_fn(f, None, [c])


# cells by their nodes
COMPLEX = {1: [("one segment", [(0, 1)]), ("chain", [(0, 1), (1, 2), (2, 3)]), ("segments against each other", [(1, 0), (1, 2), (3, 2)]), ("closed loop", [(0, 1), (1, 2), (2, 0)]),
               ("the same segment twice", [(0, 1), (0, 1), (1, 2)]), ("a segment there and back", [(0, 1), (1, 0), (1, 2)])],
           2: [("one triangle", [(0, 1, 2)]), ("two triangles", [(0, 1, 2), (2, 1, 3)]), ("rotated", [(1, 2, 0), (3, 2, 1)]), ("shared edge in the same direction", [(0, 1, 2), (3, 1, 2)]),
               ("around a node", [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)]), ("three on an edge", [(0, 1, 2), (1, 0, 3), (0, 1, 4)]),
               ("the same triangle twice", [(0, 1, 2), (1, 2, 0), (2, 1, 3)]), ("two sides of a triangle", [(0, 1, 2), (1, 0, 2), (2, 1, 3)])],
           3: [("one tetrahedron", [(0, 1, 2, 3)]), ("two tetrahedra", [(0, 1, 2, 3), (1, 0, 2, 4)]), ("shared face from the same side", [(0, 1, 2, 3), (0, 1, 2, 4)]),
               ("the same tetrahedron twice", [(0, 1, 2, 3), (1, 2, 0, 3), (1, 0, 2, 4)]), ("two sides of a tetrahedron", [(0, 1, 2, 3), (1, 0, 2, 3)])]}
KINDS = [(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)]
SUB = {(2, 2): [1], (3, 3): [2, 1]}
CONVENTIONS = [(0, 0, 0), (1, 1, 1), (2, 2, 2)]


def bag(xs):
    r = {}
    for x in xs:
        r[x] = r.get(x, 0) + 1
    return r


def face_counts(cells):
    return bag([f for c in cells for f in faces(c)])


def on_boundary(cells):
    """the oriented faces that no cell has the other way round, once for each cell that has them"""
    n = face_counts(cells)
    return bag([f for c in cells for f in faces(c) if (f[0], -f[1]) not in n])


def subs(c, i):
    if len(c) == i + 1:
        return {key(c)}
    return set().union(*[subs([c[j] for j in f], i) for f in FACES[len(c) - 1]])


def show(k):
    return f"{sorted(k[0])}{'+' if k[1] > 0 else '-'}"


class Audit:
    """compares a mesh with the list of the cells it has to have"""

    def __init__(self, M, n, label):
        self.M, self.n, self.label = M, n, label

    def content(self, mesh, cells):
        M = self.M
        got = M.cells(mesh)
        n = M.ip.n(T.L(M.call("ms_n", mesh)))
        if n != Poly.const(len(cells)):
            return f"{n!r} cells, expected {len(cells)}"
        if bag([(tuple(g[0]), g[1]) for g in got]) != bag([(tuple(c), key(c)) for c in cells]):
            return f"cells {[(g[0], show(g[1])) for g in got]}, expected {cells}"
        return None

    def boundary_test(self, mesh, cells):
        M = self.M
        n = face_counts(cells)
        f = M.fn("ms_cells")
        out = I.Arr([], D.tmpl(D.strip_cvref(M.ip.db.t(f["params"][1]["t"])))[1][0], "std::vector")
        M.ip.call_fn(f, None, [mesh, out])
        for c in out.e:
            for h in T.L(M.call("ms_faces", T.L(c))).e:
                k = M.simplex(T.L(h))
                want = (k[0], -k[1]) not in n
                got = M.ip.decide(M.ip.truth(T.L(M.call("ms_on_boundary", mesh, T.L(h)))))
                if got != want:
                    return f"the face {show(k)} is {'' if got else 'not '}said to be on the boundary of {cells}"
        return None

    def boundary_mesh(self, mesh, cells):
        M = self.M
        want = on_boundary(cells)
        n = M.ip.n(T.L(M.call("ms_boundary_size", mesh)))
        if n != Poly.const(sum(want.values())):
            return f"a boundary of size {n!r} for {cells}, expected {sum(want.values())}"
        b = T.L(M.call("ms_boundary", mesh))
        if self.n == 1:
            got = {M.which(T.L(en[0])) for en in b.ents}
            w = {next(iter(k[0])) for k in want}
            return None if got == w and len(b.ents) == len(w) else f"boundary nodes {sorted(got)} of {cells}, expected {sorted(w)}"
        got = M.cells(b, (self.n - 1, M.cell[1]), "ms_sub")
        if bag([g[1] for g in got]) != want:
            return f"boundary {[show(g[1]) for g in got]} of {cells}, expected {[show(k) for k in want]}"
        for ns, k, vs in got:
            if list(vs) != list(ns) or key(vs) != k:
                return f"the boundary cell {show(k)} of {cells} has nodes {ns}"
        return None

    def all(self, mesh, cells):
        for f in (self.content, self.boundary_test, self.boundary_mesh):
            e = f(mesh, cells)
            if e:
                return e
        return None


def h01(R):
    R.minimum = 200
    R.rule("insertion", "a mesh has the cells that were inserted, with their nodes in the given order, and counts them")
    R.rule("erasure", "erasing takes away the erased cell and no other, also when it is erased twice, in any order, and when cells are inserted afterwards")
    R.rule("boundary", "a face of a cell is on the boundary exactly when no cell of the mesh has it with the opposite orientation; the boundary mesh has exactly these faces, as oriented by their cells, on the same nodes")
    R.rule("duplicates", "erasing duplicates leaves exactly one cell for each simplex (up to orientation, or with it)")
    R.rule("sub-cells", "filtering a mesh gives exactly the sub-simplices of its cells, on the same nodes; the nodes of a mesh are those of its cells; flipping a cell reverses its orientation on the same nodes")
    M = Meshes(R)
    M.W.pick = 0

    class S:
        ip, W = M.ip, M.W
    for kind in KINDS:
        n = kind[0]
        lab0 = f"{['', 'segment', 'triangle', 'tetrahedron'][n]}s in {kind[1]}D"
        for nth, (what, cells) in enumerate(COMPLEX[n]):
            for conv in CONVENTIONS:
                M.S.reuse = conv[0] == 1
                lab = f"{lab0}, {what}, conventions {conv}"

                def build(cs=cells):
                    m = M.start(kind, *conv)
                    for k in sorted({x for c in cs for x in c}):
                        M.node(k)
                    return m, [M.insert(m, c, copy=i % 2 == 1) for i, c in enumerate(cs)]

                A = Audit(M, n, lab)

                def go():
                    m, _ = build()
                    return A.content(m, cells)
                run(S, R, "insertion", lab, "mito::mesh", go)

                def go():
                    m, _ = build()
                    return A.boundary_test(m, cells) or A.boundary_mesh(m, cells)
                run(S, R, "boundary", lab, "mito::mesh", go)

                # histories of erasures
                def histories():
                    ks = range(len(cells))
                    for a in ks:
                        yield [a]
                        yield [a, a]
                        for b in ks:
                            if b != a:
                                yield [a, b]
                    if len(cells) > 2:
                        yield list(ks)
                        yield list(reversed(ks))
                for hist in histories() if conv is CONVENTIONS[(nth + kind[1]) % 3] else ([0], [len(cells) - 1, 0]):
                    def go(hist=hist):
                        m, refs = build()
                        left = dict(enumerate(cells))
                        for k in hist:
                            M.call("ms_erase", m, refs[k])
                            left.pop(k, None)
                            e = A.all(m, list(left.values()))
                            if e:
                                return f"after erasing {hist[:hist.index(k) + 1]}: {e}"
                        # and again
                        M.insert(m, cells[hist[0]])
                        e = A.all(m, list(left.values()) + [cells[hist[0]]])
                        return f"after erasing {hist} and inserting {cells[hist[0]]}: {e}" if e else None
                    run(S, R, "erasure", f"{lab}, erasing {hist}", "mito::mesh", go)

                for nm, dup in (("ms_dup_top", lambda c: key(c)[0]), ("ms_dup_geo", key)):
                    def go():
                        m, _ = build()
                        M.call(nm, m)
                        got = M.cells(m)
                        ks = [g[1][0] if nm == "ms_dup_top" else g[1] for g in got]
                        if bag(ks) != {dup(c): 1 for c in cells}:
                            return f"{[(g[0], show(g[1])) for g in got]} are left of {cells}"
                        left = [tuple(g[0]) for g in got]
                        if any(c not in cells for c in left):
                            return f"{left} are left of {cells}"
                        return A.all(m, left)
                    run(S, R, "duplicates", f"{lab}, {nm[7:]}", "mito::mesh", go)

                def go():
                    m, _ = build()
                    f = M.fn("ms_all_nodes")
                    t = D.strip_cvref(M.ip.db.t(f["params"][1]["t"]))
                    out = I.MapV(D.tmpl(t)[1][0], None, cls="std::set", isset=True)
                    M.ip.call_fn(f, None, [m, out])
                    got = sorted(M.which(T.L(en[0])) for en in out.ents)
                    want = sorted({x for c in cells for x in c})
                    if got != want:
                        return f"nodes {got} of {cells}"
                    for i in SUB.get(kind, ()):
                        b = T.L(M.call("ms_filter", m, ix=(i,)))
                        got = M.cells(b, (i, kind[1]), "ms_sub")
                        want = set().union(*[subs(c, i) for c in cells])
                        ks = {g[1] for g in got}
                        if {k[0] for k in ks} != {k[0] for k in want} or not ks <= want | {(k[0], -k[1]) for k in want}:
                            return f"the {i}-dimensional cells {[show(g[1]) for g in got]} of {cells}"
                        for ns, k, vs in got:
                            if ns != vs or key(vs) != k:
                                return f"the cell {show(k)} filtered from {cells} has nodes {ns}"
                    for c in cells:
                        x = T.L(M.call("ms_flip", M.call("ms_cell", M.arr(c))))
                        s = M.simplex(T.L(M.call("ms_simplex", x)))
                        ns = [M.which(T.L(z)) for z in T.L(M.call("ms_nodes_of", x)).e]
                        k = key(c)
                        if s != (k[0], -k[1]) or key(ns) != s:
                            return f"flipping {c} gives {show(s)} on nodes {ns}"
                        x = T.L(M.call("ms_cell", M.arr(c)))
                        y = T.L(M.call("ms_cell_of", T.L(M.call("ms_simplex", x)), M.arr(c)))
                        s, ns = M.simplex(T.L(M.call("ms_simplex", y))), [M.which(T.L(z)) for z in T.L(M.call("ms_nodes_of", y)).e]
                        if s != k or ns != list(c):
                            return f"the cell of simplex {show(k)} on nodes {c} is {show(s)} on nodes {ns}"
                    return None
                run(S, R, "sub-cells", lab, "mito::", go)
        if n != 2:
            continue
        for conv in CONVENTIONS:
            for nth, (c, d) in enumerate((c, d) for e in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) for f in ((2, 1, 3), (1, 3, 2), (3, 2, 1)) for c, d in ((e, f), (f, e))):
                M.start(kind, *conv)
                lab = f"the diagonal of {c} and {d}, {lab0}, conventions {conv}"

                def go():
                    for k in range(4):
                        M.node(k)
                    p = T.L(M.call("ms_flip_diagonal", M.call("ms_cell", M.arr(c)), M.call("ms_cell", M.arr(d))))
                    got = set()
                    for h in ("first", "second"):
                        x = T.L(p.f[h])
                        s = M.simplex(T.L(M.call("ms_simplex", x)))
                        ns = [M.which(T.L(z)) for z in T.L(M.call("ms_nodes_of", x)).e]
                        if key(ns) != s:
                            return f"flipping the diagonal gives {show(s)} on nodes {ns}"
                        got.add(s)
                    if got != {key((0, 1, 3)), key((0, 3, 2))}:
                        return f"flipping the diagonal gives {[show(s) for s in got]}"
                    return None
                run(S, R, "sub-cells", lab, "lib/mito/geometry/utilities.h (mito::geometry::flip_diagonal)", go)


def det(m):
    m = [list(r) for r in m]
    n, s = len(m), Fraction(1)
    for i in range(n):
        j = next((r for r in range(i, n) if m[r][i]), None)
        if j is None:
            return Fraction(0)
        if j != i:
            m[i], m[j] = m[j], m[i]
            s = -s
        s *= m[i][i]
        for r in range(i + 1, n):
            q = m[r][i] / m[i][i]
            m[r] = [x - q * y for x, y in zip(m[r], m[i])]
    return s


REFINE = {1: [("one segment", [(0, 1)]), ("chain", [(0, 1), (1, 2)]), ("segments against each other", [(1, 0), (1, 2)])],
          2: [("one triangle", [(0, 1, 2)]), ("two triangles", [(0, 1, 2), (2, 1, 3)]), ("rotated", [(1, 2, 0), (3, 2, 1)]), ("cells of both orientations", [(0, 1, 2), (1, 2, 3)])],
          3: [("one tetrahedron", [(0, 1, 2, 3)]), ("two tetrahedra", [(0, 1, 2, 3), (1, 0, 2, 4)]), ("two tetrahedra, turned", [(3, 2, 1, 0), (2, 0, 1, 4)])]}


def h02(R):
    R.minimum = 60
    R.rule("children", "every cell is replaced by 2^(order * refinements) cells, each with a 2^(order * refinements)-th of its volume, oriented like it")
    R.rule("nodes", "the nodes of the refined mesh are those of the mesh and the mid-points of its segments, one node for each position on the cells")
    R.rule("conformity", "the refined mesh covers what the mesh covers: faces inside match in opposite orientation, and the faces that do not match lie on faces of the mesh that do not match")
    R.rule("no refinement", "without refinement the result is a mesh of the same cells")
    M = Meshes(R)

    class S:
        ip, W = M.ip, M.W
    for kind in KINDS:
        n, d = kind
        for what, cells in REFINE[n]:
            for steps in (0, 1, 2):
                if steps == 2 and n == 3 and len(cells) > 1:
                    continue
                for conv in CONVENTIONS if steps < 2 else CONVENTIONS[2:]:
                    lab = f"{['', 'segment', 'triangle', 'tetrahedron'][n]}s in {d}D, {what}, {steps} refinements, conventions {conv}"
                    M.S.reuse = False
                    memo = {}

                    def build():
                        m = M.start(kind, *conv)
                        for k in sorted({x for c in cells for x in c}):
                            M.node(k)
                        for c in cells:
                            M.insert(m, c)
                        r = T.L(M.call("ms_refine", m, M.cs, I.Cell(Poly.const(steps), "int")))
                        got = M.cells(r)
                        pos = {}
                        for g in got:
                            for x in g[0]:
                                if x not in pos:
                                    pos[x] = M.position(x)
                        return got, pos

                    def same():
                        m = M.start(kind, *conv)
                        for k in sorted({x for c in cells for x in c}):
                            M.node(k)
                        for c in cells:
                            M.insert(m, c)
                        r = T.L(M.call("ms_refine", m, M.cs, I.Cell(Poly.const(0), "int")))
                        return Audit(M, n, lab).content(r, cells)
                    if steps == 0:
                        run(S, R, "no refinement", lab, "mito::mesh", same)
                        continue

                    def children():
                        got, pos = build()
                        memo["r"] = got, pos
                        per = {}
                        for ns, k, vs in got:
                            # the cell it lies in
                            own = [c for c in cells if all(set(pos[x]) <= set(c) for x in ns)]
                            if len(own) > 1:
                                return f"the cell at {[pos[x] for x in ns]} has no volume"
                            if not own:
                                return f"the cell at {[pos[x] for x in ns]} does not lie in a cell of {cells}"
                            c = own[0]
                            v = det([[pos[x].get(j, Fraction(0)) for j in c] for x in ns])
                            if v != Fraction(1, 2 ** (n * steps)):
                                return f"the cell at {[show_pos(pos[x]) for x in ns]} has {v} of the volume of {c}"
                            if k != key(vs):
                                return f"the cell at {[show_pos(pos[x]) for x in ns]} is oriented against its nodes"
                            per[c] = per.get(c, 0) + 1
                        if any(per.get(c, 0) != 2 ** (n * steps) for c in cells):
                            return f"{per} cells, expected {2 ** (n * steps)} each"
                        return None
                    run(S, R, "children", lab, "mito::mesh", children)
                    if "r" not in memo:
                        continue
                    got, pos = memo["r"]

                    def nodes():
                        build()
                        q = 2 ** steps
                        at = {}
                        for x, p in pos.items():
                            if any((w * q).denominator != 1 for w in p.values()) or any(w < 0 for w in p.values()):
                                return f"a node at {show_pos(p)}"
                            t = tuple(sorted(p.items()))
                            if t in at:
                                return f"two nodes at {show_pos(p)}"
                            at[t] = x
                        for k in {x for c in cells for x in c}:
                            if at.get(((k, Fraction(1)),)) != k:
                                return f"the node {k} of the mesh is not a node of the refined mesh"
                        return None
                    run(S, R, "nodes", lab, "mito::mesh", nodes)

                    def conforms():
                        build()
                        fine = bag([f for g in got for f in faces(g[2])])
                        where = {g[2][i]: pos[g[0][i]] for g in got for i in range(n + 1)}
                        coarse = face_counts(cells)
                        per = {}
                        for f, m in fine.items():
                            inside = [c for c in coarse if all(set(where[v]) <= c[0] for v in f[0])]
                            if not inside:
                                if m != 1 or fine.get((f[0], -f[1]), 0) != 1:
                                    return f"the face at {[show_pos(where[v]) for v in f[0]]} inside a cell is not shared by two cells in opposite orientation"
                                continue
                            # on a face of the mesh: as often, and as oriented, as that one
                            c = inside[0][0]
                            if n == 1:
                                if m != coarse.get(f, 0):
                                    return f"the end {show(f)} occurs {m} times"
                                continue
                            vs = sorted(f[0])
                            s = 1 if det([[where[v].get(j, Fraction(0)) for j in sorted(c)] for v in vs]) > 0 else -1
                            if m != coarse.get((c, f[1] * s), 0):
                                return f"the face at {[show_pos(where[v]) for v in vs]} occurs {m} times, the face {sorted(c)} of the mesh it lies on {coarse.get((c, f[1] * s), 0)} times"
                            per[(c, f[1] * s)] = per.get((c, f[1] * s), 0) + 1
                        if n > 1 and any(per.get(c, 0) != 2 ** ((n - 1) * steps) for c in coarse):
                            return f"the faces of the mesh are divided into { {show(k): v for k, v in per.items()} }"
                        return None
                    run(S, R, "conformity", lab, "mito::mesh", conforms)


def show_pos(p):
    return " + ".join(f"{w}*{k}" if w != 1 else f"{k}" for k, w in sorted(p.items()))


class Repositories(Segmented):
    """repositories by what U02-U06 establish: every insertion makes a resource of its own, walking meets those in use"""

    def __init__(self, W, topo):
        super().__init__(W)
        ip, rp = self.ip, U + "Repository::"
        self.topo = topo
        on = lambda fn: (lambda ip, c: fn(T.L(c.o), c) if isinstance(T.L(c.o), I.Obj) and "slots" in T.L(c.o).f else NotImplemented)
        ip.over[rp + "Repository"] = lambda ip, c: I.Obj(D.strip_cvref(c.t), {"slots": []})
        ip.over[rp + "~Repository"] = lambda ip, c: None
        ip.over[rp + "emplace"] = on(self.made)
        ip.over[rp + "erase"] = on(self.drop)
        ip.over[rp + "size"] = on(lambda v, c: Poly.const(len(self.live(v))))
        ip.over[rp + "begin"] = on(lambda v, c: self.iter(c.t, v, self.next(v, 0)))
        ip.over[rp + "end"] = on(lambda v, c: self.iter(c.t, v, None))
        ip.over[U + "SegmentedContainerIterator::operator*"] = lambda ip, c: topo.handle(c.t, self.at(c.o))

    def made(self, v, c):
        o = self.topo.point()
        v.f["slots"] = v.f["slots"] + [(o, True)]
        return self.topo.handle(c.t, o)

    def drop(self, v, c):
        o = self.topo.target(c.a[0])
        v.f["slots"] = [(x, ok and x is not o) for x, ok in v.f["slots"]]
        T.L(c.a[0]).f["to"] = I.NULL
        return True


def g06(R):
    R.minimum = 12
    R.rule("new points", "every point a cloud is asked for is a new one, also when two requests follow each other, and the cloud of a dimension is one object, whoever asks for it")
    R.rule("the points", "the size of a cloud is the number of its points, and walking it, or the points it gives out, meets each of them once")
    R.rule("nodes", "a node made at coordinates has a point and a vertex of its own, and the point is placed at the coordinates in the given system, and in no other")
    M = Meshes(R)
    M.W.pick = 0
    ip = M.ip
    del ip.over["mito::geometry::point_cloud"], ip.over["mito::geometry::PointCloud::point"]
    Repositories(M.W, M.T)

    class S:
        W = M.W
    S.ip = ip

    def call(name, d, *a):
        for f in M.W.by[name]:
            if int(D.split_targs(f["ta"])[0]) == d:
                return f, ip.call_fn(f, None, list(a))
        raise D.AnalysisBroken(f"no {name} in {d}D")

    def listed(name, d, cloud):
        f = next(f for f in M.W.by[name] if int(D.split_targs(f["ta"])[0]) == d)
        out = I.Arr([], D.tmpl(D.strip_cvref(ip.db.t(f["params"][1]["t"])))[1][0], "std::vector")
        ip.call_fn(f, None, [cloud, out])
        return [M.T.target(h) for h in out.e]
    where = "lib/mito/geometry/PointCloud.h (mito::geometry::PointCloud)"
    for d in (1, 2, 3):
        for order in range(len(ORDERS)):
            lab = f"{d}D, order of addresses {order}"

            def fresh():
                M.T.reset(order)
                return T.L(call("pc_cloud", d)[1])

            def go():
                c = fresh()
                if T.L(call("pc_cloud", d)[1]) is not c:
                    return "two requests for the cloud give two clouds"
                ps = []
                for k in range(4):
                    p = M.T.target(call("pc_point", d, T.L(call("pc_cloud", d)[1]))[1])
                    if p is None:
                        return f"request {k + 1} gives no point"
                    if any(p is q for q in ps):
                        return f"request {k + 1} gives a point that was given out before"
                    ps.append(p)
                return None
            run(S, R, "new points", lab, where, go)

            def go():
                c = fresh()
                ps = []
                for k in range(4):
                    n = ip.n(T.L(call("pc_size", d, c)[1]))
                    if not n.is_const() or int(n.cval()) != len(ps):
                        return f"the cloud reports {n!r} points when it has {len(ps)}"
                    for nm in ("pc_walk", "pc_points"):
                        got = listed(nm, d, c)
                        if len(got) != len(ps) or {id(x) for x in got} != {id(x) for x in ps}:
                            return f"walking a cloud of {len(ps)} points meets {len(got)}, {len({id(x) for x in got})} of them different"
                    ps.append(M.T.target(call("pc_point", d, c)[1]))
                return None
            run(S, R, "the points", lab, where, go)

            def go():
                c = fresh()
                s, other = call("pc_system", d)[1], call("pc_system", d)[1]
                seen = []
                first = M.T.target(call("pc_point", d, c)[1])
                for k in range(3):
                    x = names(d, f"x{k}_") if k < 2 else names(d, "x0_")
                    at = ip.call_fn(M.W.fn("at", (d, 0)), None, [I.Cell(x[i] if i < d else ZERO, "double") for i in range(3)])
                    n = call("pc_node", d, s, at)[1]
                    v, ph = M.T.target(call("pc_vertex_of", d, n)[1]), call("pc_point_of", d, n)[1]
                    p = M.T.target(ph)
                    if p is first or any(p is b or v is a for a, b in seen):
                        return f"node {k + 1} shares its {'point' if p is first or any(p is b for a, b in seen) else 'vertex'} with another"
                    seen.append((v, p))
                    got = M.W.get((d, 0), T.L(call("pc_at", d, s, ph)[1]))
                    if any(ip.n(T.L(g)) != w for g, w in zip(got, x)):
                        return f"the point of a node made at {x} is placed at {got}"
                    if len(listed("pc_walk", d, c)) != k + 2:
                        return f"the cloud has {len(listed('pc_walk', d, c))} points after {k + 1} nodes were made beside one point"
                try:
                    call("pc_at", d, other, ph)
                except I.PathEnd:
                    return None
                return "the point of a node is also placed in another system"
            run(S, R, "nodes", lab, "lib/mito/geometry/factories.h (mito::geometry::node)", go)
