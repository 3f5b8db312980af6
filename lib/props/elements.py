"""Finite elements and quadrature: shape functions, isoparametric maps and quadrature tables are interpreted on symbolic reference
coordinates and symbolic cells, and compared with the interpolation and integration they have to provide."""
import itertools
from fractions import Fraction
import db as D
import interp as I
import more
import tensors as T
from poly import Poly, ZERO, ONE, atom_of, atom_id
from props import geometry as G
from props.geometry import World, compare, names, vcomps, dot

# rejected by clang only; the library's own compiler accepts them
CLANG_ONLY = ("use 'template' keyword to treat", "must be initialized by a constant expression", "static assertion expression is not an integral constant expression")


def load(drv="elements.cc"):
    db = D.extract(drv, G.ROOTS)
    db.check_diags(CLANG_ONLY)
    return db


class Cells:
    """stand-ins for cells, nodes and coordinate systems: what the library asks of them, by name"""

    def __init__(self, W):
        self.W, self.ip = W, W.ip
        ip = W.ip

        def nodes(ip, c):
            o = T.L(c.o)
            return o.f["nodes"] if isinstance(o, I.Obj) and "nodes" in o.f else NotImplemented

        def arrow(ip, c):
            o = T.L(c.o)
            return I.Ptr(o) if isinstance(o, I.Obj) and o.cls == "node" else NotImplemented

        def point(ip, c):
            o = T.L(c.o)
            return o.f["point"] if isinstance(o, I.Obj) and o.cls == "node" else NotImplemented

        def coords(ip, c):
            p = T.L(c.a[0])
            return p.f["x"] if isinstance(p, I.Obj) and p.cls == "point" else NotImplemented
        ip.over["mito::geometry::GeometricSimplex::nodes"] = nodes
        ip.over["mito::utilities::StdSharedPointer::operator->"] = arrow
        ip.over["std::__shared_ptr_access::operator->"] = arrow
        ip.over["mito::geometry::GeometricSimplex::point"] = point
        ip.over["mito::geometry::CoordinateSystem::coordinates"] = coords

    def cell(self, t, kind, pts):
        """a cell with nodes at the given coordinates"""
        ns = []
        for k, x in enumerate(pts):
            ns.append(I.Obj("node", {"point": I.Obj("point", {"x": self.at(kind, x), "i": k}), "i": k}))
        o = I.Obj(t, {"nodes": I.Arr(ns, None, "std::array")})
        r = self.W.db.rec_by_t.get(t)
        # the library's own code may go to its field of nodes directly
        for f in r["fields"] if r else ():
            if D.tmpl(D.strip_cvref(self.W.db.t(f["t"])))[0] == "std::array":
                o.f[f["n"]] = o.f["nodes"]
        return o

    def at(self, kind, x):
        ps = [I.Cell(x[i] if i < kind[0] else ZERO, "double") for i in range(3)]
        return self.ip.call_fn(self.W.fn("at", kind), None, ps)


EL = {"IsoparametricSegmentP1": (1, 1, [(0,), (1,)]),
      "IsoparametricTriangleP1": (2, 1, [(1, 0), (0, 1), (0, 0)]),
      "IsoparametricTriangleP2": (2, 2, [(1, 0), (0, 1), (0, 0), (Fraction(1, 2), Fraction(1, 2)), (0, Fraction(1, 2)), (Fraction(1, 2), 0)])}


def short(W, f):
    for z in D.split_targs(f.get("ta") or ""):
        b = z.split("::")[-1]
        if b in EL:
            return b
    return None


def monomials(n, deg):
    return [e for e in itertools.product(range(deg + 1), repeat=n) if sum(e) <= deg]


def ev_mono(e, xs):
    r = ONE
    for k, x in zip(e, xs):
        for _ in range(k):
            r = r * x
    return r


def e01(R):
    R.minimum = 45
    R.rule("interpolation", "each shape function is one at its own node and zero at the others, and together they reproduce every polynomial up to the element's degree")
    R.rule("shape derivatives", "the derivatives of the shape functions are exact")
    R.rule("isoparametric map", "the parametrization is the combination of the node positions by the shape functions; the jacobian is its derivative")
    R.rule("gradients", "the gradient of a shape function is its derivative in physical space: contracted with the jacobian it gives the derivative in reference space")
    W = World(load(), R)
    C = Cells(W)
    ip = W.ip
    for el, (n, deg, ref) in EL.items():
        kind = (n, 0)
        nv = n + 1
        xi = names(n, "xi")
        ids = [atom_id(f"xi{i}") for i in range(n)]
        ring = T.Ring()
        X = [[Poly.atom(f"x{k}{i}") for i in range(n)] for k in range(nv)]
        full = X + ([[(X[a][i] + X[b][i]).scale(Fraction(1, 2)) for i in range(n)] for a, b in ((0, 1), (1, 2), (2, 0))] if deg == 2 else [])
        fns = {}
        for nm in W.by:
            if nm.startswith("el_"):
                for f in W.by[nm]:
                    if short(W, f) == el:
                        ix = [int(z) for z in D.split_targs(f.get("ta") or "") if z.strip().isdigit()]
                        fns[nm[3:], ix[0] if ix else 0] = f
        nn = len(ref)
        if sum(1 for k in fns if k[0] == "shape") != nn:
            raise D.AnalysisBroken(f"{el}: {sum(1 for k in fns if k[0] == 'shape')} shape functions instantiated")

        def ev(what, a=0):
            f = fns[what, a]

            def go():
                ip.analysed = set()
                mk = fns["make", 0]
                cell = C.cell(D.strip_cvref(W.db.t(mk["params"][0]["t"])), kind, X)
                cs = I.Obj(D.strip_cvref(W.db.t(mk["params"][1]["t"])), {})
                e = ip.call_fn(mk, None, [cell, cs, I.Arr([I.Obj("dnode", {}) for _ in range(nn)], None, "std::array")])
                x = C.at(kind, xi)
                return ip.call_fn(f, None, [e, x]), None
            r = W.one(go)[0]
            R.used(ip)
            return r
        phi, dphi = {}, {}
        for a in range(nn):
            def shape():
                phi[a] = ip.n(T.L(ev("shape", a)))
                w = W.where("mito::fem::")
                for b, p in enumerate(ref):
                    v = phi[a].subst({i: Poly.const(z) for i, z in zip(ids, p)})
                    if not ring.same(v, ONE if a == b else ZERO):
                        R.bad("interpolation", f"{el} node {a}", SH[el], f"shape function {a} is {v!r} at node {b}, reference coordinates {tuple(map(str, p))}")
                        return
                R.ok("interpolation", f"{el} node {a}", SH[el])
            R.guard("interpolation", f"{el} node {a}", "", shape)

            def deriv():
                r = ev("dshape", a)
                dphi[a] = vcomps(r) if T.is_t(T.L(r)) else [ip.n(T.L(r))]
                compare(R, "shape derivatives", f"{el} shape function {a}", SH[el], ring, dphi[a], [ring.d(phi[a], i) for i in ids], "derivative")
            R.guard("shape derivatives", f"{el} {a}", "", deriv)
        if len(phi) < nn:
            continue

        for m in monomials(n, deg):
            def repro():
                nodes = [[Poly.const(z) for z in p] for p in ref]
                got = T.total(phi[a] * ev_mono(m, nodes[a]) for a in range(nn))
                compare(R, "interpolation", f"{el} reproduces degree {m}", SH[el], ring, [got], [ev_mono(m, xi)], "interpolant")
            R.guard("interpolation", f"{el} {m}", "", repro)
        pos = [T.total(phi[a] * full[a][i] for a in range(nn)) for i in range(n)]
        J = [[ring.d(p, j) for j in ids] for p in pos]
        detJ = T.det(J, n)

        def param():
            r = ev("param")
            got = coords_or_vec(W, kind, r)
            compare(R, "isoparametric map", f"{el} parametrization", W.where("mito::"), ring, got, pos, "coordinate")
        R.guard("isoparametric map", f"{el} parametrization", "", param)

        def jac():
            r = T.L(ev("jacobian"))
            got = [T.comp(r, (i, j)) for i in range(n) for j in range(n)] if T.is_t(r) else [ip.n(r)]
            compare(R, "isoparametric map", f"{el} jacobian", W.where("mito::fem::" + el), ring, got, [J[i][j] for i in range(n) for j in range(n)], "entry")
        R.guard("isoparametric map", f"{el} jacobian", "", jac)
        for a in range(nn):
            def grad():
                r = T.L(ev("gradient", a))
                g = vcomps(r) if T.is_t(r) else [ip.n(r)]
                got = [T.total(g[i] * J[i][j] for i in range(n)) for j in range(n)]
                compare(R, "gradients", f"{el} shape function {a}", W.where("mito::fem::" + el), ring, got, [ring.d(phi[a], i) for i in ids], "contraction")
            R.guard("gradients", f"{el} {a}", "", grad)


SH = {"IsoparametricSegmentP1": "lib/mito/fem/elements/seg1/ShapeSegmentP1.h", "IsoparametricTriangleP1": "lib/mito/fem/elements/tri1/ShapeTriangleP1.h",
      "IsoparametricTriangleP2": "lib/mito/fem/elements/tri2/ShapeTriangleP2.h"}


def coords_or_vec(W, kind, r):
    r = T.L(r)
    if T.is_t(r):
        return vcomps(r)
    if isinstance(r, I.Obj):
        return W.get(kind, r)
    return [W.ip.n(r)]




def e02(R):
    R.minimum = 40
    R.rule("weights", "the weights of a quadrature rule add up to one")
    R.rule("points", "the quadrature points lie in the reference simplex")
    R.rule("exactness", "a rule of degree r integrates every polynomial of degree up to r exactly over the reference simplex (to the precision of the tabulated numbers)")
    R.rule("area", "the measure of a reference simplex is one over the factorial of its dimension")
    W = World(load(), R)
    ip = W.ip
    tol = Fraction(1, 10 ** 12)

    def dim(f):
        t = D.split_targs(f["ta"])[0].split("::")[-1]
        n = D.tmpl(t)[1][0] if "<" in t else ""
        if n.isdigit() and 1 <= int(n) <= 3:
            return int(n)
        raise D.AnalysisBroken(f"reference simplex {t}")

    def rule_of(f):
        return dim(f), int(D.split_targs(f["ta"])[1])
    by = {nm: {rule_of(f): f for f in W.by.get(nm, [])} for nm in ("qr_points", "qr_point", "qr_weight")}
    areas = {dim(f): f for f in W.by.get("rs_area", [])}
    if len(by["qr_point"]) < 8 or len(areas) < 3:
        raise D.AnalysisBroken("quadrature rules not instantiated")

    def call(f, *a):
        def go():
            ip.analysed = set()
            return ip.call_fn(f, None, [I.Cell(Poly.const(x), "int") for x in a])
        r = W.one(go)
        R.used(ip)
        return r
    names_ = {1: "segment", 2: "triangle", 3: "tetrahedron"}
    meas = {}
    for n, f in sorted(areas.items()):
        def area():
            meas[n] = number(ip.n(T.L(call(f))))
            R.check(abs(meas[n] - Fraction(1, fact(n))) < tol, "area", names_[n], W.where("mito::geometry::"), f"measure {float(meas[n])}, should be 1/{fact(n)}")
        R.guard("area", names_[n], "", area)
    for (n, r), f in sorted(by["qr_point"].items()):
        def table():
            inst = f"degree {r} on the {names_[n]}"
            N = int(number(ip.n(T.L(T.L(call(by['qr_points'][n, r])).e[0]))))
            ps, ws = [], []
            for q in range(N):
                p = call(f, q)
                w = W.where("mito::quadrature::QuadratureTable")
                ps.append([number(x) for x in coords_or_vec(W, (n, 0), p)])
                ws.append(number(ip.n(T.L(call(by["qr_weight"][n, r], q)))))
            w = TABLES[n]
            R.check(abs(sum(ws) - 1) < tol, "weights", inst, w, f"the {N} weights add up to {float(sum(ws))!r}")
            out = [k for k, p in enumerate(ps) if min(p) < -tol or sum(p) > 1 + tol]
            R.check(not out, "points", inst, w, f"points {out} of {N} lie outside the reference simplex")
            for m in monomials(n, r):
                if not sum(m):
                    continue
                got = sum(wt * fprod(x ** e for x, e in zip(p, m)) for wt, p in zip(ws, ps)) * meas[n]
                want = Fraction(fprod(fact(e) for e in m), fact(n + sum(m)))
                R.check(abs(got - want) < tol, "exactness", f"{inst}, monomial of exponents {m}", w, f"integrates to {float(got)!r}, should be {float(want)!r}")
        R.guard("exactness", f"{r} {n}", "", table)


TABLES = {1: "lib/mito/quadrature/quadrature_tables_segments.icc", 2: "lib/mito/quadrature/quadrature_tables_triangles.icc", 3: "lib/mito/quadrature/quadrature_tables_tetrahedra.icc"}


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def fprod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def cell_of(db, t):
    """(order, dimension) of a geometric simplex"""
    b, ta = D.tmpl(D.strip_cvref(t))
    return (int(ta[0]), int(ta[1])) if b.split("::")[-1] == "GeometricSimplex" else None


SN = {1: "segment", 2: "triangle", 3: "tetrahedron"}


def g05(R):
    R.minimum = 30
    R.rule("barycenter", "the barycenter of a cell is the mean of the positions of its nodes")
    R.rule("directors", "the directors of a cell are the displacements from its first node to the others, in the frame at the first node")
    R.rule("parametrization", "the parametrization of a cell is the affine map that sends the vertices of the reference simplex to the nodes, in order up to a symmetry of the reference simplex")
    R.rule("volume", "the volume of a cell is the volume form (contracted with the normal fields on a submanifold) of its directors at the first node over the factorial of its order; "
                     "the volume of a manifold is the sum over its cells")
    R.rule("integral", "the integral of a field over a manifold is the sum over cells and quadrature points of weight, volume of the cell and value of the field at the image of the quadrature point")
    W = World(load("cells.cc"), R)
    C = Cells(W)
    ip = W.ip
    db = W.db
    maps, jobs = {}, []

    def elements(ip, c):
        o = T.L(c.o)
        return o.f["cells"] if isinstance(o, I.Obj) and "cells" in o.f else NotImplemented
    ip.over["mito::mesh::Mesh::cells"] = elements
    more.standins(ip)

    def setting(f):
        kc = next(z for z in (cell_of(db, db.t(p["t"])) for p in f["params"]) if z)
        kx = next(z for z in (cs_kind(db, db.t(p["t"])) for p in f["params"]) if z)
        return kc, kx

    def cs_kind(db, t):
        b, ta = D.tmpl(D.strip_cvref(t))
        return G.kind_of(db, ta[0]) if b.split("::")[-1] == "CoordinateSystem" else None

    def args(f, kc, kx, ncells=1):
        out = []
        t = next(D.strip_cvref(db.t(p["t"])) for p in f["params"] if cell_of(db, db.t(p["t"])))
        cells = [C.cell(t, kx, [names(kx[0], f"c{k}n{i}x") for i in range(kc[0] + 1)]) for k in range(ncells)]
        for k, c in enumerate(cells):
            for fd in db.rec_by_t[t]["fields"]:
                ft = D.strip_cvref(db.t(fd["t"]))
                if fd["n"] not in c.f and not D.is_ref(ft):
                    c.f[fd["n"]] = G.handles(W, ft, k) if "SharedPointer" in ft else I.Obj(ft, {}, name=f"simplex{k}")
        for p in f["params"]:
            t = D.strip_cvref(db.t(p["t"]))
            b, ta = D.tmpl(t)
            if cell_of(db, t):
                out.append(cells[0])
            elif b.split("::")[-1] == "Mesh":
                out.append(I.Obj(t, {"cells": I.Arr(cells, None, "std::vector")}))
            elif b.split("::")[-1] == "CoordinateSystem":
                out.append(I.Obj(t, {}))
            else:
                n = kc[0]
                out.append(xi_of(t, n))
        return out

    def xi_of(t, n):
        if "Tensor<" in t:
            return T.new(t, lambda i: Poly.atom(f"xi{i[0]}"))
        if D.tmpl(t)[0].split("::")[-1] == "Coordinates":
            return C.at((n, 0), names(n, "xi"))
        return I.Arr([I.Cell(x, "double") for x in names(n, "xi")], "double", "std::array")

    def run(f, kc, kx, ncells=1):
        def go():
            ip.analysed = set()
            ip.leafdim["n"] = kx[0]
            return ip.call_fn(f, None, args(f, kc, kx, ncells))
        r = W.one(go)
        R.used(ip)
        return r
    def plan(nm, f):
        kc, kx = setting(f)
        N, Dm = kc
        n, k = kx
        inst = f"{SN[N]} in {G.LABEL[kx]} coordinates"
        ring = G.Trig()
        X = [names(n, f"c0n{i}x") for i in range(N + 1)]
        P = [G.position(k, x) for x in X]
        FR = G.frame(k, X[0])

        def bary():
            r = W.one(lambda: W.get(kx, run(f, kc, kx)))
            compare(R, "barycenter", inst, W.where("mito::geometry::barycenter"), ring, G.position(k, r), [T.total(p[i] for p in P).scale(Fraction(1, N + 1)) for i in range(len(P[0]))], "position")

        def dirs():
            r = T.L(run(f, kc, kx))
            w = W.where("mito::geometry::directors")
            p, ds = T.L(r.f["first"]), T.L(r.f["second"])
            got = W.one(lambda: W.get(kx, p))
            want = list(X[0])
            for j in range(N):
                v = vcomps(ds.e[j])
                got += [T.total(v[i] * FR[i][c] for i in range(n)) for c in range(len(FR[0]))]
                want += [y - x for x, y in zip(P[0], P[j + 1])]
            if len(ds.e) != N:
                R.bad("directors", inst, w, f"{len(ds.e)} directors")
                return
            compare(R, "directors", inst, w, ring, got, want, "component")

        def vec(a, j):
            """displacement from node 0 to node j of cell a, in the frame at node 0"""
            x0, xj = names(n, f"c{a}n0x"), names(n, f"c{a}n{j}x")
            p0, pj, F = G.position(k, x0), G.position(k, xj), G.frame(k, x0)
            return [dot(F[i], [y - z for y, z in zip(pj, p0)]) for i in range(n)]

        def vol(a, normals=()):
            M = [list(z) for z in normals] + [vec(a, j) for j in range(1, N + 1)]
            return T.det([[r[i] for r in M] for i in range(n)], n).scale(Fraction(1, fact(N)))

        def rngs(a):
            return G.Trig([y for b in range(a) for y in G.positive(k, names(n, f"c{b}n0x"))])

        def volume():
            r = ip.n(T.L(run(f, kc, kx)))
            compare(R, "volume", inst, W.where("mito::manifolds::Manifold::_volume"), rngs(1), [r], [vol(0)], "volume")

        def total():
            r = ip.n(T.L(run(f, kc, kx, 2)))
            compare(R, "volume", inst + ", two cells", W.where("mito::manifolds::Manifold::volume"), rngs(2), [r], [vol(0) + vol(1)], "volume")

        def sub():
            r = ip.n(T.L(run(f, kc, kx)))
            nv = [[G.op_atom(s, (i,), (), X[0]) for i in range(n)] for s in "vw"[:n - N]]
            compare(R, "volume", inst + f", {n - N} normal fields", W.where("mito::manifolds::"), ring, [r], [vol(0, nv)], "volume")

        def param():
            r = run(f, kc, kx)
            got = coords_or_vec(W, kx, r)
            w = W.where("mito::geometry::GeometricSimplex")
            ids = [atom_id(f"xi{i}") for i in range(N)]
            verts = [[ONE if i == j else ZERO for i in range(N)] for j in range(N)] + [[ZERO] * N]
            img = [[g.subst(dict(zip(ids, v))) for g in got] for v in verts]
            # affine: determined by the images of the vertices
            rest = T.total(names(N, "xi"))
            aff = [T.total(names(N, "xi")[j] * img[j][i] for j in range(N)) + (ONE - rest) * img[N][i] for i in range(n)]
            for g, q in zip(got, aff):
                if not ring.same(g, q):
                    R.bad("parametrization", inst, w, f"is not affine: {g!r}"[:250])
                    return
            left = list(range(N + 1))
            for j, v in enumerate(img):
                m = [q for q in left if all(ring.same(y, z) for y, z in zip(v, X[q]))]
                if not m:
                    R.bad("parametrization", inst, w, f"sends vertex {j} of the reference simplex to {v!r}, which is no other node"[:300])
                    return
                left.remove(m[0])
            R.ok("parametrization", inst, w)
            maps[N, n] = img
        maps_key = (N, n)

        def integral():
            r = int(D.split_targs(f["ta"])[-1])
            got = ip.n(T.L(run(f, kc, kx, 2)))
            w = W.where("mito::quadrature::Integrator")
            ps, ws = rule_values(W, r, N)
            if maps_key not in maps:
                raise I.Undecided("parametrization not known")
            want = ZERO
            for a in range(2):
                for p, wt in zip(ps, ws):
                    lam = list(p) + [1 - sum(p)]
                    x = [T.total(maps[maps_key][j][i].scale(lam[j]) for j in range(N + 1)) for i in range(n)]
                    if a:
                        ren = {atom_id(f"c0n{q}x{i}"): Poly.atom(f"c1n{q}x{i}") for q in range(N + 1) for i in range(n)}
                        x = [y.subst(ren) for y in x]
                    want = want + G.op_atom("f", (), (), x) * vol(a).scale(wt)
            compare(R, "integral", f"{inst}, degree {r}", w, ring, [got], [want], "integral")
        fn = {"cell_barycenter": bary, "cell_directors": dirs, "cell_volume": volume, "cell_total": total, "cell_param": param, "cell_integral": integral,
              "sub_volume1": sub, "sub_volume2": sub}[nm]
        jobs.append((nm == "cell_integral", {"cell_barycenter": "barycenter", "cell_directors": "directors", "cell_param": "parametrization", "cell_integral": "integral"}.get(nm, "volume"), inst, fn))
    for nm in sorted(W.by):
        if nm.startswith(("cell_", "sub_")):
            for f in W.by[nm]:
                plan(nm, f)
    for last, rule, inst, fn in sorted(jobs, key=lambda j: j[0]):
        R.guard(rule, inst, "", fn)
    if len(jobs) < 30:
        raise D.AnalysisBroken("queries on cells not instantiated")


def rule_values(W, r, n):
    """points and weights of the quadrature rule of degree r on the reference simplex of order n"""
    ip = W.ip

    def fn(nm):
        for f in W.by.get(nm, []):
            ta = D.split_targs(f["ta"])
            t = D.tmpl(ta[0].split("::")[-1])[1]
            if t and t[0] == str(n) and int(ta[1]) == r:
                return f
        raise D.AnalysisBroken(f"{nm} {n} {r}")

    def call(f, *a):
        return W.one(lambda: ip.call_fn(f, None, [I.Cell(Poly.const(x), "int") for x in a]))
    N = int(number(ip.n(T.L(T.L(call(fn("qr_points"))).e[0]))))
    ps = [[number(x) for x in coords_or_vec(W, (n, 0), call(fn("qr_point"), q))] for q in range(N)]
    return ps, [number(ip.n(T.L(call(fn("qr_weight"), q)))) for q in range(N)]


def number(p):
    if any(m for m in p.t):
        raise I.Undecided(f"not a number: {p!r}"[:200])
    return Fraction(p.t.get((), 0))
