"""Partitions of meshes: the partitioner is interpreted against METIS as its manual describes it, for arbitrary answers of METIS."""
import db as D
import interp as I
import tensors as T
from poly import Poly, ZERO
from props import geometry as G
from props import elements as E
from props import mesh as ME
from props.assembly import run

OK = 1


def load():
    db = D.extract("metis.cc", G.ROOTS)
    db.check_diags(E.CLANG_ONLY)
    return db


def q01(R):
    R.minimum = 60
    R.rule("given to METIS", "METIS is given the numbers of cells, vertices and parts of the mesh, for each cell its vertices under a one-to-one numbering of the vertices from zero, and the number of vertices "
                             "that neighbours share")
    R.rule("parts", "whatever METIS answers, the part of a process has exactly the cells that METIS assigns to it, on the same nodes in the same order: each cell is in exactly one part")
    R.rule("single part", "partitioning for one process gives all the cells of the mesh")
    M = ME.Meshes(R, load())
    M.W.pick = 0
    ip = M.ip
    ip.decide_asserts = True

    class X:
        ip, W = M.ip, M.W
    st = {}

    def val(p):
        p = T.L(p)
        while isinstance(p, I.Ptr):
            p = T.L(ip.deref(p))
        p = ip.n(p)
        if not p.is_const():
            raise I.Undecided("a symbolic number given to METIS")
        return int(p.cval())

    def arr(p, n):
        q = T.L(p)
        if not isinstance(q, I.Ptr) or not isinstance(q.b, I.Arr):
            raise I.Undecided("an array given to METIS")
        r = []
        for i in range(n):
            r.append(val(ip.deref(ip.add(q, Poly.const(i)))))
        return r

    def null(p):
        p = T.L(p)
        return p is None or p is I.NULL or (isinstance(p, Poly) and p.is_const() and not p.cval())

    def metis(ip, c):
        ne, nn, eptr, eind, vwgt, vsize, ncommon, nparts, tp, opts, objval, epart, npart = c.a
        e = val(ne)
        off = arr(eptr, e + 1)
        st["calls"] = st.get("calls", 0) + 1
        st["given"] = (e, val(nn), off, arr(eind, off[-1]), val(ncommon), val(nparts), all(null(x) for x in (vwgt, vsize, tp)), bool(st.get("defaults")))
        paint = [st["paint"](i) for i in range(e)]
        q = T.L(epart)
        for i, x in enumerate(paint):
            ip.assign(ip.deref(ip.add(q, Poly.const(i))), Poly.const(x))
        q = T.L(npart)
        for i in range(val(nn)):
            ip.assign(ip.deref(ip.add(q, Poly.const(i))), ZERO)
        ip.assign(ip.deref(T.L(objval)), ZERO)
        return Poly.const(OK)
    ip.over["METIS_PartMeshDual"] = metis

    def defaults(ip, c):
        st["defaults"] = True
        return Poly.const(OK)
    ip.over["METIS_SetDefaultOptions"] = defaults

    def cells_of(mesh):
        return [ns for ns, s, vs in M.cells(mesh)]

    def given(mesh, cells, parts):
        """what is wrong with what METIS was given"""
        e, nn, off, ind, common, np_, plain, opts = st["given"]
        n = M.cell[0]
        if e != len(cells):
            return f"METIS is given {e} cells of {len(cells)}"
        if np_ != parts:
            return f"METIS is asked for {np_} parts, not {parts}"
        if off != [(n + 1) * i for i in range(e + 1)]:
            return f"the cells start at {off} in the list of their vertices"
        vs = [v for ns, s, w in M.cells(mesh) for v in w]
        if nn != len(set(vs)):
            return f"METIS is given {nn} vertices of {len(set(vs))}"
        if any(not 0 <= i < nn for i in ind):
            return f"the vertices of the cells are numbered {ind}"
        if len({(v, i) for v, i in zip(vs, ind)}) != len(set(vs)) or len(set(ind)) != len(set(vs)):
            return f"the vertices {vs} are numbered {ind}: not one to one"
        if common != n:
            return f"neighbours are said to share {common} vertices, not {n}"
        if not plain:
            return "weights are given that the mesh does not have"
        return None

    PAINT = [("in turns", lambda k: (lambda e: e % k)), ("backwards", lambda k: (lambda e: (k - 1 - e) % k)), ("all to the last", lambda k: (lambda e: k - 1)), ("scattered", lambda k: (lambda e: (5 * e * e + e // 2 + 1) % k))]
    for n in (1, 2, 3):
        kind = (n, n)
        lab0 = ["", "segments", "triangles", "tetrahedra"][n]
        for nth, (what, cells) in enumerate(ME.COMPLEX[n]):
            for erased in (None, 0, len(cells) - 1) if len(cells) > 1 else (None,):
                conv = ME.CONVENTIONS[(nth + (0 if erased is None else 1)) % 3]
                left = [c for i, c in enumerate(cells) if i != erased]
                lab1 = f"{lab0}, {what}" + ("" if erased is None else f", cell {erased} erased")

                def build():
                    m = M.start(kind, *conv)
                    for k in sorted({x for c in cells for x in c}):
                        M.node(k)
                    refs = [M.insert(m, c) for c in cells]
                    if erased is not None:
                        M.call("ms_erase", m, refs[erased])
                    st.clear()
                    return m

                def go():
                    m = build()
                    st["paint"] = lambda e: 7
                    got = cells_of(M.call("mt_partition", m, Poly.const(1), ZERO))
                    return None if got == [list(c) for c in left] else f"the part has the cells {got}, the mesh {left}"
                run(X, R, "single part", lab1, "mito::mesh::metis::Partitioner", go)
                for k in (2, 3):
                    def go():
                        m = build()
                        st["paint"] = PAINT[0][1](k)
                        M.call("mt_partition", m, Poly.const(k), ZERO)
                        if st.get("calls") != 1:
                            return f"METIS is called {st.get('calls', 0)} times"
                        return given(m, left, k)
                    run(X, R, "given to METIS", f"{lab1}, {k} parts", "mito::mesh::metis::Partitioner", go)
                    for pname, paint in PAINT:
                        def go():
                            m = build()
                            st["paint"] = paint(k)
                            for r in range(k):
                                want = [list(c) for i, c in enumerate(left) if paint(k)(i) == r]
                                got = cells_of(M.call("mt_partition", m, Poly.const(k), Poly.const(r)))
                                if got != want:
                                    return f"process {r} gets the cells {got}, METIS assigns it {want}"
                            return None
                        run(X, R, "parts", f"{lab1}, {k} parts {pname}", "mito::mesh::metis::Partitioner", go)
