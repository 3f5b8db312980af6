"""Discrete fields: construction, access, insertion and sampling are interpreted on meshes and clouds, with symbolic values and positions."""
import db as D
import interp as I
import tensors as T
from poly import Poly, ZERO
from props import geometry as G
from props import elements as E
from props import mesh as ME
from props.assembly import run


def load():
    db = D.extract("discrete.cc", G.ROOTS)
    db.check_diags(E.CLANG_ONLY)
    return db


def n01(R):
    R.minimum = 60
    R.rule("entries", "a field on a mesh has exactly one entry for each node of the cells of the mesh, one on a cloud exactly one for each point, with the default value; it counts them, and going through it meets each once")
    R.rule("values", "what is written at an entry, by its key or on the way through the field, is what is read there afterwards, and no other entry changes")
    R.rule("keys", "reading or writing at something that is no entry throws; inserting adds exactly one entry, and inserting a key that is there does not replace its value")
    R.rule("sampling", "a field made from a continuous field has at each node the value of the continuous field at the position of the node")
    M = ME.Meshes(R, load())
    M.W.pick = 0
    ip = M.ip
    ip.decide_asserts = True
    PC = "mito::geometry::PointCloud::"

    def cloud_points(ip, c):
        return I.Arr([M.T.handle(st["pt"], M.T.resource(("p", i))) for i in range(M.T.n_points)], st["pt"], "std::vector")
    ip.over[PC + "points"] = cloud_points
    ip.over[PC + "size"] = lambda ip, c: Poly.const(M.T.n_points)
    ip.over[PC + "begin"] = lambda ip, c: I.It(st.setdefault("all", cloud_points(ip, c)), ZERO)
    ip.over[PC + "end"] = lambda ip, c: I.It(st.setdefault("all", cloud_points(ip, c)), "end")
    st = {}
    ip.over["verif::leaf"] = lambda ip, c: Poly.atom("f(" + ", ".join(repr(ip.n(T.L(x))) for x in c.a[:M.cell[1]]) + ")")

    class X:
        ip, W = M.ip, M.W

    def vec(f, i):
        return I.Arr([], D.tmpl(D.strip_cvref(ip.db.t(f["params"][i]["t"])))[1][0], "std::vector")

    def listing(f, name="df_list"):
        """[(node or point, value)]"""
        fn = M.fn(name) if name == "df_list" else next(f for f in M.W.by[name] if M.cell_of(D.split_targs(f["ta"])[0]) == M.cell)
        ks, vs = vec(fn, 1), vec(fn, 2)
        ip.call_fn(fn, None, [f, ks, vs])
        return [(k, ip.n(T.L(v))) for k, v in zip(ks.e, vs.e)]

    def entries(f):
        r = [(M.which(k), v) for k, v in listing(f)]
        d = dict(r)
        return (d, None) if len(d) == len(r) else (None, f"the field lists entries twice: {[k for k, _ in r]}")

    def count(f):
        k = ip.n(T.L(M.call("df_size", f)))
        return int(k.cval()) if k.is_const() else repr(k)

    def same(f, want, what):
        d, e = entries(f)
        if e:
            return e
        if set(d) != set(want):
            return f"{what} the field has the entries {sorted(map(str, d))}, {sorted(map(str, want))} expected"
        for k, v in want.items():
            if not (d[k] - v).is_const() or (d[k] - v).cval():
                return f"{what} the value at {k} is {d[k]!r}, not {v!r}"
            g = ip.n(T.L(M.call("df_at", f, M.nodes[k])))
            if not (g - v).is_const() or (g - v).cval():
                return f"{what} reading at {k} gives {g!r}, not {v!r}"
        if count(f) != len(want):
            return f"{what} the field counts {count(f)} entries of {len(want)}"
        return None

    def throws(go, what):
        try:
            go()
        except I.PathEnd as e:
            return None if e.kind in ("throw", "exc", "abort") else f"{what}: {e.kind}: {e.why}"
        return f"{what} goes through"

    def cell_value(x):
        return I.Cell(x, "double")
    for n in (1, 2, 3):
        kind = (n, n)
        for nth, (what, cells) in enumerate(ME.COMPLEX[n]):
            for own in (False, True):
                conv = ME.CONVENTIONS[(nth + own) % 3]
                lab = f"{['', 'segments', 'triangles', 'tetrahedra'][n]}, {what}, {'nodes of their own' if own else 'shared nodes'}"

                def build():
                    m = M.start(kind, *conv)
                    st.clear()
                    st["pt"] = next(D.tmpl(D.strip_cvref(ip.db.t(f["params"][1]["t"])))[1][0] for f in M.W.by["df_points"] if M.cell_of(D.split_targs(f["ta"])[0]) == kind)
                    M.node(99)
                    for k in sorted({x for c in cells for x in c}):
                        M.node(k)
                    et = D.tmpl(D.strip_cvref(ip.db.t(M.fn("ms_insert")["params"][1]["t"])))[1][0]
                    ks = []
                    for i, c in enumerate(cells):
                        if own:
                            for k in c:
                                M.nodes[(k, i)] = M.call("ms_again", M.nodes[k])
                            ks += [(k, i) for k in c]
                            M.call("ms_insert", m, I.Arr([M.nodes[(k, i)] for k in c], et, "std::array"))
                        else:
                            ks += list(c)
                            M.insert(m, c)
                    return m, list(dict.fromkeys(ks))

                def go():
                    m, ks = build()
                    e = same(M.call("df_mesh", m), {k: ZERO for k in ks}, "")
                    if e:
                        return e
                    r = listing(M.call("df_cloud", M.T.cloud), "df_points")
                    ids = [M.T.target(k).f["key"][1] for k, _ in r]
                    if sorted(ids) != list(range(M.T.n_points)):
                        return f"the field on the cloud has the points {sorted(ids)} of {M.T.n_points}"
                    if any(not v.is_const() or v.cval() for _, v in r):
                        return f"the values of a new field on a cloud are {[v for _, v in r]}"
                    return None
                run(X, R, "entries", lab, "mito::discrete", go)

                def go():
                    m, ks = build()
                    f = M.call("df_mesh", m)
                    want = {k: ZERO for k in ks}
                    for i, k in enumerate(ks):
                        want[k] = Poly.atom(f"v{i}")
                        M.call("df_set", f, M.nodes[k], cell_value(want[k]))
                        e = same(f, want, f"after writing at {k}")
                        if e:
                            return e
                    s = Poly.atom("s")
                    M.call("df_scale", f, cell_value(s))
                    return same(f, {k: s * v for k, v in want.items()}, "after scaling")
                run(X, R, "values", lab, "mito::discrete", go)

                def go():
                    m, ks = build()
                    f = M.call("df_mesh", m)
                    a = Poly.atom("a")
                    want = {k: ZERO for k in ks}
                    want[ks[0]] = a
                    M.call("df_set", f, M.nodes[ks[0]], cell_value(a))
                    e = throws(lambda: M.call("df_at", f, M.nodes[99]), "reading at a node that is no entry") or \
                        throws(lambda: M.call("df_set", f, M.nodes[99], cell_value(a)), "writing at a node that is no entry") or same(f, want, "after a refused access")
                    if e:
                        return e
                    M.call("df_insert", f, M.nodes[99], cell_value(Poly.atom("b")))
                    want[99] = Poly.atom("b")
                    e = same(f, want, "after an insertion")
                    if e:
                        return e
                    for asserts in (True, False):     # with and without the assertions
                        ip.decide_asserts = asserts
                        try:
                            M.call("df_insert", f, M.nodes[ks[0]], cell_value(Poly.atom("c")))
                        except I.PathEnd as x:
                            if x.kind not in ("throw", "exc", "abort"):
                                raise
                        finally:
                            ip.decide_asserts = True
                    return same(f, want, "after inserting again")
                run(X, R, "keys", lab, "mito::discrete", go)

                def go():
                    m, ks = build()
                    want = {k: Poly.atom("f(" + ", ".join(repr(p) for p in G.names(n, f"x{k[0] if own else k}_")) + ")") for k in ks}
                    return same(M.call("df_cont", m, M.cs), want, "")
                run(X, R, "sampling", lab, "mito::discrete", go)
