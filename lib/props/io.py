"""Mesh files: writing and reading are interpreted with symbolic coordinates on a model of files; what is in the file is judged by the summit format."""
import db as D
import interp as I
import intrinsics as N
import tensors as T
import strings as STR
import streams as S
from poly import Poly, ZERO
from props import geometry as G
from props import elements as E
from props import mesh as ME
from props.geometry import names
from props.assembly import run

CLANG_ONLY = tuple(E.CLANG_ONLY) + ("alias template",)
TYPE = {1: 2, 2: 3, 3: 4}
DIGITS = 15


def load():
    db = D.extract("io.cc", G.ROOTS)
    db.check_diags(CLANG_ONLY)
    return db


def parse(buf, n):
    """(positions of the points, cells as numbers of points) of a file in the format; a text that says what is wrong with it"""
    lines, row, tok = [], [], []
    for x in list(buf) + ["\n"]:
        if x == "\n" or x == " " or x == "\t":
            if tok:
                row.append(tok[0] if len(tok) == 1 and not isinstance(tok[0], str) else "".join(y if isinstance(y, str) else "?" for y in tok))
                if len(tok) > 1 and any(not isinstance(y, str) for y in tok):
                    return None, f"a number glued to other characters in {S.show(tok)!r}"
                tok = []
            if x == "\n":
                lines.append(row)
                row = []
        else:
            tok.append(x)
    lines = [r for r in lines if r]

    def integer(x, what):
        if not isinstance(x, str) or not x.lstrip("-").isdigit():
            raise ValueError(f"{what} is {x!r}")
        return int(x)
    try:
        if len(lines) < 2 or len(lines[0]) != 1 or len(lines[1]) != 3:
            return None, "the heading is not the dimension, and the numbers of points, cells and cell types"
        if integer(lines[0][0], "the dimension") != n:
            return None, f"the dimension is {lines[0][0]}"
        p, c, k = [integer(x, "a number in the heading") for x in lines[1]]
        if k != 1:
            return None, f"{k} cell types"
        if len(lines) != 2 + p + c:
            return None, f"{p} points and {c} cells announced, {len(lines) - 2} lines"
        pts = []
        for r in lines[2:2 + p]:
            if len(r) != n:
                return None, f"a point with {len(r)} coordinates"
            for x in r:
                if isinstance(x, S.Num) and x.digits < DIGITS:
                    return None, f"a coordinate is written with {x.digits} significant digits, or with a fixed number of decimals" if x.digits == 0 else f"a coordinate is written with {x.digits} significant digits"
            pts.append([x.p if isinstance(x, S.Num) else Poly.const(integer(x, "a coordinate")) for x in r])
        cells = []
        for r in lines[2 + p:]:
            if len(r) < n + 3:
                return None, f"a cell with {len(r)} entries: its type, its {n + 1} nodes and a label are expected"
            if integer(r[0], "the type of a cell") != TYPE[n]:
                return None, f"a cell of type {r[0]}"
            ix = [integer(x, "the number of a node") for x in r[1:n + 2]]
            if not all(1 <= i <= p for i in ix):
                return None, f"a cell on the nodes {ix} of {p}"
            integer(r[n + 2], "the label of a cell")
            cells.append(ix)
        return (pts, cells), None
    except ValueError as e:
        return None, str(e)


def o01(R):
    R.minimum = 100
    R.rule("written file", "the file written for a mesh has, in the summit format, its dimension and its numbers of points and cells, each point of its nodes once with its coordinates to "
                           f"at least {DIGITS} significant digits, and each cell with the (one-based) numbers of its nodes in their order")
    R.rule("read file", "a mesh read from a file in the format has exactly the cells of the file in their order, each with nodes at the given positions in the given order; two cells that name the same "
                        "number share the node (continuous), or have nodes of their own on one vertex and one point (discontinuous)")
    R.rule("round trip", "a mesh that was written and is read back has the same cells at the same positions, however its cells are labelled")
    R.rule("no file", "reading a file that cannot be opened throws")
    M = ME.Meshes(R, load())
    M.W.pick = 0
    ip = M.ip
    STR.install(ip, N)
    F = S.install(ip, N)
    ip.decide_asserts = True
    for x in ("runtime_error", "logic_error", "invalid_argument", "out_of_range", "domain_error", "ios_base::failure"):
        ip.over[f"std::{x}::{x.split('::')[-1]}"] = lambda ip, c: I.Obj(D.strip_cvref(c.t), {})

    class X:
        ip, W = M.ip, M.W

    def at(h, n):
        c = T.L(M.call("ms_coords", M.cs, h))
        return tuple(repr(p) for p in M.W.get((n, 0), c))

    def expect(n, mesh, cells, share, what):
        """cells: positions of the nodes of each cell, in order, with the name of the point"""
        f = M.fn("ms_cells")
        out = I.Arr([], D.tmpl(D.strip_cvref(ip.db.t(f["params"][1]["t"])))[1][0], "std::vector")
        ip.call_fn(f, None, [mesh, out])
        if len(out.e) != len(cells):
            return f"{len(out.e)} cells are {what}, {len(cells)} expected"
        k = ip.n(T.L(M.call("ms_n", mesh)))
        if not (k.is_const() and int(k.cval()) == len(cells)):
            return f"the mesh that is {what} says it has {k!r} cells"
        slots = []
        for i, (c, want) in enumerate(zip(out.e, cells)):
            ns = T.L(M.W_call("ms_nodes_of", T.L(c))).e
            got = [at(h, n) for h in ns]
            if got != [w[1] for w in want]:
                return f"cell {i} is {what} at {got}, its nodes are at {[w[1] for w in want]}"
            vs = [M.vertex_of(h) for h in ns]
            if M.simplex(T.L(M.W_call("ms_simplex", T.L(c)))) != ME.key(vs):
                return f"cell {i} is {what} with another orientation than that of its nodes"
            slots += [(i, w[0], h, v) for w, h, v in zip(want, ns, vs)]
        for a in range(len(slots)):
            for b in range(a):
                (i, p, h, v), (j, q, g, w) = slots[a], slots[b]
                same = M.T.node_of(h) is M.T.node_of(g)
                if (v == w) != (p == q):
                    return f"nodes of the cells {j} and {i} that {'are' if p == q else 'are not'} on one point are {what} on {'one vertex' if v == w else 'different vertices'}"
                if (point_of(M, h) is point_of(M, g)) != (p == q):
                    return f"nodes of the cells {j} and {i} that {'are' if p == q else 'are not'} on one point are {what} on {'one point' if p != q else 'different points'}"
                if share == "continuous" and same != (p == q):
                    return f"nodes of the cells {j} and {i} on one point are {what} as different nodes"
                if share == "discontinuous" and same and i != j:
                    return f"the cells {j} and {i} share a node of the discontinuous mesh"
        return None

    def on_short(st, b):
        """the numbers of points and cells, and those of the nodes of a cell, have no bound; the dimension and the types of cells have"""
        line = st.buf[:st.at].count("\n")
        before = st.buf[:st.at]
        k = len(before) - before[::-1].index("\n") if line else 0
        pos = len("".join(x if isinstance(x, str) else "0" for x in before[k:]).split())
        if line == 1 and pos < 2 or line > 1 and pos > 0:
            raise I.PathEnd("ub", f"a number of the file that can be larger than {32767 if b == 'short' else 65535} is read as {b}")
    ip.on_short = on_short

    LABELS = [("no label", ""), ("a label", "ELEM"), ("a label of two words", "ELEM P1"), ("a long label", "ELEM " * 400)]
    for n in (1, 2, 3):
        kind = (n, n)
        lab0 = ["", "segments", "triangles", "tetrahedra"][n]
        pos = lambda k, n=n: tuple(repr(p) for p in names(n, f"x{k}_"))

        for nth, (what, cells) in enumerate(ME.COMPLEX[n]):
            conv = ME.CONVENTIONS[nth % 3]
            want = [[(k, pos(k)) for k in c] for c in cells]

            def build(own, cs=cells):
                F.files.clear()
                m = M.start(kind, *conv)
                for k in sorted({x for c in cs for x in c}):
                    M.node(k)
                if not own:
                    for c in cs:
                        M.insert(m, c)
                    return m
                et = D.tmpl(D.strip_cvref(ip.db.t(M.fn("ms_insert")["params"][1]["t"])))[1][0]
                for i, c in enumerate(cs):
                    M.call("ms_insert", m, I.Arr([M.call("ms_again", M.nodes[k]) for k in c], et, "std::array"))
                return m
            for own in (False, True):
                for lname, label in LABELS if nth == 0 else LABELS[nth % 4:nth % 4 + 1]:
                    lab = f"{lab0}, {what}, {'nodes of their own' if own else 'shared nodes'}, {lname}"

                    def go():
                        m = build(own)
                        M.call("io_write", m, M.cs, I.Str("file"), I.Str(label))
                        if list(F.files) != ["file.summit"]:
                            return f"the files written are {list(F.files)}"
                        r, e = parse(F.files["file.summit"], n)
                        if e:
                            return e
                        ps = [tuple(repr(x) for x in p) for p in r[0]]
                        if sorted(ps) != sorted({w[1] for c in want for w in c}):
                            return f"the points written are at {ps}"
                        got = [[ps[i - 1] for i in c] for c in r[1]]
                        if got != [[w[1] for w in c] for c in want]:
                            return f"the cells written are at {got}"
                        return None
                    run(X, R, "written file", lab, "mito::io::MeshSummitWriter::write", go)
                    for gi, g in enumerate(("continuous", "discontinuous")):
                        def go():
                            m = build(own)
                            M.call("io_write", m, M.cs, I.Str("file"), I.Str(label))
                            return expect(n, M.call("io_read", I.Str("file.summit"), M.cs, ix=(gi,)), want, g, "read")
                        run(X, R, "round trip", f"{lab}, {g}", "mito::io::summit::reader", go)
            # a file by somebody else
            for gi, g in enumerate(("continuous", "discontinuous")):
                for lname, label in (("one label", "1"), ("label and name", "1 ELEM"), ("label and a long name", "1" + " ELEM" * 400)):
                    def go():
                        F.files.clear()
                        M.start(kind, *conv)
                        ks = sorted({x for c in cells for x in c}, key=lambda k: (7 * k + 3) % 5)
                        b = list(f"{n}\n{len(ks)} {len(cells)} 1\n")
                        for k in ks:
                            for p in names(n, f"x{k}_"):
                                b += [S.Num(p, 17), " "]
                            b += ["\n"]
                        for c in cells:
                            b += list(" ".join(str(x) for x in [TYPE[n]] + [ks.index(k) + 1 for k in c] + [label]) + "\n")
                        F.files["given"] = b
                        return expect(n, M.call("io_read", I.Str("given"), M.cs, ix=(gi,)), want, g, "read")
                    run(X, R, "read file", f"{lab0}, {what}, {g}, {lname}", "mito::io::summit::reader", go)

        def go():
            F.files.clear()
            M.start(kind)
            try:
                M.call("io_read", I.Str("nothing"), M.cs, ix=(0,))
            except I.PathEnd as e:
                return None if e.kind in ("throw", "exc") else f"{e.kind}: {e.why}"
            return "no error"
        run(X, R, "no file", lab0, "mito::io::summit::reader", go)


def point_of(M, h):
    o = M.T.node_of(h)
    for x in o.f.values():
        x = T.L(x)
        if isinstance(x, I.Obj) and "to" in x.f:
            t = M.T.target(x)
            if t is not None and t.f["key"][0] == "p":
                return t
    raise I.Undecided("a node without a point")
