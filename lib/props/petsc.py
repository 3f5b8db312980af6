"""The PETSc backend: linear systems and Krylov solvers are interpreted against a model of the PETSc objects they handle (life cycle,
assembly, ownership of the entries by processes), for histories of calls and for the failure of any one call."""
import db as D
import interp as I
import intrinsics as N
import strings as STR
import streams as S
import tensors as T
from poly import Poly, ZERO, ONE

FAIL = 77
INSERT, ADD = 1, 2


def load():
    db = D.extract("petsc.cc")
    db.check_diags({})
    return db


class StateError(Exception):
    """a call that PETSc rejects: an error code is returned"""


class Petsc:
    """PETSc as its manual pages describe it, on process `rank` of `ranges`"""

    def __init__(self, ip):
        self.ip = ip
        self.reset()
        self.fns = {}
        for k in dir(self):
            if k.startswith("p_"):
                self.fns[k[2:]] = getattr(self, k)
        for k, f in self.fns.items():
            ip.over[k] = self.wrap(k, f)
        ip.over["PetscError"] = self.error
        ip.over["PETSC_VIEWER_STDOUT_"] = lambda ip, c: I.Ptr(I.Obj("_p_PetscViewer", {}))
        ip.prefix.insert(0, ("Petsc", self.unknown))
        for p in ("Mat", "Vec", "KSP", "PC", "IS"):
            ip.prefix.append((p, self.unknown))

    def reset(self, ranges=((0, 3),), rank=0, fail=None):
        self.ranges, self.rank, self.fail = ranges, rank, fail
        self.objs, self.log, self.n, self.failed, self.options = [], [], 0, None, []
        self.up = 0

    def unknown(self, ip, c):
        raise I.Undecided(f"{c.x.get('b')} is not modelled")

    def wrap(self, name, f):
        def h(ip, c):
            k = self.n
            self.n += 1
            a = [T.L(x) for x in c.a]
            if self.fail == k:
                self.failed = name
                self.log.append((name, "fails", self.frame()))
                if name.endswith("Destroy") or "Restore" in name:
                    f(c, *c.a)      # what is released is gone anyway
                return Poly.const(FAIL)
            fr = self.frame()
            try:
                r = f(c, *c.a)
            except StateError as e:
                if self.failed is None:
                    raise I.PathEnd("ub", str(e))
                self.log.append((name, "fails", fr))
                return Poly.const(FAIL)
            self.log.append((name, "done", fr))
            return ZERO if r is None else r
        return h

    def frame(self):
        return self.ip.frames[-1] if self.ip.frames else None

    def error(self, ip, c):
        self.log.append(("PetscError", ip.n(T.L(c.a[4])), self.frame()))
        return T.L(c.a[4])

    # ------------------------------------------------------------------ objects
    def new(self, kind, place):
        o = I.Obj("_p_" + kind, {})
        o.meta = dict(kind=kind, size=None, type=False, val={}, mode=None, assembled=False, dead=False, ops=None, prefix="", read=None, n=len(self.objs))
        self.objs.append(o)
        self.store(place, I.Ptr(o))

    def store(self, place, v):
        p = T.L(place)
        if isinstance(p, I.Ptr) and isinstance(p.b, I.Cell):
            self.ip.write(p.b, v)
            return
        raise I.Undecided("output argument")

    def out(self, place):
        p = T.L(place)
        if isinstance(p, I.Ptr) and isinstance(p.b, I.Cell):
            return p.b
        raise I.Undecided(f"output argument {p!r} {getattr(p,'b',None)!r}")

    def get(self, v, kind, what, ready=True):
        p = T.L(v)
        if p is I.NULL:
            raise StateError(f"{what} of a null {kind}")
        if not isinstance(p, I.Ptr) or not isinstance(p.b, I.Obj) or getattr(p.b, "meta", None) is None:
            raise I.PathEnd("ub", f"{what} of a {kind} that was not created")
        m = p.b.meta
        if m["kind"] != kind:
            raise I.PathEnd("ub", f"{what} of a {m['kind']} as a {kind}")
        if m["dead"]:
            raise I.PathEnd("ub", f"{what} of a {kind} after its destruction")
        if ready and (m["size"] is None or not m["type"]) and kind in ("Vec", "Mat"):
            raise StateError(f"{what} of a {kind} without {'a size' if m['size'] is None else 'a type'}")
        return m

    def destroy(self, place, kind):
        c = self.out(place)
        p = T.L(c)
        if p is I.NULL:
            return
        m = self.get(p, kind, "destruction", ready=False)
        if m["read"] is not None:
            raise I.PathEnd("ub", f"destruction of a {kind} while its array is in use")
        m["dead"] = True
        self.ip.write(c, I.NULL)

    def size(self, local, total):
        ip = self.ip
        lo, to = ip.n(T.L(local)), ip.n(T.L(total))
        if not (lo.is_const() and to.is_const()):
            raise I.Undecided("symbolic size")
        lo, to = int(lo.cval()), int(to.cval())
        r = self.ranges[self.rank]
        if lo >= 0 and lo != r[1] - r[0]:
            return ("local", lo, to)
        return to if to >= 0 else ("local", lo, to)

    # ------------------------------------------------------------------ PETSc
    def p_PetscInitializeNoArguments(self, c):
        self.up += 1

    def p_PetscInitialize(self, c, *a):
        self.up += 1

    def p_PetscFinalize(self, c):
        if self.up != 1:
            raise StateError("PETSc is finalised when it is not running")
        self.up = 2

    def p_VecCreate(self, c, comm, v):
        self.new("Vec", v)

    def p_VecSetSizes(self, c, v, n, N):
        self.get(v, "Vec", "size", False)["size"] = self.size(n, N)

    def p_VecCreateMPI(self, c, comm, n, N, v):
        self.new("Vec", v)
        self.objs[-1].meta.update(size=self.size(n, N), type=True)

    def p_VecDuplicate(self, c, v, w):
        m = self.get(v, "Vec", "duplication")
        self.new("Vec", w)
        self.objs[-1].meta.update(size=m["size"], type=True)

    def p_VecSetFromOptions(self, c, v):
        m = self.get(v, "Vec", "options", False)
        if m["size"] is None:
            raise StateError("a Vec is set up before it has a size")
        m["type"] = True

    def p_VecSetType(self, c, v, t):
        self.p_VecSetFromOptions(c, v)

    def p_VecSetUp(self, c, v):
        self.p_VecSetFromOptions(c, v)

    def p_VecZeroEntries(self, c, v):
        m = self.get(v, "Vec", "zeroing")
        m["val"], m["mode"], m["assembled"] = {}, None, True

    def p_VecSet(self, c, v, x):
        m = self.get(v, "Vec", "setting")
        x = self.ip.n(T.L(x))
        m["val"], m["mode"], m["assembled"] = {(i,): x for i in range(m["size"])}, None, True

    def p_MatCreate(self, c, comm, v):
        self.new("Mat", v)

    def p_MatSetSizes(self, c, v, m, n, M, N):
        o = self.get(v, "Mat", "sizes", False)
        a, b = self.size(m, M), self.size(n, N)
        o["size"] = a if a == b else (a, b)

    def p_MatSetFromOptions(self, c, v):
        m = self.get(v, "Mat", "options", False)
        m["type"] = True

    def p_MatSetType(self, c, v, t):
        self.p_MatSetFromOptions(c, v)

    def p_MatSetUp(self, c, v):
        self.p_MatSetFromOptions(c, v)

    def p_MatZeroEntries(self, c, v):
        m = self.get(v, "Mat", "zeroing")
        m["val"] = {}

    def entry(self, m, ix, x, mode):
        ip = self.ip
        mode = ip.n(T.L(mode))
        ix = [ip.n(T.L(i)) for i in ix]
        if not mode.is_const() or not all(i.is_const() for i in ix):
            raise I.Undecided("symbolic entry")
        mode, ix = int(mode.cval()), tuple(int(i.cval()) for i in ix)
        if mode not in (INSERT, ADD):
            raise I.Undecided("insert mode")
        if m["mode"] not in (None, mode):
            raise StateError(f"entries of a {m['kind']} are inserted and added without assembling in between")
        if isinstance(m["size"], int) and not all(0 <= i < m["size"] for i in ix):
            raise StateError(f"entry {ix} of a {m['kind']} of size {m['size']}")
        m["mode"], m["assembled"] = mode, False
        x = ip.n(T.L(x))
        m["val"][ix] = x if mode == INSERT else m["val"].get(ix, ZERO) + x

    def p_MatSetValue(self, c, v, i, j, x, mode):
        self.entry(self.get(v, "Mat", "entry"), (i, j), x, mode)

    def p_VecSetValue(self, c, v, i, x, mode):
        self.entry(self.get(v, "Vec", "entry"), (i,), x, mode)

    def many(self, n, *ps):
        k = self.ip.n(T.L(n))
        if not k.is_const():
            raise I.Undecided("symbolic number of entries")
        return [[self.at(p, i) for i in range(int(k.cval()))] for p in ps]

    def at(self, p, i):
        q = T.L(p)
        if isinstance(q, I.Ptr) and isinstance(q.b, I.Arr):
            return T.L(self.ip.deref(self.ip.add(q, Poly.const(i))))
        if isinstance(q, I.Ptr) and i == 0:
            return T.L(self.ip.deref(q))
        raise I.Undecided("array argument")

    def p_MatSetValues(self, c, v, m, ri, n, ci, xs, mode):
        o = self.get(v, "Mat", "entries")
        (rs,), (cs,) = self.many(m, ri), self.many(n, ci)
        for a, i in enumerate(rs):
            for b, j in enumerate(cs):
                self.entry(o, (i, j), self.at(xs, a * len(cs) + b), mode)

    def p_VecSetValues(self, c, v, n, ix, xs, mode):
        o = self.get(v, "Vec", "entries")
        for i, x in zip(*self.many(n, ix, xs)):
            self.entry(o, (i,), x, mode)

    def p_MatAssemblyBegin(self, c, v, t):
        m = self.get(v, "Mat", "assembly")
        m["begun"] = True

    def p_MatAssemblyEnd(self, c, v, t):
        m = self.get(v, "Mat", "assembly")
        if not m.get("begun"):
            raise StateError("the assembly of a Mat ends before it begins")
        m["begun"] = False
        t = self.ip.n(T.L(t))
        if not t.is_const():
            raise I.Undecided("assembly type")
        m["mode"] = None
        m["assembled"] = int(t.cval()) == 0

    def p_VecAssemblyBegin(self, c, v):
        self.get(v, "Vec", "assembly")["begun"] = True

    def p_VecAssemblyEnd(self, c, v):
        m = self.get(v, "Vec", "assembly")
        if not m.get("begun"):
            raise StateError("the assembly of a Vec ends before it begins")
        m.update(begun=False, mode=None, assembled=True)

    def p_MatDestroy(self, c, p):
        self.destroy(p, "Mat")

    def p_MatAssembled(self, c, v, p):
        self.ip.write(self.out(p), self.get(v, "Mat", "state")["assembled"])

    def p_VecDestroy(self, c, p):
        self.destroy(p, "Vec")

    def p_KSPDestroy(self, c, p):
        self.destroy(p, "KSP")

    def p_MatView(self, c, v, w):
        if not self.get(v, "Mat", "view")["assembled"]:
            raise StateError("a Mat is viewed before it is assembled")

    def p_VecView(self, c, v, w):
        m = self.get(v, "Vec", "view")
        if m["mode"] is not None:
            raise StateError("a Vec is viewed before it is assembled")

    # ------------------------------------------------------------------ reading
    def values(self, m, lo, hi):
        return [m["val"].get((i,), ZERO) for i in range(lo, hi)]

    def local(self, m):
        return (0, m["size"]) if m.get("seq") else self.ranges[self.rank]

    def read(self, v, p, const):
        m = self.get(v, "Vec", "reading")
        if m["mode"] is not None:
            raise StateError("a Vec is read before it is assembled")
        if m["read"] is not None and not (const and m["read"][0]):
            raise StateError("the array of a Vec is taken twice")
        lo, hi = self.local(m)
        arr = I.Arr([I.Cell(x, "double", "entry") for x in self.values(m, lo, hi)], "double", "array")
        m["read"] = (const, arr, (m["read"][2] if m["read"] else 0) + 1)
        self.store(p, I.Ptr(arr, ZERO))

    def restore(self, v, p, const):
        m = self.get(v, "Vec", "giving back")
        if m["read"] is None or m["read"][0] != const:
            raise StateError("an array that was not taken is given back to a Vec")
        arr = m["read"][1]
        if not const:
            lo, hi = self.local(m)
            for i in range(lo, hi):
                m["val"][(i,)] = self.ip.n(T.L(arr.e[i - lo]))
        n = m["read"][2] - 1
        m["read"] = (const, arr, n) if n else None
        self.store(p, I.NULL)

    def p_VecGetArrayRead(self, c, v, p):
        self.read(v, p, True)

    def p_VecRestoreArrayRead(self, c, v, p):
        self.restore(v, p, True)

    def p_VecGetArray(self, c, v, p):
        self.read(v, p, False)

    def p_VecRestoreArray(self, c, v, p):
        self.restore(v, p, False)

    def p_VecGetSize(self, c, v, p):
        self.ip.write(self.out(p), Poly.const(self.get(v, "Vec", "size")["size"]))

    def p_VecGetLocalSize(self, c, v, p):
        lo, hi = self.local(self.get(v, "Vec", "size"))
        self.ip.write(self.out(p), Poly.const(hi - lo))

    def p_VecGetOwnershipRange(self, c, v, p, q):
        lo, hi = self.local(self.get(v, "Vec", "ownership"))
        self.ip.write(self.out(p), Poly.const(lo))
        self.ip.write(self.out(q), Poly.const(hi))

    def p_VecGetValues(self, c, v, n, ix, y):
        m = self.get(v, "Vec", "reading")
        lo, hi = self.local(m)
        (js,) = self.many(n, ix)
        q = T.L(y)
        for k, j in enumerate(js):
            j = self.ip.n(j)
            if not j.is_const():
                raise I.Undecided("symbolic entry")
            j = int(j.cval())
            if not lo <= j < hi:
                raise StateError(f"entry {j} of a Vec is read on the process that has {lo}..{hi - 1}")
            self.ip.assign(self.ip.deref(self.ip.add(q, Poly.const(k))), m["val"].get((j,), ZERO))

    def scatter(self, v, s, w):
        m = self.get(v, "Vec", "scattering")
        self.new("VecScatter", s)
        self.objs[-1].meta.update(size=m["size"], type=True, of=m)
        if T.L(w) is not I.NULL:
            self.new("Vec", w)
            self.objs[-1].meta.update(size=m["size"], type=True, seq=True, assembled=True)

    def p_VecScatterCreateToAll(self, c, v, s, w):
        self.scatter(v, s, w)

    def transfer(self, s, v, w, mode, dirn, end):
        m = self.get(s, "VecScatter", "use")
        a, b = self.get(v, "Vec", "scattering"), self.get(w, "Vec", "scattering")
        if a is b or a["size"] != m["size"] or not b.get("seq") or b["size"] != m["size"]:
            raise StateError("a scatter between vectors that do not match")
        mode, dirn = [self.ip.n(T.L(x)) for x in (mode, dirn)]
        if mode != Poly.const(INSERT) or dirn != ZERO:
            raise I.Undecided("scatter mode")
        if not end:
            m["begun"] = True
            return
        if not m.get("begun"):
            raise StateError("a scatter ends before it begins")
        m["begun"] = False
        b["val"] = dict(a["val"])

    def p_VecScatterBegin(self, c, s, v, w, mode, dirn):
        self.transfer(s, v, w, mode, dirn, False)

    def p_VecScatterEnd(self, c, s, v, w, mode, dirn):
        self.transfer(s, v, w, mode, dirn, True)

    def p_VecScatterDestroy(self, c, p):
        self.destroy(p, "VecScatter")

    def p_VecCopy(self, c, v, w):
        a, b = self.get(v, "Vec", "copy"), self.get(w, "Vec", "copy")
        b["val"], b["mode"] = dict(a["val"]), None

    # ------------------------------------------------------------------ solver
    def p_KSPCreate(self, c, comm, p):
        self.new("KSP", p)

    def p_KSPSetOperators(self, c, k, a, b):
        m = self.get(k, "KSP", "operators")
        ops = []
        for x in (a, b):
            self.get(x, "Mat", "use as an operator", False)
            ops.append(T.L(x).b)
        m["ops"] = ops

    def text(self, p):
        p = T.L(p)
        if isinstance(p, I.Str):
            return p.s
        if p is I.NULL:
            return ""
        raise I.Undecided("a string with unknown contents")

    def p_KSPSetOptionsPrefix(self, c, k, p):
        self.get(k, "KSP", "prefix")["prefix"] = self.text(p)

    def p_KSPAppendOptionsPrefix(self, c, k, p):
        self.get(k, "KSP", "prefix")["prefix"] += self.text(p)

    def p_KSPSetFromOptions(self, c, k):
        m = self.get(k, "KSP", "options")
        # options that follow are not read any longer
        m["seen"] = list(self.options)

    def p_PetscOptionsInsertString(self, c, db, s):
        self.options += tokens(self.text(s))

    def p_PetscOptionsSetValue(self, c, db, name, value):
        self.options += [self.text(name)] + ([self.text(value)] if T.L(value) is not I.NULL else [])

    def p_KSPGetConvergedReason(self, c, k, p):
        self.ip.write(self.out(p), Poly.const(self.get(k, "KSP", "state").get("reason", 0)))

    def p_KSPGetIterationNumber(self, c, k, p):
        self.ip.write(self.out(p), Poly.const(self.get(k, "KSP", "state").get("reason", 0)))

    def p_KSPSetUp(self, c, k):
        self.get(k, "KSP", "set-up")

    def p_KSPSolve(self, c, k, b, x):
        m = self.get(k, "KSP", "solution")
        if m["ops"] is None:
            raise StateError("a KSP is run without operators")
        A, B = [self.get(I.Ptr(o), "Mat", "use by the solver") for o in m["ops"]]
        v, w = self.get(b, "Vec", "use as right-hand side"), self.get(x, "Vec", "use as solution")
        for o in (A, B, v):
            if not o["assembled"] or o["mode"] is not None:
                raise StateError(f"the solver runs before the {'matrix' if o['kind'] == 'Mat' else 'right-hand side'} is assembled")
        if v is w:
            raise StateError("the solution overwrites the right-hand side")
        self.solves.append((dict(A["val"]), dict(B["val"]), dict(v["val"]), m))
        m["reason"] = 2
        n = len(self.solves)
        w["val"] = {(i,): Poly.atom(f"u{n}_{i}") for i in range(w["size"])}
        w["assembled"], w["mode"] = True, None


def tokens(s):
    return s.split(" ") and [w for w in s.split(" ") if w]


class Driver:
    def __init__(self, R):
        self.db = load()
        self.ip = I.Interp(self.db)
        T.install(self.ip)
        STR.install(self.ip, N)
        S.install(self.ip, N)
        self.P = Petsc(self.ip)
        self.by = {}
        for f in self.db.fns.values():
            if f["b"].startswith("verif::"):
                self.by.setdefault(f["n"], []).append(f)
        self.lib = {f["b"]: f for f in self.db.fns.values() if "petsc" in f["b"]}

    def where(self, fn):
        f = self.lib.get(fn)
        return self.db.where(f) if f is not None else fn

    def start(self, **k):
        self.P.reset(**k)
        self.P.solves = []

    def __call__(self, name, *a):
        fs = self.by.get(name, [])
        if len(fs) != 1:
            raise D.AnalysisBroken(f"driver function {name}: {len(fs)} candidates")
        return self.ip.call_fn(fs[0], None, [Poly.const(x) if isinstance(x, int) else I.Str(x) if isinstance(x, str) else x for x in a])


# ---------------------------------------------------------------------------- histories
def solution(dr, s, n):
    v = I.Arr([I.Cell(Poly.atom(f"old{i}"), "double", "entry") for i in range(n)], "double", "std::vector")
    dr("ls_solution", s, v)
    return [dr.ip.n(T.L(x)) for x in v.e]


def fill(dr, s, n, name="a", how="add"):
    for i in range(n):
        for j in range(n):
            if (i + 2 * j) % 3 != 2:
                dr(f"ls_{how}_matrix", s, i, j, Poly.atom(f"{name}{i}{j}"))
        dr(f"ls_{how}_rhs", s, i, Poly.atom(f"{name}f{i}"))


class Histories:
    """what users do with the backend: each history is a list of steps, so that the failure of any call can be followed up"""

    def __init__(self, dr):
        self.dr = dr

    def system(self, label, n):
        s = self.dr("ls_make", label)
        self.dr("ls_create", s, n)
        return s

    def solver(self, s):
        k = self.dr("ksp_make", s)
        self.dr("ksp_create", k)
        return k

    def all(self):
        dr = self.dr

        def plain(n=3):
            s = self.system("sys", n)
            dr("ls_destroy", s)

        def filled(n=3):
            s = self.system("sys", n)
            fill(dr, s, n)
            dr("ls_assemble", s)
            dr("ls_print", s)
            fill(dr, s, n, "b", "insert")
            dr("ls_assemble", s)
            dr("ls_destroy", s)

        def unused(n=3):
            k = self.solver(self.system("sys", n))
            dr("ksp_destroy", k)

        def solved(n=3):
            s = self.system("sys", n)
            k = self.solver(s)
            dr("ksp_options", k, "-ksp_type cg -pc_type none")
            fill(dr, s, n)
            dr("ksp_solve", k)
            solution(dr, s, n)
            dr("ksp_print", k)
            dr("ksp_destroy", k)

        def twice(n=3):
            s = self.system("sys", n)
            fill(dr, s, n)
            k = self.solver(s)
            dr("ksp_solve", k)
            solution(dr, s, n)
            solution(dr, s, n)
            fill(dr, s, n)
            dr("ksp_solve", k)
            solution(dr, s, n)
            dr("ksp_destroy", k)

        def again(n=3):
            s = self.system("sys", n)
            k = self.solver(s)
            fill(dr, s, n, "b")
            dr("ksp_solve", k)
            dr("ksp_destroy", k)
            for m in (n, n - 1):
                dr("ls_create", s, m)
                dr("ksp_create", k)
                dr("ksp_options", k, "-ksp_type cg")
                fill(dr, s, m)
                dr("ksp_solve", k)
                solution(dr, s, m)
                dr("ksp_destroy", k)

        def two(n=3):
            s, t = self.system("first", n), self.system("second", n)
            fill(dr, s, n)
            k, m = self.solver(s), self.solver(t)
            fill(dr, t, n, "b")
            dr("ksp_solve", m)
            dr("ksp_solve", k)
            solution(dr, s, n)
            dr("ksp_destroy", k)
            solution(dr, t, n)
            dr("ksp_destroy", m)

        def both(n=3):
            s = self.system("sys", n)
            k = self.solver(s)
            dr("ksp_destroy", k)
            dr("ls_destroy", s)
        return [("created and destroyed", plain), ("filled, assembled and printed", filled), ("a solver that is not run", unused), ("solved", solved),
                ("solved twice", twice), ("created again", again), ("two systems", two), ("solver and system destroyed", both)]


PROCESSES = [("one process", ((0, 3),), 0), ("first of two processes", ((0, 2), (2, 3)), 0), ("second of two processes", ((0, 2), (2, 3)), 1), ("a process without equations", ((0, 3), (3, 3)), 1)]


def run(dr, R, rule, inst, where, go):
    """one history: one path"""
    ip = dr.ip
    w = dr.where(where)

    def fn():
        ip.analysed = set()
        rs = list(ip.paths(lambda ip: go()))
        R.used(ip)
        for r in rs:
            if r[0] in ("ub", "abort", "throw", "exc"):
                R.bad(rule, inst, w, f"{r[0]}: {r[1]}"[:300])
                return
        if len(rs) != 1 or rs[0][0] != "ok":
            raise I.Undecided(f"{[r[:2] for r in rs]!r}"[:300])
        if rs[0][1] is None:
            R.ok(rule, inst, w)
        else:
            R.bad(rule, inst, w, rs[0][1])
    R.guard(rule, inst, "", fn)


LSQ = "mito::matrix_solvers::petsc::PETScLinearSystem::"
KSQ = "mito::matrix_solvers::petsc::PETScKrylovSolver::"


def l01(R):
    R.minimum = 30
    R.rule("life cycle", "every PETSc object is created before it is used, set up before it has entries, not used after its destruction, destroyed exactly once, and no array of a vector is kept")
    R.rule("session", "PETSc is initialised once and finalised once")
    dr = Driver(R)
    for name, h in Histories(dr).all():
        for pname, ranges, rank in PROCESSES:
            def go():
                dr.start(ranges=ranges, rank=rank)
                h()
                left = [o.meta["kind"] for o in dr.P.objs if not o.meta["dead"]]
                if left:
                    return f"{name}: {', '.join(left)} not destroyed"
                if not dr.P.objs:
                    return f"{name}: no object was created"
            run(dr, R, "life cycle", f"{name}, {pname}", KSQ + "destroy" if "solve" in name else LSQ + "destroy", go)

    def go():
        dr.start()
        dr("petsc_start")
        if dr.P.up != 1:
            return f"PETSc is initialised {dr.P.up} times"
        dr("petsc_stop")
        if dr.P.up != 2:
            return "PETSc is not finalised"
    run(dr, R, "session", "initialise and finalise", "mito::petsc::initialize", go)


class Stop(Exception):
    pass


class Steps:
    """the driver, stopping behind the step in which a call of PETSc failed"""

    def __init__(self, dr):
        self.dr, self.ip, self.P = dr, dr.ip, dr.P
        self.systems, self.solvers, self.last = [], [], ""

    def __call__(self, name, *a):
        self.last = name
        r = self.dr(name, *a)
        if name == "ls_make":
            self.systems.append(r)
        if name == "ksp_make":
            self.solvers.append(r)
        if self.P.failed:
            raise Stop
        return r


def l02(R):
    R.minimum = 100
    R.rule("report", "when a call of PETSc fails, the failure is reported as an error and the method that made the call makes no further call, apart from releasing what it holds")
    R.rule("clean-up", "after a failed call, the matrix, the vectors and the solver can still be destroyed, and none is left or destroyed twice")
    dr = Driver(R)
    P = dr.P

    def attempt(name, k):
        dr.start(fail=k)
        st = Steps(dr)
        try:
            dict(Histories(st).all())[name]()
        except Stop:
            pass
        return st

    for name, h in Histories(dr).all():
        n = 0

        def count():
            attempt(name, None)
            return P.n
        try:
            for r in dr.ip.paths(lambda ip: count()):
                n = r[1] if r[0] == "ok" else 0
        except I.Undecided:
            pass
        if not n:
            def go():
                attempt(name, None)
            run(dr, R, "report", name, LSQ + "create", go)
            continue
        for k in range(n):
            what = {}

            def go():
                attempt(name, k)
                i = next((i for i, x in enumerate(P.log) if x[1] == "fails"), None)
                if i is None:
                    raise I.Undecided("the call was not made")
                what["c"], _, fr = P.log[i]
                rest = P.log[i + 1:]
                if not any(x[:2] == ("PetscError", Poly.const(FAIL)) for x in rest):
                    return f"{name}: the failure of {what['c']} is not reported"
                more = [x[0] for x in rest if x[2] is fr and x[0] != "PetscError" and "Destroy" not in x[0] and "Restore" not in x[0]]
                if more:
                    return f"{name}: {more[0]} is called although {what['c']} failed"
                return None
            run(dr, R, "report", f"{name}, call {k}", LSQ + "create", go)

            def go():
                st = attempt(name, k)
                P.fail = None
                for o in st.solvers:
                    dr("ksp_destroy", o)
                for o in st.systems:
                    dr("ls_destroy", o)
                if "Destroy" in P.failed or "Restore" in P.failed:
                    return None
                left = [o.meta["kind"] for o in P.objs if not o.meta["dead"] and o.meta["kind"] in ("Mat", "Vec", "KSP") and not o.meta.get("seq")]
                if left:
                    return f"{name}: after {P.failed} failed, a {left[0]} is not destroyed"
                return None
            run(dr, R, "clean-up", f"{name}, call {k}", LSQ + "destroy", go)


def l03(R):
    R.minimum = 30
    R.rule("entries", "adding and inserting entries of the matrix and the right-hand side reaches PETSc with the given row, column, value and mode; the entries solved for are the sums, or the last values")
    R.rule("solve", "the solver works on the matrix and the right-hand side of its own system, after both are assembled, and leaves the solution in it")
    R.rule("read", "reading the solution gives every unknown, in order, on every process")
    R.rule("size", "the system has as many equations as it was created with, and the label it was given")
    dr = Driver(R)
    P = dr.P

    def expect(n, prefix="a", times=1):
        A = {(i, j): Poly.atom(f"{prefix}{i}{j}") * Poly.const(times) for i in range(n) for j in range(n) if (i + 2 * j) % 3 != 2}
        return A, {(i,): Poly.atom(f"{prefix}f{i}") * Poly.const(times) for i in range(n)}

    def check(k, A, f, what):
        if len(P.solves) <= k:
            return f"{what}: the solver was not run"
        got = P.solves[k]
        for nm, g, w in (("matrix", got[0], A), ("preconditioned matrix", got[1], A), ("right-hand side", got[2], f)):
            for i in sorted(set(g) | set(w)):
                a, b = g.get(i, ZERO), w.get(i, ZERO)
                if a != b:
                    return f"{what}: the {nm} has {a!r} at {i}, expected {b!r}"
        return None

    def sol(s, k, n, what):
        got = solution(dr, s, n)
        want = [Poly.atom(f"u{k}_{i}") for i in range(n)]
        return None if got == want else f"{what}: the solution reads {got!r}, expected {want!r}"

    H = Histories(dr)
    for pname, ranges, rank in PROCESSES:
        for how, times in (("add", 1), ("add", 2), ("add", 3), ("insert", 1), ("insert", 2)):
            def go():
                dr.start(ranges=ranges, rank=rank)
                s = H.system("sys", 3)
                k = H.solver(s)
                if how == "insert" and times > 1:
                    fill(dr, s, 3, "b", how)
                    fill(dr, s, 3, "a", how)
                else:
                    for _ in range(times):
                        fill(dr, s, 3, "a", how)
                dr("ksp_solve", k)
                A, f = expect(3, "a", times if how == "add" else 1)
                return check(0, A, f, f"{how}, {pname}")
            run(dr, R, "entries", f"{how}, {times} times, {pname}", LSQ + f"{how}_matrix_value", go)

        def go():
            dr.start(ranges=ranges, rank=rank)
            s = H.system("sys", 3)
            fill(dr, s, 3)
            k = H.solver(s)
            dr("ksp_solve", k)
            e = sol(s, 1, 3, "solved once")
            if e:
                return e
            dr("ksp_solve", k)
            fill(dr, s, 3, "b", "insert")
            dr("ksp_solve", k)
            return sol(s, 3, 3, "solved three times") or check(0, *expect(3), "first") or check(1, *expect(3), "second") or check(2, *expect(3, "b"), "third")
        run(dr, R, "solve", f"one system, {pname}", KSQ + "solve", go)

        def go():
            dr.start(ranges=ranges, rank=rank)
            s, t = H.system("first", 3), H.system("second", 3)
            k, m = H.solver(s), H.solver(t)
            fill(dr, t, 3, "b")
            fill(dr, s, 3)
            dr("ksp_solve", m)
            dr("ksp_solve", k)
            return sol(t, 1, 3, "second system") or sol(s, 2, 3, "first system") or check(0, *expect(3, "b"), "second system") or check(1, *expect(3), "first system")
        run(dr, R, "solve", f"two systems, {pname}", KSQ + "solve", go)

        def go():
            dr.start(ranges=ranges, rank=rank)
            s = H.system("sys", 3)
            fill(dr, s, 3)
            k = H.solver(s)
            dr("ksp_solve", k)
            return sol(s, 1, 3, pname) or sol(s, 1, 3, pname + ", again")
        run(dr, R, "read", pname, LSQ + "get_solution", go)

    for n in (1, 2, 3, 5):
        def go():
            dr.start(ranges=((0, n),))
            s = H.system(f"label{n}", n)
            if dr.ip.n(T.L(dr("ls_n", s))) != Poly.const(n):
                return f"a system created with {n} equations says it has {dr.ip.n(T.L(dr('ls_n', s)))!r}"
            if T.L(dr("ls_label", s)) != I.Str(f"label{n}"):
                return f"the label reads {T.L(dr('ls_label', s))!r}"
            bad = [o.meta for o in P.objs if o.meta["size"] != n]
            if bad or sorted(o.meta["kind"] for o in P.objs) != ["Mat", "Vec", "Vec"]:
                return f"a system of {n} equations has objects {[(o.meta['kind'], o.meta['size']) for o in P.objs]}"
            k = H.solver(s)
            fill(dr, s, n)
            dr("ksp_solve", k)
            return sol(s, 1, n, f"{n} equations") or check(0, *expect(n), f"{n} equations")
        run(dr, R, "size", f"{n} equations", LSQ + "create", go)


OPTIONS = ["-ksp_type cg", "-ksp_monitor", "-ksp_monitor -pc_type jacobi", "", "-pc_type lu -ksp_type preonly -ksp_rtol 1.e-10", "-pc_factor_zeropivot -1.5 -ksp_type cg",
           "-ksp_type gmres -ksp_gmres_restart 30 -ksp_view", "-pc_type a-b -ksp_x", " -ksp_type cg", "-ksp_type  cg", "-ksp_type cg ", "-a", "-a b -c -d e f", "-my-flag yes -other_flag 1-2"]


def is_option(w):
    return len(w) > 1 and w[0] == "-" and w[1].isalpha()


def l04(R):
    R.minimum = 20
    R.rule("options", "each option given to a solver reaches PETSc with the prefix of that solver behind its '-', and each value unchanged, in the given order")
    R.rule("prefix", "the solver reads the options with its own prefix, which is that of its system's label, after they are set")
    dr = Driver(R)
    P = dr.P
    H = Histories(dr)
    for label in ("sys", "a", "heat_2"):
        for opts in OPTIONS:
            def go():
                dr.start()
                k = H.solver(H.system(label, 3))
                pre = next(o.meta for o in P.objs if o.meta["kind"] == "KSP")["prefix"]
                dr("ksp_options", k, opts)
                want = [f"-{pre}{w[1:]}" if is_option(w) else w for w in tokens(opts)]
                if P.options != want:
                    return f"{opts!r} for {label!r} is passed on as {' '.join(P.options)!r}, expected {' '.join(want)!r}"
                m = next(o.meta for o in P.objs if o.meta["kind"] == "KSP")
                if m.get("seen") != want:
                    return f"the solver does not read {' '.join(want)!r}"
                return None
            run(dr, R, "options", f"{label}: {opts!r}", KSQ + "set_options", go)

    def go():
        dr.start()
        k, m = H.solver(H.system("first", 3)), H.solver(H.system("second", 3))
        ks = [o.meta["prefix"] for o in P.objs if o.meta["kind"] == "KSP"]
        if ks[0] == ks[1] or not all(ks) or ks[0].startswith(ks[1]) or ks[1].startswith(ks[0]):
            return f"solvers of different systems have the prefixes {ks}"
        if ks != ["first_", "second_"]:
            return f"the solvers of 'first' and 'second' have the prefixes {ks}"
        dr("ksp_options", m, "-ksp_type cg")
        dr("ksp_options", k, "-ksp_type gmres")
        want = ["-second_ksp_type", "cg", "-first_ksp_type", "gmres"]
        return None if P.options == want else f"the options of two solvers reach PETSc as {P.options}"
    run(dr, R, "prefix", "two solvers", KSQ + "create", go)
