"""Functions: expressions built from arbitrary (opaque) smooth functions are interpreted on symbolic arguments; their values are compared
with the expression they stand for, and their derivatives with the exact derivative of their values."""
import itertools
from fractions import Fraction
import db as D
import interp as I
import tensors as T
from poly import Poly, ZERO, ONE, atom_id

ROOTS = ("/opt/pyre/include/pyre/tensor/constexpr_for.h",)
FAM = {0: "f", 1: "g", 2: "h", 3: "v", 4: "w", 5: "A", 6: "B", 7: "p", 8: "q", 9: "r", 10: "m3", 11: "u3", 12: "pv", 13: "q2"}


def load():
    db = D.extract("functions.cc", ROOTS)
    db.check_diags(())
    return db


def load_more(R, rule):
    """the expressions kept apart: that they do not build is a violation of its own"""
    db = D.extract("functions_more.cc", ROOTS)
    errs = db.diags
    if errs:
        d = errs[0]
        R.bad(rule, "composition of a composition; linear combination of equal functions", f"{d['file'].removeprefix(db.repo + '/')}:{d['line']}",
              "an expression of functions does not compile: " + d["msg"][:200])
        return None
    return db


def flat(ip, v):
    """the components of a scalar or tensor value, in row-major order"""
    v = T.L(v)
    if isinstance(v, I.Arr):
        c = T.comps(v)
        return {k: c[k] for k in sorted(c)}
    return {(): ip.n(v)}


def arg_comps(ip, x):
    return list(flat(ip, x).values())


def op_atom(name, comp, der, args):
    return Poly.atom((("op", name, comp, tuple(sorted(der))),) + tuple(args))


def interp(db):
    ip = I.Interp(db)
    T.install(ip)

    def opaque(ip, c):
        if not c.x.get("ct"):
            return NotImplemented
        b, ta = D.tmpl(db.t(c.x["ct"]))
        if D.strip_cvref(c.t).startswith("mito::functions::"):
            return NotImplemented
        name = FAM[int(ta[0])]
        # a function of a scalar has a single derivative (the library's functions of a scalar ignore the index, too)
        der = tuple(int(z) if "Tensor<" in ta[1] else 0 for z in ta[3:])
        args = arg_comps(ip, c.a[0])
        if "Tensor<" in c.t:
            return T.new(c.t, lambda i: op_atom(name, i, der, args))
        return op_atom(name, (), der, args)
    ip.over["mito::functions::Opaque::operator()"] = opaque
    return ip


class V:
    """a value by components, for the oracle"""

    def __init__(self, c):
        self.c = c

    def shape(self):
        return max(self.c) if self.c else ()


def scalar(p):
    return V({(): p})


def opq(name, comps, args):
    return V({i: op_atom(name, i, (), args) for i in comps})


def add(a, b, s=1):
    if set(a.c) != set(b.c):
        raise I.Undecided("shapes of the oracle")
    return V({i: a.c[i] + b.c[i].scale(s) for i in a.c})


def mul(a, b):
    ra, rb = len(next(iter(a.c))), len(next(iter(b.c)))
    if ra == 0 or rb == 0:
        return V({i + j: a.c[i] * b.c[j] for i in a.c for j in b.c})
    n = 2
    r = {}
    for i in {k[:-1] for k in a.c}:
        for j in {k[1:] for k in b.c}:
            r[i + j] = T.total(a.c[i + (k,)] * b.c[(k,) + j] for k in range(n))
    return V(r)


def inv(a):
    return V({(): T.recip(a.c[()])})


def transpose(a):
    return V({(j, i): x for (i, j), x in a.c.items()})


VEC = [(0,), (1,)]
MAT = [(0, 0), (0, 1), (1, 0), (1, 1)]


def oracle(xs):
    """the value each driver expression stands for at the point xs"""
    f, g, h = (opq(n, [()], xs) for n in "fgh")
    v, w = (opq(n, VEC, xs) for n in "vw")
    A, B = (opq(n, MAT, xs) for n in "AB")
    a, b, c = (scalar(Poly.atom(n)) for n in "abc")
    u3 = opq("u3", [(0,), (1,), (2,)], xs)

    K = V({i: Poly.atom("K%d%d" % i) for i in MAT})
    k = V({i: Poly.atom("k%d" % i) for i in VEC})

    def vals(x):
        return [x.c[k] for k in sorted(x.c)]

    def p(x):
        return opq("p", [()], vals(x))

    def q(x):
        return opq("q", [()], vals(x))

    def r(x):
        return opq("r", VEC, vals(x))

    def fn(name, x):
        return V({(): Poly.atom((name, x.c[()]))})

    def at(x, i):
        return V({(): x.c[i]})
    neg = lambda x: V({i: -y for i, y in x.c.items()})
    x = scalar(xs[0])
    d = {
        "add": lambda: add(f, g), "sub": lambda: add(f, g, -1), "neg": lambda: neg(f), "cadd": lambda: add(a, f), "addc": lambda: add(f, a),
        "csub": lambda: add(a, f, -1), "subc": lambda: add(f, a, -1), "cmul": lambda: mul(a, f), "mulc": lambda: mul(f, a), "divc": lambda: mul(f, inv(a)),
        "mul": lambda: mul(f, g), "cdiv": lambda: mul(a, inv(f)), "div": lambda: mul(f, inv(g)),
        "mixed": lambda: add(mul(add(mul(a, f), g), h), mul(f, inv(add(b, h))), -1),
        "comp": lambda: p(f), "comp2": lambda: p(p(mul(f, g))), "compv": lambda: q(v), "compvv": lambda: q(r(v)),
        "comp3": lambda: opq("m3", [()], vals(u3)), "compsv": lambda: opq("pv", VEC, vals(f)),
        "sum3": lambda: add(add(f, g), h), "lin": lambda: add(add(mul(a, f), mul(b, g)), mul(c, h)), "linv": lambda: add(mul(a, v), mul(b, w)),
        "constant": lambda: a, "vadd": lambda: add(v, w), "vsub": lambda: add(v, w, -1), "vneg": lambda: neg(v), "vscale": lambda: mul(a, v),
        "fv": lambda: mul(f, v), "vf": lambda: mul(f, v), "vdivf": lambda: mul(inv(f), v), "dot": lambda: mul(v, w),
        "sub0": lambda: at(v, (0,)), "sub1": lambda: at(v, (1,)), "sub1f": lambda: at(add(mul(f, v), w), (1,)),
        "Aadd": lambda: add(A, B), "fA": lambda: mul(f, A), "Av": lambda: mul(A, v), "vA": lambda: mul(v, A), "AB": lambda: mul(A, B),
        "At": lambda: transpose(A), "AtB": lambda: mul(transpose(A), B), "A01": lambda: at(A, (0, 1)), "A10f": lambda: at(mul(f, A), (1, 0)),
        "linsame": lambda: add(mul(a, p(f)), mul(b, p(g))), "lindup": lambda: mul(add(a, b), f),
        "Kplus": lambda: add(K, A), "Kminus": lambda: add(K, A, -1), "minusK": lambda: add(A, K, -1), "kplus": lambda: add(v, k, -1),
        "Ktimes": lambda: mul(K, A), "timesK": lambda: mul(A, K), "Kv": lambda: mul(K, v), "vK": lambda: mul(v, K), "Ak": lambda: mul(A, k), "kA": lambda: mul(k, A),
        "kdot": lambda: mul(k, v), "dotk": lambda: mul(k, v), "fK": lambda: mul(f, K), "Kf": lambda: mul(f, K), "kf": lambda: mul(f, k),
        "Kdivf": lambda: mul(inv(f), K), "constK": lambda: mul(K, A),
        "zero": lambda: f, "one": lambda: add(f, scalar(ONE), -1), "iden": lambda: V({i: A.c[i] + (ONE if i[0] == i[1] else ZERO) for i in MAT}),
        "functor": lambda: add(f, mul(g, h)), "functorv": lambda: at(v, (1,)),
        "det": lambda: scalar(A.c[0, 0] * A.c[1, 1] - A.c[0, 1] * A.c[1, 0]),
        "inv": lambda: mul(inv(scalar(A.c[0, 0] * A.c[1, 1] - A.c[0, 1] * A.c[1, 0])),
                           V({(0, 0): A.c[1, 1], (0, 1): -A.c[0, 1], (1, 0): -A.c[1, 0], (1, 1): A.c[0, 0]})),
        "dyad": lambda: V({(i, j): v.c[i,] * w.c[j,] for i in range(2) for j in range(2)}),
        "cmp0": lambda: scalar(xs[0]), "cmp1": lambda: scalar(xs[1]), "cmpmix": lambda: add(scalar(xs[0] * xs[1]), p(scalar(xs[1]))),
        "pow1": lambda: x, "pow2": lambda: mul(x, x), "pow3": lambda: mul(x, mul(x, x)), "pow5": lambda: mul(mul(x, x), mul(x, mul(x, x))),
        "poly": lambda: add(add(mul(a, mul(x, mul(x, x))), mul(b, x)), c, -1),
        "sinf": lambda: fn("sin", f), "expsin": lambda: fn("exp", mul(fn("sin", f), g)), "logf": lambda: fn("log", f),
        "pow3f": lambda: mul(f, mul(f, f)), "sqrtf": lambda: V({(): T.root(add(mul(f, f), g).c[()])}),
    }
    iA = lambda A: mul(inv(scalar(A.c[0, 0] * A.c[1, 1] - A.c[0, 1] * A.c[1, 0])), V({(0, 0): A.c[1, 1], (0, 1): -A.c[0, 1], (1, 0): -A.c[1, 0], (1, 1): A.c[0, 0]}))
    q2 = lambda x: opq("q2", [()], vals(x))
    Av = lambda: opq("A", MAT, vals(v))
    dy = lambda v, w: V({(i, j): v.c[i,] * w.c[j,] for i in range(2) for j in range(2)})
    d.update({
        "c_add": lambda: add(q(v), q2(v)), "c_const": lambda: a, "c_plus": lambda: add(q(v), a), "c_mul": lambda: mul(q(v), q2(v)), "c_times": lambda: mul(a, q(v)),
        "c_ctimes": lambda: mul(a, q(v)), "c_rec": lambda: mul(a, inv(q(v))), "c_rec1": lambda: inv(q(v)), "c_comp": lambda: p(q(v)), "c_sub": lambda: at(r(v), (1,)),
        "c_lin": lambda: add(mul(a, q(v)), mul(b, q2(v))), "c_cmp": lambda: at(v, (1,)), "c_tr": lambda: transpose(Av()),
        "c_det": lambda: scalar(Av().c[0, 0] * Av().c[1, 1] - Av().c[0, 1] * Av().c[1, 0]), "c_inv": lambda: iA(Av()), "c_dyad": lambda: dy(r(v), r(v)),
        "c_fun": lambda: q(v), "s_add": lambda: at(add(v, w), (1,)), "s_mul": lambda: at(mul(A, v), (1,)), "s_times": lambda: at(mul(a, v), (1,)),
        "s_ctimes": lambda: at(mul(a, v), (0,)), "s_comp": lambda: at(r(v), (1,)), "s_lin": lambda: at(add(mul(a, v), mul(b, w)), (1,)),
        "s_tr": lambda: at(A, (1, 0)), "s_add2": lambda: at(add(A, B), (1, 0)), "s_mul2": lambda: at(mul(A, B), (1, 0)), "s_times2": lambda: at(mul(a, A), (0, 1)),
        "s_ctimes2": lambda: at(mul(a, A), (0, 1)), "s_inv": lambda: at(iA(A), (0, 1)), "s_dyad": lambda: at(dy(v, w), (0, 1)),
    })
    for n in ("cos", "tan", "asin", "acos", "atan", "cbrt"):
        d["c_" + n] = lambda n=n: fn(n, f)
    for n in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "cbrt"):
        d[n] = lambda n=n: fn(n, x)
    d["sqrt"] = lambda: V({(): T.root(x.c[()])})
    return d


def domain(db, fn):
    t = D.strip_cvref(db.t(fn["params"][0]["t"]))
    if t in I.REAL_TYPES:
        return "scalar", 1, lambda: I.Cell(Poly.atom("x0"), "double"), [Poly.atom("x0")]
    n = int(D.tmpl(t)[1][-1])
    return f"{n}D", n, lambda: T.sym(t, "x"), [Poly.atom(f"x{i}") for i in range(n)]


def evaluate(ip, fn, X):
    extra = [I.Cell(Poly.atom(p["n"]), "double") if D.strip_cvref(ip.db.t(p["t"])) in I.REAL_TYPES else T.sym(D.strip_cvref(ip.db.t(p["t"])), p["n"])
             for p in fn["params"][1:]]
    rs = list(ip.paths(lambda ip: ip.call_fn(fn, None, [X()] + extra)))
    if len(rs) != 1 or rs[0][0] != "ok":
        raise I.Undecided(f"{fn['b']}: {rs[0]!r} ({len(rs)} paths)")
    return flat(ip, rs[0][1])


def where(ip, db, base):
    """the innermost library function of the module the evaluation went through, for attribution"""
    fs = [db.fns[i] for i in ip.analysed if i in db.fns and db.in_repo(db.fns[i])]
    for f in fs:
        if f["b"] == base:
            return db.where(f)
    return db.where(fs[0]) if fs else "lib/mito/functions"


ANCH = {"add": "operator+", "sub": "operator-", "neg": "operator-", "cadd": "operator+", "addc": "operator+", "csub": "operator-", "subc": "operator-",
        "cmul": "operator*", "mulc": "operator*", "divc": "operator/", "mul": "operator*", "cdiv": "operator/", "div": "operator/", "comp": "Composition::operator()"}


def drivers(db, prefix):
    out = {}
    for f in db.fns.values():
        b = f["b"].split("::")[-1]
        if f["n"].startswith(prefix) and f["b"].startswith("verif::" + prefix):
            out.setdefault(b[len(prefix):], []).append(f)
    return out


def index(f):
    """explicit integer template arguments of a driver function"""
    r = []
    for z in D.split_targs(f.get("ta") or ""):
        if z.strip().isdigit():
            r.append(int(z))
    return r


def d01(R):
    R.minimum = 100
    R.rule("pointwise", "an expression of functions, interpreted on a symbolic argument with arbitrary functions as leaves, evaluates to the same expression of their values")
    db = load()
    if len(drivers(db, "val_")) < 50:
        raise D.AnalysisBroken("function expressions not instantiated")
    for db in (db, load_more(R, "pointwise")):
        if db is None:
            continue
        ip = interp(db)
        vals = drivers(db, "val_")
        for name in sorted(vals):
            for fn in vals[name]:
                dom, n, X, xs = domain(db, fn)
                inst = f"{name} of a {dom} argument"

                def go():
                    ip.analysed = set()
                    got = evaluate(ip, fn, X)
                    R.used(ip)
                    want = oracle(xs)[name]().c
                    ring = T.Ring()
                    w = where(ip, db, "mito::functions::" + ANCH.get(name, ""))
                    if sorted(got) != sorted(want):
                        R.bad("pointwise", inst, w, f"has components {sorted(got)}, should have {sorted(want)}")
                        return
                    for i in sorted(want):
                        if not ring.same(got[i], want[i]):
                            R.bad("pointwise", inst, w, f"component {i} evaluates to {got[i]!r}, should be {want[i]!r}")
                            return
                    R.ok("pointwise", inst, w)
                R.guard("pointwise", inst, "", go)


def d02(R):
    db = load()
    R.minimum = 150
    R.rule("partial derivative", "derivative<I>(f) evaluates, component by component, to the exact derivative along x_I of the value f evaluates to, for arbitrary smooth leaf functions")
    R.rule("jacobian", "the matrix of partial derivatives has the derivative of output i along input k in row i, column k")
    R.rule("second derivative", "derivatives of derivatives are exact as well")
    if len(drivers(db, "der_")) < 40:
        raise D.AnalysisBroken("derivative expressions not instantiated")

    def compare(rule, inst, w, got, want):
        ring = T.Ring()
        if sorted(got) != sorted(want):
            R.bad(rule, inst, w, f"has components {sorted(got)}, should have {sorted(want)}")
            return
        for i in sorted(want):
            if not ring.same(got[i], want[i]):
                R.bad(rule, inst, w, f"component {i} evaluates to {str(got[i])[:300]}, should be {str(want[i])[:300]}")
                return
        R.ok(rule, inst, w)
    for db in (load_more(R, "partial derivative"), db):
        if db is None:
            continue
        ip = interp(db)
        vals, ders = drivers(db, "val_"), drivers(db, "der_")
        for name in sorted(ders):
            for fn in ders[name]:
                dom, n, X, xs = domain(db, fn)
                k = index(fn)[0]
                inst = f"d/dx{k} of {name} of a {dom} argument"

                def go():
                    val = next(f for f in vals[name] if domain(db, f)[0] == dom)
                    base = evaluate(ip, val, X)
                    ip.analysed = set()
                    got = evaluate(ip, fn, X)
                    R.used(ip)
                    ring = T.Ring()
                    want = {i: ring.d(p, atom_id(f"x{k}")) for i, p in base.items()}
                    compare("partial derivative", inst, where(ip, db, "mito::functions::derivative"), got, want)
                R.guard("partial derivative", inst, "", go)
    J = {"f2": ("f", [()], 2), "f3": ("f", [()], 3), "v2": ("v", VEC, 2), "v3": ("v", VEC, 3), "u2": ("u3", [(0,), (1,), (2,)], 2),
         "u1": ("u3", [(0,), (1,), (2,)], 1), "f1": ("f", [()], 1), "r2": (None, VEC, 2)}
    jac = drivers(db, "jac_")
    for name in sorted(jac):
        def go():
            fn = jac[name][0]
            dom, n, X, xs = domain(db, fn)
            ip.analysed = set()
            got = evaluate(ip, fn, X)
            R.used(ip)
            op, comps, _ = J[name]
            inner = opq(op, comps, xs).c if op else None
            if name == "r2":
                vv = opq("v", VEC, xs).c
                inner = opq("r", VEC, [vv[i] for i in VEC]).c
            ring = T.Ring()
            want = {}
            for i in comps:
                for k in range(n):
                    key = ((i[0] if i else 0), k)
                    if name == "f1":
                        key = ()
                    want[key] = ring.d(inner[i], atom_id(f"x{k}"))
            # vectors are matrices with a single row or column
            if sorted(got) != sorted(want) and len(next(iter(got))) == 1:
                want = {(max(kk),) if sum(1 for z in zip(*want) if len(set(z)) > 1) <= 1 else kk: x for kk, x in want.items()}
            compare("jacobian", f"of {name} ({dom} argument)", where(ip, db, "mito::functions::derivative"), got, want)
        R.guard("jacobian", name, "", go)
    S = {"mul": "mul", "div": "div", "comp": "comp", "compv": "compv"}
    sec = drivers(db, "sec_")
    for name in sorted(sec):
        for fn in sec[name]:
            i, j = index(fn)
            inst = f"d2/dx{i}dx{j} of {name}"

            def go():
                dom, n, X, xs = domain(db, fn)
                ip.analysed = set()
                got = evaluate(ip, fn, X)
                R.used(ip)
                ring = T.Ring()
                want = {c: ring.d(ring.d(p, atom_id(f"x{j}")), atom_id(f"x{i}")) for c, p in oracle(xs)[S[name]]().c.items()}
                compare("second derivative", inst, where(ip, db, "mito::functions::derivative"), got, want)
            R.guard("second derivative", inst, "", go)
