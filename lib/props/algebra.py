"""Permutations, forms, materials: functions are interpreted over symbolic operands and their results compared, as polynomials or
rational functions, with the algebra they stand for."""
import itertools
from fractions import Fraction
import db as D
import interp as I
import tensors as T
from poly import Poly, ZERO, ONE, atom_id

ROOTS = ("/opt/pyre/include/pyre/tensor/constexpr_for.h",)
SRC = "algebra.cc"


def load(allowed=()):
    db = D.extract(SRC, ROOTS)
    db.check_diags(allowed)
    return db


def one(ip, fn, mk, this=None):
    """the result of interpreting fn on the arguments mk(ip) yields, on its only path"""
    rs = list(ip.paths(lambda ip: ip.call_fn(fn, this(ip) if this else None, mk(ip))))
    if len(rs) != 1:
        raise I.Undecided(f"{len(rs)} paths through {fn['b']}")
    return rs[0]


def driver(db, base, cls=None):
    fs = [f for f in db.by_base.get(base, []) if "(anonymous" not in f["q"] and (cls is None or cls in f["q"])]
    if not fs:
        raise D.AnalysisBroken(f"driver function {base} {cls or ''} not instantiated")
    return fs[0]


def lib_where(ip, db, prefer):
    """the library function an observation is attributed to"""
    fs = [db.fns[i] for i in ip.analysed if i in db.fns and db.in_repo(db.fns[i])]
    for p in prefer:
        for f in fs:
            if f["b"] == p:
                return db.where(f)
    for p in prefer:
        for f in db.fns.values():
            if f["b"] == p and db.in_repo(f):
                return db.where(f)
    return db.where(fs[0]) if fs else "lib/mito"


# ---------------------------------------------------------------------------- permutations
def sign(p):
    s, p = 1, list(p)
    for i in range(len(p)):
        for j in range(i + 1, len(p)):
            if p[i] > p[j]:
                s = -s
    return s


def m01(R):
    db = load()
    R.minimum = 150
    R.rule("permutation sign", "interpreting permutation_sign(data, reference) on every rearrangement of distinct values yields +1 exactly for the even ones")
    R.rule("same elements", "interpreting same_elements(a, b) yields true exactly when both hold the same values equally often")
    R.rule("refusal", "permutation_sign of arrays with different elements stops at its assertion")
    ip = I.Interp(db)
    ip.ignore_asserts = False
    ip.decide_asserts = True

    def arr(vs):
        return I.Arr([I.Cell(Poly.const(v), "int") for v in vs], "int", "std::array")
    refs = {2: [(1, 2), (5, -3)], 3: [(1, 2, 3), (7, -2, 4), (3, 2, 1)], 4: [(1, 2, 3, 4), (9, -4, 6, 0), (4, 3, 2, 1)], 5: [(1, 2, 3, 4, 5)]}
    for n, rs in refs.items():
        f = driver(db, f"verif::p_sign{n}")
        for ref in rs:
            for perm in itertools.permutations(range(n)):
                data = tuple(ref[k] for k in perm)
                inst = f"data {data} reference {ref}"

                def go():
                    r = one(ip, f, lambda ip: [arr(data), arr(ref)])
                    w = lib_where(ip, db, ["mito::math::permutation_sign"])
                    if r[0] != "ok":
                        R.bad("permutation sign", inst, w, f"the call ends with {r[0]} {r[1]}")
                    else:
                        R.check(r[1] == Poly.const(sign(perm)), "permutation sign", inst, w, f"yields {r[1]!r}, the permutation has sign {sign(perm):+d}")
                R.guard("permutation sign", inst, "", go)
    for n in (2, 3, 4):
        f = driver(db, f"verif::p_sign{n}")
        ref = tuple(range(1, n + 1))
        for k in range(n):
            for v in (0, 9, ref[(k + 1) % n]):
                data = ref[:k] + (v,) + ref[k + 1:]
                inst = f"data {data} reference {ref}"

                def go():
                    r = one(ip, f, lambda ip: [arr(data), arr(ref)])
                    R.check(r[0] != "ok", "refusal", inst, lib_where(ip, db, ["mito::math::permutation_sign"]), f"accepted with result {r[1]!r}")
                R.guard("refusal", inst, "", go)
    for n, alpha in ((2, (1, 2, 3)), (3, (1, 2, 3)), (4, (1, 2))):
        f = driver(db, f"verif::p_same{n}")
        for a in itertools.product(alpha, repeat=n):
            for b in itertools.product(alpha, repeat=n):
                inst = f"{a} and {b}"
                want = sorted(a) == sorted(b)

                def go():
                    r = one(ip, f, lambda ip: [arr(a), arr(b)])
                    w = lib_where(ip, db, ["mito::math::same_elements"])
                    if r[0] != "ok":
                        R.bad("same elements", inst, w, f"the call ends with {r[0]} {r[1]}")
                    else:
                        v = ip.known(r[1]) if isinstance(r[1], I.Cond) else r[1]
                        v = (v.cval() != 0) if isinstance(v, Poly) else v
                        R.check((v == want) if v is not None else None, "same elements", inst, w, f"yields {v}")
                R.guard("same elements", inst, "", go)
    R.used(ip)


# ---------------------------------------------------------------------------- forms
def F_oracle(name, c):
    """the value the named driver expression stands for; c: component access c('a', i), D"""
    n = c.n
    L = {k: (lambda x, k=k: T.total(c(k, i) * x[i] for i in range(n))) for k in "abcd"}
    x, y, z = ([c(k, i) for i in range(n)] for k in "xyz")
    a, b, cc, d = L["a"], L["b"], L["c"], L["d"]
    s = c.s

    def w2(f, g, u, v):
        return f(u) * g(v) - f(v) * g(u)

    def w3():
        return T.det([[f(u) for u in (x, y, z)] for f in (a, b, cc)], 3)
    stem = name.split("_")[0]
    tab = {
        "add1": lambda: a(x) + b(x), "sub1": lambda: a(x) - b(x), "neg1": lambda: -a(x), "lmul1": lambda: s * a(x), "rmul1": lambda: s * a(x),
        "add2": lambda: a(x) * b(y) + cc(x) * d(y), "sub2": lambda: a(x) * b(y) - cc(x) * d(y), "neg2": lambda: -(a(x) * b(y)),
        "lmul2": lambda: s * a(x) * b(y), "rmul2": lambda: s * a(x) * b(y), "star": lambda: a(x) * b(y), "ten2": lambda: a(x) * b(y),
        "ten3": lambda: a(x) * b(y) * cc(z), "wedge1": lambda: a(x), "wedge2": lambda: w2(a, b, x, y), "wedge3": w3, "wedge12": w3,
    }
    full = {
        "one_sym": lambda: T.total(c.g(i, j) * c("a", i) * c("x", j) for i in range(n) for j in range(n)),
        "one_diag": lambda: T.total(c.g(i, i) * c("a", i) * c("x", i) for i in range(n)),
        "one_def": lambda: a(x), "one_dummy": lambda: a(x), "one_fun": lambda: a(x),
        "wedge_s1": lambda: s * a(x), "wedge_1s": lambda: s * a(x), "wedge_s2": lambda: s * w2(a, b, x, y), "wedge_2s": lambda: s * w2(a, b, x, y),
    }
    return full[name]() if name in full else tab[stem]()


class Comps:
    def __init__(self, n):
        self.n = n
        self.s = Poly.atom("s")

    def __call__(self, k, i):
        return Poly.atom(f"{k}{i}")

    def g(self, i, j):
        return Poly.atom(f"g{min(i, j)}{max(i, j)}")


ANCHOR = {k: "mito::tensor::" + v for k, v in {"add": "operator+", "sub": "operator-", "neg": "operator-", "lmul": "operator*", "rmul": "operator*",
                                               "star": "operator*", "one": "one_form", "ten": "tensor"}.items()}


def forms(R, pick, prefer):
    db = load()
    ip = I.Interp(db)
    T.install(ip)
    seen = {}
    for f in db.fns.values():
        if not f["b"].startswith("verif::F::") or "(anonymous" in f["q"]:
            continue
        name = f["b"].split("::")[-1]
        n = int(f["q"].split("<", 1)[1].split(">", 1)[0])
        seen.setdefault(name, []).append((n, f))
    for name in sorted(seen):
        if not pick(name):
            continue
        for n, f in sorted(seen[name], key=lambda z: z[0]):
            ps = [(p["n"], db.t(p["t"])) for p in f["params"]]
            want = F_oracle(name, Comps(n))
            inst = f"{name} in {n}D"
            rule = "wedge" if name.startswith("wedge") else "tensor product" if name.startswith(("ten", "star")) else "one-form" if name.startswith("one") else "form algebra"

            def go():
                ip.analysed = set()
                bad = None
                # several paths: the value must be right on each of them, under its conditions
                for st, v in ip.paths(lambda ip: ip.call_fn(f, None, [ip.fresh(t, k) for k, t in ps])):
                    if bad is None:
                        if st != "ok":
                            bad = f"evaluation ends with {st} {v}"
                        elif ip.facts.norm(ip.n(T.L(v)) - want) != ZERO:
                            bad = f"evaluates to {ip.n(T.L(v))!r}, should be {want!r}"
                R.used(ip)
                w = lib_where(ip, db, ([ANCHOR[k] for k in ANCHOR if name.startswith(k)] if not name.startswith("wedge") else []) + prefer)
                if bad:
                    R.bad(rule, inst, w, bad)
                    return
                R.ok(rule, inst, w)
            R.guard(rule, inst, "", go)
    if len(seen) < 20:
        raise D.AnalysisBroken("form expressions not instantiated")


def f01(R):
    R.minimum = 80
    R.rule("one-form", "a one-form built from a vector (and a metric), or from a function, contracts to g(a, x)")
    R.rule("form algebra", "sums, differences, negation and multiples of forms evaluate to sums, differences, negation and multiples of the values")
    R.rule("tensor product", "a tensor product evaluates to the product of the factors in argument order, also through partial contractions with the dummy vector")
    forms(R, lambda n: not n.startswith("wedge"), ["mito::tensor::one_form", "mito::tensor::tensor", "mito::tensor::operator+", "mito::tensor::operator-",
                                                   "mito::tensor::operator*", "mito::tensor::Form::operator()"])


def f02(R):
    R.minimum = 30
    R.rule("wedge", "a wedge product of one-forms evaluates to the determinant of the values, whichever way the product is bracketed or contracted")
    forms(R, lambda n: n.startswith("wedge"), ["mito::tensor::wedge"])


# ---------------------------------------------------------------------------- materials
MODELS = {"g": ("Gent", "mito::materials::Gent", ["rho", "kappa", "mu", "Jm"]), "l": ("LinearElastic", "mito::materials::LinearElastic", ["rho", "E", "nu"])}
PAIRS = list(itertools.product(range(3), repeat=2))


class Material:
    """energy, stress and tangents of a model on a symbolic deformation gradient with symbolic parameters"""

    def __init__(self, db, k):
        self.db, self.k = db, k
        self.label, self.q, self.ps = MODELS[k]
        self.ip = I.Interp(db)
        self.ring = T.Ring()
        F = [[Poly.atom(f"F{i}{j}") for j in range(3)] for i in range(3)]
        self.F = F
        J = Poly.atom("J")
        det = T.det(F, 3)
        lead = {atom_id("F00"): 1, atom_id("F11"): 1, atom_id("F22"): 1}
        # det F is abbreviated by J (with d J / d F the cofactors)
        self.ring.rule(lead, J - (det - F[0][0] * F[1][1] * F[2][2]))
        ad = T.adj(F)
        self.ring.dat[atom_id("J")] = {atom_id(f"F{i}{j}"): ad[j][i] for i, j in PAIRS}
        T.install(self.ip, self.ring)
        mk, en, st, tg = (driver(db, f"verif::{k}_{n}") for n in ("make", "energy", "stress", "tangents"))
        self.fns = mk, en, st, tg

    def cases(self):
        """one case per path through energy, stress and tangents together"""
        ip = self.ip
        mk, en, st, tg = self.fns
        trail = []
        assume = ip.assume

        def logged(c, r):
            trail.append((c, r))
            return assume(c, r)
        ip.assume = logged

        def body(ip):
            trail.clear()
            m = ip.call_fn(mk, None, [I.Cell(Poly.atom(p), "double") for p in self.ps])
            F = lambda: T.sym(T.ttype((3, 3)), "F")
            return ip.n(T.L(ip.call_fn(en, None, [m, F()]))), T.comps(ip.call_fn(st, None, [m, F()])), T.comps(ip.call_fn(tg, None, [m, F()]))
        out = []
        for r in ip.paths(body):
            if r[0] == "ok":
                out.append(Case(self, *r[1], list(trail)))
            elif r[0] != "throw":
                raise I.Undecided(f"{self.label} ends with {r[0]} {r[1]}")
        # a path taken on equality only is the limit of the others: not an open set of states
        gen = [c for c in out if not any(x.op == "eq0" and (y != x.neg) for x, y in c.conds)]
        if not gen:
            raise I.Undecided(f"{self.label}: no path")
        for i, c in enumerate(gen):
            c.tag = self.label if len(gen) == 1 else f"{self.label} (path {i + 1} of {len(gen)})"
        return gen

    def where(self, m):
        fs = [f for f in self.db.fns.values() if f["b"] == f"{self.q}::{m}"]
        return self.db.where(fs[0]) if fs else self.q

    def v(self, i, j):
        return atom_id(f"F{i}{j}")

    def at_rest(self, p):
        """p at F = identity"""
        s = {self.v(i, j): (ONE if i == j else ZERO) for i, j in PAIRS}
        s[atom_id("J")] = ONE
        return at(p, s)


class Case:
    def __init__(self, M, W, P, C, conds):
        self.M, self.conds, self.memo = M, conds, {}
        self.W, self.P, self.C = (lambda: W), (lambda: P), (lambda: C)
        for a in ("k", "ring", "F", "where", "v", "at_rest"):
            setattr(self, a, getattr(M, a))

    @property
    def label(self):
        return self.tag

    def get(self, k, f):
        if k not in self.memo:
            self.memo[k] = f()
        return self.memo[k]

    def rests(self):
        """is the undeformed state on this path? True / False / None (depends on the parameters)"""
        r = True
        for c, y in self.conds:
            if c.op not in ("le0", "le0r"):
                r = None
                continue
            x = self.at_rest(c.x)
            num = T.clear(x)[0]
            cs = list(num.t.values())
            if not cs:
                t = True
            elif num.is_const():
                t = num.cval() <= 0
            else:
                r = None
                continue
            if (t != c.neg) != y:
                return False
        return r


def at(p, s):
    """substitute atoms, also inside function terms"""
    from poly import atom_of
    r = ZERO
    for m, c in p.t.items():
        x = Poly.const(c)
        for a, e in m:
            if a in s:
                b = s[a]
            else:
                k = atom_of(a)
                if isinstance(k, tuple) and any(isinstance(y, Poly) for y in k[1:]):
                    args = [at(y, s) if isinstance(y, Poly) else y for y in k[1:]]
                    if k[0] == "inv":
                        b = T.recip(args[0])
                    elif k[0] == "log" and is_one(args[0]):
                        b = ZERO
                    elif k[0] == "sqrt":
                        b = T.root(args[0])
                    else:
                        b = Poly.atom((k[0],) + tuple(args))
                else:
                    b = Poly({((a, 1),): Fraction(1)})
            for _ in range(e):
                x = T.simp(x * b)
        r = r + x
    return r


def is_one(p):
    return not T.clear(p - ONE)[0].t


def materials(R, what):
    db = load()
    for k in MODELS:
        M = Material(db, k)
        R.guard("model", M.label, M.q, lambda: [what(c) for c in M.cases()])
        R.used(M.ip)


def k01(R):
    R.minimum = 150
    R.rule("stress", "each component of the stress equals the derivative of the strain energy density along that component of the deformation gradient, "
                     "as rational functions of the deformation gradient and the parameters")
    R.rule("tangents", "each component of the tangents equals the derivative of that stress component along that component of the deformation gradient")

    def what(M):
        W, P, C = M.W(), M.P(), M.C()
        for i, j in PAIRS:
            R.guard("stress", f"{M.label} P{i}{j}", M.where("stress"), lambda: R.check(
                M.ring.same(P[i, j], M.ring.d(W, M.v(i, j))), "stress", f"{M.label} P{i}{j}", M.where("stress"),
                f"P[{i},{j}] differs from dW/dF[{i},{j}]"))
        for i, j in PAIRS:
            for k, l in PAIRS:
                inst = f"{M.label} C{i}{j}{k}{l}"
                R.guard("tangents", inst, M.where("tangents"), lambda: R.check(
                    M.ring.same(C[i, j, k, l], M.ring.d(P[i, j], M.v(k, l))), "tangents", inst, M.where("tangents"),
                    f"C[{i},{j},{k},{l}] differs from dP[{i},{j}]/dF[{k},{l}]"))
    materials(R, what)


def k02(R):
    R.minimum = 20
    R.rule("rest", "at the identity deformation gradient the energy and every stress component vanish, for all parameters")
    R.rule("rotation", "the stress exerts no torque (P F^T is symmetric; for the small strain model P is), i.e. the energy does not change under superposed rotations")
    R.rule("isotropy", "F^T P is symmetric (small strain: P is), i.e. the energy does not depend on the orientation of the body")
    R.rule("moduli", "at the identity the tangents are those of linear isotropic elasticity with the model's own moduli (Gent: with its own shear modulus)")

    def what(M):
        W, P = M.W(), M.P()
        z = M.ring.zero
        rests = M.rests()

        def settled(good):
            """False only if the undeformed state is known to be on this path"""
            return True if good else False if rests else None
        if rests is not False:
            R.guard("rest", f"{M.label} energy", M.where("energy"), lambda: R.check(
                settled(z(M.at_rest(W))), "rest", f"{M.label} energy", M.where("energy"), f"W(I) = {M.at_rest(W)!r}"))
            for i, j in PAIRS:
                R.guard("rest", f"{M.label} P{i}{j}", M.where("stress"), lambda: R.check(
                    settled(z(M.at_rest(P[i, j]))), "rest", f"{M.label} P{i}{j}", M.where("stress"), f"P(I) = {M.at_rest(P[i, j])!r}"))
        small = M.k == "l"
        Fm = M.F
        if small:
            # isotropy of the energy: derivative along infinitesimal rotations of the displacement gradient
            Hm = [[Fm[i][j] - (ONE if i == j else ZERO) for j in range(3)] for i in range(3)]
            dW = {q: M.ring.d(W, M.v(*q)) for q in PAIRS}
            for p, q in ((0, 1), (0, 2), (1, 2)):
                # W(R H R^T): dH = w H - H w, with w = e_p e_q - e_q e_p
                t = ZERO
                for i, j in PAIRS:
                    dh = ZERO
                    if i == p:
                        dh = dh + Hm[q][j]
                    if i == q:
                        dh = dh - Hm[p][j]
                    if j == p:
                        dh = dh + Hm[i][q]
                    if j == q:
                        dh = dh - Hm[i][p]
                    t = t + dW[i, j] * dh
                R.guard("isotropy", f"{M.label} W({p}{q})", M.where("energy"), lambda: R.check(
                    z(t), "isotropy", f"{M.label} W({p}{q})", M.where("energy"), "the energy depends on the orientation of the body"))
        for i, j in ((0, 1), (0, 2), (1, 2)):
            if small:
                a = b = P[i, j] - P[j, i]
                E = W.subst({M.v(i, j): Fm[j][i], M.v(j, i): Fm[i][j]}) - W
                R.guard("rotation", f"{M.label} W({i}{j})", M.where("energy"), lambda: R.check(
                    z(E), "rotation", f"{M.label} W({i}{j})", M.where("energy"), "the energy depends on the antisymmetric part of the displacement gradient"))
            else:
                a = T.total(P[i, k] * Fm[j][k] - P[j, k] * Fm[i][k] for k in range(3))
                b = T.total(Fm[k][i] * P[k, j] - Fm[k][j] * P[k, i] for k in range(3))
                dW = {q: M.get(("dW", q), lambda: M.ring.d(W, M.v(*q))) for q in PAIRS}
                R.guard("rotation", f"{M.label} W({i}{j})", M.where("energy"), lambda: R.check(
                    z(T.total(dW[i, k] * Fm[j][k] - dW[j, k] * Fm[i][k] for k in range(3))), "rotation", f"{M.label} W({i}{j})", M.where("energy"),
                    "the energy changes under superposed rotations (dW/dF F^T is not symmetric)"))
                R.guard("isotropy", f"{M.label} W({i}{j})", M.where("energy"), lambda: R.check(
                    z(T.total(Fm[k][i] * dW[k, j] - Fm[k][j] * dW[k, i] for k in range(3))), "isotropy", f"{M.label} W({i}{j})", M.where("energy"),
                    "the energy depends on the orientation of the body (F^T dW/dF is not symmetric)"))
            R.guard("rotation", f"{M.label} {i}{j}", M.where("stress"), lambda: R.check(
                z(a), "rotation", f"{M.label} {i}{j}", M.where("stress"), "P F^T is not symmetric"))
            R.guard("isotropy", f"{M.label} {i}{j}", M.where("stress"), lambda: R.check(
                z(b), "isotropy", f"{M.label} {i}{j}", M.where("stress"), "F^T P is not symmetric"))
        C = M.C()
        if rests is False:
            return
        rest = {q: M.get(("rest", q), lambda: M.at_rest(C[q])) for q in itertools.product(range(3), repeat=4)}
        if small:
            E, nu = Poly.atom("E"), Poly.atom("nu")
            la = E * nu * T.recip((ONE + nu) * (ONE - nu.scale(2)))
            mu = E * T.recip((ONE + nu).scale(2))
        else:
            la, mu = rest[0, 0, 1, 1], Poly.atom("mu")
        for (i, j), (k, l) in itertools.product(PAIRS, PAIRS):
            want = ZERO
            if i == j and k == l:
                want = want + la
            if i == k and j == l:
                want = want + mu
            if i == l and j == k:
                want = want + mu
            inst = f"{M.label} C{i}{j}{k}{l}"
            R.guard("moduli", inst, M.where("tangents"), lambda: R.check(
                settled(z(rest[i, j, k, l] - want)), "moduli", inst, M.where("tangents"), f"is {rest[i, j, k, l]!r}, should be {want!r}"))
    materials(R, what)


def k03(R):
    db = load()
    R.minimum = 8
    R.rule("stress test", "test_stress(F) compares with the tolerance the norm, over all nine components, of W(F + eps e_ij) - W(F - eps e_ij) - 2 eps P_ij(F), for opaque W and P")
    R.rule("tangents test", "test_tangents(F) compares with the tolerance the norm, over all 81 components, of P_ij(F + eps e_kl) - P_ij(F - eps e_kl) - 2 eps C_ijkl(F)")
    R.rule("own parameters", "the test keeps its perturbation and tolerance by value: both are passed as constants that end with the call that builds the test")
    R.rule("operands", "the deformation gradient and the material are not modified by the test")
    eps, tol = Poly.atom("eps"), Poly.atom("tol")
    Fa = {i: Poly.atom(f"F{i[0]}{i[1]}") for i in PAIRS}

    def key(F):
        return tuple(F[i] for i in PAIRS)

    def W(F):
        return Poly.atom(("W",) + key(F))

    def P(F, i):
        return Poly.atom(("P",) + tuple(map(Poly.const, i)) + key(F))

    def C(F, i):
        return Poly.atom(("C",) + tuple(map(Poly.const, i)) + key(F))

    def shifted(i, s):
        G = dict(Fa)
        G[i] = G[i] + s
        return G
    for k in MODELS:
        label, q, ps = MODELS[k]
        ip = I.Interp(db)
        T.install(ip)

        def energy(ip, c):
            return W(T.comps(c.a[0]))

        def stress(ip, c):
            F = T.comps(c.a[0])
            # a symmetric stress has symmetric components
            return T.new(c.t, lambda i: P(F, tuple(sorted(i)) if "Symmetric" in c.t else i))

        def tangents(ip, c):
            F = T.comps(c.a[0])
            return T.new(c.t, lambda i: C(F, i))
        ip.over[q + "::energy"], ip.over[q + "::stress"], ip.over[q + "::tangents"] = energy, stress, tangents
        cls = [r for r in db.rec("mito::materials::MaterialConsistencyTest") if label in db.t(r["t"]).split("<", 1)[1]]
        if not cls:
            raise D.AnalysisBroken("consistency test not instantiated for " + label)
        cls = cls[0]
        ctn = db.t(cls["t"])
        w = next((db.where(f) for f in db.find("mito::materials::MaterialConsistencyTest::test_stress", ctn)), ctn)
        for f in cls["fields"]:
            t = db.t(f["t"])
            if strip(t) in I.REAL_TYPES:
                R.check(not D.is_ref(t), "own parameters", f"{label} {f['n']}", w,
                        f"member {f['n']} is a reference ({t}): it dangles once the argument it was bound to has ended")
        ctor = [f for f in db.fns.values() if f.get("ct") is not None and db.t(f["ct"]) == ctn and f["kind"] == "ctor" and len(f["params"]) == 3]
        if not ctor:
            raise D.AnalysisBroken("constructor of the consistency test not found")
        sym = "symmetric" if k == "l" else "full"
        for test in ("test_stress", "test_tangents"):
            fn = db.find(f"mito::materials::MaterialConsistencyTest::{test}", ctn)
            if not fn:
                raise D.AnalysisBroken(f"{test} not found")
            fn = fn[0]
            rule = "stress test" if test == "test_stress" else "tangents test"

            def go():
                box, trail = {}, []

                def body(ip):
                    o = I.Obj(ctn)
                    mat = I.Obj(q, {}, lazy=True, name="material")
                    ip.construct_with(o, ctor[0], [mat, I.Cell(eps, "double"), I.Cell(tol, "double")])
                    F = T.sym(T.ttype((3, 3)), "F")
                    box["F"] = F
                    trail.clear()
                    return ip.decide(ip.truth(T.L(ip.call_fn(fn, o, [F]))))
                S = ZERO
                if test == "test_stress":
                    for i in PAIRS:
                        pi = P(Fa, tuple(sorted(i)) if sym == "symmetric" else i)
                        d = W(shifted(i, eps)) - W(shifted(i, -eps)) - (pi * eps).scale(2)
                        S = S + d * d
                else:
                    for i in PAIRS:
                        pi = tuple(sorted(i)) if sym == "symmetric" else i
                        for kl in PAIRS:
                            d = P(shifted(kl, eps), pi) - P(shifted(kl, -eps), pi) - (C(Fa, i + kl) * eps).scale(2)
                            S = S + d * d
                assume = ip.assume

                def logged(c, r):
                    trail.append((c, r))
                    return assume(c, r)
                ip.assume = logged
                bad = None
                try:
                    for st, v in ip.paths(body):
                        if st != "ok":
                            bad = bad or f"the test ends with {st} {v}"
                        elif not any(is_below(c, S, tol) and y == v or is_below(I.Cond(c.op, c.x, not c.neg), S, tol) and y != v for c, y in trail):
                            bad = bad or f"the outcome is not 'residual < tolerance' for the central-difference residual: {str(trail)[:300]}"
                        R.check(all(T.comp(box["F"], i) == Fa[i] for i in PAIRS), "operands", f"{label} {test} -> {v}", db.where(fn), "the deformation gradient changed")
                finally:
                    ip.assume = assume
                R.check(not bad, rule, label, db.where(fn), bad)
            R.guard(rule, label, db.where(fn), go)
        R.used(ip)


def strip(t):
    return D.strip_cvref(t)


def is_below(v, S, tol):
    """is the condition v: sqrt(S) < tol ?"""
    if not isinstance(v, I.Cond):
        return False
    root = T.root(S)
    op, x, neg = v.op, v.x, v.neg
    for a, b in ((root, tol), (S, tol * tol)):
        if op in ("lt0", "lt0r") and not neg and x == a - b:
            return True
        if op in ("le0", "le0r") and neg and x == b - a:
            return True
    return False
