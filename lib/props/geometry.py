"""Coordinates, transformations, metrics and fields: the library's functions are interpreted on symbolic coordinates (and arbitrary
fields) and compared with the geometry they stand for, through the Cartesian position of a set of coordinates."""
from fractions import Fraction
import db as D
import interp as I
import tensors as T
from poly import Poly, ZERO, ONE, atom_of, atom_id
from props.functions import flat, V, opq, op_atom

ROOTS = ("/opt/pyre/include/pyre/tensor/constexpr_for.h",)
KINDS = {"CARTESIAN": 0, "POLAR": 1, "SPHERICAL": 2}
NAMES = ["f", "g", "v", "w", "A", "u3", "u2"]


def load(drv="geometry.cc"):
    db = D.extract(drv, ROOTS)
    db.check_diags(())
    return db


def interp(db):
    ip = I.Interp(db)
    T.install(ip)

    def leaf(ip, c):
        ta = D.split_targs(c.x["ta"])
        ta = [ta[0], ta[1]] + [y for z in ta[2:] for y in D.split_targs(z.strip("<>"))]
        xs = [ip.n(T.L(a)) for a in c.a]
        name, der = NAMES[int(ta[0].rstrip("UL"))], tuple(int(z.rstrip("UL")) for z in ta[2:])
        # unused arguments are the defaulted zeros
        n = dim_of.get("n")
        xs = xs[:n]
        if "Tensor<" in ta[1] or "Tensor<" in c.t:
            return T.new(c.t, lambda i: op_atom(name, i, der, xs))
        return op_atom(name, (), der, xs)
    dim_of = {}
    ip.leafdim = dim_of
    ip.over["verif::leaf"] = leaf
    return ip


# ---------------------------------------------------------------------------- trigonometry
class Trig(T.Ring):
    """identities between angles: addition theorems, cos/sin of arctangents; square roots of the squares of quantities known positive"""

    def __init__(self, positive=()):
        super().__init__()
        self.positive = list(positive)
        self.memo = {}

    def X(self, p):
        s = {}
        for a in p.atoms():
            x = atom_of(a)
            if isinstance(x, tuple) and all(isinstance(y, Poly) for y in x[1:]):
                y = self.at(a, x)
                if y is not None:
                    s[a] = y
        return T.simp(p.subst(s)) if s else p

    def at(self, a, x):
        if a in self.memo:
            return self.memo[a]
        k = x[0]
        r = None
        if k in ("cos", "sin"):
            r = self.angle(k, x[1])
        elif k == "tan":
            r = self.angle("sin", x[1]) * T.recip(self.angle("cos", x[1]))
        elif k == "inv":
            r = T.recip(self.X(x[1]))
        elif k == "sqrt":
            r = self.root(self.X(x[1]))
        self.memo[a] = r
        return r

    def root(self, q):
        q = self.norm(self.square_roots(q))
        for c in self.positive:
            if self.zero(q - c * c):
                return c
            if self.zero(q * c * c - ONE):
                return T.recip(c)
        return T.root(q)

    def angle(self, k, u):
        u = self.X(u)
        ts = sorted(u.t.items())
        if not ts:
            return ONE if k == "cos" else ZERO
        m, c = ts[0]
        rest = Poly(dict(ts[1:]))
        if rest.t or (c.denominator == 1 if hasattr(c, "denominator") else True) and abs(c) > 1 and m:
            if not rest.t:
                one = Poly({m: 1 if c > 0 else -1})
                rest = u - one
                first = one
            else:
                first = Poly({m: c})
            c1, s1, c2, s2 = self.angle("cos", first), self.angle("sin", first), self.angle("cos", rest), self.angle("sin", rest)
            return c1 * c2 - s1 * s2 if k == "cos" else s1 * c2 + c1 * s2
        if c < 0:
            r = self.angle(k, -u)
            return r if k == "cos" else -r
        x = atom_of(m[0][0]) if len(m) == 1 and m[0][1] == 1 and c == 1 else None
        if isinstance(x, tuple) and x[0] == "atan2":
            y, z = self.X(x[1]), self.X(x[2])
            return (z if k == "cos" else y) * T.recip(self.root(y * y + z * z))
        if isinstance(x, tuple) and x[0] == "atan":
            y = self.X(x[1])
            return (ONE if k == "cos" else y) * T.recip(self.root(ONE + y * y))
        if isinstance(x, tuple) and x[0] in ("acos", "asin"):
            y = self.X(x[1])
            return y if (x[0] == "acos") == (k == "cos") else self.root(ONE - y * y)
        return Poly.atom((k, u))

    def same(self, a, b):
        return self.zero(self.X(a - b))


def cs(u):
    return Poly.atom(("cos", u)), Poly.atom(("sin", u))


def position(kind, x):
    """the Cartesian position of a set of coordinates"""
    if kind == 0:
        return list(x)
    if kind == 1:
        c, s = cs(x[1])
        return [x[0] * c, x[0] * s]
    (ct, st), (cp, sp) = cs(x[1]), cs(x[2])
    return [x[0] * st * cp, x[0] * st * sp, x[0] * ct]


def frame(kind, x):
    """the orthonormal frame in which vectors are expressed: frame[a] is the Cartesian direction of component a"""
    if kind == 0:
        return [[ONE if i == j else ZERO for j in range(len(x))] for i in range(len(x))]
    if kind == 1:
        c, s = cs(x[1])
        return [[c, s], [-s, c]]
    (ct, st), (cp, sp) = cs(x[1]), cs(x[2])
    return [[st * cp, st * sp, ct], [ct * cp, ct * sp, -st], [-sp, cp, ZERO]]


def scales(kind, x):
    """length of the coordinate directions"""
    if kind == 0:
        return [ONE] * len(x)
    if kind == 1:
        return [ONE, x[0]]
    return [ONE, x[0], x[0] * Poly.atom(("sin", x[1]))]


def positive(kind, x):
    return [] if kind == 0 else [x[0]] if kind == 1 else [x[0], Poly.atom(("sin", x[1])), x[0] * Poly.atom(("sin", x[1])), x[0] * x[0] * Poly.atom(("sin", x[1]))]


def kind_of(db, t):
    """(dimension, kind) of a type of coordinates"""
    b, ta = D.tmpl(D.strip_cvref(t))
    if b.split("::")[-1] != "Coordinates" or len(ta) < 2:
        return None
    k = ta[1].split("::")[-1]
    if k.startswith("("):
        k = k.split(")")[-1]
    return int(ta[0]), (KINDS[k] if k in KINDS else int(k))


LABEL = {(1, 0): "1D Cartesian", (2, 0): "2D Cartesian", (3, 0): "3D Cartesian", (2, 1): "polar", (3, 2): "spherical"}


class Path:
    # the conditions of the path at hand, when it assumes equalities
    facts = None


class World:
    """the driver's functions, by name and kind of coordinates"""

    def __init__(self, db, R=None):
        self.db = db
        self.ip = interp(db)
        self.pick, self.fork = 0, 1
        if R is not None:
            self.guard0 = R.guard
            R.guard = self.guard
        self.by = {}
        for f in db.fns.values():
            if f["b"].startswith("verif::"):
                self.by.setdefault(f["n"], []).append(f)

    def kind(self, f):
        for t in [self.db.t(p["t"]) for p in f["params"]] + [self.db.t(f["ret"])]:
            k = kind_of(self.db, t)
            if k:
                return k
        return None

    def fn(self, name, kind=None, sub=None):
        fs = [f for f in self.by.get(name, []) if kind is None or self.kind(f) == kind]
        if sub is not None:
            fs = [f for f in fs if sub in [int(z) for z in D.split_targs(f.get("ta") or "") if z.strip().isdigit()]]
        if len(fs) != 1:
            raise D.AnalysisBroken(f"driver function {name} {kind} {sub}: {len(fs)} candidates")
        return fs[0]

    def coords(self, kind, names):
        """a set of symbolic coordinates"""
        n = kind[0]
        ps = [I.Cell(Poly.atom(names + str(i)) if i < n else ZERO, "double") for i in range(3)]
        return self.ip.call_fn(self.fn("at", kind), None, ps)

    def get(self, kind, c):
        f = self.fn("aff_get", kind)
        v = T.new(T.ttype((kind[0],)))
        r = T.L(self.ip.call_fn(f, None, [c, c, v]))
        return [self.ip.n(T.L(x)) for x in r.e]

    def one(self, go):
        """the value of go on the path at hand (see guard): generic paths first, then those that assume an equality of numbers"""
        rs = []
        for kd, v in self.ip.paths(lambda ip: go()):
            fs = self.ip.facts
            special = bool(fs.sub) or any(k[0] == "eq0" and t for k, t in fs.lit.items() if isinstance(k, tuple))
            rs.append((special, kd, v, fs))
        gen = [r for r in rs if not r[0]]
        if not gen or any(r[1] != "ok" for r in gen):
            raise I.Undecided(f"{[r[1:3] for r in rs]!r} ({len(rs)} paths)"[:300])
        rs = gen + [r for r in rs if r[0] and r[1] == "ok"]
        self.fork = max(self.fork, len(rs))
        special, _, v, fs = rs[min(self.pick, len(rs) - 1)]
        self.ip.facts = fs
        if special:
            Path.facts = fs
        return v

    def guard(self, rule, inst, where, fn):
        """decide an obligation on every path of the code it interprets"""
        self.pick, self.fork, Path.facts = 0, 1, None
        while True:
            self.guard0(rule, inst, where, fn)
            self.pick += 1
            Path.facts = None
            if self.pick >= self.fork:
                return

    def where(self, prefix):
        """the first function of the library whose name starts with prefix that the evaluation went through"""
        fs = [self.db.fns[i] for i in self.ip.analysed if i in self.db.fns and self.db.in_repo(self.db.fns[i])]
        for f in fs:
            if f["b"].startswith(prefix):
                return self.db.where(f)
        return self.db.where(fs[0]) if fs else ""


def names(n, s):
    return [Poly.atom(s + str(i)) for i in range(n)]


def dot(a, b):
    return T.total(x * y for x, y in zip(a, b))


def vecsym(n, s):
    return T.sym(T.ttype((n,)), s)


def vcomps(v):
    c = T.comps(T.L(v))
    return [c[k] for k in sorted(c)]


def compare(R, rule, inst, w, ring, got, want, what):
    for i, (a, b) in enumerate(zip(got, want)):
        if not ring.same(a, b):
            if Path.facts:
                if ring.same(Path.facts.norm(a), Path.facts.norm(b)):
                    continue
                raise I.Undecided(f"{what} {i}, on inputs that satisfy an equation")
            R.bad(rule, inst, w, f"{what} {i}: {str(a)[:250]} should equal {str(b)[:250]}")
            return False
    R.ok(rule, inst, w)
    return True


def g01(R):
    R.minimum = 50
    R.rule("displacement", "A + v has the Cartesian position of A displaced by v, taken in the orthonormal frame at A; A += v does the same in place")
    R.rule("difference", "B - A is the displacement from A to B in the frame at A, so A + (B - A) has B's position; distance is its length")
    R.rule("transformation", "transforming coordinates keeps the Cartesian position, with a nonnegative radius")
    R.rule("components", "construction, access, copies, coordinate functions, equality and ordering work on the components given")
    W = World(load(), R)
    ip = W.ip
    kinds = [(1, 0), (2, 0), (3, 0), (2, 1), (3, 2)]
    for kind in kinds:
        n, k = kind
        lab = LABEL[kind]
        ring = Trig()
        a, b = names(n, "a"), names(n, "b")
        pa, pb, F = position(k, a), position(k, b), frame(k, a)
        v = [Poly.atom(f"v({i},)") for i in range(n)]

        def call(name, mutate=False):
            def go():
                ip.analysed = set()
                A, B, v = W.coords(kind, "a"), W.coords(kind, "b"), vecsym(n, "v")
                return ip.call_fn(W.fn("aff_" + name, kind), None, [A, B, v])
            return go

        def v_of(go):
            r = W.one(go)
            R.used(ip)
            return r
        vv = vcomps(vecsym(n, "v"))
        disp = [p + T.total(vv[i] * F[i][j] for i in range(n)) for j, p in enumerate(pa)]

        def plus():
            r = v_of(lambda: W.get(kind, call("plus")()))
            compare(R, "displacement", f"A + v, {lab}", W.where("mito::geometry::operator+"), ring, position(k, r), disp, "position")
        R.guard("displacement", f"A + v, {lab}", "", plus)

        def pluseq():
            def go():
                r = T.L(call("pluseq")())
                x, same = r.e if isinstance(r, I.Arr) else (r.f["first"], r.f["second"])
                return W.get(kind, x), ip.decide(ip.truth(T.L(same)))
            r, same = v_of(go)
            w = W.where("mito::geometry::operator+=")
            if not same:
                R.bad("displacement", f"A += v, {lab}", w, "does not return the coordinates it changed")
            else:
                compare(R, "displacement", f"A += v, {lab}", w, ring, position(k, r), disp, "position")
        R.guard("displacement", f"A += v, {lab}", "", pluseq)

        def minus():
            r = v_of(lambda: vcomps(call("minus")()))
            got = [T.total(r[i] * F[i][j] for i in range(n)) for j in range(n)]
            compare(R, "difference", f"B - A, {lab}", W.where("mito::geometry::operator-"), ring, got, [y - x for x, y in zip(pa, pb)], "displacement")
        R.guard("difference", f"B - A, {lab}", "", minus)

        def between():
            r = v_of(lambda: W.get(kind, call("between")()))
            compare(R, "difference", f"A + (B - A), {lab}", W.where("mito::geometry::operator+"), ring, position(k, r), pb, "position")
        R.guard("difference", f"A + (B - A), {lab}", "", between)

        def dist():
            r = v_of(lambda: ip.n(T.L(call("distance")())))
            w = W.where("mito::geometry::distance")
            d = [y - x for x, y in zip(pa, pb)]
            t = list(r.t.items())
            x = atom_of(t[0][0][0][0]) if len(t) == 1 and len(t[0][0]) == 1 and t[0][0][0][1] == 1 and t[0][1] > 0 else None
            if not (isinstance(x, tuple) and x[0] in ("sqrt", "abs")):
                raise I.Undecided(f"distance {r!r}"[:200])
            compare(R, "difference", f"distance, {lab}", w, ring, [r * r], [dot(d, d)], "square of the distance")
        R.guard("difference", f"distance, {lab}", "", dist)

        def order(op):
            from intrinsics import less
            bad = []

            def go(ip):
                ip.analysed = set()
                got = ip.decide(ip.truth(T.L(call(op)())))
                want = True
                if op == "equal":
                    want = all(ip.decide(ip.eq(x, y)) for x, y in zip(a, b))
                else:
                    want = False
                    for x, y in zip(a, b):
                        if ip.decide(less(ip, x, y)):
                            want = True
                            break
                        if ip.decide(less(ip, y, x)):
                            break
                return got, want
            np = 0
            for kd, r in ip.paths(go):
                np += 1
                if kd != "ok":
                    raise I.Undecided(f"{kd} {r}")
                if r[0] != r[1]:
                    bad.append(r)
            R.used(ip)
            inst = f"{'==' if op == 'equal' else '<'}, {lab}"
            w = W.where("mito::geometry::operator")
            R.check(not bad and np > 1, "components", inst, w, f"compares differently from the components, on {len(bad)} of {np} orderings")
        for op in ("equal", "less"):
            R.guard("components", op + " " + lab, "", lambda: order(op))

        def comps(inst, go, want, w="mito::geometry::"):
            def run():
                got = v_of(go)
                compare(R, "components", f"{inst}, {lab}", W.where(w), ring, got, want, "component")
            R.guard("components", f"{inst}, {lab}", "", run)
        comps("construction from values", lambda: W.get(kind, W.coords(kind, "a")), a, "mito::geometry::Coordinates::Coordinates")
        comps("copy and assignment", lambda: W.get(kind, call("copy")()), a, "mito::geometry::Coordinates")
        comps("default construction", lambda: W.get(kind, ip.call_fn(W.fn("mk_default", kind), None, [])), [ZERO] * n, "mito::geometry::Coordinates::Coordinates")
        comps("construction from a vector", lambda: W.get(kind, ip.call_fn(W.fn("mk_vector", kind), None, [vecsym(n, "v")])), vv, "mito::geometry::Coordinates::Coordinates")
        for nm in sorted(W.by):
            if nm.startswith(("mk_cartesian", "mk_polar", "mk_spherical", "mk_pack")) and W.kind(W.by[nm][0]) == kind:
                comps(nm[3:] + " factory", lambda: W.get(kind, ip.call_fn(W.by[nm][0], None, [I.Cell(x, "double") for x in a])), a)
            if nm.startswith("cf_") and W.kind(W.by[nm][0]) == kind:
                idx = {"cf_x0_1": 0, "cf_x0_2": 0, "cf_x1_2": 1, "cf_x0_3": 0, "cf_x1_3": 1, "cf_x2_3": 2, "cf_pr": 0, "cf_ptheta": 1, "cf_sr": 0,
                       "cf_stheta": 1, "cf_sphi": 2}[nm]

                def cf():
                    got = v_of(lambda: [ip.n(T.L(ip.call_fn(W.by[nm][0], None, [W.coords(kind, "a")])))])
                    compare(R, "components", f"coordinate function {nm[3:]}", CF[kind], ring, got, [a[idx]], "value")
                R.guard("components", f"coordinate function {nm[3:]}", "", cf)
    for nm, src, dst in (("tr_pol_cart", (2, 0), (2, 1)), ("tr_cart_pol", (2, 1), (2, 0)), ("tr_sph_cart", (3, 0), (3, 2)), ("tr_cart_sph", (3, 2), (3, 0))):
        def tr():
            ring = Trig()
            n = src[0]

            def go():
                ip.analysed = set()
                return W.get(dst, ip.call_fn(W.fn(nm), None, [W.coords(src, "a")]))
            r = W.one(go)
            R.used(ip)
            w = W.where("mito::geometry::transform_coordinates")
            inst = f"{LABEL[src]} to {LABEL[dst]}"
            if dst[1]:
                t = list(r[0].t.items())
                x = atom_of(t[0][0][0][0]) if len(t) == 1 and len(t[0][0]) == 1 and t[0][1] > 0 else None
                if not (isinstance(x, tuple) and x[0] in ("sqrt", "abs")):
                    R.und("transformation", inst, w, f"sign of the radius {r[0]!r}"[:200])
                    return
            compare(R, "transformation", inst, w, ring, position(dst[1], r), position(src[1], names(n, "a")), "position")
        R.guard("transformation", nm, "", tr)


CF = {(1, 0): "lib/mito/geometry/cartesian/api.h", (2, 0): "lib/mito/geometry/cartesian/api.h", (3, 0): "lib/mito/geometry/cartesian/api.h",
      (2, 1): "lib/mito/geometry/polar/api.h", (3, 2): "lib/mito/geometry/spherical/api.h"}


def g02(R):
    R.minimum = 40
    R.rule("basis", "e<I> is the tangent of the I-th coordinate line: the derivative of the Cartesian position along x_I, in the orthonormal frame")
    R.rule("metric", "g_IJ is the inner product of the tangents I and J; the inverse metric is its inverse")
    R.rule("one-forms", "dx<I> picks the I-th coefficient of a vector in the basis e: the coefficients reproduce the vector")
    R.rule("volume form", "w of D vectors is the signed volume they span")
    R.rule("metric equivalence", "the form equivalent to v contracts a vector u to the inner product of v and u; the vector equivalent to a form is the one whose inner products the form gives")
    W = World(load(), R)
    ip = W.ip
    for kind in [(1, 0), (2, 0), (3, 0), (2, 1), (3, 2)]:
        n, k = kind
        lab = LABEL[kind]
        x = names(n, "a")
        ring = Trig(positive(k, x))
        ids = [atom_id(f"a{i}") for i in range(n)]
        pos, F, h = position(k, x), frame(k, x), scales(k, x)
        tangent = [[ring.d(p, i) for p in pos] for i in ids]
        u, v, z = (vcomps(vecsym(n, s)) for s in "uvz")
        ip.leafdim["n"] = n
        lv = [op_atom("v", (i,), (), x) for i in range(n)]

        def ev(name, sub=None, fn=None):
            def go():
                ip.analysed = set()
                X = W.coords(kind, "a")
                f = fn or W.fn(name, kind, sub)
                return ip.call_fn(f, None, [X] + [vecsym(n, s) for s in "uvz"][:len(f["params"]) - 1])
            r = W.one(go)
            R.used(ip)
            return r

        def mat(r):
            return [T.comp(r, (i, j)) for i in range(n) for j in range(n)]
        gIJ = [dot(tangent[i], tangent[j]) for i in range(n) for j in range(n)]

        def metric(r, inst):
            compare(R, "metric", inst, W.where("mito::geometry::metric"), ring, mat(r), gIJ, "entry")

        def basis(r, i, inst):
            compare(R, "basis", inst, W.where("mito::geometry::basis"), ring, vcomps(r), [dot(tangent[i], F[j]) for j in range(n)], "component")
        R.guard("metric", lab, "", lambda: metric(ev("ms_g", 0), f"metric, {lab}"))

        def inverse():
            gi = mat(ev("ms_ginv", 0))
            got = [T.total(gIJ[i * n + k] * gi[k * n + j] for k in range(n)) for i in range(n) for j in range(n)]
            compare(R, "metric", f"inverse metric, {lab}", W.where("mito::functions::inverse"), ring, got, [ONE if i == j else ZERO for i in range(n) for j in range(n)], "product entry")
        R.guard("metric", "inverse " + lab, "", inverse)
        dx = []
        for i in range(n):
            R.guard("basis", f"{i} {lab}", "", lambda: basis(ev("ms_e", i), i, f"e<{i}>, {lab}"))

            def form():
                dx.append(ip.n(T.L(ev("ms_dx", i))))
                got = [dx[i] * dot(tangent[i], tangent[i])]
                compare(R, "one-forms", f"dx<{i}>, {lab}", W.where("mito::geometry::metric_space"), ring, got, [dot(u, [dot(tangent[i], F[j]) for j in range(n)])], "coefficient")
            R.guard("one-forms", f"{i} {lab}", "", form)

            def sharp():
                r = vcomps(ev("ms_sharp", i))
                # inner product with any vector u is dx<i>(u)
                got = [dot(r, u) * dot(tangent[i], tangent[i])]
                compare(R, "metric equivalence", f"vector of dx<{i}>, {lab}", W.where("mito::geometry::metric_space::metric_equivalent"), ring, got,
                        [dot(u, [dot(tangent[i], F[j]) for j in range(n)])], "inner product")
            R.guard("metric equivalence", f"{i} {lab}", "", sharp)
        for nm, i in API.get(kind, {}).items():
            R.guard("basis", nm, "", lambda: basis(ev(None, fn=W.by[nm][0]), i, f"{nm[4:]}, {lab}"))
        am = {(1, 0): "1", (2, 0): "2", (3, 0): "3", (2, 1): "p", (3, 2): "s"}[kind]
        R.guard("metric", am, "", lambda: metric(ev(None, fn=W.by["api_metric" + am][0]), f"metric of the interface, {lab}"))

        def vol():
            r = ip.n(T.L(ev("ms_w", 0)))
            d = T.det([[a[i] for a in (u, v, z)[:n]] for i in range(n)], n)
            compare(R, "volume form", lab, W.where("mito::geometry::metric_space"), ring, [r], [d], "value")
        R.guard("volume form", lab, "", vol)

        def flatf():
            r = ip.n(T.L(ev("ms_flat", 0)))
            compare(R, "metric equivalence", f"form of a vector, {lab}", W.where("mito::geometry::metric_space::metric_equivalent"), ring, [r], [dot(lv, u)], "contraction")
        R.guard("metric equivalence", "flat " + lab, "", flatf)

        def round_():
            r = vcomps(ev("ms_round", 0))
            compare(R, "metric equivalence", f"vector of the form of a vector, {lab}", W.where("mito::geometry::metric_space::metric_equivalent"), ring, r, lv, "component")
        R.guard("metric equivalence", "round " + lab, "", round_)


API = {(1, 0): {"api_e0_1": 0}, (2, 0): {"api_e0_2": 0, "api_e1_2": 1}, (3, 0): {"api_e0_3": 0, "api_e1_3": 1, "api_e2_3": 2},
       (2, 1): {"api_er_p": 0, "api_et_p": 1}, (3, 2): {"api_er_s": 0, "api_et_s": 1, "api_ep_s": 2}}


def g03(R):
    R.minimum = 35
    R.rule("gradient", "gradient of a scalar field has component i = its derivative along x_i; of a vector field, component ij = derivative of component i along x_j")
    R.rule("divergence", "divergence of a vector field is the sum of the derivatives of component i along x_i; of a tensor field, component i sums the derivatives of ij along x_j")
    R.rule("form fields", "tensor and wedge products, sums and multiples of one-form fields are the products, sums and multiples of the forms at each point")
    W = World(load("fields.cc"), R)
    ip = W.ip
    dirs = {"gradient": "gradient", "divergence": "divergence"}

    def field(name, comps, x):
        return opq(name, comps, x).c

    def ev(fn, kind, args=()):
        n = kind[0]
        ip.leafdim["n"] = n

        def go():
            ip.analysed = set()
            X = xcoords(kind)
            return ip.call_fn(fn, None, [X] + [vecsym(n, s) for s in args])
        r = W.one(go)
        R.used(ip)
        return r

    def xcoords(kind):
        # built by the constructor the driver uses
        return W.coords(kind, "a")
    seen = 0
    for nm in sorted(W.by):
        if not nm.startswith("df_"):
            continue
        for fn in W.by[nm]:
            kind = W.kind(fn)
            n = kind[0]
            x = names(n, "a")
            ids = [atom_id(f"a{i}") for i in range(n)]
            ring = T.Ring()
            rng = range(n)
            f, g = field("f", [()], x)[()], field("g", [()], x)[()]
            v = [field("v", [(i,) for i in rng], x)[(i,)] for i in rng]
            A = field("A", [(i, j) for i in rng for j in rng], x)
            d = lambda p, i: ring.d(p, ids[i])
            u3 = [op_atom("u3", (i,), (), x) for i in range(3)]
            u2 = [op_atom("u2", (i,), (), x) for i in range(2)]
            grad = lambda v: {(i, j): d(p, j) for i, p in enumerate(v) for j in rng}
            div = lambda v: {(): T.total(d(v[i], i) for i in rng)}
            divT = lambda A: {(i,): T.total(d(A[i, j], j) for j in rng) for i in rng}
            want = {
                "gradf": lambda: {(i,): d(f, i) for i in rng}, "gradfg": lambda: {(i,): d(f * g, i) for i in rng},
                "gradv": lambda: grad(v), "gradfv": lambda: grad([f * y for y in v]), "gradu3": lambda: grad(u3), "gradu2": lambda: grad(u2),
                "divv": lambda: div(v), "divfv": lambda: div([f * y for y in v]), "divA": lambda: divT(A), "divfA": lambda: divT({k: f * y for k, y in A.items()}),
                "lap": lambda: {(): T.total(d(d(f, i), i) for i in rng)}, "hess": lambda: {(i, j): d(d(f, i), j) for i in rng for j in rng},
                "divgrad": lambda: divT(grad(v)),
            }[nm[3:]]()
            rule = "gradient" if nm.startswith(("df_grad", "df_hess")) else "divergence"
            inst = f"{nm[3:]} in {n}D"
            seen += 1

            def go():
                got = flat(ip, ev(fn, kind))
                w = W.where("mito::fields::" + rule)
                if sorted(got) != sorted(want):
                    R.bad(rule, inst, w, f"has components {sorted(got)}, should have {sorted(want)}")
                    return
                ks = sorted(want)
                compare(R, rule, inst, w, ring, [got[k] for k in ks], [want[k] for k in ks], "component")
            R.guard(rule, inst, "", go)
    for nm in sorted(W.by):
        if not nm.startswith("ff_"):
            continue
        for fn in W.by[nm]:
            kind = W.kind(fn)
            n = kind[0]
            x = names(n, "a")
            ring = T.Ring()
            rng = range(n)
            p, q, r = (vcomps(vecsym(n, s)) for s in "pqr")
            f = op_atom("f", (), (), x)
            v, w_ = ([op_atom(s, (i,), (), x) for i in rng] for s in "vw")
            Av = [T.total(op_atom("A", (i, j), (), x) * v[j] for j in rng) for i in rng]
            a, b, c = (lambda u: dot(v, u)), (lambda u: dot(w_, u)), (lambda u: dot(Av, u))
            forms = [a, b, c]
            vs = [p, q, r]
            want = {"a": lambda: a(p), "ten2": lambda: a(p) * b(q), "ten3": lambda: a(p) * b(q) * c(r), "wed2": lambda: a(p) * b(q) - a(q) * b(p),
                    "wed3": lambda: T.det([[F(u) for u in vs] for F in forms], 3), "scaled": lambda: f * (a(p) * b(q) - a(q) * b(p)), "sum": lambda: f * a(p) + b(p)}[nm[3:]]
            inst = f"{nm[3:]} over {LABEL[kind]} coordinates"

            def go():
                got = ip.n(T.L(ev(fn, kind, "pqr")))
                compare(R, "form fields", inst, W.where("mito::fields::"), ring, [got], [want()], "value")
            R.guard("form fields", inst, "", go)
    if seen < 20:
        raise D.AnalysisBroken("field expressions not instantiated")


def handles(W, t, k):
    """a handle of type t on the k-th of a family of distinct resources"""
    db = W.db
    r = db.rec_by_t.get(t)
    fs = [f for f in r["fields"] if db.t(f["t"]).endswith("*")] if r else []
    if len(fs) != 1:
        raise D.AnalysisBroken(f"no single handle in {t}")
    res = I.Obj(D.strip_cvref(db.t(fs[0]["t"])[:-1]).strip(), {}, lazy=True, name=f"point{k}")
    return I.Obj(t, {fs[0]["n"]: I.Cell(I.Ptr(res), db.t(fs[0]["t"]))}, name=f"p{k}")


def g04(R):
    R.minimum = 30
    R.rule("lookup", "a coordinate system returns the coordinates each point was placed at, visits each point once, and refuses a point it does not know or that is placed already")
    R.rule("change of coordinates", "a coordinate system made from another one has the same points at the same Cartesian positions")
    R.rule("distances", "the distance of two points is the distance of their positions, the midpoint is half way between them")
    W = World(load(), R)
    ip = W.ip
    for kind in [(1, 0), (2, 0), (3, 0), (2, 1), (3, 2)]:
        n, k = kind
        lab = LABEL[kind]
        a, b = names(n, "a"), names(n, "b")
        ring = Trig()
        pa, pb = position(k, a), position(k, b)

        def run(f):
            def go(ip):
                ip.analysed = set()
                t = D.strip_cvref(W.db.t(f["params"][0]["t"]))
                r = ip.call_fn(f, None, [handles(W, t, 0), handles(W, t, 1), W.coords(kind, "a"), W.coords(kind, "b")])
                return r
            rs = list(ip.paths(go))
            R.used(ip)
            return rs

        def pair(rs, kind):
            if len(rs) != 1 or rs[0][0] != "ok":
                raise I.Undecided(f"{rs!r}"[:200])
            r = T.L(rs[0][1])
            return W.get(kind, r.f["first"]), W.get(kind, r.f["second"])

        def lookup():
            x, y = pair(run(W.fn("cs_lookup", kind)), kind)
            compare(R, "lookup", f"coordinates, {lab}", W.where("mito::geometry::CoordinateSystem"), ring, x + y, a + b, "component")
        R.guard("lookup", lab, "", lookup)
        for nm, what in (("cs_missing", "coordinates of a point that was not placed"), ("cs_twice", "placing a point twice")):
            def refuse():
                rs = run(W.fn(nm, kind))
                w = W.where("mito::geometry::CoordinateSystem")
                ok = [r for kd, r in rs if kd == "ok"]
                if any(kd not in ("ok", "throw", "abort", "assert") for kd, r in rs):
                    raise I.Undecided(f"{rs!r}"[:200])
                R.check(not ok, "lookup", f"{what}, {lab}", w, "is accepted")
            R.guard("lookup", f"{what}, {lab}", "", refuse)

        def kept():
            made, again, get = (W.fn(x, kind) for x in ("cs_made", "cs_again", "cs_kept"))
            w = W.where("mito::geometry::CoordinateSystem")

            def go(ip):
                ip.analysed = set()
                t = D.strip_cvref(W.db.t(made["params"][0]["t"]))
                p, q, x, y = handles(W, t, 0), handles(W, t, 1), W.coords(kind, "a"), W.coords(kind, "b")
                s = ip.call_fn(made, None, [p, q, x, y])
                n = len(ip.frames)
                try:
                    ip.call_fn(again, None, [s, p, y])
                except I.PathEnd as e:
                    if e.kind != "throw":
                        raise
                    # the program goes on with the system
                    del ip.frames[n:]
                return ip.call_fn(get, None, [s, p, x])
            for kd, r in ip.paths(go):
                if kd in ("abort", "assert"):
                    continue
                if kd != "ok":
                    raise I.Undecided(f"{kd} {r!r}"[:200])
                compare(R, "lookup", f"a point that was refused elsewhere, {lab}", w, ring, W.get(kind, r), a, "component")
            R.used(ip)
        R.guard("lookup", f"refused, {lab}", "", kept)

        def walk():
            rs = run(W.fn("cs_walk", kind))
            w = W.where("mito::geometry::CoordinateSystem")
            if any(kd != "ok" for kd, r in rs):
                raise I.Undecided(f"{rs!r}"[:200])
            # points with equal coordinates are still two points
            R.check(all(ring.same(ip.n(T.L(r)), Poly.const(2)) for kd, r in rs), "lookup", f"iteration, {lab}", w, f"does not visit each point once with its coordinates: {rs!r}"[:200])
        R.guard("lookup", "walk " + lab, "", walk)

        def mid():
            rs = run(W.fn("cs_midpoint", kind))
            if len(rs) != 1 or rs[0][0] != "ok":
                raise I.Undecided(f"{rs!r}"[:200])
            r = W.get(kind, rs[0][1])
            compare(R, "distances", f"midpoint, {lab}", W.where("mito::geometry::CoordinateSystem::midpoint"), ring, position(k, r), [(x + y).scale(Fraction(1, 2)) for x, y in zip(pa, pb)], "position")
        R.guard("distances", "midpoint " + lab, "", mid)

        def dist():
            rs = run(W.fn("cs_distance", kind))
            if len(rs) != 1 or rs[0][0] != "ok":
                raise I.Undecided(f"{rs!r}"[:200])
            r = ip.n(T.L(rs[0][1]))
            d = [y - x for x, y in zip(pa, pb)]
            t = list(r.t.items())
            x = atom_of(t[0][0][0][0]) if len(t) == 1 and len(t[0][0]) == 1 and t[0][0][0][1] == 1 and t[0][1] > 0 else None
            if not (isinstance(x, tuple) and x[0] in ("sqrt", "abs")):
                raise I.Undecided(f"distance {r!r}"[:200])
            compare(R, "distances", f"distance, {lab}", W.where("mito::geometry::distance"), ring, [r * r], [dot(d, d)], "square of the distance")
        R.guard("distances", "distance " + lab, "", dist)
        for f in W.by.get("cs_convert", []):
            if kind_of(W.db, W.db.t(f["params"][2]["t"])) != kind:
                continue
            dst = kind_of(W.db, D.split_targs(f["ta"])[0])

            def conv():
                x, y = pair(run(f), dst)
                compare(R, "change of coordinates", f"{lab} to {LABEL[dst]}", W.where("mito::geometry::CoordinateSystem::CoordinateSystem"), Trig(),
                        position(dst[1], x) + position(dst[1], y), pa + pb, "position")
            R.guard("change of coordinates", lab, "", conv)
