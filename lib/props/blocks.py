"""Elementary blocks, weak forms, norms and the assembly of discrete systems: interpreted on symbolic elements."""
from fractions import Fraction
import db as D
import interp as I
import tensors as T
from poly import Poly, ZERO, ONE, atom_of, atom_id
from props import geometry as G
from props import elements as E
from props.geometry import World, compare, names, vcomps, dot


class Elements(E.Cells):
    """elements on symbolic cells, built by their own constructors"""

    def cell_type(self, el):
        f = self.maker(el)
        return D.strip_cvref(self.W.db.t(f["params"][0]["t"])), D.strip_cvref(self.W.db.t(f["params"][1]["t"])), D.strip_cvref(self.W.db.t(f["params"][2]["t"]))

    def maker(self, el):
        for f in self.W.by["el_make"]:
            if E.short(self.W, f) == el:
                return f
        raise D.AnalysisBroken(f"no constructor of {el}")

    def parts(self, el, k=0):
        n, deg, ref = E.EL[el]
        tc, ts, tn = self.cell_type(el)
        X = [names(n, f"c{k}n{i}x") for i in range(n + 1)]
        cell = self.cell(tc, (n, 0), X)
        return [cell, I.Obj(ts, {}), I.Arr([I.Obj("dnode", {"k": (k, a)}) for a in range(len(ref))], None, "std::array")]

    def make(self, el, k=0):
        return self.W.ip.call_fn(self.maker(el), None, self.parts(el, k))


class Theory:
    """what the blocks have to compute: from the interpolation property alone"""

    def __init__(self, el, k=0):
        n, deg, ref = E.EL[el]
        self.n, self.deg, self.nn = n, deg, len(ref)
        self.xi = names(n, "xi")
        self.ids = [atom_id(f"xi{i}") for i in range(n)]
        self.X = [names(n, f"c{k}n{i}x") for i in range(n + 1)]
        xi = self.xi
        if n == 1:
            # local node 0 at xi = 0
            lam = [ONE - xi[0], xi[0]]
        else:
            lam = [xi[0], xi[1], ONE - xi[0] - xi[1]]
        self.lam = lam
        if deg == 1:
            self.phi = lam
        else:
            self.phi = [l * (l.scale(2) - ONE) for l in lam] + [(lam[a] * lam[b]).scale(4) for a, b in ((0, 1), (1, 2), (2, 0))]
        self.pos = [T.total(l * x[i] for l, x in zip(lam, self.X)) for i in range(n)]
        ring = T.Ring()
        self.J = [[ring.d(p, j) for j in self.ids] for p in self.pos]
        self.det = T.det(self.J, n)
        self.dphi = [[ring.d(p, j) for j in self.ids] for p in self.phi]
        # inverse jacobian, without its determinant
        self.adj = [[ONE]] if n == 1 else [[self.J[1][1], -self.J[0][1]], [-self.J[1][0], self.J[0][0]]]

    def at(self, p, q):
        return p.subst({i: Poly.const(x) for i, x in zip(self.ids, q)})

    def grad_adj(self, d):
        """gradient in physical space times the determinant of the jacobian"""
        return [T.total(d[i] * self.adj[i][j] for i in range(self.n)) for j in range(self.n)]


def driver(R):
    db = D.extract("blocks.cc", G.ROOTS)
    db.check_diags(E.CLANG_ONLY)
    W = World(db, R)
    return W, Elements(W)


def e03(R):
    R.minimum = 25
    R.rule("elementary matrix", "the mass block is the quadrature of the products of shape functions over the cell; the gradient block that of the inner products of their gradients in physical space")
    R.rule("elementary vector", "the source block is the quadrature of the source at the image of the quadrature point times the shape functions")
    R.rule("weak form", "the weak form sums the contributions of all its blocks")
    R.rule("norms", "the L2 norm is the root of the quadrature of the squared difference of two fields over all elements; the H1 norm adds the squared difference of their gradients in physical space")
    W, C = driver(R)
    ip = W.ip
    rules = {}

    def rule(r, n):
        if (r, n) not in rules:
            rules[r, n] = E.rule_values(W, r, n)
        return rules[r, n]

    def run(f, el, post=lambda x: x):
        def go():
            ip.analysed = set()
            ip.leafdim["n"] = E.EL[el][0]
            return post(ip.call_fn(f, None, C.parts(el)))
        r = W.one(go)
        R.used(ip)
        return r

    def quad(th, r, g):
        """sum over quadrature points of weight * measure of the reference cell * g"""
        ps, ws = rule(r, th.n)
        return [T.total(th.at(gi, q).scale(w / E.fact(th.n)) for q, w in zip(ps, ws)) for gi in g]

    def times_det(th, comps):
        # entries carry one over the determinant: compare after multiplying with it
        return [c * th.det for c in comps]

    def mat(r, n):
        return [T.comp(T.L(r), (i, j)) for i in range(n) for j in range(n)]

    def mass(th, r):
        return quad(th, r, [th.phi[a] * th.phi[b] * th.det for a in range(th.nn) for b in range(th.nn)])

    def stiff(th, r):
        """times the determinant"""
        g = [th.grad_adj(d) for d in th.dphi]
        return quad(th, r, [dot(g[a], g[b]) for a in range(th.nn) for b in range(th.nn)])

    def source(th, r, name):
        ps, ws = rule(r, th.n)
        out = [ZERO] * th.nn
        for q, w in zip(ps, ws):
            x = [th.at(p, q) for p in th.pos]
            for a in range(th.nn):
                out[a] = out[a] + G.op_atom(name, (), (), x) * th.at(th.phi[a] * th.det, q).scale(w / E.fact(th.n))
        return out
    ring = T.Ring()
    todo = []
    for nm in sorted(W.by):
        if not nm.startswith("bk_"):
            continue
        for f in W.by[nm]:
            todo.append((nm[3:], E.short(W, f), int(D.split_targs(f["ta"])[-1]), f))
    if len(todo) < 20:
        raise D.AnalysisBroken("blocks not instantiated")

    def block(nm, el, r, f):
        th = Theory(el)
        inst = f"{el}, degree {r}"
        if nm == "mass":
            def fn():
                compare(R, "elementary matrix", f"mass, {inst}", W.where("mito::fem::blocks::MassBlock::compute"), ring, mat(run(f, el), th.nn), mass(th, r), "entry")
        elif nm == "grad":
            def fn():
                got = times_det(th, mat(run(f, el), th.nn))
                compare(R, "elementary matrix", f"gradient, {inst}", W.where("mito::fem::blocks::GradGradBlock::compute"), ring, got, stiff(th, r), "entry")
        elif nm == "source":
            def fn():
                compare(R, "elementary vector", f"source, {inst}", W.where("mito::fem::blocks::SourceTermBlock::compute"), ring, vcomps(run(f, el)), source(th, r, "f"), "entry")
        elif nm == "norm":
            def fn():
                got = ip.n(T.L(run(f, el)))
                ps, ws = rule(r, th.n)
                want = ZERO
                for q, w in zip(ps, ws):
                    v = G.op_atom("f", (), (), [Poly.const(x) for x in q])
                    want = want + v * v * th.at(th.det, q).scale(w / E.fact(th.n))
                compare(R, "norms", f"block of the L2 norm, {inst}", W.where("mito::fem::blocks::L2NormBlock::compute"), ring, [got], [want], "value")
        else:
            def fn():
                res = T.L(run(f, el))
                w = W.where("mito::fem::Weakform::compute_blocks")
                m, v = T.L(res.f["first"]), T.L(res.f["second"])
                got = times_det(th, mat(m, th.nn)) + vcomps(v)
                want = [a.scale(3) * th.det + b for a, b in zip(mass(th, r), stiff(th, r))] + [a.scale(2) + b for a, b in zip(source(th, r, "f"), source(th, r, "g"))]
                compare(R, "weak form", inst, w, ring, got, want, "entry")
        return {"mass": "elementary matrix", "grad": "elementary matrix", "source": "elementary vector", "norm": "norms", "weak": "weak form"}[nm], inst, fn
    for t in todo:
        rl, inst, fn = block(*t)
        R.guard(rl, inst, "", fn)

    def elements(ip, c):
        o = T.L(c.o)
        return o.f["elements"] if isinstance(o, I.Obj) and "elements" in o.f else NotImplemented
    ip.over["mito::fem::FunctionSpace::elements"] = elements
    for nm in ("nm_l2", "nm_h1"):
        for f in W.by[nm]:
            el, r = E.short(W, f), int(D.split_targs(f["ta"])[-1])

            def norm():
                def go():
                    ip.analysed = set()
                    ip.leafdim["n"] = E.EL[el][0]
                    t = D.strip_cvref(W.db.t(f["params"][0]["t"]))
                    return ip.call_fn(f, None, [I.Obj(t, {"elements": I.Arr([C.make(el, k) for k in range(2)], None, "std::vector")})])
                got = ip.n(T.L(W.one(go)))
                R.used(ip)
                t = list(got.t.items())
                x = atom_of(t[0][0][0][0]) if len(t) == 1 and len(t[0][0]) == 1 and t[0][0][0][1] == 1 and t[0][1] > 0 else None
                if not (isinstance(x, tuple) and x[0] == "sqrt"):
                    raise I.Undecided(f"norm {got!r}"[:200])
                sq = got * got
                want = ZERO
                for k in range(2):
                    th = Theory(el, k)
                    ps, ws = rule(r, th.n)
                    for q, w in zip(ps, ws):
                        x = [th.at(p, q) for p in th.pos]
                        d = lambda der: G.op_atom("f", (), der, x) - G.op_atom("g", (), der, x)
                        v = d(()) * d(())
                        if nm == "nm_h1":
                            v = v + T.total(d((i,)) * d((i,)) for i in range(th.n))
                        want = want + v * th.at(th.det, q).scale(w / E.fact(th.n))
                compare(R, "norms", f"{nm[3:].upper()} norm, {el}, degree {r}", W.where("mito::fem::compute_" + nm[3:]), ring, [sq], [want], "square")
            R.guard("norms", nm, "", norm)
