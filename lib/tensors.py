"""Model of the (external) pyre tensor classes: dense, symmetric and diagonal tensors over exact polynomials, and the
rational-function normal forms used to compare what the library computes with what it should compute.

A tensor is an `Arr` of component cells in storage order whose class name is its full type."""
import itertools
from fractions import Fraction
import interp as I
from poly import Poly, ZERO, ONE, atom_of, atom_id
from db import tmpl, strip_cvref

PRE = "pyre::tensor::Tensor<"


class TT:
    """shape and packing of a tensor type"""
    cache = {}

    def __init__(self, t):
        b, ta = tmpl(t)
        self.t = t
        self.scalar = ta[0]
        self.pack = tmpl(ta[1])[0].rsplit("::", 1)[1]
        self.dims = tuple(int(x) for x in ta[2:])
        self.idx = list(itertools.product(*[range(d) for d in self.dims]))
        self.slot = {}
        if self.pack == "Symmetric":
            n = 0
            for i in self.idx:
                k = tuple(sorted(i))
                if k not in self.slot:
                    self.slot[k] = n
                    n += 1
                self.slot[i] = self.slot[k]
            self.size = n
        elif self.pack == "Diagonal":
            for i in self.idx:
                self.slot[i] = i[0] if len(set(i)) == 1 else None
            self.size = self.dims[0]
        else:
            for n, i in enumerate(self.idx):
                self.slot[i] = n
            self.size = len(self.idx)


def tt(t):
    t = strip_cvref(t)
    r = TT.cache.get(t)
    if r is None:
        r = TT.cache[t] = TT(t)
    return r


def ttype(dims, pack="Canonical", scalar="double"):
    return f"pyre::tensor::Tensor<{scalar}, pyre::grid::{pack}<{len(dims)}>, " + ", ".join(map(str, dims)) + ">"


def is_t(v):
    v = L(v)
    return isinstance(v, I.Arr) and isinstance(v.cls, str) and v.cls.startswith(PRE)


def L(v):
    return v.v if isinstance(v, I.Cell) else v


def new(t, fn=None, name=None):
    """a tensor of type t with components fn(index) (fn yields polynomials)"""
    T = tt(t)
    cells = [None] * T.size
    for i in T.idx:
        s = T.slot[i]
        if s is not None and cells[s] is None:
            cells[s] = I.Cell(fn(i) if fn else ZERO, T.scalar)
    return I.Arr(cells, T.scalar, strip_cvref(t), name)


def sym(t, name):
    """a symbolic tensor"""
    return new(t, lambda i: Poly.atom(name + "".join(map(str, i))), name)


def vec(name, d):
    return sym(ttype((d,)), name)


def comp(v, i):
    v = L(v)
    s = tt(v.cls).slot[tuple(i)]
    return ZERO if s is None else I_n(v.e[s])


def I_n(c):
    x = c.v if isinstance(c, I.Cell) else c
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, bool):
        return Poly.const(int(x))
    raise I.Undecided(f"tensor component {x!r}")


def dims(v):
    return tt(L(v).cls).dims


def comps(v):
    v = L(v)
    return {i: comp(v, i) for i in tt(v.cls).idx}


# ---------------------------------------------------------------------------- determinants, inverses
def det(m, n):
    if n == 1:
        return m[0][0]
    r = ZERO
    for j in range(n):
        if not m[0][j].t:
            continue
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        x = m[0][j] * det(minor, n - 1)
        r = r + x if j % 2 == 0 else r - x
    return r


def mat(v):
    d = dims(v)
    return [[comp(v, (i, j)) for j in range(d[1])] for i in range(d[0])]


def adj(m):
    n = len(m)
    if n == 1:
        return [[ONE]]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [row[:j] + row[j + 1:] for k, row in enumerate(m) if k != i]
            x = det(minor, n - 1)
            out[j][i] = x if (i + j) % 2 == 0 else -x
    return out


# ---------------------------------------------------------------------------- rational normal forms
def inv_atoms(p):
    return [a for a in p.atoms() if isinstance(atom_of(a), tuple) and atom_of(a)[0] == "inv"]


def clear(p):
    """a polynomial without reciprocals that vanishes exactly when p does (denominators are assumed nonzero), and the denominator"""
    den = ONE
    for _ in range(40):
        ia = inv_atoms(p)
        if not ia:
            return p, den
        a = max(ia)
        N = atom_of(a)[1]
        k = max((e for m in p.t for x, e in m if x == a), default=0)
        by = {}
        for m, c in p.t.items():
            e = next((e for x, e in m if x == a), 0)
            by.setdefault(e, {})[tuple(y for y in m if y[0] != a)] = c
        r = ZERO
        pw = [ONE]
        for i in range(k):
            pw.append(pw[-1] * N)
        for e, t in by.items():
            r = r + Poly(dict(t)) * pw[k - e]
        p = r
        den = den * pw[k]
    raise I.Undecided("nested reciprocals")


class Ring:
    """the domain in which results are compared: polynomials modulo `lead -> rest` (one rewriting rule), reciprocals, derivations"""

    def __init__(self):
        self.rules = []      # (monomial dict atom->exp, Poly)
        self.dat = {}        # atom id -> {variable id: derivative}
        self.sq = {}

    def rule(self, mono, rhs):
        self.rules.append((mono, rhs))

    def norm(self, p):
        if not self.rules:
            return p
        for _ in range(200):
            hit = False
            for mono, rhs in self.rules:
                keep, ch = {}, ZERO
                for m, c in p.t.items():
                    d = dict(m)
                    if all(d.get(a, 0) >= e for a, e in mono.items()):
                        for a, e in mono.items():
                            d[a] -= e
                        ch = ch + Poly({tuple(sorted((a, e) for a, e in d.items() if e)): c}) * rhs
                        hit = True
                    else:
                        keep[m] = c
                if hit:
                    p = Poly(keep) + ch
            if not hit:
                return p
        raise I.Undecided("normal form does not settle")

    def square_roots(self, p):
        """sqrt(x)^2 -> x, cbrt(x)^3 -> x, sin(x)^2 -> 1 - cos(x)^2, tan(x) -> sin(x) / cos(x)"""
        P = {"sqrt": 2, "cbrt": 3, "sin": 2, "tan": 1, "abs": 2}
        for _ in range(40):
            s = [a for a in p.atoms() if isinstance(atom_of(a), tuple) and atom_of(a)[0] in P
                 and any(e >= P[atom_of(a)[0]] for m in p.t for x, e in m if x == a)]
            if not s:
                return p
            a = s[0]
            f, y = atom_of(a)[:2]
            n = P[f]
            if f == "sin":
                c = Poly.atom(("cos", y))
                by = ONE - c * c
            elif f == "tan":
                by = Poly.atom(("sin", y)) * recip(Poly.atom(("cos", y)))
            elif f == "abs":
                by = y * y
            else:
                by = y
            r = ZERO
            for m, c in p.t.items():
                e = next((e for x, e in m if x == a), 0)
                rest = [z for z in m if z[0] != a] + ([(a, e % n)] if e % n else [])
                q = Poly({tuple(sorted(rest)): c})
                for _ in range(e // n):
                    q = q * by
                r = r + q
            p = r
        raise I.Undecided("powers do not settle")

    def abbreviate(self, p):
        """replace reciprocals 1/N of sums by 1/K of new atoms K = N, eliminating an atom that occurs linearly in N"""
        used = set()
        for _ in range(8):
            ia = [a for a in inv_atoms(p) if len(atom_of(a)[1].t) > 1]
            if not ia:
                return p
            for a in sorted(ia):
                N = atom_of(a)[1]
                x = next((m[0][0] for m, c in sorted(N.t.items()) if len(m) == 1 and m[0][1] == 1 and m[0][0] not in used
                          and sum(1 for mm in N.t for y, e in mm if y == m[0][0]) == 1 and not isinstance(atom_of(m[0][0]), tuple)), None)
                if x is not None:
                    break
            else:
                return p
            used.add(x)
            c = N.t[((x, 1),)]
            K = Poly.atom(("abbr", N))
            used.add(atom_id(("abbr", N)))
            s = {x: (K - (N - Poly({((x, 1),): c}))).scale(Fraction(1) / c), a: Poly.atom(("inv", K))}
            # the eliminated atom also occurs in the other reciprocals
            for b in inv_atoms(p):
                if b != a and x in atom_of(b)[1].atoms():
                    s[b] = recip(self.norm(atom_of(b)[1].subst(s)))
            p = self.norm(simp(p.subst(s)))
        return p

    def zero(self, p):
        """does p vanish identically?"""
        p = self.abbreviate(p)
        for _ in range(12):
            q = self.norm(self.square_roots(p))
            if not q.t:
                return True
            n, _d = clear(q)
            n = self.norm(self.square_roots(n))
            if not n.t:
                return True
            if n == p:
                return False
            p = n
        return False

    def same(self, a, b):
        return self.zero(a - b)

    def d(self, p, v):
        """derivative of p along the variable (atom id) v"""
        r = ZERO
        for m, c in p.t.items():
            for k, (a, e) in enumerate(m):
                da = self.datom(a, v)
                if not da.t:
                    continue
                rest = list(m[:k]) + ([(a, e - 1)] if e > 1 else []) + list(m[k + 1:])
                r = r + Poly({tuple(rest): c * e}) * da
        return r

    def datom(self, a, v):
        if a == v:
            return ONE
        k = (a, v)
        if k in self.sq:
            return self.sq[k]
        x = atom_of(a)
        r = ZERO
        if a in self.dat:
            r = self.dat[a].get(v, ZERO)
        elif isinstance(x, tuple) and len(x) > 1 and all(isinstance(y, Poly) for y in x[1:]):
            ds = [self.d(y, v) for y in x[1:]]
            if any(y.t for y in ds):
                u = Poly.atom(x)
                y = x[1]
                if x[0] == "inv":
                    r = -(u * u) * ds[0]
                elif x[0] == "log":
                    r = ds[0] * recip(y)
                elif x[0] == "exp":
                    r = ds[0] * u
                elif x[0] == "sin":
                    r = ds[0] * Poly.atom(("cos", y))
                elif x[0] == "cos":
                    r = -(ds[0] * Poly.atom(("sin", y)))
                elif x[0] == "sqrt":
                    r = ds[0] * recip(u).scale(Fraction(1, 2))
                elif isinstance(x[0], tuple) and x[0][0] == "op":
                    # an arbitrary smooth function: x[0] = (op, name, component, partial derivatives taken)
                    for j, dj in enumerate(ds):
                        if dj.t:
                            r = r + dj * Poly.atom(((x[0][:3] + (tuple(sorted(x[0][3] + (j,))),)),) + x[1:])
                elif x[0] == "tan":
                    c = Poly.atom(("cos", y))
                    r = ds[0] * recip(c * c)
                elif x[0] in ("asin", "acos"):
                    r = ds[0] * recip(root(ONE - y * y))
                    r = -r if x[0] == "acos" else r
                elif x[0] == "atan":
                    r = ds[0] * recip(ONE + y * y)
                elif x[0] == "cbrt":
                    r = ds[0] * recip(u * u).scale(Fraction(1, 3))
                elif x[0] == "pow" and not ds[1].t:
                    r = ds[0] * x[2] * u * recip(y)
                else:
                    raise I.Undecided(f"derivative of {x[0]}")
        self.sq[k] = r
        return r


def recip(b):
    """1/b with nested reciprocals cleared: 1/(N/D) = D/N"""
    n, den = clear(b)
    if n.is_const():
        if not n.t:
            raise I.PathEnd("ub", "division by zero")
        return den.scale(Fraction(1) / n.cval())
    if len(n.t) == 1:
        # monomials: reciprocals of the factors
        (m, c), = n.t.items()
        r = Poly.const(Fraction(1) / c)
        for a, e in m:
            q = Poly.atom(("inv", Poly({((a, 1),): Fraction(1)})))
            for _ in range(e):
                r = r * q
        return simp(r * den)
    lead = n.t[max(n.t)]
    return simp(Poly.atom(("inv", n.scale(Fraction(1) / lead))).scale(Fraction(1) / lead) * den)


def simp(p):
    """x * 1/x -> 1 for single atoms"""
    if not any(1 for _ in inv_atoms(p)):
        return p
    t = {}
    for m, c in p.t.items():
        d = dict(m)
        for a in list(d):
            x = atom_of(a)
            if isinstance(x, tuple) and x[0] == "inv" and len(x[1].t) == 1:
                (mm, cc), = x[1].t.items()
                if cc == 1 and len(mm) == 1 and mm[0][1] == 1 and d.get(mm[0][0], 0) > 0:
                    k = min(d[a], d[mm[0][0]])
                    for z in (a, mm[0][0]):
                        d[z] -= k
                        if not d[z]:
                            del d[z]
        key = tuple(sorted(d.items()))
        v = t.get(key, 0) + c
        if v:
            t[key] = v
        else:
            t.pop(key, None)
    return Poly(t)


# ---------------------------------------------------------------------------- the library's operations
def scal(ip, v):
    v = L(v)
    if is_t(v):
        return None
    return ip.n(v)


def lin(t, a, b, op):
    return new(t, lambda i: op(comp(a, i), comp(b, i)))


def install(ip, ring=None):
    ip.ring = ring or Ring()
    N = ip.ring.norm
    R = ip.over
    ip.recip = recip

    def prod(v, w):
        a, b = dims(v), dims(w)
        k = min(len(a), len(b)) if (len(a), len(b)) in ((4, 2), (2, 4)) else 1
        return a, b, k

    def result(c, fn, d):
        if not d:
            return N(fn(()))
        t = strip_cvref(c.t)
        if not t.startswith(PRE):
            raise I.Undecided(f"tensor operation of type {t}")
        return new(t, lambda i: N(fn(i)))

    def op_mul(ip, c):
        a, b = L(c.a[0]), L(c.a[1])
        if not is_t(a) and not is_t(b):
            return NotImplemented
        if not is_t(a) or not is_t(b):
            s, v = (a, b) if is_t(b) else (b, a)
            s = ip.n(s)
            return new(L(v).cls if not strip_cvref(c.t).startswith(PRE) else c.t, lambda i: s * comp(v, i))
        da, db, k = prod(a, b)
        if k == 2:
            # second/fourth order contractions
            if len(da) == 4:
                return result(c, lambda i: total(comp(a, i + j) * comp(b, j) for j in tt(b.cls).idx), da[:2])
            return result(c, lambda i: total(comp(a, j) * comp(b, j + i) for j in tt(a.cls).idx), db[2:])
        return result(c, lambda i: total(comp(a, i[:len(da) - 1] + (s,)) * comp(b, (s,) + i[len(da) - 1:]) for s in range(da[-1])),
                      da[:-1] + db[1:])

    def op_div(ip, c):
        r = recip(N(ip.n(L(c.a[1]))))
        return new(L(c.a[0]).cls, lambda i: N(simp(comp(c.a[0], i) * r)))

    def op_add(ip, c):
        return result(c, lambda i: comp(c.a[0], i) + comp(c.a[1], i), dims(c.a[0]))

    def op_sub(ip, c):
        if len(c.a) == 1:
            return new(L(c.a[0]).cls, lambda i: -comp(c.a[0], i))
        return result(c, lambda i: comp(c.a[0], i) - comp(c.a[1], i), dims(c.a[0]))

    def into(c, fn):
        dst = L(c.a[0])
        T = tt(dst.cls)
        v = {}
        for i in T.idx:
            s = T.slot[i]
            if s is not None and s not in v:
                v[s] = fn(i)
        for s, x in v.items():
            ip.write(dst.e[s], x)
        return c.a[0]

    def op_asg(kind):
        def h(ip, c):
            b = L(c.a[1])
            if kind == "+":
                return into(c, lambda i: comp(c.a[0], i) + comp(b, i))
            if kind == "-":
                return into(c, lambda i: comp(c.a[0], i) - comp(b, i))
            if kind == "*":
                if is_t(b):
                    raise I.Undecided("tensor *= tensor")
                s = ip.n(b)
                return into(c, lambda i: comp(c.a[0], i) * s)
            r = recip(N(ip.n(b)))
            return into(c, lambda i: simp(comp(c.a[0], i) * r))
        return h

    P = "pyre::tensor::"
    R[P + "operator*"] = op_mul
    R[P + "operator/"] = op_div
    R[P + "operator+"] = op_add
    R[P + "operator-"] = op_sub
    for k in "+-*/":
        R[P + "operator" + k + "="] = op_asg(k)

    def less(ip, c):
        from intrinsics import less as lt
        for i in tt(L(c.a[0]).cls).idx:
            a, b = comp(c.a[0], i), comp(c.a[1], i)
            if ip.decide(lt(ip, a, b)):
                return True
            if ip.decide(lt(ip, b, a)):
                return False
        return False
    R[P + "operator<"] = less
    R[P + "operator=="] = lambda ip, c: ip.conj([ip.eq(comp(c.a[0], i), comp(c.a[1], i)) for i in tt(L(c.a[0]).cls).idx])
    R[P + "determinant"] = lambda ip, c: N(det(mat(c.a[0]), dims(c.a[0])[0]))

    def inverse(ip, c):
        m = mat(c.a[0])
        if tt(L(c.a[0]).cls).pack == "Diagonal":
            return new(L(c.a[0]).cls, lambda i: recip(N(comp(c.a[0], i))))
        r = recip(N(det(m, len(m))))
        ad = adj(m)
        return new(c.t, lambda i: simp(N(ad[i[0]][i[1]] * r)))
    R[P + "inverse"] = inverse
    R[P + "transpose"] = lambda ip, c: new(c.t, lambda i: comp(c.a[0], tuple(reversed(i))))
    R[P + "trace"] = lambda ip, c: N(total(comp(c.a[0], (i, i)) for i in range(dims(c.a[0])[0])))
    half = Fraction(1, 2)
    R[P + "symmetric"] = lambda ip, c: new(c.t, lambda i: (comp(c.a[0], i) + comp(c.a[0], tuple(reversed(i)))).scale(half))
    R[P + "dot"] = lambda ip, c: N(total(comp(c.a[0], i) * comp(c.a[1], i) for i in tt(L(c.a[0]).cls).idx))
    R[P + "norm"] = lambda ip, c: root(N(total(comp(c.a[0], i) * comp(c.a[0], i) for i in tt(L(c.a[0]).cls).idx)))

    def normalize(ip, c):
        r = recip(root(N(total(comp(c.a[0], i) * comp(c.a[0], i) for i in tt(L(c.a[0]).cls).idx))))
        return new(L(c.a[0]).cls, lambda i: comp(c.a[0], i) * r)
    R[P + "normalize"] = normalize
    R[P + "dyadic"] = lambda ip, c: new(c.t, lambda i: comp(c.a[0], i[:1]) * comp(c.a[1], i[1:]))

    def cross(ip, c):
        a, b = c.a
        if dims(a)[0] == 2:
            return comp(a, (0,)) * comp(b, (1,)) - comp(a, (1,)) * comp(b, (0,))
        return new(c.t, lambda i: comp(a, ((i[0] + 1) % 3,)) * comp(b, ((i[0] + 2) % 3,)) - comp(a, ((i[0] + 2) % 3,)) * comp(b, ((i[0] + 1) % 3,)))
    R[P + "cross"] = cross

    def skew(ip, c):
        a = c.a[0]
        if len(dims(a)) == 2:
            return new(c.t, lambda i: (comp(a, i) - comp(a, tuple(reversed(i)))).scale(half))
        eps = {(0, 1): (-1, 2), (0, 2): (1, 1), (1, 0): (1, 2), (1, 2): (-1, 0), (2, 0): (-1, 1), (2, 1): (1, 0)}
        return new(c.t, lambda i: comp(a, (eps[i][1],)).scale(eps[i][0]) if i in eps else ZERO)
    R[P + "skew"] = skew

    def matrix_diagonal(ip, c):
        a = c.a[0]
        if len(dims(a)) == 1:
            return new(c.t, lambda i: comp(a, i[:1]) if i[0] == i[1] else ZERO)
        return new(c.t, lambda i: comp(a, (i[0], i[0])))
    R[P + "matrix_diagonal"] = matrix_diagonal

    def rows(ip, c):
        if strip_cvref(c.t).startswith(PRE):
            return new(c.t, lambda i: comp(c.a[i[0]], (i[1],)))
        t, d = strip_cvref(c.t), dims(c.a[0])
        return seq(t, [new(ttype((d[1],)), lambda i, k=k: comp(c.a[0], (k, i[0]))) for k in range(d[0])])

    def columns(ip, c):
        if strip_cvref(c.t).startswith(PRE):
            return new(c.t, lambda i: comp(c.a[i[1]], (i[0],)))
        t, d = strip_cvref(c.t), dims(c.a[0])
        if len(d) == 1:
            return seq(t, [I.Cell(comp(c.a[0], (k,)), "double") for k in range(d[0])])
        return seq(t, [new(ttype((d[0],)), lambda i, k=k: comp(c.a[0], (i[0], k))) for k in range(d[1])])

    def seq(t, es):
        b = tmpl(t)[0]
        if b not in ("std::array", "std::tuple"):
            raise I.Undecided("rows/columns of type " + t)
        return I.Arr(es, None, b)
    R[P + "rows"] = rows
    R[P + "columns"] = columns

    def targ(c, k=0):
        ta = c.x.get("targs") or []
        return ta[k] if k < len(ta) else None

    def row(ip, c):
        k = int(tmpl_int(c, 0))
        return new(c.t, lambda i: comp(c.a[0], (k, i[0])))

    def column(ip, c):
        k = int(tmpl_int(c, 0))
        return new(c.t, lambda i: comp(c.a[0], (i[0], k)))
    R[P + "row"] = row
    R[P + "column"] = column

    def factorial(ip, c):
        import math
        return Poly.const(math.factorial(int(tmpl_int(c, 0))))
    R[P + "factorial"] = factorial
    R[P + "make_zeros"] = lambda ip, c: new(c.t)
    R[P + "make_ones"] = lambda ip, c: new(c.t, lambda i: ONE)
    R[P + "make_identity"] = lambda ip, c: new(c.t, lambda i: ONE if len(set(i)) == 1 else ZERO)

    def random(ip, c):
        nm = ip.fresh_name("rnd")
        return new(c.t, lambda i: Poly.atom(nm + str(i)))
    R[P + "random"] = random
    R[P + "Tensor::Tensor"] = t_ctor
    R[P + "Tensor::operator="] = t_assign
    R[P + "Tensor::operator[]"] = t_index
    R[P + "Tensor::~Tensor"] = lambda ip, c: None
    R[P + "Tensor::begin"] = lambda ip, c: I.It(L(c.o), ZERO)
    R[P + "Tensor::end"] = lambda ip, c: I.It(L(c.o), Poly.const(len(L(c.o).e)))

    def reset(ip, c):
        for x in L(c.o).e:
            ip.write(x, ZERO)
    R[P + "Tensor::reset"] = reset
    R[P + "Tensor::getOffset"] = lambda ip, c: Poly.const(tt(owner(c)).slot[tuple(int(z) for z in targs_of(c))])
    R["pyre::grid::Index::Index"] = idx_ctor
    R["pyre::grid::Index::operator[]"] = lambda ip, c: ip.index(L(c.o), ip.n(L(c.a[0])))
    R["pyre::tensor::make_integer_sequence"] = NotImplemented
    del R["pyre::tensor::make_integer_sequence"]
    for nm in ("std::log", "log"):
        R[nm] = lambda ip, c: Poly.atom(("log", N(ip.n(L(c.a[0])))))
    for nm in ("std::exp", "exp", "std::sin", "sin", "std::cos", "cos"):
        R[nm] = i_elem(nm.rsplit("::", 1)[-1], N)
    R["std::sqrt"] = R["sqrt"] = lambda ip, c: root(N(ip.n(L(c.a[0]))))


def i_elem(nm, N):
    at0 = {"exp": ONE, "sin": ZERO, "cos": ONE}[nm]

    def h(ip, c):
        x = N(ip.n(L(c.a[0])))
        return at0 if not x.t else Poly.atom((nm, x))
    return h


def root(p):
    if p.is_const():
        import math
        v = p.cval()
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return Poly.const(Fraction(n, d))
    return Poly.atom(("sqrt", p))


def total(it):
    r = ZERO
    for x in it:
        r = r + x
    return r


def targs_of(c):
    q = c.x.get("q", "")
    return tmpl(q)[1] if q.endswith(">") else []


def tmpl_int(c, k):
    a = targs_of(c)
    if k >= len(a):
        raise I.Undecided("template argument of " + c.x.get("q", "?"))
    return a[k].rstrip("UL")


def owner(c):
    q = c.x.get("q", "")
    i = q.find(PRE)
    d = 0
    for j in range(i + len(PRE) - 1, len(q)):
        if q[j] == "<":
            d += 1
        elif q[j] == ">":
            d -= 1
            if d == 0:
                return q[i:j + 1]
    raise I.Undecided("tensor type of " + q)


def idx_ctor(ip, c):
    if len(c.a) == 1 and isinstance(L(c.a[0]), I.Arr):
        src = L(c.a[0])
        return I.Arr([I.Cell(L(x), "int") for x in src.e], "int", "index")
    return I.Arr([I.Cell(ip.n(L(x)), "int") for x in c.a], "int", "index")


def t_ctor(ip, c):
    t = strip_cvref(c.t)
    T = tt(t)
    a = c.a
    if not a:
        return new(t)
    if len(a) == 1 and is_t(a[0]):
        if c.x.get("ctor") in ("copy", "move") and L(a[0]).cls == t:
            return new(t, lambda i: comp(a[0], i))
        return new(t, lambda i: comp(a[0], i))
    if len(a) == 1 and isinstance(L(a[0]), I.Arr) and (L(a[0]).cls in ("carray", "init_list") or len(L(a[0]).e) == T.size):
        a = L(a[0]).e
    if len(a) == T.size:
        return I.Arr([I.Cell(ip.n(L(x)), T.scalar) for x in a], T.scalar, t)
    raise I.Undecided(f"construction of {t} from {len(a)} values")


def t_assign(ip, c):
    dst, src = L(c.o), L(c.a[0])
    if not is_t(src):
        raise I.Undecided("tensor assigned from something else")
    T = tt(dst.cls)
    v = {}
    for i in T.idx:
        s = T.slot[i]
        if s is not None:
            v[s] = comp(src, i)
    for s, x in v.items():
        ip.write(dst.e[s], x)
    return c.o


def t_index(ip, c):
    o, k = L(c.o), L(c.a[0])
    T = tt(o.cls)
    if isinstance(k, I.Arr):
        ks = [ip.facts.norm(ip.n(L(x))) for x in k.e]
        if not all(x.is_const() for x in ks):
            raise I.Undecided("tensor component at an unknown index")
        i = tuple(int(x.cval()) for x in ks)
        if i not in T.slot:
            raise I.PathEnd("ub", f"tensor component {i} does not exist")
        s = T.slot[i]
        if s is None:
            return I.Cell(ZERO, T.scalar, "off-diagonal")
        return o.e[s]
    return ip.index(o, ip.n(k))
