"""Exact multivariate polynomials with rational coefficients over interned atoms.

The numeric abstract domain: every scalar is a polynomial over opaque atoms (symbolic inputs and
uninterpreted terms).  Two scalars are provably equal when their normal forms coincide."""
from fractions import Fraction

_ids = {}
_atoms = []


def atom_id(a):
    i = _ids.get(a)
    if i is None:
        i = len(_atoms)
        _ids[a] = i
        _atoms.append(a)
    return i


def atom_of(i):
    return _atoms[i]


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._h = None

    # -- constructors
    @staticmethod
    def const(c):
        if not isinstance(c, int):
            c = Fraction(c)
            if c.denominator == 1:
                c = int(c)
        else:
            c = int(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def atom(a):
        return Poly({((atom_id(a), 1),): 1})

    # -- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    # -- ring operations
    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) - c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def __mul__(self, o):
        if not self.t or not o.t:
            return Poly({})
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mm(m1, m2)
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t)

    def scale(self, c):
        if not c:
            return Poly({})
        if isinstance(c, Fraction) and c.denominator == 1:
            c = int(c)
        if isinstance(c, int):
            return Poly({m: v * c for m, v in self.t.items()})
        t = {}
        for m, v in self.t.items():
            v = v * c
            t[m] = int(v) if v.denominator == 1 else v
        return Poly(t)

    def subst(self, s):
        """s: atom id -> Poly"""
        if not s or not (self.atoms() & s.keys()):
            return self
        r = Poly({})
        for m, c in self.t.items():
            p = Poly({(): c})
            for a, e in m:
                b = s.get(a)
                if b is None:
                    p = p * Poly({((a, e),): 1})
                else:
                    for _ in range(e):
                        p = p * b
            r = r + p
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items()):
            s = "*".join(fmt_atom(atom_of(a)) + (f"^{e}" if e > 1 else "") for a, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(f"{c}*{s}")
        return " + ".join(out).replace("+ -", "- ")


def fmt_atom(a):
    if isinstance(a, str):
        return a
    if isinstance(a, tuple):
        return str(a[0]) + "(" + ",".join(fmt_atom(x) for x in a[1:]) + ")"
    return repr(a)


def _mm(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            r.append((a[i][0], a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            r.append(a[i])
            i += 1
        else:
            r.append(b[j])
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


ZERO = Poly.const(0)
ONE = Poly.const(1)
