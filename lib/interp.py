"""Path-sensitive abstract interpreter over the resolved program.

Abstract domains: exact polynomials over opaque atoms for scalars (equality by normal form, a small
relational store of linear facts for comparisons), an abstract heap of places (cells, objects,
arrays, containers with an unknown remainder), three-valued conditions.  Unknown conditions split
the abstract state (trace partitioning); loops whose exit is not statically decided are widened: the
places the body writes are set to unknown and one arbitrary iteration is analysed from there."""
import struct
import sys
from fractions import Fraction
from poly import Poly, ZERO, ONE, atom_of, atom_id
from db import DB, AnalysisBroken, tmpl, strip_cvref, is_ref, base_name, split_targs, walk

sys.setrecursionlimit(20000)

INT_TYPES = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short",
             "unsigned short", "char", "signed char", "unsigned char", "size_t", "int64_t", "__int128",
             "unsigned __int128"}
REAL_TYPES = {"double", "float", "long double"}
RELATIONAL = {"<", ">", "<=", ">=", "==", "!="}
INT_BITS = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
            "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}


def single(x):
    """the number of single precision next to a fraction"""
    try:
        return Fraction(struct.unpack("f", struct.pack("f", float(x)))[0])
    except OverflowError:
        return x


def in_single(v):
    """the value of a variable of single precision"""
    if len(v.t) != 1:
        return False
    m, c = next(iter(v.t.items()))
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return False
    a = atom_of(m[0][0])
    return isinstance(a, tuple) and a[0] == "float"


def fit(v, t):
    """a number as a variable of type t holds it: integers modulo their width, single precision is not exact"""
    if not isinstance(v, Poly):
        return v
    t = strip_cvref(t)
    if t == "float":
        if v.is_const():
            return Poly.const(single(v.cval()))
        return v if in_single(v) else Poly.atom(("float", v))
    w = INT_BITS.get(t)
    if w and v.is_const() and v.cval().denominator == 1:
        x = int(v.cval())
        if x < 0 or x >> (w - 1):
            x &= (1 << w) - 1
            if not t.startswith("unsigned") and x >> (w - 1):
                x -= 1 << w
            return Poly.const(x)
    return v


# ---------------------------------------------------------------------------- control flow
class Flow(Exception):
    pass


class Break(Flow):
    pass


class Continue(Flow):
    pass


class Return(Flow):
    def __init__(self, v):
        self.v = v


class PathEnd(Exception):
    """the path leaves the analysed scope (exception, abort, infeasible)"""

    def __init__(self, kind, why=""):
        if Bounds.hit and kind != "infeasible":
            # the small case at hand need not make sense where only large ones come
            raise Undecided(f"beyond a bound: {kind} {why}")
        self.kind = kind
        self.why = why


class Bounds:
    """Comparisons with bounds that are written in the code (n > 64) and that the small cases of the analysis never reach.
    After the analysis the cases are taken through the other branch as well: what the code computes for large
    cases has to be right for small ones, or else to end in an error, which decides nothing."""
    LEAST = 8
    seen = {}           # (file, line, operator) -> outcomes
    turned = {}         # those that are turned, and the outcome
    hit = False

    @classmethod
    def literal(cls, e):
        """the largest number that is written in an expression"""
        r = 0
        for x in walk(e):
            try:
                if x["k"] == "int":
                    r = max(r, abs(int(x["v"])))
                elif "cv" in x and isinstance(x["cv"], (int, str)):
                    r = max(r, abs(int(x["cv"])))
            except (ValueError, TypeError):
                pass
        return r

    @classmethod
    def of(cls, ip, e):
        k = e.get("_bound")
        if k is None:
            k = False
            f = ip.frames[-1].fn if ip.frames else {}
            if f.get("file") is not None and ip.db.in_repo(f) and "cv" not in e and cls.LEAST <= cls.literal([e["x"], e["y"]]) < 1 << 30:
                k = (ip.db.rel(f), e.get("l"), e["op"])
            e["_bound"] = k
        return k

    @classmethod
    def unreached(cls):
        return {k: not next(iter(v)) for k, v in cls.seen.items() if len(v) == 1 and None not in v}


class Undecided(Exception):
    """an idiom outside the interpreter's vocabulary was met"""


# what stops an analysis without an answer: an idiom, or a value of a shape, that it does not know
OUT = (Undecided, AttributeError, KeyError, IndexError, TypeError, ValueError, RecursionError)


# ---------------------------------------------------------------------------- values
class _Null:
    def __repr__(self):
        return "null"


NULL = _Null()


class Place:
    __slots__ = ("name",)


class Cell(Place):
    __slots__ = ("v", "t")

    def __init__(self, v=None, t=None, name=None):
        self.v = v
        self.t = t
        self.name = name

    def __repr__(self):
        return f"Cell<{self.name}>({self.v!r})" if self.name else f"Cell({self.v!r})"


class Obj(Place):
    __slots__ = ("cls", "f", "lazy", "meta", "alive")

    def __init__(self, cls, f=None, lazy=False, name=None):
        self.cls = cls
        self.f = f if f is not None else {}
        self.lazy = lazy
        self.name = name
        self.meta = {}
        self.alive = True

    def __repr__(self):
        return f"Obj<{self.name or ''}:{base_name(self.cls)}>"


class Arr(Place):
    """fixed or known sequence of places (std::array, C arrays, std::vector, initializer lists)"""
    __slots__ = ("cls", "e", "et", "rest", "meta")

    def __init__(self, e, et=None, cls="array", name=None, rest=None):
        self.e = e
        self.et = et
        self.cls = cls
        self.name = name
        self.rest = rest  # None: exactly these elements; else: unknown contents named by rest
        self.meta = {}

    def __repr__(self):
        return f"Arr<{self.name or ''}>{self.e if len(self.e) < 7 else len(self.e)}"


class MapV(Place):
    """associative container: known entries, plus (rest) an unknown remainder"""
    __slots__ = ("cls", "ents", "rest", "kt", "vt", "absent", "meta", "isset")

    def __init__(self, kt, vt, rest=None, name=None, cls="map", isset=False):
        self.kt = kt
        self.vt = vt
        self.ents = []  # [key value, place, present?]
        self.rest = rest
        self.absent = []
        self.name = name
        self.cls = cls
        self.meta = {}
        self.isset = isset

    def __repr__(self):
        return f"Map<{self.name or ''}>{self.ents}"


class It:
    """iterator into a container: position is an entry / index / 'end'"""
    __slots__ = ("c", "p")

    def __init__(self, c, p):
        self.c = c
        self.p = p

    def __repr__(self):
        return f"It({self.c!r},{self.p!r})"


class Ptr:
    __slots__ = ("b", "o")

    def __init__(self, b, o=ZERO):
        self.b = b
        self.o = o

    def __repr__(self):
        return f"&{self.b!r}" + (f"+{self.o!r}" if self.o.t else "")


class NativeFn:
    """a callable of the analysis (a standard predicate combined with a projection)"""

    def __init__(self, f):
        self.f = f


class Fn:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i


class Term:
    """uninterpreted value"""
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Term) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"T{self.k!r}"


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return repr(self.s)


class Cond:
    """three-valued condition: op in eq0, le0 (poly <= 0 over integers/reals), lt0, opq"""
    __slots__ = ("op", "x", "neg")

    def __init__(self, op, x, neg=False):
        self.op = op
        self.x = x
        self.neg = neg

    def __repr__(self):
        return ("!" if self.neg else "") + f"{self.op}[{self.x!r}]"


def ap_leaves(av):
    """scalar leaves of a constant, in storage order"""
    if isinstance(av, list):
        for x in av:
            yield from ap_leaves(x)
    elif isinstance(av, dict):
        if "i" in av:
            yield Poly.const(int(av["i"]))
        elif "f" in av:
            yield Poly.const(Fraction(float.fromhex(av["f"])))
        elif "s" in av:
            yield from ap_leaves(av["s"])


def num(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def vkey(v):
    """hashable key of a value"""
    if isinstance(v, (Poly, Term, Str, bool)):
        return v
    if v is NULL:
        return "null"
    if isinstance(v, Ptr):
        return ("ptr", v.b if not isinstance(v.b, Place) else id(v.b), v.o)
    if isinstance(v, Cell):
        return vkey(v.v)
    if isinstance(v, Obj):
        return ("obj", v.cls, tuple(sorted((k, vkey(x)) for k, x in v.f.items())))
    if isinstance(v, Arr):
        if v.rest is not None:
            return ("arr", id(v))
        return ("arr", tuple(vkey(x) for x in v.e))
    if isinstance(v, It):
        return ("it", id(v.c), v.p if isinstance(v.p, (str, Poly)) else id(v.p))
    return ("id", id(v))


class Facts:
    def __init__(self, unsigned=()):
        self.lit = {}
        self.sub = {}
        self.le = []  # polys known <= 0
        self.nonneg = set()

    def norm(self, p):
        for _ in range(6):
            q = p.subst(self.sub)
            if q is p or q == p:
                return q
            p = q
        return p


def _prim(p):
    """scale to a canonical positive multiple"""
    if not p.t:
        return p
    c = abs(p.t[max(p.t)])
    return p.scale(Fraction(1) / c) if c != 1 else p


class Frame:
    __slots__ = ("fn", "vars", "this", "locals", "temps", "binds", "caps", "own")

    def __init__(self, fn, this=None):
        self.fn = fn
        self.vars = {}
        self.this = this
        self.locals = []
        self.temps = []
        self.binds = {}
        self.caps = None
        self.own = []


class Interp:
    MAXDEPTH = 60
    MAXITER = 300
    MAXPATHS = 20000

    def __init__(self, db):
        self.db = db
        self.dead = []      # uses of objects whose life had ended
        self.dangling = []  # functions found to hand out a reference to a variable of their own
        self.over = {}      # base name -> handler(interp, call) overriding any callee
        self.intr = {}      # base name -> handler for callees without analysed body
        self.prefix = []    # [(prefix, handler)]
        self.deref_hook = None
        self.fresh_hook = None
        self.rec_hook = None
        self.stats = {"paths": 0, "steps": 0, "calls": 0, "widened": 0}
        self.analysed = set()
        self.unknown_calls = {}
        self._choices = []
        self.ignore_asserts = True
        self.decide_asserts = False
        from intrinsics import install
        install(self)

    # -- path exploration ---------------------------------------------------------------
    def paths(self, body):
        """run `body(interp)` once per abstract path; yields (kind, result)"""
        self._choices = []
        n = 0
        while True:
            self.reset()
            try:
                r = ("ok", body(self))
            except PathEnd as e:
                r = (e.kind, e.why)
            n += 1
            self.stats["paths"] += 1
            if r[0] != "infeasible":
                yield r
            while self._choices and self._choices[-1][0] + 1 >= self._choices[-1][1]:
                self._choices.pop()
            if not self._choices:
                return
            self._choices[-1][0] += 1
            if n > self.MAXPATHS:
                raise Undecided("too many abstract paths")

    def reset(self):
        self._ci = 0
        Bounds.hit = False
        self.facts = Facts()
        self.frames = []
        self.events = []
        self.mem = {}
        self.globals = {}
        self._n = 0
        self.depth = 0
        self.widx = None
        self.loopdepth = 0

    def choose(self, n, label=None):
        if n <= 1:
            return 0
        if self._ci < len(self._choices):
            c = self._choices[self._ci][0]
        else:
            self._choices.append([0, n])
            c = 0
        self._ci += 1
        return c

    def fresh_name(self, p="u"):
        self._n += 1
        return f"{p}{self._n}"

    def event(self, *a):
        self.events.append(a)

    # -- fresh symbolic values -----------------------------------------------------------
    def fresh(self, t, name):
        """a place of type t with unknown content"""
        t = strip_cvref(t)
        if self.fresh_hook:
            r = self.fresh_hook(self, t, name)
            if r is not None:
                return r
        if t.startswith("pyre::tensor::Tensor<"):
            import tensors
            return tensors.sym(t, name)
        b, ta = tmpl(t)
        if t in INT_TYPES or t in REAL_TYPES or t in self.enum_like(t):
            p = Poly.atom(name)
            if "unsigned" in t or t == "size_t":
                self.facts.nonneg.add(atom_id(name))
            return Cell(p, t, name)
        if t == "bool":
            return Cell(Cond("opq", name), t, name)
        if t.endswith("*"):
            return Cell(Ptr(("sym", name)), t, name)
        if b == "std::array":
            n = int(ta[1].rstrip("UL"))
            return Arr([self.fresh(ta[0], f"{name}[{i}]") for i in range(n)], ta[0], "std::array", name)
        if t.endswith("]"):
            i = t.rindex("[")
            n = int(t[i + 1:-1])
            return Arr([self.fresh(t[:i], f"{name}[{k}]") for k in range(n)], t[:i], "carray", name)
        if b in ("std::vector", "std::deque", "std::list", "std::queue"):
            return Arr([], ta[0], b, name, rest=name)
        if b in ("std::map", "std::unordered_map", "std::multimap"):
            return MapV(ta[0], ta[1], rest=name, name=name, cls=b)
        if b in ("std::set", "std::unordered_set"):
            return MapV(ta[0], None, rest=name, name=name, cls=b, isset=True)
        if b == "std::pair":
            return Obj(t, {"first": self.fresh(ta[0], name + ".first"), "second": self.fresh(ta[1], name + ".second")}, name=name)
        if b == "std::tuple":
            return Arr([self.fresh(x, f"{name}<{i}>") for i, x in enumerate(ta)], None, "std::tuple", name)
        if b == "std::basic_string":
            return Cell(Term("str", name), t, name)
        o = Obj(t, {}, lazy=True, name=name)
        return o

    def enum_like(self, t):
        return ()

    def uninit(self, t, name=None):
        """default-initialised storage"""
        t = strip_cvref(t)
        if t.startswith("pyre::tensor::Tensor<"):
            import tensors
            return tensors.new(t, name=name)
        b, ta = tmpl(t)
        if b in ("std::map", "std::unordered_map", "std::multimap"):
            return MapV(ta[0], ta[1], cls=b, name=name)
        if b in ("std::set", "std::unordered_set"):
            return MapV(ta[0], None, cls=b, name=name, isset=True)
        if b in ("std::vector", "std::deque", "std::list", "std::queue", "std::optional"):
            return Arr([], ta[0], b, name)
        if b == "std::array":
            n = int(ta[1].rstrip("UL"))
            return Arr([self.uninit(ta[0]) for i in range(n)], ta[0], "std::array", name)
        if t.endswith("]"):
            i = t.rindex("[")
            return Arr([self.uninit(t[:i]) for k in range(int(t[i + 1:-1]))], t[:i], "carray", name)
        if b == "std::pair":
            return Obj(t, {"first": self.uninit(ta[0]), "second": self.uninit(ta[1])}, name=name)
        if b == "std::tuple":
            return Arr([self.uninit(x) for x in ta], None, "std::tuple", name)
        if b == "std::basic_string":
            return Cell(Str(""), t, name)
        if t in INT_TYPES or t in REAL_TYPES or t == "bool" or t.endswith("*") or t in self.db.enums:
            return Cell(Term("uninit", self.fresh_name()), t, name)
        return Obj(t, {}, lazy=False, name=name)

    def zero(self, t, name=None):
        t = strip_cvref(t)
        if t in INT_TYPES or t in REAL_TYPES or t in self.db.enums:
            return Cell(ZERO, t, name)
        if t == "bool":
            return Cell(False, t, name)
        if t.endswith("*") or t == "std::nullptr_t":
            return Cell(NULL, t, name)
        p = self.uninit(t, name)
        self._zero_fill(p)
        return p

    def _zero_fill(self, p):
        if isinstance(p, Cell):
            if isinstance(p.v, Term) and p.v.k[0] == "uninit":
                p.v = self.zero(p.t).v
        elif isinstance(p, Arr):
            for e in p.e:
                self._zero_fill(e)
        elif isinstance(p, Obj):
            r = self.db.rec_by_t.get(p.cls)
            if r is not None and not p.f:
                for f in r["fields"]:
                    if not is_ref(self.db.t(f["t"])):
                        p.f[f["n"]] = self.zero(self.db.t(f["t"]))
            else:
                for e in p.f.values():
                    self._zero_fill(e)

    # -- fields --------------------------------------------------------------------------
    def field(self, o, name, ftype=None):
        if isinstance(o, It) and name in ("first", "second"):
            o = self.deref(o)
        if isinstance(o, Cell) and isinstance(o.v, (Obj, Arr, MapV)):
            o = o.v
        if not isinstance(o, Obj):
            raise Undecided(f"member {name} of {o!r}")
        p = o.f.get(name)
        if p is None:
            t = ftype
            if t is None:
                t = self.field_type(o.cls, name)
            if t is None:
                raise Undecided(f"unknown field {name} of {o.cls}")
            if o.lazy:
                if is_ref(t):
                    p = self.fresh(t, f"{o.name}.{name}")
                else:
                    p = self.fresh(t, f"{o.name}.{name}")
            else:
                p = self.uninit(t, None)
            o.f[name] = p
        return p

    def field_type(self, cls, name):
        r = self.db.rec_by_t.get(cls)
        while r:
            for f in r["fields"]:
                if f["n"] == name:
                    return self.db.t(f["t"])
            nxt = None
            for b in r["bases"]:
                t = self.field_type(self.db.t(b["t"]), name)
                if t:
                    return t
            r = nxt
        return None

    # -- copying -------------------------------------------------------------------------
    def load(self, p):
        if isinstance(p, Cell):
            return p.v
        return p

    def write(self, c, v):
        if self.widx is not None:
            for w in self.widx:
                w.append(c)
        c.v = fit(v, "float") if c.t == "float" else v

    def touched(self, p):
        if self.widx is not None:
            for w in self.widx:
                w.append(p)

    def copy(self, v, move=False):
        """copy-construct a value/place (runs user-defined copy constructors of members)"""
        if isinstance(v, Cell):
            if isinstance(v.v, (Obj, Arr, MapV)):
                return self.copy(v.v, move)
            return Cell(v.v, v.t)
        if isinstance(v, Arr):
            if move and v.cls in ("std::vector", "std::queue", "std::deque", "std::list"):
                # the buffer changes hands: the elements stay where they are
                a = Arr(v.e, v.et, v.cls, None, v.rest)
                a.meta = dict(v.meta)
                self.touched(v)
                v.e = []
                v.rest = None
                return a
            a = Arr([self.copy(x, move and v.cls != "std::tuple_ref") for x in v.e], v.et, v.cls, None, v.rest)
            a.meta = dict(v.meta)
            return a
        if isinstance(v, MapV):
            m = MapV(v.kt, v.vt, v.rest, None, v.cls, v.isset)
            m.meta = dict(v.meta)
            if move:
                m.ents, m.absent = v.ents, v.absent
                self.touched(v)
                v.ents = []
                v.rest = None
                v.absent = []
                return m
            m.ents = [[self.copy(k) if isinstance(k, (Obj, Arr, MapV)) else k, (self.copy(p) if p is not None else None)]
                      for k, p in v.ents]
            m.absent = list(v.absent)
            return m
        if isinstance(v, Obj):
            fn = self.special(v.cls, "movector" if move else "copyctor")
            if fn is not None:
                h = self.over.get(fn["b"])
                if h is not None:
                    r = h(self, Call({}, {"ctor": "move" if move else "copy"}, None, [v], v.cls))
                    if r is not NotImplemented:
                        return r
                o = Obj(v.cls)
                self.construct_with(o, fn, [v])
                return o
            o = Obj(v.cls, {}, v.lazy, v.name if v.lazy else None)
            for k, x in v.f.items():
                ft = self.field_type(v.cls, k)
                o.f[k] = x if (ft and is_ref(ft)) else self.copy(x, move)
            o.meta = dict(v.meta)
            if v.cls == "lambda" and v.meta.get("caps"):
                refs = v.meta.get("refs", ())
                o.meta["caps"] = {d: x if d in refs or not isinstance(x, Place) else self.copy(x, move) for d, x in v.meta["caps"].items()}
            return o
        return v

    def special(self, cls, sm):
        """user-provided special member with an analysed body"""
        r = self.db.rec_by_t.get(cls)
        if r is None:
            return None
        for m in r["methods"]:
            if m.get("sm") == sm and not m.get("defaulted") and not m.get("deleted"):
                f = self.db.fns.get(m["id"])
                if f is not None:
                    return f
        if sm == "movector":
            has_move = any(m.get("sm") == "movector" for m in r["methods"])
            if not has_move:
                return self.special(cls, "copyctor")
        return None

    def assign(self, dst, src, move=False):
        """defaulted assignment"""
        if isinstance(dst, Cell):
            v = src
            if isinstance(v, Cell):
                v = v.v
            self.write(dst, v)
            return dst
        if isinstance(src, Cell) and isinstance(src.v, (Obj, Arr, MapV)):
            src = src.v
        if isinstance(dst, Obj) and isinstance(src, Obj):
            if dst is src:
                return dst
            fn = self.special(src.cls, "moveasg" if move else "copyasg")
            if fn is None and move:
                fn = self.special(src.cls, "copyasg")
            if fn is not None:
                self.call_fn(fn, dst, [src])
                return dst
            names = set(dst.f) | set(src.f)
            r = self.db.rec_by_t.get(dst.cls)
            if r is not None:
                names |= {f["n"] for f in r["fields"]}
            for k in sorted(names):
                s = self.field(src, k)
                d = dst.f.get(k)
                if d is None:
                    dst.f[k] = self.copy(s, move)
                    self.touched(dst)
                else:
                    self.assign(d, s, move)
            dst.cls = src.cls if dst.cls is None else dst.cls
            return dst
        if isinstance(dst, Arr) and isinstance(src, Arr):
            if dst is src:
                return dst
            self.touched(dst)
            if dst.rest is None and src.rest is None and len(dst.e) == len(src.e) and dst.cls in ("std::array", "carray", "std::tuple"):
                vals = list(src.e)
                for d, s in zip(dst.e, vals):
                    self.assign(d, s, move)
            else:
                dst.e = [self.copy(x) for x in src.e]
                dst.rest = src.rest
                if move and src.cls in ("std::vector", "std::queue", "std::deque", "std::list"):
                    src.e = []
                    src.rest = None
            return dst
        if isinstance(dst, MapV) and isinstance(src, MapV):
            if dst is src:
                return dst
            self.touched(dst)
            c = self.copy(src, move)
            dst.ents, dst.rest, dst.absent = c.ents, c.rest, c.absent
            return dst
        raise Undecided(f"assignment {dst!r} = {src!r}")

    # -- conditions ----------------------------------------------------------------------
    def neg(self, c):
        if isinstance(c, bool):
            return not c
        return Cond(c.op, c.x, not c.neg)

    def truth(self, v):
        """value -> bool or Cond"""
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, (bool, Cond)):
            return v
        if isinstance(v, Poly):
            v = self.facts.norm(v)
            if v.is_const():
                return v.cval() != 0
            return Cond("eq0", v, True)
        if v is NULL:
            return False
        if isinstance(v, Ptr):
            return self.neg(self.ptr_eq(v, NULL))
        if isinstance(v, Term):
            return Cond("opq", v)
        if isinstance(v, Fn):
            return True
        raise Undecided(f"truth of {v!r}")

    def decide(self, c):
        c = self.truth(c)
        if isinstance(c, bool):
            return c
        r = self.known(c)
        if r is not None:
            return r
        r = self.choose(2, c) == 0
        self.assume(c, r)
        return r

    def _litkey(self, c):
        if c.op in ("eq0", "le0", "le0r"):
            p = _prim(self.facts.norm(c.x))
            if c.op == "eq0":
                k1 = p.key()
                k2 = (-p).key()
                return ("eq0", min(k1, k2))
            return (c.op, p.key())
        return (c.op, vkey(c.x))

    def known(self, c):
        """True/False if implied by the facts, else None"""
        if isinstance(c, bool):
            return c
        F = self.facts
        r = None
        if c.op == "eq0":
            p = F.norm(c.x)
            if p.is_const():
                r = p.cval() == 0
            elif self._le(p + ONE) or self._le(-p + ONE):
                r = False
            elif self._le(p) and self._le(-p):
                r = True
        elif c.op == "le0":
            p = F.norm(c.x)
            if p.is_const():
                r = p.cval() <= 0
            elif self._le(p):
                r = True
            elif self._le(ONE - p):
                r = False
        elif c.op == "le0r":   # reals
            p = F.norm(c.x)
            if p.is_const():
                r = p.cval() <= 0
        if r is None:
            r = F.lit.get(self._litkey(c))
        if r is None:
            return None
        return (not r) if c.neg else r

    def _le(self, p):
        """is p <= 0 implied (integers)?"""
        F = self.facts

        def nonpos(q):
            for m, cf in q.t.items():
                if m == ():
                    if cf > 0:
                        return False
                elif cf > 0 or not all(a in F.nonneg for a, _ in m):
                    return False
            return True
        if nonpos(p):
            return True
        fs = [F.norm(f) for f in F.le]
        for f in fs:
            if nonpos(p - f):
                return True
        if len(fs) < 40:
            for i, f in enumerate(fs):
                for g in fs[i:]:
                    if nonpos(p - f - g):
                        return True
        return False

    def assume(self, c, val=True):
        if isinstance(c, bool):
            if c != val:
                raise PathEnd("infeasible")
            return
        v = val != c.neg
        k = self.known(Cond(c.op, c.x))
        if k is not None:
            if k != v:
                raise PathEnd("infeasible")
            return
        F = self.facts
        F.lit[self._litkey(Cond(c.op, c.x))] = v
        if c.op == "eq0" and v:
            p = F.norm(c.x)
            # solve for an atom that occurs linearly with unit coefficient
            for m, cf in sorted(p.t.items(), reverse=True):
                if len(m) == 1 and m[0][1] == 1 and abs(cf) == 1:
                    a = m[0][0]
                    rest = Poly({mm: cc for mm, cc in p.t.items() if mm != m})
                    if a in rest.atoms():
                        continue
                    F.sub[a] = rest.scale(Fraction(-1) / cf)
                    if a in F.nonneg:
                        F.le.append(-F.sub[a])
                    break
            else:
                F.le.append(p)
                F.le.append(-p)
        elif c.op == "eq0" and not v:
            p = F.norm(c.x)
            # integer tightening: p <= 0 and p != 0 -> p <= -1
            if self._le(p):
                F.le.append(p + ONE)
            elif self._le(-p):
                F.le.append(ONE - p)
        elif c.op == "le0":
            p = F.norm(c.x)
            F.le.append(p if v else ONE - p)
            # p <= 0 and p != 0 known
            q = p if v else ONE - p
            if F.lit.get(self._litkey(Cond("eq0", q))) is False:
                F.le.append(q + ONE)

    def eq(self, a, b):
        """abstract equality of two values"""
        if isinstance(a, Cell):
            a = a.v
        if isinstance(b, Cell):
            b = b.v
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool) and isinstance(b, Poly):
            a = num(int(a))
        if isinstance(b, bool) and isinstance(a, Poly):
            b = num(int(b))
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            t = self.truth(y)
            return t if x else self.neg(t)
        if isinstance(a, Poly) and isinstance(b, Poly):
            p = self.facts.norm(a - b)
            if p.is_const():
                return p.cval() == 0
            return Cond("eq0", p)
        if isinstance(a, (Ptr, _Null)) and isinstance(b, (Ptr, _Null)):
            return self.ptr_eq(a, b)
        if isinstance(a, It) and isinstance(b, It):
            return self.it_eq(a, b)
        if isinstance(a, Str) and isinstance(b, Str):
            return a.s == b.s
        if isinstance(a, Arr) and isinstance(b, Arr) and a.rest is None and b.rest is None:
            if len(a.e) != len(b.e):
                return False
            return self.conj([self.eq_obj(x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, (Obj, MapV, Arr)) or isinstance(b, (Obj, MapV, Arr)):
            return self.eq_obj(a, b)
        if vkey(a) == vkey(b):
            return True
        ka, kb = vkey(a), vkey(b)
        k = (ka, kb) if repr(ka) <= repr(kb) else (kb, ka)
        return Cond("opq", ("eq",) + k)

    def conj(self, cs):
        """conjunction; splits on all but the last unknown"""
        out = True
        unk = []
        for c in cs:
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                k = self.known(c)
                if k is False:
                    return False
                if k is None:
                    unk.append(c)
        for c in unk[:-1]:
            if not self.decide(c):
                return False
        return unk[-1] if unk else out

    def eq_obj(self, a, b):
        """equality through operator== if the class defines one, else structural"""
        if isinstance(a, Cell) and isinstance(b, Cell):
            return self.eq(a.v, b.v)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a is b:
                return True
            h = getattr(self, "obj_eq", None)
            if h:
                r = h(self, a, b)
                if r is not None:
                    return r
            f = self.find_op(a.cls, "operator==")
            if f is not None:
                return self.truth(self.call_fn(f, None, [a, b]) if f["kind"] == "fn" else self.call_fn(f, a, [b]))
            names = sorted(set(a.f) | set(b.f))
            if names:
                return self.conj([self.eq_obj(self.field(a, n), self.field(b, n)) for n in names])
            return Cond("opq", ("eqobj", id(a), id(b)))
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.eq(a, b)
        return self.eq(self.load(a), self.load(b)) if isinstance(a, Cell) or isinstance(b, Cell) else Cond("opq", ("eq", vkey(a), vkey(b)))

    def find_op(self, cls, op):
        for f in self.db.fns.values():
            if f["n"] == op:
                if f["kind"] == "method" and self.db.t(f["ct"]) == cls and len(f["params"]) == 1:
                    return f
                if f["kind"] == "fn" and len(f["params"]) == 2 and strip_cvref(self.db.t(f["params"][0]["t"])) == cls:
                    return f
        return None

    def ptr_eq(self, a, b):
        if a is NULL and b is NULL:
            return True
        if a is NULL or b is NULL:
            p = a if b is NULL else b
            if isinstance(p.b, Place):
                return False
            if isinstance(p.b, tuple) and p.b[0] != "sym":
                return False
            if p.o.t and p.b[0] == "sym":
                return False
            return Cond("opq", ("isnull", p.b))
        h = getattr(self, "ptr_eq_hook", None)
        if h:
            r = h(self, a, b)
            if r is not None:
                return r
        if a.b is b.b or (not isinstance(a.b, Place) and a.b == b.b):
            return self.eq(a.o, b.o)
        if isinstance(a.b, Place) and isinstance(b.b, Place):
            return False
        ka, kb = vkey(a), vkey(b)
        k = (ka, kb) if repr(ka) <= repr(kb) else (kb, ka)
        return Cond("opq", ("ptreq",) + k)

    def it_eq(self, a, b):
        if a.c is not b.c:
            return Cond("opq", ("iteq", vkey(a), vkey(b)))
        if a.p is b.p or (isinstance(a.p, str) and isinstance(b.p, str) and a.p == b.p):
            return True
        if isinstance(a.p, (Poly,)) or isinstance(b.p, (Poly,)):
            pa = self.it_index(a)
            pb = self.it_index(b)
            if pa is not None and pb is not None:
                return self.eq(pa, pb)
        if isinstance(a.p, list) and isinstance(b.p, list):
            return False
        if "end" in (a.p, b.p) if isinstance(a.p, str) or isinstance(b.p, str) else False:
            o = b.p if isinstance(a.p, str) and a.p == "end" else a.p
            if isinstance(o, list):
                return False
        return Cond("opq", ("iteq", vkey(a), vkey(b)))

    def it_index(self, i):
        if isinstance(i.p, Poly):
            return i.p
        if i.p == "end" and isinstance(i.c, Arr):
            return self.arr_len(i.c)
        return None

    def arr_len(self, a):
        if a.rest is None:
            return num(len(a.e))
        n = ("len", a.rest)
        self.facts.nonneg.add(atom_id(n))
        return Poly.atom(n) + num(len(a.e))

    # -- pointers ------------------------------------------------------------------------
    def deref(self, v, t=None):
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, It):
            if isinstance(v.c, MapV):
                if v.p == "end":
                    raise PathEnd("ub", "dereference of end iterator")
                if v.c.isset:
                    return v.p[0] if isinstance(v.p[0], Place) else Cell(v.p[0])
                k = v.p[0]
                return Obj(f"std::pair<{v.c.kt}, {v.c.vt}>", {"first": k if isinstance(k, Place) else Cell(k), "second": v.p[1]})
            if isinstance(v.c, Arr):
                ix = self.it_index(v)
                return self.index(v.c, ix)
        if v is NULL:
            raise PathEnd("ub", "null pointer dereference")
        if isinstance(v, Ptr):
            if self.deref_hook:
                r = self.deref_hook(self, v, t)
                if r is not None:
                    return r
            if isinstance(v.b, Arr):
                return self.index(v.b, v.o)
            if isinstance(v.b, Place):
                if v.o.t:
                    raise Undecided(f"pointer arithmetic on {v!r}")
                return v.b
            k = (v.b, self.facts.norm(v.o))
            p = self.mem.get(k)
            if p is None:
                if t is None:
                    raise Undecided(f"dereference of {v!r}")
                if isinstance(v.b, tuple) and v.b[0] == "sym":
                    self.assume(Cond("opq", ("isnull", v.b)), False)
                p = self.fresh(t, f"*{v.b[1]}" + (f"+{v.o!r}" if v.o.t else ""))
                self.mem[k] = p
            return p
        if isinstance(v, (Obj, Arr)):
            return v
        raise Undecided(f"dereference of {v!r}")

    def index(self, a, i):
        i = self.facts.norm(num(i))
        if isinstance(a, Arr):
            if a.rest is None and i.is_const():
                n = int(i.cval())
                if 0 <= n < len(a.e):
                    return a.e[n]
                raise PathEnd("ub", f"index {n} outside [0,{len(a.e)}) of {a.name or a.cls}")
            if a.rest is not None:
                k = ("elem", a.rest, i)
                p = a.meta.setdefault("els", {}).get(k)
                if p is None:
                    p = self.fresh(a.et, f"{a.rest}[{i!r}]") if a.et else Cell(Term(*k))
                    a.meta["els"] = dict(a.meta["els"])
                    a.meta["els"][k] = p
                return p
            # unknown index into known array: split
            n = self.choose(len(a.e)) if a.e else None
            if n is None:
                raise PathEnd("ub", "index into empty container")
            self.assume(Cond("eq0", i - num(n)))
            return a.e[n]
        raise Undecided(f"index into {a!r}")

    # -- functions -----------------------------------------------------------------------
    def construct_with(self, o, fn, args):
        self.call_fn(fn, o, args)
        return o

    def call_fn(self, fn, this, args, caps=None):
        """inline a function with an analysed body; args: places (by ref) or values"""
        self.stats["calls"] += 1
        self.analysed.add(fn["id"])
        if len(self.frames) > self.MAXDEPTH:
            raise Undecided("call depth exceeded in " + fn["q"])
        if self.rec_hook:
            r = self.rec_hook(self, fn, this, args)
            if r is not None:
                return r[0]
        fr = Frame(fn, this)
        fr.caps = caps
        self.frames.append(fr)
        try:
            ps = fn["params"]
            for i, p in enumerate(ps):
                t = self.db.t(p["t"])
                a = args[i] if i < len(args) else None
                if is_ref(t):
                    fr.vars[p["d"]] = a if isinstance(a, (Place,)) else Cell(a, t)
                else:
                    if isinstance(a, Place) and not isinstance(a, Cell):
                        fr.vars[p["d"]] = a   # prvalue object (already a fresh copy)
                        fr.locals.append(a)
                    elif isinstance(a, Cell):
                        fr.vars[p["d"]] = Cell(a.v, t)
                    else:
                        fr.vars[p["d"]] = Cell(a, t)
                    if self.plain(t):
                        fr.own.append((p.get("n"), fr.vars[p["d"]]))
            if fn["kind"] == "ctor":
                self.run_inits(fn, this)
            ret = None
            try:
                self.stmt(fn["body"])
            except Return as r:
                ret = r.v
            self.end_scope(fr.locals, ret)
            if fn["kind"] == "dtor":
                self.destroy_members(this, fn)
            return ret
        finally:
            self.frames.pop()

    def run_inits(self, fn, this):
        done = set()
        for i in fn.get("inits", []):
            if "n" in i:
                t = self.field_type(this.cls, i["n"])
                this.f[i["n"]] = self.init_place(t or self.db.t(i["e"]["t"]), i["e"], i["n"])
                done.add(i["n"])
            elif "base" in i or i.get("deleg"):
                e = i["e"]
                self.construct_into(this, e)

    def construct_into(self, this, e):
        """run the constructor expression e on existing object `this` (bases, delegation, placement)"""
        while e["k"] in ("tmp",):
            e = e["e"]
        if e["k"] == "ctor":
            f = self.db.fns.get(e["f"])
            x = self.db.ext.get(e["f"], {})
            args = [self.ev_arg(a, self.ptype(x, i)) for i, a in enumerate(e["a"])]
            if e.get("inh"):
                return
            if f is not None and not f.get("defaulted"):
                self.call_fn(f, this, args)
                return
            self.default_ctor_effect(this, e, x, args)
        elif e["k"] in ("list", "zero"):
            bt = self.db.rec_by_t.get(strip_cvref(self.db.t(e["t"])))
            if bt:
                for i, fd in enumerate(bt["fields"]):
                    if e["k"] == "list" and i < len(e["a"]):
                        this.f[fd["n"]] = self.init_place(self.db.t(fd["t"]), e["a"][i], fd["n"])
                    elif "init" in fd:
                        this.f[fd["n"]] = self.init_place(self.db.t(fd["t"]), fd["init"], fd["n"])
                    else:
                        this.f[fd["n"]] = self.zero(self.db.t(fd["t"]))

    def default_ctor_effect(self, this, e, x, args):
        kind = x.get("ctor")
        if kind in ("copy", "move") and args:
            src = args[0]
            c = self.copy(src, kind == "move")
            if isinstance(c, Obj):
                this.f.update(c.f)
                if c.cls == "lambda":
                    this.cls = "lambda"
                for k, x in c.meta.items():
                    this.meta.setdefault(k, x)
            return
        if kind == "default" or not args:
            r = self.db.rec_by_t.get(strip_cvref(self.db.t(e["t"])))
            self.default_fields(this, r)
            if e.get("zero"):
                self._zero_fill(this)

    def default_fields(self, o, r):
        if r is None:
            return
        for b in r["bases"]:
            br = self.db.recs.get(b.get("id"))
            if br is not None:
                cf = None
                for m in br["methods"]:
                    if m.get("sm") == "defctor" and not m.get("defaulted"):
                        cf = self.db.fns.get(m["id"])
                if cf:
                    self.call_fn(cf, o, [])
                else:
                    self.default_fields(o, br)
        for f in r["fields"]:
            if "init" in f:
                o.f[f["n"]] = self.init_place(self.db.t(f["t"]), f["init"], f["n"])
            else:
                t = self.db.t(f["t"])
                if not is_ref(t):
                    o.f[f["n"]] = self.default_construct(t)

    def default_construct(self, t, name=None):
        p = self.uninit(t, name)
        self.default_elements(p)
        if isinstance(p, Obj) and not p.f:
            r = self.db.rec_by_t.get(p.cls)
            if r is not None:
                for m in r["methods"]:
                    if m.get("sm") == "defctor":
                        f = self.db.fns.get(m["id"])
                        if f is not None and not m.get("defaulted"):
                            self.call_fn(f, p, [])
                            return p
                self.default_fields(p, r)
        return p

    def default_elements(self, p):
        """elements of class type inside library aggregates are default constructed"""
        if isinstance(p, Arr):
            for i, x in enumerate(p.e):
                if isinstance(x, Obj) and x.cls in self.db.rec_by_t and not x.f:
                    p.e[i] = self.default_construct(x.cls)
                else:
                    self.default_elements(x)
        elif isinstance(p, Obj) and p.cls not in self.db.rec_by_t and not p.lazy:
            for k, x in p.f.items():
                if isinstance(x, Obj) and x.cls in self.db.rec_by_t and not x.f:
                    p.f[k] = self.default_construct(x.cls)
                else:
                    self.default_elements(x)

    # -- destruction ---------------------------------------------------------------------
    def dtor_of(self, cls):
        r = self.db.rec_by_t.get(cls)
        if r is None:
            return None
        for m in r["methods"]:
            if m.get("sm") == "dtor" and not m.get("defaulted"):
                return self.db.fns.get(m["id"])
        return None

    def destroy(self, p):
        h = getattr(self, "destroy_hook", None)
        if h and h(self, p):
            return
        if isinstance(p, Obj) and p.cls == "lambda":
            for d, x in (p.meta.get("caps") or {}).items():
                if d not in p.meta.get("refs", ()) and isinstance(x, (Obj, Arr, MapV)):
                    self.destroy(x)
        elif isinstance(p, Obj):
            f = self.dtor_of(p.cls)
            if f is not None:
                self.call_fn(f, p, [])
            else:
                self.destroy_members(p, None)
        elif isinstance(p, Arr):
            for e in p.e:
                self.destroy(e)
        elif isinstance(p, MapV):
            for en in p.ents:
                for e in en[:2]:
                    if isinstance(e, (Obj, Arr, MapV)):
                        self.destroy(e)

    def destroy_members(self, o, fn):
        if not isinstance(o, Obj):
            return
        r = self.db.rec_by_t.get(o.cls)
        for k, x in list(o.f.items()):
            ft = self.field_type(o.cls, k)
            if ft and (is_ref(ft) or ft.endswith("*")):
                continue
            if isinstance(x, (Obj, Arr, MapV)):
                self.destroy(x)

    def end_scope(self, locs, ret=None):
        for p in reversed(locs):
            if p is ret:
                continue
            self.destroy(p)
            self.end_life(p)

    def end_life(self, p):
        """the objects of a variable that went out of scope"""
        for x in self.parts(p):
            if isinstance(x, Obj) and x.cls in self.db.rec_by_t:
                x.alive = False

    HOLDERS = ("std::vector", "std::array", "carray", "std::deque", "std::string", "std::optional")

    def parts(self, p):
        """a variable and what is stored in it (not what it refers to)"""
        yield p
        if isinstance(p, Obj) and p.cls in self.db.rec_by_t:
            for k, x in list(p.f.items()):
                ft = self.field_type(p.cls, k)
                if ft and not is_ref(ft) and isinstance(x, Place):
                    yield from self.parts(x)
        elif isinstance(p, Arr) and p.cls in self.HOLDERS:
            for x in p.e:
                if isinstance(x, Place):
                    yield from self.parts(x)
        elif isinstance(p, Cell) and isinstance(p.v, (Obj, Arr)):
            yield from self.parts(p.v)

    def plain(self, t):
        t = strip_cvref(t)
        return "&" not in t and (t in self.db.rec_by_t or base_name(t) in self.HOLDERS or t.endswith("]") or t.endswith("*")
                                 or t in ("int", "double", "float", "bool", "char", "unsigned int", "unsigned long", "long"))

    def check_return(self, fr, rt, v, e):
        """a function hands out no reference or pointer to (a part of) a variable of its own"""
        if not fr.own:
            return
        if is_ref(rt):
            out = [v] if isinstance(v, Place) else []
        elif isinstance(v, Ptr):
            out = [v.b]
        elif isinstance(v, It):
            out = [v.c]
        elif isinstance(v, Obj) and v.cls in self.db.rec_by_t:
            out = [x for k, x in v.f.items() if is_ref(self.field_type(v.cls, k) or "") and isinstance(x, Place)]
            out += [x.v.b for x in v.f.values() if isinstance(x, Cell) and isinstance(x.v, Ptr)]
        else:
            return
        ids = {id(x) for x in out}
        if not ids:
            return
        for name, p in fr.own:
            if p is v and not is_ref(rt):
                continue
            if any(id(x) in ids for x in self.parts(p)):
                self.dangling.append((f"{self.db.rel(fr.fn)}:{e.get('l')} ({fr.fn['q']})", name))
                raise PathEnd("ub", f"{base_name(fr.fn['q'])} (line {e.get('l')}) hands out a reference to (a part of) its own variable {name}, which is gone when it returns")

    # -- statements ----------------------------------------------------------------------
    def stmt(self, s):
        if s is None:
            return
        self.stats["steps"] += 1
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Undecided(f"statement {k} at line {s.get('l')}")
        return m(s)

    def s_block(self, s):
        fr = self.frames[-1]
        mark = len(fr.locals)
        try:
            for x in s["s"]:
                self.stmt(x)
        except Return as r:
            locs = fr.locals[mark:]
            del fr.locals[mark:]
            self.end_scope(locs, r.v)
            raise
        except (Break, Continue):
            locs = fr.locals[mark:]
            del fr.locals[mark:]
            self.end_scope(locs)
            raise
        locs = fr.locals[mark:]
        del fr.locals[mark:]
        self.end_scope(locs)

    def s_expr(self, s):
        self.full(s["e"])

    def full(self, e):
        """evaluate a full expression, then destroy its temporaries"""
        fr = self.frames[-1]
        mark = len(fr.temps)
        v = self.ev(e)
        self.drop_temps(fr, mark, v)
        return v

    def drop_temps(self, fr, mark, keep=None):
        ts = fr.temps[mark:]
        del fr.temps[mark:]
        for p in reversed(ts):
            if p is not keep:
                self.destroy(p)
                self.end_life(p)

    def adopt(self, v):
        fr = self.frames[-1]
        for i in range(len(fr.temps) - 1, -1, -1):
            if fr.temps[i] is v:
                del fr.temps[i]
                return True
        return False

    def s_decl(self, s):
        fr = self.frames[-1]
        for v in s["v"]:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        t = self.db.t(v["t"])
        if v.get("static"):
            key = ("static", v["d"])
            if key in self.globals:
                fr.vars[v["d"]] = self.globals[key]
                return
        mark = len(fr.temps)
        if "init" in v:
            p = self.init_place(t, v["init"], v["n"])
            owned = not is_ref(t)
            if is_ref(t) and self.adopt(p):
                owned = True
        else:
            p = self.default_construct(t, v["n"]) if not is_ref(t) else None
            owned = True
        if isinstance(p, Cell) and p.name is None:
            p.name = v["n"]
        self.drop_temps(fr, mark, p)
        if v.get("static"):
            self.globals[("static", v["d"])] = p
            owned = False
        fr.vars[v["d"]] = p
        if owned and isinstance(p, Place) and self.plain(t):
            fr.own.append((v["n"], p))
        if owned and isinstance(p, (Obj, Arr, MapV)):
            fr.locals.append(p)
        for b in v.get("binds", []):
            if "e" in b:
                fr.binds[b["d"]] = b["e"]

    def init_place(self, t, e, name=None):
        """initialise a new variable/member of type t from expression e"""
        if is_ref(t):
            v = self.ev(e)
            return v if isinstance(v, Place) else Cell(v, t)
        if e["k"] == "list":
            return self.ev_list(e, t)
        v = self.ev(e)
        if isinstance(v, Cell):
            # prvalue string/scalar
            return Cell(v.v, t, name)
        if isinstance(v, (Obj, Arr, MapV)):
            self.adopt(v)
            return v
        return Cell(v, t, name)

    def s_if(self, s):
        fr = self.frames[-1]
        mark = len(fr.locals)
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cvar"):
            self.declare(s["cvar"])
        if self.is_assert(s):
            return
        c = self.full(s["c"])
        try:
            if self.decide(c):
                self.stmt(s["x"])
            elif s.get("y"):
                self.stmt(s["y"])
        finally:
            locs = fr.locals[mark:]
            del fr.locals[mark:]
            self.end_scope(locs)

    def is_assert(self, s):
        return False

    def s_ret(self, s):
        e = s.get("e")
        if e is None:
            raise Return(None)
        fr = self.frames[-1]
        rt = self.db.t(fr.fn["ret"])
        mark = len(fr.temps)
        if is_ref(rt):
            v = self.ev(e)
        elif e["k"] == "list":
            v = self.ev_list(e, rt)
        else:
            v = self.ev(e)
            if isinstance(v, Cell):
                v = v.v
        self.adopt(v)
        self.drop_temps(fr, mark, v)
        if is_ref(rt) or isinstance(v, (Ptr, It, Obj)):
            self.check_return(fr, rt, v, e)
        raise Return(v)

    def s_break(self, s):
        raise Break()

    def s_continue(self, s):
        raise Continue()

    def s_nop(self, s):
        pass

    def s_ostmt(self, s):
        raise Undecided("statement " + s["cls"])

    def s_label(self, s):
        self.stmt(s["s"])

    def s_try(self, s):
        self.stmt(s["b"])

    # loops
    def s_while(self, s):
        self.loop(lambda: self.full(s["c"]), lambda: self.stmt(s["b"]), None, s)

    def s_do(self, s):
        first = [True]

        def cond():
            if first[0]:
                first[0] = False
                return True
            return self.full(s["c"])
        self.loop(cond, lambda: self.stmt(s["b"]), None, s, dowhile=True)

    def s_for(self, s):
        fr = self.frames[-1]
        mark = len(fr.locals)
        if s.get("init"):
            self.stmt(s["init"])
        self.loop((lambda: self.full(s["c"])) if s.get("c") else (lambda: True), lambda: self.stmt(s["b"]),
                  (lambda: self.full(s["inc"])) if s.get("inc") else None, s)
        locs = fr.locals[mark:]
        del fr.locals[mark:]
        self.end_scope(locs)

    def s_forrange(self, s):
        fr = self.frames[-1]
        mark = len(fr.temps)
        rv = self.ev(s["range"])
        own = any(t is rv for t in fr.temps[mark:])
        self.drop_temps(fr, mark, rv)

        def leave(ret=None):
            if own and rv is not ret:
                self.destroy(rv)
        try:
            self.forrange(s, rv, fr)
        except Return as r:
            leave(r.v)
            raise
        except (Break, Continue):
            leave()
            raise
        leave()

    def range_step(self, s, x):
        """one iteration of a range-for; True: leave the loop"""
        fr = self.frames[-1]
        mark = len(fr.locals)
        p = self.bind_loopvar(s["var"], x)
        if p is not None:
            fr.locals.append(p)
        try:
            self.body(s["b"])
        except Return as r:
            locs = fr.locals[mark:]
            del fr.locals[mark:]
            self.end_scope(locs, r.v)
            raise
        except Break:
            self.close(fr, mark)
            return True
        except Continue:
            pass
        self.close(fr, mark)
        return False

    def close(self, fr, mark):
        locs = fr.locals[mark:]
        del fr.locals[mark:]
        self.end_scope(locs)

    def forrange(self, s, rv, fr):
        c = rv.v if isinstance(rv, Cell) and not isinstance(rv.v, (Poly, Term)) else rv
        h = self.loop_hook(s, c)
        if h:
            return
        if isinstance(c, Arr) and c.rest is None:
            for x in list(c.e):
                if self.range_step(s, x):
                    break
            return
        if isinstance(c, MapV) and c.rest is None:
            from intrinsics import map_order
            map_order(self, c)
            for en in list(c.ents):
                if not any(en is z for z in c.ents):
                    continue
                if self.range_step(s, self.deref(It(c, en))):
                    break
            return
        if isinstance(c, (Arr, MapV)):
            # unknown contents: one arbitrary element after widening, any number of times
            self.abstract_range(s, c)
            return
        # user-defined range: evaluate begin/end protocol as written by the compiler
        if s.get("rs"):
            # bind __range
            for v in s["rs"]["v"]:
                fr.vars[v["d"]] = rv if isinstance(rv, Place) else Cell(rv)
        self.stmt(s["begin"])
        self.stmt(s["end"])

        def body():
            self.declare(s["var"])
            self.body(s["b"])
        self.loop(lambda: self.full(s["c"]), body, lambda: self.full(s["inc"]), s)

    def loop_hook(self, s, c):
        return False

    def bind_loopvar(self, v, place):
        fr = self.frames[-1]
        own = None
        t = self.db.t(v["t"])
        if is_ref(t):
            fr.vars[v["d"]] = place
        else:
            c = self.copy(place) if isinstance(place, Place) else Cell(place)
            fr.vars[v["d"]] = c
            own = c if isinstance(c, (Obj, Arr, MapV)) else None
        for b in v.get("binds", []):
            if "e" in b:
                fr.binds[b["d"]] = b["e"]
        return own

    def body(self, b):
        self.stmt(b)

    def abstract_range(self, s, c):
        self.stats["widened"] += 1
        n = self.choose(2)
        if n == 0:
            self.event("loop-empty", s)
            return

        def one():
            x = self.arbitrary_element(c)
            self.bind_loopvar(s["var"], x)
            try:
                self.body(s["b"])
            except Continue:
                pass
        # first pass: collect writes; second: from the widened state
        ws = self.recorded(one)
        if ws == "break":
            return
        self.havoc(ws)
        try:
            one()
        except Break:
            return
        self.havoc(ws)

    def arbitrary_element(self, c):
        nm = self.fresh_name("el")
        if isinstance(c, Arr):
            return self.fresh(c.et, f"{c.rest}[{nm}]")
        k = self.fresh(c.kt, f"{c.rest}.k{nm}")
        en = [k, self.fresh(c.vt, f"{c.rest}.v{nm}") if c.vt else None]
        c.ents.append(en)
        return self.deref(It(c, en))

    def recorded(self, fn):
        w = []
        if self.widx is None:
            self.widx = []
        self.widx.append(w)
        try:
            fn()
        except Break:
            return "break"
        finally:
            self.widx.remove(w)
            if not self.widx:
                self.widx = None
        return w

    def havoc(self, ws):
        seen = set()
        for p in ws:
            if id(p) in seen:
                continue
            seen.add(id(p))
            if isinstance(p, Cell):
                n = self.fresh_name("w")
                if p.t and isinstance(p.t, str):
                    h = self.fresh(p.t, n)
                    p.v = h.v if isinstance(h, Cell) else Term("w", n)
                elif isinstance(p.v, Poly):
                    p.v = Poly.atom(n)
                elif isinstance(p.v, (bool, Cond)):
                    p.v = Cond("opq", n)
                else:
                    p.v = Term("w", n)
            elif isinstance(p, Arr):
                if p.cls in ("std::array", "carray"):
                    continue
                p.rest = self.fresh_name("w")
                p.e = []
            elif isinstance(p, MapV):
                p.rest = p.rest or self.fresh_name("w")
            elif isinstance(p, Obj):
                pass

    def loop(self, cond, body, inc, s, dowhile=False):
        """concrete trip counts are unrolled; otherwise widening + one arbitrary iteration"""
        it = 0
        while True:
            c = self.truth(cond())
            if not isinstance(c, bool):
                k = self.known(c)
                if k is None:
                    break
                c = k
            if not c:
                return
            it += 1
            if it > self.MAXITER:
                raise Undecided(f"loop at line {s['l']} does not terminate abstractly")
            try:
                body()
            except Break:
                return
            except Continue:
                pass
            if inc:
                inc()
        # undecided exit: c is a Cond
        self.stats["widened"] += 1
        self.event("loop", s)
        if not self.decide(c):
            return
        brk = [False]

        def one():
            try:
                body()
            except Continue:
                pass
            except Break:
                brk[0] = True
                return
            if inc:
                inc()
        ws = self.recorded(one)
        if brk[0]:
            return
        self.havoc(ws)
        self.event("widen", s)
        c2 = self.truth(cond())
        if not self.decide(c2):
            return
        one()
        if brk[0]:
            return
        self.havoc(ws)
        c3 = self.truth(cond())
        self.assume(c3, False) if not isinstance(c3, bool) else None
        if c3 is True:
            raise PathEnd("infeasible")

    def s_switch(self, s):
        v = self.full(s["c"])
        if isinstance(v, Cell):
            v = v.v
        body = s["b"]["s"] if s["b"]["k"] == "block" else [s["b"]]
        # flatten nested case labels
        flat = []
        for x in body:
            while x["k"] in ("case", "default"):
                flat.append((x["k"], x.get("e")))
                x = x["s"]
            flat.append(("stmt", x))
        start = None
        dflt = None
        for i, (k, e) in enumerate(flat):
            if k == "case":
                if start is None and self.decide(self.eq(v, self.ev(e))):
                    start = i
            elif k == "default":
                dflt = i
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == "stmt":
                    self.stmt(x)
        except Break:
            pass

    # -- expressions ---------------------------------------------------------------------
    def ev(self, e):
        k = e["k"]
        cv = e.get("cv")
        if cv is not None and k not in ("asg", "casg"):
            t = self.db.t(e["t"])
            if t == "bool":
                return cv not in ("0", "false")
            if not is_ref(t):
                return Poly.const(int(cv))
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Undecided(f"expression {k} line {e.get('l')}")
        return m(e)

    def val(self, e):
        return self.load(self.ev(e))

    def e_int(self, e):
        return Poly.const(int(e["v"]))

    def e_bool(self, e):
        return bool(e["v"])

    def e_float(self, e):
        sp = e.get("sp", e["v"]).rstrip("fFlL").replace("'", "")
        try:
            return Poly.const(Fraction(sp))
        except ValueError:
            return Poly.const(Fraction(e["v"]))

    def e_str(self, e):
        return Str(e.get("v", ""))

    def e_null(self, e):
        return NULL

    def e_this(self, e):
        fr = self.frames[-1]
        return Ptr(fr.this)

    def lookup(self, d):
        for fr in (self.frames[-1],):
            if d in fr.vars:
                return fr.vars[d]
            if fr.caps and d in fr.caps:
                return fr.caps[d]
        return None

    def e_ref(self, e):
        dk = e["dk"]
        if dk == "fn":
            return Fn(e["d"])
        if dk == "enum":
            return Poly.const(int(e["v"]))
        if dk == "bind":
            p = self.lookup(e["d"])
            if p is not None:
                return p
            b = self.frames[-1].binds.get(e["d"]) or e.get("b")
            if b is None:
                raise Undecided("binding " + e["n"])
            return self.ev(b)
        if dk in ("parm", "var", "slocal"):
            p = self.lookup(e["d"])
            if p is None:
                p = self.globals.get(("static", e["d"]))
            if p is None:
                raise Undecided(f"variable {e['n']} not in scope")
            return p
        if dk in ("gvar", "smem"):
            return self.global_var(e["d"], e)
        if dk == "tpo":
            return self.from_ap(e["av"], self.db.t(e["t"]))
        raise Undecided("reference to " + dk)

    def global_var(self, d, e):
        p = self.globals.get(("g", d))
        if p is None:
            v = self.db.vars.get(d)
            if v is not None and v.get("av") is not None:
                try:
                    p = self.from_ap(v["av"], self.db.t(v["t"]))
                    p = p if isinstance(p, Place) else Cell(p, self.db.t(v["t"]))
                except Undecided:
                    if "init" not in v:
                        raise
            if p is not None:
                pass
            elif v is not None and "init" in v and (v.get("const") or self.db.in_repo(v)):
                # (a variable of the library that can change: what it holds when the program starts)
                fr = Frame({"ret": 0, "q": "init"})
                self.frames.append(fr)
                try:
                    p = self.init_place(self.db.t(v["t"]), v["init"])
                finally:
                    self.frames.pop()
            else:
                h = getattr(self, "gvar_hook", None)
                p = h(self, e) if h else None
                if p is None:
                    p = self.fresh(self.db.t(e["t"]), e.get("q", e.get("n")))
            self.globals[("g", d)] = p
        return p

    def from_ap(self, av, t):
        t = strip_cvref(t) if t else ""
        if av is None:
            raise Undecided("constant")
        if t.startswith("pyre::tensor::Tensor<"):
            import tensors
            a = tensors.new(t)
            vals = list(ap_leaves(av))
            if len(vals) < len(a.e):
                raise Undecided(f"constant of type {t}")
            for c, x in zip(a.e, vals):
                c.v = x
            return a
        if isinstance(av, list):
            et = None
            b, ta = tmpl(t)
            if t.endswith("]"):
                et = t[:t.rindex("[")]
            return Arr([self._pl(self.from_ap(x, et)) for x in av], et, "carray")
        if "i" in av:
            return (av["i"] != "0") if t == "bool" else Poly.const(int(av["i"]))
        if "f" in av:
            return Poly.const(Fraction(float.fromhex(av["f"])))
        if "s" in av:
            b, ta = tmpl(t)
            if b == "std::array":
                inner = av["s"][0] if av["s"] else []
                if isinstance(inner, list):
                    return Arr([self._pl(self.from_ap(x, ta[0])) for x in inner], ta[0], "std::array")
            if b == "std::pair":
                return Obj(t, {"first": self._pl(self.from_ap(av["s"][0], ta[0])), "second": self._pl(self.from_ap(av["s"][1], ta[1]))})
            r = self.db.rec_by_t.get(t)
            if r and r.get("lambda") and r["fields"]:
                raise Undecided("a constant closure")
            o = Obj(t)
            if r:
                for f, x in zip(r["fields"], av["s"]):
                    o.f[f["n"]] = self._pl(self.from_ap(x, self.db.t(f["t"])))
                return o
        raise Undecided(f"constant of type {t}")

    def _pl(self, v):
        return v if isinstance(v, Place) else Cell(v)

    def e_mem(self, e):
        if e.get("sm"):
            return self.global_var(e["d"], e)
        if e.get("m"):
            return ("method", self.ev(e["b"]), e["d"])
        b = self.ev(e["b"])
        if e.get("arrow"):
            b = self.deref(b, self.pointee(self.db.t(e["b"]["t"])))
        if isinstance(b, Obj) and not b.alive:
            fn = self.frames[-1].fn
            if not Bounds.turned:
                self.dead.append((f"{self.db.rel(fn)}:{e.get('l')} ({fn['q']})", f"{base_name(b.cls)}::{e['n']}"))
            raise PathEnd("ub", f"member {e['n']} of an object that went out of scope is used (line {e.get('l')})")
        rc = self.db.t(e["rc"]) if "rc" in e else None
        ft = None
        if rc:
            ft = self.field_type(rc, e["n"])
            if ft is None:
                ft = self.db.t(e["t"])
        return self.field(b, e["n"], ft)

    def pointee(self, t):
        t = strip_cvref(t)
        return strip_cvref(t[:-1]) if t.endswith("*") else None

    def e_ld(self, e):
        p = self.ev(e["e"])
        if isinstance(p, Cell):
            return p.v
        return p

    def e_decay(self, e):
        p = self.ev(e["e"])
        if isinstance(p, Cell) and isinstance(p.v, (Str, Term)):
            return p.v
        return Ptr(p) if isinstance(p, Arr) else p

    def e_tmp(self, e):
        v = self.ev(e["e"])
        if isinstance(v, (Obj, Arr, MapV)):
            self.frames[-1].temps.append(v)
        return v

    def e_un(self, e):
        op = e["op"]
        if op == "*":
            v = self.val(e["e"])
            if isinstance(v, Fn):
                return v
            return self.deref(v, self.pointee(self.db.t(e["e"]["t"])) if "t" in e["e"] else None)
        if op == "&":
            p = self.ev(e["e"])
            if isinstance(p, (Fn, tuple)):
                return p
            return self.addr(p)
        if op in ("++", "--"):
            p = self.ev(e["e"])
            old = self.load(p)
            new = self.add(old, ONE if op == "++" else -ONE)
            if isinstance(new, Poly) and new.is_const() and new.cval() < 0:
                new = fit(new, self.db.t(e["t"]))
            self.write(p, new)
            return old if e.get("post") else p
        v = self.val(e["e"])
        if op == "!":
            return self.neg(self.truth(v))
        if op == "-":
            t = self.db.t(e["t"])
            return fit(-self.n(v), t) if t.startswith("unsigned") else -self.n(v)
        if op == "+":
            return v
        raise Undecided("unary " + op)

    def addr(self, p):
        m = getattr(p, "name", None)
        h = getattr(self, "addr_hook", None)
        if h:
            r = h(self, p)
            if r is not None:
                return r
        return Ptr(p)

    def n(self, v):
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return num(int(v))
        if isinstance(v, Cond):
            k = self.known(v)
            if k is not None:
                return num(int(k))
            return Poly.atom(("b",) + (v.op, vkey(v.x), v.neg))
        if isinstance(v, Term):
            return Poly.atom(v.k)
        if isinstance(v, Ptr):
            return Poly.atom(("addr", vkey(v)))
        if v is NULL:
            return ZERO
        raise Undecided(f"number from {v!r}")

    def add(self, a, b):
        if isinstance(a, Cell):
            a = a.v
        if isinstance(b, Cell):
            b = b.v
        if isinstance(b, (Ptr, It)) and isinstance(a, Poly):
            a, b = b, a
        if isinstance(a, (Ptr, It)) and isinstance(b, Poly) and b.is_const() and b.cval() >= 1 << 63:
            # an unsigned offset that stands for a negative one
            b = Poly.const(b.cval() - (1 << 64))
        if isinstance(a, Ptr):
            return Ptr(a.b, a.o + self.n(b))
        if a is NULL:
            if isinstance(b, Poly) and not b.t:
                return NULL
            return Ptr(("nullplus",), self.n(b))
        if isinstance(a, It):
            return self.it_add(a, self.n(b))
        return self.n(a) + self.n(b)

    def it_add(self, a, n):
        if isinstance(a.c, Arr):
            ix = self.it_index(a)
            return It(a.c, ix + n)
        if isinstance(a.c, MapV) and a.c.rest is None and n.is_const():
            k = int(n.cval())
            i = next((j for j, en in enumerate(a.c.ents) if en is a.p), len(a.c.ents)) + k
            return It(a.c, a.c.ents[i] if i < len(a.c.ents) else "end")
        raise Undecided("iterator arithmetic")

    def e_asg(self, e):
        # evaluate right operand first (C++17)
        v = self.ev(e["y"])
        if isinstance(v, Cell):
            v = v.v
        p = self.ev(e["x"])
        if isinstance(p, Cell):
            self.write(p, v)
        else:
            self.assign(p, v)
        return p

    def e_casg(self, e):
        v = self.val(e["y"])
        p = self.ev(e["x"])
        old = self.load(p)
        t = self.db.t(e["t"])
        ct = self.db.t(e["ct"]) if "ct" in e else t
        r = self.arith(e["op"], old, v, ct)
        if ct != t and isinstance(r, Poly):
            if strip_cvref(ct) in REAL_TYPES and strip_cvref(t) not in REAL_TYPES:
                r = self.trunc(r)
            r = fit(r, t)
        self.write(p, r)
        return p

    def e_bin(self, e):
        op = e["op"]
        if op == "&&":
            a = self.truth(self.val(e["x"]))
            if a is False:
                return False
            if a is not True and not self.decide(a):
                return False
            return self.truth(self.val(e["y"]))
        if op == "||":
            a = self.truth(self.val(e["x"]))
            if a is True:
                return True
            if a is not False and self.decide(a):
                return True
            return self.truth(self.val(e["y"]))
        if op == ",":
            self.ev(e["x"])
            return self.ev(e["y"])
        a = self.val(e["x"])
        b = self.val(e["y"])
        r = self.arith(op, a, b, self.db.t(e["t"]), self.db.t(e["x"]["t"]) if "t" in e["x"] else None)
        if op in RELATIONAL:
            k = Bounds.of(self, e)
            if k:
                if k in Bounds.turned:
                    Bounds.hit = True
                    return Bounds.turned[k]
                Bounds.seen.setdefault(k, set()).add(r if isinstance(r, bool) else None)
        return r

    def cmp(self, op, a, b, t=None):
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return self.neg(self.eq(a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.b is b.b or (not isinstance(a.b, Place) and a.b == b.b):
                a, b = a.o, b.o
            else:
                h = getattr(self, "ptr_lt_hook", None)
                if h:
                    r = h(self, op, a, b)
                    if r is not None:
                        return r
                a, b = self.n(a), self.n(b)
        if isinstance(a, It) and isinstance(b, It):
            a, b = self.it_index(a), self.it_index(b)
        if isinstance(a, Str) and isinstance(b, Str):
            return {"<": a.s < b.s, ">": a.s > b.s, "<=": a.s <= b.s, ">=": a.s >= b.s}[op]
        a, b = self.n(a), self.n(b)
        real = t is not None and strip_cvref(t) in REAL_TYPES
        if op == "<":
            p, strict = a - b, True
        elif op == ">":
            p, strict = b - a, True
        elif op == "<=":
            p, strict = a - b, False
        else:
            p, strict = b - a, False
        p = self.facts.norm(p)
        if p.is_const():
            return p.cval() < 0 if strict else p.cval() <= 0
        if real:
            # a<b  <=>  not (b<=a): keep one canonical form
            return Cond("le0r", -p, True) if strict else Cond("le0r", p)
        return Cond("le0", p + ONE) if strict else Cond("le0", p)

    def arith(self, op, a, b, t, xt=None):
        r = self.arith1(op, a, b, t, xt)
        if isinstance(r, Poly) and t is not None and (t == "float" or t.startswith("unsigned")):
            return fit(r, t)
        return r

    def arith1(self, op, a, b, t, xt=None):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(op, a, b, xt)
        if op == "<=>":
            return Obj("ordering", {"a": Cell(a), "b": Cell(b)})
        if op == "+":
            return self.add(a, b)
        if op == "-":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.b is b.b or (not isinstance(a.b, Place) and a.b == b.b):
                    return a.o - b.o
                return self.n(a) - self.n(b)
            if isinstance(a, It) and isinstance(b, It):
                return self.it_index(a) - self.it_index(b)
            if isinstance(a, (Ptr, It)):
                return self.add(a, -self.n(b))
            return self.n(a) - self.n(b)
        if op == "*":
            return self.n(a) * self.n(b)
        real = strip_cvref(t) in REAL_TYPES
        if op == "/":
            a, b = self.facts.norm(self.n(a)), self.facts.norm(self.n(b))
            if b.is_const() and b.cval() != 0:
                if real:
                    return a.scale(Fraction(1) / b.cval())
                if a.is_const():
                    q = abs(a.cval()) // abs(b.cval())
                    return Poly.const(q if (a.cval() >= 0) == (b.cval() > 0) else -q)
            if real:
                return a * self.recip(b)
            return Poly.atom(("idiv", a, b))
        if op == "%":
            a, b = self.facts.norm(self.n(a)), self.facts.norm(self.n(b))
            if a.is_const() and b.is_const() and b.cval() != 0:
                r = abs(a.cval()) % abs(b.cval())
                return Poly.const(r if a.cval() >= 0 else -r)
            return Poly.atom(("imod", a, b))
        a, b = self.n(a), self.n(b)
        if a.is_const() and b.is_const():
            x, y = int(a.cval()), int(b.cval())
            if op == "<<":
                return num(x << y)
            if op == ">>":
                return num(x >> y)
            if op == "&":
                return num(x & y)
            if op == "|":
                return num(x | y)
            if op == "^":
                return num(x ^ y)
        return Poly.atom(("op" + op, a, b))

    def recip(self, b):
        """1/b as an atom in canonical scaling"""
        p = _prim(b)
        c = Fraction(b.t[max(b.t)]) / p.t[max(p.t)]
        # a monomial reciprocal distributes over its atoms
        return Poly.atom(("inv", p)).scale(Fraction(1) / c)

    def e_cond(self, e):
        x, y = e["x"], e["y"]
        if self.ignore_asserts and not self.decide_asserts and self._is_abort(y):
            # the condition of an assertion is not part of the analysed behaviour
            return None
        c = self.val(e["c"])
        if self._is_abort(y):
            if self.decide_asserts:
                if not self.decide(self.truth(c)):
                    raise PathEnd("abort", f"assertion at line {e['l']} fails")
                return None
            return None if self.ignore_asserts else self._assert(c)
        if self._is_abort(x):
            return None
        return self.ev(x) if self.decide(c) else self.ev(y)

    def _is_abort(self, e):
        for n in walk(e):
            if n["k"] == "call" and n.get("f") in self.db.ext and self.db.ext[n["f"]]["n"] == "__assert_fail":
                return True
        return False

    def _assert(self, c):
        self.assume(self.truth(c), True)
        return None

    def e_idx(self, e):
        b = self.val(e["b"])
        i = self.val(e["i"])
        if isinstance(b, Ptr):
            return self.deref(Ptr(b.b, b.o + self.n(i)), strip_cvref(self.db.t(e["t"])))
        return self.index(b, self.n(i))

    def e_cast(self, e):
        ck = e["ck"]
        if ck == "ToVoid":
            self.ev(e["e"])
            return None
        v = self.ev(e["e"])
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic", "LValueBitCast",
                  "FunctionToPointerDecay", "UserDefinedConversion", "ConstructorConversion"):
            return v
        if ck == "LValueToRValue":
            return self.load(v)
        v = self.load(v) if isinstance(v, Cell) else v
        t = self.db.t(e["t"])
        if ck == "NullToPointer":
            return NULL
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            return self.truth(v)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast"):
            if t == "bool":
                return self.truth(v)
            h = getattr(self, "narrow_hook", None)
            if h:
                return h(self, self.n(v), self.db.t(e["e"]["t"]) if "t" in e["e"] else None, t)
            return fit(self.n(v), t)
        if ck == "FloatingToIntegral":
            v = self.n(v)
            return fit(self.trunc(v), t)
        if ck == "BitCast":
            return v
        if ck in ("PointerToIntegral",):
            h = getattr(self, "ptr2int", None)
            return h(self, v) if h else v
        if ck in ("IntegralToPointer",):
            h = getattr(self, "int2ptr", None)
            return h(self, v) if h else v
        if ck == "ArrayToPointerDecay":
            return Ptr(v)
        raise Undecided("cast " + ck)

    def trunc(self, v):
        return Poly.const(int(v.cval())) if v.is_const() else Poly.atom(("trunc", v))

    def e_lambda(self, e):
        caps = {}
        o = Obj("lambda")
        fr = self.frames[-1]
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = fr.this
                continue
            p = self.lookup(c["d"])
            if p is None and c["d"] in fr.binds:
                p = self.ev(fr.binds[c["d"]])
            if p is None and c.get("init"):
                if not c.get("ref"):
                    caps[c["d"]] = self.init_place("", c["init"])
                    continue
                p = self.ev(c["init"])
            if p is None:
                p = self.globals.get(("static", c["d"]))
            if p is None:
                continue
            if c.get("ref"):
                o.meta.setdefault("refs", set()).add(c["d"])
            caps[c["d"]] = p if c.get("ref") else (self.copy(p) if isinstance(p, Place) else Cell(p))
        o.meta["caps"] = caps
        o.meta["this"] = this
        o.meta["f"] = e["f"]
        o.meta["cls"] = e["cls"]
        return o

    def call_lambda(self, o, args, fid=None):
        f = self.db.fns.get(fid if fid is not None else o.meta["f"])
        if f is None:
            # generic lambda: pick the instantiation with the matching arity
            c = [g for g in self.db.fns.values() if g.get("cls") == o.meta["cls"] and g["n"] == "operator()"]
            if not c:
                raise Undecided("lambda body not available")
            f = c[0]
        return self.call_fn(f, o.meta["this"], args, caps=o.meta["caps"])

    def call_value(self, fnv, args):
        if isinstance(fnv, Cell):
            fnv = fnv.v
        if isinstance(fnv, Obj) and fnv.cls == "lambda":
            return self.call_lambda(fnv, args)
        if isinstance(fnv, NativeFn):
            return fnv.f(*args)
        if isinstance(fnv, Fn):
            f = self.db.fns.get(fnv.i)
            if f is not None and f["kind"] == "method" and not f.get("static"):
                o = args[0]
                if isinstance(o, Cell):
                    o = o.v
                if isinstance(o, Ptr):
                    o = self.deref(o)
                if not isinstance(o, Obj) or f.get("virt"):
                    raise Undecided("call through a pointer to member")
                h = self.over.get(f["b"])
                if h is not None:
                    r = h(self, Call({"l": 0}, dict(self.db.ext.get(fnv.i, {}), n=f["n"], b=f["b"], ct=f["ct"]), o, args[1:], self.db.t(f["ret"])))
                    if r is not NotImplemented:
                        return r
                return self.call_fn(f, o, args[1:])
            if f is not None:
                return self.call_fn(f, None, args)
        if isinstance(fnv, Obj):
            for g in self.db.fns.values():
                if g["n"] == "operator()" and g.get("ct") is not None and self.db.t(g["ct"]) == fnv.cls and len(g["params"]) == len(args):
                    return self.call_fn(g, fnv, args)
            import more
            r = more.functor(self, fnv, args)
            if r is not NotImplemented:
                return r
        raise Undecided(f"call of {fnv!r}")

    def e_list(self, e):
        return self.ev_list(e, self.db.t(e["t"]))

    def ev_list(self, e, t):
        t = strip_cvref(t)
        if self.db.t(e["t"]) and strip_cvref(self.db.t(e["t"])) not in ("<null>", "void") :
            t = strip_cvref(self.db.t(e["t"]))
        b, ta = tmpl(t)
        a = e["a"]
        if e["k"] != "list":
            return self.init_place(t, e)
        if b == "std::array" or t.endswith("]"):
            if b == "std::array":
                et, n = ta[0], int(ta[1].rstrip("UL"))
                if len(a) == 1 and a[0]["k"] in ("list", "zero") and self.db.t(a[0]["t"]).endswith("]"):
                    a = a[0].get("a", [])
                elif len(a) == 1 and a[0]["k"] != "list" and tmpl(self.db.t(a[0]["t"]))[0] == "std::array" and strip_cvref(self.db.t(a[0]["t"])) == t:
                    return self.init_place(t, a[0])
            else:
                i = t.rindex("[")
                et = t[:i].strip()
                n = int(t[i + 1:-1])
            ps = [self.init_place(et, x) for x in a]
            while len(ps) < n:
                ps.append(self.zero(et) if not self.db.rec_by_t.get(et) else self.default_construct(et))
            return Arr(ps, et, b if b == "std::array" else "carray")
        if b == "std::initializer_list":
            et = ta[0]
            return Arr([self.init_place(et, x) for x in a], et, "init_list")
        r = self.db.rec_by_t.get(t)
        if r is not None:
            o = Obj(t)
            i = 0
            for bs in r["bases"]:
                if i < len(a):
                    self.construct_into(o, a[i])
                    i += 1
            for f in r["fields"]:
                ft = self.db.t(f["t"])
                if i < len(a):
                    o.f[f["n"]] = self.init_place(ft, a[i])
                    i += 1
                elif "init" in f:
                    o.f[f["n"]] = self.init_place(ft, f["init"])
                else:
                    o.f[f["n"]] = self.zero(ft) if not self.db.rec_by_t.get(strip_cvref(ft)) else self.default_construct(ft)
            return o
        if len(a) == 1:
            return self.init_place(t, a[0])
        if not a:
            return self.zero(t)
        if self.list_hook:
            r = self.list_hook(self, e, t)
            if r is not None:
                return r
        raise Undecided(f"init list of {t}")

    list_hook = None

    def e_zero(self, e):
        p = self.zero(self.db.t(e["t"]))
        return p.v if isinstance(p, Cell) else p

    def e_throw(self, e):
        if e.get("e"):
            self.ev(e["e"])
        raise PathEnd("throw", f"line {e['l']}")

    def e_stmtexpr(self, e):
        r = None
        ss = e["s"]["s"]
        for x in ss[:-1]:
            self.stmt(x)
        if ss:
            if ss[-1]["k"] == "expr":
                return self.ev(ss[-1]["e"])
            self.stmt(ss[-1])
        return r

    def e_sizeof(self, e):
        return Poly.atom(("sizeof", self.db.t(e["at"]) if "at" in e else "?"))

    def e_trait(self, e):
        raise Undecided("type trait without constant value")

    def e_sizeofpack(self, e):
        raise Undecided("sizeof...")

    def e_srcloc(self, e):
        return Str("srcloc")

    def e_arrinit(self, e):
        return self.copy(self.ev(e["e"]))

    def e_other(self, e):
        raise Undecided("expression " + e["cls"])

    def e_new(self, e):
        t = self.db.t(e["nt"])
        if e["place"]:
            loc = self.val(e["place"][0])
            self.event("construct", loc, t, e)
            h = getattr(self, "placement_hook", None)
            if h:
                r = h(self, loc, t, e)
                if r is not None:
                    return r
            return loc
        if e.get("sz"):
            n = self.val(e["sz"])
            p = Arr([], t, "heap", rest=self.fresh_name("heap"))
            p.meta["n"] = n
            self.event("newarr", p, n)
            return Ptr(p)
        if "init" in e:
            o = self.init_place(t, e["init"])
        else:
            o = self.default_construct(t)
        self.event("new", o, t)
        return Ptr(o)

    def e_delete(self, e):
        v = self.val(e["e"])
        self.event("delete", v)
        return None

    # -- calls ---------------------------------------------------------------------------
    def ptype(self, x, i):
        pt = x.get("pt", [])
        return self.db.t(pt[i]) if i < len(pt) else None

    def ev_arg(self, a, pt):
        if pt is not None and not is_ref(pt):
            if a["k"] == "list":
                return self.ev_list(a, pt)
            v = self.ev(a)
            if isinstance(v, Cell):
                return v.v if not isinstance(v.v, Place) else v.v
            if isinstance(v, (Obj, Arr, MapV)):
                self.adopt(v)
            return v
        return self.ev(a)

    def e_ctor(self, e):
        x = self.db.ext.get(e["f"], {})
        f = self.db.fns.get(e["f"])
        t = strip_cvref(self.db.t(e["t"]))
        b = x.get("b", "")
        h = self.over.get(b)
        args = None
        if h is None and f is not None and not f.get("defaulted"):
            args = [self.ev_arg(a, self.ptype(x, i)) for i, a in enumerate(e["a"])]
            o = Obj(t)
            self.call_fn(f, o, args)
            return o
        args = [self.ev_arg(a, self.ptype(x, i)) for i, a in enumerate(e["a"])]
        if h is None:
            h = self.handler(b)
        if h is not None:
            r = h(self, Call(e, x, None, args, t))
            if r is not NotImplemented:
                return r
        kind = x.get("ctor")
        if kind in ("copy", "move") and args:
            return self.copy(args[0], kind == "move")
        if t in self.db.rec_by_t:
            o = Obj(t)
            self.default_ctor_effect(o, e, x, args)
            return o
        p = self.default_construct(t) if not args else self.uninit(t)
        if not args and isinstance(p, (Arr, MapV)):
            return p
        if not args and isinstance(p, Obj):
            return p
        return self.unknown_call(e, x, None, args)

    def handler(self, b):
        h = self.intr.get(b.replace("std::_V2::", "std::"))
        if h is not None:
            return h
        for p, hh in self.prefix:
            if b.startswith(p):
                return hh
        return None

    def e_call(self, e):
        fid = e.get("f", -1)
        if "pdtor" in e:
            self.ev(e["pdtor"])
            return None
        if fid == -1 or fid is None:
            fe = self.ev(e["fe"]) if e.get("fe") else None
            args = [self.ev(a) for a in e["a"]]
            if isinstance(fe, tuple) and fe and fe[0] == "method":
                f = self.db.fns.get(fe[2])
                if f:
                    return self.call_fn(f, fe[1], args)
            h = getattr(self, "indirect_hook", None)
            if h:
                r = h(self, e, fe, args)
                if r is not NotImplemented:
                    return r
            return self.call_value(fe, args)
        x = self.db.ext.get(fid, {})
        b = x.get("b", "")
        f = self.db.fns.get(fid)
        if x.get("n") == "__assert_fail":
            raise PathEnd("abort", "assert")
        h = self.over.get(b)
        obj = None
        if e.get("o") is not None:
            obj = self.ev(e["o"])
            if e.get("arrow"):
                obj = self.deref(obj, self.pointee(self.db.t(e["o"]["t"])))
            if isinstance(obj, Cell) and isinstance(obj.v, Place):
                obj = obj.v
        if e.get("op") in ("=",) and e.get("o") is not None:
            pass
        args = [self.ev_arg(a, self.ptype(x, i)) for i, a in enumerate(e["a"])]
        if h is not None:
            r = h(self, Call(e, x, obj, args, self.db.t(e["t"])))
            if r is not NotImplemented:
                self.closures(e, args, b)
                return r
        if isinstance(obj, Obj) and obj.cls == "lambda":
            return self.call_lambda(obj, args, fid if fid in self.db.fns else None)
        if e.get("virt") and isinstance(obj, Obj):
            f2 = self.virtual_target(obj.cls, fid, x)
            if f2 is not None:
                f = f2
        if x.get("dtor") and isinstance(obj, Place):
            self.event("dtor-call", obj, e)
            hh = getattr(self, "dtorcall_hook", None)
            if hh and hh(self, obj, e):
                return None
            self.destroy(obj)
            return None
        if f is not None and not f.get("defaulted"):
            return self.call_fn(f, obj, args)
        if f is None and obj is not None and isinstance(obj, Obj) and not x.get("asg"):
            pass
        hh = self.handler(b)
        if hh is not None:
            r = hh(self, Call(e, x, obj, args, self.db.t(e["t"])))
            if r is not NotImplemented:
                self.closures(e, args, b)
                return r
        if x.get("asg") and obj is not None:
            return self.assign(obj, args[0], x["asg"] == "move")
        if e.get("op"):
            from intrinsics import generic_op
            r = generic_op(self, e["op"], ([obj] if obj is not None else []) + args, e, x)
            if r is not NotImplemented:
                return r
        return self.unknown_call(e, x, obj, args)

    ALGORITHMS = {"std::" + n for n in (
        "for_each", "for_each_n", "find_if", "find_if_not", "count_if", "all_of", "any_of", "none_of", "copy_if", "remove_if", "remove_copy_if", "replace_if",
        "transform", "sort", "stable_sort", "erase_if", "accumulate", "reduce", "transform_reduce", "inner_product", "generate", "generate_n", "min_element",
        "max_element", "minmax_element", "equal", "adjacent_find", "is_sorted", "unique", "partition", "stable_partition", "lower_bound", "upper_bound",
        "min", "max", "minmax", "apply", "invoke", "lexicographical_compare")}

    def closures(self, e, args, b):
        """closures written as arguments of an algorithm end with the call"""
        if b not in self.ALGORITHMS and not b.startswith("std::ranges::__"):
            return
        for x, v in zip(e["a"], args):
            held = any(v is z for z in self.frames[-1].temps)
            while x["k"] in ("cast", "tmp") and "e" in x:
                x = x["e"]
            if x["k"] == "lambda" and isinstance(v, Obj) and v.cls == "lambda" and not held:
                self.destroy(v)

    def virtual_target(self, cls, fid, x):
        r = self.db.rec_by_t.get(cls)
        seen = 0
        while r is not None and seen < 20:
            seen += 1
            for m in r["methods"]:
                if m["id"] == fid:
                    return self.db.fns.get(fid)
                f = self.db.fns.get(m["id"])
                if f is not None and f["n"] == x.get("n") and fid in self.all_over(f):
                    return f
            nb = [self.db.recs.get(b.get("id")) for b in r["bases"]]
            r = next((z for z in nb if z is not None), None)
        return None

    def all_over(self, f):
        out = set()
        st = list(f.get("over", []))
        while st:
            i = st.pop()
            out.add(i)
            g = self.db.fns.get(i)
            if g:
                st.extend(g.get("over", []))
        return out

    def unknown_call(self, e, x, obj, args):
        h = getattr(self, "unknown_hook", None)
        if h:
            r = h(self, e, x, obj, args)
            if r is not NotImplemented:
                return r
        raise Undecided(f"call to {x.get('q', '?')} line {e.get('l')}")


class Call:
    __slots__ = ("e", "x", "o", "a", "t")

    def __init__(self, e, x, o, a, t):
        self.e = e
        self.x = x
        self.o = o
        self.a = a
        self.t = t

    def av(self, i):
        v = self.a[i]
        return v.v if isinstance(v, Cell) else v
