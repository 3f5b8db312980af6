"""T01-T08: the oriented simplicial topology.

The topology's own code is interpreted abstractly on scenes (small complexes), the storage being
abstracted to a set of slots with arbitrary, pairwise distinct addresses (every order type of the
addresses that the canonicalisation compares is enumerated), and compared with an independent
combinatorial model: oriented simplices as vertex tuples up to even permutations."""
import itertools
import os
import random
import db as D
import interp as I
from poly import Poly, ZERO, ONE

NS = "mito::topology::"
U = "mito::utilities::"
TOPO = NS + "Topology"


def load():
    d = D.extract("topology.cc")
    d.check_diags()
    return d


def sp(t):
    return f"{U}SharedPointer<const {t}>"


def simplex_t(n):
    return f"{NS}Simplex<{n}>"


def oriented_t(n):
    return f"{NS}OrientedSimplex<{n}>"


def sign(perm):
    """sign of a permutation given as a list of distinct comparables relative to sorted order"""
    s = 1
    p = list(perm)
    for i in range(len(p)):
        for j in range(i + 1, len(p)):
            if p[i] > p[j]:
                s = -s
    return s


class TopoInterp(I.Interp):
    """storage model: every repository hands out slots; erased slots are reused first (oldest
    first), so stale identifiers do collide with new resources."""

    def destroy(self, p):
        self.gone[id(p)] = p
        super().destroy(p)

    def __init__(self, db):
        super().__init__(db)
        A = U + "SegmentedAllocator::"
        self.over[A + "SegmentedAllocator"] = TopoInterp._alloc
        self.over[A + "location_for_placement"] = TopoInterp._location
        self.over[A + "insert"] = TopoInterp._insert
        self.over[A + "erase"] = TopoInterp._aerase
        self.over[A + "size"] = lambda ip, c: Poly.const(c.o.meta["n"])
        self.placement_hook = TopoInterp._placement
        self.gone = {}
        self.dtorcall_hook = TopoInterp._dtorcall
        self.ptr2int = TopoInterp._p2i
        self.int2ptr = TopoInterp._i2p
        self.rec_hook = TopoInterp._rec
        self.layout = None

    def reset(self):
        super().reset()
        self.addr_of = {}
        self.at_addr = {}
        self.keep = []
        self.problems = []
        self.log = []
        self.nslots = {}

    @staticmethod
    def _alloc(ip, c):
        o = I.Obj(c.t or "allocator", name="allocator")
        o.meta.update(free=[], n=0, t=D.strip_cvref(D.tmpl(D.strip_cvref(c.t))[1][0]))
        return o

    @staticmethod
    def _location(ip, c):
        m = c.o.meta
        if m["free"]:
            a = m["free"][0]
            reused = True
        else:
            k = ip.nslots.get(m["t"], 0)
            ip.nslots[m["t"]] = k + 1
            a = ip.layout(m["t"], k)
            reused = False
        return I.Obj(c.t, {"first": I.Cell(I.Ptr(("slot", a))), "second": I.Cell(reused)})

    @staticmethod
    def _insert(ip, c):
        m = c.o.meta
        m["n"] += 1
        if m["free"]:
            m["free"].pop(0)
        return None

    @staticmethod
    def _aerase(ip, c):
        m = c.o.meta
        m["n"] -= 1
        p = c.av(0)
        a = ip.addr_of.get(id(p.b)) if isinstance(p, I.Ptr) else None
        if a is None:
            raise I.Undecided(f"erase of {p!r} from the storage")
        if p.b.meta.get("dead"):
            ip.problems.append("a simplex is erased twice")
        m["free"].append(a)
        return None

    @staticmethod
    def _placement(ip, loc, t, e):
        if not (isinstance(loc, I.Ptr) and isinstance(loc.b, tuple) and loc.b[0] == "slot"):
            return None
        t = D.strip_cvref(t)
        o = I.Obj(t, name=f"{t.split('::')[-1]}@{loc.b[1]}")
        a = loc.b[1]
        ip.addr_of[id(o)] = a
        ip.at_addr[a] = o
        ip.keep.append(o)
        ip.log.append(("create", t, o))
        if e.get("init") is not None:
            v = ip.init_place(t, e["init"])
            o.f.update(v.f)
        return I.Ptr(o)

    @staticmethod
    def _dtorcall(ip, p, e):
        if id(p) not in ip.addr_of:
            return False
        if p.meta.get("dead"):
            ip.problems.append(f"{p.name} is destroyed twice")
        ip.log.append(("destroy", p.cls, p))
        ip.destroy(p)
        p.meta["dead"] = True
        return True

    @staticmethod
    def _p2i(ip, v):
        if v is I.NULL:
            return ZERO
        if isinstance(v, I.Ptr) and isinstance(v.b, I.Obj) and id(v.b) in ip.addr_of and not v.o.t:
            return Poly.const(ip.addr_of[id(v.b)])
        raise I.Undecided(f"integer value of {v!r}")

    @staticmethod
    def _i2p(ip, v):
        v = ip.facts.norm(ip.n(v))
        if v == ZERO:
            return I.NULL
        if v.is_const() and int(v.cval()) in ip.at_addr:
            o = ip.at_addr[int(v.cval())]
            if o.meta.get("dead"):
                ip.problems.append(f"a handle to the erased {o.name} is handed out")
            return I.Ptr(o)
        raise I.PathEnd("ub", f"identifier {v!r} belongs to no resource")

    @staticmethod
    def _rec(ip, fn, this, args):
        if isinstance(this, I.Obj) and this.meta.get("dead") and not fn["b"].startswith(U):
            ip.problems.append(f"{fn['b']} is called on the erased {this.name}")
        return None


class Discrepancy(Exception):
    """the lock-step comparison cannot go on"""


class Stop(Exception):
    """the scene ends here as it should"""


class World:
    """the interpreted topology and the combinatorial model, in lock step"""

    def __init__(self, ip, d, layout):
        self.ip, self.d = ip, d
        ip.layout = layout
        ct = [f for f in d.fns.values() if f["b"] == TOPO + "::Topology" and not f["params"]]
        if not ct:
            raise D.AnalysisBroken("anchor vanished: Topology constructor")
        self.t = I.Obj(TOPO, name="topology")
        ip.call_fn(ct[0], self.t, [])
        h = getattr(ip, "topology_slot", None)
        if h is not None:
            h.append(self.t)
        self.probs = []      # (tag, text)
        ip.gone = {}
        self.live = []       # results of calls, some of them destroyed since
        self.stage = "vertex"
        # model
        self.nv = 0
        self.vh = {}         # vertex -> user handle to it
        self.F = {}          # (n, vertex set) -> {"rep", "comp"}
        self.O = set()       # (n, vertex set, sign)
        self.U = {}          # key -> number of user handles
        self.obj = {}        # key -> interpreted object
        self.H = []          # user handles [key, handle object] or None
        self.nops = 0

    def p(self, tag, text):
        if not self.probs:
            self.plast = getattr(self, "last", None)
        self.probs.append((tag, text))

    # -- calls into the analysed program ---------------------------------------------------
    def fn(self, n):
        f = self.d.find("verif::" + n)
        if not f:
            raise D.AnalysisBroken("driver function missing: " + n)
        return f[0]

    def call(self, n, *args):
        ip = self.ip
        f = self.fn(n)
        self.last = f["id"]
        a, tmps = [], []
        for p, x in zip(f["params"], args):
            t = self.d.t(p["t"])
            if isinstance(x, (list, tuple)):
                x = self.arr(D.strip_cvref(t), x)
                tmps.append(x)
            elif isinstance(x, int):
                x = I.Cell(Poly.const(x), "int")
            if isinstance(x, I.MapV):
                self.live.append(x)
            a.append(x)
        r = ip.call_fn(f, None, a)
        for x in tmps:
            ip.destroy(x)
        rv = r.v if isinstance(r, I.Cell) else r
        if isinstance(rv, (I.Obj, I.Arr, I.MapV)):
            self.live.append(rv)
        return r

    def arr(self, t, xs):
        if t.startswith("std::pair"):
            return I.Obj(t, {"first": self.ip.copy(xs[0]), "second": self.ip.copy(xs[1])})
        return I.Arr([self.ip.copy(x) for x in xs], D.tmpl(t)[1][0], "std::array")

    def target(self, h):
        """the resource a handle refers to (None: empty handle)"""
        if isinstance(h, I.Cell):
            h = h.v
        for c in h.f.values():
            if isinstance(c, I.Cell):
                if c.v is I.NULL:
                    return None
                if isinstance(c.v, I.Ptr):
                    return c.v.b
        raise I.Undecided(f"handle {h!r}")

    def num(self, v):
        v = self.ip.facts.norm(self.ip.n(v.v if isinstance(v, I.Cell) else v))
        if not v.is_const():
            raise I.Undecided(f"value {v!r}")
        return int(v.cval())

    def yes(self, v):
        return self.ip.decide(self.ip.truth(v))

    def elems(self, a):
        if isinstance(a, I.Cell):
            a = a.v
        if isinstance(a, I.Arr):
            return a.e
        if isinstance(a, I.MapV):
            return [e[0] for e in a.ents]
        raise I.Undecided(f"elements of {a!r}")

    def obs(self, n, *args):
        """call an observer returning handles; the resources they refer to"""
        r = self.call(n, *args)
        out = [self.target(x) for x in self.elems(r)]
        self.ip.destroy(r)
        return out

    def vert_of(self, o):
        for k in range(self.nv):
            if self.obj.get((0, frozenset([k]))) is o:
                return k
        return None

    def verts(self, n, h, which="verts"):
        return [self.vert_of(o) for o in self.obs(f"{which}{n}", h)]

    def foot(self, n, h):
        r = self.call(f"foot{n}", h)
        o = self.target(r)
        self.ip.destroy(r)
        return o

    # -- the model -------------------------------------------------------------------------
    def m_refs(self, k):
        if len(k) == 2:
            return self.U.get(k, 0) + sum(1 for s in (1, -1) if k + (s,) in self.O)
        return self.U.get(k, 0) + sum(f["comp"].count(k) for f in self.F.values())

    def m_faces(self, n, v):
        """keys of the canonical faces of the simplex with ordered vertices v (created if missing)"""
        if n == 1:
            return [self.m_vertex(v[0], -1), self.m_vertex(v[1], 1)]
        if n == 2:
            t = [(v[0], v[1]), (v[1], v[2]), (v[2], v[0])]
        else:
            t = [(v[0], v[1], v[2]), (v[1], v[3], v[2]), (v[3], v[1], v[0]), (v[3], v[0], v[2])]
        return [self.m_make(n - 1, x) for x in t]

    def m_vertex(self, v, s):
        k = (0, frozenset([v]), s)
        self.O.add(k)
        return k

    def m_make(self, n, v):
        comp = self.m_faces(n, v)
        fk = (n, frozenset(v))
        if fk not in self.F:
            self.F[fk] = {"rep": tuple(v), "comp": comp}
        k = fk + (parity(v, self.F[fk]["rep"]),)
        self.O.add(k)
        return k

    def m_makec(self, n, keys):
        """composition given by faces: (key) or None when its boundary does not cancel"""
        if not self.m_valid(n, keys):
            return None
        vs = frozenset().union(*[k[1] for k in keys])
        fk = (n, vs)
        if fk not in self.F:
            self.F[fk] = {"rep": None, "comp": list(keys)}
            s = 1
        else:
            s = parity([k[:2] for k in keys], [k[:2] for k in self.F[fk]["comp"]])
        k = fk + (s,)
        self.O.add(k)
        return k

    def m_boundary(self, k):
        """faces of an oriented simplex with signs"""
        c = list(self.F[k[:2]]["comp"])
        return [(x[:2], x[2] * k[2]) for x in c]

    def m_valid(self, n, keys):
        if n == 1:
            return keys[0][1] != keys[1][1] and keys[0][2] != keys[1][2]
        tot = {}
        for k in keys:
            for f, s in self.m_boundary(k):
                tot[f] = tot.get(f, 0) + s
        return all(v == 0 for v in tot.values())

    def m_exists(self, n, keys):
        """whether the oriented simplex with exactly this composition is there"""
        if any(len(k[1]) == 0 for k in keys):
            return False
        for fk, f in self.F.items():
            if fk[0] == n and sorted(map(fkey, f["comp"])) == sorted(map(fkey, keys)):
                return fk + (parity([k[:2] for k in keys], [k[:2] for k in f["comp"]]),) in self.O
        return False

    def m_erase(self, k, dead):
        """erasing with no other reference; collects the keys that die"""
        if k not in self.O or self.m_refs(k) > 0:
            return
        self.O.discard(k)
        dead.append(k)
        fk = k[:2]
        comp = []
        if k[0] > 0:
            comp = list(self.F[fk]["comp"])
        if self.m_refs(fk) == 0:
            dead.append(fk)
            self.F.pop(fk, None)
        for c in comp:
            self.m_erase(c, dead)

    # -- lock-step operations ----------------------------------------------------------------
    def vertex(self):
        self.stage = "vertex"
        self.nops += 1
        h = self.call("vertex", self.t)
        k = (0, frozenset([self.nv]))
        self.F[k] = {"rep": (self.nv,), "comp": []}
        o = self.target(h)
        self.fresh_obj("ident", k, o, f"vertex {self.nv}")
        self.vh[self.nv] = h
        self.U[k] = 1
        self.nv += 1
        return self.nv - 1

    def vertices(self, n):
        return [self.vertex() for _ in range(n)]

    def fresh_obj(self, tag, k, o, what):
        if o is None:
            self.p(tag, f"{what} comes back as an empty handle")
            raise Discrepancy()
        if o.meta.get("dead"):
            self.p(tag, f"{what} comes back as an erased object")
            raise Discrepancy()
        other = next((q for q, x in self.obj.items() if x is o), None)
        if other is not None:
            self.p(tag, f"{what} comes back as the object of {show(other)}")
            raise Discrepancy()
        self.obj[k] = o

    def received(self, tag, k, h, what):
        """a handle that must denote the oriented simplex k"""
        o = self.target(h)
        if k in self.obj:
            if self.obj[k] is not o:
                other = next((show(q) for q, x in self.obj.items() if x is o), "a new object")
                self.p(tag, f"{what} does not come back as the existing {show(k)} but as {other}")
                raise Discrepancy()
        else:
            self.fresh_obj(tag, k, o, what)
        f = self.foot(k[0], h)
        fk = k[:2]
        if fk in self.obj:
            if self.obj[fk] is not f:
                self.p(tag, f"{what} rides on another footprint than the other orientation / earlier requests of the same vertices")
                raise Discrepancy()
        else:
            self.fresh_obj(tag, fk, f, f"the footprint of {what}")
        s = self.num(self.call(f"ori{k[0]}", h))
        if s != k[2]:
            self.p(tag, f"{what} has orientation {s:+d}, expected {k[2]:+d}")
            raise Discrepancy()

    def learn(self, k, h):
        """compare the composition of a simplex with the model, recursively; records the objects"""
        n = k[0]
        if n == 0:
            return
        want = list(self.F[k[:2]]["comp"])
        if k[2] == -1:
            want[0], want[1] = want[1], want[0]
        r = self.call(f"comp{n}", h)
        el = self.elems(r)
        if len(el) != n + 1:
            self.p("canon", f"{show(k)} has {len(el)} faces")
            raise Discrepancy()
        for i, (x, q) in enumerate(zip(el, want)):
            self.received("canon", q, x, f"face {i} of {show(k)}")
            self.learn(q, x)
        self.ip.destroy(r)

    def hold(self, k, h):
        self.U[k] = self.U.get(k, 0) + 1
        self.H.append([k, h])
        return len(self.H) - 1

    def make(self, n, vs, tag="ident", via=None):
        """request a simplex by its vertices"""
        self.stage = tag
        self.nops += 1
        k = self.m_make(n, tuple(vs))
        h = self.call((via or ["", "seg", "tri", "tet"][n]), self.t, [self.vh[v] for v in vs])
        self.received(tag, k, h, f"{NAMES[n]}{list(vs)}")
        self.learn(k, h)
        i = self.hold(k, h)
        self.counts(tag, f"requesting {NAMES[n]}{list(vs)}")
        return i

    def makec(self, n, hs, tag="ident"):
        """request a simplex by its composition (handle indices)"""
        self.stage = tag
        self.nops += 1
        keys = [self.H[i][0] for i in hs]
        what = f"{NAMES[n]} composed of " + ", ".join(map(show, keys))
        ok = self.m_valid(n, keys)
        before = (dict(self.F), set(self.O))
        try:
            h = self.call(["", "segc", "tric", "tetc"][n], self.t, [self.H[i][1] for i in hs])
        except I.PathEnd as e:
            if e.kind not in ("throw", "abort"):
                raise
            if ok:
                self.p(tag, f"{what} is refused ({e.why})")
                raise Discrepancy()
            self.counts("reject", f"refusing {what}", refs=False)
            raise Stop()
        if not ok:
            self.p("reject", f"{what} is accepted although its boundary does not cancel")
            raise Discrepancy()
        k = self.m_makec(n, keys)
        self.received(tag, k, h, what)
        i = self.hold(k, h)
        self.counts(tag, f"requesting {what}")
        return i

    def oriented_vertex(self, v, s, tag="ident"):
        self.stage = tag
        self.nops += 1
        k = self.m_vertex(v, s)
        h = self.call("sf0", self.t, self.vh[v], s)
        self.received(tag, k, h, f"vertex {v} with orientation {s:+d}")
        i = self.hold(k, h)
        self.counts(tag, f"orienting vertex {v}")
        return i

    def with_footprint(self, i, s, tag="ident"):
        self.stage = tag
        self.nops += 1
        k0, h0 = self.H[i]
        n = k0[0]
        k = k0[:2] + (s,)
        f = self.call(f"foot{n}", h0)
        h = self.call(f"sf{n}", self.t, f, s)
        self.ip.destroy(f)
        self.O.add(k)
        self.received(tag, k, h, f"footprint of {show(k0)} with orientation {s:+d}")
        self.learn(k, h)
        j = self.hold(k, h)
        self.counts(tag, f"orienting the footprint of {show(k0)}")
        return j

    def flip(self, i, tag="flip"):
        self.stage = tag
        self.nops += 1
        k0, h0 = self.H[i]
        n = k0[0]
        k = k0[:2] + (-k0[2],)
        was = k in self.O
        if self.yes(self.call(f"exf{n}", self.t, h0)) != was:
            self.p(tag, f"exists_flipped of {show(k0)} reports {not was} while the opposite simplex is {'there' if was else 'not there'}")
        h = self.call(f"flip{n}", self.t, h0)
        self.O.add(k)
        self.received(tag, k, h, f"the flip of {show(k0)}")
        self.learn(k, h)
        j = self.hold(k, h)
        if not self.yes(self.call(f"exf{n}", self.t, h0)):
            self.p(tag, f"exists_flipped of {show(k0)} stays false after flipping it")
        self.counts(tag, f"flipping {show(k0)}")
        return j

    def drop(self, i):
        """the user lets a handle go"""
        self.stage = "drop"
        k, h = self.H[i]
        self.H[i] = None
        self.U[k] -= 1
        self.ip.destroy(h)

    def drop_vertex(self, v):
        k = (0, frozenset([v]))
        self.U[k] -= 1
        self.ip.destroy(self.vh.pop(v))

    def erase(self, i, tag="erase"):
        """erase through the user's handle; the model gives what dies"""
        self.stage = tag
        self.nops += 1
        k, h = self.H[i]
        n = k[0]
        self.U[k] -= 1
        dead = []
        self.m_erase(k, dead)
        self.call(f"erase{n}", self.t, h)
        gone = k in dead
        if not gone:
            self.U[k] += 1
        o = self.target(h)
        if gone and o is not None:
            self.p(tag, f"erasing the unused {show(k)} leaves the caller's handle on it")
            raise Discrepancy()
        if not gone and o is not self.obj[k]:
            self.p(tag, f"erasing {show(k)}, still in use elsewhere, takes the caller's handle away")
            raise Discrepancy()
        for q in dead:
            o = self.obj.pop(q, None)
            if o is not None and not o.meta.get("dead"):
                self.p(tag, f"erasing {show(k)} leaves {show(q)} behind although nothing refers to it any more")
                raise Discrepancy()
        if gone:
            self.H[i] = None
        self.counts(tag, f"erasing {show(k)}")
        return dead

    # -- comparisons ---------------------------------------------------------------------------
    def counts(self, tag, when, refs=True):
        for q, o in self.obj.items():
            if o.meta.get("dead"):
                self.p(tag, f"{when} destroys {show(q)}, which is still in use")
                raise Discrepancy()
        for t in self.ip.problems:
            self.p(tag, f"{when}: {t}")
        if self.ip.problems:
            raise Discrepancy()
        for n in range(4):
            want = sum(1 for k in self.O if k[0] == n)
            have = self.num(self.call(f"n{n}", self.t))
            if have != want:
                self.p(tag, f"after {when} the topology has {have} oriented {NAMES[n]} objects, expected {want}")
                raise Discrepancy()
            t = simplex_t(n)
            have = sum(1 for o in self.ip.at_addr.values() if o.cls == t and not o.meta.get("dead"))
            want = sum(1 for k in self.F if k[0] == n)
            if have != want:
                self.p(tag, f"after {when} there are {have} {NAMES[n]} footprints, expected {want}")
                raise Discrepancy()
        if refs:
            for q, o in self.obj.items():
                c = self.refcount(o)
                if c is not None and c != self.m_refs(q):
                    self.p(tag, f"after {when} {show(q)} counts {c} references, expected {self.m_refs(q)}")
                    raise Discrepancy()

    def refcount(self, o):
        for f, c in o.f.items():
            if "reference" in f and isinstance(c, I.Cell) and isinstance(c.v, Poly) and c.v.is_const():
                return int(c.v.cval())
        return None

    def same_state(self, tag, what, fn):
        """fn() must leave the topology untouched"""
        a = self.snapshot()
        r = fn()
        b = self.snapshot()
        if a != b:
            self.p(tag, f"{what} changes the topology: {b[0]} objects instead of {a[0]}" if a[0] != b[0] else f"{what} changes reference counts or content")
            raise Discrepancy()
        return r

    def snapshot(self):
        live = sorted((a, o.cls) for a, o in self.ip.at_addr.items() if not o.meta.get("dead"))
        rc = tuple((a, self.refcount(self.ip.at_addr[a])) for a, _ in live)
        return len(live), tuple(live), rc, len(self.ip.log), self.ipkeys(self.t)

    def ipkeys(self, o, depth=0):
        """entries of the factories' maps"""
        out = []
        if isinstance(o, I.MapV):
            return tuple(sorted(repr((I.vkey(e[0]), I.vkey(e[1]) if e[1] is not None else None)) for e in o.ents))
        if isinstance(o, I.Obj) and depth < 4 and "SegmentedAllocator" not in o.cls:
            for k in sorted(o.f):
                out.append(self.ipkeys(o.f[k], depth + 1))
        return tuple(out)


NAMES = ["vertex", "segment", "triangle", "tetrahedron"]


def fkey(k):
    return (k[0], tuple(sorted(k[1])))


def show(k):
    s = f"{NAMES[k[0]]}{sorted(k[1])}"
    return s if len(k) == 2 else s + ("+" if k[2] > 0 else "-")


def parity(p, ref):
    """sign of the permutation taking ref to p"""
    ix = [ref.index(x) for x in p] if isinstance(ref, list) else [list(ref).index(x) for x in p]
    return sign(ix)


def make_layout(k, perms=None):
    rnd = random.Random(k)
    base = {}
    tabs = {}

    def lay(t, i):
        if t not in base:
            base[t] = (len(base) + 1) << 40
            if perms and t in perms:
                head = [16 * (x + 1) for x in perms[t]]
            else:
                head = [16 * (x + 1) for x in range(64)]
                if k % 3 == 1:
                    head.reverse()
                elif k % 3 == 2:
                    rnd.shuffle(head)
            tabs[t] = head
        h = tabs[t]
        return base[t] + (h[i] if i < len(h) else 1 << 20 | 16 * i)
    return lay


# ------------------------------------------------------------------------------------------------
def gap(w):
    """the interpreted counts must equal the handles that are really there: otherwise the
    abstraction of temporaries is not exact on this code and nothing can be concluded"""
    ip = w.ip
    cnt = {}
    seen = set()

    def visit(x):
        if isinstance(x, I.Cell):
            x = x.v
        if isinstance(x, I.Obj):
            if id(x) in seen:
                return
            seen.add(id(x))
            if x.cls.startswith(U + "SharedPointer"):
                for c in x.f.values():
                    if isinstance(c, I.Cell) and isinstance(c.v, I.Ptr):
                        cnt[id(c.v.b)] = cnt.get(id(c.v.b), 0) + 1
                return
            if x.meta.get("dead"):
                return
            for c in x.f.values():
                visit(c)
        elif isinstance(x, I.Arr):
            for c in x.e:
                visit(c)
        elif isinstance(x, I.MapV):
            for e in x.ents:
                visit(e[0])
                visit(e[1])
    visit(w.t)
    for h in w.vh.values():
        visit(h)
    for h in w.H:
        if h:
            visit(h[1])
    for h in w.live:
        if id(h) not in ip.gone:
            visit(h)
    for o in list(ip.at_addr.values()):
        if not o.meta.get("dead"):
            visit(o)
    for o in ip.at_addr.values():
        if not o.meta.get("dead"):
            c = w.refcount(o)
            if c is not None and c != cnt.get(id(o), 0):
                return f"{o.name} counts {c}, {cnt.get(id(o), 0)} handles found"
    return None


_job = {}


def _run(i):
    d, scen = _job["d"], _job["scen"]
    name, lay, fn = scen[i]
    ip = TopoInterp(d)
    ip.decide_asserts = True

    def body(ip):
        w = World(ip, d, make_layout(*lay))
        why = None
        try:
            fn(w)
        except Stop:
            pass
        except Discrepancy:
            g = gap(w)
            if g:
                why = "reference counts not reproduced: " + g
        except I.PathEnd as e:
            if e.kind in ("ub", "abort", "throw"):
                w.p(w.stage if w.stage != "vertex" else "ident", f"{ {'ub': 'invalid access', 'abort': 'abort', 'throw': 'exception'}[e.kind]} while {w.stage}: {e.why}")
            else:
                raise
        return w.probs, why, w.nops, getattr(w, 'plast', None)
    probs, und, nops, path, last = [], None, 0, 0, None
    try:
        for kind, r in ip.paths(body):
            path += 1
            if kind != "ok":
                und = f"path ends with {kind} {r}"
                continue
            if r[0] and not probs:
                last = r[3]
            probs += r[0]
            und = und or r[1]
            nops += r[2]
    except I.OUT as e:
        und = f"outside the analysed idioms: {e}"
    return i, probs, und, nops, sorted(ip.analysed), dict(ip.stats), last


def run_scenarios(R, tags, scen, minimum):
    """tags: problem tag -> rule; every scenario discharges every rule its name lists"""
    import multiprocessing as mp
    d = load()
    _job["d"], _job["scen"] = d, scen
    where = d.where(d.find(TOPO + "::Topology")[0]) if d.find(TOPO + "::Topology") else TOPO
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(_run, range(len(scen)), chunksize=max(1, len(scen) // 64))
    ip = I.Interp(d)
    where0 = where
    for i, probs, und, nops, analysed, stats, last in res:
        name = scen[i][0]
        where = entry(d, last) or where0
        ip.analysed.update(analysed)
        for k, v in stats.items():
            R.count("abstract_" + k, v)
        R.count("abstract_operations", nops)
        mine = [(t, x) for t, x in probs if t in tags]
        if und:
            R.und(next(iter(tags.values())), name, where, und)
        elif mine:
            t, x = mine[0]
            R.bad(tags[t], name, where, x)
        elif probs:
            R.und(next(iter(tags.values())), name, where, "cut short: " + probs[0][1])
        else:
            R.ok(next(iter(tags.values())), name, where)
    R.used(ip)
    R.minimum = minimum


def entry(d, fid):
    """the library function a driver entry calls"""
    f = d.fns.get(fid)
    if f is None:
        return None
    for e in D.walk(f["body"]):
        g = d.fns.get(e.get("f", -1)) if e.get("k") == "call" else None
        if g is not None and d.in_repo(g) and "SharedPointer" not in g["b"]:
            return d.where(g)
    return None


def perms(xs):
    return list(itertools.permutations(xs))


V1, V2, V3 = simplex_t(0), simplex_t(1), simplex_t(2)


def addr(k):
    return (k,)


def order_types(n, thorough=False):
    """address layouts for scenes built from an n-simplex"""
    if n == 1:
        return [(0, {V1: p}) for p in perms(range(3))]
    if n == 2:
        vs = perms(range(3))
        ss = perms(range(3))
        return [(0, {V1: a, V2: b}) for a in vs for b in ss]
    return [(k,) for k in range(24 if thorough else 8)]


def oname(lay):
    if len(lay) == 1:
        return f"address order {lay[0]}"
    return "address order " + "/".join("".join(map(str, p)) for p in lay[1].values())


# ---------------------------------------------------------------------------- T01
def t01(R):
    R.rule("one-object", "every request for a simplex yields the same object for even rearrangements of its vertices (or of its faces), the "
           "opposite-orientation object on the same footprint for odd ones, another object for other vertices, and creates nothing that exists")
    th = R.tier == "thorough"
    S = []
    for n in (1, 2, 3):
        for lay in order_types(n, th):
            for p in perms(range(n + 1)):
                if n == 2 and not th and lay[1][V1] != lay[1][V2] and p[0] > 1:
                    continue

                def f(w, n=n, p=p):
                    w.vertices(n + 1)
                    w.make(n, range(n + 1))
                    w.make(n, p)
                    w.make(n, range(n + 1))
                    w.make(n, p, via=f"sv{n}")
                S.append((f"{NAMES[n]} requested as {tuple(range(n + 1))} and {p}, {oname(lay)}", lay, f))
    for k in range(6):
        for p in perms(range(3)):
            def g(w, p=p):
                w.vertices(3)
                t = w.make(2, (0, 1, 2))
                e = [w.make(1, x) for x in ((0, 1), (1, 2), (2, 0))]
                w.makec(2, [e[i] for i in p])
                w.makec(2, [e[i] for i in (0, 1, 2)])
            S.append((f"triangle requested by its edges in order {p}, address order {k}", (k,), g))
        for p in perms(range(2)):
            def g1(w, p=p):
                w.vertices(2)
                w.make(1, (0, 1))
                e = [w.oriented_vertex(0, -1), w.oriented_vertex(1, 1)]
                w.makec(1, [e[i] for i in p])
            S.append((f"segment requested by its tips in order {p}, address order {k}", (k,), g1))
    for p in perms(range(4)):
        for k in range(3 if th else 1):
            def h(w, p=p):
                w.vertices(4)
                w.make(3, (0, 1, 2, 3))
                t = [w.make(2, x) for x in ((0, 1, 2), (1, 3, 2), (3, 1, 0), (3, 0, 2))]
                w.makec(3, [t[i] for i in p])
            S.append((f"tetrahedron requested by its faces in order {p}, address order {k}", (k,), h))

    def two_tets(w, q):
        w.vertices(5)
        w.make(3, (0, 1, 2, 3))
        w.make(3, [(1, 0, 2, 4), (0, 1, 2, 4), (2, 4, 1, 0)][q])
        w.make(2, (0, 1, 2))
        w.make(2, (1, 0, 2))
        w.make(2, (1, 2, 4))
        w.make(1, (4, 3))
        w.make(1, (3, 4))
        w.make(3, (4, 3, 2, 1))
        w.make(3, (0, 1, 2, 3))
        w.make(2, (2, 1, 0))

    def first_flipped(w):
        w.vertices(4)
        a = w.make(2, (0, 1, 2))
        b = w.flip(a, "ident")
        w.make(2, (2, 1, 0))
        w.make(2, (0, 2, 1))
        w.with_footprint(a, -1)
        w.with_footprint(b, 1)
        w.make(3, (0, 2, 1, 3))
        w.make(3, (0, 1, 2, 3))

    def reuse(w, n):
        v = w.vertices(n + 2)
        a = w.make(n, range(n + 1))
        w.erase(a, "ident")
        b = w.make(n, range(n, -1, -1))
        w.make(n, range(n + 1))
        for x in list(range(n + 1)):
            w.drop_vertex(x)
        w.erase(b, "ident")
        w.vertices(2)
        w.make(n, list(range(n + 1, n + 4))[:n + 1] if n < 3 else [4, 5, 6, w.vertex()])
    for k in range(8 if th else 4):
        for q in range(3):
            S.append((f"two tetrahedra sharing a face (variant {q}), address order {k}", (k,), lambda w, q=q: two_tets(w, q)))
        S.append((f"triangle first, flipped and reached through its footprint, address order {k}", (k,), first_flipped))
        for n in (1, 2):
            S.append((f"{NAMES[n]} erased and requested again, address order {k}", (k,), lambda w, n=n: reuse(w, n)))
    run_scenarios(R, {"ident": "one-object", "canon": "one-object"}, S, 60)
    R.assumptions.append("scenes of up to seven vertices; addresses abstracted to their order types (all of them for segments and triangles, "
                         "representatives for tetrahedra), erased slots reused at once")


# ---------------------------------------------------------------------------- T02
def t02(R):
    R.rule("erase", "erasing through the only handle removes the oriented simplex, its footprint once no orientation or handle is left, and "
           "recursively the faces nothing else refers to; anything else stays, with exact counts; erasing a simplex in use or through an empty "
           "handle does nothing; a later request works as if the erased simplices had never existed, even in their reused slots")
    th = R.tier == "thorough"
    S = []

    def one(w, n, p, keep, flip):
        w.vertices(n + 1)
        a = w.make(n, p)
        kept = []
        for m, vs in keep:
            kept.append(w.make(m, vs))
        b = w.flip(a, "erase") if flip else None
        if flip == 2:
            w.erase(b)
            w.erase(a)
        elif flip == 1:
            w.erase(a)
            w.erase(b)
        else:
            w.erase(a)
        for x in kept:
            if w.H[x] is not None:
                w.erase(x)
        # everything can be requested again
        c = w.make(n, range(n + 1), "erase")
        for v in list(w.vh):
            w.drop_vertex(v)
        w.erase(c)
        w.vertices(n + 1)
        w.make(n, [v + n + 1 for v in range(n + 1)], "erase")
    for n in (1, 2, 3):
        faces = {1: [], 2: [(1, (0, 1)), (1, (1, 0)), (1, (2, 0))], 3: [(2, (0, 1, 2)), (2, (2, 1, 0)), (1, (1, 2)), (1, (3, 0)), (2, (3, 0, 2))]}[n]
        keeps = [[]] + [[f] for f in faces] + ([[faces[0], faces[-1]]] if faces else [])
        for keep in keeps:
            for flip in (0, 1, 2):
                for k in range(4 if th else (2 if n < 3 else 1)):
                    ps = perms(range(n + 1)) if th else [tuple(range(n + 1)), tuple(range(n, -1, -1))]
                    for p in ps:
                        S.append((f"{NAMES[n]}{p} erased, keeping {keep or 'nothing'}, flip variant {flip}, address order {k}", (k,),
                                  lambda w, n=n, p=p, keep=keep, flip=flip: one(w, n, p, keep, flip)))

    def in_use(w, n):
        """a simplex with two handles, or inside a larger one, stays"""
        w.vertices(4)
        big = w.make(3, (0, 1, 2, 3))
        s = w.make(n, [0, 1, 2, 3][:n + 1])
        w.erase(s)
        s2 = w.make(n, [0, 1, 2, 3][:n + 1])
        w.erase(s2)
        w.drop(s)
        w.erase(s2)
        if n < 3:
            w.erase(big)

    def shared(w, order):
        w.vertices(5)
        a = w.make(2, (0, 1, 2))
        b = w.make(2, (1, 0, 3))
        c = w.make(2, (0, 2, 4))
        hs = [a, b, c]
        for i in order:
            w.erase(hs[i])
            w.make(1, (0, 1), "erase")
            w.drop(len(w.H) - 1)
        w.make(2, (0, 1, 2), "erase")

    def shared_tets(w, order):
        w.vertices(5)
        hs = [w.make(3, (0, 1, 2, 3)), w.make(3, (1, 0, 2, 4))]
        f = w.make(2, (0, 1, 2))
        hs.append(f)
        for i in order:
            w.erase(hs[i])
        if w.H[f] is not None:
            w.erase(f)
        w.make(3, (0, 1, 2, 3), "erase")

    def vertex_life(w):
        w.vertices(3)
        s = w.make(1, (0, 1))
        w.drop_vertex(0)
        w.erase(s)
        w.vertex()
        w.make(1, (1, 2), "erase")
        w.make(1, (1, 3), "erase")
        o = w.oriented_vertex(2, -1, "erase")
        w.erase(o)
        o = w.oriented_vertex(3, 1, "erase")
        w.drop_vertex(3)
        w.erase(o)

    def unused_leftovers(w):
        """simplices created on the way that nothing refers to are erased like any other"""
        w.vertices(3)
        a = w.make(2, (0, 1, 2))
        b = w.make(2, (0, 2, 1))
        w.erase(b)
        e = w.make(1, (1, 0), "erase")
        w.erase(e)
        w.erase(a)
        w.make(2, (0, 2, 1), "erase")

    def empty(w):
        w.vertices(3)
        a = w.make(2, (0, 1, 2))
        h = w.H[a][1]
        w.erase(a)
        w.stage = "erase"
        w.same_state("erase", "erasing through an empty handle", lambda: w.call("erase2", w.t, h))
    for k in range(8 if th else 4):
        for n in (1, 2, 3):
            S.append((f"{NAMES[n]} in use, address order {k}", (k,), lambda w, n=n: in_use(w, n)))
        for o in perms(range(3)):
            S.append((f"three triangles sharing edges, erased in order {o}, address order {k}", (k,), lambda w, o=o: shared(w, o)))
        for o in ((0, 1), (1, 0), (0, 2, 1), (2, 0, 1)):
            if k < 2 or th:
                S.append((f"two tetrahedra sharing a face, erased in order {o}, address order {k}", (k,), lambda w, o=o: shared_tets(w, o)))
        S.append((f"vertices let go before the segment, address order {k}", (k,), vertex_life))
        S.append((f"leftover opposite edges, address order {k}", (k,), unused_leftovers))
        S.append((f"empty handle, address order {k}", (k,), empty))
    run_scenarios(R, {"erase": "erase"}, S, 60)
    R.assumptions.append("scenes of up to two tetrahedra or three triangles; the storage reuses erased slots at once")


# ---------------------------------------------------------------------------- T04
def t04(R):
    R.rule("valid-composition", "a simplex composed of faces is created exactly when their boundaries cancel (for segments: two different vertices "
           "with opposite orientations); otherwise the request is refused with the topology unchanged")
    R.rule("order", "the verdict on a composition does not depend on the order of its faces")
    th = R.tier == "thorough"
    S = []

    def seg(w, a, b):
        w.vertices(2)
        i = w.oriented_vertex(*a)
        j = w.oriented_vertex(*b)
        w.makec(1, [i, j], "reject")
    tips = [(0, 1), (0, -1), (1, 1), (1, -1)]
    for k in range(3):
        for a in tips:
            for b in tips:
                S.append((f"segment of tips {a} and {b}, address order {k}", (k,), lambda w, a=a, b=b: seg(w, a, b)))
    edges = [(0, 1), (1, 0), (1, 2), (2, 1), (2, 0), (0, 2)]

    def tri(w, es, first):
        w.vertices(4)
        if first:
            for e in ((0, 1), (2, 1), (2, 0), (3, 1)):
                w.make(1, e, "reject")
        hs = [w.make(1, e, "reject") for e in es]
        w.makec(2, hs, "reject")
    combos = list(itertools.product(edges, repeat=3))
    for es in combos:
        if len({frozenset(e) for e in es}) < 3 and es != tuple(sorted(es)):
            continue
        S.append((f"triangle of edges {es}", (1,), lambda w, es=es: tri(w, es, True)))
        if th:
            S.append((f"triangle of edges {es}, fresh", (2,), lambda w, es=es: tri(w, es, False)))
    for es in (((0, 1), (1, 2), (2, 3)), ((0, 1), (1, 3), (3, 2)), ((3, 0), (0, 1), (1, 2)), ((0, 1), (2, 3), (3, 0))):
        S.append((f"triangle of open edges {es}", (1,), lambda w, es=es: tri(w, es, False)))
    F = [(0, 1, 2), (1, 3, 2), (3, 1, 0), (3, 0, 2)]

    def tet(w, signs, order, rep=None):
        w.vertices(5)
        hs = []
        for f, s in zip(F, signs):
            hs.append(w.make(2, f if s > 0 else (f[1], f[0], f[2]), "reject"))
        if rep is not None:
            hs[rep[1]] = hs[rep[0]]
        w.makec(3, [hs[i] for i in order], "reject")
    orders = perms(range(4)) if th else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 2, 3), (2, 3, 0, 1)]
    for signs in itertools.product((1, -1), repeat=4):
        for o in orders:
            S.append((f"tetrahedron of faces with signs {signs} in order {o}", (0,), lambda w, s=signs, o=o: tet(w, s, o)))
    for i, j in itertools.permutations(range(4), 2):
        S.append((f"tetrahedron with face {i} in place of {j}", (0,), lambda w, i=i, j=j: tet(w, (1, 1, 1, 1), (0, 1, 2, 3), (i, j))))

    def foreign(w, i):
        w.vertices(5)
        hs = [w.make(2, f if n != i else tuple(4 if v == f[0] else v for v in f), "reject") for n, f in enumerate(F)]
        w.makec(3, hs, "reject")
    for i in range(4):
        S.append((f"tetrahedron with a foreign face {i}", (0,), lambda w, i=i: foreign(w, i)))
    # isValid alone, in every order
    def valid(w, es, n):
        w.vertices(4)
        hs = [w.make(n - 1, e, "reject") for e in es]
        want = w.m_valid(n, [w.H[h][0] for h in hs])
        w.stage = "reject"
        for p in perms(range(n + 1)):
            try:
                got = w.same_state("reject", "validating a composition", lambda: w.yes(w.call(f"valid{n}", [w.H[hs[i]][1] for i in p])))
            except I.PathEnd as e:
                if e.kind != "abort":
                    raise
                got = False
            if got != want:
                w.p("reject", f"isValid reports {got} for faces {es} in order {p}, expected {want}")
                raise Discrepancy()
    for es in ([(0, 1), (1, 2), (2, 0)], [(0, 1), (1, 2), (0, 2)], [(1, 0), (0, 2), (2, 1)], [(0, 1), (2, 1), (2, 0)], [(0, 1), (1, 2), (2, 3)]):
        S.append((f"isValid on edges {es} in every order", (1,), lambda w, es=es: valid(w, es, 2)))
    for i in range(5):
        es = [(f[1], f[0], f[2]) if n == i else f for n, f in enumerate(F)]
        S.append((f"isValid on four faces, face {i} reversed, in every order", (1,), lambda w, es=es: valid(w, es, 3)))
    run_scenarios(R, {"reject": "valid-composition"}, S, 100)
    R.assumptions.append("developer build: assertions and journal firewalls are live (in a release build the library's own checks are compiled out)")


# ---------------------------------------------------------------------------- T05
def t05(R):
    R.rule("canonical", "a simplex requested by its vertices is composed of the library's canonical faces with their canonical orientations, and "
           "reports its vertices as an even rearrangement of the requested ones; a segment's tail and head are its first and second vertex; "
           "its vertex set and edge set are those of the model")
    th = R.tier == "thorough"
    S = []

    def look(w, i, vs):
        k, h = w.H[i]
        n = k[0]
        w.stage = "canon"
        got = w.verts(n, h)
        if sorted(x if x is not None else -1 for x in got) != sorted(vs):
            w.p("canon", f"{NAMES[n]}{list(vs)} reports the vertices {got}")
            raise Discrepancy()
        if parity(got, list(vs)) != 1:
            w.p("canon", f"{NAMES[n]}{list(vs)} reports its vertices as {got}, an odd rearrangement")
            raise Discrepancy()
        got = w.verts(n, h, "fverts")
        if sorted(got) != sorted(vs):
            w.p("canon", f"the footprint of {NAMES[n]}{list(vs)} has the vertex set {got}")
            raise Discrepancy()
        if n == 1:
            for f, want in (("tail1", vs[0]), ("head1", vs[1])):
                r = w.call(f, h)
                if w.vert_of(w.target(r)) != want:
                    w.p("canon", f"{f[:-1]} of segment{list(vs)} is vertex {w.vert_of(w.target(r))}")
                    raise Discrepancy()
                w.ip.destroy(r)
        if not w.yes(w.call(f"sane{n}", h)):
            w.p("canon", f"{NAMES[n]}{list(vs)} fails its sanity check")
            raise Discrepancy()

    def edges(w, i):
        k, h = w.H[i]
        n = k[0]
        f = w.fn(f"edges{n}")
        t = D.strip_cvref(w.d.t(f["params"][1]["t"]))
        m = w.ip.default_construct(t)
        w.live.append(m)
        w.last = f["id"]
        w.ip.call_fn(f, None, [h, m])
        got = {id(w.target(e[0])) for e in m.ents}
        comp = w.F[k[:2]]["comp"]
        want = {id(w.obj[q]) for q in (comp if n == 2 else [x for c in comp for x in w.F[c[:2]]["comp"]])}
        if got != want:
            w.p("canon", f"the edges of {show(k)} are {len(got)} segments, expected the {len(want)} edges of its faces")
            raise Discrepancy()
        w.ip.destroy(m)

    def one(w, n, p, q):
        w.vertices(n + 1)
        i = w.make(n, p, "canon")
        look(w, i, p)
        if q is not None:
            j = w.make(n, q, "canon")
            look(w, j, q)
            look(w, i, p)
        if n > 1:
            edges(w, i)
    for n in (1, 2, 3):
        for lay in order_types(n, th):
            for p in perms(range(n + 1)):
                if n == 2 and not th and lay[1][V1] != (0, 1, 2) and lay[1][V2] != (0, 1, 2):
                    continue
                qs = [None] + ([p[1:] + p[:1], p[::-1], (p[1], p[0]) + p[2:]] if (lay[0] == 0 and n == 3) or (n == 2 and lay[1][V2] == lay[1][V1]) or n == 1 else [])
                for q in qs:
                    S.append((f"{NAMES[n]}{p}" + (f" after which {q}" if q else "") + ", " + oname(lay), lay,
                              lambda w, n=n, p=p, q=q: one(w, n, p, q)))

    def neighbours(w, a, b):
        w.vertices(5)
        i = w.make(3, a, "canon")
        j = w.make(3, b, "canon")
        look(w, i, a)
        look(w, j, b)
        for f in ((0, 1, 2), (2, 1, 3), (1, 0, 2), (4, 2, 1)):
            look(w, w.make(2, f, "canon"), f)

    def connected(w):
        w.vertices(4)
        segs = [(0, 1), (1, 2), (2, 1), (1, 0), (2, 3), (3, 0)]
        hs = [w.make(1, s, "canon") for s in segs]
        w.stage = "canon"
        for a, x in zip(hs, segs):
            for b, y in zip(hs, segs):
                r = w.same_state("canon", "headTailConnected", lambda: w.yes(w.call("connected", w.H[a][1], w.H[b][1])))
                if r != (x[1] == y[0]):
                    w.p("canon", f"headTailConnected of segments {x} and {y} is {r}")
                    raise Discrepancy()
    for k in range(6 if th else 3):
        for a, b in (((0, 1, 2, 3), (4, 2, 1, 0)), ((3, 1, 0, 2), (1, 2, 4, 3)), ((2, 3, 0, 1), (0, 1, 2, 4))):
            S.append((f"tetrahedra {a} and {b}, address order {k}", (k,), lambda w, a=a, b=b: neighbours(w, a, b)))
        S.append((f"head-tail connection, address order {k}", (k,), connected))
    run_scenarios(R, {"canon": "canonical"}, S, 60)


# ---------------------------------------------------------------------------- T06
def t06(R):
    R.rule("flip", "flipping keeps the footprint and negates the orientation, flipping twice gives back the same object, flipping an existing "
           "orientation creates nothing, exists_flipped answers truthfully, and the opposite simplex lists its faces and vertices as an odd "
           "rearrangement (a flipped segment runs from head to tail)")
    th = R.tier == "thorough"
    S = []

    def one(w, n, p, g):
        w.vertices(max(n + 1, 2))
        i = w.make(n, p) if n else w.oriented_vertex(p[0], p[1])
        j = w.flip(i)
        a = w.flip(j)
        if w.H[a][0] != w.H[i][0]:
            w.p("flip", "flipping twice does not give back the simplex")
        if n:
            x, y = w.verts(n, w.H[i][1]), w.verts(n, w.H[j][1])
            if sorted(x) != sorted(y) or parity(x, y) != -1:
                w.p("flip", f"{NAMES[n]}{p} lists the vertices {x} and its flip {y}")
                raise Discrepancy()
        if n == 1:
            h = w.H[j][1]
            for f, want in (("tail1", p[1]), ("head1", p[0])):
                r = w.call(f, h)
                if w.vert_of(w.target(r)) != want:
                    w.p("flip", f"{f[:-1]} of the flipped segment {p} is vertex {w.vert_of(w.target(r))}")
                w.ip.destroy(r)
        for s in (1, -1):
            w.with_footprint(i, s, "flip")
            w.with_footprint(j, s, "flip")
        if g:
            w.erase(i, "flip")
            w.flip(j)

    def gone(w, n, p):
        """after the original is erased its flip is alone again"""
        w.vertices(n + 1)
        i = w.make(n, p)
        j = w.flip(i)
        w.erase(i, "flip")
        if w.yes(w.call(f"exf{n}", w.t, w.H[j][1])):
            w.p("flip", f"exists_flipped stays true after the opposite {NAMES[n]} was erased")
            raise Discrepancy()
        i = w.flip(j)
        w.erase(j, "flip")
        w.flip(i)

    def odd(w, n, p):
        """the flip is what an odd rearrangement of the vertices requests"""
        w.vertices(n + 1)
        i = w.make(n, p)
        j = w.make(n, (p[1], p[0]) + tuple(p[2:]), "flip")
        w.flip(i)
        w.flip(j)
    for k in range(6 if th else 3):
        for n in (0, 1, 2, 3):
            ps = perms(range(n + 1)) if n else [(0, 1), (0, -1)]
            if n == 3 and not th:
                ps = ps[::3]
            for p in ps:
                S.append((f"{NAMES[n]}{p} flipped, address order {k}", (k,), lambda w, n=n, p=p: one(w, n, p, False)))
                if n:
                    if n < 3 or k == 0:
                        S.append((f"{NAMES[n]}{p} flipped and erased, address order {k}", (k,), lambda w, n=n, p=p: gone(w, n, p)))
                    S.append((f"{NAMES[n]}{p} and its odd rearrangement, address order {k}", (k,), lambda w, n=n, p=p: odd(w, n, p)))
    run_scenarios(R, {"flip": "flip", "ident": "flip", "canon": "flip"}, S, 60)


# ---------------------------------------------------------------------------- T07
def t07(R):
    R.rule("query", "existence queries answer exactly what the history implies - for every order of the faces, for vertex pairs whose tips were never "
           "made, for one orientation only, and after erasure - and leave the topology unchanged")
    th = R.tier == "thorough"
    S = []

    def ask(w, n, hs, what):
        keys = [w.H[i][0] for i in hs]
        want = w.m_exists(n, keys)
        w.stage = "query"
        got = w.same_state("query", f"asking for {what}", lambda: w.yes(w.call(f"ex{n}", w.t, [w.H[i][1] for i in hs])))
        if got != want:
            w.p("query", f"exists reports {got} for {what}, expected {want}")
            raise Discrepancy()

    def askv(w, a, b):
        want = any(k[0] == 1 and k[1] == frozenset([a, b]) and ((k[2] > 0) == (w.F[k[:2]]["comp"][0][1] == frozenset([a]) and
                   w.F[k[:2]]["comp"][0][2] == -1)) for k in w.O)
        w.stage = "query"
        got = w.same_state("query", f"asking for the segment {a}-{b}", lambda: w.yes(w.call("exv", w.t, [w.vh[a], w.vh[b]])))
        if got != want:
            w.p("query", f"exists reports {got} for the segment from vertex {a} to {b}, expected {want}")
            raise Discrepancy()

    def askf(w, i):
        k, h = w.H[i]
        want = k[:2] + (-k[2],) in w.O
        w.stage = "query"
        got = w.same_state("query", "asking for the flip", lambda: w.yes(w.call(f"exf{k[0]}", w.t, h)))
        if got != want:
            w.p("query", f"exists_flipped reports {got} for {show(k)}, expected {want}")
            raise Discrepancy()

    def pairs(w, n=3):
        for a in range(n):
            for b in range(n):
                if a != b:
                    askv(w, a, b)

    def segs(w, s, t):
        w.vertices(3)
        pairs(w)
        i = w.make(1, s, "query")
        pairs(w)
        j = w.make(1, t, "query")
        pairs(w)
        askf(w, i)
        askf(w, j)
        o = [w.oriented_vertex(v, x, "query") for v, x in ((0, -1), (1, 1), (0, 1), (1, -1), (2, 1))]
        for a, b in ((0, 1), (1, 0), (2, 3), (3, 2), (0, 4), (4, 0)):
            ask(w, 1, [o[a], o[b]], f"the segment of tips {show(w.H[o[a]][0])} and {show(w.H[o[b]][0])}")
        w.erase(i, "query")
        pairs(w)
        if w.H[i] is None and w.H[j] is not None:
            askf(w, j)
    for k in range(3):
        for s in ((0, 1), (1, 0)):
            for t in ((1, 0), (0, 1), (0, 2), (2, 1)):
                S.append((f"segments {s} and {t}, address order {k}", (k,), lambda w, s=s, t=t: segs(w, s, t)))

    def tris(w, p, q):
        w.vertices(4)
        e = [w.make(1, x, "query") for x in ((0, 1), (1, 2), (2, 0))]
        r = [w.make(1, x, "query") for x in ((1, 0), (0, 2), (2, 1))]

        def all_orders(tag):
            for c, nm in ((e, "forward"), (r, "reverse")):
                for o in perms(range(3)):
                    ask(w, 2, [c[x] for x in o], f"the triangle of {nm} edges in order {o} {tag}")
        all_orders("before creation")
        i = w.make(2, p, "query")
        all_orders("after creation")
        askf(w, i)
        if q:
            j = w.make(2, q, "query")
            all_orders("after a second request")
            askf(w, j)
        w.erase(i, "query")
        all_orders("after erasure")
    for k in range(2):
        for p in perms(range(3)):
            for q in (None, (0, 1, 2), (0, 2, 1)):
                if k == 0 or q is None or th:
                    S.append((f"triangle {p} then {q}, address order {k}", (k,), lambda w, p=p, q=q: tris(w, p, q)))

    def tet(w, p):
        w.vertices(4)
        f = [w.make(2, x, "query") for x in ((0, 1, 2), (1, 3, 2), (3, 1, 0), (3, 0, 2))]
        os_ = perms(range(4)) if th else [(0, 1, 2, 3), (1, 0, 2, 3), (3, 2, 1, 0), (2, 3, 1, 0), (1, 2, 0, 3)]
        for o in os_:
            ask(w, 3, [f[x] for x in o], f"the tetrahedron of faces in order {o} before creation")
        i = w.make(3, p, "query")
        for o in os_:
            ask(w, 3, [f[x] for x in o], f"the tetrahedron of faces in order {o}")
        askf(w, i)
        w.flip(i, "query")
        askf(w, i)
        for o in os_[:3]:
            ask(w, 3, [f[x] for x in o], f"the tetrahedron of faces in order {o} after flipping")
    for p in perms(range(4)):
        if th or p[0] < 2:
            S.append((f"tetrahedron {p}", (1,), lambda w, p=p: tet(w, p)))
    run_scenarios(R, {"query": "query"}, S, 40)


# ---------------------------------------------------------------------------- T08
def t08(R):
    R.rule("flip-diagonal", "flipping the diagonal of two consistently oriented triangles sharing an edge yields two triangles on the other diagonal, "
           "consistently oriented, with exactly the boundary of the original pair; nothing else is created and the originals stay")
    S = []

    def one(w, a, b, c, e, swap, neg=(False, False)):
        w.t = w.call("top")
        if isinstance(w.t, I.Cell):
            w.t = w.t.v
        w.vertices(4)
        # triangles (a,b,c) and (b,a,e) share the edge ab, with opposite orientations on it; a negatively oriented one
        # is the reverse of a triangle that was requested before
        tri = [(a, b, c), (b, a, e)]
        for x, ng in zip(tri, neg):
            if ng:
                w.make(2, (x[1], x[0], x[2]), "diag")
        i = w.make(2, tri[0], "diag")
        j = w.make(2, tri[1], "diag")
        w.stage = "diag"
        if swap:
            i, j = j, i

        def net(keys):
            tot = {}
            for k in keys:
                for q in w.F[k[:2]]["comp"]:
                    s = q[2] * k[2]
                    tot[q[:2]] = tot.get(q[:2], 0) + s
            return {q: s for q, s in tot.items() if s}
        before = net([w.H[i][0], w.H[j][0]])
        pr = w.arr("std::pair<>", [w.H[i][1], w.H[j][1]])
        r = w.call("flipdiag", pr)
        w.ip.destroy(pr)
        if isinstance(r, I.Cell):
            r = r.v
        w.extra = [r]
        # which way the new diagonal was made first is free: ask
        sg = w.call("seg", w.t, [w.vh[c], w.vh[e]])
        if w.num(w.call("ori1", sg)) < 0:
            c, e = e, c
        w.ip.destroy(sg)
        # the model: the new diagonal runs both ways
        for s in ((c, e), (e, c)):
            w.m_make(1, s)
        out = []
        for nm in ("first", "second"):
            h = r.f[nm]
            vs = w.verts(2, h)
            if None in vs or len(set(vs)) != 3 or set(vs) not in ({c, e, a}, {c, e, b}):
                w.p("diag", f"flipping the diagonal of {(a, b, c)}, {(b, a, e)} gives a triangle on the vertices {vs}")
                raise Discrepancy()
            k = w.m_make(2, vs)
            w.received("diag", k, h, f"the new triangle {vs}")
            w.learn(k, h)
            w.hold(k, h)
            out.append(k)
        if out[0][:2] == out[1][:2]:
            w.p("diag", f"flipping the diagonal of {(a, b, c)}, {(b, a, e)} gives the same triangle twice")
            raise Discrepancy()
        if net(out) != before:
            w.p("diag", f"flipping the diagonal of {(a, b, c)}, {(b, a, e)} changes the boundary of the pair: {net(out)} instead of {before}")
            raise Discrepancy()
        w.counts("diag", "flipping a diagonal", refs=True)
    for p in perms(range(4)):
        for k in range(2):
            for ng in ((True, False), (False, True), (True, True)):
                for sw in (False, True):
                    if k == 1 or p[0] == 0 or R.tier == "thorough":
                        S.append((f"triangles {p[0]}{p[1]}{p[2]}{'-' if ng[0] else ''} and {p[1]}{p[0]}{p[3]}{'-' if ng[1] else ''}{', swapped' if sw else ''}, "
                                  f"address order {k}", (k,), lambda w, p=p, sw=sw, ng=ng: one(w, p[0], p[1], p[2], p[3], sw, ng)))
        for k in range(6 if R.tier == "thorough" else 3):
            for sw in (False, True):
                S.append((f"triangles {p[0]}{p[1]}{p[2]} and {p[1]}{p[0]}{p[3]}{', swapped' if sw else ''}, address order {k}", (k,),
                          lambda w, p=p, sw=sw: one(w, p[0], p[1], p[2], p[3], sw)))
    run_scenarios(R, {"diag": "flip-diagonal"}, S, 40)


# ---------------------------------------------------------------------------- T03
WIT = """
#include <mito/topology.h>
using namespace mito;
using namespace mito::topology;
template <class T> concept copyable_new = requires(const T & x) { new T(x); };
template <class T> concept movable_new = requires(T && x) { new T(std::move(x)); };
template <class T> concept default_new = requires { new T(); };
template <class T> concept copy_assigns = requires(T & x, const T & y) { x = y; };
template <class T> concept move_assigns = requires(T & x, T & y) { x = std::move(y); };
template <class T> concept deletable = requires(T * x) { delete x; };
template <class T> concept dtor_call = requires(T & x) { x.~T(); };
template <class T, class... A> concept makes = requires(A... a) { new T(a...); };
template <class T> concept const_deref = requires(const T & h, T & g) {
    requires std::is_const_v<std::remove_reference_t<decltype(*h.operator->())>>;
    requires std::is_const_v<std::remove_reference_t<decltype(*g.operator->())>>;
};
template <class R> constexpr bool sealed = !std::is_lvalue_reference_v<R> ? !std::is_pointer_v<R> || std::is_const_v<std::remove_pointer_t<R>>
                                                                          : std::is_const_v<std::remove_reference_t<R>>;
template <class H> concept fp_sealed = requires(const H & h) { requires sealed<decltype(h->footprint())>; };
template <class H> concept or_sealed = requires(const H & h) { requires sealed<decltype(h->orientation())>; };
template <class H> concept comp_sealed = requires(const H & h) { requires sealed<decltype(h->composition())>; };
template <class H> concept verts_sealed = requires(const H & h) { requires sealed<decltype(h->vertices())>; };
template <class H, int N> concept steals = requires(const H & h, const H & g) { *h = *g; };
"""


def t03(R):
    import witness
    R.rule("sealed-type", "no program outside the factories can create, copy, move, assign or destroy a simplex, and a handle only ever exposes it as "
           "constant: each violating program is rejected by the compiler")
    R.rule("sealed-state", "the faces, footprint and orientation of a simplex are private, never mutable, exposed to no class but the repository that "
           "stores them, and no library code casts their constancy away")
    body = WIT
    for n in range(4):
        for kind in ("simplex_t", "unoriented_simplex_t"):
            if kind == "unoriented_simplex_t" and n == 0:
                # vertices have no state beyond their identity
                pass
            T = f"{kind}<{n}>"
            res = f"std::remove_const_t<typename {T}::resource_type>"
            tag = f"{'Oriented' if kind == 'simplex_t' else ''}Simplex<{n}>"
            for w, c in (("copy", f"!copyable_new<{res}>"), ("move", f"!movable_new<{res}>"), ("copy-assign", f"!copy_assigns<{res}>"),
                         ("move-assign", f"!move_assigns<{res}>"), ("delete", f"!deletable<{res}>"), ("destructor-call", f"!dtor_call<{res}>"),
                         ("default", f"!default_new<{res}>"), ("constant-behind-handle", f"const_deref<{T}>"),
                         ("assign-through-handle", f"!steals<{T}, {n}>")):
                body += f'WITNESS("{tag}:{w}", {c});\n'
            if kind == "simplex_t":
                body += f'WITNESS("{tag}:make", !makes<{res}, const unoriented_simplex_t<{n}> &, orientation_t>);\n'
                body += f'WITNESS("{tag}:make2", !makes<{res}, unoriented_simplex_t<{n}>, int>);\n'
                body += f'WITNESS("{tag}:footprint", fp_sealed<{T}>);\nWITNESS("{tag}:orientation", or_sealed<{T}>);\n'
            elif n:
                body += f'WITNESS("{tag}:make", !makes<{res}, const simplex_composition_t<{n}> &>);\n'
                body += f'WITNESS("{tag}:make2", !makes<{res}, simplex_composition_t<{n}>>);\n'
            if n:
                body += f'WITNESS("{tag}:faces", comp_sealed<{T}>);\nWITNESS("{tag}:vertices", verts_sealed<{T}>);\n'
    for w, c in (("copy", "!copyable_new<Topology>"), ("move", "!movable_new<Topology>"), ("assign", "!copy_assigns<Topology>"), ("make", "!default_new<Topology>"),
                 ("delete", "!deletable<Topology>")):
        body += f'WITNESS("Topology:{w}", {c});\n'
    d = load()
    recs = {}
    for r in d.recs.values():
        if r.get("b") in (TOPO[:-8] + "Simplex", TOPO[:-8] + "OrientedSimplex", TOPO):
            recs.setdefault(r["b"].split("::")[-1], []).append(r)
    for n in ("Simplex", "OrientedSimplex", "Topology"):
        if n not in recs:
            raise D.AnalysisBroken("anchor vanished: class " + n)
    for i, holds in witness.compile(body):
        cls = i.split(":")[0].split("<")[0]
        R.check(holds, "sealed-type", i, d.where(recs[cls][0], recs[cls][0]["l"]),
                {"copy": "anybody can copy one", "move": "anybody can move one", "delete": "anybody can delete one", "make": "anybody can create one",
                 "default": "anybody can create one"}.get(i.split(":")[1], "the type system lets a user modify it"))
    for cls in ("Simplex", "OrientedSimplex"):
        for r in recs[cls]:
            nm = f"{cls}<{r.get('ta', '')}>"
            for f in r["fields"]:
                R.check(f["acc"] != "public", "sealed-state", f"{nm}::{f['n']} is hidden", d.where(r, f["l"]), "the member is public")
                R.check(not f.get("mutable"), "sealed-state", f"{nm}::{f['n']} is not mutable", d.where(r, f["l"]), "the member can change behind a handle to constant")
                t = d.t(f["t"])
                R.check(not t.rstrip().endswith(("*", "&")), "sealed-state", f"{nm}::{f['n']} is held by value", d.where(r, f["l"]), "the member lives elsewhere and can change there")
            for f in r["friends"]:
                t = d.t(f["t"]) if "t" in f else f.get("ct") or f.get("n", "")
                b = D.base_name(t)
                R.check("Repository" in b or "Factory" in b, "sealed-state", f"{nm} befriends {b}", d.where(r, r["l"]), "a class other than the storage can reach inside")
    nf = 0
    for f in d.fns.values():
        if not d.in_repo(f) or "/topology/" not in d.rel(f):
            continue
        nf += 1
        R.functions.add(f"{d.rel(f)}:{f['l']} {f['b']}")
        hit = [e for e in D.walk(f) if e.get("k") == "cast" and e.get("how") in ("const", "reinterpret", "cstyle") and drops_const(d, e)]
        R.check(not hit, "sealed-state", f"{f['q']} at line {f['l']} keeps constancy", d.where(f, hit[0].get("l") if hit else None),
                "casts away the constancy of a simplex")
    R.count("functions_scanned", nf)
    R.minimum = 90


def drops_const(d, e):
    t = d.t(e["t"]) if "t" in e else ""
    s = d.t(e["e"]["t"]) if isinstance(e.get("e"), dict) and "t" in e["e"] else ""
    return "topology::" in t and "Simplex<" in t and "const" in s and "const mito::topology" not in t and "const" not in t
