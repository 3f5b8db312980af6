"""U02-U05: object lifetime, slot bookkeeping, segment memory, iteration of the segmented containers.

The containers' own constructors and operations are interpreted abstractly over a shape
abstraction of segment memory (segments of slots, each slot raw / live / gone), from the empty
container through every history of the bounded family, and observed only through the public
operations, so that the verdict does not depend on how the bookkeeping is represented."""
import itertools
import db as D
import interp as I
from poly import Poly, ZERO, ONE
from props.utilities import load, ptr_field, NS, RES, ITEM, SP, SPT

SA = NS + "SegmentedAllocator"
REPO_T = NS + f"Repository<{SPT}>"
VEC_T = NS + f"SegmentedVector<{ITEM}>"
KINDS = (("repository", NS + "Repository", REPO_T, RES), ("vector", NS + "SegmentedVector", VEC_T, ITEM))


class Mem:
    """segments handed out by operator new, in order"""

    def __init__(self, ip, elem_t):
        self.ip = ip
        self.t = elem_t
        self.segs = []
        self.freed = []
        self.events = []
        self.by_obj = {}
        self.esz = ip.db.rec_by_t[elem_t]["sz"]

    def new(self, size):
        ip = self.ip
        size = ip.facts.norm(size)
        if not size.is_const():
            raise I.Undecided(f"allocation of {size!r} bytes")
        n = int(size.cval())
        room = max(n // self.esz, 0)
        s = I.Arr([None] * room, self.t, "segment", name=f"segment {len(self.segs)}")
        s.meta.update(state=["raw"] * room, links={}, bytes=n, room=room, elems=set())
        self.segs.append(s)
        self.events.append(("alloc", len(self.segs) - 1))
        return s

    def at(self, p):
        """(segment number, slot) of a pointer or element"""
        if isinstance(p, I.Obj):
            return self.by_obj.get(id(p))
        if isinstance(p, I.Ptr) and isinstance(p.b, I.Arr):
            for k, s in enumerate(self.segs):
                if s is p.b:
                    o = self.ip.facts.norm(p.o)
                    if o.is_const():
                        return k, int(o.cval())
        if isinstance(p, I.Ptr) and isinstance(p.b, I.Obj) and id(p.b) in self.by_obj:
            k, i = self.by_obj[id(p.b)]
            o = self.ip.facts.norm(p.o)
            if o.is_const():
                return k, i + int(o.cval())
        return None

    def elem(self, k, i):
        s = self.segs[k]
        if s.e[i] is None:
            o = I.Obj(self.t, lazy=True, name=f"{s.name}[{i}]")
            s.e[i] = o
            self.by_obj[id(o)] = (k, i)
        return s.e[i]

    def state(self, at):
        return self.segs[at[0]].meta["state"][at[1]]

    def states(self):
        return {(k, i): st for k, s in enumerate(self.segs) for i, st in enumerate(s.meta["state"]) if st != "raw"}


class StorageInterp(I.Interp):
    def __init__(self, db):
        super().__init__(db)
        self.smem = None
        self.problems = []
        self.raw_reads = []
        self.deref_hook = StorageInterp._deref
        self.over["operator new"] = StorageInterp._opnew
        self.over["operator delete"] = StorageInterp._opdelete
        self.placement_hook = StorageInterp._placement
        self.dtorcall_hook = StorageInterp._dtorcall
        self.ptr_eq_hook = StorageInterp._peq
        self.ptr_lt_hook = StorageInterp._plt
        self.addr_hook = StorageInterp._addr

    def reset(self):
        super().reset()
        self.problems = []
        self.smem = None

    def canon(self, a):
        if self.smem and isinstance(a, I.Ptr) and isinstance(a.b, I.Obj) and id(a.b) in self.smem.by_obj:
            k, i = self.smem.by_obj[id(a.b)]
            return I.Ptr(self.smem.segs[k], Poly.const(i) + a.o)
        return a

    @staticmethod
    def _addr(ip, p):
        if ip.smem and isinstance(p, I.Obj) and id(p) in ip.smem.by_obj:
            k, i = ip.smem.by_obj[id(p)]
            return I.Ptr(ip.smem.segs[k], Poly.const(i))
        return None

    @staticmethod
    def _peq(ip, a, b):
        a2, b2 = ip.canon(a), ip.canon(b)
        if a2 is not a or b2 is not b:
            return ip.ptr_eq(a2, b2)
        return None

    @staticmethod
    def _plt(ip, op, a, b):
        a, b = ip.canon(a), ip.canon(b)
        if a.b is b.b:
            return ip.cmp(op, a.o, b.o)
        m = ip.smem
        x, y = m.at(a) if m else None, m.at(b) if m else None
        if x and y:
            # disjoint allocations: the order of their addresses is unknown but consistent
            r = ip.decide(I.Cond("opq", ("addr<", min(x[0], y[0]), max(x[0], y[0]))))
            if x[0] > y[0]:
                r = not r
            return r if op in ("<", "<=") else not r
        return None

    @staticmethod
    def _deref(ip, v, t):
        m = ip.smem
        if m is None:
            return None
        at = m.at(v)
        if at is None:
            return None
        k, i = at
        s = m.segs[k]
        if k in m.freed:
            raise I.PathEnd("ub", f"access to {s.name} after it was freed")
        room = s.meta["room"]
        if t is not None and t.endswith("*"):
            if i < 0 or i * m.esz + 8 > s.meta["bytes"]:
                raise I.PathEnd("ub", f"segment link accessed behind {i} slots, outside the {s.meta['bytes']} bytes allocated for {s.name}")
            if i < room and s.meta["state"][i] != "raw":
                raise I.PathEnd("ub", f"segment link overlaps the element in slot {i} of {s.name}")
            c = s.meta["links"].get(i)
            if c is None:
                c = s.meta["links"][i] = I.Cell(I.Term("uninit", "link of " + s.name), None, "link")
            return c
        if not 0 <= i < room:
            raise I.PathEnd("ub", f"element access at slot {i} of a segment with room for {room} element(s)")
        if s.meta["state"][i] == "raw":
            ip.problems.append(("ub", f"slot {i} of {s.name} is accessed although nothing was ever constructed there"))
        return m.elem(k, i)

    @staticmethod
    def _opnew(ip, c):
        if ip.smem is None:
            return NotImplemented
        return I.Ptr(ip.smem.new(ip.n(c.av(0))))

    @staticmethod
    def _opdelete(ip, c):
        m = ip.smem
        if m is None:
            return NotImplemented
        p = ip.canon(c.av(0))
        if p is I.NULL:
            return None
        at = m.at(p)
        if at is None or at[1] != 0:
            ip.problems.append(("mem", f"memory freed at {p!r}, which is not the start of a segment"))
            return None
        if at[0] in m.freed:
            ip.problems.append(("mem", f"segment {at[0]} is freed twice"))
        for i, st in enumerate(m.segs[at[0]].meta["state"]):
            if st == "live":
                ip.problems.append(("life", f"segment {at[0]} is freed while the element in slot {i} has not been destroyed"))
        m.freed.append(at[0])
        m.events.append(("free", at[0]))
        return None

    @staticmethod
    def _placement(ip, loc, t, e):
        m = ip.smem
        if loc is I.NULL:
            raise I.PathEnd("ub", "element constructed at a null location")
        at = m.at(loc) if m else None
        if at is None:
            return None
        k, i = at
        s = m.segs[k]
        if not 0 <= i < s.meta["room"]:
            raise I.PathEnd("ub", f"element constructed at slot {i} of a segment with room for {s.meta['room']}")
        if i in s.meta["links"]:
            raise I.PathEnd("ub", f"element constructed over the link of {s.name}")
        if k in m.freed:
            raise I.PathEnd("ub", f"element constructed in freed {s.name}")
        if s.meta["state"][i] == "live":
            ip.problems.append(("life", f"slot {i} of segment {k} is constructed over an element that was not destroyed"))
        o = I.Obj(m.t, lazy=False, name=f"{s.name}[{i}]")
        s.e[i] = o
        m.by_obj[id(o)] = at
        s.meta["state"][i] = "live"
        m.events.append(("construct", at))
        if e.get("init") is not None:
            v = ip.init_place(t, e["init"])
            o.f.update(v.f)
        return I.Ptr(s, Poly.const(i))

    @staticmethod
    def _dtorcall(ip, p, e):
        m = ip.smem
        if m is None:
            return False
        at = m.by_obj.get(id(p))
        if at is None:
            return False
        st = m.state(at)
        if st == "gone":
            ip.problems.append(("life", f"slot {at[1]} of segment {at[0]} is destroyed a second time"))
        elif st == "raw":
            ip.problems.append(("life", f"slot {at[1]} of segment {at[0]} is destroyed although nothing was constructed there"))
        if at[0] in m.freed:
            ip.problems.append(("life", f"slot {at[1]} of segment {at[0]} is destroyed after its memory was freed"))
        m.segs[at[0]].meta["state"][at[1]] = "gone"
        m.events.append(("destroy", at))
        return True


def first(fs, what):
    if not fs:
        raise D.AnalysisBroken("anchor vanished: " + what)
    return fs[0]


class Ops:
    """the public operations of one container kind"""

    def __init__(self, d, ip, kind, base, cls, elem):
        self.d, self.ip, self.kind, self.base, self.cls, self.elem = d, ip, kind, base, cls, elem
        self.ctor = first(d.find(base + "::" + base.split("::")[-1], cls,
                                 lambda f: f.get("ctor") == "other" and len(f["params"]) == 1 and d.t(f["params"][0]["t"]) == "int"),
                          f"{base} constructor from a segment size")
        self.emplace_f = first(d.find("verif::u_repo_emplace" if kind == "repository" else "verif::u_vec_emplace"), "emplace driver")
        self.emplace_w = first(d.find(base + "::emplace", cls), base + "::emplace")
        self.erase_f = first(d.find(base + "::erase", cls), base + "::erase")
        self.size_f = first(d.find(base + "::size", cls), base + "::size")
        self.cap_f = first(d.find(base + "::capacity", cls), base + "::capacity")
        self.begin_f = first(d.find(base + "::begin", cls), base + "::begin")
        self.end_f = first(d.find(base + "::end", cls), base + "::end")
        it = NS + f"SegmentedContainerIterator<{cls}>"
        self.it_t = it
        ib = NS + "SegmentedContainerIterator"
        self.pre = first(d.find(ib + "::operator++", it, lambda f: not f["params"]), "prefix increment")
        self.post = first(d.find(ib + "::operator++", it, lambda f: len(f["params"]) == 1), "postfix increment")
        self.star = first(d.find(ib + "::operator*", it), "iterator dereference")
        self.arrow = first(d.find(ib + "::operator->", it), "iterator member access")
        self.ne = first([f for f in d.fns.values() if f["b"] == NS + "operator!=" and D.strip_cvref(d.t(f["params"][0]["t"])) == it],
                        "iterator inequality") if any(
            f["b"] == NS + "operator!=" and D.strip_cvref(d.t(f["params"][0]["t"])) == it for f in d.fns.values()) else None
        self.eq = first([f for f in d.fns.values() if f["b"] == NS + "operator==" and D.strip_cvref(d.t(f["params"][0]["t"])) == it],
                        "iterator equality")
        self.idx = [f for f in d.find(base + "::operator[]", cls)]
        self.valid_f = first(d.find(NS + ("Shareable" if kind == "repository" else "Invalidatable") + "::is_valid"), "is_valid")
        if kind == "repository":
            self.H = ptr_field(d, SPT)
            self.reset_f = first(d.find(SP + "::reset", SPT), "handle reset")
            self.mk_f = first(d.find(SP + "::SharedPointer", SPT, lambda f: f.get("ctor") == "other" and len(f["params"]) == 1), "handle ctor")


class State:
    """one container being driven through a history on the current abstract path"""

    def __init__(self, ops, S):
        ip = ops.ip
        self.o = ops
        self.ip = ip
        self.S = S
        self.m = ip.smem = Mem(ip, ops.elem)
        self.c = I.Obj(ops.cls, name=ops.kind)
        ip.call_fn(ops.ctor, self.c, [I.Cell(Poly.const(S), "int")])
        self.order = []       # element number -> slot
        self.handles = {}     # element number -> handle / element
        self.payload = {}
        self.live = []        # element numbers inserted and not erased, in order
        self.unref = set()    # live but without outstanding handle
        self.free = []        # slots erased and not reused, in erase order
        self.slots = []       # every slot ever used, in order of first use
        self.probs = []       # (tag, text)

    def p(self, tag, text):
        self.probs.append((tag, text))

    def all_problems(self):
        return self.probs + self.ip.problems

    def num(self, f, what):
        v = self.ip.facts.norm(self.ip.n(self.ip.call_fn(f, self.c, [])))
        if not v.is_const():
            raise I.Undecided(f"{what} is {v!r}")
        return int(v.cval())

    def size(self):
        return self.num(self.o.size_f, "size()")

    def capacity(self):
        return self.num(self.o.cap_f, "capacity()")

    # -- operations, each followed by the oracle's view of what must have happened
    def emplace(self):
        m, ip = self.m, self.ip
        e = len(self.order)
        val = Poly.atom(("payload", e))
        before = m.states()
        nseg = len(m.segs)
        ne = len(m.events)
        cap0 = self.capacity()
        n0 = self.size()
        r = ip.call_fn(self.o.emplace_f, None, [self.c, val])
        ev = m.events[ne:]
        cons = [x[1] for x in ev if x[0] == "construct"]
        if len(cons) != 1:
            self.p("life", f"inserting one element constructs {len(cons)}")
            raise I.PathEnd("stop", "")
        at = cons[0]
        for x in ev:
            if x[0] == "destroy" and x[1] != at:
                self.p("life", f"inserting an element destroys the one in {x[1]}")
        if m.state(at) != "live":
            self.p("life", "the inserted element is destroyed again at once")
        for k, st in before.items():
            if k != at and m.state(k) != st:
                self.p("life", f"inserting an element changes slot {k} from {st} to {m.state(k)}")
        if at in [self.order[q] for q in self.live]:
            self.p("life", f"a live element's slot {at} is handed out again")
            self.p("slots", f"a live element's slot {at} is handed out again")
        # reuse before growth
        if self.free:
            if at not in self.free:
                self.p("slots", f"slot {at} is taken although erased slots {self.free} are available for reuse")
            else:
                self.free.remove(at)
        elif at in self.slots:
            self.p("slots", f"slot {at} is reused although no erased slot is available")
        if len(m.segs) > nseg and n0 < cap0:
            self.p("slots", f"new memory is allocated although {n0} of {cap0} slots are in use")
        if at not in self.slots:
            self.slots.append(at)
        # the caller receives the new element
        if self.o.kind == "repository":
            p = r.f[self.o.H].v if isinstance(r, I.Obj) else None
            got = m.at(p)
        else:
            got = m.at(r)
        if got != at:
            self.p("slots", f"the insertion returns the element in {got} instead of the new one in {at}")
        self.order.append(at)
        self.handles[e] = r
        self.payload[e] = val
        self.live.append(e)
        return e

    def erase(self, e):
        m, ip = self.m, self.ip
        at = self.order[e]
        before = m.states()
        ne = len(m.events)
        if e in self.unref:
            self.take(e)
        r = ip.truth(ip.call_fn(self.o.erase_f, self.c, [self.handles[e]]))
        ev = m.events[ne:]
        if r is not True:
            self.p("life", "erasing a present element does not report success")
        des = [x[1] for x in ev if x[0] == "destroy"]
        if self.o.kind == "repository":
            if des != [at]:
                self.p("life", f"erasing the element in {at} destroys the elements in {des}")
            if self.handles[e].f[self.o.H].v is not I.NULL:
                self.p("life", "the caller's handle still points to the destroyed element")
        for k, st in before.items():
            if k != at and m.state(k) != st:
                self.p("life", f"erasing the element in {at} changes slot {k} from {st} to {m.state(k)}")
        if [x for x in ev if x[0] == "construct"]:
            self.p("life", "erasing constructs an element")
        if [x for x in ev if x[0] in ("alloc", "free")]:
            self.p("mem", "erasing an element allocates or frees segments")
        k, i = at
        if ip.decide(ip.truth(ip.call_fn(self.o.valid_f, m.elem(k, i), []))):
            self.p("life", "the erased element still reports to be valid")
        self.live.remove(e)
        self.free.append(at)

    def erase_nothing(self):
        """erase through an empty handle / an already erased element"""
        ip, m = self.ip, self.m
        if self.o.kind == "repository":
            arg = I.Obj(SPT, {self.o.H: I.Cell(I.NULL, RES + " *")}, name="handle")
        elif self.free:
            k, i = self.free[-1]
            arg = m.elem(k, i)
        else:
            return
        before, n0, ne = m.states(), self.size(), len(m.events)
        r = ip.truth(ip.call_fn(self.o.erase_f, self.c, [arg]))
        if r is not False:
            self.p("life", "erasing nothing reports success")
        if m.states() != before or len(m.events) != ne:
            self.p("life", "erasing nothing constructs or destroys elements")
        if self.size() != n0:
            self.p("slots", f"erasing nothing changes the size from {n0} to {self.size()}")

    def drop(self, e):
        """the last handle on a resource goes away without erasing it"""
        self.ip.call_fn(self.o.reset_f, self.handles[e], [])
        self.unref.add(e)

    def take(self, e):
        k, i = self.order[e]
        h = I.Obj(SPT, name="handle")
        self.ip.call_fn(self.o.mk_f, h, [I.Cell(I.Ptr(self.m.segs[k], Poly.const(i)), RES + " *")])
        self.handles[e] = h
        self.unref.discard(e)

    # -- observations
    def observe_slots(self):
        if self.size() != len(self.live):
            self.p("slots", f"size() is {self.size()} with {len(self.live)} elements inserted and not erased")
        cap = self.capacity()
        if cap < len(self.slots):
            self.p("slots", f"capacity() is {cap} although {len(self.slots)} slots are in use")
        total = sum(s.meta["room"] for k, s in enumerate(self.m.segs) if k not in self.m.freed)
        if cap > total:
            self.p("slots", f"capacity() is {cap} although there is room for {total} elements")
        if len(set(self.order[e] for e in self.live)) != len(self.live):
            self.p("slots", "two live elements share a slot")

    def observe_memory(self):
        ip, m = self.ip, self.m
        if m.freed:
            self.p("mem", f"segment(s) {m.freed} are freed while the container is alive")
        for s in m.segs:
            if s.meta["room"] < self.S:
                self.p("mem", f"{s.name} has room for {s.meta['room']} elements instead of {self.S}")
        for e in self.live:
            k, i = self.order[e]
            o = m.elem(k, i)
            v = o.f.get("_payload")
            if v is None or ip.n(v) != self.payload[e]:
                self.p("mem", f"the content of element {e} changed")
        # random access by position of first use
        for f in self.o.idx:
            for n, at in enumerate(self.slots):
                r = ip.call_fn(f, self.c, [I.Cell(Poly.const(n), "int")])
                if m.at(r) != at:
                    self.p("mem", f"operator[]({n}) yields {m.at(r)} instead of {at}")

    def expected(self):
        """elements an iteration must visit: the valid ones"""
        out = []
        for e in self.live:
            if e not in self.unref:
                out.append(self.order[e])
        return sorted(out)

    def observe_iteration(self):
        ip, m = self.ip, self.m
        want = self.expected()
        for form in ("prefix", "postfix"):
            it = ip.call_fn(self.o.begin_f, self.c, [])
            end = ip.call_fn(self.o.end_f, self.c, [])
            seen = []
            for _ in range(len(self.slots) + 2):
                if self.o.ne is not None:
                    more = ip.decide(ip.truth(ip.call_fn(self.o.ne, None, [it, end])))
                else:
                    more = not ip.decide(ip.truth(ip.call_fn(self.o.eq, None, [it, end])))
                if not more:
                    break
                x = ip.call_fn(self.o.star, it, [])
                at = m.at(x.f[self.o.H].v) if self.o.kind == "repository" and isinstance(x, I.Obj) and self.o.H in x.f else m.at(x)
                if self.o.kind == "repository" and isinstance(x, I.Obj) and x.cls == SPT:
                    ip.destroy(x)
                seen.append(at)
                if form == "prefix":
                    y = ip.call_fn(self.o.arrow, it, [])
                    a2 = m.at(y.f[self.o.H].v) if isinstance(y, I.Obj) and self.o.H_in(y) else m.at(y)
                    if isinstance(y, I.Obj) and y.cls == SPT:
                        ip.destroy(y)
                    if a2 != at:
                        self.p("iter", f"the arrow of an iterator on {at} leads to {a2}")
                    ip.call_fn(self.o.pre, it, [])
                else:
                    old = ip.call_fn(self.o.post, it, [I.Cell(ZERO, "int")])
                    y = ip.call_fn(self.o.star, old, [])
                    a2 = m.at(y.f[self.o.H].v) if isinstance(y, I.Obj) and self.o.H_in(y) else m.at(y)
                    if isinstance(y, I.Obj) and y.cls == SPT:
                        ip.destroy(y)
                    if a2 != at:
                        self.p("iter", f"postfix increment returns an iterator on {a2} instead of {at}")
            else:
                self.p("iter", f"{form} iteration does not end after {len(seen)} elements")
                continue
            if sorted(map(str, seen)) != sorted(map(str, want)):
                self.p("iter", f"{form} iteration visits {seen} instead of the valid elements {want}")

    def teardown(self):
        m, ip = self.m, self.ip
        before = m.states()
        ne = len(m.events)
        # elements not yet destroyed
        alive = {k for k, st in before.items() if st == "live"}
        for e, h in self.handles.items():
            pass
        ip.destroy(self.c)
        ev = m.events[ne:]
        for k in before:
            nd = sum(1 for x in ev if x[0] == "destroy" and x[1] == k)
            if nd != (1 if k in alive else 0):
                self.p("life", f"the {'living' if k in alive else 'already destroyed'} element in {k} is destroyed {nd} times when the container dies")
        for k in range(len(m.segs)):
            nf = sum(1 for x in m.events if x == ("free", k))
            if nf != 1:
                self.p("mem", f"segment {k} is freed {nf} times")
        if [x for x in ev if x[0] in ("construct", "alloc")]:
            self.p("mem", "destroying the container allocates or constructs")


def _h_in(self, y):
    return self.kind == "repository" and getattr(self, "H", None) in y.f


Ops.H_in = _h_in


def histories(maxn, S_list, kind):
    """(S, fill, erased in order, dropped, refill, second erase)"""
    for S in S_list:
        for n in range(0, maxn + 1):
            for k in range(0, n + 1):
                for er in itertools.permutations(range(n), k):
                    # beyond three erased elements keep ascending and descending order only
                    if k > 3 and list(er) not in (sorted(er), sorted(er, reverse=True)):
                        continue
                    refills = {0, 1, k, k + 1} if k else {0}
                    for rf in sorted(refills):
                        yield S, n, er, (), rf
            if kind == "repository":
                for k in range(1, n + 1):
                    for dr in itertools.combinations(range(n), k):
                        yield S, n, (), dr, 1
                        rest = [x for x in range(n) if x not in dr]
                        if rest:
                            yield S, n, (rest[0],), dr, 2


def hname(kind, h):
    S, n, er, dr, rf = h
    s = f"{kind} S={S}: insert {n}"
    if dr:
        s += f", release {list(dr)}"
    if er:
        s += f", erase {list(er)}"
    if rf:
        s += f", insert {rf}"
    return s


def drive(R, tag, rules, observe, minimum):
    """run every history; report the problems carrying `tag`"""
    d = load()
    ip = StorageInterp(d)
    ip.MAXPATHS = 4096
    maxn = 5 if R.tier == "thorough" else 4
    S_list = (1, 2, 3, 4) if R.tier == "thorough" else (1, 2, 3)
    nops = 0
    for kind, base, cls, elem in KINDS:
        ops = Ops(d, ip, kind, base, cls, elem)
        fd = ip.dtor_of(cls)
        where = {"ins": d.where(ops.emplace_w), "era": d.where(ops.erase_f), "tear": d.where(fd) if fd else cls, "obs": d.where(ops.begin_f),
                 "ctor": d.where(ops.ctor)}
        agg = {}

        for h in histories(maxn, S_list, kind):
            S, n, er, dr, rf = h
            stage = ["ctor"]
            nm = hname(kind, h)

            def body(ip):
                nonlocal nops
                stage[0] = "ctor"
                s = State(ops, S)
                done = []

                def after():
                    stage[0] = "obs"
                    observe(s)
                try:
                    for q in range(n):
                        stage[0] = "ins"
                        s.emplace()
                    for e in dr:
                        s.drop(e)
                    for e in er:
                        stage[0] = "era"
                        s.erase(e)
                        s.erase_nothing()
                    for q in range(rf):
                        stage[0] = "ins"
                        s.emplace()
                    # every prefix of a history is itself a member of the family
                    after()
                    stage[0] = "tear"
                    s.teardown()
                except I.PathEnd as e:
                    if e.kind == "stop":
                        pass
                    elif e.kind == "ub":
                        s.p("ub", f"{e.why} (while {dict(ctor='constructing', ins='inserting', era='erasing', obs='observing', tear='destroying')[stage[0]]})")
                    else:
                        raise
                nops += n + len(er) + rf
                return s.all_problems(), stage[0]
            rule = rules[0]
            try:
                bad = None
                for kind_, r in ip.paths(body):
                    if kind_ != "ok":
                        R.und(rule, nm, where[stage[0]], f"path ends with {kind_} {r}")
                        bad = bad or "u"
                        continue
                    probs, st = r
                    mine = list(dict.fromkeys(t for g, t in probs if g == tag or g == "ub"))
                    if mine:
                        bad = (mine, st)
                        break
                if bad is None:
                    R.ok(rule, nm, where["tear"])
                elif bad != "u":
                    R.bad(rule, nm, where[bad[1]], "; ".join(bad[0][:3]))
            except I.OUT as e:
                R.und(rule, nm, where[stage[0]], f"outside the analysed idioms: {e}")
    R.used(ip)
    R.count("abstract_operations", nops)
    R.minimum = minimum
    R.assumptions.append(f"histories up to {maxn} insertions, every erase order up to three elements, segment sizes {list(S_list)}; element contents and addresses abstract")


def u02(R):
    R.rule("lifetime", "along every history: an insertion constructs exactly one element, never over one that was not destroyed; an "
           "erasure destroys exactly the erased element and empties the handle; erasing nothing does nothing; the container's "
           "destruction destroys every remaining element once and none twice, before its memory is released")
    drive(R, "life", ["lifetime"], lambda s: None, 200)


def u03(R):
    R.rule("occupancy", "along every history: size() counts inserted minus erased elements, capacity() the allocated slots, an "
           "erased slot is reused before any other slot or new memory is taken, no two live elements share a slot and the "
           "insertion returns the element it created")
    drive(R, "slots", ["occupancy"], lambda s: s.observe_slots(), 200)


def u04(R):
    R.rule("segment-memory", "along every history: accesses stay inside the allocated segments, existing elements keep their place and "
           "content, positional access yields the i-th slot, segments are released exactly once and only when the container dies")
    R.rule("move", "moving a container hands over every segment, element and free slot, leaves the source empty and releases nothing twice")
    drive(R, "mem", ["segment-memory"], lambda s: s.observe_memory(), 200)
    moves(R)


def moves(R):
    d = load()
    ip = StorageInterp(d)
    kind, base, cls, elem = KINDS[1]
    ops = Ops(d, ip, kind, base, cls, elem)
    mv = ip.special(cls, "movector")
    r = d.rec_by_t[cls]
    where = d.where(mv) if isinstance(mv, dict) else d.where(r)
    cases = [(2, 0, ()), (2, 1, ()), (2, 3, ()), (1, 3, (1,)), (2, 3, (0, 2)), (3, 4, (3,))]
    for S, n, er, again in [c + (False,) for c in cases] + [c + (True,) for c in cases]:
        nm = f"vector S={S}: insert {n}, erase {list(er)}, move" + (", insert into the source" if again else "")

        def body(ip):
            s = State(ops, S)
            for q in range(n):
                s.emplace()
            for e in er:
                s.erase(e)
            n0, c0 = s.size(), s.capacity()
            src = s.c
            if mv is None:
                dst = ip.copy(src, True)
            else:
                dst = I.Obj(cls, name="moved-to")
                ip.call_fn(mv, dst, [src])
            s.c = dst
            probs = []
            if (s.size(), s.capacity()) != (n0, c0):
                probs.append(f"size/capacity {(n0, c0)} become {(s.size(), s.capacity())} in the target of the move")
            s.observe_memory()
            s.observe_iteration()
            s.c = src
            if s.size() != 0 or s.capacity() != 0:
                probs.append(f"the source of a move still reports size {s.size()} and capacity {s.capacity()}")
            if again:
                # an emptied container is one to use again, with memory of its own
                old = len(s.m.segs)
                probs += [t for g, t in s.all_problems()]
                ne = len(s.m.events)
                s.emplace()
                ip.destroy(src)
                for what, at in s.m.events[ne:]:
                    if (at if isinstance(at, int) else at[0]) < old:
                        probs.append(f"inserting into the source of a move and destroying it: {what} in the memory that belongs to the target")
                return probs
            ne = len(s.m.events)
            ip.destroy(src)
            if len(s.m.events) != ne:
                probs.append("destroying the source of a move destroys elements or releases memory it handed over")
            s.c = dst
            s.emplace()
            s.observe_slots()
            s.observe_memory()
            s.teardown()
            return probs + [t for g, t in s.all_problems()]
        seg_paths(R, "move", nm, where, ip, body)
    R.used(ip)


def seg_paths(R, rule, inst, where, ip, body):
    try:
        st = "ok"
        for kind, r in ip.paths(body):
            if kind == "ub":
                R.bad(rule, inst, where, r)
                return
            if kind != "ok":
                st = f"path ends with {kind} {r}"
            elif r:
                R.bad(rule, inst, where, "; ".join(list(dict.fromkeys(r))[:3]))
                return
        if st == "ok":
            R.ok(rule, inst, where)
        else:
            R.und(rule, inst, where, st)
    except I.OUT as e:
        R.und(rule, inst, where, f"outside the analysed idioms: {e}")


def u05(R):
    R.rule("iteration", "after every step of every history, walking the container from begin to end (prefix and postfix increment, star and arrow) ends, "
           "accesses no memory outside the elements and visits exactly the valid elements, each once")
    drive(R, "iter", ["iteration"], lambda s: s.observe_iteration(), 200)
