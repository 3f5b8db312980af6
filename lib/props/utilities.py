"""U01-U06: reference counting, object lifetime, slot bookkeeping, segment memory, iteration, identity."""
import itertools
import db as D
import interp as I
from poly import Poly, ZERO, ONE, atom_id

NS = "mito::utilities::"
RES = "verif::Resource"
ITEM = "verif::Item"
SP = NS + "SharedPointer"
SPT = SP + "<verif::Resource>"


def load():
    d = D.extract("utilities.cc")
    d.check_diags()
    return d


def ptr_field(db, cls):
    fs = [f for f in db.rec_by_t[cls]["fields"] if db.t(f["t"]).endswith("*")]
    if len(fs) != 1:
        raise D.AnalysisBroken(f"{cls}: expected exactly one pointer data member")
    return fs[0]["n"]


# ======================================================================================= U01
def u01(R):
    R.rule("refcount-delta", "for every special member/operation of the shared handle and every aliasing case of its "
           "operands, (count after - count before) of each resource equals (handles after - handles before), no null "
           "handle is dereferenced and the destination ends up with the source's resource")
    R.rule("count-ownership", "the stored count is only written by the resource base class and its acquire/release "
           "accessors are only called by the shared handle; the resource cannot be copied or moved")
    R.rule("count-initial", "a new resource starts with no outstanding references")
    d = load()
    H = ptr_field(d, SPT)
    ip = I.Interp(d)
    refs = d.one(SP + "::references", SPT)

    def count(ip, A):
        probe = I.Obj(SPT, {H: I.Cell(I.Ptr(A))})
        return ip.n(ip.call_fn(refs, probe, []))

    def mk(ip, names):
        objs = {n: I.Obj(RES, lazy=True, name=n) for n in "AB"}
        ptrs = {}
        out = []
        for slot, n in names:
            v = I.NULL if n is None else I.Ptr(objs[n])
            o = I.Obj(SPT, {H: I.Cell(v, None)}, name=slot)
            out.append(o)
        return objs, out

    def tgt(o):
        v = o.f[H].v
        if v is I.NULL:
            return None
        if isinstance(v, I.Ptr) and isinstance(v.b, I.Obj) and not v.o.t:
            return v.b.name
        return repr(v)

    def run(label, fn, setup, run_op, live_before, live_after, expect, where):
        """run_op(ip, fn, handles) -> result handle list"""
        def body(ip):
            objs, hs = mk(ip, setup)
            before = {n: count(ip, o) for n, o in objs.items()}
            hb = {n: sum(1 for h in live_before(hs) if tgt(h) == n) for n in objs}
            res = run_op(ip, fn, hs, objs)
            after = {n: count(ip, o) for n, o in objs.items()}
            ha = {n: sum(1 for h in live_after(hs, res) if tgt(h) == n) for n in objs}
            probs = []
            for n in objs:
                dc = ip.facts.norm(after[n] - before[n])
                if dc != Poly.const(ha[n] - hb[n]):
                    probs.append(f"count of the resource changes by {dc!r} while the number of handles on it changes by {ha[n]-hb[n]:+d}")
            if expect is not None:
                probs += expect(hs, res)
            return probs
        try:
            for kind, r in ip.paths(body):
                if kind == "ub":
                    R.bad("refcount-delta", label, where, r)
                elif kind != "ok":
                    R.und("refcount-delta", label, where, f"path ends with {kind}: {r}")
                elif r:
                    R.bad("refcount-delta", label, where, "; ".join(r))
                else:
                    R.ok("refcount-delta", label, where)
        except I.OUT as e:
            R.und("refcount-delta", label, where, str(e))

    def find(name, pred=None):
        fs = d.find(name, SPT, pred)
        return fs[0] if fs else None

    def special(sm):
        f = ip.special(SPT, sm)
        if f is not None:
            return f
        r = d.rec_by_t[SPT]
        m = [m for m in r["methods"] if m.get("sm") == sm]
        if m and m[0].get("defaulted"):
            return "defaulted"
        return None

    # constructors
    cls = d.rec_by_t[SPT]
    w = lambda f: d.where(f) if isinstance(f, dict) else d.where(cls)

    def build(ip, f, args, kind):
        o = I.Obj(SPT, name="this")
        if f == "defaulted":
            o = ip.copy(args[0], kind == "move") if args else ip.default_construct(SPT)
        else:
            ip.call_fn(f, o, args)
        return o

    f = find(SP + "::SharedPointer", lambda f: f.get("ctor") == "default")
    if f:
        run("default-construct", f, [], lambda ip, f, hs, ob: build(ip, f, [], None), lambda hs: [], lambda hs, r: [r],
            lambda hs, r: [] if tgt(r) is None else ["a default constructed handle is not empty"], w(f))
    f = find(SP + "::SharedPointer", lambda f: f.get("ctor") == "other" and len(f["params"]) == 1)
    if not f:
        raise D.AnalysisBroken("constructor from a resource vanished")
    for t in ("A", None):
        run(f"construct-from-resource({t or 'null'})", f, [],
            lambda ip, f, hs, ob: build(ip, f, [I.Ptr(ob[t]) if t else I.NULL], None), lambda hs: [], lambda hs, r: [r],
            lambda hs, r: [] if tgt(r) == t else ["the handle does not point to the resource it was built from"], w(f))
    for kind, sm in (("copy", "copyctor"), ("move", "movector")):
        f = special(sm)
        if f is None and kind == "move":
            f, kind2 = special("copyctor"), "copy"
        if f is None:
            raise D.AnalysisBroken(f"{kind} constructor vanished")
        for t in ("A", None):
            run(f"{kind}-construct({t or 'empty'})", f, [("other", t)],
                lambda ip, f, hs, ob: build(ip, f, [hs[0]], kind), lambda hs: hs, lambda hs, r: hs + [r],
                lambda hs, r: [] if tgt(r) == t else ["the new handle does not share the source's resource"], w(f))
    # assignments
    for kind, sm in (("copy", "copyasg"), ("move", "moveasg")):
        f = special(sm)
        if f is None:
            raise D.AnalysisBroken(f"{kind} assignment vanished")

        def op(ip, f, hs, ob, kind=kind):
            if f == "defaulted":
                ip.assign(hs[0], hs[-1], kind == "move")
            else:
                ip.call_fn(f, hs[0], [hs[-1]])
            return hs[0]
        for a, b in itertools.product(("A", None), ("A", "B", None)):
            def exp(hs, r, b=b, kind=kind):
                p = []
                if tgt(hs[0]) != b:
                    p.append("the destination does not end up with the source's resource")
                if kind == "copy" and tgt(hs[1]) != b:
                    p.append("the source of a copy assignment changes")
                return p
            run(f"{kind}-assign({a or 'empty'} = {b or 'empty'})", f, [("this", a), ("other", b)], op,
                lambda hs: hs, lambda hs, r: hs, exp, w(f))
        for a in ("A", None):
            run(f"{kind}-assign-self({a or 'empty'})", f, [("this", a)], op, lambda hs: hs, lambda hs, r: hs,
                lambda hs, r, a=a: [] if tgt(hs[0]) == a else ["self assignment loses the resource"], w(f))
    # destructor, reset
    f = special("dtor")
    if f is None or f == "defaulted":
        R.bad("refcount-delta", "destroy", w(f), "the handle has no destructor releasing its resource")
    else:
        for a in ("A", None):
            run(f"destroy({a or 'empty'})", f, [("this", a)], lambda ip, f, hs, ob: ip.call_fn(f, hs[0], []),
                lambda hs: hs, lambda hs, r: [], None, w(f))
    f = find(SP + "::reset")
    if f:
        for a in ("A", None):
            run(f"reset({a or 'empty'})", f, [("this", a)], lambda ip, f, hs, ob: ip.call_fn(f, hs[0], []),
                lambda hs: hs, lambda hs, r: hs, lambda hs, r: [] if tgt(hs[0]) is None else ["the handle is not empty after reset"], w(f))
    # observers do not change anything
    for n in ("references", "is_nullptr", "operator->", "id", "handle"):
        f = find(SP + "::" + n)
        if not f:
            continue

        def obs(hs, r, n=n):
            if n == "is_nullptr" and r is not (tgt(hs[0]) is None):
                return ["is_nullptr gives the wrong answer"]
            if n in ("operator->", "handle") and not (isinstance(r, I.Ptr) and r.b is hs[0].f[H].v.b and not r.o.t):
                return ["does not return the held resource"]
            return []
        for a in (("A", None) if n in ("is_nullptr", "id") else ("A",)):
            run(f"{n}({a or 'empty'})", f, [("this", a)], lambda ip, f, hs, ob: ip.call_fn(f, hs[0], []),
                lambda hs: hs, lambda hs, r: hs, (obs if n != "id" else None), w(f))
    # references() reports the stored count: symbolic count + k after k constructions
    ct = find(SP + "::SharedPointer", lambda f: f.get("ctor") == "other" and len(f["params"]) == 1)

    def initial(ip):
        o = ip.default_construct(NS + "Shareable")
        A = I.Obj(RES)
        A.f.update(o.f)
        c0 = count(ip, A)
        return ip.facts.norm(c0)
    sh = d.rec_by_t[NS + "Shareable"]
    try:
        for kind, r in ip.paths(initial):
            R.check(kind == "ok" and r == ZERO, "count-initial", "new resource", d.where(sh), f"initial count is {r!r}")
    except I.OUT as e:
        R.und("count-initial", "new resource", d.where(sh), str(e))
    # who may touch the count
    intf = [f for f in sh["fields"]]
    for f in d.fns.values():
        if not d.in_repo(f):
            continue
        for n in D.walk(f.get("body")):
            if n["k"] in ("un", "asg", "casg") and (n["k"] != "un" or n["op"] in ("++", "--", "&")):
                m = n["e"] if n["k"] == "un" else n["x"]
                if m["k"] == "mem" and any(m["d"] == g["d"] for g in intf):
                    R.check(f["b"].startswith(NS + "Shareable::"), "count-ownership", f"write in {f['b']}", d.where(f, n["l"]),
                            "the reference count is written outside the resource base class")
            if n["k"] == "call" and n.get("f") in d.ext:
                x = d.ext[n["f"]]
                if x["b"] in (NS + "Shareable::_acquire", NS + "Shareable::_release"):
                    R.check(f["b"].startswith(SP + "::") or f["b"].startswith(NS + "Shareable::"), "count-ownership",
                            f"call of {x['n']} in {f['b']}", d.where(f, n["l"]), "the reference count is changed by someone other than the shared handle")
    for f in sh["fields"]:
        t = D.strip_cvref(d.t(f["t"]))
        moved = [n for g in d.fns.values() if d.in_repo(g) for n in D.walk(g.get("body")) if n["k"] in ("un", "asg", "casg")
                 and n.get("op") not in ("!", "*", "&") and (n.get("e") or n.get("x") or {}).get("d") == f["d"]]
        if moved and t in WIDTH:
            R.check(WIDTH[t] >= 32, "count-initial", "range of the count", d.where(sh), f"the count is kept in a {t} ({WIDTH[t]} bits): it is wrong for as many handles as a mesh has on one vertex")
    for n, b in (("_references", NS + "Shareable::_references"), ("references", SP + "::references")):
        for g in d.fns.values():
            t = D.strip_cvref(d.t(g["ret"])) if g["b"] == b else ""
            if t in WIDTH:
                R.check(WIDTH[t] >= 32, "count-initial", f"range of {n}()", d.where(g), f"the count is reported in a {t}")
    for m in sh["methods"]:
        if m.get("sm") in ("copyctor", "movector", "copyasg", "moveasg"):
            R.check(bool(m.get("deleted")), "count-ownership", f"{m['sm']} of the resource base", d.where(sh, m["l"]),
                    "a resource can be copied or moved together with its reference count")
        if m["n"] in ("_acquire", "_release") and not m.get("static"):
            R.check(m["acc"] == "private", "count-ownership", f"access to {m['n']}", d.where(sh, m["l"]), "the reference count can be changed by anybody")
    R.used(ip)
    R.minimum = 30



# ======================================================================================= U06
WIDTH = {"unsigned int": 32, "int": 32, "unsigned short": 16, "short": 16, "unsigned char": 8, "char": 8, "signed char": 8,
         "float": 24, "double": 53, "bool": 1}


def u06(R):
    R.rule("identity", "the identifier of a handle determines its resource: handles are equal exactly when they refer to the same "
           "resource, and different resources never get the same identifier, whatever their addresses")
    R.rule("order", "handles are strictly totally ordered consistently with equality")
    R.rule("round-trip", "looking a resource up by its identifier yields a handle on that very resource, counted as one more handle")
    d = load()
    ip = I.Interp(d)
    H = ptr_field(d, SPT)
    # representative address layouts: neighbours, same low half, same low byte, top bit set
    layouts = [(4096, 4112, 8192), (5 << 32 | 64, 6 << 32 | 64, 64), (1 << 63 | 256, 256, 65536 + 256), (1 << 47, 1 << 46, (1 << 47) + 16),
               (8192, 4096, 16), ((1 << 53) + 16, (1 << 53) + 17, 1 << 53)]
    sptr = NS + "StdSharedPointer<verif::Item>"
    fns = {}
    for n, b, cls in (("id", SP + "::id", SPT), ("sid", NS + "StdSharedPointer::id", sptr)):
        fns[n] = (d.find(b, cls) or [None])[0]
        if fns[n] is None:
            raise D.AnalysisBroken("anchor vanished: " + b)
    for n in ("u_ptr_eq", "u_ptr_lt", "u_std_eq"):
        fns[n] = (d.find("verif::" + n) or [None])[0]
        if fns[n] is None:
            raise D.AnalysisBroken("driver function missing: " + n)
    res = (d.find(NS + "Repository::resource") or d.find(SP + "::resource", SPT) or [None])[0]
    refs = d.one(SP + "::references", SPT)

    def setup(ip, lay):
        objs = [I.Obj(RES, lazy=True, name=n) for n in "ABC"]
        for o in objs:
            ip.field(o, "_reference_count", "int").v = Poly.const(1)
        adr = {id(o): a for o, a in zip(objs, lay)}
        rev = {a: o for o, a in zip(objs, lay)}

        def p2i(ip, v):
            if v is I.NULL:
                return ZERO
            if isinstance(v, I.Ptr) and id(v.b) in adr and not v.o.t:
                return Poly.const(adr[id(v.b)])
            raise I.Undecided(f"integer value of {v!r}")

        def i2p(ip, v):
            v = ip.facts.norm(ip.n(v))
            if v.is_const():
                if v == ZERO:
                    return I.NULL
                if int(v.cval()) in rev:
                    return I.Ptr(rev[int(v.cval())])
                return I.Ptr(("sym", f"address {v!r}"))
            raise I.Undecided(f"pointer from {v!r}")

        def narrow(ip, v, src, t):
            w = WIDTH.get(D.strip_cvref(t))
            if w and v.is_const() and v.cval().denominator == 1:
                x = int(v.cval())
                if D.strip_cvref(t) in ("float", "double"):
                    m = max(0, abs(x).bit_length() - w)
                    return Poly.const((x >> m) << m)
                if D.strip_cvref(t) == "bool":
                    return Poly.const(int(x != 0))
                x &= (1 << w) - 1
                if not D.strip_cvref(t).startswith("unsigned") and x >> (w - 1):
                    x -= 1 << w
                return Poly.const(x)
            if w is None and D.strip_cvref(t) in ("long", "long long") and v.is_const():
                x = int(v.cval()) & ((1 << 64) - 1)
                return Poly.const(x - (1 << 64) if x >> 63 else x)
            if D.strip_cvref(t) in ("unsigned long", "unsigned long long") and v.is_const():
                return Poly.const(int(v.cval()) & ((1 << 64) - 1))
            return v
        ip.ptr2int, ip.int2ptr, ip.narrow_hook = p2i, i2p, narrow
        return objs

    def h(o, cls=SPT, f=None):
        return I.Obj(cls, {f or H: I.Cell(I.Ptr(o) if o is not None else I.NULL, RES + " *")}, name="handle")

    def run(rule, inst, where, body):
        try:
            st = "ok"
            for kind, r in ip.paths(body):
                if kind == "ub":
                    R.bad(rule, inst, where, r)
                    return
                if kind != "ok":
                    st = f"path ends with {kind} {r}"
                elif r:
                    R.bad(rule, inst, where, "; ".join(r))
                    return
            R.ok(rule, inst, where) if st == "ok" else R.und(rule, inst, where, st)
        except I.OUT as e:
            R.und(rule, inst, where, f"outside the analysed idioms: {e}")

    eqf = [f for f in d.fns.values() if f["b"] == NS + "operator==" and D.strip_cvref(d.t(f["params"][0]["t"])) == SPT]
    ltf = [f for f in d.fns.values() if f["b"] == NS + "operator<=>" and D.strip_cvref(d.t(f["params"][0]["t"])) == SPT]
    weq = d.where(eqf[0]) if eqf else d.where(fns["id"])
    wlt = d.where(ltf[0]) if ltf else d.where(fns["id"])
    for li, lay in enumerate(layouts):
        for i, j in itertools.product(range(4), repeat=2):
            nm = f"{'ABC0'[i]},{'ABC0'[j]} layout {li}"

            def eq(ip):
                o = setup(ip, lay) + [None]
                a, b = h(o[i]), h(o[j])
                r = ip.decide(ip.truth(ip.call_fn(fns["u_ptr_eq"], None, [a, b])))
                ida = ip.facts.norm(ip.n(ip.call_fn(fns["id"], a, [])))
                idb = ip.facts.norm(ip.n(ip.call_fn(fns["id"], b, [])))
                p = []
                if r is not (i == j):
                    p.append("handles on %s resource compare %s" % (("the same", "unequal") if i == j else ("different", "equal")))
                if (ida == idb) is not (i == j):
                    p.append(f"identifiers {ida!r} and {idb!r} of handles on %s resource" % ("the same" if i == j else "different"))
                return p
            run("identity", "handles " + nm, weq, eq)

            def lt(ip):
                o = setup(ip, lay) + [None]
                a, b = h(o[i]), h(o[j])
                x = ip.decide(ip.truth(ip.call_fn(fns["u_ptr_lt"], None, [a, b])))
                y = ip.decide(ip.truth(ip.call_fn(fns["u_ptr_lt"], None, [b, a])))
                if i == j:
                    return ["a handle orders before itself"] if x or y else []
                return [] if x != y else [f"of two handles on different resources {'both order' if x else 'none orders'} before the other"]
            run("order", "handles " + nm, wlt, lt)

        def trans(ip):
            o = setup(ip, lay)
            L = {}
            for i, j in itertools.permutations(range(3), 2):
                L[i, j] = ip.decide(ip.truth(ip.call_fn(fns["u_ptr_lt"], None, [h(o[i]), h(o[j])])))
            return [f"order is not transitive on {t}" for t in itertools.permutations(range(3)) if L[t[0], t[1]] and L[t[1], t[2]] and not L[t[0], t[2]]]
        run("order", f"transitivity layout {li}", wlt, trans)
        if res is not None:
            for i in range(3):
                def rt(ip):
                    o = setup(ip, lay)
                    a = h(o[i])
                    b = ip.call_fn(res, None, [I.Cell(ip.n(ip.call_fn(fns["id"], a, [])), "unsigned long")])
                    if isinstance(b, I.Obj):
                        v = b.f[H].v
                        n = ip.facts.norm(ip.n(ip.call_fn(refs, b, []))) if isinstance(v, I.Ptr) and v.b is o[i] else None
                    else:
                        v, n = b, Poly.const(2)
                    p = []
                    if not (isinstance(v, I.Ptr) and v.b is o[i] and not v.o.t):
                        p.append(f"the identifier resolves to {v!r} instead of the resource it belongs to")
                    elif n != Poly.const(2):
                        p.append(f"the handle obtained from the identifier leaves the count at {n!r} with two handles")
                    return p
                run("round-trip", f"{'ABC'[i]} layout {li}", d.where(res), rt)
    if res is None:
        raise D.AnalysisBroken("anchor vanished: lookup by identifier")
    # the standard-pointer wrapper
    sf = d.rec_by_t[sptr]["fields"]
    if len(sf) == 1:
        for i, j in itertools.product(range(3), repeat=2):
            def seq(ip):
                o = setup(ip, layouts[1])
                mk = lambda x: I.Obj(sptr, {sf[0]["n"]: ip.std_shared(x) if hasattr(ip, "std_shared") else I.Cell(I.Ptr(x), None)}, name="handle")
                a, b = mk(o[i]), mk(o[j])
                r = ip.decide(ip.truth(ip.call_fn(fns["u_std_eq"], None, [a, b])))
                return [] if r is (i == j) else ["wrapped standard handles compare wrongly"]
            run("identity", f"standard handles {'ABC'[i]},{'ABC'[j]}", d.where(fns["sid"]), seq)
    R.used(ip)
    R.minimum = 150
    R.assumptions.append("address layouts include neighbouring addresses and addresses that agree in the low 8/16/32 bits or differ only beyond 53 bits")
