"""Models of the standard library (and of the journal) for the abstract interpreter."""
from poly import Poly, ZERO, ONE, atom_id
from db import tmpl, strip_cvref, is_ref, split_targs
import sys
import interp as I


def L(v):
    return v.v if isinstance(v, I.Cell) else v


def place(v):
    return v if isinstance(v, I.Place) else I.Cell(v)


# ------------------------------------------------------------------ associative containers
def map_lookup(ip, m, key):
    """entry for `key`, or None (absent); splits when undecided"""
    for en in list(m.ents):
        c = ip.eq_obj(place(en[0]), place(key))
        if ip.decide(c):
            return en
    for k in m.absent:
        c = ip.eq_obj(place(k), place(key))
        kn = c if isinstance(c, bool) else ip.known(c)
        if kn is True:
            return None
    if m.rest is None:
        return None
    if ip.choose(2, ("find", m.name)) == 0:
        en = new_entry(ip, m, key)
        m.ents.append(en)
        ip.event("map-hit", m, key, en)
        return en
    m.absent = m.absent + [keyval(ip, key)]
    ip.event("map-miss", m, key)
    return None


def keyval(ip, key):
    if isinstance(key, I.Cell):
        return key.v
    if isinstance(key, I.Place):
        return ip.copy(key)
    return key


def new_entry(ip, m, key):
    n = ip.fresh_name("e")
    h = getattr(ip, "map_value_hook", None)
    v = None
    if h:
        v = h(ip, m, key)
    if v is None and m.vt is not None:
        v = ip.fresh(m.vt, f"{m.name or m.rest}[{n}]")
    return [keyval(ip, key), v]


def map_insert(ip, m, key, mk):
    """(entry, inserted)"""
    en = map_lookup(ip, m, key)
    if en is not None:
        return en, False
    k = keyval(ip, key)
    m.absent = [a for a in m.absent if I.vkey(a) != I.vkey(k)]
    v = mk()
    en = [k, place(v) if v is not None else None]
    # the order of an unordered container is not that of the insertions: new entries go anywhere
    n = len(m.ents)
    m.ents.insert((5 * n + 2) % (n + 1) if "unordered" in (m.cls or "") and m.rest is None else n, en)
    ip.touched(m)
    ip.event("map-insert", m, key, en)
    return en, True


def map_method(ip, c):
    if c.o is None and (c.e["k"] == "ctor" or "ctor" in c.x):
        return map_ctor(ip, c)
    m = c.o
    n = c.x["n"]
    if isinstance(m, I.Cell):
        m = m.v
    if not isinstance(m, I.MapV):
        return NotImplemented
    if n == "find":
        en = map_lookup(ip, m, c.a[0])
        return I.It(m, en if en is not None else "end")
    if n in ("lower_bound", "upper_bound") and m.rest is None and m.cls in ("std::map", "std::set"):
        map_order(ip, m)
        for en in m.ents:
            if n == "lower_bound":
                stop = not ip.decide(less(ip, place(en[0]), place(c.a[0])))
            else:
                stop = ip.decide(less(ip, place(c.a[0]), place(en[0])))
            if stop:
                return I.It(m, en)
        return I.It(m, "end")
    if n in ("contains",):
        return map_lookup(ip, m, c.a[0]) is not None
    if n == "count":
        return ONE if map_lookup(ip, m, c.a[0]) is not None else ZERO
    if n in ("end", "cend"):
        return I.It(m, "end")
    if n in ("begin", "cbegin"):
        map_order(ip, m)
        if m.ents:
            return I.It(m, m.ents[0])
        if m.rest is None:
            return I.It(m, "end")
        return I.It(m, "begin")
    if n == "operator[]":
        en, ins = map_insert(ip, m, c.a[0], lambda: ip.zero(m.vt))
        return en[1]
    if n == "at":
        en = map_lookup(ip, m, c.a[0])
        if en is None:
            raise I.PathEnd("throw", "map::at")
        return en[1]
    if n in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
        a = c.a
        if n == "emplace_hint" or n in ("try_emplace", "insert_or_assign") and len(a) > 1 and isinstance(L(a[0]), I.It) and L(a[0]).c is m:
            return map_method(ip, I.Call(c.e, {**c.x, "n": "emplace" if n == "emplace_hint" else n}, m, a[1:], c.t)).f["first"].v
        if len(a) == 3 and isinstance(L(a[0]), I.Obj) and "piecewise" in L(a[0]).cls:
            k, v = L(a[1]), L(a[2])
            if isinstance(k, I.Arr) and len(k.e) > 1 and tmpl(strip_cvref(m.kt or ""))[0] == "std::tuple":
                k = I.Arr([I.Arr([ip.copy(place(z)) for z in k.e], None, "std::tuple")])
            if not (isinstance(k, I.Arr) and len(k.e) == 1 and isinstance(v, I.Arr) and len(v.e) < 2):
                raise I.Undecided("piecewise construction")
            a = [k.e[0]] + list(v.e)
        if len(a) > 2:
            raise I.Undecided("construction in place")
        if n == "insert":
            if len(a) == 2 and isinstance(L(a[1]), (I.It, I.Ptr)) and isinstance(L(a[0]), type(L(a[1]))) or \
                    len(a) == 1 and any("initializer_list" in ip.db.t(t) for t in c.x.get("pt") or ()):
                for x in elements(ip, *a):
                    if m.isset:
                        map_insert(ip, m, x, lambda: None)
                        continue
                    x = L(x)
                    if not (isinstance(x, I.Obj) and "first" in x.f):
                        raise I.Undecided("range insert")
                    map_insert(ip, m, x.f["first"], lambda: ip.copy(place(x.f["second"])))
                return None
            if isinstance(L(a[0]), I.It) and len(a) == 2:
                return map_method(ip, I.Call(c.e, c.x, m, a[1:], c.t)).f["first"].v
            if len(a) >= 2:
                raise I.Undecided("range insert")
            p = L(a[0])
            if m.isset:
                en, ins = map_insert(ip, m, a[0], lambda: None)
                return pair(ip, I.It(m, en), ins)
            if isinstance(p, I.Obj) and "first" in p.f:
                k, v = p.f["first"], p.f["second"]
            elif isinstance(p, I.Arr) and len(p.e) == 2:
                k, v = p.e
            else:
                raise I.Undecided("map insert")
        elif m.isset:
            en, ins = map_insert(ip, m, a[0], lambda: None)
            return pair(ip, I.It(m, en), ins)
        else:
            if len(a) == 1 and isinstance(L(a[0]), I.Obj) and "first" in L(a[0]).f:
                k, v = L(a[0]).f["first"], L(a[0]).f["second"]
            elif len(a) == 1:
                k, v = a[0], None
            else:
                k, v = a[0], a[1]
        en, ins = map_insert(ip, m, k, lambda: (ip.copy(place(v)) if v is not None else ip.zero(m.vt)))
        if not ins and n == "insert_or_assign":
            ip.assign(en[1], v)
        return pair(ip, I.It(m, en), ins)
    if n == "erase":
        a = L(c.a[0])
        if isinstance(a, I.It) and a.c is m:
            if len(c.a) == 2:
                b = L(c.a[1])
                if m.rest is not None or not isinstance(b, I.It) or b.c is not m:
                    raise I.Undecided("range erase")
                map_order(ip, m)
                idx = lambda i: len(m.ents) if i.p == "end" else next(j for j, z in enumerate(m.ents) if z is i.p)
                for en in m.ents[idx(a):idx(b)]:
                    map_method(ip, I.Call(c.e, c.x, m, [I.It(m, en)], c.t))
                return b
            if a.p == "end":
                raise I.PathEnd("ub", "erase(end)")
            en = a.p
            i = next((j for j, z in enumerate(m.ents) if z is en), None)
            m.ents = [z for z in m.ents if z is not en]
            drop_entry(ip, m, en)
            ip.touched(m)
            ip.event("map-erase", m, en[0], en)
            nx = m.ents[i] if i is not None and m.rest is None and i < len(m.ents) else "end"
            return I.It(m, nx)
        en = map_lookup(ip, m, c.a[0])
        if en is None:
            return ZERO
        m.ents = [z for z in m.ents if z is not en]
        drop_entry(ip, m, en)
        ip.touched(m)
        ip.event("map-erase", m, en[0], en)
        return ONE
    if n in ("size",):
        if m.rest is None:
            return Poly.const(len(m.ents))
        ip.facts.nonneg.add(atom_id(("msize", m.rest)))
        return Poly.atom(("msize", m.rest))
    if n == "empty":
        if m.rest is None:
            return not m.ents
        return False if m.ents else I.Cond("opq", ("mempty", m.rest))
    if n == "clear":
        ip.destroy(m)
        m.ents = []
        m.rest = None
        m.absent = []
        ip.touched(m)
        return None
    if n in ("reserve", "rehash", "max_load_factor"):
        return None
    if n in ("operator=", "swap"):
        if n == "swap":
            return swap(ip, m, L(c.a[0]))
        return ip.assign(m, L(c.a[0]), c.x.get("asg") == "move")
    if n.startswith("~"):
        return None
    return NotImplemented


def drop_entry(ip, m, en):
    """an entry leaves the container: the key is known to be absent, key and value are destroyed"""
    if m.rest is not None:
        m.absent = m.absent + [keyval(ip, en[0])]
    for x in en[:2]:
        if isinstance(x, (I.Obj, I.Arr, I.MapV)):
            ip.destroy(x)


def pair(ip, a, b):
    return I.Obj("std::pair", {"first": place(a), "second": place(b)})


# ------------------------------------------------------------------ sequences
def seq_method(ip, c):
    if c.o is None and (c.e["k"] == "ctor" or "ctor" in c.x):
        return seq_ctor(ip, c)
    v = L(c.o)
    n = c.x["n"]
    if not isinstance(v, I.Arr):
        return NotImplemented
    if n in ("operator[]", "at"):
        return ip.index(v, ip.n(L(c.a[0])))
    if n == "size":
        return ip.arr_len(v)
    if n == "empty":
        if v.rest is None:
            return not v.e
        return ip.eq(ip.arr_len(v), ZERO)
    if n in ("begin", "cbegin"):
        return I.It(v, ZERO)
    if n in ("end", "cend"):
        return I.It(v, "end")
    if n == "data":
        return I.Ptr(v)
    if n == "front":
        if v.rest is None:
            return ip.index(v, ZERO)
        k = ("front", v.rest)
        return v.meta.setdefault("els", {}).setdefault(k, ip.fresh(v.et, f"{v.rest}.front"))
    if n == "back":
        if v.rest is None:
            return ip.index(v, Poly.const(len(v.e) - 1))
        if v.e:
            return v.e[-1]
        k = ("back", v.rest)
        return v.meta.setdefault("els", {}).setdefault(k, ip.fresh(v.et, f"{v.rest}.back"))
    if n in ("push_back", "emplace_back", "push", "emplace"):
        ip.touched(v)
        x = L(c.a[0]) if c.a else None
        if len(c.a) == 1:
            x = ip.copy(place(c.a[0]))
        elif not c.a:
            x = ip.zero(v.et)
        else:
            x = ip.construct_type(v.et, c.a) if hasattr(ip, "construct_type") else None
            if x is None:
                raise I.Undecided("emplace_back with several arguments")
        v.e = v.e + [place(x)]
        ip.event("push", v, x)
        return v.e[-1]
    if n in ("pop_back",):
        ip.touched(v)
        if v.e:
            x = v.e[-1]
            v.e = v.e[:-1]
            if isinstance(x, (I.Obj, I.Arr, I.MapV)):
                ip.destroy(x)
        ip.event("pop_back", v)
        return None
    if n in ("pop", "pop_front"):
        ip.touched(v)
        if v.rest is None:
            if not v.e:
                raise I.PathEnd("ub", "pop of empty queue")
            ip.event("pop", v, v.e[0])
            v.e = v.e[1:]
        else:
            fr = v.meta.get("els", {}).get(("front", v.rest))
            ip.event("pop", v, fr)
            r = v.rest
            # one element fewer in the unknown part
            v.rest = ("popped", r)
            ip.facts.nonneg.add(atom_id(("len", v.rest)))
            ip.facts.sub[atom_id(("len", r))] = Poly.atom(("len", v.rest)) + ONE
        return None
    if n == "clear":
        ip.touched(v)
        ip.destroy(v)
        v.e = []
        v.rest = None
        return None
    if n in ("reserve", "shrink_to_fit"):
        return None
    if n == "resize":
        k = ip.facts.norm(ip.n(L(c.a[0])))
        ip.touched(v)
        if k.is_const() and v.rest is None:
            k = int(k.cval())
            v.e = v.e[:k] + [ip.copy(place(c.a[1])) if len(c.a) > 1 else ip.zero(v.et) for _ in range(k - len(v.e))]
        else:
            v.rest = ip.fresh_name("rs")
            v.e = []
        return None
    if n == "fill":
        for e in v.e:
            ip.assign(e, L(c.a[0]))
        return None
    if n == "operator=":
        a = L(c.a[0])
        return ip.assign(v, a, c.x.get("asg") == "move")
    if n == "swap":
        return swap(ip, v, L(c.a[0]))
    if n == "insert" and len(c.a) == 3 and isinstance(L(c.a[1]), I.It):
        return seq_insert_range(ip, v, c)
    if n.startswith("~"):
        return None
    return NotImplemented


def seq_ctor(ip, c):
    """vector() / vector(n) / vector(n, x) / vector(first, last) / vector({...}); copies and moves are generic"""
    if c.x.get("ctor") in ("copy", "move"):
        return NotImplemented
    b, ta = tmpl(c.t)
    if b not in ("std::vector", "std::deque", "std::list"):
        return NotImplemented
    et = ta[0]
    a = [L(x) for x in c.a if not (isinstance(L(x), I.Obj) and L(x).cls.startswith("std::allocator"))]
    if not a:
        return I.Arr([], et, b)
    def element(x):
        y = place(ip.copy(place(x)))
        if isinstance(y, I.Cell) and isinstance(y.v, Poly) and (y.t is None or y.t != et):
            t = strip_cvref(et)
            if t in I.INT_BITS and isinstance(x, I.Cell) and strip_cvref(x.t or "") in I.REAL_TYPES:
                y.v = ip.trunc(y.v)
            y = I.Cell(I.fit(y.v, t), t, y.name)
        return y
    if isinstance(a[0], I.It):
        return I.Arr([element(x) for x in elements(ip, a[0], a[1])], et, b)
    if isinstance(a[0], I.Arr) and len(a) == 1:
        return I.Arr([element(x) for x in elements(ip, a[0])], et, b)
    k = ip.facts.norm(a[0]) if isinstance(a[0], Poly) else None
    if k is not None and k.is_const():
        k = int(k.cval())
        if k > 100000:
            return NotImplemented
        if len(a) == 2:
            return I.Arr([place(ip.copy(place(c.a[1]))) for _ in range(k)], et, b)
        return I.Arr([ip.zero(et) if not ip.db.rec_by_t.get(strip_cvref(et)) else ip.default_construct(et) for _ in range(k)], et, b)
    return NotImplemented


def map_ctor(ip, c):
    if c.x.get("ctor") in ("copy", "move"):
        return NotImplemented
    b, ta = tmpl(c.t)
    isset = b in ("std::set", "std::unordered_set", "std::multiset")
    if b not in ("std::map", "std::unordered_map", "std::set", "std::unordered_set"):
        return NotImplemented
    m = I.MapV(ta[0], None if isset else ta[1], cls=b, isset=isset)
    a = [L(x) for x in c.a]
    if not a:
        return m
    if isinstance(a[0], I.It):
        es = elements(ip, a[0], a[1])
    elif isinstance(a[0], I.Arr):
        es = elements(ip, a[0])
    else:
        return NotImplemented
    for x in es:
        x = L(x)
        if isset:
            map_insert(ip, m, x, lambda: None)
        elif isinstance(x, I.Obj) and "first" in x.f:
            map_insert(ip, m, x.f["first"], lambda: ip.copy(place(x.f["second"])))
        else:
            return NotImplemented
    return m


def seq_insert_range(ip, v, c):
    a, b = L(c.a[1]), L(c.a[2])
    if v.rest is None:
        try:
            es = elements(ip, a, b)
        except I.Undecided:
            es = None
        if es is not None:
            at = L(c.a[0])
            at = len(v.e) if at.p == "end" else int(ip.facts.norm(ip.it_index(at)).cval())
            v.e = v.e[:at] + [place(ip.copy(place(x))) for x in es] + v.e[at:]
            ip.touched(v)
            return I.It(v, Poly.const(at))
    v.rest = ip.fresh_name("ins")
    v.e = []
    ip.touched(v)
    return I.It(v, ZERO)


def swap(ip, a, b):
    if isinstance(a, I.Cell) and isinstance(b, I.Cell):
        x, y = a.v, b.v
        ip.write(a, y)
        ip.write(b, x)
        return None
    if isinstance(a, I.Arr) and isinstance(b, I.Arr):
        if a is b:
            return None
        ip.touched(a)
        ip.touched(b)
        if a.cls in ("std::array", "carray"):
            for x, y in zip(a.e, b.e):
                swap(ip, x, y)
        else:
            a.e, b.e = b.e, a.e
            a.rest, b.rest = b.rest, a.rest
        return None
    if isinstance(a, I.MapV) and isinstance(b, I.MapV):
        a.ents, b.ents = b.ents, a.ents
        a.rest, b.rest = b.rest, a.rest
        a.absent, b.absent = b.absent, a.absent
        ip.touched(a)
        ip.touched(b)
        return None
    if isinstance(a, I.Obj) and isinstance(b, I.Obj):
        if a is b:
            return None
        if ip.special(a.cls, "movector") is not None or ip.special(a.cls, "moveasg") is not None:
            # std::swap proper: move construct, two move assignments, destroy the temporary
            t = ip.copy(a, True)
            for d, s in ((a, b), (b, t)):
                ip.assign(d, s, True)
            ip.destroy(t)
            return None
        if ip.special(a.cls, "copyctor") is not None:
            t = ip.copy(a)
            ip.assign(a, b)
            ip.assign(b, t)
            ip.destroy(t)
            return None
        for k in sorted(set(a.f) | set(b.f)):
            swap(ip, ip.field(a, k), ip.field(b, k))
        return None
    raise I.Undecided(f"swap {a!r} {b!r}")


def tuple_get(ip, o, i):
    o = L(o)
    if isinstance(o, I.Arr):
        return ip.index(o, Poly.const(i))
    if isinstance(o, I.Obj) and "first" in o.f:
        return o.f["first"] if i == 0 else o.f["second"]
    if isinstance(o, I.It):
        return tuple_get(ip, ip.deref(o), i)
    if isinstance(o, I.Obj):
        b, ta = tmpl(o.cls)
        if b == "std::pair":
            return ip.field(o, ["first", "second"][i], ta[i])
    raise I.Undecided(f"get<{i}> of {o!r}")


def i_get(ip, c):
    ta = split_targs(c.x.get("ta", ""))
    try:
        i = int(ta[0].lstrip("<").rstrip("UL"))
    except (ValueError, IndexError):
        # access by type
        types = split_targs(ta[1][1:-1]) if len(ta) > 1 and ta[1].startswith("<") else ta[1:]
        if types.count(ta[0]) != 1:
            return NotImplemented
        i = types.index(ta[0])
    return tuple_get(ip, c.a[0], i)


def same(ip, c):
    return c.a[0]


def i_next(ip, c):
    a = L(c.a[0])
    n = ip.n(L(c.a[1])) if len(c.a) > 1 else ONE
    if isinstance(a, (I.Ptr, I.It)) or a is I.NULL:
        return ip.add(a, n)
    if isinstance(a, I.Term) and a.k[0] == "uninit":
        raise I.PathEnd("ub", f"a pointer that was never given a value is used (line {c.e.get('l')})")
    return NotImplemented


def i_prev(ip, c):
    a = L(c.a[0])
    n = ip.n(L(c.a[1])) if len(c.a) > 1 else ONE
    return ip.add(a, -n)


def i_size(ip, c):
    v = L(c.a[0])
    if isinstance(v, I.Arr):
        return ip.arr_len(v)
    if isinstance(v, I.MapV):
        return map_method(ip, I.Call(c.e, {"n": "size"}, v, [], c.t))
    if isinstance(v, I.Obj):
        f = method_of(ip, v.cls, "size")
        if f is not None:
            return call_method(ip, c, f, v)
    return NotImplemented


def call_method(ip, c, f, v, args=()):
    h = ip.over.get(f["b"])
    if h is not None:
        r = h(ip, I.Call(c.e, {"n": f["n"], "b": f["b"]}, v, list(args), c.t))
        if r is not NotImplemented:
            return r
    return ip.call_fn(f, v, list(args))


def method_of(ip, cls, name, nargs=0):
    for f in ip.db.fns.values():
        if f["n"] == name and "ct" in f and ip.db.t(f["ct"]) == cls and len(f["params"]) == nargs:
            return f
    return None


def i_beginend(which):
    def h(ip, c):
        v = L(c.a[0])
        if isinstance(v, I.Arr):
            return I.It(v, ZERO if which == "begin" else "end")
        if isinstance(v, I.MapV):
            return map_method(ip, I.Call(c.e, {"n": which}, v, [], c.t))
        if isinstance(v, I.Obj):
            f = method_of(ip, v.cls, which)
            if f is not None:
                return call_method(ip, c, f, v)
        return NotImplemented
    return h


def i_swap(ip, c):
    a, b = c.a[0], c.a[1]
    if isinstance(a, I.Cell) and isinstance(a.v, I.Place):
        a = a.v
    if isinstance(b, I.Cell) and isinstance(b.v, I.Place):
        b = b.v
    swap(ip, a, b)
    return None


def i_exchange(ip, c):
    a = c.a[0]
    if isinstance(a, I.Cell):
        old = a.v
        ip.write(a, L(c.a[1]))
        return old
    old = ip.copy(a, True)
    ip.assign(a, c.a[1], True)
    return old


def i_pair_ctor(ip, c):
    t = c.t
    b, ta = tmpl(t)
    if c.x.get("ctor") in ("copy", "move") or (len(c.a) == 1):
        src = L(c.a[0])
        if isinstance(src, I.Obj) and "first" in src.f:
            o = ip.copy(src)
            o.cls = t
            return o
    if len(c.a) == 2:
        def mk(p, ty):
            if is_ref(ty):
                return place(p)
            return ip.copy(place(p))
        return I.Obj(t, {"first": mk(c.a[0], ta[0]), "second": mk(c.a[1], ta[1])})
    if not c.a:
        return ip.zero(t)
    return NotImplemented


def i_tuple_ctor(ip, c):
    t = c.t
    b, ta = tmpl(t)
    if c.x.get("ctor") in ("copy", "move"):
        return ip.copy(L(c.a[0]))
    if len(c.a) == 1 and len(ta) != 1 and isinstance(L(c.a[0]), I.Arr):
        return ip.copy(L(c.a[0]))
    if len(c.a) == len(ta):
        return I.Arr([place(a) if is_ref(ty) else ip.copy(place(a)) for a, ty in zip(c.a, ta)], None, "std::tuple")
    if not c.a:
        return ip.zero(t)
    return NotImplemented


def i_make_pair(ip, c):
    return I.Obj(c.t, {"first": ip.copy(place(c.a[0])), "second": ip.copy(place(c.a[1]))})


def i_make_tuple(ip, c):
    return I.Arr([ip.copy(place(a)) for a in c.a], None, "std::tuple")


def i_tie(ip, c):
    return I.Arr([place(a) for a in c.a], None, "std::tuple")


def i_minmax(fn):
    def h(ip, c):
        a = c.a
        es = L(a[0]).e if len(a) == 1 and isinstance(L(a[0]), I.Arr) else a[:2]
        if len(a) == 3 or not all(isinstance(L(x), Poly) for x in es):
            lt = less if len(a) < 3 else lambda ip, x, y: ip.call_value(a[2], [place(x), place(y)])
            r = es[0]
            for x in es[1:]:
                if ip.truth(lt(ip, x, r) if fn is min else lt(ip, r, x)):
                    r = x
            return place(r)
        if len(a) == 1 and isinstance(L(a[0]), I.Arr):
            vs = [L(x) for x in L(a[0]).e]
        else:
            vs = [L(a[0]), L(a[1])]
            if len(a) > 2:
                raise I.Undecided("min/max with comparator")
        vs = [ip.facts.norm(ip.n(v)) for v in vs]
        if all(v.is_const() for v in vs):
            return Poly.const(fn(v.cval() for v in vs))
        r = vs[0]
        for v in vs[1:]:
            lt = ip.cmp("<", v, r)
            if fn is max:
                lt = ip.cmp("<", r, v)
            if ip.decide(lt):
                r = v
        return r
    return h


def i_both(ip, c):
    """std::minmax of two: the lesser and the greater, by reference"""
    if len(c.a) < 2:
        v = L(c.a[0])
        if not isinstance(v, I.Arr) or not v.e:
            return NotImplemented
        lo = hi = v.e[0]
        for x in v.e[1:]:
            if ip.decide(ip.truth(less(ip, x, lo))):
                lo = x
            elif not ip.decide(ip.truth(less(ip, x, hi))):
                hi = x
        return pair(ip, ip.copy(place(lo)), ip.copy(place(hi)))
    x, y = place(c.a[0]), place(c.a[1])
    swap = ip.truth(less(ip, y, x) if len(c.a) < 3 else ip.call_value(c.a[2], [y, x]))
    return pair(ip, y, x) if swap else pair(ip, x, y)


def i_abs(ip, c):
    a = ip.facts.norm(ip.n(L(c.a[0])))
    if a.is_const():
        return Poly.const(abs(a.cval()))
    return Poly.atom(("abs", a))


def i_uninterp(name):
    def h(ip, c):
        args = tuple(ip.facts.norm(ip.n(L(a))) for a in c.a)
        return Poly.atom((name,) + args)
    return h


def i_sqrt(ip, c):
    a = ip.facts.norm(ip.n(L(c.a[0])))
    if a.is_const():
        import math
        v = a.cval()
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                from fractions import Fraction
                return Poly.const(Fraction(n, d))
    return Poly.atom(("sqrt", a))


def i_pow(ip, c):
    a = ip.facts.norm(ip.n(L(c.a[0])))
    n = ip.facts.norm(ip.n(L(c.a[1])))
    if n.is_const() and n.cval().denominator == 1 and 0 <= n.cval() <= 8:
        r = ONE
        for _ in range(int(n.cval())):
            r = r * a
        return r
    return Poly.atom(("pow", a, n))


def arr_range(ip, a, b):
    a, b = L(a), L(b)
    if isinstance(a, I.Ptr) and isinstance(b, I.Ptr) and isinstance(a.b, I.Arr):
        a, b = I.It(a.b, a.o), I.It(b.b, b.o)
    if isinstance(a, I.It) and isinstance(b, I.It) and isinstance(a.c, I.Arr) and a.c is b.c and a.c.rest is None:
        i, j = ip.facts.norm(ip.it_index(a)), ip.facts.norm(ip.it_index(b))
        if i.is_const() and j.is_const():
            return a.c, int(i.cval()), int(j.cval())
    raise I.Undecided("iterator range with unknown bounds")


def i_sort(ip, c):
    arr, i, j = arr_range(ip, c.a[0], c.a[1])
    cmpf = c.a[2] if len(c.a) > 2 else None

    def lt(x, y):
        if cmpf is not None:
            return ip.decide(ip.truth(ip.call_value(cmpf, [x, y])))
        return ip.decide(less(ip, x, y))
    seg = arr.e[i:j]
    vals = [ip.copy(x) for x in seg]
    # insertion sort, one state per ordering
    out = []
    for v in vals:
        k = len(out)
        while k > 0 and lt(v, out[k - 1]):
            k -= 1
        out.insert(k, v)
    for p, v in zip(seg, out):
        ip.assign(p, v)
        if isinstance(v, (I.Obj, I.Arr)):
            ip.destroy(v)
    ip.event("sort", arr)
    return None


def less(ip, x, y):
    x, y = L(x), L(y)
    if isinstance(x, I.Obj) and isinstance(y, I.Obj) and tmpl(strip_cvref(x.cls))[0] == "std::pair" and "first" in x.f and "first" in y.f:
        for k in ("first", "second"):
            a, b = x.f[k], y.f[k]
            if ip.decide(less(ip, a, b)):
                return True
            if k == "first" and ip.decide(less(ip, b, a)):
                return False
        return False
    if isinstance(x, I.Obj):
        f = None
        for g in ip.db.fns.values():
            if g["n"] in ("operator<", "operator<=>") and len(g["params"]) == (2 if g["kind"] == "fn" else 1):
                if g["kind"] == "fn" and strip_cvref(ip.db.t(g["params"][0]["t"])) == x.cls:
                    f = g
                elif g["kind"] == "method" and ip.db.t(g["ct"]) == x.cls:
                    f = g
        if f is not None:
            r = ip.call_fn(f, None, [x, y]) if f["kind"] == "fn" else ip.call_fn(f, x, [y])
            if f["n"] == "operator<":
                return ip.truth(r)
            return generic_op(ip, "<", [r, ZERO], None, None)
        raise I.Undecided("ordering of " + x.cls)
    if isinstance(x, I.Arr) and isinstance(y, I.Arr):
        for a, b in zip(x.e, y.e):
            if ip.decide(less(ip, a, b)):
                return True
            if ip.decide(less(ip, b, a)):
                return False
        return len(x.e) < len(y.e)
    return ip.cmp("<", x, y)


def i_transform(ip, c):
    first = elements(ip, c.a[0], c.a[1])
    if len(c.a) == 4:
        out, f = L(c.a[2]), c.a[3]
        srcs = [first]
    else:
        s2 = L(c.a[2])
        k0 = int(ip.facts.norm(ip.it_index(s2)).cval())
        out, f = L(c.a[3]), c.a[4]
        srcs = [first, s2.c.e[k0:k0 + len(first)]]
    for k, xs in enumerate(zip(*srcs)):
        v = ip.call_value(f, list(xs))
        if isinstance(out, I.Obj) and out.cls == "inserter":
            put(ip, out, k, place(v))
        elif isinstance(out, I.It):
            ip.assign(ip.deref(ip.it_add(out, Poly.const(k))), v)
        else:
            out = store_out(ip, out, v)
    return out


def store_out(ip, out, v):
    if isinstance(out, I.Obj) and out.cls == "back_inserter":
        out.meta["c"].e = out.meta["c"].e + [place(v)]
        return out
    raise I.Undecided("output iterator")


def positions(ip, a, b):
    """[(element, iterator to it)] of a range, and its end"""
    x, y = L(a), L(b)
    if isinstance(x, I.It) and isinstance(x.c, I.MapV) and isinstance(y, I.It) and x.c is y.c and x.c.rest is None:
        m = x.c
        map_order(ip, m)
        idx = lambda i: len(m.ents) if i.p == "end" else next(j for j, z in enumerate(m.ents) if z is i.p)
        return [(ip.deref(I.It(m, en)), I.It(m, en)) for en in m.ents[idx(x):idx(y)]], y
    if isinstance(x, I.Obj) and x.cls in ip.db.rec_by_t and isinstance(y, I.Obj):
        import more
        return more.walk(ip, I.Call({}, {}, None, [], ""), x, y, True), y
    arr, i, j = arr_range(ip, a, b)
    return [(arr.e[k], I.It(arr, Poly.const(k))) for k in range(i, j)], I.It(arr, Poly.const(j))


def i_find(ip, c):
    ps, end = positions(ip, c.a[0], c.a[1])
    for x, it in ps:
        if ip.decide(ip.eq_obj(x, place(c.a[2]))):
            return it
    return end


def i_find_if(neg=False):
    def h(ip, c):
        ps, end = positions(ip, c.a[0], c.a[1])
        for x, it in ps:
            r = ip.decide(ip.truth(ip.call_value(c.a[2], [x])))
            if r != neg:
                return it
        return end
    return h


def i_quant(kind):
    def h(ip, c):
        for x in elements(ip, c.a[0], c.a[1]):
            r = ip.decide(ip.truth(ip.call_value(c.a[2], [x])))
            if kind == "all" and not r:
                return False
            if kind == "any" and r:
                return True
            if kind == "none" and r:
                return False
        return kind != "any"
    return h


def elements(ip, a, b=None):
    """the places of a range (begin, end) or of a whole container"""
    if b is None:
        v = L(a)
        if isinstance(v, I.Arr) and v.rest is None:
            return list(v.e)
        if isinstance(v, I.MapV) and v.rest is None:
            map_order(ip, v)
            return [ip.deref(I.It(v, en)) for en in v.ents]
        if isinstance(v, I.Obj) and v.cls in ip.db.rec_by_t:
            import more
            return elements(ip, *more.ends(ip, I.Call({}, {}, None, [], ""), v))
        raise I.Undecided("range with unknown contents")
    x, y = L(a), L(b)
    if isinstance(x, I.Obj) and x.cls in ip.db.rec_by_t and isinstance(y, I.Obj):
        import more
        return more.walk(ip, I.Call({}, {}, None, [], ""), x, y)
    if isinstance(x, I.It) and isinstance(x.c, I.MapV) and isinstance(y, I.It) and x.c is y.c and x.c.rest is None:
        idx = lambda i: len(x.c.ents) if i.p == "end" else next(j for j, z in enumerate(x.c.ents) if z is i.p)
        return [ip.deref(I.It(x.c, en)) for en in x.c.ents[idx(x):idx(y)]]
    arr, i, j = arr_range(ip, a, b)
    return arr.e[i:j]


def map_order(ip, m):
    """ordered containers are traversed in key order"""
    if m.cls not in ("std::map", "std::set", "std::multimap") or len(m.ents) < 2 or m.rest is not None:
        return
    if all(I.Poly is type(ip.facts.norm(e[0]) if isinstance(e[0], Poly) else None) and e[0].is_const() for e in m.ents):
        m.ents.sort(key=lambda e: e[0].cval())
        return
    out = []
    for en in m.ents:
        k = len(out)
        while k > 0 and ip.decide(less(ip, place(en[0]), place(out[k - 1][0]))):
            k -= 1
        out.insert(k, en)
    m.ents[:] = out


def put(ip, out, k, x):
    """write the k-th element through an output iterator"""
    if isinstance(out, I.It):
        ip.assign(ip.deref(ip.it_add(out, Poly.const(k))), x)
    elif isinstance(out, I.Ptr):
        ip.assign(ip.deref(I.Ptr(out.b, out.o + Poly.const(k))), x)
    elif isinstance(out, I.Obj) and out.cls == "inserter":
        m = out.meta["c"]
        if isinstance(m, I.MapV):
            if m.isset:
                map_insert(ip, m, x, lambda: None)
            else:
                map_insert(ip, m, x.f["first"], lambda: ip.copy(x.f["second"]))
        else:
            raise I.Undecided("inserter into a sequence")
    else:
        store_out(ip, out, ip.copy(x))


def i_setop(kind):
    def h(ip, c):
        a, b = elements(ip, c.a[0], c.a[1]), elements(ip, c.a[2], c.a[3])
        out = L(c.a[4])
        i = j = k = 0
        while i < len(a) or j < len(b):
            if i >= len(a):
                if kind == "union":
                    put(ip, out, k, b[j])
                    k += 1
                elif kind != "symmetric":
                    break
                j += 1
                continue
            if j < len(b) and ip.decide(less(ip, b[j], a[i])):
                if kind == "union":
                    put(ip, out, k, b[j])
                    k += 1
                j += 1
                continue
            eq = j < len(b) and not ip.decide(less(ip, a[i], b[j]))
            if (eq and kind in ("intersection", "union")) or (not eq and kind in ("difference", "union")):
                put(ip, out, k, a[i])
                k += 1
            i += 1
            if eq:
                j += 1
        return out
    return h


def i_inserter(ip, c):
    o = I.Obj("inserter")
    o.meta["c"] = L(c.a[0])
    return o


def whole(ip, a):
    """(begin, end) iterators of a container argument"""
    v = L(a)
    if isinstance(v, I.Arr):
        return I.It(v, ZERO), I.It(v, Poly.const(len(v.e)) if v.rest is None else "end")
    if isinstance(v, I.MapV):
        map_order(ip, v)
        return (I.It(v, v.ents[0]) if v.ents else I.It(v, "end")), I.It(v, "end")
    if isinstance(v, I.Obj) and v.cls in ip.db.rec_by_t:
        import more
        return more.ends(ip, I.Call({}, {}, None, [], ""), v)
    raise I.Undecided(f"range {v!r}")


PROJECTED = ("find", "find_if", "find_if_not", "count", "count_if", "all_of", "any_of", "none_of", "for_each", "sort", "stable_sort",
             "min_element", "max_element", "adjacent_find", "is_sorted", "transform")


def i_ranges(ip, c):
    """std::ranges::X(range, ...) as std::X(begin, end, ...)"""
    n = c.x["b"].split("::")
    name = next((z for z in n if z.startswith("__") and z.endswith("_fn")), None)
    if name is None:
        return NotImplemented
    name = name[2:-3]
    h = ip.intr.get("std::" + name)
    if h is None:
        raise I.Undecided("std::ranges::" + name)
    a = list(c.a)
    if name in ("size", "ssize", "begin", "end", "cbegin", "cend", "data", "empty", "swap", "distance"):
        return h(ip, I.Call(c.e, c.x, None, a, c.t))
    out = []
    nr = 2 if name in ("set_difference", "set_intersection", "set_union", "equal", "includes", "is_permutation", "swap_ranges", "lexicographical_compare") else 1
    i = 0
    for _ in range(nr):
        v = L(a[i])
        if isinstance(v, (I.It, I.Ptr)):
            out += a[i:i + 2]
            i += 2
        else:
            out += list(whole(ip, v))
            i += 1
    rest = a[i:]
    # projections: combined with the predicate, the value or the order they apply to
    std = lambda z, *ks: isinstance(L(z), I.Obj) and L(z).cls in ks
    pos = {"transform": 2}.get(name, 1)
    if name in PROJECTED and len(rest) > pos and not std(rest[pos], "std::identity"):
        if len(rest) > pos + 1 and not all(std(z, "std::identity") for z in rest[pos + 1:]):
            raise I.Undecided(f"two projections of std::ranges::{name}")
        pr, what = rest[pos], rest[pos - 1]
        proj = lambda x: place(ip.call_value(pr, [x]))
        if name in ("find", "count"):
            name, h = name + "_if", ip.intr["std::" + name + "_if"]
            f = lambda x: ip.eq_obj(proj(x), place(what))
        elif std(what, "std::ranges::less", "std::less"):
            f = lambda x, y: less(ip, proj(x), proj(y))
        elif std(what, "std::ranges::greater", "std::greater"):
            f = lambda x, y: less(ip, proj(y), proj(x))
        elif std(what, "std::ranges::equal_to", "std::equal_to"):
            f = lambda x, y: ip.eq_obj(proj(x), proj(y))
        else:
            f = lambda *x: ip.call_value(what, [proj(z) for z in x])
        rest[pos - 1:] = [I.NativeFn(f)]
    # default comparators / projections
    rest = [z for z in rest if not (isinstance(L(z), I.Obj) and L(z).cls in (
        "std::ranges::less", "std::identity", "std::ranges::equal_to"))]
    return h(ip, I.Call(c.e, c.x, None, out + rest, c.t))


def i_div(ip, c):
    a, b = L(c.a[0]), L(c.a[1])
    o = I.Obj("div_t", lazy=False)
    for n, op in (("quot", "/"), ("rem", "%")):
        o.f[n] = I.Cell(ip.arith(op, a, b, "int"), "int")
    return o


def i_foreach(ip, c):
    for x in elements(ip, c.a[0], c.a[1]):
        ip.call_value(c.a[2], [x])
    return c.a[2]


def i_accumulate(ip, c):
    acc = c.a[2]
    t = I.strip_cvref(c.t or "")
    for x in elements(ip, c.a[0], c.a[1]):
        if len(c.a) > 3:
            acc = ip.call_value(c.a[3], [place(acc), x])
        else:
            acc = ip.add(L(acc), L(x))
        # the sum is kept in a variable of the type of the initial value
        acc = L(acc)
        if isinstance(acc, Poly):
            if t in I.INT_BITS and isinstance(x, I.Cell) and I.strip_cvref(x.t or "") in I.REAL_TYPES:
                acc = ip.trunc(acc)
            acc = I.fit(acc, t)
    return acc


def i_copy(ip, c):
    out = L(c.a[2])
    xs = elements(ip, c.a[0], c.a[1])
    for k, x in enumerate(xs):
        put(ip, out, k, x)
    return ip.add(out, Poly.const(len(xs))) if isinstance(out, (I.It, I.Ptr)) else out


def i_fill(ip, c):
    arr, i, j = arr_range(ip, c.a[0], c.a[1])
    for k in range(i, j):
        ip.assign(arr.e[k], L(c.a[2]))
    return None


def i_reverse(ip, c):
    arr, i, j = arr_range(ip, c.a[0], c.a[1])
    vals = [ip.copy(x) for x in arr.e[i:j]]
    for p, v in zip(arr.e[i:j], reversed(vals)):
        ip.assign(p, v)
        if isinstance(v, (I.Obj, I.Arr)):
            ip.destroy(v)
    return None


def i_count(ip, c):
    arr, i, j = arr_range(ip, c.a[0], c.a[1])
    n = 0
    for k in range(i, j):
        if ip.decide(ip.eq_obj(arr.e[k], place(c.a[2]))):
            n += 1
    return Poly.const(n)


def i_distance(ip, c):
    a, b = L(c.a[0]), L(c.a[1])
    if isinstance(a, I.It) and isinstance(b, I.It):
        x, y = ip.it_index(a), ip.it_index(b)
        if x is not None and y is not None:
            return y - x
    if isinstance(a, I.Ptr) and isinstance(b, I.Ptr):
        return ip.arith("-", b, a, "long")
    raise I.Undecided("distance")


def i_advance(ip, c):
    p = c.a[0]
    ip.write(p, ip.add(L(p), ip.n(L(c.a[1]))))
    return None


def i_back_inserter(ip, c):
    o = I.Obj("back_inserter")
    o.meta["c"] = L(c.a[0])
    return o


def i_destroy_at(ip, c):
    p = ip.deref(L(c.a[0]))
    ip.event("dtor-call", p, c.e)
    h = getattr(ip, "dtorcall_hook", None)
    if h and h(ip, p, c.e):
        return None
    ip.destroy(p)
    return None


def i_addressof(ip, c):
    return ip.addr(c.a[0])


def i_none(ip, c):
    return None


def i_stream(ip, c):
    """operator<< on a stream returns the stream"""
    return c.o if c.o is not None else c.a[0]


def i_to_string(ip, c):
    return I.Term("to_string", I.vkey(L(c.a[0])))


def generic_op(ip, op, a, e, x):
    """operators on modelled library values"""
    v = [L(z) for z in a]
    # ordering objects against 0
    if v and isinstance(v[0], I.Obj) and v[0].cls == "ordering":
        p, q = L(v[0].f["a"]), L(v[0].f["b"])
        if isinstance(p, (I.Arr, I.Obj)) and op in ("<", ">", "<=", ">="):
            r = less(ip, p, q) if op in ("<", ">=") else less(ip, q, p)
            return r if op in ("<", ">") else ip.neg(r)
        return ip.cmp(op, p, q)
    if len(v) == 2 and isinstance(v[1], I.Obj) and v[1].cls == "ordering":
        return NotImplemented
    if op in ("==", "!="):
        r = ip.eq(v[0], v[1]) if not isinstance(v[0], (I.Obj,)) else ip.eq_obj(v[0], v[1])
        return r if op == "==" else ip.neg(r)
    if isinstance(v[0], (I.It, I.Ptr)):
        if op == "*" and len(v) == 1:
            return ip.deref(v[0])
        if op == "->":
            return ip.addr(ip.deref(v[0]))
        if op in ("++", "--"):
            old = v[0]
            new = ip.add(old, ONE if op == "++" else -ONE)
            if isinstance(a[0], I.Cell):
                ip.write(a[0], new)
            return old if len(v) == 2 else a[0]
        if op in ("+", "-"):
            if op == "-" and isinstance(v[1], (I.It, I.Ptr)):
                return ip.arith("-", v[0], v[1], "long")
            return ip.add(v[0], ip.n(v[1]) if op == "+" else -ip.n(v[1]))
        if op in ("+=", "-="):
            ip.write(a[0], ip.add(v[0], ip.n(v[1]) if op == "+=" else -ip.n(v[1])))
            return a[0]
        if op in ("<", ">", "<=", ">="):
            return ip.cmp(op, v[0], v[1])
        if op == "[]":
            return ip.deref(ip.add(v[0], ip.n(v[1])))
        if op == "=":
            ip.write(a[0], v[1])
            return a[0]
    if op in ("<", ">", "<=", ">=") and isinstance(v[0], (I.Obj, I.Arr)):
        if op == "<":
            return less(ip, a[0], a[1])
        if op == ">":
            return less(ip, a[1], a[0])
        if op == "<=":
            return ip.neg(less(ip, a[1], a[0]))
        return ip.neg(less(ip, a[0], a[1]))
    if op == "<=>":
        return I.Obj("ordering", {"a": place(a[0]), "b": place(a[1])})
    if op == "[]" and isinstance(v[0], I.Arr):
        return ip.index(v[0], ip.n(v[1]))
    if op == "=":
        if isinstance(a[0], I.Cell) and not isinstance(a[0].v, I.Place):
            ip.write(a[0], v[1])
            return a[0]
        return ip.assign(a[0], a[1], bool(x and x.get("asg") == "move"))
    if op == "+" and (isinstance(v[0], (I.Str, I.Term)) or isinstance(v[1], (I.Str, I.Term))):
        if isinstance(v[0], I.Str) and isinstance(v[1], I.Str):
            return I.Str(v[0].s + v[1].s)
        if isinstance(v[0], Poly) and v[0].is_const() and isinstance(v[1], I.Str):
            return I.Str(chr(int(v[0].cval())) + v[1].s)
        if isinstance(v[1], Poly) and v[1].is_const() and isinstance(v[0], I.Str):
            return I.Str(v[0].s + chr(int(v[1].cval())))
        return I.Term("cat", I.vkey(v[0]), I.vkey(v[1]))
    if op == "+=" and isinstance(v[0], (I.Str, I.Term)):
        nv = I.Str(v[0].s + v[1].s) if isinstance(v[0], I.Str) and isinstance(v[1], I.Str) else I.Term("cat", I.vkey(v[0]), I.vkey(v[1]))
        ip.write(a[0], nv)
        return a[0]
    if op == "<<":
        return a[0]
    return NotImplemented


def ordering_op(ip, c):
    a = ([c.o] if c.o is not None else []) + c.a
    return generic_op(ip, c.e.get("op") or c.x["n"].replace("operator", ""), a, c.e, c.x)


def i_string_ctor(ip, c):
    if not c.a:
        return I.Str("")
    v = L(c.a[0])
    return v


def i_string_method(ip, c):
    n = c.x["n"]
    v = L(c.o)
    if n in ("c_str", "data"):
        return v
    if n == "empty" and isinstance(v, I.Str):
        return v.s == ""
    if n in ("size", "length") and isinstance(v, I.Str):
        return Poly.const(len(v.s))
    if n == "operator=":
        ip.write(c.o, L(c.a[0]))
        return c.o
    return NotImplemented


def journal_ctor(ip, c):
    b = tmpl(c.t)
    return I.Obj("journal:" + c.x["q"], {})


def smart_method(ip, c):
    """standard smart pointers: a cell holding the pointer"""
    n = c.x["n"]
    o = L(c.o)
    if isinstance(o, I.Obj):
        return NotImplemented
    if n in ("get", "operator->"):
        return o
    if n == "operator*":
        return ip.deref(o)
    if n == "operator bool":
        return ip.neg(ip.ptr_eq(o, I.NULL))
    if n == "operator=":
        ip.write(c.o, L(c.a[0]))
        return c.o
    return NotImplemented


def smart_ctor(ip, c):
    if not c.a:
        return I.NULL
    v = L(c.a[0])
    return v if isinstance(v, I.Ptr) or v is I.NULL else NotImplemented


def i_make_smart(ip, c):
    t = strip_cvref(tmpl(strip_cvref(c.t))[1][0])
    r = ip.db.rec_by_t.get(t)
    if r is None:
        return NotImplemented
    o = I.Obj(t)
    for f in ip.db.fns.values():
        if f.get("ct") is not None and ip.db.t(f["ct"]) == t and f.get("ctor") and len(f["params"]) == len(c.a):
            ip.call_fn(f, o, c.a)
            return I.Ptr(o)
    return NotImplemented


def install(ip):
    R = ip.intr
    R["std::__cmp_cat::__unspec::__unspec"] = lambda ip, c: ZERO
    for n in ("std::__shared_ptr", "std::shared_ptr", "std::unique_ptr", "std::__shared_ptr_access"):
        R[n + "::" + n[5:]] = smart_ctor
        ip.prefix.append((n + "::", smart_method))
    R["std::make_shared"] = R["std::make_unique"] = i_make_smart
    for n in ("move", "forward", "as_const", "forward_like", "ref", "cref", "launder", "to_address", "make_move_iterator"):
        R["std::" + n] = same
    R["__gnu_cxx::__normal_iterator::__normal_iterator"] = lambda ip, c: L(c.a[0]) if len(c.a) == 1 else NotImplemented
    R["std::next"] = i_next
    R["std::prev"] = i_prev
    R["std::size"] = i_size
    R["std::ssize"] = i_size
    R["std::begin"] = R["std::cbegin"] = i_beginend("begin")
    R["std::end"] = R["std::cend"] = i_beginend("end")
    R["std::get"] = i_get
    R["std::swap"] = R["std::iter_swap"] = i_swap
    R["std::exchange"] = i_exchange
    R["std::pair::pair"] = i_pair_ctor
    R["std::tuple::tuple"] = i_tuple_ctor
    R["std::make_pair"] = i_make_pair
    R["std::make_tuple"] = i_make_tuple
    R["std::tie"] = R["std::forward_as_tuple"] = i_tie
    R["std::min"] = i_minmax(min)
    R["std::minmax"] = i_both
    R["std::max"] = i_minmax(max)
    R["std::abs"] = R["std::fabs"] = R["abs"] = R["fabs"] = i_abs
    R["std::sqrt"] = R["sqrt"] = i_sqrt
    R["std::pow"] = R["pow"] = i_pow
    for n in ("log", "exp", "sin", "cos", "tan", "asin", "acos", "atan", "cosh", "sinh", "atan2", "log1p", "expm1", "cbrt"):
        R["std::" + n] = R[n] = i_uninterp(n)
    R["std::sort"] = R["std::stable_sort"] = i_sort
    R["std::ranges::sort"] = None
    del R["std::ranges::sort"]
    R["std::transform"] = i_transform
    R["std::div"] = R["div"] = R["ldiv"] = i_div
    R["std::find"] = i_find
    R["std::find_if"] = i_find_if()
    R["std::find_if_not"] = i_find_if(True)
    R["std::all_of"] = i_quant("all")
    R["std::any_of"] = i_quant("any")
    R["std::none_of"] = i_quant("none")
    R["std::for_each"] = i_foreach
    R["std::accumulate"] = i_accumulate
    R["std::copy"] = i_copy
    R["std::fill"] = i_fill
    R["std::reverse"] = i_reverse
    R["std::count"] = i_count
    R["std::distance"] = i_distance
    R["std::advance"] = i_advance
    R["std::back_inserter"] = i_back_inserter
    R["std::inserter"] = i_inserter
    R["std::empty"] = lambda ip, c: (map_method if isinstance(L(c.a[0]), I.MapV) else seq_method)(
        ip, I.Call(c.e, {"n": "empty"}, L(c.a[0]), [], c.t))
    for k in ("difference", "intersection", "union"):
        R["std::set_" + k] = i_setop(k)
    import algos
    algos.install(ip, sys.modules[__name__])
    import more
    more.install(ip, sys.modules[__name__])
    ip.prefix.append(("std::ranges::__", i_ranges))
    R["std::destroy_at"] = i_destroy_at
    R["std::addressof"] = R["std::__addressof"] = i_addressof
    R["__builtin_expect"] = lambda ip, c: L(c.a[0])
    R["std::to_string"] = i_to_string
    # exceptions: what they say is not looked at
    for n in ("runtime_error", "logic_error", "invalid_argument", "out_of_range", "domain_error", "length_error", "range_error", "overflow_error", "underflow_error", "exception", "bad_alloc"):
        R[f"std::{n}::{n}"] = lambda ip, c: NotImplemented if c.x.get("ctor") in ("copy", "move") else I.Obj(strip_cvref(c.t), {})
    R["std::basic_string::basic_string"] = i_string_ctor
    for n in ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::_Rb_tree", "std::_Hashtable", "std::__detail::_Map_base"):
        ip.prefix.append((n + "::", map_method))
    for n in ("std::vector", "std::array", "std::queue", "std::deque", "std::list", "std::initializer_list", "std::span"):
        ip.prefix.append((n + "::", seq_method))
    ip.prefix.append(("std::basic_string::", i_string_method))
    ip.prefix.append(("pyre::journal::", i_journal))
    ip.prefix.append(("std::basic_ostream::", i_stream))


def i_journal(ip, c):
    n = c.x["n"]
    if "ctor" in c.x or c.e["k"] == "ctor":
        return I.Obj("journal:" + c.x["b"])
    if c.t and strip_cvref(c.t).startswith("pyre::journal::") and strip_cvref(c.t).endswith("_error"):
        # errors and firewalls are fatal: flushing the message raises
        raise I.PathEnd("throw", f"journal line {c.e['l']}")
    if n == "endl" or n.startswith("operator"):
        return c.o if c.o is not None else (c.a[0] if c.a else None)
    return I.Obj("journal")
