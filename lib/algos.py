"""further standard algorithms, by their definition on ranges of known length"""
import interp as I
from poly import Poly, ZERO, ONE


def install(ip, N):
    """N: the intrinsics module"""
    R = ip.intr
    L, less, elements, arr_range, place, put = N.L, N.less, N.elements, N.arr_range, N.place, N.put

    def true(ip, v):
        return ip.decide(ip.truth(v))

    def ltf(ip, f):
        return (lambda x, y: true(ip, ip.call_value(f, [x, y]))) if f is not None else (lambda x, y: ip.decide(less(ip, x, y)))

    def eqf(ip, f):
        return (lambda x, y: true(ip, ip.call_value(f, [x, y]))) if f is not None else (lambda x, y: ip.decide(ip.eq_obj(x, y)))

    def arg(c, i):
        return c.a[i] if len(c.a) > i else None

    def at(ip, c, k):
        """the iterator k steps behind the first argument"""
        return ip.add(L(c.a[0]), Poly.const(k))

    def end(ip, c):
        return L(c.a[1])

    def is_it(v):
        return isinstance(L(v), (I.It, I.Ptr))

    def second(ip, c):
        """the second range of a two-range algorithm, and the index of the argument behind it"""
        if len(c.a) > 3 and is_it(c.a[3]):
            return elements(ip, c.a[2], c.a[3]), 4
        arr, i, j = arr_range(ip, c.a[0], c.a[1])
        b = L(c.a[2])
        if isinstance(b, I.Ptr) and isinstance(b.b, I.Arr):
            b = I.It(b.b, b.o)
        k0 = ip.facts.norm(ip.it_index(b)) if isinstance(b, I.It) and isinstance(b.c, I.Arr) else None
        if k0 is None or not k0.is_const():
            raise I.Undecided("second range")
        k0 = int(k0.cval())
        return b.c.e[k0:k0 + (j - i)], 3

    def xs(ip, c):
        return elements(ip, c.a[0], c.a[1])

    def overwrite(ip, places, vals):
        for p, v in zip(places, vals):
            ip.assign(p, v)
            if isinstance(v, (I.Obj, I.Arr)):
                ip.destroy(v)

    def reg(*names):
        def d(f):
            for n in names:
                R["std::" + n] = f
            return f
        return d

    def bound(upper):
        def h(ip, c):
            lt = ltf(ip, arg(c, 3))
            v = place(c.a[2])
            es = xs(ip, c)
            k = 0
            # the partition point, by definition (the range is sorted)
            while k < len(es) and (not lt(v, es[k]) if upper else lt(es[k], v)):
                k += 1
            return k
        return h
    lower, upper = bound(False), bound(True)
    R["std::lower_bound"] = lambda ip, c: at(ip, c, lower(ip, c))
    R["std::upper_bound"] = lambda ip, c: at(ip, c, upper(ip, c))

    @reg("binary_search")
    def binary_search(ip, c):
        k = lower(ip, c)
        es = xs(ip, c)
        return k < len(es) and not ltf(ip, arg(c, 3))(place(c.a[2]), es[k])

    @reg("contains")
    def contains(ip, c):
        return any(ip.decide(ip.eq_obj(x, place(c.a[2]))) for x in xs(ip, c))

    @reg("rotate")
    def rotate(ip, c):
        arr, i, m = arr_range(ip, c.a[0], c.a[1])
        arr, i, j = arr_range(ip, c.a[0], c.a[2])
        seg = arr.e[i:j]
        vals = [ip.copy(x) for x in seg]
        k = m - i
        overwrite(ip, seg, vals[k:] + vals[:k])
        return at(ip, c, j - m)

    @reg("count_if")
    def count_if(ip, c):
        return Poly.const(sum(1 for x in xs(ip, c) if true(ip, ip.call_value(c.a[2], [x]))))

    @reg("is_sorted")
    def is_sorted(ip, c):
        lt, es = ltf(ip, arg(c, 2)), xs(ip, c)
        return not any(lt(es[k + 1], es[k]) for k in range(len(es) - 1))

    @reg("adjacent_find")
    def adjacent_find(ip, c):
        eq, es = eqf(ip, arg(c, 2)), xs(ip, c)
        for k in range(len(es) - 1):
            if eq(es[k], es[k + 1]):
                return at(ip, c, k)
        return end(ip, c)

    @reg("is_permutation")
    def is_permutation(ip, c):
        a = xs(ip, c)
        if len(c.a) == 5 and c.x["n"] == "transform_reduce" and not is_it(c.a[2]):
            acc = c.a[2]
            for x in a:
                acc = ip.call_value(c.a[3], [place(acc), place(ip.call_value(c.a[4], [x]))])
            return L(acc)
        b, k = second(ip, c)
        eq = eqf(ip, arg(c, k))
        rest = list(b)
        if len(a) != len(rest):
            return False
        for x in a:
            for y in rest:
                if eq(x, y):
                    rest = [z for z in rest if z is not y]
                    break
            else:
                return False
        return True

    @reg("equal")
    def equal(ip, c):
        a = xs(ip, c)
        if len(c.a) == 5 and c.x["n"] == "transform_reduce" and not is_it(c.a[2]):
            acc = c.a[2]
            for x in a:
                acc = ip.call_value(c.a[3], [place(acc), place(ip.call_value(c.a[4], [x]))])
            return L(acc)
        b, k = second(ip, c)
        eq = eqf(ip, arg(c, k))
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))

    @reg("lexicographical_compare")
    def lexicographical_compare(ip, c):
        a, b = xs(ip, c), elements(ip, c.a[2], c.a[3])
        lt = ltf(ip, arg(c, 4))
        for x, y in zip(a, b):
            if lt(x, y):
                return True
            if lt(y, x):
                return False
        return len(a) < len(b)

    @reg("includes")
    def includes(ip, c):
        a, b = xs(ip, c), elements(ip, c.a[2], c.a[3])
        lt = ltf(ip, arg(c, 4))
        i = 0
        for y in b:
            while i < len(a) and lt(a[i], y):
                i += 1
            if i == len(a) or lt(y, a[i]):
                return False
            i += 1
        return True

    def extreme(which):
        def h(ip, c):
            lt, es = ltf(ip, arg(c, 2)), xs(ip, c)
            if not es:
                return end(ip, c)
            b = 0
            for k in range(1, len(es)):
                if (lt(es[k], es[b]) if which == "min" else lt(es[b], es[k])):
                    b = k
            return at(ip, c, b)
        return h
    R["std::min_element"], R["std::max_element"] = extreme("min"), extreme("max")

    @reg("clamp")
    def clamp(ip, c):
        v, lo, hi = (place(x) for x in c.a[:3])
        lt = ltf(ip, arg(c, 3))
        return lo if lt(v, lo) else hi if lt(hi, v) else v

    @reg("swap_ranges")
    def swap_ranges(ip, c):
        a = xs(ip, c)
        b, _ = second(ip, I.Call(c.e, c.x, None, c.a[:3], c.t))
        va, vb = [ip.copy(x) for x in a], [ip.copy(x) for x in b]
        overwrite(ip, a, vb)
        overwrite(ip, b, va)
        return ip.add(L(c.a[2]), Poly.const(len(a)))

    @reg("iota")
    def iota(ip, c):
        v = ip.n(L(c.a[2]))
        for k, p in enumerate(xs(ip, c)):
            ip.assign(p, v + Poly.const(k))
        return None

    @reg("generate")
    def generate(ip, c):
        for p in xs(ip, c):
            ip.assign(p, ip.call_value(c.a[2], []))
        return None

    def keep(ip, c, drop):
        arr, i, j = arr_range(ip, c.a[0], c.a[1])
        seg = arr.e[i:j]
        kept = [ip.copy(x) for k, x in enumerate(seg) if not drop(k, seg)]
        overwrite(ip, seg, kept)
        return at(ip, c, len(kept))
    R["std::remove"] = lambda ip, c: keep(ip, c, lambda k, s: ip.decide(ip.eq_obj(s[k], place(c.a[2]))))
    R["std::remove_if"] = lambda ip, c: keep(ip, c, lambda k, s: true(ip, ip.call_value(c.a[2], [s[k]])))

    @reg("unique")
    def unique(ip, c):
        eq, es, last = eqf(ip, arg(c, 2)), xs(ip, c), [None]

        def drop(k, s):
            if k and eq(s[last[0]], s[k]):
                return True
            last[0] = k
            return False
        return keep(ip, c, drop)

    @reg("copy_if")
    def copy_if(ip, c):
        out, k = L(c.a[2]), 0
        for x in xs(ip, c):
            if true(ip, ip.call_value(c.a[3], [x])):
                put(ip, out, k, x)
                k += 1
        return ip.add(out, Poly.const(k)) if isinstance(out, (I.It, I.Ptr)) else out

    def n_of(ip, v):
        v = ip.facts.norm(ip.n(L(v)))
        if not v.is_const():
            raise I.Undecided("count of an algorithm")
        return int(v.cval())

    @reg("copy_n")
    def copy_n(ip, c):
        n, out = n_of(ip, c.a[1]), L(c.a[2])
        for k, x in enumerate(elements(ip, c.a[0], at(ip, c, n))):
            put(ip, out, k, x)
        return ip.add(out, Poly.const(n)) if isinstance(out, (I.It, I.Ptr)) else out

    @reg("fill_n")
    def fill_n(ip, c):
        n, out = n_of(ip, c.a[1]), L(c.a[0])
        for k in range(n):
            put(ip, out, k, place(L(c.a[2])))
        return at(ip, c, n) if isinstance(out, (I.It, I.Ptr)) else out

    @reg("for_each_n")
    def for_each_n(ip, c):
        n = n_of(ip, c.a[1])
        for x in elements(ip, c.a[0], at(ip, c, n)):
            ip.call_value(c.a[2], [x])
        return at(ip, c, n)

    @reg("reverse_copy")
    def reverse_copy(ip, c):
        out, es = L(c.a[2]), xs(ip, c)
        for k, x in enumerate(reversed(es)):
            put(ip, out, k, x)
        return ip.add(out, Poly.const(len(es))) if isinstance(out, (I.It, I.Ptr)) else out

    @reg("replace")
    def replace(ip, c):
        for x in xs(ip, c):
            if ip.decide(ip.eq_obj(x, place(c.a[2]))):
                ip.assign(x, L(c.a[3]))
        return None

    @reg("inner_product", "transform_reduce")
    def inner_product(ip, c):
        a = xs(ip, c)
        if len(c.a) == 5 and c.x["n"] == "transform_reduce" and not is_it(c.a[2]):
            acc = c.a[2]
            for x in a:
                acc = ip.call_value(c.a[3], [place(acc), place(ip.call_value(c.a[4], [x]))])
            return L(acc)
        b, k = second(ip, I.Call(c.e, c.x, None, c.a[:3], c.t))
        acc = c.a[3]
        for x, y in zip(a, b):
            if len(c.a) > 5:
                acc = ip.call_value(c.a[4], [place(acc), place(ip.call_value(c.a[5], [x, y]))])
            else:
                acc = ip.n(L(acc)) + ip.n(L(x)) * ip.n(L(y))
        return L(acc)

    @reg("reduce")
    def reduce(ip, c):
        a = list(c.a)
        if len(a) == 2:
            a.append(ZERO)
        return N.i_accumulate(ip, I.Call(c.e, c.x, None, a, c.t))

    @reg("next_permutation")
    def next_permutation(ip, c):
        lt, es = ltf(ip, arg(c, 2)), xs(ip, c)
        i = len(es) - 2
        while i >= 0 and not lt(es[i], es[i + 1]):
            i -= 1
        vals = [ip.copy(x) for x in es]
        if i < 0:
            overwrite(ip, es, vals[::-1])
            return False
        j = len(es) - 1
        while not lt(es[i], es[j]):
            j -= 1
        vals[i], vals[j] = vals[j], vals[i]
        vals[i + 1:] = vals[i + 1:][::-1]
        overwrite(ip, es, vals)
        return True

    @reg("hypot")
    def hypot(ip, c):
        s = ZERO
        for x in c.a:
            x = ip.facts.norm(ip.n(L(x)))
            s = s + x * x
        return N.i_sqrt(ip, I.Call(c.e, c.x, None, [s], c.t))
    R["hypot"] = hypot

    @reg("fma")
    def fma(ip, c):
        a, b, d = (ip.n(L(x)) for x in c.a)
        return a * b + d
    R["fma"] = fma

    @reg("apply")
    def apply(ip, c):
        t = L(c.a[1])
        if not isinstance(t, I.Arr):
            return NotImplemented
        return ip.call_value(c.a[0], [place(x) for x in t.e])

    @reg("invoke", "__invoke")
    def invoke(ip, c):
        return ip.call_value(c.a[0], [place(x) for x in c.a[1:]])

    # views: evaluated where they are made; elements are places of the range they view
    def items(ip, r):
        r = L(r)
        if isinstance(r, I.Arr) and r.rest is None:
            return list(r.e)
        if isinstance(r, I.MapV) and r.rest is None:
            N.map_order(ip, r)
            return [ip.deref(I.It(r, en)) for en in r.ents]
        h = getattr(ip, "range_hook", None)
        out = h(r) if h else None
        if out is None:
            raise I.Undecided(f"a view of {r!r}"[:120])
        return out

    def view(ip, name, r, args):
        es = items(ip, r)
        if name == "filter":
            return [x for x in es if true(ip, ip.call_value(args[0], [x]))]
        if name == "transform":
            return [place(ip.call_value(args[0], [x])) for x in es]
        if name in ("take", "drop"):
            n = ip.n(L(args[0]))
            if not n.is_const():
                raise I.Undecided("a view of unknown length")
            n = int(n.cval())
            return es[:n] if name == "take" else es[n:]
        if name == "reverse":
            return es[::-1]
        if name in ("all", "common"):
            return es
        if name in ("keys", "values"):
            return [L(x).f["first" if name == "keys" else "second"] for x in es]
        raise I.Undecided("std::views::" + name)

    def kind(o):
        s = str(o.name or "") if isinstance(o, I.Obj) else ""
        return s.split("::")[-1]

    def adaptor(ip, c):
        b = c.x["b"]
        if b.endswith("::operator()"):
            o = L(c.o)
            k = kind(o)
            if not k:
                return NotImplemented
            need = 0 if k in ("reverse", "all", "common", "keys", "values") else 1
            if len(c.a) > need:
                return I.Arr(view(ip, k, c.a[0], c.a[1:]), None, "std::vector")
            return I.Obj("std::views::partial", {"args": I.Arr([place(x) for x in c.a], None, "std::vector")}, name="::" + k)
        if b.endswith("operator|"):
            r, a = L(c.a[0]), L(c.a[1])
            if not isinstance(a, I.Obj) or not kind(a) or isinstance(r, I.Obj) and r.cls == "std::views::partial":
                return NotImplemented
            return I.Arr(view(ip, kind(a), r, a.f["args"].e if "args" in a.f else []), None, "std::vector")
        return NotImplemented
    ip.prefix.append(("std::ranges::views::", adaptor))
