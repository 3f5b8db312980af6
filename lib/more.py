"""Optional values, ranges with iterators of their own, and other idioms of the standard library."""
import interp as I
from interp import ZERO, ONE, Poly, strip_cvref, tmpl

OPT = "std::optional"


def is_opt(v):
    return isinstance(v, I.Arr) and v.cls == OPT


def null(v):
    return isinstance(v, I.Obj) and v.cls.startswith("std::nullopt")


def new(t, es=()):
    return I.Arr(list(es), tmpl(strip_cvref(t))[1][0], OPT)


def call(ip, c, f, this, args):
    """a function of the analysed code, or what stands for it"""
    h = ip.over.get(f["b"])
    if h is not None:
        r = h(ip, I.Call(c.e, {"n": f["n"], "b": f["b"]}, this if this is not None else None, list(args), ip.db.t(f["ret"]) if f.get("ret") is not None else c.t))
        if r is not NotImplemented:
            return r
    return ip.call_fn(f, this, list(args))


def method(ip, cls, name, nargs=0):
    for f in ip.db.fns.values():
        if f["n"] == name and f.get("ct") is not None and ip.db.t(f["ct"]) == cls and len(f["params"]) == nargs:
            return f
    return None


def ends(ip, c, v):
    """begin and end of a range with functions begin and end of its own"""
    b, e = method(ip, v.cls, "begin"), method(ip, v.cls, "end")
    if b is None or e is None:
        raise I.Undecided(f"range {v!r}")
    return call(ip, c, b, v, []), call(ip, c, e, v, [])


def walk(ip, c, x, y, pos=False):
    """the elements between two iterators of the analysed code"""
    star, inc = method(ip, x.cls, "operator*"), method(ip, x.cls, "operator++")
    ne, eq = ip.find_op(x.cls, "operator!="), ip.find_op(x.cls, "operator==")
    if star is None or inc is None or (ne is None and eq is None):
        raise I.Undecided(f"iterator {x!r}")
    it = ip.copy(x)
    out = []
    for _ in range(10000):
        f = ne or eq
        r = call(ip, c, f, it, [y]) if f["kind"] == "method" else call(ip, c, f, None, [it, y])
        r = ip.decide(ip.truth(r))
        if r != (f is ne):
            return out
        v = call(ip, c, star, it, [])
        v = v if isinstance(v, I.Place) else I.Cell(v)
        out.append((v, ip.copy(it)) if pos else v)
        call(ip, c, inc, it, [])
    raise I.Undecided("iteration does not end")


def functor(ip, f, args):
    """the function objects of the standard library"""
    import intrinsics as N
    n = tmpl(strip_cvref(f.cls))[0].removeprefix("std::").removeprefix("ranges::")
    v = [N.L(x) for x in args]
    if n == "identity" and len(v) == 1:
        return args[0]
    if len(v) == 2:
        if n in ("less", "greater", "less_equal", "greater_equal"):
            a, b = (args[0], args[1]) if n in ("less", "greater_equal") else (args[1], args[0])
            r = ip.decide(N.less(ip, N.place(a), N.place(b)))
            return r if n in ("less", "greater") else not r
        if n in ("equal_to", "not_equal_to"):
            return ip.decide(ip.eq_obj(N.place(args[0]), N.place(args[1]))) == (n == "equal_to")
        if n in ("plus", "minus", "multiplies") and all(isinstance(x, Poly) for x in v):
            return v[0] + v[1] if n == "plus" else v[0] - v[1] if n == "minus" else v[0] * v[1]
        if n in ("logical_and", "logical_or"):
            a = ip.decide(ip.truth(v[0]))
            b = ip.decide(ip.truth(v[1]))
            return (a and b) if n == "logical_and" else (a or b)
    if len(v) == 1 and n == "negate" and isinstance(v[0], Poly):
        return -v[0]
    if len(v) == 1 and n == "logical_not":
        return not ip.decide(ip.truth(v[0]))
    return NotImplemented


def install(ip, N):
    R = ip.intr
    L, place = N.L, N.place

    # -- std::optional: a sequence of at most one element ------------------------------------
    def make(ip, v, t):
        x = v
        if is_opt(L(x)):
            return [place(ip.copy(z)) for z in L(x).e]
        if null(L(x)):
            return []
        w = tmpl(strip_cvref(t))[1][0]
        y = L(x)
        if isinstance(y, I.Obj) and y.cls in ip.db.rec_by_t and y.cls != strip_cvref(w):
            raise I.Undecided("conversion to an optional value")
        return [place(ip.copy(x) if isinstance(x, I.Place) else x)]

    def ctor(ip, c):
        if len(c.a) > 1:
            return NotImplemented
        return new(c.t, make(ip, c.a[0], c.t) if c.a else ())

    def opt(ip, c):
        n = c.x["n"]
        v = L(c.o)
        if c.e["k"] == "ctor" or not is_opt(v):
            return ctor(ip, c) if c.e["k"] == "ctor" else NotImplemented
        if n in ("has_value", "operator bool", "_M_is_engaged"):
            return bool(v.e)
        if n in ("operator*", "operator->", "value", "_M_get"):
            if not v.e:
                raise I.PathEnd("throw" if n == "value" else "ub", "std::bad_optional_access" if n == "value" else "the value of an empty optional is used")
            return I.Ptr(v.e[0]) if n == "operator->" else v.e[0]
        if n == "value_or":
            return ip.copy(v.e[0]) if v.e else (ip.copy(c.a[0]) if isinstance(c.a[0], I.Place) else c.a[0])
        if n == "reset":
            for x in v.e:
                ip.destroy(x)
            v.e = []
            return None
        if n == "operator=":
            es = make(ip, c.a[0], f"std::optional<{v.et}>")
            for x in v.e:
                ip.destroy(x)
            v.e = es
            return v
        if n == "emplace" and len(c.a) == 1:
            v.e = make(ip, c.a[0], f"std::optional<{v.et}>")
            return v.e[0]
        return NotImplemented

    R["std::optional::optional"] = ctor
    for b in ("std::optional::", "std::_Optional_base_impl::", "std::_Optional_base::"):
        ip.prefix.append((b, opt))
    R["std::make_optional"] = lambda ip, c: new(c.t, [place(ip.copy(c.a[0]) if isinstance(c.a[0], I.Place) else c.a[0])]) if len(c.a) == 1 else NotImplemented

    def compare(neg, old):
        def h(ip, c):
            a = [L(x) for x in c.a]
            if len(a) == 2 and (is_opt(a[0]) or is_opt(a[1])):
                es = [x.e if is_opt(x) else [] if null(x) else [place(x)] for x in a]
                r = len(es[0]) == len(es[1]) and (not es[0] or ip.decide(ip.eq_obj(es[0][0], es[1][0])))
                return r != neg
            return old(ip, c) if old else NotImplemented
        return h
    R["std::operator=="] = compare(False, R.get("std::operator=="))
    R["std::operator!="] = compare(True, R.get("std::operator!="))

    # -- conversions between iterators ---------------------------------------------------------
    def same(ip, c):
        return L(c.a[0]) if len(c.a) == 1 and isinstance(L(c.a[0]), (I.It, I.Ptr)) else NotImplemented
    for n in ("_Rb_tree_const_iterator", "_Rb_tree_iterator", "__detail::_Node_const_iterator", "__detail::_Node_iterator"):
        R[f"std::{n}::{n.split('::')[-1]}"] = same

    # -- erase_if ----------------------------------------------------------------------------
    def erase_if(ip, c):
        v = L(c.a[0])
        drop = lambda x: ip.decide(ip.truth(ip.call_value(c.a[1], [x])))
        if isinstance(v, I.Arr) and v.rest is None:
            out = [x for x in v.e if drop(x)]
            ip.touched(v)
            v.e = [x for x in v.e if not any(x is y for y in out)]
            for x in out:
                ip.destroy(x)
            return Poly.const(len(out))
        if isinstance(v, I.MapV) and v.rest is None:
            N.map_order(ip, v)
            out = [en for en in list(v.ents) if drop(ip.deref(I.It(v, en)))]
            ip.touched(v)
            v.ents[:] = [en for en in v.ents if not any(en is z for z in out)]
            for en in out:
                N.drop_entry(ip, v, en)
            return Poly.const(len(out))
        return NotImplemented
    R["std::erase_if"] = erase_if

    def erase(ip, c):
        v = L(c.a[0])
        if isinstance(v, I.Arr) and v.rest is None:
            out = [x for x in v.e if ip.decide(ip.eq_obj(x, place(c.a[1])))]
            ip.touched(v)
            v.e = [x for x in v.e if not any(x is y for y in out)]
            for x in out:
                ip.destroy(x)
            return Poly.const(len(out))
        return NotImplemented
    R["std::erase"] = erase

    # -- std::function: the callable it holds ----------------------------------------------------
    def fctor(ip, c):
        if len(c.a) == 1:
            v = L(c.a[0])
            if isinstance(v, I.Obj) and v.cls == "lambda" or isinstance(v, (I.Fn, I.NativeFn)):
                return v
        return NotImplemented
    R["std::function::function"] = fctor
    for n in ("plus", "minus", "multiplies", "less", "greater", "less_equal", "greater_equal", "equal_to", "not_equal_to", "logical_and", "logical_or",
              "logical_not", "negate", "identity"):
        for p in ("std::", "std::ranges::"):
            R.setdefault(f"{p}{n}::operator()", lambda ip, c: functor(ip, L(c.o), c.a) if isinstance(L(c.o), I.Obj) else NotImplemented)


SV, IT = "mito::utilities::SegmentedVector::", "mito::utilities::SegmentedContainerIterator::"


def standins(ip):
    """sequences standing for segmented containers, and their iterators"""
    import intrinsics as N

    def on(name):
        def h(ip, c):
            v = N.L(c.o)
            if not isinstance(v, I.Arr):
                return NotImplemented
            if name == "begin":
                return I.It(v, ZERO)
            if name == "end":
                return I.It(v, "end")
            return N.seq_method(ip, I.Call(c.e, {"n": name}, v, c.a, c.t))
        return h

    def it(name):
        def h(ip, c):
            v = N.L(c.o)
            if not isinstance(v, I.It):
                return NotImplemented
            if name == "*":
                return ip.deref(v)
            if name == "->":
                return I.Ptr(ip.deref(v))
            ip.write(c.o, ip.it_add(v, ONE))
            return v if c.a else c.o
        return h

    def eq(neg, old):
        def h(ip, c):
            a = [N.L(x) for x in c.a]
            if all(isinstance(x, I.It) for x in a):
                r = ip.eq(a[0], a[1])
                return ip.neg(r) if neg else r
            return old(ip, c) if old else NotImplemented
        return h
    for n in ("begin", "end", "size"):
        ip.over.setdefault(SV + n, on(n))
    for n in ("*", "->", "++"):
        ip.over.setdefault(IT + "operator" + n, it(n))
    ip.over.setdefault(IT + "SegmentedContainerIterator", lambda ip, c: N.L(c.a[0]) if len(c.a) == 1 and isinstance(N.L(c.a[0]), I.It) else NotImplemented)
    for n, neg in (("operator==", False), ("operator!=", True)):
        k = "mito::utilities::" + n
        ip.over[k] = eq(neg, ip.over.get(k))
