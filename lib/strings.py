"""standard strings with known contents: their methods by definition; reading only through iterators"""
import interp as I
from poly import Poly, ZERO

NPOS = 2 ** 64 - 1
SPACE = " \t\n\v\f\r"


class ReadOnly(I.Cell):
    """a character seen through an iterator or a reference: writing through it is not modelled"""

    def __setattr__(self, k, v):
        if k == "v" and hasattr(self, "v"):
            raise I.Undecided("a character of a string is written through a reference")
        object.__setattr__(self, k, v)


def chars(s):
    return I.Arr([ReadOnly(Poly.const(ord(ch)), "char", "char") for ch in s], "char", "std::string")


def install(ip, N):
    L = N.L

    def text(v):
        v = L(v)
        if isinstance(v, I.Ptr) and isinstance(v.b, (I.Str, I.Cell)):
            v = L(v.b)
        if isinstance(v, I.Str):
            return v.s
        if isinstance(v, I.Arr) and v.cls == "std::string":
            return "".join(chr(num(x)) for x in v.e)
        if isinstance(v, Poly):
            return chr(num(v))
        raise I.Undecided("a string with unknown contents")

    def num(v):
        p = ip.facts.norm(ip.n(L(v)))
        if not p.is_const():
            raise I.Undecided("a symbolic position in a string")
        return int(p.cval())

    def pos(k):
        return Poly.const(NPOS if k < 0 else k)

    def put(c, s):
        if not isinstance(c.o, I.Cell):
            # the string is a temporary
            return I.Cell(I.Str(s), "std::string")
        ip.write(c.o, I.Str(s))
        return c.o

    def index(c, s):
        """offset of an iterator argument"""
        it = L(c)
        if isinstance(it, I.It):
            k = ip.it_index(it)
            return num(k)
        raise I.Undecided("string iterator")

    shots = {}

    def snap(o, s):
        """the characters of a string, as seen through its iterators"""
        e = shots.get(id(o))
        if e is None or e[0] is not o or e[1] != s:
            e = shots[id(o)] = (o, s, chars(s))
        return e[2]

    def method(ip, c):
        v = L(c.o)
        if not isinstance(v, I.Str):
            return NotImplemented
        s, n, a = v.s, c.x["n"], c.a
        is_it = lambda x: isinstance(L(x), I.It)
        if n in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            w = text(a[0])
            if n == "find":
                k = num(a[1]) if len(a) > 1 else 0
                return pos(s.find(w, k) if k <= len(s) else -1)
            if n == "rfind":
                k = num(a[1]) if len(a) > 1 else NPOS
                return pos(s.rfind(w, 0, min(k + len(w), len(s))))
            inside = "_not_" not in n
            if "first" in n:
                k = num(a[1]) if len(a) > 1 else 0
                return pos(next((i for i in range(k, len(s)) if (s[i] in w) == inside), -1))
            k = min(num(a[1]) if len(a) > 1 else NPOS, len(s) - 1)
            return pos(next((i for i in range(k, -1, -1) if (s[i] in w) == inside), -1))
        if n == "substr":
            k = num(a[0]) if a else 0
            if k > len(s):
                raise I.PathEnd("throw", "std::out_of_range from substr")
            m = num(a[1]) if len(a) > 1 else NPOS
            return I.Str(s[k:k + m])
        if n in ("operator[]", "at"):
            k = num(a[0])
            if k > len(s) or (n == "at" and k == len(s)):
                raise I.PathEnd("throw" if n == "at" else "ub", f"character {k} of a string of {len(s)}")
            return ReadOnly(Poly.const(ord(s[k]) if k < len(s) else 0), "char", "char")
        if n in ("front", "back"):
            if not s:
                raise I.PathEnd("ub", f"{n} of an empty string")
            return ReadOnly(Poly.const(ord(s[0 if n == "front" else -1])), "char", "char")
        if n == "starts_with":
            return s.startswith(text(a[0]))
        if n == "ends_with":
            return s.endswith(text(a[0]))
        if n == "contains":
            return text(a[0]) in s
        if n in ("operator+=", "append", "push_back"):
            if n == "append" and len(a) == 2 and not is_it(a[0]):
                if isinstance(ip.n(L(a[0])) if isinstance(L(a[0]), Poly) else None, Poly):
                    return put(c, s + chr(num(a[1])) * num(a[0]))
                return put(c, s + text(a[0])[:num(a[1])] if isinstance(L(a[0]), I.Ptr) else s + text(a[0])[num(a[1]):])
            if n == "append" and len(a) > 2:
                return put(c, s + text(a[0])[num(a[1]):num(a[1]) + num(a[2])])
            if n == "append" and is_it(a[0]):
                return put(c, s + "".join(chr(num(x)) for x in N.elements(ip, a[0], a[1])))
            r = put(c, s + text(a[0]))
            return None if n == "push_back" else r
        if n == "pop_back":
            if not s:
                raise I.PathEnd("ub", "pop_back of an empty string")
            put(c, s[:-1])
            return None
        if n == "insert":
            if is_it(a[0]):
                k = index(a[0], s)
                put(c, s[:k] + text(a[1]) + s[k:])
                return I.It(chars(s[:k] + text(a[1]) + s[k:]), Poly.const(k))
            k = num(a[0])
            if k > len(s):
                raise I.PathEnd("throw", "std::out_of_range from insert")
            w = text(a[1]) if len(a) == 2 else chr(num(a[2])) * num(a[1])
            return put(c, s[:k] + w + s[k:])
        if n == "erase":
            if a and is_it(a[0]):
                k = index(a[0], s)
                m = index(a[1], s) if len(a) > 1 else k + 1
                put(c, s[:k] + s[m:])
                return I.It(chars(s[:k] + s[m:]), Poly.const(k))
            k = num(a[0]) if a else 0
            if k > len(s):
                raise I.PathEnd("throw", "std::out_of_range from erase")
            m = num(a[1]) if len(a) > 1 else NPOS
            return put(c, s[:k] + s[k + m:])
        if n == "replace" and len(a) >= 3 and not is_it(a[0]):
            k, m = num(a[0]), num(a[1])
            if k > len(s):
                raise I.PathEnd("throw", "std::out_of_range from replace")
            return put(c, s[:k] + text(a[2]) + s[k + m:])
        if n == "compare" and len(a) == 1:
            w = text(a[0])
            return Poly.const((s > w) - (s < w))
        if n == "compare" and len(a) == 3:
            k, m, w = num(a[0]), num(a[1]), text(a[2])
            x = s[k:k + m]
            return Poly.const((x > w) - (x < w))
        if n == "clear":
            put(c, "")
            return None
        if n in ("reserve", "shrink_to_fit"):
            return None
        if n == "resize":
            m = num(a[0])
            put(c, s[:m] + (chr(num(a[1])) if len(a) > 1 else "\0") * max(0, m - len(s)))
            return None
        if n in ("begin", "cbegin", "end", "cend"):
            return I.It(snap(c.o, s), ZERO if "begin" in n else Poly.const(len(s)))
        if n == "assign" and len(a) == 1:
            return put(c, text(a[0]))
        if n == "operator basic_string_view":
            return I.Str(s)
        if n == "remove_prefix":
            put(c, s[num(a[0]):])
            return None
        if n == "remove_suffix":
            put(c, s[:len(s) - num(a[0])])
            return None
        if n in ("c_str", "data"):
            return v
        if n == "empty":
            return s == ""
        if n in ("size", "length"):
            return Poly.const(len(s))
        if n in ("swap",):
            o = text(a[0])
            ip.write(a[0], I.Str(s))
            put(c, o)
            return None
        return NotImplemented
    old = [h for p, h in ip.prefix if p == "std::basic_string::"]

    def both(ip, c):
        r = method(ip, c)
        if r is NotImplemented:
            for h in old:
                r = h(ip, c)
                if r is not NotImplemented:
                    break
        return r
    ip.prefix[:] = [(p, h) for p, h in ip.prefix if p != "std::basic_string::"]
    ip.prefix.insert(0, ("std::basic_string::", both))
    ip.prefix.insert(0, ("std::basic_string_view::", both))

    ctor0 = ip.intr["std::basic_string::basic_string"]

    def ctor(ip, c):
        a = [x for x in c.a]
        if len(a) >= 2 and isinstance(L(a[0]), Poly) and isinstance(L(a[1]), Poly):
            return I.Str(chr(num(a[1])) * num(a[0]))
        if len(a) >= 2 and isinstance(L(a[0]), I.It):
            return I.Str("".join(chr(num(x)) for x in N.elements(ip, a[0], a[1])))
        if len(a) >= 2 and isinstance(L(a[0]), I.Str) and isinstance(L(a[1]), Poly):
            s = L(a[0]).s
            if "*" in ip.db.t(c.x["t"]).split(",")[0] if "t" in c.x else False:
                return I.Str(s[:num(a[1])])
            return I.Str(s[num(a[1]):][:num(a[2]) if len(a) > 2 and isinstance(L(a[2]), Poly) else NPOS])
        return ctor0(ip, c)
    ip.intr["std::basic_string::basic_string"] = ip.intr["std::basic_string_view::basic_string_view"] = ctor

    def isa(f):
        return lambda ip, c: f(chr(num(c.a[0]) % 256))
    for nm, f in (("isalpha", lambda ch: ch.isascii() and ch.isalpha()), ("isdigit", lambda ch: ch.isascii() and ch.isdigit()),
                  ("isspace", lambda ch: ch in SPACE), ("isalnum", lambda ch: ch.isascii() and ch.isalnum())):
        for q in ("std::" + nm, nm):
            ip.intr[q] = lambda ip, c, f=f: Poly.const(1 if f(chr(num(c.a[0]) % 256)) else 0)
