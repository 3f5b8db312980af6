"""files and string streams: what is written is a sequence of characters and of symbolic numbers (with the digits they are written with);
reading follows the rules of formatted and unformatted input"""
import re
import db as D
import interp as I
from poly import Poly, ZERO

SPACE = " \t\n\v\f\r"
INTS = ("short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "size_t")
REALS = ("double", "float", "long double")
FLOAT = re.compile(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)")
INT = re.compile(r"[+-]?\d+")


class Num:
    """a number in a file"""

    def __init__(self, p, digits):
        self.p, self.digits = p, digits

    def __repr__(self):
        return f"<{self.p!r}>"


class Stream:
    def __init__(self, buf=None, out=False):
        self.buf = buf if buf is not None else []
        self.open = buf is not None
        self.out = out
        self.at = 0
        self.prec, self.mode, self.width, self.fill = 6, "general", 0, " "
        self.fail = self.eof = False


def show(buf):
    return "".join(x if isinstance(x, str) else repr(x) for x in buf)


class Files:
    def __init__(self, ip):
        self.ip = ip
        self.files = {}


def install(ip, N, files=None):
    L = N.L
    F = files or Files(ip)

    def text(v):
        v = L(v)
        if isinstance(v, I.Ptr) and isinstance(v.b, (I.Str, I.Cell)):
            v = L(v.b)
        if isinstance(v, I.Str):
            return v.s
        if isinstance(v, I.Arr) and v.cls == "std::string":
            return "".join(chr(num(x)) for x in v.e)
        raise I.Undecided(f"a string with unknown contents: {v!r}"[:200])

    def num(v):
        p = ip.facts.norm(ip.n(L(v)))
        if not p.is_const():
            raise I.Undecided("a symbolic number where a known one is needed")
        return int(p.cval())

    def stream(o):
        o = L(o)
        if isinstance(o, I.Ptr):
            o = L(o.b)
        if isinstance(o, I.Obj) and isinstance(o.f.get("st"), Stream):
            return o.f["st"]
        return None

    # ---- opening
    def open_(st, name, mode, out):
        name = text(name)
        st.out = out
        if out:
            if mode is not None and mode & 1:   # std::ios::app
                F.files.setdefault(name, [])
            else:
                F.files[name] = []
        if name not in F.files:
            st.open, st.fail = False, True
            return
        st.buf, st.open, st.at = F.files[name], True, 0

    def make(kind):
        def h(ip, c):
            if c.x.get("ctor") in ("copy", "move"):
                raise I.Undecided("a stream is moved")
            st = Stream()
            if kind == "string":
                st.buf, st.open = [], True
                if c.a and isinstance(L(c.a[0]), (I.Str, I.Ptr)):
                    st.buf = list(text(c.a[0]))
                    if "istring" not in c.x["b"] and len(c.a) < 2:
                        st.start = 0
            elif c.a:
                mode = mode_of(c.a[1]) if len(c.a) > 1 else None
                open_(st, c.a[0], mode, kind == "out")
            return I.Obj(D.strip_cvref(c.t), {"st": st})
        return h

    def mode_of(v):
        v = L(v)
        if isinstance(v, Poly) and v.is_const():
            return int(v.cval())
        raise I.Undecided("the mode a file is opened with")

    # ---- writing
    def put(st, items):
        if not st.open or st.fail:
            return
        n = len(items)
        w, st.width = st.width, 0
        if w > n and all(isinstance(x, str) for x in items):
            items = [st.fill] * (w - n) + list(items)
        st.buf.extend(items)

    def write(st, v, t):
        b = D.strip_cvref(t)
        if b.endswith("]") or (b.endswith("*") and "char" in b):
            return put(st, list(text(v)))
        if b in ("char", "signed char", "unsigned char"):
            return put(st, [chr(num(v) % 256)])
        if b.startswith("std::basic_string"):
            return put(st, list(text(v)))
        v = L(v)
        if b == "bool":
            if isinstance(v, bool):
                v = Poly.const(int(v))
            return put(st, list(str(num(v))))
        p = ip.facts.norm(ip.n(v))
        if b in REALS:
            if p.is_const() and int(p.cval()) == p.cval() and abs(p.cval()) < 10 ** min(6, max(st.prec, 1)) and st.mode == "general":
                return put(st, list(str(int(p.cval()))))
            d = {"general": st.prec or 1, "scientific": st.prec + 1, "hex": 17, "fixed": 0}[st.mode]
            return put(st, [Num(p, min(d, 7 if b == "float" else 17))])
        if p.is_const():
            return put(st, list(str(int(p.cval()))))
        return put(st, [Num(p, 20)])

    def manip(st, name, c=None):
        n = name.rsplit("::", 1)[-1]
        if n in ("endl",):
            put(st, ["\n"])
        elif n in ("flush", "skipws", "dec", "noshowpos", "noshowpoint", "left", "right"):
            pass
        elif n == "ends":
            put(st, ["\0"])
        elif n in ("fixed", "scientific"):
            st.mode = n
        elif n == "hexfloat":
            st.mode = "hex"
        elif n == "defaultfloat":
            st.mode = "general"
        elif n == "ws":
            skip(st)
        else:
            raise I.Undecided(f"manipulator {name}")

    def fname(v):
        v = L(v)
        if isinstance(v, I.Ptr):
            v = L(v.b)
        if isinstance(v, I.Fn):
            f = ip.db.fns.get(v.i) or ip.db.ext.get(v.i)
            return f["b"] if f else None
        return None

    # ---- reading
    def skip(st):
        while st.at < len(st.buf) and isinstance(st.buf[st.at], str) and st.buf[st.at] in SPACE:
            st.at += 1

    def ready(st, ws=True):
        """the sentry of formatted input"""
        if not st.open:
            st.fail = True
        if st.fail or st.eof:
            st.fail = True
            return False
        if ws:
            skip(st)
        if st.at >= len(st.buf):
            st.eof = st.fail = True
            return False
        return True

    def apart(st):
        """the number at hand is not glued to other characters"""
        for k in (st.at - 1, st.at + 1):
            if 0 <= k < len(st.buf) and not (isinstance(st.buf[k], str) and st.buf[k] in SPACE):
                raise I.PathEnd("ub", f"the file has a number glued to other characters: {show(st.buf[max(0, st.at - 5):st.at + 6])!r}")

    def word(st):
        k = st.at
        while k < len(st.buf) and not (isinstance(st.buf[k], str) and st.buf[k] in SPACE):
            k += 1
        return st.buf[st.at:k]

    def read(st, ref, t):
        b = D.strip_cvref(t)
        if not ready(st):
            return
        if b.startswith("std::basic_string"):
            w = word(st)
            st.at += len(w)
            st.eof = st.at >= len(st.buf)
            ip.write(ref, I.Str("".join(x if isinstance(x, str) else "\x01" for x in w)))
            return
        x = st.buf[st.at]
        if b == "char":
            if not isinstance(x, str):
                raise I.Undecided("a character of a number")
            st.at += 1
            ip.write(ref, Poly.const(ord(x)))
            return
        if b not in INTS and b not in REALS:
            raise I.Undecided(f"reading a {b}")
        if isinstance(x, Num):
            apart(st)
            if b in INTS and not x.digits == 20:
                raise I.PathEnd("ub", f"the real number {x.p!r} in the file is read as an integer")
            st.at += 1
            if b == "float":
                raise I.PathEnd("ub", f"the number {x.p!r} is read in single precision")
            st.eof = st.at >= len(st.buf)
            ip.write(ref, x.p)
            return
        w = []
        for y in word(st):
            if not isinstance(y, str):
                raise I.PathEnd("ub", f"the file has a number glued to other characters: {show(st.buf[max(0, st.at - 5):st.at + 6])!r}")
            w.append(y)
        m = (INT if b in INTS else FLOAT).match("".join(w))
        if not m:
            ip.write(ref, ZERO)
            st.fail = True
            return
        if b in ("short", "unsigned short") and getattr(ip, "on_short", None):
            ip.on_short(st, b)
        st.at += m.end()
        st.eof = st.at >= len(st.buf)
        from fractions import Fraction
        ip.write(ref, Poly.const(int(m.group())) if b in INTS else Poly.const(Fraction(m.group())))

    def getline(st, ref, delim="\n"):
        if not ready(st, False):
            return
        k = st.at
        while k < len(st.buf) and st.buf[k] != delim:
            k += 1
        ip.write(ref, I.Str("".join(x if isinstance(x, str) else "\x01" for x in st.buf[st.at:k])))
        if k >= len(st.buf):
            st.eof = True
        st.at = min(k + 1, len(st.buf))

    # ---- dispatch
    def ptype(c, i):
        return ip.db.t(c.x["pt"][i])

    def free_op(old):
        def h(ip, c):
            st = stream(c.a[0]) if c.a else None
            if st is None:
                return old(ip, c) if old else NotImplemented
            t = ptype(c, 1)
            n = c.x["n"]
            b = D.strip_cvref(t)
            if isinstance(L(c.a[1]), tuple) and L(c.a[1])[:1] == ("manip",):
                _, k, v = L(c.a[1])
                setattr(st, k, v)
            elif n == "operator<<":
                write(st, c.a[1], t)
            else:
                read(st, c.a[1], t)
            return c.a[0]
        return h

    def method(old):
        def h(ip, c):
            st = stream(c.o) if c.o is not None else None
            if st is None:
                return old(ip, c) if old else NotImplemented
            n, a = c.x["n"], c.a
            if n == "operator<<":
                f = fname(a[0])
                if f:
                    manip(st, f)
                elif "(" in ptype(c, 0):
                    raise I.Undecided("a manipulator")
                else:
                    write(st, a[0], ptype(c, 0))
                return c.o
            if n == "operator>>":
                f = fname(a[0])
                if f:
                    manip(st, f)
                else:
                    read(st, a[0], ptype(c, 0))
                return c.o
            if n == "is_open":
                return st.open
            if n == "open":
                kind = "in" if "basic_ifstream" in c.x["b"] else "out"
                if st.open:
                    st.fail = True
                else:
                    st.fail = st.eof = False
                    open_(st, a[0], mode_of(a[1]) if len(a) > 1 else None, kind == "out")
                return None
            if n == "close":
                st.open = False
                return None
            if n in ("flush",):
                return c.o
            if n == "put":
                if st.open and not st.fail:
                    st.buf.append(chr(num(a[0]) % 256))
                return c.o
            if n == "write":
                if st.open and not st.fail:
                    st.buf.extend(text(a[0])[:num(a[1])])
                return c.o
            if n == "precision":
                old_ = st.prec
                if a:
                    st.prec = num(a[0])
                return Poly.const(old_)
            if n == "width":
                old_ = st.width
                if a:
                    st.width = num(a[0])
                return Poly.const(old_)
            if n == "str":
                if a:
                    st.buf[:] = list(text(a[0]))
                    st.at = 0
                    return None
                if any(not isinstance(x, str) for x in st.buf):
                    raise I.Undecided("a string of symbolic numbers")
                return I.Str("".join(st.buf))
            if n == "eof":
                return st.eof
            if n in ("fail", "operator!"):
                return st.fail
            if n == "bad":
                return False
            if n == "good":
                return not (st.fail or st.eof)
            if n == "operator bool":
                return not st.fail
            if n == "clear" and not a:
                st.fail = st.eof = False
                return None
            if n == "ignore":
                m = num(a[0]) if a else 1
                delim = chr(num(a[1]) % 256) if len(a) > 1 else None
                if st.fail or st.eof:
                    st.fail = True
                    return c.o
                while m:
                    if st.at >= len(st.buf):
                        st.eof = True
                        break
                    x = st.buf[st.at]
                    if delim is None and not isinstance(x, str):
                        raise I.Undecided("characters of a number are skipped")
                    st.at += 1
                    m -= 1
                    if x == delim:
                        break
                return c.o
            if n in ("peek", "get") and len(a) <= 1:
                if st.fail or st.eof or st.at >= len(st.buf):
                    st.eof = True
                    if n == "get":
                        st.fail = True
                    return Poly.const(-1) if not a else c.o
                x = st.buf[st.at]
                if not isinstance(x, str):
                    raise I.Undecided("a character of a number")
                if n == "get":
                    st.at += 1
                if a:
                    ip.write(a[0], Poly.const(ord(x)))
                    return c.o
                return Poly.const(ord(x))
            if n in ("tellg",):
                return Poly.const(-1 if st.fail else st.at)
            if n in ("seekg",) and len(a) == 1 and isinstance(L(a[0]), Poly):
                st.eof = False
                if not st.fail:
                    st.at = num(a[0])
                return c.o
            raise I.Undecided(f"stream method {n}")
        return h

    def i_getline(old):
        def h(ip, c):
            st = stream(c.a[0])
            if st is None:
                return old(ip, c) if old else NotImplemented
            getline(st, c.a[1], chr(num(c.a[2]) % 256) if len(c.a) > 2 else "\n")
            return c.a[0]
        return h

    def i_manip(old, name):
        def h(ip, c):
            st = stream(c.a[0]) if c.a else None
            if st is None:
                return old(ip, c) if old else NotImplemented
            manip(st, name)
            return c.a[0]
        return h
    for op in ("std::operator<<", "std::operator>>"):
        ip.over[op] = free_op(ip.over.get(op) or ip.intr.get(op))
    for nm in ("endl", "flush", "ws", "fixed", "scientific", "hexfloat", "defaultfloat"):
        ip.over["std::" + nm] = i_manip(ip.over.get("std::" + nm) or ip.intr.get("std::" + nm), nm)
    ip.over["std::setprecision"] = lambda ip, c: ("manip", "prec", num(c.a[0]))
    ip.over["std::setw"] = lambda ip, c: ("manip", "width", num(c.a[0]))
    ip.over["std::setfill"] = lambda ip, c: ("manip", "fill", chr(num(c.a[0]) % 256))
    ip.over["std::getline"] = i_getline(ip.over.get("std::getline"))
    for cls, kind in (("basic_ofstream", "out"), ("basic_ifstream", "in"), ("basic_ostringstream", "string"), ("basic_istringstream", "string"), ("basic_stringstream", "string")):
        ip.over[f"std::{cls}::{cls}"] = make(kind)
        ip.over[f"std::{cls}::~{cls}"] = lambda ip, c: None
    for p in ("basic_ostream", "basic_istream", "basic_ofstream", "basic_ifstream", "basic_iostream", "basic_ios", "ios_base", "basic_ostringstream", "basic_istringstream", "basic_stringstream"):
        old = next((h for q, h in ip.prefix if q == f"std::{p}::"), None)
        ip.prefix.insert(0, (f"std::{p}::", method(old)))
    return F
