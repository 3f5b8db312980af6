"""The Python module: the function that registers its classes is interpreted, and what it registers is then called, as Python would
call it, on objects the module itself constructs. pybind11 is a stand-in that follows its documentation; the functions of its that
construct objects (detail/init.h) are interpreted as they are."""
import os
import subprocess
import db as D
import interp as I
import intrinsics as N
import tensors as T
import strings as STR
import streams as S
import witness
from poly import Poly, ZERO, ONE
from props import geometry as G
from props import elements as E
from props import io as IO
from props import mesh as ME
from props.geometry import names

PB = "pybind11::"
INIT = PB + "detail::initimpl::"
CELLS = ((0, 1, 2), (1, 3, 2))


def load():
    db = D.extract("python.cc", G.ROOTS + (os.path.join(D.REPO, "extensions"), "/usr/include/pybind11/detail/init.h"))
    db.check_diags(IO.CLANG_ONLY)
    return db


class Entry:
    """something registered: a method, constructor or property of a class, or a function of the module"""

    def __init__(self, cls, name, kind, fn, extras, where):
        self.cls, self.name, self.kind, self.fn, self.extras, self.where = cls, name, kind, fn, extras, where
        self.keep = set()
        self.policy = None
        for t, v in extras:
            b, a = D.tmpl(t)
            if b == PB + "keep_alive":
                self.keep.add((int(a[0].rstrip("UL")), int(a[1].rstrip("UL"))))
            elif b == PB + "return_value_policy":
                self.policy = v


class Object:
    """an object of Python: the C++ object in it, and the objects of Python it keeps alive"""

    def __init__(self, cls, place, what):
        self.cls, self.place, self.what, self.keeps = cls, place, what, []

    def alive(self, seen=None):
        seen = seen if seen is not None else []
        if self not in seen:
            seen.append(self)
            for o in self.keeps:
                o.alive(seen)
        return seen


class Module:
    def __init__(self, R):
        self.R = R
        self.M = ME.Meshes(R, load())
        self.M.W.pick = 0
        self.W, self.ip, self.db = self.M.W, self.M.ip, self.M.ip.db
        ip = self.ip
        STR.install(ip, N)
        self.F = S.install(ip, N)
        ip.decide_asserts = True
        ip.prefix.append((PB, self.other))
        ip.over[PB + "class_::class_"] = self.class_
        for n in ("def", "def_property_readonly", "def_readonly", "def_static"):
            ip.over[PB + "class_::" + n] = self.define(n)
        ip.over[PB + "module_::def"] = self.define("function")
        ip.over[PB + "init"] = self.init
        ip.over[PB + "cpp_function::cpp_function"] = self.cpp_function
        ip.over[PB + "detail::value_and_holder::value_ptr"] = lambda ip, c: T.L(c.o).f["ptr"]
        ip.over[PB + "detail::holder_helper::get"] = self.held
        ip.over["Py_TYPE"] = ip.over["_Py_TYPE"] = lambda ip, c: I.Ptr(self.pytype)
        ip.over["std::function::function"] = self.function
        ip.over["std::function::operator()"] = lambda ip, c: ip.call_value(T.L(c.o).meta["fn"], list(c.a))
        ip.over["std::function::~function"] = lambda ip, c: None
        # pyre's tensors check their indices
        old = ip.handler("pyre::tensor::Tensor::operator[]")

        def index(ip, c):
            k = T.L(c.a[0])
            if isinstance(k, Poly) and ip.facts.norm(k).is_const() and isinstance(c.o, I.Arr):
                if not 0 <= int(ip.facts.norm(k).cval()) < len(c.o.e):
                    raise I.PathEnd("throw", "std::out_of_range")
            return old(ip, c) if old else NotImplemented
        ip.over["pyre::tensor::Tensor::operator[]"] = index
        self.classes, self.functions = {}, []
        self.pytype = I.Obj("_typeobject", {})

    def held(self, ip, c):
        h = T.L(c.a[0])
        if isinstance(h, I.Ptr):
            return h
        raise I.Undecided(f"a holder {h!r}")

    # ---- what is registered
    def other(self, ip, c):
        if c.x.get("ret") is None and "ctor" not in c.x:
            return NotImplemented
        return I.Obj(D.strip_cvref(c.t) if c.t else "pybind11", {})

    def text(self, v):
        v = T.L(v)
        if isinstance(v, I.Ptr):
            v = T.L(v.b)
        if isinstance(v, I.Str):
            return v.s
        raise I.Undecided("a name that is not written in the source")

    def of(self, c):
        return D.tmpl(self.db.t(c.x["ct"]))[1][0]

    def class_(self, ip, c):
        if c.x.get("ctor") in ("copy", "move"):
            return NotImplemented
        t = self.of(c)
        name = self.text(c.a[1])
        self.twice += [f"{name} is the name of two classes"] if name in [k["name"] for k in self.classes.values()] else []
        self.twice += [f"{t} is registered twice, as {self.classes[t]['name']} and as {name}"] if t in self.classes else []
        self.classes.setdefault(t, {"name": name, "entries": [], "extras": [self.db.t(p) for p in c.x["pt"][2:]]})
        return I.Obj(D.strip_cvref(self.db.t(c.x["ct"])), {})

    def init(self, ip, c):
        return I.Obj(D.strip_cvref(c.t), {"class_factory": ip.copy(T.L(c.a[0]))} if c.a else {})

    def cpp_function(self, ip, c):
        if c.x.get("ctor") in ("copy", "move"):
            return NotImplemented
        o = I.Obj(PB + "cpp_function", {})
        o.meta["fn"] = T.L(c.a[0])
        o.meta["extras"] = self.extras(c, 1)
        return o

    def function(self, ip, c):
        o = I.Obj("std::function", {})
        v = T.L(c.a[0]) if c.a else None
        o.meta["fn"] = v.meta["fn"] if isinstance(v, I.Obj) and v.cls == "std::function" else ip.copy(v) if isinstance(v, I.Place) else v
        return o

    def extras(self, c, k):
        return [(D.strip_cvref(self.db.t(t)), T.L(v)) for t, v in zip(c.x["pt"][k:], c.a[k:])]

    def define(self, kind):
        def h(ip, c):
            cls = self.of(c) if kind != "function" else None
            t0 = D.strip_cvref(self.db.t(c.x["pt"][0]))
            at = c.e.get("a") or [c.e]
            line = max([self.deep(x) for x in at] + [c.e.get("l", 0)])
            if t0.startswith(INIT):
                self.at = f"{self.db.rel(self.main)}:{line} (the constructor of {self.classes[cls]['name']})"
                want = [D.strip_cvref(self.db.t(t)) for t in c.x["pt"][1:]]
                for f in self.db.fns.values():
                    if f["n"] == "execute" and f.get("ct") is not None and self.db.t(f["ct"]) == t0:
                        ps = [self.db.t(p["t"]) for p in f["params"]]
                        if D.strip_cvref(ps[0]) == D.strip_cvref(self.db.t(c.x["ct"])) and [D.strip_cvref(p) for p in ps[1:]] == want:
                            ip.call_fn(f, T.L(c.a[0]), [c.o] + list(c.a[1:]))
                            return c.o
                raise I.Undecided(f"a constructor of a kind that is not known: {t0}"[:200])
            fn = T.L(c.a[1])
            ex, getter = self.extras(c, 2), kind in ("def_property_readonly", "def_readonly")
            if isinstance(fn, I.Obj) and fn.cls == PB + "cpp_function":
                fn, ex, getter = fn.meta["fn"], fn.meta["extras"] + ex, False
            nm = self.text(c.a[0])
            at = self.at if nm == "__init__" else f"{self.db.rel(self.main)}:{line} ({nm} of {self.classes[cls]['name'] if cls else 'the module'})"
            e = Entry(cls, nm, kind, fn, ex, at)
            e.getter = getter
            (self.functions if cls is None else self.classes[cls]["entries"]).append(e)
            return c.o
        return h

    def deep(self, e):
        return e.get("l", 0) if isinstance(e, dict) else 0

    def callee(self, fn):
        if isinstance(fn, I.Obj) and fn.cls == "lambda":
            return self.db.fns.get(fn.meta["f"])
        if isinstance(fn, I.Fn):
            return self.db.fns.get(fn.i)
        return None

    def register(self):
        self.twice = []
        f = [f for f in self.db.fns.values() if f["n"].startswith("pybind11_init_") and len(f["params"]) == 1]
        if len(f) != 1:
            raise D.AnalysisBroken("no Python module")
        self.main = f[0]
        for _ in self.ip.paths(lambda ip: ip.call_fn(f[0], None, [I.Obj(PB + "module_", {})])):
            if _[0] != "ok":
                raise D.AnalysisBroken(f"registering the module: {_[:2]}")
        self.R.used(self.ip)
        if not self.classes:
            raise D.AnalysisBroken("the module has no classes")

    def signature(self, e):
        """(types of the arguments without the object, type of the result) as C++ has them"""
        f = self.callee(e.fn)
        if f is None:
            raise I.Undecided(f"what {e.name} calls is not known")
        ps = [self.db.t(p["t"]) for p in f["params"]]
        if e.name == "__init__":
            return ps[1:], "void"
        if f["kind"] == "method" and not f.get("lambda") and not f.get("static"):
            ps = [self.db.t(f["ct"])] + ps
        if e.kind not in ("function", "def_static"):
            ps = ps[1:]
        return ps, self.db.t(f["ret"])

    # ---- calling
    def start(self):
        """new objects of Python: none yet"""
        self.objects = {}
        self.M.start((2, 2), *ME.CONVENTIONS[0])
        self.F.files.clear()
        ks = sorted({k for c in CELLS for k in c})
        b = list(f"2\n{len(ks)} {len(CELLS)} 1\n")
        for k in ks:
            for p in names(2, f"x{k}_"):
                b += [S.Num(p, 17), " "]
            b += ["\n"]
        for c in CELLS:
            b += list(" ".join(str(x) for x in [3] + [ks.index(k) + 1 for k in c] + ["1"]) + "\n")
        self.F.files["given"] = b

    def scalar(self, t):
        return D.strip_cvref(t) in ("double", "float", "int", "long", "bool", "unsigned int", "unsigned long")

    def f_of(self, op, d):
        def f(x):
            return G.op_atom(op, (), (), self.W.get((d, 0), T.L(x)))
        return f

    def argument(self, t, tag):
        """(value, object of Python or None) that Python passes for a parameter of type t"""
        s = D.strip_cvref(t).rstrip("* ")
        b, ta = D.tmpl(s)
        if s in self.classes:
            o = self.object(s)
            if D.strip_cvref(t).endswith("*"):
                return I.Ptr(o.place), o
            return o.place, o
        if s in ("double", "float"):
            return I.Cell(Poly.atom(tag), s), None
        if self.scalar(s):
            return I.Cell(ZERO, s), None
        if b in ("std::tuple", "std::pair"):
            vs = [self.argument(u, f"{tag}_{i}")[0] for i, u in enumerate(ta)]
            if b == "std::pair":
                return I.Obj(s, {"first": vs[0], "second": vs[1]}), None
            return I.Arr(vs, None, "std::tuple"), None
        if b == "std::array":
            return I.Arr([self.argument(ta[0], f"{tag}_{i}")[0] for i in range(int(ta[1].rstrip("UL")))], ta[0], "std::array"), None
        if b == "std::basic_string" or s in ("char", "std::string"):
            return I.Cell(I.Str("given")), None
        if b == "std::function":
            par = ta[0][ta[0].index("(") + 1:ta[0].rindex(")")]
            d = D.tmpl(D.strip_cvref(par))
            if d[0] != "mito::geometry::Coordinates":
                raise I.Undecided(f"a function of {par}")
            o = I.Obj("std::function", {})
            o.meta["fn"] = I.NativeFn(self.f_of("f", int(d[1][0])))
            return o, None
        raise I.Undecided(f"an argument of type {s}"[:200])

    def object(self, t):
        if t not in self.objects:
            cs = [e for e in self.classes[t]["entries"] if e.name == "__init__"]
            if not cs:
                # what a method of another class gives
                for u, k in self.classes.items():
                    for e in k["entries"]:
                        if u != t and e.name != "__init__" and bare(self.signature(e)[1]) == t:
                            o, _ = self.result(e, self.object(u), [self.argument(q, f"a{i}") for i, q in enumerate(self.signature(e)[0])])
                            self.objects[t] = o
                            return o
                raise I.Undecided(f"no way to construct {self.classes[t]['name']}")
            # the one with most to say
            e = max(cs, key=lambda e: len(self.signature(e)[0]))
            self.objects[t] = self.construct(e)[0]
        return self.objects[t]

    def construct(self, e, args=None):
        """(object, arguments)"""
        ps = self.signature(e)[0]
        args = args or [self.argument(t, f"a{i}") for i, t in enumerate(ps)]
        v = I.Cell(I.NULL, "void *")
        vh = I.Obj(PB + "detail::value_and_holder", {"ptr": v, "inst": I.Cell(I.Ptr(I.Obj("instance", {})), "instance *"),
                                                    "type": I.Cell(I.Ptr(I.Obj("type_info", {"type": I.Cell(I.Ptr(self.pytype), "_typeobject *"), "init_instance": I.Cell(I.NativeFn(lambda *a: None), "fn")})), "type_info *")})
        self.ip.call_value(e.fn, [vh] + [self.passed(t, a) for t, (a, _) in zip(ps, args)])
        if not isinstance(v.v, I.Ptr):
            raise I.PathEnd("ub", "no object is constructed")
        o = Object(e.cls, v.v.b, self.classes[e.cls]["name"])
        self.attach(e, o, args, None)
        return o, args

    def passed(self, t, a):
        return a if t.endswith("&") or not isinstance(a, I.Place) else self.ip.copy(a)

    def attach(self, e, me, args, res):
        """keep_alive<nurse, patient>: 0 is the result, 1 the object, 2... the arguments"""
        o = [res, me] if e.kind not in ("function", "def_static") else [res]
        o += [p for _, p in args]
        for n, p in sorted(e.keep):
            if max(n, p) >= len(o):
                continue
            if o[n] is not None and o[p] is not None and o[p] not in o[n].keeps:
                o[n].keeps.append(o[p])

    def call(self, e, me, args):
        ps, _ = self.signature(e)
        first = [me.place] if me is not None else []
        f = self.callee(e.fn)
        return self.ip.call_value(e.fn, first + [self.passed(t, a) for t, (a, _) in zip(ps, args)])

    def result(self, e, me, args):
        """(the object of Python a call gives, or None; what is wrong with it, or None)"""
        ret = self.signature(e)[1]
        ref = ret.rstrip()[-1] if ret.rstrip()[-1] in "*&" else ""
        v = T.L(self.call(e, me, args))
        s = bare(ret)
        if self.scalar(s) or s == "void":
            return None, None
        p = policy(e, ref)
        if isinstance(v, I.Ptr) and ref == "*":
            v = v.b
        if not isinstance(v, I.Place):
            return None, None
        owners = [k for k in self.everyone() if id(v) in self.owned(k.place)[0]]
        if p == "take_ownership" and ref and owners:
            return None, f"the result, a part of a {owners[0].what}, would be destroyed by Python too"
        if p in ("copy", "move"):
            v = self.ip.copy(v)
        o = Object(s, v, self.classes[s]["name"] if s in self.classes else short(s))
        if p == "reference_internal" and me is not None:
            o.keeps.append(me)
        self.attach(e, me, args, o)
        if p in ("reference", "reference_internal") and owners and not any(k in owners for k in o.alive()):
            return o, f"the result is a part of a {owners[0].what}, and does not keep it alive"
        bad = self.dangling(o)
        if bad:
            return o, f"the result refers ({bad[0][0]}) to {'a ' + bad[0][1].what if bad[0][1] else 'an object that is gone when the call returns'}, and does not keep it alive"
        return o, None

    # ---- what an object refers to
    OWNERS = ("std::shared_ptr", "std::unique_ptr", "mito::utilities::SharedPointer", "mito::utilities::StdSharedPointer")

    def owned(self, p, out=None, refs=None):
        """the places that are part of an object (by identity), and the places it refers to"""
        out = {} if out is None else out
        refs = [] if refs is None else refs
        stack = [(p, "")]
        while stack:
            p, path = stack.pop()
            if isinstance(p, (I.Ptr, I.It)):
                q = p.b if isinstance(p, I.Ptr) else p.c
                if isinstance(q, I.Place):
                    refs.append((q, path))
                continue
            if not isinstance(p, I.Place) or id(p) in out:
                continue
            out[id(p)] = p
            if isinstance(p, I.Cell):
                stack.append((p.v, path))
            elif isinstance(p, I.Arr):
                stack += [(x, path) for x in p.e]
            elif isinstance(p, I.MapV):
                stack += [(x, path) for en in p.ents for x in en[:2]]
            elif isinstance(p, I.Obj):
                if D.tmpl(p.cls or "")[0] in self.OWNERS:
                    continue
                if p.cls == "lambda":
                    for d, x in p.meta["caps"].items():
                        if d in p.meta.get("refs", ()):
                            refs.append((x, path + " (captured by reference)"))
                        else:
                            stack.append((x, path))
                    if p.meta.get("this") is not None:
                        refs.append((p.meta["this"], path + " (captured this)"))
                    continue
                for k, x in p.f.items():
                    t = self.ip.field_type(p.cls, k)
                    if t and t.rstrip().endswith("&"):
                        refs.append((x, f"{path}.{k}".lstrip(".")))
                    else:
                        stack.append((x, f"{path}.{k}".lstrip(".")))
                for x in p.meta.values():
                    if isinstance(x, (I.Place, I.Ptr, I.It)):
                        stack.append((x, path))
        return out, refs

    def dangling(self, o):
        """what an object refers to that is not kept alive with it"""
        mine, refs = self.owned(o.place)
        kept = {}
        for k in o.alive():
            self.owned(k.place, kept, [])
        bad = []
        for q, path in refs:
            if id(q) in mine or id(q) in kept or self.static(q):
                continue
            who = None
            for k in self.everyone():
                if k is not o and id(q) in self.owned(k.place)[0]:
                    who = k
            bad.append((path, who))
        return bad

    def everyone(self):
        return list(self.objects.values())

    def static(self, q):
        if q in (self.M.T.topo, self.M.T.cloud):
            return True
        for v in self.ip.globals.values():
            if isinstance(v, I.Place) and id(q) in self.owned(v)[0]:
                return True
        return False




def bare(t):
    return D.strip_cvref(D.strip_cvref(t).rstrip("* "))


def name_of(t):
    b, a = D.tmpl(D.strip_cvref(t))
    return b.split("::")[-1]


def run(m, R, rule, inst, where, go):
    """one session: one path"""
    ip = m.ip

    def fn():
        ip.analysed = set()
        rs = list(ip.paths(lambda ip: go()))
        R.used(ip)
        for r in rs:
            if r[0] in ("ub", "abort", "throw", "exc"):
                R.bad(rule, inst, where, f"{r[0]}: {r[1]}"[:300])
                return
        if len(rs) != 1 or rs[0][0] != "ok":
            raise I.Undecided(f"{[r[:2] for r in rs]!r}"[:300])
        if rs[0][1] is None:
            R.ok(rule, inst, where)
        else:
            R.bad(rule, inst, where, rs[0][1])
    R.guard(rule, inst, where, fn)


def label(m, e):
    c = m.classes[e.cls]["name"] + "." if e.cls else ""
    return f"{c}{e.name}({', '.join(name_of(t) for t in m.signature(e)[0])})"


POLICIES = ("automatic", "automatic_reference", "take_ownership", "copy", "move", "reference", "reference_internal")


def policy(e, ref):
    p = e.policy
    if p is not None:
        p = POLICIES[int(p.cval())] if isinstance(p, Poly) and p.is_const() else None
        if p is None:
            raise I.Undecided("a return value policy that is not written in the source")
    if p in (None, "automatic", "automatic_reference"):
        # the getter of a property, when it is not a cpp_function
        if p is None and e.getter:
            return "reference_internal"
        return {"*": "take_ownership" if p != "automatic_reference" else "reference", "&": "copy"}.get(ref, "move")
    return p


def p01(R):
    R.minimum = 9
    R.rule("kept alive", "every C++ object that an object constructed from Python refers to belongs to an object of Python that it keeps alive, itself or through the objects it keeps alive: "
                         "dropping a variable in Python leaves no reference to a destroyed object")
    R.rule("result", "what a method returns is a copy, or a reference to an object of Python that the result keeps alive; it is not handed over twice")
    m = Module(R)
    m.register()
    R.count("classes", len(m.classes))
    for t, c in m.classes.items():
        for e in c["entries"]:
            inst = label(m, e)
            if e.name == "__init__":
                def go():
                    m.start()
                    o, args = m.construct(e)
                    bad = m.dangling(o)
                    if not bad:
                        return None
                    path, who = bad[0]
                    if who is None:
                        return f"refers ({path}) to an object that is gone when the constructor returns"
                    n = [i for i, (_, p) in enumerate(args) if p is who]
                    return f"refers ({path}) to the {who.what} it was constructed {'with' if n else 'from'}{f' (argument {n[0] + 1})' if n else ''}, and does not keep it alive"
                run(m, R, "kept alive", inst, e.where, go)
            else:
                def go():
                    m.start()
                    me = m.object(t) if e.kind not in ("def_static",) else None
                    ps = m.signature(e)[0]
                    args = [m.argument(u, f"a{i}") for i, u in enumerate(ps)]
                    return m.result(e, me, args)[1]
                run(m, R, "result", inst, e.where, go)
    for e in m.functions:
        R.und("result", label(m, e), e.where, "functions of the module are not analysed")


def short(t):
    return D.strip_cvref(t).replace("mito::", "")[:90]


def builtin(types):
    """which types pybind11 converts by itself, with what the module includes: decided by the compiler"""
    ts = sorted(types)
    src = f'#include "{D.REPO}/extensions/mito/external.h"\n#define WITNESS(id, ...) static_assert(__VA_ARGS__, "WITNESS " id)\n'
    src += "template <class T> constexpr bool builtin = !std::is_base_of_v<pybind11::detail::type_caster_generic, pybind11::detail::make_caster<T>>;\n"
    src += "".join(f'WITNESS("{i}", builtin<{t}>);\n' for i, t in enumerate(ts))
    p = subprocess.run(["g++-14", "-std=gnu++23", "-fsyntax-only", "-w", "-x", "c++", "-", f"-I{D.REPO}/lib", "-I/opt/pyre/include", "-I/usr/include/python3.12",
                        "-include", os.path.join(D.VERIF, "driver", "shim.h"), "-fmax-errors=0"], input=src, capture_output=True, text=True)
    bad = set()
    for l in p.stderr.splitlines():
        if " error: " in l or "fatal error" in l:
            if "WITNESS " not in l:
                raise D.AnalysisBroken("the witness unit does not compile: " + l[:300])
            bad.add(int(l.split("WITNESS ")[1].split()[0].strip('"')))
    return {t for i, t in enumerate(ts) if i not in bad}


def p02(R):
    R.minimum = 30
    R.rule("types", "the type of every argument and every result is registered, or is one that pybind11 converts by itself with the headers that are included: the call is possible")
    R.rule("names", "no two classes have the same name, and no C++ type is registered twice: the module can be imported")
    R.rule("coordinates", "the entries of coordinates are those they were constructed with, and an index beyond them is an error (what ends an iteration)")
    R.rule("field", "calling a field gives the value of its function at the coordinates")
    R.rule("mesh", "a mesh read from a file has its cells; a file that cannot be read is an error")
    R.rule("integral", "integrating a field on a manifold of a mesh is what the integrator of the library gives for that mesh, coordinate system and function")
    m = Module(R)
    m.register()
    ip, W = m.ip, m.W
    R.count("classes", len(m.classes))
    w = m.db.where(m.main)
    R.check(not m.twice, "names", f"{len(m.classes)} classes", w, "; ".join(m.twice))
    # types
    uses = []
    for t, c in m.classes.items():
        for e in c["entries"]:
            ps, ret = m.signature(e)
            for i, u in enumerate(ps):
                uses.append((e, f"argument {i + 1}", u))
            if ret != "void":
                uses.append((e, "result", ret))
    want = {bare(u) for _, _, u in uses}
    want = {u for u in want if u not in m.classes}
    known = builtin({u for u in want if "lambda" not in u})
    for e, what, u in uses:
        s = bare(u)
        R.check(s in m.classes or s in known, "types", f"{label(m, e)}, {what}", e.where, f"{short(s)} is neither registered nor converted by pybind11: the call always fails")

    def entries(cls, name):
        es = [e for e in m.classes[cls]["entries"] if e.name == name]
        if not es:
            raise D.AnalysisBroken(f"{m.classes[cls]['name']} has no {name}")
        return es

    def classes(what):
        ts = [t for t in m.classes if D.tmpl(t)[0] == what]
        if not ts:
            raise D.AnalysisBroken(f"no {what} in the module")
        return ts

    def ctor(cls, first):
        for e in entries(cls, "__init__"):
            ps = m.signature(e)[0]
            if ps and D.tmpl(D.strip_cvref(ps[0]))[0] == first:
                return e
        raise D.AnalysisBroken(f"no constructor of {m.classes[cls]['name']} from a {first}")

    def throws(f):
        try:
            f()
        except I.PathEnd as e:
            if e.kind in ("throw", "exc"):
                return True
            raise
        return False
    X = "mito::geometry::Coordinates"
    for t in classes(X):
        n = int(D.tmpl(t)[1][0])
        for e in entries(t, "__getitem__"):
            for i in range(n):
                def go():
                    m.start()
                    o, a = m.construct(ctor(t, "std::tuple"))
                    got = ip.n(T.L(m.call(e, o, [(I.Cell(Poly.const(i), "int"), None)])))
                    ref = Poly.atom(f"a0_{i}")
                    return None if got == ref or repr(got) == repr(ref) else f"entry {i} is {got!r}, constructed with {ref!r}"
                run(m, R, "coordinates", f"{m.classes[t]['name']}, entry {i}", e.where, go)

            def go():
                m.start()
                o, a = m.construct(ctor(t, "std::tuple"))
                return None if throws(lambda: m.call(e, o, [(I.Cell(Poly.const(n), "int"), None)])) else f"entry {n} is given"
            run(m, R, "coordinates", f"{m.classes[t]['name']}, entry {n}", e.where, go)
    for t in classes("mito::functions::FunctionFromFunctor"):
        e = entries(t, "__call__")[0]
        u = D.strip_cvref(m.signature(e)[0][0])

        def go():
            m.start()
            o, a = m.construct(ctor(t, "std::function"))
            n = int(D.tmpl(u)[1][0])
            x, _ = m.construct(ctor(u, "std::tuple"), [m.argument(m.signature(ctor(u, "std::tuple"))[0][0], "x")])
            got = ip.n(T.L(m.call(e, o, [(x.place, x)])))
            ref = G.op_atom("f", (), (), [Poly.atom(f"x_{i}") for i in range(n)])
            return None if repr(got) == repr(ref) else f"{got!r}, should be {ref!r}"[:300]
        run(m, R, "field", m.classes[t]["name"], e.where, go)
    for t in classes("mito::mesh::Mesh"):
        e = ctor(t, "std::basic_string")

        def go():
            m.start()
            o = m.object(t)
            s = [k for k in m.everyone() if D.tmpl(k.cls)[0] == "mito::geometry::CoordinateSystem"]
            return cells_of(m, o, s[0])
        run(m, R, "mesh", m.classes[t]["name"], e.where, go)
        for e2 in m.classes[t]["entries"]:
            u = bare(m.signature(e2)[1])
            for e3 in m.classes[u]["entries"] if e2.name == "cells" and u in m.classes else ():
                if e3.name == "__len__":
                    def go():
                        m.start()
                        o, bad = m.result(e2, m.object(t), [])
                        n = ip.n(T.L(m.call(e3, o, [])))
                        return bad or (None if repr(n) == str(len(CELLS)) else f"{n!r} cells, {len(CELLS)} in the file")
                    run(m, R, "mesh", m.classes[t]["name"] + ", number of cells", e3.where, go)

        def go():
            m.start()
            m.F.files.clear()
            return None if throws(lambda: m.object(t)) else "no error without a file"
        run(m, R, "mesh", m.classes[t]["name"] + ", no file", e.where, go)
    for t in classes("mito::quadrature::Integrator"):
        e = entries(t, "integrate")[0]

        def go():
            m.start()
            o = m.object(t)
            f = m.object(D.strip_cvref(m.signature(e)[0][0]))
            got = ip.n(T.L(m.call(e, o, [(f.place, f)])))
            by = {D.tmpl(k.cls)[0]: k for k in m.everyone()}
            ref = ip.n(T.L(ip.call_fn(W.by["py_integral"][0], None, [by["mito::mesh::Mesh"].place, by["mito::geometry::CoordinateSystem"].place, f.place])))
            if len(ref.t) < 2:
                return "the reference is empty"
            return None if repr(got) == repr(ref) else f"{got!r}"[:150] + f", should be {ref!r}"[:150]
        run(m, R, "integral", m.classes[t]["name"], e.where, go)


def cells_of(m, o, s):
    """the cells of a mesh against those in the file"""
    ip, M = m.ip, m.M
    f = M.fn("ms_cells")
    out = I.Arr([], D.tmpl(D.strip_cvref(ip.db.t(f["params"][1]["t"])))[1][0], "std::vector")
    ip.call_fn(f, None, [o.place, out])
    got = []
    for c in out.e:
        ns = T.L(M.W_call("ms_nodes_of", T.L(c))).e
        got.append([tuple(repr(p) for p in M.W.get((2, 0), T.L(M.call("ms_coords", s.place, h)))) for h in ns])
    want = [[tuple(repr(p) for p in names(2, f"x{k}_")) for k in c] for c in CELLS]
    return None if got == want else f"the cells are at {got}, in the file at {want}"[:300]
