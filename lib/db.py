"""Loading and indexing of the resolved program extracted from /repo's current working tree."""
import glob
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MITO_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisBroken(Exception):
    """The analysis itself cannot give an answer (error exit: neither pass nor violation)."""


def base_name(q):
    """strip template argument lists from a qualified name"""
    out = []
    i = 0
    n = len(q)
    depth = 0
    while i < n:
        if depth == 0 and q.startswith("operator", i) and (i == 0 or q[i - 1] == ":"):
            j = i + len("operator")
            rest = q[j:]
            for op in ("<=>", "<<=", ">>=", "->*", "<<", ">>", "<=", ">=", "->", "<", ">"):
                if rest.startswith(op):
                    out.append("operator" + op)
                    i = j + len(op)
                    # anything after is a template argument list
                    break
            else:
                out.append("operator")
                i = j
            continue
        c = q[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


def split_targs(s):
    """split a template argument list at top-level commas"""
    r = []
    d = 0
    cur = ""
    for i, c in enumerate(s):
        if c in "<({[":
            d += 1
        elif c in ">)}]":
            if not (c == ">" and i and s[i - 1] == "-"):
                d -= 1
        if c == "," and d == 0:
            r.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        r.append(cur.strip())
    return r


def tmpl(t):
    """'std::map<A, B>' -> ('std::map', ['A', 'B'])"""
    t = strip_cvref(t)
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return t, []
    # find matching bracket of the *last* argument list
    d = 0
    for j in range(len(t) - 1, -1, -1):
        if t[j] == ">" and not (j and t[j - 1] == "-"):
            d += 1
        elif t[j] == "<":
            d -= 1
            if d == 0:
                return t[:j], split_targs(t[j + 1:-1])
    return t, []


def strip_cvref(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for suf in ("&&", "&"):
            if t.endswith(suf):
                t = t[:-len(suf)].rstrip()
                ch = True
        if t.endswith(" const"):
            t = t[:-6]
            ch = True
        if t.endswith("*const"):
            t = t[:-5]
            ch = True
        for p in ("const ", "volatile "):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
    return t


def is_ref(t):
    return t.rstrip().endswith("&")


FLAGS = [
    "-DMITO_CORE", "-DWITH_MPI", "-DWITH_PETSC", "-I@REPO@/lib", "-I@REPO@/extensions",
    "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
    "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
    "-isystem", "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include",
    "-isystem", "/usr/include/python3.12", "-isystem", "/opt/pyre/include", "-I" + os.path.join(VERIF, "driver", "stub", "vtk"), "-std=c++23",
    "--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/14",
    "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w", "-ferror-limit=0",
    "-include", os.path.join(VERIF, "driver", "shim.h"),
]
# headers of the installed dependencies that are replaced by equivalent ones (see driver/overlay)
REPLACED = [("/opt/pyre/include/pyre/tensor/concepts.h", os.path.join(VERIF, "driver", "overlay", "concepts.h"))]


def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode())
            try:
                h.update(open(p, "rb").read())
            except OSError:
                pass
    return h.hexdigest()[:24]


def build_tool():
    r = subprocess.run([os.path.join(VERIF, "tool", "build.sh")], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build: " + r.stderr[-2000:])


_cache = {}


def extract(src, roots=(), repo=None):
    """Run the extractor on `src` (a file name under /verif/driver or an absolute path) against
    the current tree of the repository; returns a DB."""
    repo = repo or REPO
    path = src if os.path.isabs(src) else os.path.join(VERIF, "driver", src)
    key = (path, tuple(roots), repo)
    if key in _cache:
        return _cache[key]
    build_tool()
    tool = os.path.join(BUILD, "mitoextract")
    # results are cached per content of everything that goes in
    h = hashlib.sha256()
    h.update(tree_hash(os.path.join(repo, "lib")).encode())
    for r in roots:
        h.update(tree_hash(r).encode())
    for f in [path, os.path.join(VERIF, "tool", "extract.cc")] + sorted(glob.glob(os.path.join(VERIF, "driver", "**", "*.h"), recursive=True)):
        h.update(open(f, "rb").read())
    h.update(repr((roots, repo, FLAGS)).encode())
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, h.hexdigest()[:32] + ".json")
    if not os.path.exists(out):
        flags = [f.replace("@REPO@", repo) for f in FLAGS]
        tmpf = out + ".tmp%d" % os.getpid()
        cmd = [tool, "-root", repo + "/lib", "-root", os.path.join(VERIF, "driver")]
        for r in roots:
            cmd += ["-root", r]
        for old, new in REPLACED:
            cmd += ["-replace", old, new]
        cmd += ["-o", tmpf, path, "--"] + flags
        p = subprocess.run(cmd, capture_output=True, text=True)
        if not os.path.exists(tmpf):
            raise AnalysisBroken(f"extractor failed on {src}: {p.stderr[-2000:]}")
        # keep the cache small
        def age(f):
            try:
                return os.path.getmtime(f)
            except OSError:         # another check removed it
                return 0
        old = sorted((os.path.join(cdir, f) for f in os.listdir(cdir)), key=age)
        for f in old[:-40]:
            try:
                os.remove(f)
            except OSError:
                pass
        os.replace(tmpf, out)
    db = DB(json.load(open(out)), src, repo)
    _cache[key] = db
    return db


class DB:
    def __init__(self, j, src, repo):
        self.src = src
        self.repo = repo
        self.types = j["types"]
        self.enums = set(j["enums"])
        self.files = j["files"]
        self.fns = {f["id"]: f for f in j["functions"]}
        self.recs = {r["id"]: r for r in j["records"]}
        self.rec_by_t = {self.types[r["t"]]: r for r in j["records"]}
        self.vars = {v["id"]: v for v in j["vars"]}
        self.patterns = j["patterns"]
        self.ext = {e["id"]: e for e in j["externs"]}
        self.diags = j["diags"]
        for e in self.ext.values():
            e["b"] = base_name(e["q"])
        for r in self.recs.values():
            r["b"] = base_name(r["q"])
        self.by_base = {}
        for f in self.fns.values():
            f["b"] = base_name(f["q"])
            self.by_base.setdefault(f["b"], []).append(f)

    def t(self, i):
        return self.types[i]

    def rel(self, f):
        """repository-relative file of a function/record/var"""
        p = self.files[f["file"]] if f.get("file", -1) >= 0 else "?"
        if p.startswith(self.repo + "/"):
            p = p[len(self.repo) + 1:]
        return p

    def where(self, f, line=None):
        return f"{self.rel(f)}:{line or f['l']} ({f['b']})"

    def in_repo(self, f):
        return self.files[f["file"]].startswith(self.repo + "/") if f.get("file", -1) >= 0 else False

    def find(self, base, cls=None, pred=None):
        r = [f for f in self.by_base.get(base, [])
             if (cls is None or ("ct" in f and self.types[f["ct"]] == cls)) and (pred is None or pred(f))]
        return r

    def one(self, base, cls=None, pred=None):
        r = self.find(base, cls, pred)
        if not r:
            raise AnalysisBroken(f"anchor vanished: {base} {cls or ''} in {self.src}")
        return r[0]

    def rec(self, base, pred=None):
        r = [x for x in self.recs.values() if base_name(x["q"]) == base and (pred is None or pred(x))]
        if not r:
            raise AnalysisBroken(f"anchor vanished: class {base} in {self.src}")
        return r

    def check_diags(self, allowed=()):
        bad = [d for d in self.diags if not any(a in d["file"] + ":" + d["msg"] for a in allowed)]
        if bad:
            d = bad[0]
            raise AnalysisBroken(f"{self.src}: does not parse: {d['file']}:{d['line']}: {d['msg']} (+{len(bad)-1} more)")


def walk(n):
    """all nodes of an expression/statement tree, pre-order"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            vs = list(x.values())
            vs.reverse()
            stack.extend(v for v in vs if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(reversed(x))
