"""State that outlives a call without being part of an object: what a function keeps in a variable of its own (static or
thread_local), or in a variable that all the objects of a class share.

A result that depends on it depends on the calls before, of other objects too, so no property that is shown for one
history of calls carries over to the others.  Reported:
  * a static variable whose initial value depends on the arguments, the object or local variables of the first call;
  * a static variable that can change and is read, unless the function only gives it out (a single instance), or begins
    by giving it a new value;
  * a variable at namespace or class scope of the library that can change.
"""
import db as D


def const(db, v):
    t = db.t(v["t"])
    return bool(v.get("constexpr")) or t.startswith("const ") and not t.rstrip().endswith("*") or t.rstrip().endswith("const")


def hidden(db, f):
    """[(line, variable, what)] for a function with a body"""
    b = f.get("body")
    out = []
    if b is None:
        return out
    decls, uses, shared = {}, {}, {}
    parent = {}

    def visit(x, par):
        if isinstance(x, dict):
            if "k" in x:
                parent[id(x)] = par
                if x["k"] == "var" and x.get("static"):
                    decls[x["d"]] = (x, par)
                if x["k"] == "ref":
                    if x.get("dk") == "slocal":
                        uses.setdefault(x["d"], []).append(x)
                    elif x.get("dk") in ("gvar", "smem"):
                        shared.setdefault(x["d"], x)
                par = x
            for y in x.values():
                visit(y, par)
        elif isinstance(x, list):
            for y in x:
                visit(y, par)
    visit(b, None)
    visit(f.get("inits", []), None)
    for d, (v, blk) in decls.items():
        if v.get("constexpr"):
            continue
        why = depends(v, decls)
        if why:
            out.append((v["l"], v["n"], f"the variable is kept from one call to the next, and has the value that {why} had in the first call"))
            continue
        if const(db, v) or "journal::" in db.t(v["t"]):
            continue
        us = uses.get(d, [])
        if all(given_out(u, parent) for u in us) or all(only_written(u, parent) for u in us):
            continue
        if begins_anew(db, v, us, parent):
            continue
        out.append((v["l"], v["n"], "the variable is kept from one call to the next, whatever object the calls are for"))
    for d, r in shared.items():
        v = db.vars.get(d)
        if v is not None and db.in_repo(v) and not v.get("constexpr") and not v.get("const") and not const(db, v) and "journal::" not in db.t(v["t"]):
            out.append((v["l"], v["q"], "the variable is shared by everything in the program, and can change"))
    return out


def callee(db, p):
    f = db.fns.get(p.get("f")) or db.ext.get(p.get("f")) or {}
    return f.get("b", "").split("::")[-1]


def depends(v, decls):
    own = {x["d"] for x in D.walk(v.get("init")) if x["k"] in ("var", "parm") and "d" in x} if v.get("init") else set()
    for x in D.walk(v.get("init") or {}):
        if x["k"] == "lambda":
            own |= {y["d"] for y in D.walk(x) if y["k"] == "var" and "d" in y}
    for x in D.walk(v.get("init") or {}):
        if x["k"] == "this":
            return "the object"
        if x["k"] == "ref" and x.get("dk") in ("parm", "var", "bind") and x["d"] not in own:
            return f"'{x['n']}'"
    return None


def up(x, parent):
    p = parent.get(id(x))
    while p is not None and p["k"] in ("cast", "paren", "temp", "cleanups", "bindtemp", "mat"):
        x, p = p, parent.get(id(p))
    return x, p


def given_out(u, parent):
    x, p = up(u, parent)
    if p is not None and p["k"] == "un" and p.get("op") == "&":
        x, p = up(p, parent)
    return p is not None and p["k"] in ("ret", "return")


def only_written(u, parent):
    x, p = up(u, parent)
    if p is None:
        return False
    if p["k"] == "un" and p.get("op") in ("++", "--") or p["k"] in ("asg", "casg") and p.get("x") is x:
        _, q = up(p, parent)
        return q is None or q["k"] in ("expr", "block", "if", "for", "while")
    return False


def begins_anew(db, v, us, parent):
    """the first use gives the variable a new value, before anything reads it, in the block that declares it"""
    if not us:
        return True
    x, p = up(us[0], parent)
    if p is None:
        return False
    if p["k"] == "asg" and p.get("x") is x and not any(y is u for y in D.walk(p.get("y")) for u in us):
        s = p
    elif p["k"] == "call" and p.get("o") is x and (p.get("op") == "=" or (p.get("f") is not None and callee(db, p) in ("clear", "reset", "assign"))):
        s = p
    else:
        return False
    while s is not None and s["k"] != "block":
        if s["k"] in ("if", "for", "while", "do", "switch", "rangefor", "cond", "lambda"):
            return False
        s = parent.get(id(s))
    d = parent.get(id(v))
    while d is not None and d["k"] != "block":
        d = parent.get(id(d))
    return s is d


def dangling(db, f):
    """[(line, variable)]: what the function returns refers to a variable of its own"""
    t = db.t(f["ret"]) if f.get("ret") is not None else ""
    if f.get("body") is None or not (t.endswith("&") or t.endswith("*")):
        return []
    own = {p["d"]: p["n"] for p in f["params"] if "d" in p and plain(db, db.t(p["t"]))}

    def nodes(x):
        """the function without the lambdas in it"""
        if isinstance(x, dict):
            if x.get("k") == "lambda":
                return
            if "k" in x:
                yield x
            for y in x.values():
                yield from nodes(y)
        elif isinstance(x, list):
            for y in x:
                yield from nodes(y)

    def root(x):
        k = x["k"]
        if k == "cast" and "e" in x:
            return root(x["e"])
        if k == "ref":
            return own.get(x.get("d"))
        if k == "mem" and not x.get("arrow") and not x.get("m") and not x.get("sm"):
            return root(x["b"]) if "rc" in x and not reference(db, x) else None
        if k == "cond":
            return root(x["a"]) or root(x["b"]) if "a" in x and "b" in x else None
        return None
    rets = []
    for x in nodes(f["body"]):
        if x["k"] == "decl":
            for v in x["v"]:
                if not v.get("static") and plain(db, db.t(v["t"])):
                    own[v["d"]] = v["n"]
        elif x["k"] == "ret" and x.get("e"):
            rets.append(x)
    out = []
    for r in rets:
        e = r["e"]
        while e["k"] == "cast" and "e" in e:
            e = e["e"]
        if t.endswith("*"):
            if e["k"] != "un" or e.get("op") != "&":
                continue
            e = e["e"]
        n = root(e)
        if n:
            out.append((r["l"], n))
    return out


def plain(db, t):
    return not t.rstrip().endswith("&")


def reference(db, m):
    r = db.rec_by_t.get(D.strip_cvref(db.t(m["rc"]))) if hasattr(D, "strip_cvref") else None
    if r is None:
        return True
    for x in r["fields"]:
        if x["n"] == m["n"]:
            return db.t(x["t"]).endswith("&")
    return True
