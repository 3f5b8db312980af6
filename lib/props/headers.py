"""The library is a set of headers: what several translation units of one program include is one definition and one state."""
import db as D
from props import elements as E


def z01(R):
    dbs = [D.extract(x) for x in ("headers.cc", "headers_vtk.cc")]
    for db in dbs:
        db.check_diags(tuple(E.CLANG_ONLY) + ("alias template",))
    R.rule("one definition", "a function or variable that a header of the library defines is merged by the linker (inline, a template, or constexpr) or belongs to "
                             "the translation unit: a program of several translation units that include the header links")
    R.rule("one state", "a variable that a header defines and that the program can change (a static local included) is one object in the whole program: it has no internal linkage")
    R.assumptions += ["headers that need METIS are not part of the translation units; those that need VTK are, with declarations of what they use of it in place of VTK, which is not installed"]
    def every(what):
        """what one of the translation units defines, once for each place"""
        seen = {}
        for db in dbs:
            for x in getattr(db, what).values():
                if "lk" in x and db.in_repo(x):
                    seen.setdefault((db.rel(x), x.get("l", 0), x["q"], x.get("ta") or ""), (db, x))
        return [seen[k] for k in sorted(seen)]
    headers = set()
    for db, f in every("fns"):
        if f.get("implicit"):
            continue
        headers.add(db.rel(f))
        R.functions.add(db.where(f))
        R.count("function definitions")
        R.check(f["lk"] != "strong", "one definition", f["q"], db.where(f),
                "the header defines this function without inline: two translation units that include it do not link (multiple definition)")
    n = 0
    for db, v in every("vars"):
        n += 1
        headers.add(db.rel(v))
        R.count("variable definitions")
        at = f"{db.rel(v)}:{v.get('l', 0)} ({v['q']})"
        R.check(v["lk"] != "strong", "one definition", v["q"], at, "the header defines this variable without inline: two translation units that include it do not link")
        R.check(v["lk"] != "internal" or bool(v.get("const") or v.get("constexpr")), "one state", v["q"], at,
                "each translation unit that includes the header has a variable of its own: what one of them changes, another does not see")
    # the statics of functions: one for each definition of the function that the linker keeps
    for db, f in every("fns"):
        for v in statics(f.get("body")):
            n += 1
            R.count("variables of functions")
            at = f"{db.where(f)}"
            R.check(f["lk"] != "internal" or const(db, v), "one state", f"{v['n']} in {f['q']}", at,
                    "each translation unit that includes the header has a function of its own, and with it a variable: what one of them changes, another does not see")
    R.count("headers", len(headers))
    if len(headers) < 60 or not n:
        raise D.AnalysisBroken(f"only {len(headers)} headers and {n} variables analysed")
    R.minimum = 300


def const(db, v):
    return bool(v.get("constexpr")) or db.t(v["t"]).startswith("const ")


def statics(x):
    if isinstance(x, dict):
        if x.get("static") and "n" in x and "t" in x:
            yield x
        for y in x.values():
            yield from statics(y)
    elif isinstance(x, list):
        for y in x:
            yield from statics(y)
