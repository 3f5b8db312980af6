"""Type-level witnesses: a translation unit of static assertions compiled against /repo's current headers (never run).

Each `WITNESS(id, condition)` line is one obligation; the compiler decides it.  Anything else that fails to compile means the
witness no longer applies to the code (AnalysisBroken)."""
import re
import subprocess
import db as D

PRE = "".join(f"#include <{h}>\n" for h in (
    "algorithm array cassert cmath concepts functional iostream map memory numeric queue set string type_traits unordered_map unordered_set "
    "utility vector").split()) + '#define WITNESS(id, ...) static_assert(__VA_ARGS__, "WITNESS " id)\n'


def compile(body, extra=()):
    """[(id, holds)] for every witness in `body`"""
    src = PRE + body
    ids = re.findall(r'WITNESS\("([^"]+)"', body)
    fl = ["g++-14", "-std=c++23", "-fsyntax-only", "-w", "-x", "c++", "-", f"-I{D.REPO}/lib", "-I/opt/pyre/include", "-fmax-errors=0", *extra]
    p = subprocess.run(fl, input=src, capture_output=True, text=True)
    errs = [l for l in p.stderr.splitlines() if re.search(r"\b(error|fatal error)\b:", l)]
    bad = set()
    for l in errs:
        m = re.search(r"WITNESS ([^\s\"]+)", l)
        if not m:
            raise D.AnalysisBroken("the witness unit does not compile: " + l)
        bad.add(m.group(1))
    return [(i, i not in bad) for i in ids]
