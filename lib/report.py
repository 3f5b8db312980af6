"""Obligation bookkeeping, verdicts, known findings and evidence files."""
import json
import os
import signal
import threading
import time
import traceback
from db import AnalysisBroken, VERIF
import interp as I
import state


LIMIT = 120        # seconds for one obligation
TOTAL = 660        # seconds for one check


class OutOfTime(BaseException):
    pass


class limit:
    """give up on what takes longer: the obligation is undecided (a limit within another one does nothing)"""
    active = False

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.mine = not limit.active and threading.current_thread() is threading.main_thread()
        if self.mine:
            limit.active = True
            self.old = signal.signal(signal.SIGALRM, self.stop)
            signal.setitimer(signal.ITIMER_REAL, max(1, min(self.s, Report.end - time.time())), 5)

    def stop(self, *_):
        if time.time() > Report.end:
            raise OutOfTime()
        raise I.Undecided(f"takes more than {self.s} s")

    def __exit__(self, *_):
        if self.mine:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
            limit.active = False


def arm():
    """the limit of the whole check, also for what is not within an obligation"""
    def stop():
        os.kill(os.getpid(), signal.SIGUSR1)

    def handler(*_):
        raise OutOfTime()
    signal.signal(signal.SIGUSR1, handler)
    t = threading.Timer(TOTAL + 5, stop)
    t.daemon = True
    t.start()


class Report:
    end = time.time() + TOTAL

    def __init__(self, pid, tier, level):
        self.pid = pid
        self.tier = tier
        self.level = level
        self.t0 = time.time()
        self.obs = []          # (rule, instance, status, where, detail)
        self.functions = set()
        self.searched = set()
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.rules = {}
        self.minimum = 1
        self.samples = []

    # -- obligations
    def ok(self, rule, inst, where="", detail=""):
        self.obs.append((rule, inst, "ok", where, detail))

    def bad(self, rule, inst, where, detail):
        self.obs.append((rule, inst, "violated", where, detail))

    def und(self, rule, inst, where, detail):
        self.obs.append((rule, inst, "undecided", where, detail))

    def check(self, cond, rule, inst, where="", detail=""):
        """cond: True / False / None (undecided)"""
        if cond is True:
            self.ok(rule, inst, where, "")
        elif cond is False:
            self.bad(rule, inst, where, detail)
        else:
            self.und(rule, inst, where, detail)
        return cond

    def guard(self, rule, inst, where, fn):
        """run fn(); an idiom outside the vocabulary makes the obligation undecided"""
        try:
            with limit(LIMIT):
                return fn()
        except I.Undecided as e:
            self.und(rule, inst, where, f"outside the analysed idioms: {e}")
        except I.PathEnd as e:
            self.und(rule, inst, where, f"path ended: {e.kind} {e.why}")
        except I.OUT as e:
            # a value of another shape than the analysis knows: not decided, rather than no answer for all
            at = traceback.extract_tb(e.__traceback__)[-1]
            self.und(rule, inst, where, f"outside the analysed idioms: {type(e).__name__} {str(e)[:120]} ({at.name}:{at.lineno})")
        return None

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def used(self, ip):
        for i in ip.analysed:
            f = ip.db.fns.get(i)
            if f is not None and ip.db.in_repo(f):
                self.functions.add(f"{ip.db.rel(f)}:{f['l']} {f['b']}")
                if (id(ip.db), i) not in self.searched:
                    self.searched.add((id(ip.db), i))
                    for line, v, why in state.hidden(ip.db, f):
                        self.rule("hidden state", "no function that is analysed keeps state between calls, or shares it between objects")
                        o = ("hidden state", f"{v} in {f['q']}", "violated", f"{ip.db.rel(f)}:{line} ({f['q']})", why)
                        if o not in self.obs:
                            self.obs.append(o)
        if ip.dangling or id(ip.db) not in self.searched:
            self.searched.add(id(ip.db))
            self.rule("lifetimes", "no function of the library hands out a reference or a pointer to (a part of) a variable of its own, and none uses an object past its life")
            found = [(f"{ip.db.rel(f)}:{line} ({f['q']})", v) for f in ip.db.fns.values() if ip.db.in_repo(f) for line, v in state.dangling(ip.db, f)]
            for where, v in found + ip.dangling:
                if not any(o[3] == where and o[0] == "lifetimes" for o in self.obs):
                    self.bad("lifetimes", f"{v} in {where.split('(')[-1].rstrip(')')}", where, f"the function returns a reference to (a part of) its own variable {v}, which is gone when it returns")
        for where, m in ip.dead:
            self.rule("lifetimes", "no function of the library hands out a reference or a pointer to (a part of) a variable of its own, and none uses an object past its life")
            if not any(o[3] == where and o[0] == "lifetimes" for o in self.obs):
                self.bad("lifetimes", f"{m} in {where.split('(', 1)[-1].rstrip(')')}"[:160], where, f"{m} is used of an object that is gone by then (a temporary, or a variable that went out of scope)")
        for k, v in ip.stats.items():
            self.count("abstract_" + k, v)
        ip.stats = {k: 0 for k in ip.stats}


def beyond_bounds(R, fn):
    """take the cases through the branches for large inputs that they do not reach by themselves (see interp.Bounds)"""
    t = I.Bounds.unreached()
    R.count("bounds_compared", len(I.Bounds.seen))
    R.count("bounds_turned", len(t))
    if not t or any(o[2] == "violated" for o in R.obs):
        return
    R.rule("beyond bounds", "what the code does beyond bounds that are written in it gives the same results, or an error")
    I.Bounds.turned = t
    S = Report(R.pid, R.tier, R.level)
    try:
        fn(S)
    except (AnalysisBroken, I.PathEnd) + tuple(I.OUT):
        pass
    at = ", ".join(sorted(f"{f}:{l}" for f, l, _ in t))
    for o in S.obs:
        if o[2] == "violated" and o[0] != "hidden state":
            R.bad(o[0], f"{o[1]}, beyond the bound at {at}", o[3], o[4])
    I.Bounds.turned = {}


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("status") == "known" and k["property"] == pid:
                    out.append(k)
    return out


def finish(R):
    """print the verdict, write evidence, return the exit code"""
    known = known_findings(R.pid)
    viol, kf = [], []
    for o in R.obs:
        if o[2] != "violated":
            continue
        key = f"{o[0]}|{o[1]}"
        m = next((k for k in known if k["key"] == key), None)
        (kf if m else viol).append((o, key, m))
    und = [o for o in R.obs if o[2] == "undecided"]
    okc = [o for o in R.obs if o[2] == "ok"]
    ev = {
        "property": R.pid,
        "tier": R.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": R.level,
        "coverage": {
            "explanation": "Static analysis of the resolved program (clang AST of /repo's current tree): "
                           + "; ".join(f"{k}: {v}" for k, v in R.rules.items()),
            "obligations": len(R.obs),
            "discharged": len(okc),
            "undecided": len(und),
            "known_findings": len(kf),
            "functions_analysed": len(R.functions),
            "functions": sorted(R.functions)[:200],
            "counts": R.counts,
            "by_rule": {r: sum(1 for o in R.obs if o[0] == r) for r in sorted({o[0] for o in R.obs})},
            "samples": [f"{o[0]} | {o[1]} | {o[3]} | {o[2]}" for o in R.obs[:12]] + R.samples[:10],
            "undecided_list": [f"{o[0]} | {o[1]} | {o[3]} | {o[4]}" for o in und][:20],
        },
        "assumptions": R.assumptions,
        "wall_s": round(time.time() - R.t0, 3),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", R.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"[{R.pid}] obligations={len(R.obs)} discharged={len(okc)} undecided={len(und)} "
          f"known={len(kf)} violated={len(viol)} functions={len(R.functions)} wall={ev['wall_s']}s")
    for r in sorted({o[0] for o in R.obs}):
        n = [o for o in R.obs if o[0] == r]
        print(f"  rule {r}: {len(n)} obligations")
    for o, key, m in kf:
        print(f"KNOWN-FINDING: property={R.pid} {o[0]} {o[1]} at {o[3]}: {o[4]}")
    for o in und:
        print(f"UNDECIDED: {o[0]} {o[1]} at {o[3]}: {o[4]}")
    if viol:
        rp = os.path.join(VERIF, "evidence", R.pid + ".violations.txt")
        with open(rp, "w") as f:
            for o, key, m in viol:
                f.write(f"{o[3]}: [{o[0]}] {o[1]}: {o[4]}\n    finding key: {key}\n")
        for o, key, m in viol:
            print(f"{o[3]}: [{o[0]}] {o[1]}: {o[4]}")
        print(f"VIOLATION property={R.pid} replay={rp}")
        return 1
    if len(R.obs) < R.minimum:
        print(f"ANALYSIS-BROKEN: only {len(R.obs)} obligations (expected at least {R.minimum})")
        return 2
    if und and len(okc) < len(und):
        print("ANALYSIS-BROKEN: most obligations are outside the analysed idioms")
        return 2
    return 0
