"""The simulation and its execution context are interpreted against a model of the life cycle of MPI."""
import db as D
import interp as I
import intrinsics as N
import strings as STR
import tensors as T
from poly import Poly, ZERO
from props.petsc import run

CTX = "mito::simulation::Context::"


class Drv:
    def __init__(self, src):
        self.db = D.extract(src)
        self.db.check_diags({})
        ip = self.ip = I.Interp(self.db)
        T.install(ip)
        STR.install(ip, N)
        self.by = {f["n"]: f for f in self.db.fns.values() if f["b"].startswith("verif::")}
        self.lib = {f["b"]: f for f in self.db.fns.values() if f["b"].startswith("mito::simulation")}
        for k in dir(self):
            if k.startswith("m_"):
                ip.over["MPI_" + k[2:]] = self.wrap(k[2:], getattr(self, k))
        ip.prefix.append(("MPI_", self.unknown))
        self.reset()

    def reset(self, rank=0, size=1, state="before"):
        self.log, self.rank, self.size, self.state = [], rank, size, state

    def unknown(self, ip, c):
        raise I.Undecided(f"MPI call {c.x['n']}")

    def wrap(self, k, f):
        def h(ip, c):
            self.log.append(k)
            f(c)
            return ZERO
        return h

    def running(self, what):
        if self.state != "running":
            raise I.PathEnd("ub", f"MPI_{what} {'before MPI is initialised' if self.state == 'before' else 'after MPI is finalised'}")

    def m_Init(self, c):
        if self.state != "before":
            raise I.PathEnd("ub", f"MPI is initialised when it is {'running' if self.state == 'running' else 'finalised'} already")
        self.state = "running"

    m_Init_thread = m_Init

    def m_Finalize(self, c):
        self.running("Finalize")
        self.state = "after"

    def store(self, p, x):
        p = T.L(p)
        if not isinstance(p, I.Ptr):
            raise I.Undecided("where MPI stores a result")
        self.ip.assign(self.ip.deref(p), x)

    def among(self, c):
        """(rank, size) in the communicator given"""
        p = T.L(c.a[0])
        name = getattr(p.b, "name", "") if isinstance(p, I.Ptr) else ""
        if "comm_world" in (name or ""):
            return (self.rank, self.size)
        if "comm_self" in (name or ""):
            return (0, 1)
        raise I.Undecided("an unknown communicator")

    def m_Comm_rank(self, c):
        self.running("Comm_rank")
        self.store(c.a[1], Poly.const(self.among(c)[0]))

    def m_Comm_size(self, c):
        self.running("Comm_size")
        self.store(c.a[1], Poly.const(self.among(c)[1]))

    def m_Initialized(self, c):
        self.store(c.a[0], Poly.const(0 if self.state == "before" else 1))

    def m_Finalized(self, c):
        self.store(c.a[0], Poly.const(1 if self.state == "after" else 0))

    def where(self, b):
        f = self.lib.get(b)
        return self.db.where(f) if f else b

    def __call__(self, n, *a):
        if n not in self.by:
            raise D.AnalysisBroken(f"driver function {n}")
        return self.ip.call_fn(self.by[n], None, list(a))

    def n(self, name):
        p = self.ip.n(T.L(self(name)))
        return int(p.cval()) if p.is_const() else repr(p)


def s01(R):
    R.minimum = 20
    R.rule("identity", "the context of the simulation knows the rank of the process and the number of processes of the job; without MPI it is the only one")
    R.rule("one simulation", "the simulation is one object, whoever asks for it and how often: MPI is initialised once")
    R.rule("life cycle", "a context initialises MPI before it asks MPI for anything, and finalises it exactly once, when it is destroyed")
    for src, mpi in (("simulation.cc", True), ("simulation_serial.cc", False)):
        dr = Drv(src)
        for size in (1, 2, 5):
            for rank in range(size):
                lab = f"process {rank} of {size}, {'with' if mpi else 'without'} MPI"
                want = (rank, size) if mpi else (0, 1)

                def go():
                    dr.reset(rank, size)
                    got = (dr.n("sm_id"), dr.n("sm_n"))
                    if got != want:
                        return f"the context says process {got[0]} of {got[1]}, it is {want[0]} of {want[1]}"
                    got = (dr.n("sm_n"), dr.n("sm_id"))
                    if got != want[::-1]:
                        return f"asked again, the context says process {got[1]} of {got[0]}"
                    t = dr.n("sm_clock")
                    return None if t == 0 else f"the clock starts at {t}"
                run(dr, R, "identity", lab, CTX + "Context", go)

                def go():
                    dr.reset(rank, size)
                    a, b = T.L(dr("sm_get")), T.L(dr("sm_get"))
                    dr.n("sm_id")
                    if a is not b:
                        return "asking for the simulation twice gives two simulations"
                    k = sum(x.startswith("Init") and x != "Initialized" for x in dr.log)
                    if k != (1 if mpi else 0):
                        return f"MPI is initialised {k} times"
                    return None if "Finalize" not in dr.log else "MPI is finalised while the simulation is alive"
                run(dr, R, "one simulation", lab, "mito::simulation::simulation", go)

                def go():
                    dr.reset(rank, size)
                    if dr.n("sm_life") != want[0]:
                        return "a context of its own does not know its process"
                    k = dr.log.count("Finalize")
                    if k != (1 if mpi else 0):
                        return f"MPI is finalised {k} times by a context that is created and destroyed"
                    if not mpi and dr.log:
                        return f"MPI is called: {dr.log}"
                    return None
                run(dr, R, "life cycle", lab, CTX + "~Context", go)
