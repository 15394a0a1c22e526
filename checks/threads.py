"""C06, C07: design models ThreadPool and ThreadControl; executions of the real classes under
the controlled scheduler (drivers/vsched.h), which replaces the standard synchronisation types
and decides every interleaving, are checked against PoolTrace and ThreadTrace."""


def explore(c, driver, spec, model, bound, budget, runs):
    def rec():
        exe = c.build(driver)
        parts = 8 if c.quick else 24
        return c.record(exe, [("%s%d" % (driver, i), [
            "--part", i, "--seed", c.seed * 1000 + i, "--bound", bound, "--budget", budget,
            "--plans", 150 if c.quick else 600, "--runs", runs, "--full", 40 if c.quick else 400,
            "--out", "{out}"])
            for i in range(parts)], timeout=1500, par=6)
    _, traces = c.together(model, rec)
    c.validate(spec, traces, heap="3g", timeout=3000)


def pool(c):
    def model():
        c.model("ThreadPool", workers=4, what="up to 3 workers, 2 submitting threads, every set of "
                "failing jobs, 2 resizes; with liveness")
        if not c.quick:
            c.model("ThreadPool", cfg="ThreadPoolBig", timeout=3000, heap="12g", what="2 submissions each")
    explore(c, "pool", "PoolTrace", model, 1 if c.quick else 2, 1500 if c.quick else 20000,
            10 if c.quick else 40)


def worker(c):
    def model():
        c.model("ThreadControl", workers=4, what="3 jobs, 2 spurious wake-ups, every atomic step; "
                "with liveness")
    explore(c, "thread", "ThreadTrace", model, 2 if c.quick else 3, 1500 if c.quick else 20000,
            10 if c.quick else 40)


def partition(c):
    def rec():
        exe = c.build("part")
        parts = 8 if c.quick else 16
        return c.record(exe, [("part%d" % i, [
            "--part", i, "--parts", parts, "--seed", c.seed * 1000 + i, "--bound", 2,
            "--most", 26 if c.quick else 60, "--budget", 150 if c.quick else 3000,
            "--plans", 150 if c.quick else 1500, "--large", 100 if c.quick else 1500, "--out", "{out}"])
            for i in range(parts)], timeout=1500, par=6)
    _, traces = c.together(lambda: c.model(
        "Partition", workers=4, what="static: up to 21 elements, 8 threads; dynamic: up to 7 "
        "elements, 4 threads, grain 8, every interleaving"), rec)
    c.validate("PartTrace", traces, heap="3g", timeout=3000)


def builds(c):
    """Construction under many schedules (C22, and C13's multi-threaded part)."""
    exe = c.build("buildmt")
    traces = c.record(exe, [("buildmt%d" % i, [
        "--seed", c.seed * 1000 + i, "--n", 3 if c.quick else 40, "--runs", 10 if c.quick else 60,
        "--out", "{out}"]) for i in range(8)], timeout=1500, par=6)
    c.validate("OpsTrace", traces, heap="3g", timeout=3000)


def locks(c):
    def design():
        c.model("Locks", cfg="Locks" if c.quick else "LocksBig", workers=3,
                what="3 (thorough: 4) threads, lock and try-lock; with liveness")
        c.model("ReverseEdges", cfg="ReverseEdgesBig", workers=3,
                what="3 vertices, degree 2, 2 workers, every starting graph; with liveness")

    def rec():
        exe = c.build("locks")
        return c.record(exe, [("locks%d" % i, [
            "--part", i, "--seed", c.seed * 1000 + i, "--bound", 2 if c.quick else 4,
            "--budget", 400 if c.quick else 20000, "--plans", 80 if c.quick else 800,
            "--full", 40 if c.quick else 400, "--out", "{out}"])
            for i in range(6 if c.quick else 16)], timeout=1500, par=6)
    _, traces = c.together(design, rec)
    c.validate("LockTrace", traces, heap="3g", timeout=3000)
    builds(c)


CHECKS = {"C22": locks, "C08": partition, "C06": pool, "C07": worker}
