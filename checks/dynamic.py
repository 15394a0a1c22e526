"""C01-C05: histories of the real dynamic index, accepted or not by spec/DynamicTrace.tla;
the transition system they follow is spec/DynamicIndex.tla."""

from . import ops

# Element type / distance / storage, see drivers/dyn.cpp.
CONFIGS = range(7)
QUICK = {"C01": (0, 2, 4, 5), "C02": (0, 1, 3, 6), "C03": range(6), "C04": (0, 1, 5, 6),
         "C05": (0, 2, 4, 6)}


def record(c, configs, per, hist, steps):
    exes = c.build_all([dict(driver="dyn", flags=["-DDYN_WHICH=%d" % w], name="dyn%d" % w)
                        for w in configs])
    jobs = []
    for w, exe in zip(configs, exes):
        jobs.append((exe, [("dyn%d-%d" % (w, i),
                            ["--seed", c.seed * 1000 + 17 * i + w, "--hist", hist,
                             "--steps", steps, "--dir", c.work, "--out", "{out}"])
                           for i in range(per)]))
    return c.record_many(jobs)


def dynamic(c):
    def design():
        c.model("DynamicIndex", what="3 ids, 3 slots, degree 2: every behaviour", workers=4)
        if not c.quick:
            c.model("DynamicIndex", cfg="DynamicIndexValues", timeout=3000,
                    what="2 ids, 2 values, 3 slots, with a saved copy that may be reloaded")
    configs = QUICK[c.prop] if c.quick else CONFIGS
    per, hist, steps = (12 // len(configs), 20, 25) if c.quick else (24, 40, 40)
    _, traces = c.together(design, lambda: record(c, configs, per, hist, steps))
    c.validate("DynamicTrace", traces, env={"CHECK": c.prop})
    if c.prop == "C04":
        ops.updates(c)


CHECKS = {p: dynamic for p in ("C01", "C02", "C03", "C04", "C05")}
