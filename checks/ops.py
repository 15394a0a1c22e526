"""C12, C13, C14: the graph-index algorithms as functions in spec/VamanaOps.tla; the design
models Traversal and PruneDesign; every recorded call of the real code must equal what the
specification computes (OpsTrace). C04 also runs the insertion and repair cases."""

from . import threads

FLAVOURS = ("float L2", "float inner product", "int8 L2", "int8 inner product", "float cosine",
            "int8 cosine")
ALL = tuple(range(len(FLAVOURS)))


def record(c, mode, which, n, per, args=()):
    exes = c.build_all([dict(driver="ops", flags=["-DOPS_WHICH=%d" % w], name="ops%d" % w)
                        for w in which])
    groups = []
    for w, exe in zip(which, exes):
        groups.append((exe, [("%s-%d-%d" % (mode, w, i), [
            "--mode", mode, "--n", n, "--seed", c.seed * 1000 + w * 100 + i,
            "--part", i, "--parts", per, "--out", "{out}"] + list(args)) for i in range(per)]))
    return c.record_many(groups, timeout=600, par=2 if mode == "build" else 6)


def pruning(c):
    def design():
        c.model("PruneDesign", workers=3,
                what="every 4 points on a line of 5, factors 1, 5/4, 3/2, 2, limits up to 3")
        c.model("PruneDesign", cfg="PruneDesignIP", workers=3,
                what="every 3 points of a 3x3 grid, inner product")
        if not c.quick:
            c.model("PruneDesign", cfg="PruneDesignBig", timeout=2400, what="4 points of a 3x3 grid")
            c.model("PruneDesign", cfg="PruneDesignIPBig", timeout=2400,
                    what="4 points of a 3x3 grid, inner product")

    _, traces = c.together(design, lambda: record(
        c, "prune", ALL, 1500 if c.quick else 12000, 2))
    c.validate("OpsTrace", traces, heap="3g", timeout=1500)


def traversal(c):
    def design():
        c.model("Traversal", workers=3, what="3 vertices: every graph, 2 distances, live or "
                "deleted, every entry point, window and capacity up to 3")
        if not c.quick:
            c.model("Traversal", cfg="TraversalBig", timeout=3000,
                    what="4 vertices, degree up to 2, all live")
    _, traces = c.together(design, lambda: record(
        c, "search", ALL, 150 if c.quick else 1500, 2))
    c.validate("OpsTrace", traces, heap="3g", timeout=3000)


def construction(c):
    traces = record(c, "build", ALL, 40 if c.quick else 400, 2)
    c.validate("OpsTrace", traces, heap="3g", timeout=3000)
    threads.builds(c)


def updates(c):
    """Insertion and repair, exactly (for C04)."""
    traces = record(c, "update", (0, 1, 4) if c.quick else ALL, 48 if c.quick else 600, 2)
    c.validate("OpsTrace", traces, heap="3g", timeout=3000)


CHECKS = {"C12": traversal, "C13": construction, "C14": pruning}
