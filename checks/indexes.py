"""C17, C18, C21, C27: clusterings and inverted indexes; answers that depend on nothing else."""


def flavours(c, driver, define, which, spec, args, per, model, par=2, heap="3g"):
    """args: which flavour and number -> argument list, or None."""
    def rec():
        exes = c.build_all([dict(driver=driver, flags=["-D%s=%d" % (define, w)],
                                 name="%s%d" % (driver, w)) for w in which])
        groups = [(exe, [("%s%d-%d" % (driver, w, i), list(args(w, i)) + ["--out", "{out}"])
                         for i in range(per)]) for w, exe in zip(which, exes)]
        return c.record_many(groups, timeout=900, par=par)
    _, traces = c.together(model, rec)
    c.validate(spec, traces, heap=heap, timeout=3000)


def clustering(c):
    def model():
        c.model("Clustering", workers=3, what="3 vectors, 2 centroids, every assignment, 2 workers "
                "under locks, every batch size, size limit and order of reduction")
        if not c.quick:
            c.model("Clustering", cfg="ClusteringBig", what="the same with 3 centroids")
    flavours(c, "inverted", "INV_WHICH", (0, 1, 2), "ClusterTrace", lambda w, i: [
        "--mode", "cluster", "--n", 90 if c.quick else 1500, "--seed", c.seed * 1000 + 10 * w + i],
        2 if c.quick else 5, model)


def inverted(c):
    def model():
        c.model("InvertedSearch", workers=3, what="2 centroids, 2 leaves in any clusters, distances "
                "-1 to 2, every order found, 3 factors, up to 3 neighbours, both directions")
        if not c.quick:
            c.model("InvertedSearch", cfg="InvertedSearchBig", what="the same with 3 leaves")
    flavours(c, "inverted", "INV_WHICH", (0, 1, 2), "ClusterTrace", lambda w, i: [
        "--mode", "search", "--n", 60 if c.quick else 1000,
        "--seed", c.seed * 1000 + 500 + 10 * w + i], 2 if c.quick else 5, model)


def steady(c):
    def model():
        c.model("Steady", workers=3, what="2 queries or unreadable ones, 2 vectors, batches of up to "
                "2 on up to 2 threads, 2 calls, scratch space new or kept")
        if not c.quick:
            c.model("Steady", cfg="SteadyBig", what="the same with 3 vectors, batches of up to 3")
    flavours(c, "steady", "STEADY_WHICH", (0, 1, 2, 3), "SteadyTrace", lambda w, i: [
        "--n", 150 if c.quick else 2500, "--len", 30 + 20 * i,
        "--seed", c.seed * 1000 + 10 * w + i], 2 if c.quick else 5, model)


def erased(c):
    flavours(c, "erased", "ERASED_WHICH", (0, 1, 2), "ErasedTrace", lambda w, i: [
        "--n", (24, 24, 60)[w] * (1 if c.quick else 15), "--len", 40 + 20 * i, "--dir", c.work,
        "--seed", c.seed * 1000 + 10 * w + i], 3 if c.quick else 6, lambda: None, par=5)


CHECKS = {"C27": erased, "C17": clustering, "C18": inverted, "C21": steady}
