"""C09, C19, C20, C23-C26, C28-C30: containers and small algorithms. Each has a design model and a driver
whose recorded calls on the real code a trace specification judges."""
from vlib import march_flags


def recorded(c, driver, spec, jobs, model, timeout=900, heap="3g", par=6):
    """jobs: list of argument lists (without --out)."""
    def rec():
        exe = c.build(driver)
        return c.record(exe, [("%s%d" % (driver, i), list(a) + ["--out", "{out}"])
                              for i, a in enumerate(jobs)], timeout=timeout, par=par)
    _, traces = c.together(model, rec)
    c.validate(spec, traces, heap=heap, timeout=3000)


def contents(c):
    def model():
        c.model("Contents", cfg="Contents" if c.quick else "ContentsBig", workers=4,
                what="blocks of 2, up to 4 (thorough: 5) elements, every resize, every sorted "
                "map, batches of 1 to 3, copies within a batch in every order")
    recorded(c, "contents", "ContentsTrace", [
        ["--seed", c.seed * 1000 + i, "--n", 300 if c.quick else 3000, "--len", 12 + 2 * (i % 4)]
        for i in range(6 if c.quick else 24)], model)


def idmap(c):
    def model():
        c.model("IdMap", workers=4, what="3 external and 4 internal ids, every batch of up to 3, "
                "entry by entry, with remapping and reload")
    recorded(c, "trans", "IdMapTrace", [
        ["--seed", c.seed * 1000 + i, "--n", 300 if c.quick else 3000]
        for i in range(6 if c.quick else 24)], model)


def recall(c):
    def model():
        c.model("Recall", what="one query, 3 columns, 4 ids, every matrix, k and n")
        c.model("Recall", cfg="RecallTwo", what="two queries, 2 columns, 3 ids")
    n = 6 if c.quick else 24
    recorded(c, "small", "SmallTrace", [
        ["--what", "recall", "--seed", c.seed * 1000 + i, "--part", i, "--parts", n,
         "--n", 1200 if c.quick else 20000] for i in range(n)], model)


def medioid(c):
    def model():
        c.model("Medioid", cfg="Medioid" if c.quick else "MedioidBig", workers=4,
                what="up to 4 (thorough: 5) vectors, every filter, 2 (3) workers, chunks of 1 to 3")
    recorded(c, "small", "SmallTrace", [
        ["--what", "medioid", "--seed", c.seed * 1000 + i,
         "--n", 1200 if c.quick else 20000, "--ties", 40 if c.quick else 400]
        for i in range(6 if c.quick else 24)], model, par=2)


def dispatch(c):
    def model():
        c.model("Dispatch", workers=4, what="up to 4 methods of 2 arguments, scores -1, 0, 1")
        c.model("Dispatch", cfg="DispatchThree", workers=4, what="up to 3 methods of 3 arguments")
    recorded(c, "dispatch", "DispatchTrace", [
        ["--seed", c.seed * 1000 + i, "--n", 250 if c.quick else 4000]
        for i in range(6 if c.quick else 24)], model)


def calibrate(c):
    def model():
        c.model("Calibrate", cfg="Calibrate" if c.quick else "CalibrateBig", workers=4,
                what="windows and capacities up to 4 (thorough: 5), every monotone recall, "
                "every mode, reranking or not")
    recorded(c, "calib", "CalibrateTrace", [
        ["--seed", c.seed * 1000 + i, "--n", 500 if c.quick else 4000,
         "--index", 40 if c.quick else 400]
        for i in range(6 if c.quick else 24)], model)


def flat(c):
    def model():
        c.model("Flat", cfg="Flat" if c.quick else "FlatBig", workers=4,
                what="up to 3 vectors and 2 queries (thorough: 2 and 3), every distance of 2 (3) "
                "values, filter, k up to 2, data and query batch size, 2 workers")
        c.model("Flat", cfg="FlatEnds", workers=4, what="the same with 2 vectors: it always ends")
    recorded(c, "flat", "FlatTrace", [
        ["--seed", c.seed * 1000 + i, "--n", 110 if c.quick else 1500]
        for i in range(6 if c.quick else 24)], model, par=2)


def distances(c):
    """The same source for every instruction set that the code has paths for and this machine has."""
    sets = [["-march=x86-64-v2"], ["-march=x86-64-v3"]]
    if march_flags() != sets[1]:
        sets += [["-march=x86-64-v4"], ["-march=x86-64-v4", "-mavx512vnni"]]

    def rec():
        exes = c.build_all([dict(driver="distances", march=m, opt="-O2" if i % 2 else "-O1",
                                 name="distances%d" % i) for i, m in enumerate(sets)])
        return c.record_many([(exe, [("distances%d-%d" % (i, k), [
            "--seed", c.seed * 1000 + 10 * i + k, "--n", 25 if c.quick else 250,
            "--static", 1 if c.quick else 5, "--out", "{out}"]) for k in range(2 if c.quick else 12)])
            for i, exe in enumerate(exes)])
    _, traces = c.together(lambda: c.model(
        "Kernel", what="vectors of up to 40 elements, blocks of 1, 2, 3, 4 and 8"), rec)
    c.validate("DistanceTrace", traces, heap="2g")


def files(c):
    def model():
        c.model("VectorFile", cfg="VectorFile" if c.quick else "VectorFileBig", workers=4,
                what="up to 2 (thorough: 3) vectors of up to 2 components, every format, every cut "
                "and extension, every limit on what is read")
    recorded(c, "files", "FileTrace", [
        ["--seed", c.seed * 1000 + i, "--n", 250 if c.quick else 2500, "--dir", c.work + "/files%d" % i]
        for i in range(6 if c.quick else 24)], model)


def numbers(c):
    """Compiled with and without the instructions for half precision."""
    sets = [["-march=x86-64-v2"], ["-march=x86-64-v3"]]
    if march_flags() != sets[1]:
        sets += [march_flags()]

    def rec():
        exes = c.build_all([dict(driver="numbers", march=m, opt="-O2" if i % 2 else "-O1",
                                 name="numbers%d" % i) for i, m in enumerate(sets)])
        return c.record_many([(exe, [("numbers%d-%d" % (i, k), [
            "--seed", c.seed * 1000 + 10 * i + k, "--n", 400 if c.quick else 6000,
            "--part", k, "--parts", 2, "--out", "{out}"]) for k in range(2)])
            for i, exe in enumerate(exes)])
    _, traces = c.together(lambda: c.model("Half", workers=4, what="all 65536 patterns, and the "
                                           "floats half way between them"), rec)
    c.validate("NumberTrace", traces, heap="2g")


CHECKS = {"C28": distances, "C30": numbers, "C29": files, "C09": flat, "C24": calibrate, "C23": dispatch, "C25": recall, "C26": medioid, "C19": contents, "C20": idmap}
