"""C10, C11: spec/SearchBuffer.tla refines the buffer algorithms to spec/BufferRules.tla;
every recorded step of the real buffers is checked against BufferRules by BufferTrace."""


def run(c, mutable):
    def design():
        if mutable:
            c.model("SearchBuffer", workers=4,
                    what="4 candidates, 3 distances, live or deleted, capacity up to 3")
            if not c.quick:
                c.model("SearchBuffer", cfg="SearchBufferBig", timeout=2400,
                        what="5 candidates")
        else:
            c.model("SearchBuffer", cfg="SearchBufferStatic", workers=4,
                    what="4 candidates, 3 distances, all live, capacity up to 3")
            c.model("SearchBuffer", cfg="SearchBufferStaticBig", workers=4,
                    what="5 candidates, capacity up to 4")

    def rec():
        exe = c.build("buffers")
        per, budget, depth, rounds = (6, 15000, 5, 60) if c.quick else (24, 60000, 7, 150)
        return c.record(exe, [("buf%d" % i, [
            "--seed", c.seed * 100 + i, "--mutable", int(mutable), "--budget", budget,
            "--depth", depth, "--rounds", rounds, "--runs", 120, "--out", "{out}"])
            for i in range(per)], timeout=900, par=6)
    _, traces = c.together(design, rec)
    c.validate("BufferTrace", traces, heap="3g")


CHECKS = {"C10": lambda c: run(c, False), "C11": lambda c: run(c, True)}
