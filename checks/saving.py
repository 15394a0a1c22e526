"""C15, C16: saving, loading, and saves that do not complete."""
from .indexes import flavours


def models(c):
    c.model("SaveProtocol", workers=2, what="an index in 3 directories, 3 saves of up to 2 pieces, "
            "stopped at any step")
    c.model("SaveProtocol", cfg="SaveProtocolOne", workers=2, what="one directory, file found by identifier, 4 saves, "
            "copies")
    c.model("SaveProtocol", cfg="SaveProtocolTable", workers=2, what="one directory, file found by name, 4 saves, copies")
    if not c.quick:
        c.model("SaveProtocol", cfg="SaveProtocolBig", what="an index in 3 directories, 4 saves, copies")


def check(breaking):
    def run(c):
        n = 1 if c.quick else 12
        flavours(c, "saving", "SAVE_WHICH", (0, 1), "SaveTrace", lambda w, i: [
            "--n", 60 * n if w == 0 else 40 * n, "--len", 60 + 20 * i, "--breaking", breaking,
            "--seed", c.seed * 1000 + 500 * breaking + 10 * w + i],
            4 if c.quick else 8, lambda: models(c), par=4)
    return run


CHECKS = {"C15": check(0), "C16": check(1)}
