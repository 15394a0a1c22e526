"""One function per property."""
from . import buffers, core, dynamic, indexes, ops, saving, threads

ALL = {}
for m in (buffers, core, dynamic, indexes, ops, saving, threads):
    ALL.update(m.CHECKS)
