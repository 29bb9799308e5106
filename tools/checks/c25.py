"""C25: the ring buffer."""
from vlib import *
from checks.prim import explore

MC = """SPECIFICATION Spec
CONSTANTS Producers = {%s}
 Pushes = %d
 Cap = %d
 MISTAKE = "%s"
INVARIANTS PoppedInOrder Bounded WasFull
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    tlc_model(ctx, "RingBufferImpl", MC % ("1, 2", 2, 1, "none"), timeout=800)
    tlc_model(ctx, "RingBufferImpl", MC % ("1, 2", 3 if THOROUGH else 2, 2, "none"), timeout=800)
    for m in ("stale", "early"):
        tlc_must_fail(ctx, "RingBufferImpl", MC % ("1, 2", 3, 1, m))
    k = 1 if not THOROUGH else 12
    lines = ["dfs 2 %d 1 2 2 1" % (2500 * k), "dfs 2 %d 2 2 2 0" % (2500 * k), "dfs 3 %d 1 2 1 1" % (2500 * k), "dfs 1 %d 1 3 2 1" % (2500 * k),
             "rnd 0 %d 1 2 3 1" % (600 * k), "rnd 0 %d 2 2 3 0" % (600 * k), "rnd 0 %d 2 3 2 1" % (600 * k), "rnd 0 %d 3 3 3 1" % (400 * k),
             "rnd 0 %d 2 1 8 1" % (300 * k), "rnd 0 %d 5 2 5 1" % (200 * k), "rnd 0 %d 1 3 3 0" % (300 * k), "rnd 0 %d 2 2 5 0" % (300 * k)]
    explore(ctx, "ring", lines, "RingBufferTrace", False, "ring buffer histories")
    ctx.assumptions += ["values are sequentially consistent in the schedules; missing acquire/release orders are noticed through happens-before of the element",
                        "one consumer, as documented"]
