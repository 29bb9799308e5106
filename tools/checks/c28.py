"""C28: pools of database handles and sockets."""
from vlib import *
from checks.prim import explore

MC = """SPECIFICATION Spec
CONSTANTS Threads = {%s}
 Max = %d
 Rounds = %d
 MISTAKE = "%s"
INVARIANTS OneUser Bounded
PROPERTIES Refines AllDone
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    tlc_model(ctx, "PoolImpl", MC % ("1, 2, 3", 2, 2, "none"), timeout=800)
    for m in ("nonotify", "late"):
        tlc_must_fail(ctx, "PoolImpl", MC % ("1, 2, 3", 2, 2, m))
    k = 1 if not THOROUGH else 12
    explore(ctx, "pool", ["dfs 2 %d 3 3 1" % (600 * k), "rnd 0 %d 3 4 3" % (400 * k), "rnd 0 %d 2 3 3" % (400 * k), "rnd 0 %d 5 6 2" % (200 * k)],
            "PoolTrace", True, "database handle histories", constants="CONSTANT Limit = 10")
    explore(ctx, "sock", ["rnd 0 %d 1 24" % (150 * k), "rnd 0 %d 2 16" % (250 * k), "rnd 0 %d 3 10" % (150 * k)],
            "SockPoolTrace", True, "socket pool histories", constants="CONSTANT Limit = 10000")
    ctx.assumptions += ["sequentially consistent schedules; virtual steady clock", "single-handle pools (maxDBs = 1), which can never hand out a handle, are outside"]
