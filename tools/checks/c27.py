"""C27: the synchronized queue."""
from vlib import *
from checks.prim import explore

MC = """SPECIFICATION Spec
CONSTANTS Pushers = {%s}
 Per = %d
 MISTAKE = "%s"
INVARIANTS NoSleepOnWork
PROPERTIES Refines AllServed
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    tlc_model(ctx, "SyncQueueImpl", MC % ("1, 2, 3", 2, "none"), timeout=800)
    tlc_must_fail(ctx, "SyncQueueImpl", MC % ("1, 2", 2, "late"))
    k = 1 if not THOROUGH else 12
    lines = ["dfs 2 %d 1 2 0" % (2000 * k), "dfs 2 %d 2 2 0" % (2000 * k), "dfs 3 %d 2 1 0" % (2000 * k), "dfs 1 %d 2 1 1" % (1500 * k),
             "rnd 0 %d 2 3 1" % (500 * k), "rnd 0 %d 3 2 1" % (500 * k), "rnd 0 %d 2 3 0" % (400 * k), "rnd 0 %d 1 6 1" % (400 * k)]
    explore(ctx, "syncq", lines, "SyncQueueTrace", False, "queue histories")
    ctx.assumptions += ["sequentially consistent schedules; poll is the real poll with the thread descheduled while it would sleep"]
