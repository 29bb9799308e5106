"""C14: named conflict locks."""
from vlib import *
from checks.prim import explore

MC = """SPECIFICATION Spec
CONSTANTS Threads = {%s}
 Ids = {%s}
 Keep = %d
 Rounds = %d
 MISTAKE = "%s"
INVARIANTS Exclusive Bounded InUseKept
PROPERTIES Refines %s
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    tlc_model(ctx, "ConflictLockImpl", MC % ("1, 2, 3", "1, 2, 3", 1, 2, "none", "Served" if THOROUGH else ""), timeout=800)
    for m in ("nocount", "forceprune"):
        tlc_must_fail(ctx, "ConflictLockImpl", MC % ("1, 2, 3", "1, 2, 3", 1, 2, m, ""))
    n = 250 if not THOROUGH else 4000
    from checks.prim import exe
    drive_and_validate(ctx, exe(), "mem\n", "ConflictLockTrace", args=["clock", SEED], what="retained names", timeout=60)
    # one process per list: the retained names carry over from schedule to schedule
    for lines in [["dfs 2 %d 2 2 1 0 0" % n, "dfs 2 %d 3 1 1 0 0" % n, "dfs 1 %d 3 2 2 1 0" % n,
                   "rnd 0 %d 3 3 2 0 0" % n, "rnd 0 %d 4 3 3 1 0" % n, "rnd 0 %d 6 4 8 1 0" % (n // 2), "rnd 0 %d 4 3 12 0 0" % n],
                  # while a name is held (and waited for) more others come and go than are retained
                  ["rnd 0 %d 3 4 1 0 1" % n, "rnd 0 %d 5 2 2 0 1" % (n // 2), "rnd 0 %d 4 2 3 1 1" % (n // 2)]]:
        drive_and_validate(ctx, exe(), "\n".join(lines) + "\n", "ConflictLockTrace", args=["clock", SEED], what="lock schedules", timeout=90 if not THOROUGH else 600,
                           invariants=["Exclusive"])
    ctx.assumptions += ["sequentially consistent schedules of the controlled scheduler; depth-first up to 2 preemptions, random beyond"]
