"""C12: the command queue."""
import vlib
from vlib import *

IMPL = """SPECIFICATION Spec
CONSTANTS MaxTime = %d
 MaxCmds = %d
 STALE = %s
 Depth = 0
 EMIT = FALSE
INVARIANTS IndexConsistent QueueIsGhost NothingTwice AvailableMeansGet
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""
SIM = """SPECIFICATION Spec
CONSTANTS MaxTime = 4
 MaxCmds = 6
 STALE = FALSE
 Depth = %d
 EMIT = TRUE
INVARIANTS EmitHist
CHECK_DEADLOCK FALSE
"""


def exe():
    return build("queue_driver", ["queue_driver.cpp", "vtime.cpp"], wraps=["_Z8STimeNowv"])


def from_model(behaviours):
    out = []
    for b in behaviours:
        out.append("new 1")
        n = 0
        for s in b:
            if s["op"] == "push":
                n += 1
                out.append("push %d %d %d" % (n, s["sched"], s["tmo"]))
            elif s["op"] == "get":
                out.append("get")
            elif s["op"] == "clear":
                out.append("clear")
            elif s["op"] == "abandon":
                out.append("abandon %d" % s["ms"])
            elif s["op"] == "advance":
                out.append("advance %d" % s["dt"])
    return "\n".join(out) + "\n"


def random_scripts(rng, n, length):
    out = []
    for k in range(n):
        now = rng.choice([1, 10, 1000])
        out.append("new %d" % now)
        nid = 0
        span = rng.choice([2, 4, 8, 30])
        style = rng.random()
        for _ in range(length):
            x = rng.random()
            if x < 0.42:
                nid += 1
                sched = max(0, now + rng.randint(-span, span))
                if rng.random() < 0.04:
                    sched = now + rng.choice([7200000, 3000000, 40000000])
                tmo = max(0, now + rng.randint(-span, 2 * span))
                if style < 0.3:
                    tmo = sched + rng.choice([1, 5, 100])
                elif style < 0.5:
                    tmo = now + 100000
                if rng.random() < 0.05:
                    tmo = now + 50000000
                out.append("push %d %d %d" % (nid, sched, tmo))
            elif x < 0.75:
                out.append("get")
            elif x < 0.92:
                d = rng.choice([1, 1, 2, span, 3 * span])
                now += d
                out.append("advance %d" % d)
            elif x < 0.97:
                out.append("abandon %d" % rng.choice([0, 1, 2, span, 5000, 3000000, 2000000000]))
            elif x < 0.985:
                out.append("getall")
            else:
                out.append("clear")
        # drain: everything still queued has to come out by its timeout or schedule
        out.append("advance 60000000")
        out += ["get"] * 12
    return "\n".join(out) + "\n"


def run(ctx):
    e = exe()
    tlc_model(ctx, "CommandQueueImpl", IMPL % ((3, 3, "FALSE") if not THOROUGH else (3, 4, "FALSE")), timeout=800)
    tlc_must_fail(ctx, "CommandQueueImpl", IMPL % (3, 2, "TRUE"))
    beh = tlc_behaviours(ctx, "CommandQueueImpl", SIM % 24, num=300 if not THOROUGH else 3000, depth=26)
    drive_and_validate(ctx, e, from_model(beh), "CommandQueueTrace", args=["seq"], expect_traces=len(beh), what="behaviours of the specification replayed")
    n = 250 if not THOROUGH else 4000
    drive_and_validate(ctx, e, random_scripts(ctx.rng, n, 60), "CommandQueueTrace", args=["seq"], expect_traces=n, what="random programs")
    for prod, cons, per in ([(2, 2, 3), (3, 1, 3), (1, 3, 6)] if not THOROUGH else [(2, 2, 3), (3, 1, 3), (1, 3, 6), (3, 3, 3), (4, 2, 3)]):
        h = 100 if not THOROUGH else 1500
        drive_and_validate(ctx, e, "", "CommandQueueLin", det=False, args=["conc", h, SEED, prod, cons, per], expect_traces=h, confirm=4,
                           timeout=60, what="concurrent histories %dx%d" % (prod, cons))
    ctx.assumptions += ["concurrent histories are those the scheduler produced", "time is virtual except for the waits of concurrent consumers"]
