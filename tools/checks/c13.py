"""C13: rate limiting of the blocking queue."""
import vlib
from vlib import *
from checks.c12 import exe

MC = """SPECIFICATION Spec
CONSTANTS Idents = {%s}
 QUEUE = %s
 Cmds = {%s}
 MaxTime = %d
 MaxCmds = %d
 Us = {1, 2, 4}
 Depth = %d
 EMIT = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def k(x):
    return x if x else "-"


def from_model(beh):
    out = []
    for b in beh:
        for s in b["hist"]:
            if s["op"] == "new":
                c = s["cfg"]
                out.append("new 1 %d %d %d %d" % (c["win"], c["idt"], c["cmt"], c["dur"]))
            elif s["op"] == "record":
                out.append("record %s %s %d" % (k(s["ident"]), k(s["cmd"]), s["us"]))
                out.append("state")
            elif s["op"] == "push":
                out.append("push %d %s %s" % (s["id"], k(s["ident"]), k(s["cmd"])))
            elif s["op"] == "advance":
                out.append("advance %d" % s["dt"])
                out.append("state")
            elif s["op"] == "set":
                out.append("set %s %d" % (s["what"], s["val"]))
            else:
                out.append(s["op"])
    return "\n".join(out) + "\n"


def random_scripts(rng, n, length):
    out = []
    for _ in range(n):
        scale = rng.choice([1, 10, 1000, 1000000])
        win = rng.choice([5, 20, 100]) * scale
        out.append("new %d %d %d %d %d" % (rng.choice([0, 1, 5, 1000]), win, rng.choice([0, 1, 3, 10, 50]) * scale, rng.choice([0, 2, 5, 20, 100]) * scale,
                                         rng.choice([0, 1, 3, 10, 60]) * scale))
        nid = 0
        ids = ["a", "b", "c", "-"]
        cmds = ["x", "y"]
        total = 0
        for _ in range(length):
            x = rng.random()
            if x < 0.34:
                us = rng.choice([1, 2, 5, 10, 30, 60]) * scale + rng.choice([0, 0, 0, 1])
                if rng.random() < 0.1:
                    us = 0
                out.append("record %s %s %d" % (rng.choice(ids), rng.choice(cmds), us))
            elif x < 0.5:
                out.append("blocked %s %s" % (rng.choice(ids), rng.choice(cmds)))
            elif x < 0.62:
                nid += 1
                out.append("push %d %s %s" % (nid, rng.choice(ids), rng.choice(cmds)))
            elif x < 0.72:
                out.append("get")
            elif x < 0.89:
                d = rng.choice([0, 1, 2, 4, 5, 10, 20, 59, 60, 100]) * scale + rng.choice([0, 0, 1, -1])
                if d < 0 or total + d > 1900000000:
                    d = 0
                total += d
                out.append("advance %d" % d)
            elif x < 0.93:
                out.append("state")
            elif x < 0.97:
                w = rng.choice(["idt", "cmt", "dur", "idt", "cmt", "win"])
                v = rng.choice([0, 1, 5, 20, 50]) * scale
                if w == "win":
                    win = min(win, max(v, scale))   # only ever narrowed: what a wider window brings back is unspecified
                    v = win
                out.append("set %s %d" % (w, v))
            elif x < 0.985:
                out.append("clearlimits")
            else:
                out.append("clear")
        out.append("state")
    return "\n".join(out) + "\n"


def run(ctx):
    e = exe()
    tlc_model(ctx, "RateLimitMC", MC % ('"a"', "TRUE", '"x"', 4, 2, 0, "FALSE", "BlockIsJustified EmptyNeverBlocked"), timeout=800)
    tlc_model(ctx, "RateLimitMC", MC % ('"a"', "FALSE", '"x"', 6 if not THOROUGH else 8, 3 if not THOROUGH else 4, 0, "FALSE", "BlockIsJustified EmptyNeverBlocked"), timeout=800)
    if THOROUGH:
        tlc_model(ctx, "RateLimitMC", MC % ('"a", "b"', "FALSE", '"x"', 7, 3, 0, "FALSE", "BlockIsJustified EmptyNeverBlocked"), timeout=800)
    beh = tlc_behaviours(ctx, "RateLimitMC", MC % ('"a", "b"', "TRUE", '"x", "y"', 40, 12, 24, "TRUE", "EmitHist"), num=300 if not THOROUGH else 4000, depth=26)
    drive_and_validate(ctx, e, from_model(beh), "RateLimitTrace", args=["rate"], expect_traces=len(beh), what="behaviours of the specification replayed")
    n = 300 if not THOROUGH else 5000
    drive_and_validate(ctx, e, random_scripts(ctx.rng, n, 60), "RateLimitTrace", args=["rate"], expect_traces=n, what="random histories")
    ctx.assumptions += ["virtual clock", "the window is only narrowed during a history"]
