"""The concurrent primitives under the controlled scheduler."""
from vlib import *


def exe():
    return build("prim_driver", ["prim_driver.cpp", "vsched.cpp"], wraps=SCHED_WRAPS, flags=["-fno-access-control"])


def explore(ctx, mode, lines, module, det, what, constants="", args=(), timeout=300, confirm=1):
    e = exe()
    for i in range(0, len(lines), 4):
        drive_and_validate(ctx, e, "\n".join(lines[i:i + 4]) + "\n", module, det=det, args=[mode, SEED + i], what=what, constants=constants,
                           timeout=timeout, confirm=confirm)
    ctx.count("schedules", sum(int(x.split()[2]) for x in lines if x.split()[0] in ("dfs", "rnd")))
