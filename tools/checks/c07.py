"""C07: transactions are atomic, serial and hash-chained."""
from vlib import *
import checks.sqldrv as s


def run(ctx):
    s.design(ctx, 0, ("countEarly", "noRelease", "dirty", "beginLeak", "unlockEarly"), live=True)
    k = 1 if not THOROUGH else 12
    n = 110 * k
    s.check(ctx, s.programs(ctx.rng, n, 60, w={"slow": True}), "programs of several handles", expect=n)
    n = 12 * k
    s.check(ctx, s.conc(ctx.rng, n, 6, 25), "free concurrency", expect=n)
    ctx.assumptions += s.ASSUME
