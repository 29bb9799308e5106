"""C10: reads inside a transaction are never stale."""
from vlib import *
import checks.sqldrv as s


def run(ctx):
    tlc_model(ctx, "QueryCache", s.CACHE % (4 if not THOROUGH else 6, "none"), timeout=800)
    for m in s.CACHE_MISTAKES:
        tlc_must_fail(ctx, "QueryCache", s.CACHE % (4, m))
    k = 1 if not THOROUGH else 12
    s.check(ctx, s.reads(ctx.rng, 90 * k, 70), "reads and writes of transactions", expect=90 * k)
    s.check(ctx, s.programs(ctx.rng, 30 * k, 60, w={"slow": True}), "programs of several handles", expect=30 * k)
    ctx.assumptions += s.ASSUME
