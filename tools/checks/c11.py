"""C11: restricted handles do only what is allowed."""
from vlib import *
import checks.sqldrv as s


def run(ctx):
    tlc_model(ctx, "Restricted", s.RESTR % (6 if not THOROUGH else 8, "none"), timeout=800)
    for m in s.RESTR_MISTAKES:
        tlc_must_fail(ctx, "Restricted", s.RESTR % (6, m))
    k = 1 if not THOROUGH else 12
    s.check(ctx, s.restricted(ctx.rng, 90 * k, 25), "restricted handles", expect=90 * k)
    ctx.assumptions += s.ASSUME
