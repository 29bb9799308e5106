"""C09: the journal returns exactly what was committed, for as long as promised."""
from vlib import *
import checks.sqldrv as s


def run(ctx):
    s.design(ctx, 0, ("popAll", "enabledEarly"))
    k = 1 if not THOROUGH else 12
    s.check(ctx, s.journal(ctx.rng, 12 * k, 60), "changing journal settings", expect=12 * k)
    s.check(ctx, s.backlog(ctx.rng, 6 * k), "a backlog worked off", expect=6 * k)
    s.check(ctx, s.toggles(ctx.rng, 6 * k), "commits switched off and on amid concurrent ones", expect=6 * k)
    ctx.assumptions += s.ASSUME
