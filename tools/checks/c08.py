"""C08: a crash loses nothing committed and keeps nothing uncommitted."""
from vlib import *
import checks.sqldrv as s


def run(ctx):
    s.design(ctx, 1, ("split", "unlockEarly"))
    k = 1 if not THOROUGH else 12
    script, n = s.crashes(ctx.rng, 60 * k, 14, 6)
    s.check(ctx, script, "programs ended before a statement and gone on with", expect=n)
    s.check(ctx, s.kills(ctx.rng, 20 * k), "processes killed amid concurrent commits", expect=20 * k)
    ctx.assumptions += s.ASSUME + ["a crash of the process, not of the machine"]
