"""C22: repeating, retrying and unique jobs follow their schedule."""
from vlib import *
import checks.jobs as j

CFG = """SPECIFICATION Spec
CONSTANT Step = %d
CONSTANT Last = %d
CONSTANT MISTAKE = "%s"
INVARIANT Canned Relative Rhythm
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    for step, last in ((1201, 150), (14, 60), (43201, 100)) if not THOROUGH else ((1201, 400), (14, 300), (43201, 300), (7, 200), (3599, 300)):
        tlc_model(ctx, "JobsRepeat", CFG % (step, last, "none"), timeout=800)
    for m in ("skipOne", "anchorNow"):
        tlc_must_fail(ctx, "JobsRepeat", CFG % (1201, 40, m))
    tlc_model(ctx, "JobsMC", j.MC % ((2, 4, 8) if not THOROUGH else (2, 6, 10)) + j.mc(False, True, True, "none"), timeout=800)
    j.check(ctx, "C22", ["schedule", "schedule", "any"])
