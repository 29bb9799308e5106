"""C21: parent and child jobs."""
from vlib import *
import checks.jobs as j


def run(ctx):
    for careless in (False, True):
        tlc_model(ctx, "JobsMC", j.MC % ((4, 0, 12) if not THOROUGH else (5, 0, 15)) + j.mc(careless, False, False, "none"), timeout=1500)
    tlc_model(ctx, "JobsMC", j.MC % (3, 2, 8 if not THOROUGH else 10) + j.mc(False, True, False, "none"), timeout=800)
    for m in ("runningForgotten", "resumeRunning", "childRuns", "resumeAtOnce"):
        tlc_must_fail(ctx, "JobsMC", j.MC % (4, 0, 12) + j.mc(False, False, False, m))
    j.check(ctx, "C21", ["family", "family", "any"])
