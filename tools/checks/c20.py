"""C20: a job is handed to one worker at a time, best job first."""
from vlib import *
import checks.jobs as j


def run(ctx):
    tlc_model(ctx, "JobsMC", j.MC % ((2, 4, 8) if not THOROUGH else (3, 4, 7)) + j.mc(False, True, True, "none"), timeout=800)
    tlc_model(ctx, "JobsMC", j.MC % ((3, 2, 8) if not THOROUGH else (3, 4, 10)) + j.mc(False, True, False, "none"), timeout=800)
    tlc_must_fail(ctx, "JobsMC", j.MC % (2, 4, 8) + j.mc(False, True, True, "retryNow"))
    tlc_must_fail(ctx, "JobsMC", j.MC % (4, 0, 12) + j.mc(False, False, False, "resumeRunning"))
    j.check(ctx, "C20", ["any", "any", "family", "schedule"])
