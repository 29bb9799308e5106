"""C02: never two leaders, and a leader always had a majority."""
from checks.cluster import *


def run(ctx):
    model(ctx, [("oneShort", 1, 0, 5, "TRUE"), ("twoLeaders", 1, 0, 5, "TRUE"), ("othersIgnored", 1, 0, 5, "TRUE")], start="Empty")
    standard(ctx, ["vote", "sane"], "elections", forked=0.1)
