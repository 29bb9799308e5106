"""C01: all nodes commit the same transactions in the same order."""
from checks.cluster import *


def run(ctx):
    model(ctx, [("shipOne", 2, 0, 6, "TRUE"), ("subEarly", 1, 0, 5, "FALSE"), ("oneShort", 1, 0, 5, "TRUE")], start="Empty")
    standard(ctx, ["order", "ship", "late", "heal", "sane"], "replicated transactions", forked=0.08)
