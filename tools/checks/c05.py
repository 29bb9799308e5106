"""C05: a lagging or restarted node catches up with everything and rejoins."""
from checks.cluster import *


def run(ctx):
    model(ctx, [("subEarly", 1, 0, 5, "FALSE")], start="Behind")
    standard(ctx, ["order", "heal", "sane"], "catching up", lag=0.6)
