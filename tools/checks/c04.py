"""C04: a leader that steps down ships everything it committed, then commits no more."""
from checks.cluster import *


def run(ctx):
    model(ctx, [("noLastShip", 1, 0, 5, "TRUE"), ("lateWrite", 1, 0, 5, "FALSE")], start="Empty")
    standard(ctx, ["ship", "late", "order", "sane"], "leaders that leave")
