"""C03: the right node leads."""
from checks.cluster import *


def run(ctx):
    model(ctx, [("behind", 1, 0, 5, "FALSE"), ("othersIgnored", 1, 0, 5, "TRUE")], start="Empty")
    standard(ctx, ["elect", "heal", "vote", "sane"], "choice of the leader", forked=0.05, perma=0.5)
