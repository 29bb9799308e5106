"""C29: changing priorities."""
from checks.cluster import *


def run(ctx):
    model(ctx, [("behind", 1, 0, 5, "FALSE")], start="Empty")
    standard(ctx, ["prio", "vote", "elect", "order", "heal", "sane"], "changes of priority", prio=0.9, perma=0.4)
