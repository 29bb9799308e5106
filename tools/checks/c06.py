"""C06: a node whose history diverged is detected and never mixed in."""
from checks.cluster import *


def run(ctx):
    model(ctx, [("noFork", 1, 0, 5, "FALSE")], start="Forked")
    standard(ctx, ["fork", "order", "heal", "sane"], "forked nodes", forked=0.75)
