"""Shared by C01-C06 and C29: clusters of real nodes, recorded and checked against ClusterTrace; and the exhaustive model."""
import random
import vlib
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS N = %d
 Start <- Start%s
 Perma = {%s}
 MaxCommits = %d
 MaxFaults = %d
 MaxChanges = %d
 Careful = %s
 MISTAKE = "%s"
CONSTRAINT Bound
INVARIANTS NothingBad OneLeader OneLeaderAtAll AllAgree PermaNeverLeads FollowsLeader ShippedBeforeLeaving
CHECK_DEADLOCK FALSE
"""


def exe():
    return build("cluster_driver", ["cluster_driver.cpp", "vtime.cpp"], wraps=["_Z8STimeNowv", "abort", "sleep"])


def model(ctx, mistakes, start="Empty"):
    """mistakes: (name, commits, faults, changes, careful)"""
    tlc_model(ctx, "SQLiteCluster", MC % (3, start, "", 1, 0, 5, "TRUE", "none"), timeout=800, heap="10g")
    if vlib.THOROUGH:
        tlc_model(ctx, "SQLiteCluster", MC % (3, start, "", 2, 0, 6, "TRUE", "none"), timeout=3000, heap="14g")
        tlc_model(ctx, "SQLiteCluster", MC % (3, start, "", 1, 1, 4, "FALSE", "none"), timeout=3000, heap="14g")
        tlc_model(ctx, "SQLiteCluster", MC % (3, start, "3", 1, 1, 5, "FALSE", "none"), timeout=3000, heap="14g")
    for name, commits, faults, changes, careful in mistakes:
        tlc_must_fail(ctx, "SQLiteCluster", MC % (3, start, "", commits, faults, changes, careful, name), timeout=600, heap="10g")


def workload(count, seed, prio=0.4, forked=0.0, lag=0.15, perma=0.3, strict=0.6, single=0.03, longer=1.0):
    r = random.Random(seed)
    lines = []
    for i in range(count):
        f = r.random() < forked
        n = 1 if r.random() < single else r.choice([2, 3, 3, 3, 4, 4, 5, 5, 6])
        if f:
            n = r.choice([3, 3, 4, 5, 5, 6])
        steps = 100 if n == 1 else int(r.choice([300, 500, 700]) * longer)
        o = []
        if f:
            o += ["forked=%d" % r.choice([1, 1, 2]), "who=%d" % r.randint(1, n)]
            o += r.choice([[], ["deep=%d" % r.choice([1, 5])], ["mainDeep=5"], ["mainDeep=1"], ["deep=4", "mainDeep=2"]])
            if r.random() < 0.2:
                o.append("mainSplit=1")
        elif r.random() < lag:
            o += ["lag=%d" % r.choice([2, 20, 120, 120, 350])]
            if r.random() < 0.6:
                o.append("behind=%d" % r.randint(1, min(n, 3)))
        if r.random() < prio:
            o.append("prio=1")
        if r.random() < 0.4:
            o.append("async=1")
        if n > 2 and r.random() < perma:
            o.append("perma=%d" % r.choice([1, 1, 2]))
        if r.random() < 0.15:
            o.append("tables=%d" % r.choice([1, 3]))
        if r.random() > strict:
            o.append("strict=0")
        lines.append("run %d %s %d %d %s" % (seed * 1000 + i, "f" if f else "x", n, steps, " ".join(o)))
    return lines


def drive(ctx, lines, rules, what):
    e = exe()
    constants = "CONSTANT Rules = {%s}" % ", ".join('"%s"' % x for x in rules)
    size = 170

    def attempt(ls, salt):
        """None, or (line, violation)"""
        for at in range(0, len(ls), size):
            part = ls[at:at + size]
            r = run_driver(e, args=[salt, 8, 60], stdin="\n".join(part) + "\n", timeout=500)
            if r.rc == 3:
                raise CheckError("driver reported a harness problem: " + r.err[-2000:])
            if r.timed_out or r.rc != 0:
                return part, Violation("%s: the cluster driver %s" % (what, "hung" if r.timed_out else "crashed"), dict(tail=r.out[-2000:], err=r.err[-2000:]))
            traces = parse_events(r.out)
            if len(traces) != len(part):
                raise CheckError("%s: %d traces for %d runs\n%s" % (what, len(traces), len(part), r.err[-1000:]))
            rej = validate(ctx, "ClusterTrace", traces, constants=constants, heap="10g")
            if rej is not None:
                t = traces[rej.trace_index]
                return [part[rej.trace_index]], Violation(
                    "%s: recorded behaviour is not allowed by ClusterTrace (%s): %s, event %d %s" % (
                        what, ",".join(rules), part[rej.trace_index], rej.line, json.dumps(rej.event)[:600]),
                    dict(run=part[rej.trace_index], salt=salt, rules=list(rules), trace=t[:rej.line + 1], detail=rej.detail))
            ctx.sample(dict(what=what, trace=traces[0][:8]))
            ctx.count("events", sum(len(t) for t in traces))
            ctx.count("runs", len(traces))
        return None

    bad = attempt(lines, SEED)
    if bad is None:
        return
    log("rejected: " + bad[1].msg[:500])
    # The schedules depend a little on the machine.  Whatever is wrong must show again: in runs like the one that failed, or elsewhere.
    again = attempt(bad[0] * (60 if len(bad[0]) == 1 else 1), SEED) or attempt(lines, SEED + 1) or attempt(lines, SEED + 2)
    if again is None:
        log("not repeated, so not reported")
        ctx.count("unrepeated_rejections")
        return
    raise again[1]


def standard(ctx, rules, what, count=130, **kw):
    if vlib.THOROUGH:
        for k in range(20):
            drive(ctx, workload(count, SEED * 50 + k, **kw), rules, what)
    else:
        drive(ctx, workload(count, SEED * 50, **kw), rules, what)
    ctx.assumptions += ["all nodes of a run live in one process, in virtual time; a proxy delivers one message at a time",
                        "the SQLite library is the stand-in described in DESIGN.md"]
