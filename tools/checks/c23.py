"""C23: the cache returns the latest value written and stays within its size."""
import binascii
import vlib
from vlib import *
from checks.jobs import exe, matching

MC = """SPECIFICATION Spec
CONSTANT Names = {%s}
CONSTANT Max = %d
CONSTANT MaxOps = %d
CONSTANT MISTAKE = "%s"
INVARIANT Bounded Accounted NothingBad
CHECK_DEADLOCK FALSE
"""
NAMES = ["k", "k1", "k2", "K", "sess/1", "sess/2", "x'y", "\u00e9"]
VALS = ["v", "\u00e4", "'", "\u20ac\u20ac", "a b", "line\\n", "{\"j\":1}", "0x", "12", "  "]


def post(traces):
    for t in traces:
        names = set()
        for ev in t:
            names |= {r[0] for r in ev.get("cache", [])}
            if ev["e"] == "cmd":
                names.add(ev["req"].get("name", ""))
        for ev in t:
            if ev["e"] == "begin":
                ev["max"] = int(ev["max"])
            if ev["e"] != "cmd":
                continue
            q = ev["req"]
            ev["e"] = "read" if q["_verb"] == "ReadCache" else "write"
            ev["ok"], ev["lost"] = ev["code"].startswith("200"), ev["code"] == "ROLLED BACK"
            ev["entries"] = [dict(name=r[0], x=dict(len=int(r[1]), val=r[2])) for r in ev["cache"]]
            ev["size"] = int(ev["size"][0][0])
            h = lambda s: binascii.hexlify(s.encode("latin-1")).decode().upper()
            if ev["e"] == "read":
                ev["name"] = ev["head"].get("name", "")
                ev["val"] = h(ev["content"])
                ev["match"] = matching(names, [q.get("name", "")])
            else:
                v = q.get("value", "") or ev["body"]
                ev["name"], ev["x"] = q.get("name", ""), dict(len=len(v.encode("latin-1")), val=h(v))
                ev["gone"] = matching(names, [q["invalidateName"]]) if q.get("invalidateName") else []
            for k in ("req", "jobs", "cache", "ta", "tb", "journal", "head", "body", "content"):
                ev.pop(k, None)
    return traces


def script(r, n, steps):
    out = []
    for _ in range(n):
        mx = r.choice([12, 30, 30, 60, 200])
        out.append('begin {"-cache.max":"%d"}' % mx)
        names = r.sample(NAMES, r.randint(2, len(NAMES)))
        for _ in range(steps):
            x = r.random()
            if x < 0.40:
                out.append("cmd " + json.dumps(dict(_verb="ReadCache", name=r.choice(names + ["*", "k*", "sess/*", "k?", "[kK]", "nope"] if r.random() < 0.4 else names))))
            elif x < 0.97:
                d = dict(_verb="WriteCache", name=r.choice(names))
                v = (r.choice(VALS) + r.choice(["", "abc", "\u00fc"])) * r.choice([1, 1, 1, 2, 3, mx // 6, mx // 3])
                if r.random() < 0.05:
                    v = "z" * (mx + r.choice([-1, 0, 1, 5]))
                if r.random() < 0.02:
                    v = ""
                d["value" if r.random() < 0.6 and "\\n" not in v else "_body"] = v
                if r.random() < 0.15:
                    d["invalidateName"] = r.choice(names + ["*", "k*", "sess/*", "nope"])
                if r.random() < 0.12:
                    d["_rollback"] = "1"
                out.append("cmd " + json.dumps(d, ensure_ascii=False))
            else:
                out.append("restart")
    return "\n".join(out) + "\n"


def run(ctx):
    tlc_model(ctx, "CacheMC", MC % (("1, 2, 3", 4, 7, "none") if not THOROUGH else ("1, 2, 3, 4", 5, 9, "none")), timeout=900)
    for m in ("replaceForgets", "evictNewest", "rollbackForgets"):
        tlc_must_fail(ctx, "CacheMC", MC % ("1, 2, 3", 4, 7, m))
    n = 200
    for _ in range(1 if not THOROUGH else 15):
        drive_and_validate(ctx, exe(), script(ctx.rng, n, 60), "CacheTrace", post=post, constants='CONSTANT MISTAKE = "none"', expect_traces=n, what="commands of the Cache plugin", timeout=200)
    ctx.assumptions += ["one cache command at a time; values without zero bytes (SQLite refuses them in a statement)",
                        "names and values are checked byte by byte, patterns on ASCII names plus two that need quoting"]
