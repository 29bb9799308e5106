"""Shared by C07-C11: scripts for the SQLite driver and the preparation of what it records."""
import hashlib
import vlib
from vlib import *

VARIES = ["random()", "randomblob(8)", "date('now')", "time('now')", "datetime('now')", "julianday('now')", "strftime('%s', 'now')",
          "unixepoch()", "unixepoch('now')", "current_timestamp", "current_date", "current_time", "timediff('now', '2000-01-01')", "date()", "datetime()",
          "CURRENT_TIMESTAMP", "RANDOM()", "Julianday()", "1 + unixepoch()"]
SAME = ["1 + 1", "abs(-3)", "upper('a')", "date('2020-01-01')"]


def exe():
    return build("sqlite_driver", ["sqlite_driver.cpp"])


def rows(rs):
    def one(x):
        if x == "":
            return -999999
        try:
            return int(x)
        except ValueError:
            return -999998
    return [[one(x) for x in r] if isinstance(r, list) else [-999998] for r in rs]


def post(traces):
    for t in traces:
        maxof, preps, since, commits, one = {}, {}, 0, 0, None
        for ev in t:
            e = ev["e"]
            if e == "open":
                maxof[ev["h"]] = ev["max"]
            elif e == "copy":
                ev["max"] = maxof[ev["h"]] = maxof.get(ev.get("from"), 1)
            elif e == "r":
                ev["rows"] = rows(ev["rows"])
            elif e == "fn":
                ev["varies"] = ev["expr"] in VARIES
            elif e == "noop":
                ev["text"] = "PRAGMA noop_update=%s;" % ("ON" if ev["on"] else "OFF")
            elif e == "prep":
                preps[ev["h"]] = preps.get(ev["h"], 0) + 1
            elif e == "rollback":
                preps[ev["h"]] = 0
            elif e == "commit" and ev["res"] == "ok":
                commits += 1
                one = ev["h"] if preps.get(ev["h"], 0) == 1 else None
                preps[ev["h"]] = 0
            elif e in ("crash", "exit", "try"):
                commits = 9
                preps = {}
            elif e == "dump":
                ev["a"], ev["b"] = rows(ev["a"]), rows(ev["b"])
                ev["step"] = commits == 1 and one is not None
                ev["max"] = maxof.get(one, 0) if one is not None else 0
                js = ev["journal"]
                ok = all(isinstance(r, list) and len(r) == 3 and r[0].isdigit() for r in js)
                prev = ""
                prevn = 0
                if ok:
                    for n, h, q in js:
                        n = int(n)
                        if prevn and n == prevn + 1 or n == 1:
                            ok = ok and hashlib.sha1((("" if n == 1 else prev) + q).encode("latin-1")).hexdigest().upper() == h
                        prev, prevn = h, n
                ev["journal"] = [dict(id=int(r[0]), hash=r[1], q=r[2]) for r in js] if ok else []
                ev["chain"] = ok
                if not (e == "dump" and commits == 9):
                    commits = 0
                else:
                    commits = 0
                one = None
            elif e == "try":
                pass
            if e == "try":
                for s in ev["steps"]:
                    s["rows"] = rows(s["rows"])
    return traces


def op(rng, ops=("put", "put", "add", "del", "ins")):
    return "%s %s %d %d" % (rng.choice(ops), rng.choice("ab"), rng.randint(1, 3), rng.randint(0, 9))


class Gen:
    """Random programs of a few handles; knows which handle is inside a transaction and who may hold the lock."""

    def __init__(self, rng, nh=3, w=None):
        self.rng, self.nh, self.out = rng, nh, []
        self.intx, self.prep, self.lock, self.busy = {}, {}, None, None
        self.w = w or {}

    def start(self, maxj=100, tables=1, dict_=0):
        self.out += ["begin", "segment", "schema", "open 0 %d %d" % (maxj, tables)]
        if dict_:
            self.out.append("dict 7")
        for h in range(1, self.nh):
            self.out.append("copy %d 0" % h)

    def end(self, h):
        self.intx[h] = self.prep[h] = False
        if self.lock == h:
            self.lock = None

    def step(self):
        r, o = self.rng, self.out
        h = r.randrange(self.nh)
        if self.busy is not None:
            # someone waits for the lock: nothing of its own until the holder lets go
            while h == self.busy:
                h = r.randrange(self.nh)
        if not self.intx.get(h):
            x = r.random()
            if x < 0.12:
                o.append("r %d %s" % (h, r.choice(["get a 1", "all a", "cnt b", "pget b 2"])))
                return
            if x < 0.2 * self.w.get("local", 1):
                o.append("w %d local %s" % (h, op(r)))
                return
            if x < 0.22:
                o.append("rollback %d" % h)
                return
            if x < 0.25:
                o.append("w %d write %s" % (h, op(r)))   # outside a transaction
                return
            excl = r.random() < 0.25 and self.busy is None
            if r.random() < 0.04 and (not excl or self.lock is None):
                o.extend(["fail 10 BEGIN", "tx %d %s" % (h, "excl" if excl else "shared"), "fail 0"])
                return
            if self.lock is not None and excl and self.lock != h:
                self.busy = h
            o.append("tx %d %s" % (h, "excl" if excl else "shared"))
            self.intx[h] = True
            if excl and self.busy != h:
                self.lock = h
            return
        x = r.random()
        if self.prep.get(h):
            if x < 0.75:
                k = " force" if r.random() < 0.15 else ""
                o.append("commit %d%s" % (h, k))
                if r.random() < 0.02 or k:
                    o.append("rollback %d" % h)
                    self.end(h)
                    self.release()
                else:
                    # it may have been a conflict: a rollback either way does no harm
                    o.append("rollback %d" % h)
                    self.end(h)
                    self.release()
            else:
                o.append("rollback %d" % h)
                self.end(h)
                self.release()
            return
        if x < 0.33:
            q = r.choice(["get a %d" % r.randint(1, 3), "get b %d" % r.randint(1, 3), "pget a %d" % r.randint(1, 3), "pget b %d" % r.randint(1, 3), "all a", "all b",
                          "cnt a", "cnt b", "sub a", "kv b", "view"])
            o.append("r %d %s" % (h, q))
            if r.random() < 0.2:
                o.append("r %d %s" % (h, q))
        elif x < 0.68:
            kind = r.choice(["write", "write", "wres", "idem", "unmod", "pwrite", "pidem"])
            n = 1 if kind[0] == "p" else r.choice([1, 1, 1, 2, 3])
            ops = [op(r, ("put", "add", "del") if n > 1 else ("put", "put", "add", "del", "ins", "bad", "big")) for _ in range(n)]
            if kind[0] == "p":
                ops = [op(r, ("put", "add", "del", "ins"))]
            o.append("w %d %s %s" % (h, kind, " ".join(ops)))
        elif x < 0.71:
            o.append("w %d local %s" % (h, op(r)))   # refused inside a transaction
        elif x < 0.74:
            o.append("tx %d %s" % (h, "shared" if self.busy is not None or self.lock not in (None, h) else r.choice(["shared", "excl"])))  # refused: already inside
            self.end(h)
            self.release()
        elif x < 0.80:
            o.append("rollback %d" % h)
            self.end(h)
            self.release()
        elif x < 0.83:
            o.append("fail 13 INSERT INTO JOURNAL")
            if self.lock in (None, h):
                o.append("prep %d" % h)
                self.end(h)
                self.release()
            o.append("fail 0")
        elif x < 0.84 and self.w.get("slow"):
            ref = r.random() < 0.3
            o += ["abortref %d 1" % h if ref else "timeout %d 3000" % h, "w %d write put a 1 1 heavy a 1 0" % h if not ref else r.choice(["w %d write put a 1 1", "r %d all a"]) % h,
                  "abortref %d 0" % h if ref else "timeout %d 0" % h, "rollback %d" % h]
            self.end(h)
            self.release()
            o += ["fn %d random()" % h]
        elif x < 0.842 and h != 0:
            o += ["close %d" % h, "copy %d 0" % h]
            self.end(h)
            self.release()
        elif x < 0.85:
            o += ["fail 1 INSERT OR REPLACE", "w %d write put a 1 5" % h, "fail 0"]
        elif x < 0.88:
            o.append("prep %d 20 abort" % h)
            o.append("rollback %d" % h)
            self.end(h)
            self.release()
        else:
            if r.random() < 0.1:
                o.append("enable %d 0" % h if False else "pop %d" % h)
            if r.random() < 0.2:
                m = r.randint(0, 2)
                if r.random() < 0.7:
                    o.append("notify %d 1 %s" % (h, " ".join(op(r, ("put", "add")) for _ in range(m))))
                else:
                    o.append("notify %d 0" % h)
            o.append("prep %d" % h)
            if self.lock in (None, h):
                self.prep[h] = True
                self.lock = h

    def release(self):
        if self.lock is None and self.busy is not None:
            self.lock, self.busy = self.busy, None

    def drain(self):
        # whoever waits gets the lock when its holder ends
        for _ in range(2):
            for h in ([self.lock] if self.lock is not None else []) + list(range(self.nh)):
                if h != self.busy and self.intx.get(h):
                    self.out.append("rollback %d" % h)
                    self.end(h)
                    self.release()

    def look(self):
        self.out += ["pop 0", "get 0"]


def programs(rng, n, length, **kw):
    out = []
    for _ in range(n):
        g = Gen(rng, rng.choice([2, 3, 3]))
        g.start(maxj=rng.choice([2, 5, 100]), tables=rng.choice([0, 1, 3]), dict_=rng.random() < 0.4)
        for _ in range(length):
            g.step()
        g.drain()
        g.look()
        out += g.out
    return out


def conc(rng, n, threads=4, each=12, crash=False):
    out = []
    for _ in range(n):
        out += ["begin", "segment", "schema", "open 0 %d %d" % (rng.choice([3, 100]), rng.choice([0, 2])), "conc %d %d" % (threads, each), "get 0", "close 0"]
    return out


def crashes(rng, n, length, every=1):
    """The same program ended before each of its statements in turn; then reopened, looked at, and gone on with."""
    out = []
    k = 0
    for _ in range(n):
        g = Gen(rng, 2)
        mx, tb = rng.choice([2, 4, 100]), rng.choice([0, 1, 2])
        g.start(mx, tb, rng.random() < 0.3)
        for _ in range(length):
            g.step()
        g.drain()
        g.look()
        prog = g.out[2:]
        g2 = Gen(rng, 2)
        m2, t2 = rng.choice([mx, 3, 50]), rng.choice([tb, tb, tb + 1, 3])
        g2.start(m2, t2, rng.random() < 0.3)
        after = ["segment", "schema", g2.out[3], "dump", "get 0"] + g2.out[4:]
        g2.out = []
        for _ in range(8):
            g2.step()
        g2.drain()
        g2.look()
        after += g2.out
        points = rng.sample(range(1, 40 + length * 5), every)
        for p in points:
            out += ["begin", "segment crash %d" % p] + prog + after
            k += 1
    return out, k


def kills(rng, n):
    out = []
    for _ in range(n):
        m = rng.choice([3, 100])
        out += ["begin", "segment kill %d" % rng.randint(15, 120), "schema", "open 0 %d 1" % m, "conc 4 400", "segment", "schema", "open 0 %d 1" % m, "dump", "get 0",
                "tx 0 shared", "w 0 write put a 1 1", "prep 0", "commit 0", "rollback 0", "get 0"]
    return out


def journal(rng, n, commits):
    """Many commits under changing journal settings, with everything looked up again and again."""
    out = []
    for _ in range(n):
        out += ["begin"]
        left = commits
        while left > 0:
            mx, tb = rng.choice([1, 2, 3, 5, 20]), rng.choice([0, 1, 3])
            out += ["segment", "schema", "open 0 %d %d" % (mx, tb), "copy 1 0", "dump", "get 0"]
            if rng.random() < 0.5:
                out.append("dict 7")
            for _ in range(min(left, rng.choice([4, 9, 25]))):
                left -= 1
                h = rng.randrange(2)
                out += ["tx %d shared" % h]
                for _ in range(rng.choice([0, 1, 1, 2])):
                    out.append("w %d %s %s" % (h, rng.choice(["write", "unmod", "pwrite"]), op(rng, ("put", "add", "del", "big")).replace("big", "put")))
                x = rng.random()
                out += ["prep %d" % h]
                out += ["rollback %d" % h] if x < 0.1 else ["commit %d" % h, "rollback %d" % h]
                if rng.random() < 0.3:
                    f = rng.randint(1, commits)
                    out.append("range 1 %d %d" % (f, rng.choice([0, f, f + 3, 999])))
                if rng.random() < 0.1:
                    out.append("dict %d" % rng.choice([0, 7]))
                if rng.random() < 0.2:
                    out += ["get 0"]
            out += ["get 0", "range 0 1 0"]
    return out


def backlog(rng, n):
    """A backlog made by a large journal, then worked off under a small one."""
    out = []
    for g in range(n):
        # with more journals than the number of entries trimmed at once, entries of one journal are further apart than that
        tb = rng.choice([0, 1]) if g else 13
        out += ["begin", "segment", "schema", "open 0 1000 %d" % tb]
        for i in range(rng.choice([30, 45]) if g else 60):
            out += ["tx 0 shared", "w 0 write put a %d %d" % (i % 5, i), "prep 0", "commit 0"]
        out += ["segment", "schema", "open 0 %d %d" % (rng.choice([1, 4]), rng.choice([tb, tb + 1])), "get 0"]
        for i in range(25):
            out += ["tx 0 shared", "w 0 write add a %d 1" % (i % 5), "prep 0", "commit 0"]
        out += ["get 0", "range 0 1 0"]
    return out


def reads(rng, n, length):
    out = []
    for _ in range(n):
        out += ["begin", "segment", "schema", "open 0 100 0", "copy 1 0", "tx 0 shared", "w 0 write put a 1 1 put a 2 5 put b 1 3", "prep 0", "commit 0", "rollback 0"]
        intx = [False, False]
        for _ in range(length):
            h = 0 if rng.random() < 0.75 else 1
            if not intx[h]:
                out.append("tx %d shared" % h)
                intx[h] = True
                continue
            x = rng.random()
            q = rng.choice(["get a 1", "get a 2", "pget a 1", "pget a 2", "pget b 1", "nget a 1", "nget b 1", "all a", "all b", "cnt a", "sub a", "kv a", "view"])
            if x < 0.06 and intx[h]:   # outside a transaction, while another handle commits
                o = 1 - h
                out += ["rollback %d" % h, "r %d %s" % (h, q)]
                intx[h] = False
                if not intx[o]:
                    out += ["tx %d shared" % o]
                out += ["w %d write %s" % (o, op(rng, ("put", "add", "del"))), "prep %d" % o, "commit %d" % o, "rollback %d" % o]
                intx[o] = False
                out += ["r %d %s" % (h, q), "w %d local %s" % (o, op(rng, ("put", "add", "del"))), "r %d %s" % (h, q)]
            elif x < 0.5:
                out.append("r %d %s" % (h, q))
            elif x < 0.62:
                out.append("fn %d %s" % (h, rng.choice(VARIES + SAME)))
            elif x < 0.85:
                kind = rng.choice(["write", "idem", "unmod", "pwrite", "pidem", "wres"])
                out += ["r %d %s" % (h, q), "w %d %s %s" % (h, kind, op(rng, ("put", "add", "del", "ins"))), "r %d %s" % (h, q)]
            elif x < 0.88:   # a list of statements that fails part-way: what it did is seen, and only a rollback is left
                t, key = rng.choice("ab"), rng.randint(1, 3)
                out += ["r %d %s" % (h, q), "w %d %s put %s %d %d %s" % (h, rng.choice(["write", "idem", "unmod", "wres"]), t, key, rng.randint(0, 9),
                        rng.choice(["ins %s %d 3" % (t, key), "bad a 1 1"])), "r %d %s" % (h, q), "r %d %s" % (h, "get %s %d" % (t, key)), "rollback %d" % h, "r %d %s" % (h, q)]
                intx[h] = False
            elif x < 0.9:
                out += ["r %d %s" % (h, q), "rollback %d" % h, "r %d %s" % (h, q)]
                intx[h] = False
            elif x < 0.93:
                out += ["r %d %s" % (h, q), "rollback %d" % h, "tx %d shared" % h, "r %d %s" % (h, q)]
            else:
                out += ["r %d %s" % (h, q), "prep %d" % h, "commit %d" % h, "rollback %d" % h]
                intx[h] = False
                if rng.random() < 0.6:
                    out += ["r %d %s" % (h, q)]
        for h in (0, 1):
            out += ["timeout %d 3000" % h, "tx %d shared" % h] if not intx[h] else ["timeout %d 3000" % h]
            out += ["w %d write put a 1 1" % h, "w %d write heavy a 1 0" % h, "timeout %d 0" % h, "rollback %d" % h, "fn %d random()" % h] if rng.random() < 0.3 else \
                   ["timeout %d 0" % h, "rollback %d" % h]
    return out


def restricted(rng, n, length):
    out = []
    for _ in range(n):
        out += ["begin", "segment", "schema", "open 0 100 0", "copy 1 0", "tx 0 shared", "w 0 write put a 1 1 put a 2 5 put b 1 3", "prep 0", "commit 0", "rollback 0"]
        for _ in range(length):
            x = rng.random()
            h = rng.randrange(2)
            if x < 0.3:      # a whitelist, in and out of transactions
                t = []
                for c in ("a", "b"):
                    cols = rng.choice(["", "k", "v", "k,v"])
                    if cols:
                        t += [c, cols]
                if rng.random() < 0.3:
                    t += ["va", "k,v"]
                tx = rng.random() < 0.6
                if tx:
                    out.append("tx %d shared" % h)
                    if rng.random() < 0.5:
                        out.append("w %d write %s" % (h, op(rng)))
                        if out[-1].split()[3] == "ins":
                            out.pop()
                out.append("white %d %s" % (h, " ".join(t) or "c k"))
                for _ in range(rng.randint(1, 4)):
                    out.append("r %d %s" % (h, rng.choice(["get a 1", "get b 1", "pget a 2", "all a", "all b", "cnt a", "sub a", "sub b", "kv b", "view", "write a 7"])))
                if tx and rng.random() < 0.5:
                    out.append("w %d %s %s" % (h, rng.choice(["write", "idem", "unmod"]), op(rng, ("put", "add", "del"))))
                out.append("white %d off" % h)
                if tx:
                    out += rng.choice([["prep %d" % h, "commit %d" % h], []]) + ["rollback %d" % h]
            elif x < 0.55:   # updates that do nothing
                inside = rng.random() < 0.7
                out += ["tx %d shared" % h, "noop %d 1" % h] if inside else ["noop %d 1" % h, "tx %d shared" % h]
                for _ in range(rng.randint(1, 4)):
                    out.append(rng.choice(["w %d %s %s" % (h, rng.choice(["write", "idem", "wres", "pidem", "pwrite"]), op(rng, ("put", "add", "del"))), "r %d all a" % h, "r %d all b" % h]))
                out += rng.choice([["noop %d 0" % h, "w %d write %s" % (h, op(rng, ("put", "add"))), "prep %d" % h, "commit %d" % h, "rollback %d" % h],
                                   ["prep %d" % h, "commit %d" % h, "rollback %d" % h, "noop %d 0" % h], ["rollback %d" % h, "noop %d 0" % h]])
                out += ["tx %d shared" % h, "w %d write %s" % (h, op(rng, ("put", "add"))), "prep %d" % h, "commit %d" % h, "rollback %d" % h]
            elif x < 0.8:    # replaced inserts
                out += ["rewrite %d 1 %s" % (h, op(rng, ("put", "add", "del", "ins", "bad"))), "tx %d %s" % (h, rng.choice(["shared", "excl"]))]
                for _ in range(rng.randint(1, 4)):
                    k = rng.choice(["write", "idem", "wres", "unmod"])
                    out.append(rng.choice(["w %d %s %s" % (h, k, op(rng, ("put", "put", "ins"))), "w %d %s %s" % (h, k, op(rng, ("add", "del"))), "r %d all a" % h]))
                if rng.random() < 0.5:
                    out += ["rewrite %d 0" % h, "w %d write put a 3 3" % h]
                out += rng.choice([["prep %d" % h, "commit %d" % h], ["prep %d" % h, "commit %d" % h], []]) + ["rollback %d" % h, "rewrite %d 0" % h]
            elif x < 0.9:
                out.append("w %d local %s" % (h, op(rng, ("put", "add", "del", "ins", "bad"))))
                if rng.random() < 0.3:
                    out += ["tx %d shared" % h, "w %d local put a 1 9" % h, "w %d write put b 2 2" % h, "prep %d" % h, "commit %d" % h, "rollback %d" % h]
            else:
                out += ["qonly %d 1" % h, "tx %d shared" % h, "r %d write a 8" % h, "w %d write put a 1 4" % h, "r %d all a" % h, "rollback %d" % h, "qonly %d 0" % h]
            if rng.random() < 0.2:
                out += ["pop 0", "get 0"]
        out += ["pop 0", "get 0", "dump"]
    return out


def check(ctx, script, what, expect=None, timeout=85):
    return drive_and_validate(ctx, exe(), "\n".join(script) + "\n", "DatabaseTrace", det=False, args=[SEED], what=what, post=post, expect_traces=expect, timeout=timeout * (6 if THOROUGH else 1))


MC = """SPECIFICATION Spec
CONSTANTS Handles = {%s}
 Cells = {1, 2}
 MaxTx = %d
 MaxCrash = %d
 MISTAKE = "%s"
INVARIANTS Chain InStep Owner SentIsStored AllSent Serial NoneAfter Holder
%s
CHECK_DEADLOCK FALSE
"""


def design(ctx, crash, mistakes, live=False):
    """The commit protocol itself, exhaustively for a few transactions; and with a mistake in it, which must be noticed."""
    tlc_model(ctx, "DatabaseImpl", MC % ("1, 2", 3 if not THOROUGH else 4, crash if not THOROUGH else crash + 1, "none", ""), timeout=800)
    if THOROUGH:
        tlc_model(ctx, "DatabaseImpl", MC % ("1, 2, 3", 3, crash, "none", ""), timeout=800)
    if live:
        tlc_model(ctx, "DatabaseImpl", MC % ("1, 2", 2 if not THOROUGH else 3, 1, "none", "PROPERTIES Finishes"), timeout=800)
    for m in mistakes:
        tlc_must_fail(ctx, "DatabaseImpl", MC % ("1, 2", 3, crash, m, ""))


ASSUME = ["the stock SQLite with a stand-in for BEGIN CONCURRENT (conflicts found per table) in place of Bedrock's branch of SQLite",
          "SQLite itself keeps a transaction atomic and durable"]

CACHE = """SPECIFICATION Spec
CONSTANTS MaxV = %d
 MISTAKE = "%s"
INVARIANTS NeverStale Dropped
CHECK_DEADLOCK FALSE
"""
CACHE_MISTAKES = ("write", "rollback", "commit", "vary", "params", "outside")

RESTR = """SPECIFICATION Spec
CONSTANTS MaxOps = %d
 MISTAKE = "%s"
INVARIANTS SameThere NoLocal Refused
PROPERTIES NotOriginal
CHECK_DEADLOCK FALSE
"""
RESTR_MISTAKES = ("noopText", "original", "both", "local", "white", "skip")


def toggles(rng, n):
    out = []
    for _ in range(n):
        out += ["begin", "segment", "schema", "open 0 100 %d" % rng.choice([0, 2]), "conc 5 30 toggle", "get 0", "close 0"]
    return out
