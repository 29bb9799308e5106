"""Shared by C20-C22: command sequences for the Jobs plugin and the preparation of what the driver records."""
import datetime, fnmatch, json, re
import vlib
from vlib import *

ASSUME = ["jobs with mockRequest are not exercised", "one command at a time on a node: isolation and commit order are C07-C11's subject",
          "times are multiples of half a second; month and year modifiers are not used in repeat rules"]
BASE = datetime.datetime(2024, 1, 7)
UNITS = {"SECOND": 2, "MINUTE": 120, "HOUR": 7200, "DAY": 172800}


def exe():
    return build("plugin_driver", ["plugin_driver.cpp", "vtime.cpp"], wraps=["_Z8STimeNowv", "_Z21SCURRENT_TIMESTAMP_MSB5cxx11v"], flags=["-fno-access-control"])


def tick(s):
    if s == "":
        return -1
    for f in ("%Y-%m-%d %H:%M:%S.%f", "%Y-%m-%d %H:%M:%S"):
        try:
            d = datetime.datetime.strptime(s, f) - BASE
        except ValueError:
            continue
        return int(d.total_seconds() * 2) if abs(d.days) < 6000 else -3
    return -3


def stamp(t):
    return (BASE + datetime.timedelta(seconds=t // 2)).strftime("%Y-%m-%d %H:%M:%S")


def mod(p):
    p = p.strip().upper()
    m = re.fullmatch(r"([+-])(\d{1,8}) SECONDS?", p) or re.fullmatch(r"([+-])(\d{1,3}) (DAY|HOUR|MINUTE)S?", p)
    if m:
        n = int(m[2]) * (UNITS[m[3]] if m.lastindex == 3 else 2)
        return dict(k="add", n=-n if m[1] == "-" else n)
    if p == "START OF DAY":
        return dict(k="day", n=0)
    if p == "START OF HOUR":
        return dict(k="hour", n=0)
    m = re.fullmatch(r"WEEKDAY ([0-6])", p)
    if m:
        return dict(k="weekday", n=int(m[1]))
    return None


def rep(s):
    """(rule, well-formed)"""
    no = dict(kind="none", mods=[])
    s = s.strip().upper()
    if s == "":
        return no, True
    if s in ("HOURLY", "DAILY", "WEEKLY"):
        return dict(kind=s, mods=[]), True
    parts = [x.strip() for x in s.split(",") if x.strip()]
    if len(parts) < 2 or parts[0] not in ("SCHEDULED", "STARTED", "FINISHED"):
        return dict(no, kind="bad"), False
    ms = [mod(p) for p in parts[1:]]
    if None in ms:
        return dict(no, kind="bad"), False
    return dict(kind=parts[0], mods=ms), True


def retry(s):
    m = mod(s) if s else dict(n=0)
    return (m["n"], True) if m else (0, False)


def data(x):
    d = dict(v=-1, rac=-9, onr=-1, **{"del": False})
    if isinstance(x, str):
        if x == "":
            return d
        try:
            x = json.loads(x)
        except ValueError:
            return dict(d, v=-99)
    if not isinstance(x, dict):
        return dict(d, v=-99)
    for k, v in x.items():
        if k == "v" and isinstance(v, int):
            d["v"] = v
        elif k == "retryAfterCount" and isinstance(v, int):
            d["rac"] = v
        elif k == "originalNextRun":
            d["onr"] = tick(v)
        elif k == "delete":
            d["del"] = v in (True, "true")
        else:
            d["v"] = -98
    return d


def num(s, dflt=0):
    try:
        return int(s)
    except (ValueError, TypeError):
        return dflt


def matching(names, pats):
    return sorted(n for n in names if any(fnmatch.fnmatchcase(n, p) for p in pats))


def post(traces):
    for t in traces:
        ids, names = {}, set()

        def no(i):
            i = str(i)
            if i in ("0", ""):
                return 0
            return ids.setdefault(i, len(ids) + 1)
        for ev in t:
            for r in ev.get("jobs", []):
                names.add(r[3])
        for ev in t:
            if ev["e"] != "cmd":
                continue
            q, body = ev["req"], None
            ev["now"] = ev["ms"] // 500
            ev["lost"] = ev["code"] == "ROLLED BACK"
            ev["ok"] = ev["code"].startswith("200")
            try:
                body = json.loads(ev["content"]) if ev["content"] else {}
            except ValueError:
                body = {}
            js = []
            for r in ev["jobs"]:
                js.append(dict(id=no(r[0]), j=dict(created=tick(r[1]), state=r[2], name=r[3], next=tick(r[4]), last=tick(r[5]), rep=rep(r[6])[0], d=data(r[7]),
                                                   prio=num(r[8], -9), parent=no(r[9]), ra=retry(r[10])[0])))
            ev["jobs"] = js
            has = lambda k: k in q
            g = lambda k: q.get(k, "")
            verb = q["_verb"]
            up = dict(id=no(g("jobID")), hasd=g("data") != "", d=data(g("data")), hasprio=has("jobPriority"), prio=num(g("jobPriority")),
                      next=tick(g("nextRun")), name=g("name"))
            if verb in ("GetJob", "GetJobs"):
                ev["verb"] = "get"
                pats = [x.strip() for x in g("name").split(",") if x.strip()]
                ev["q"] = dict(match=[n for n in sorted(names) if n in pats] if len(pats) > 1 else matching(names, [g("name")]), n=max(1, num(g("numResults"))),
                               prio=num(g("jobPriority")) if has("jobPriority") else -1)
                l = body.get("jobs", []) if verb == "GetJobs" else ([body] if body else [])
                l = json.loads(l) if isinstance(l, str) else l
                ev["ret"] = []
                for j in l if ev["ok"] else []:
                    kids = {k: [no(c["jobID"]) for c in j.get(k, [])] for k in ("finishedChildJobs", "cancelledChildJobs")}
                    ev["ret"].append(dict(id=no(j.get("jobID", 0)), name=str(j.get("name")), d=data(j.get("data", "")), prio=num(j.get("priority")), parent=no(j.get("parentJobID", 0)),
                                          next=tick(j.get("nextRun", "")), last=tick(j.get("lastRun", "")), pdata=data(j.get("parentData", "")),
                                          fin=kids["finishedChildJobs"], can=kids["cancelledChildJobs"]))
            elif verb in ("CreateJob", "CreateJobs"):
                ev["verb"] = "create"
                rs = []
                for r in [q] if verb == "CreateJob" else json.loads(g("jobs")):
                    h = {k: (v if isinstance(v, str) else json.dumps(v, separators=(",", ":"))) for k, v in r.items()}
                    rr, ok = rep(h.get("repeat", ""))
                    ra, raok = retry(h.get("retryAfter", ""))
                    rs.append(dict(name=h.get("name", ""), d=data(h.get("data", "")), dok=h.get("data", "") == "" or data(h["data"])["v"] != -99, rep=rr, repok=ok, ra=ra, raok=raok,
                                   prio=num(h.get("jobPriority", "500"), -5), first=tick(h.get("firstRun", "")), unique=h.get("unique") == "true",
                                   over=h.get("overwrite", "") in ("", "true"), parent=no(h.get("parentJobID", "0"))))
                ev["rs"] = rs
                got = ([body["jobID"]] if "jobID" in body else []) if verb == "CreateJob" else body.get("jobIDs", [])
                got = json.loads(got) if isinstance(got, str) and got.startswith("[") else got
                ev["newids"] = [no(x) for x in got] if ev["ok"] else []
            elif verb in ("FinishJob", "RetryJob"):
                ev["verb"] = "finish"
                ev["q"] = dict(up, retry=verb == "RetryJob", delay=num(g("delay")), ignoreRepeat=g("ignoreRepeat") == "true")
            elif verb in ("CancelJob", "FailJob", "DeleteJob", "QueryJob"):
                ev["verb"] = verb[:-3].lower()
                ev["q"] = dict(up, hasd=has("data"))
                ev["shown"] = body.get("state", "")
            elif verb == "UpdateJob":
                rr, ok = rep(g("repeat"))
                ev["verb"] = "update"
                ev["q"] = dict(up, rep=rr, repok=ok, clear=num(g("shouldClearRepeat")) != 0)
            elif verb == "RequeueJobs":
                ev["verb"] = "requeue"
                ev["q"] = dict(ids=[no(x.strip()) for x in g("jobIDs").split(",")], name=g("name"), dec=g("decrementFailures") == "true")
            elif verb == "CrashBedrockJob":
                ev["verb"] = "crash"
                ev["names"] = matching(names, [x.strip() for x in g("names").split(",")])
            elif verb == "ClearCrashedBedrockJobs":
                ev["verb"] = "clear"
            else:
                ev["verb"] = "other"
            ev.setdefault("q", {})
            for k in ("req", "cache", "size", "ta", "tb", "journal", "head", "body", "content"):
                ev.pop(k, None)
    return traces


NAMES = ["a", "b", "a/c", "manual/x"]
REPS = ["HOURLY", "DAILY", "weekly", "SCHEDULED, +1 HOUR", "SCHEDULED, +30 MINUTES", "scheduled, +5 HOURS", "STARTED, +10 SECONDS", "FINISHED, +2 MINUTES", "SCHEDULED, +1 DAY, START OF DAY",
        "FINISHED, +1 HOUR, START OF HOUR", "SCHEDULED, +1 DAY, WEEKDAY 3, START OF DAY, +6 HOURS", "SCHEDULED, +2 HOURS, -15 MINUTES", "SCHEDULED, +40 MINUTES, START OF HOUR",
        "STARTED, WEEKDAY 1, +3 HOURS", "SCHEDULED, +7 SECONDS", "SCHEDULED, +4 HOURS", "SCHEDULED, +239 MINUTES"]
BADREPS = ["SOMETIMES", "SCHEDULED", "SCHEDULED, +1 FORTNIGHT", "NEVER, +1 HOUR"]


class Gen:
    def __init__(self, rng, focus):
        self.r, self.focus, self.out, self.t, self.v = rng, focus, [], 36000 * 2, 0
        r = rng.random
        fam, sch = (3.0, 0.5) if focus == "family" else (0.3, 3.0) if focus == "schedule" else (1.0, 1.0)
        self.w = dict(create=5, createchild=4 * fam, creates=1, get=9, finish=5, retry=2 * (0.5 + sch), fail=0.7, cancel=1.2 * fam, delete=0.8, update=0.8 * sch, requeue=0.5, query=0.3,
                      crash=0.15, clear=0.2, advance=5 * (0.5 + sch), restart=0.15)
        for k in self.w:
            self.w[k] *= 0.3 + 1.4 * r()
        self.prep = 0.1 * sch + 0.1 * r()      # how many jobs repeat
        self.pra = 0.1 + 0.5 * r()             # ... have a retryAfter
        self.puniq = 0.25 * (1 if focus != "family" else 0.4)

    def cmd(self, verb, **kw):
        r = self.r.random()
        d = dict(_verb=verb, **{k: str(v) for k, v in kw.items()})
        if r < 0.02:
            d["_rollback"] = "1"
        self.out.append("cmd " + json.dumps(d))

    def job(self, child=False):
        r = self.r
        j = dict(name=r.choice(NAMES[:r.choice([2, 3, 4])]))
        if r.random() < 0.5:
            self.v += 1
            j["data"] = '{"v":%d}' % (self.v if r.random() < 0.7 else 1)
        elif r.random() < 0.05:
            j["data"] = r.choice(["{}", "[1]", "x"])
        if r.random() < 0.5:
            j["jobPriority"] = r.choice([0, 250, 500, 500, 750, 850, 1000] + ([501] if r.random() < 0.1 else []))
        if r.random() < 0.3:
            j["firstRun"] = stamp(self.t + r.choice([-20000, -20, 0, 2, 4, 20, 60, 7200]))
        if r.random() < self.prep:
            j["repeat"] = r.choice(REPS if r.random() < 0.93 else BADREPS)
        if r.random() < self.pra:
            j["retryAfter"] = r.choice(["+1 SECOND", "+5 SECONDS", "+1 MINUTE", "+1 HOUR"] + (["soon"] if r.random() < 0.1 else []))
        if r.random() < self.puniq:
            j["unique"] = "true"
            if r.random() < 0.4:
                j["overwrite"] = r.choice(["true", "false"])
        if child:
            j["parentJobID"] = "@%s%d" % (r.choice("ttttpppacqr"), r.randrange(40))
        return j

    def step(self):
        r = self.r
        k = r.choices(list(self.w), list(self.w.values()))[0]
        i = lambda s: "@%s%d" % (r.choice(s), r.randrange(40))
        if k in ("create", "createchild"):
            self.cmd("CreateJob", **self.job(k == "createchild"))
        elif k == "creates":
            js = [self.job(r.random() < 0.5 and self.focus == "family") for _ in range(r.randint(1, 3))]
            self.cmd("CreateJobs", jobs=json.dumps([{a: str(b) for a, b in j.items()} for j in js]))
        elif k == "get":
            kw = dict(name=r.choice(["*", "*", "*", "a", "a*", "[ab]", "?", "a,b", "b,a/c,zz", "manual*", "zz"]))
            if r.random() < 0.4:
                kw["jobPriority"] = r.choice([0, 250, 500, 500, 750, 1000]) if r.random() < 0.6 else 500
                if r.random() < 0.03:
                    kw["jobPriority"] = 3
            if r.random() < 0.06:
                kw["_failreply"] = "1"
            if r.random() < 0.5:
                self.cmd("GetJob", **kw)
            else:
                self.cmd("GetJobs", numResults=r.choice([1, 2, 3, 5, 10]), **kw)
        elif k in ("finish", "retry"):
            kw = dict(jobID=i("rrrrrrrddddtta"))
            if r.random() < 0.25:
                self.v += 1
                kw["data"] = '{"v":%d}' % self.v if r.random() < 0.8 else '{"delete":true}'
            if k == "finish":
                if r.random() < 0.04:
                    kw["ignoreRepeat"] = "true"
                self.cmd("FinishJob", **kw)
            else:
                if r.random() < 0.3:
                    kw["ignoreRepeat"] = "true"
                x = r.random()
                if x < 0.6:
                    kw["delay"] = r.choice([0, 1, 5, 60, 3600, -1])
                elif x < 0.9:
                    kw["nextRun"] = stamp(self.t + r.choice([-20, 0, 2, 20, 7200]))
                if r.random() < 0.3:
                    kw["name"] = r.choice(NAMES)
                if r.random() < 0.3:
                    kw["jobPriority"] = r.choice([0, 250, 500, 750, 850, 1000, 7])
                self.cmd("RetryJob", **kw)
        elif k == "fail":
            self.cmd("FailJob", jobID=i("rrrddda"), **(dict(data='{"v":77}') if r.random() < 0.3 else {}))
        elif k == "cancel":
            self.cmd("CancelJob", jobID=i("ccccccfa"))
        elif k == "delete":
            self.cmd("DeleteJob", jobID=i("aqcf"))
        elif k == "update":
            kw = dict(jobID=i("rraq"), data='{"v":%d}' % r.randint(100, 120))
            if r.random() < 0.4:
                kw["repeat"] = r.choice(REPS if r.random() < 0.9 else BADREPS)
            if r.random() < 0.3:
                kw["nextRun"] = stamp(self.t + r.choice([-20, 0, 20]))
            if r.random() < 0.3:
                kw["jobPriority"] = r.choice([0, 500, 1000, 9])
            if r.random() < 0.15:
                kw["shouldClearRepeat"] = 1
            self.cmd("UpdateJob", **kw)
        elif k == "requeue":
            kw = dict(jobIDs=",".join(sorted(set(i("rrrrraf") for _ in range(r.choice([1, 1, 2]))))))
            if r.random() < 0.3:
                kw["name"] = r.choice(NAMES)
            if r.random() < 0.5:
                kw["decrementFailures"] = "true"
            self.cmd("RequeueJobs", **kw)
        elif k == "query":
            self.cmd("QueryJob", jobID=i("a"))
        elif k == "crash":
            self.cmd("CrashBedrockJob", names=r.choice(["b", "a*", "manual*,b"]))
        elif k == "clear":
            self.cmd("ClearCrashedBedrockJobs")
        elif k == "restart":
            self.out.append("restart")
        else:
            d = r.choice([1, 1, 2, 4, 10, 10, 11, 60, 121, 7200, 7201, 3 * 7200, 9 * 7200, 172800, 5 * 172800])
            self.t += d
            self.out.append("advance %d" % (d * 500))

    def retries(self):
        """a job that times out again and again"""
        self.cmd("CreateJob", name="a", retryAfter="+5 SECONDS", **(dict(repeat=self.r.choice(REPS)) if self.r.random() < 0.5 else {}))
        for _ in range(12):
            self.cmd("GetJob", name="*")
            if self.r.random() < 0.2:
                self.cmd("GetJob", name="a")
            d = self.r.choice([9, 10, 10, 10, 11, 12])
            self.t += d
            self.out.append("advance %d" % (d * 500))


def script(rng, n, steps, foci):
    out = []
    for k in range(n):
        g = Gen(rng, foci[k % len(foci)])
        g.out.append('begin {"x":"1"}')
        if rng.random() < 0.12:
            g.retries()
        for _ in range(steps):
            g.step()
        out += g.out
    return "\n".join(out) + "\n"


def check(ctx, prop, foci):
    n = 240 if not vlib.THOROUGH else 4000
    per = 240
    for k in range(0, n, per):
        drive_and_validate(ctx, exe(), script(ctx.rng, per, 55, foci), "JobsTrace", post=post, constants='CONSTANT MISTAKE = "none"\nCONSTANT Care = {"%s"}' % prop, expect_traces=per,
                           what="commands of the Jobs plugin", timeout=200)
    ctx.assumptions += ASSUME


MC = """SPECIFICATION Spec
CONSTANT MaxId = %d
CONSTANT MaxT = %d
CONSTANT MaxOps = %d
INVARIANT NothingBad ChildrenWait ParentWaitsForSomething ResumedOnce RunningIsOut OneOut
CHECK_DEADLOCK FALSE
"""


def mc(careless, retries, repeats, mistake):
    b = lambda x: "TRUE" if x else "FALSE"
    return 'CONSTANT Careless = %s\nCONSTANT Retries = %s\nCONSTANT Repeats = %s\nCONSTANT MISTAKE = "%s"\n' % (b(careless), b(retries), b(repeats), mistake)
