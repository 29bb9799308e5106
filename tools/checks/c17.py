"""C17: control commands only from trusted places; commands known to crash are refused."""
from checks.server import *

OUTSIDE = "127.0.0.2"


class AdminRun:
    def __init__(self, cl, rng):
        self.cl, self.rng, self.c = cl, rng, 0
        self.asked = []

    def conn(self, i, where):
        x = self.cl.nodes[i]
        port = {"private": x.private, "control": x.control, "controlOutside": x.control}.get(where, x.public)
        c = Conn.__new__(Conn)
        c.s = socket.create_connection(("127.0.0.1", port), timeout=10, source_address=(OUTSIDE if "utside" in where else "127.0.0.1", 0))
        c.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        c.buf = b""
        return c

    def call(self, i, where, line, params=None, body="", wait=20):
        try:
            c = self.conn(i, where)
            r = c.call(line, params, body, timeout=wait)
            c.close()
            return r
        except TimeoutError:
            return "hang"
        except OSError:
            return None

    def ctl(self, i, where, line, params=None, body="", set=(), was=None, about=()):
        r = self.call(i, where, self.spell(line), params, body)
        got = []
        if isinstance(r, Reply) and r.code == 200:
            for k, h in (was or {}).items():
                if h.lower() in r.headers:
                    got.append([k, r.headers[h.lower()]])
        self.cl.ev("ctl", node=self.cl.nodes[i].name, line=line, **{"from": "outside" if "utside" in where else "private" if where == "private" else "local"},
                   reply=r.line if isinstance(r, Reply) else str(r), set=[list(x) for x in set], was=got, about=list(about))
        return r

    def spell(self, line):
        x = self.rng.random()
        return line if x < 0.8 else line.lower() if x < 0.9 else line.upper()

    def cmd(self, i, line, params, where="public"):
        self.c += 1
        c = self.c
        r = self.call(i, where, line, dict(params, c=c))
        cls = "lost" if not isinstance(r, Reply) else {200: "ok"}.get(r.code, "refused" if r.line == "500 Refused" else r.line)
        self.cl.ev("cmd", node=self.cl.nodes[i].name, line=line, params=[[k, str(v)] for k, v in params.items()] + [["c", str(c)]], cls=cls, c=c)

    def shown(self, i, want=None, patience=6):
        """The list of a node; waits for `want` reports, then for nothing else to come."""
        out, total = self.listed(i, want, patience)
        self.cl.ev("list", node=self.cl.nodes[i].name, list=out, total=total)

    def listed(self, i, want=None, patience=6):
        end = time.monotonic() + patience
        while True:
            s = self.cl.status(i)
            total = int(s.get("crashCommands", -1))
            if want is None or total == want or time.monotonic() > end:
                break
            time.sleep(0.1)
        l = s.get("crashCommandList", [])
        l = json.loads(l) if isinstance(l, str) else l
        out = []
        for o in l:
            o = json.loads(o) if isinstance(o, str) else o
            for line, ps in o.items():
                ps = json.loads(ps) if isinstance(ps, str) else ps
                for p in ps:
                    p = json.loads(p) if isinstance(p, str) else p
                    out.append([line, sorted([k, str(v)] for k, v in p.items() if k.lower() != "content-length")])
        return out, total

    def trace(self):
        evs = self.cl.all_events()
        ran = {r["c"] for r in evs if r["e"] == "peek"}
        t = [dict(e="begin", nodes=[x.name for x in self.cl.nodes])]
        for r in evs:
            if r["e"] in ("peek", "process", "up", "down", "die0"):
                continue
            if r["e"] == "die" and "line" not in r:
                continue
            r = dict(r)
            r.pop("ts")
            if r["e"] == "cmd":
                r["ran"] = r["c"] in ran
            t.append(r)
        return t


PLACES = ["public", "private", "control", "outside", "outside", "controlOutside"]


def admin(seed, n):
    """Control commands from everywhere, one node."""
    def go():
        rng = random.Random("%s-%s-admin" % (SEED, seed))
        cl = Cluster(1)
        try:
            cl.ready()
            a = AdminRun(cl, rng)
            for _ in range(n):
                w = rng.choice(PLACES)
                bad = "utside" in w
                k = rng.randrange(12)
                if k == 0:
                    v = rng.randrange(1, 9)
                    a.ctl(0, w, "SetConflictParams", {"MaxConflictRetries": v}, set=[("retries", str(v))], was={"retries": "previousMaxConflictRetries"})
                elif k == 1:
                    p, s, was = {}, [], {}
                    for key, prm, hdr in [("window", "windowMS", "WindowMS"), ("idthr", "identifierThresholdMS", "IdentifierThresholdMS"),
                                          ("cmdthr", "commandThresholdMS", "CommandThresholdMS"), ("dur", "blockDurationMS", "BlockDurationMS")]:
                        if rng.random() < 0.6:
                            v = rng.randrange(100, 9999)
                            p[prm] = v
                            s.append((key, str(v)))
                            was[key] = "previousBlockingQueue" + hdr
                    a.ctl(0, w, "SetBlockingQueueTimeRateLimit", p, set=s, was=was)
                elif k == 2:
                    v = rng.choice(["true", "false"])
                    a.ctl(0, w, "EnableSQLTracing", {"enable": v}, set=[("trace", v)], was={"trace": "oldValue"})
                elif k == 3:
                    v = rng.randrange(2, 300)
                    a.ctl(0, w, "SetPriority", {"priority": v}, set=[("prio", str(v))])
                    cl.ev("value", node="n1", key="prio", **{"is": str(cl.status(0).get("priority"))})
                elif k == 4 and bad:
                    a.ctl(0, w, rng.choice(["Detach", "BeginBackup"]))
                    s = cl.status(0)
                    cl.ev("sees", ok=s.get("state") == "LEADING" and str(s.get("isDetached")).lower() == "false", what="not detached")
                elif k == 5:
                    a.ctl(0, w, "BlockWrites")
                    r = a.call(0, "public", "Put", {"c": 900000}, wait=1.2 if not bad else 15)
                    # written unless somebody allowed to stopped it
                    cl.ev("sees", ok=(isinstance(r, Reply) and r.code == 200) == bad, what="writes", reply=r.line if isinstance(r, Reply) else str(r))
                    if not bad:
                        # the outside cannot start them again
                        a.ctl(0, "outside", "UnblockWrites")
                        r = a.call(0, "public", "Put", {"c": 900000}, wait=1.2)
                        cl.ev("sees", ok=r == "hang", what="still blocked", reply=r.line if isinstance(r, Reply) else str(r))
                        a.ctl(0, "control", "UnblockWrites")
                elif k == 6:
                    a.ctl(0, w, rng.choice(["ConflictReport", "Attach", "ClearBlockingQueue", "GetCommitHash", "SetConflictPageLocks"]))
                elif k == 7:
                    who = str(rng.randrange(3))
                    a.ctl(0, w, "CRASH_COMMAND", body="Die\r\nwho: %s\r\n\r\n" % who, about=["Die", [["who", who]]])
                    a.shown(0)
                elif k == 8:
                    a.ctl(0, w, "ClearCrashCommands")
                    a.shown(0)
                elif k == 9:
                    a.cmd(0, "Die", {"who": rng.randrange(3)}, where=rng.choice(["public", "private", "outside"]))
                elif k == 10 and bad:
                    a.ctl(0, w, "SetMaxSocketThreads", {"socketThreadsCount": 1})
                    cs = [Conn(cl.nodes[0].public) for _ in range(3)]
                    rs = []
                    for c in reversed(cs):
                        try:
                            rs.append(c.call("Get", {"c": 0}, timeout=5))
                        except TimeoutError:
                            rs.append(None)
                    cl.ev("sees", ok=all(r is not None and r.code == 200 for r in rs), what="threads")
                    for c in cs:
                        c.close()
                elif k == 11:
                    reason = rng.choice(["x", "y"])
                    a.ctl(0, w, "SuppressCommandPort", {"reason": reason})
                    s = cl.status(0).get("commandPortBlockReasons")
                    cl.ev("sees", ok=reason in str(s), what="blocked")
                    a.ctl(0, rng.choice(["control", "private", "controlOutside"]), "ClearCommandPort", {"reason": reason})
                    cl.wait(lambda: isinstance(a.call(0, "public", "Get", {"c": 0}), Reply), 10, "open")
            return a.trace()
        finally:
            cl.kill()
    return go


def crashes(seed, rounds, nodes=3):
    """Commands that crash nodes of a cluster, and reports by hand."""
    def go():
        rng = random.Random("%s-%s-crash" % (SEED, seed))
        cl = Cluster(nodes)
        try:
            cl.ready()
            cl.meshed()
            a = AdminRun(cl, rng)
            lists = [set() for _ in range(nodes)]

            def try_all(some=None):
                for i in range(nodes):
                    for p in some or [dict(who=w, kind=k) for w in "ab" for k in "12"] + [dict(who="a"), {}]:
                        a.cmd(i, "Die", p)
                    a.cmd(i, "Get", {})
                    a.cmd(i, "Put", {"who": "a", "t": i})
            for r in range(rounds):
                # by hand, to some
                for _ in range(rng.randrange(0, 3)):
                    i = rng.randrange(nodes)
                    line = rng.choice(["Die", "Die", "Put", "Nothing"])
                    vals = rng.choice([[("who", "a")], [("who", "b"), ("kind", "1")], [("kind", "2")], [("who", "")], []] if line == "Die" else [[("who", "z")], [("t", "77")]])
                    a.ctl(i, rng.choice(["outside", "private", "control"]), "CRASH_COMMAND", body=line + "\r\nContent-Length: 0\r\n" + "".join("%s: %s\r\n" % v for v in vals) + "\r\n",
                          about=[line, [list(v) for v in vals]])
                    lists[i].add((line, tuple(sorted(vals))))
                    a.shown(i)
                    a.cmd(i, "Die", dict(rng.choice([dict(who="a"), dict(who="b", kind="1"), dict(who="a", kind="2"), dict(kind="2"), dict(who="", kind="3")])))
                try_all([dict(who=rng.choice("ab"), kind=rng.choice("12"))])
                # one dies of it
                i = rng.randrange(nodes)
                if any(x[0] == "Die" for x in lists[i]):
                    a.ctl(i, "control", "ClearCrashCommands")
                    lists[i] = set()
                p = dict(who=rng.choice("ab"), kind=rng.choice("12"))
                c = a.conn(i, "public")
                c.send("Die", dict(p, inPeek=1, c=0))
                got = c.recv(20)
                c.close()
                gone = cl.gone(i, 20)
                cl.ev("sees", ok=got is None and gone, what="crashed")
                cl.ev("die", node=cl.nodes[i].name, line="Die", params=[[k, v] for k, v in p.items()])
                lists[i] = set()
                for m in range(nodes):
                    if m != i:
                        lists[m].add(("Die", tuple(sorted(p.items()))))
                        a.shown(m, want=len(lists[m]))
                cl.start(i)
                cl.ready()
                cl.meshed()
                # each of the others goes on trying to tell it twice a second; it may also tell them what it has just heard
                a.listed(i, want=len(set().union(*[lists[m] for m in range(nodes) if m != i])))
                time.sleep(1.2)
                now = [a.listed(m)[0] for m in range(nodes)]
                cl.ev("back", node=cl.nodes[i].name, lists={cl.nodes[m].name: now[m] for m in range(nodes)})
                lists = [{(line, tuple(map(tuple, vals))) for line, vals in x} for x in now]
                for m in range(nodes):
                    a.shown(m)
                try_all()
                if rng.random() < 0.6:
                    for m in range(nodes):
                        a.ctl(m, "outside", "ClearCrashCommands")
                    a.shown(rng.randrange(nodes))
                    for m in range(nodes):
                        a.ctl(m, "control", "ClearCrashCommands")
                        lists[m] = set()
                    try_all([dict(who="a", kind="1")])
            return a.trace()
        finally:
            cl.kill()
    return go


def run(ctx):
    base = """SPECIFICATION Spec
CONSTANTS Nodes = {n1, n2%s}
Kinds = {k1, k2}
Values = {1, 2}
MaxCrashes = %d
MISTAKE = "%s"
INVARIANTS Refused Told
PROPERTIES Learns Safe Obeys
CHECK_DEADLOCK FALSE
"""
    tlc_model(ctx, "Admin", base % ("", 3 if vlib.THOROUGH else 2, "none"), timeout=800)
    for m in ["anyKey", "onlyExact", "acrossKinds", "neverWhole", "notOnLogin", "everywhere", "afterwards"]:
        tlc_must_fail(ctx, "Admin", base % ("", 2, m))
    k = 4 if vlib.THOROUGH else 1
    judge(ctx, [admin("a%d" % i, 45) for i in range(k)] + [crashes("c%d" % i, 3) for i in range(k)], "administration", spec="AdminTrace")
    ctx.assumptions += ["one host, real time; another address of the loopback network stands for other hosts", "names of commands that crash are told apart by case"]
