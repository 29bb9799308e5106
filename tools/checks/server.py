"""Real BedrockServer processes (harness/server_node.cpp) on the loopback interface, driven over their own ports."""
import json, os, random, signal, socket, sqlite3, subprocess, threading, time
import vlib
from vlib import *


def exe():
    return build("server_node", ["server_node.cpp"], wraps=["creat"])


_next_port = [0]


def free_ports(n):
    """Ports below the ephemeral range, so that no outgoing connection takes one in the meantime."""
    out = []
    if not _next_port[0]:
        _next_port[0] = 11000 + (os.getpid() * 131) % 15000
    while len(out) < n:
        p = _next_port[0]
        _next_port[0] = p + 1 if p < 31000 else 11000
        if p == 2024:
            continue
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(("0.0.0.0", p))
            out.append(p)
        except OSError:
            pass
        s.close()
    return out


def message(line, params=None, body=""):
    s = line + "\r\n" + "".join("%s: %s\r\n" % kv for kv in (params or {}).items())
    return (s + "Content-Length: %d\r\n\r\n" % len(body) + body).encode("latin-1")


class Reply:
    def __init__(self, line, headers, body):
        self.line, self.headers, self.body = line, headers, body
        self.code = int(line.split(" ")[0]) if line.split(" ")[0].isdigit() else 0


class Conn:
    def __init__(self, port, timeout=5, host="127.0.0.1"):
        self.s = socket.create_connection((host, port), timeout=timeout)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""

    def send(self, line, params=None, body=""):
        self.s.sendall(message(line, params, body))

    def recv(self, timeout=30):
        """The next reply; None when the other side closed the connection, raises TimeoutError."""
        end = time.monotonic() + timeout
        while True:
            i = self.buf.find(b"\r\n\r\n")
            if i >= 0:
                head = self.buf[:i].decode("latin-1").split("\r\n")
                h = {}
                for x in head[1:]:
                    k, _, v = x.partition(":")
                    h[k.strip().lower()] = v.strip()
                n = int(h.get("content-length", "0"))
                if len(self.buf) >= i + 4 + n:
                    body = self.buf[i + 4:i + 4 + n].decode("latin-1")
                    self.buf = self.buf[i + 4 + n:]
                    return Reply(head[0], h, body)
            left = end - time.monotonic()
            if left <= 0:
                raise TimeoutError()
            self.s.settimeout(left)
            try:
                x = self.s.recv(65536)
            except socket.timeout:
                raise TimeoutError()
            except OSError:
                return None
            if not x:
                return None
            self.buf += x

    def call(self, line, params=None, body="", timeout=30):
        self.send(line, params, body)
        return self.recv(timeout)

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


class Node:
    pass


class Cluster:
    def __init__(self, n, priorities=None, args=None, start=True, loud=False):
        self.exe = exe()
        self.dir = workdir("srv")
        os.chmod(self.dir, 0o777)
        ports = free_ports(4 * n)
        self.events = []
        self.lock = threading.Lock()
        self.nodes = []
        for i in range(n):
            x = Node()
            x.i, x.name = i, "n%d" % (i + 1)
            x.public, x.private, x.control, x.peer = ports[4 * i:4 * i + 4]
            x.priority = (priorities or [200 - 20 * k for k in range(n)])[i]
            x.db = os.path.join(self.dir, x.name + ".db")
            x.log = os.path.join(self.dir, x.name + ".events")
            x.proc = None
            self.nodes.append(x)
        for x in self.nodes:
            open(x.db, "ab").close()
            os.chmod(x.db, 0o666)
            a = {"-db": x.db, "-serverHost": "0.0.0.0:%d" % x.public, "-commandPortPrivate": "0.0.0.0:%d" % x.private, "-controlPort": "0.0.0.0:%d" % x.control,
                 "-nodeHost": "127.0.0.1:%d" % x.peer, "-nodeName": x.name, "-priority": x.priority, "-plugins": "TEST", "-workerThreads": "4",
                 "-events": x.log, "-cacheSize": "1001", "-maxJournalSize": "10000", "-checkpointMode": "PASSIVE",
                 "-peerList": ",".join("127.0.0.1:%d?nodeName=%s" % (y.peer, y.name) for y in self.nodes if y is not x)}
            if loud:
                a["-loud"] = "1"
            a.update(args or {})
            x.args = a
            if start:
                self.start(x.i)

    def start(self, i):
        x = self.nodes[i]
        argv = [self.exe]
        for k, v in x.args.items():
            argv += [k, str(v)]
        x.err = open(os.path.join(self.dir, x.name + ".err"), "ab")
        x.proc = subprocess.Popen(argv, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=x.err, stderr=x.err, preexec_fn=drop_privileges, start_new_session=True)

    def ev(self, e, **kw):
        r = dict(e=e, ts=time.monotonic_ns(), **kw)
        with self.lock:
            self.events.append(r)
        return r

    def control(self, i, line, params=None, body="", timeout=20):
        c = Conn(self.nodes[i].control, timeout=timeout)
        try:
            return c.call(line, params, body, timeout=timeout)
        finally:
            c.close()

    def status(self, i):
        try:
            r = self.control(i, "Status", timeout=5)
            return json.loads(r.body) if r else {}
        except (OSError, ValueError, TimeoutError):
            return {}

    def wait(self, pred, timeout, what):
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            if pred():
                return True
            time.sleep(0.05)
        return False

    def ready(self, timeout=40, who=None):
        """Everybody leads or follows and takes commands."""
        who = range(len(self.nodes)) if who is None else who
        last = [None]

        def ok():
            st = [self.status(i) for i in who]
            if not all(s.get("state") in ("LEADING", "FOLLOWING") for s in st) or sum(s["state"] == "LEADING" for s in st) != 1:
                return False
            for i in who:
                try:
                    c = Conn(self.nodes[i].public, timeout=2)
                    r = c.call("Get", {"c": 0}, timeout=5)
                    c.close()
                    if r is None or r.code != 200:
                        last[0] = (self.nodes[i].name, r and r.code)
                        return False
                except (OSError, TimeoutError) as x:
                    last[0] = (self.nodes[i].name, repr(x))
                    return False
            return True
        if not self.wait(ok, timeout, "ready"):
            raise CheckError("the servers did not come up: %s %s" % (last[0], [(self.nodes[i].name, self.status(i).get("state"), self.nodes[i].proc.poll()) for i in who]))

    def meshed(self, timeout=40):
        """Everybody knows everybody."""
        def ok():
            for i in range(len(self.nodes)):
                l = self.status(i).get("peerList", [])
                l = json.loads(l) if isinstance(l, str) else l
                l = [json.loads(x) if isinstance(x, str) else x for x in l]
                if len(l) != len(self.nodes) - 1 or not all(str(x.get("loggedIn")).lower() == "true" and x.get("commandAddress") for x in l):
                    return False
            return True
        if not self.wait(ok, timeout, "meshed"):
            raise CheckError("the servers did not all connect to each other")

    def leader(self):
        for x in self.nodes:
            if x.proc and x.proc.poll() is None and self.status(x.i).get("state") == "LEADING":
                return x.i
        return None

    def stop(self, i, timeout=30):
        """Asks for a graceful end; False when it did not come."""
        x = self.nodes[i]
        if x.proc and x.proc.poll() is None:
            x.proc.send_signal(signal.SIGTERM)
        return self.gone(i, timeout)

    def gone(self, i, timeout=30):
        x = self.nodes[i]
        try:
            x.proc.wait(timeout)
            return True
        except subprocess.TimeoutExpired:
            return False

    def kill(self):
        for x in self.nodes:
            if x.proc:
                try:
                    os.killpg(x.proc.pid, 9)
                except OSError:
                    pass
                x.proc.wait()
                x.err.close()

    def rows(self, i):
        """{c: number of rows} and the journal [(id, query)] of a node that is down."""
        db = sqlite3.connect(self.nodes[i].db)
        tabs = [r[0] for r in db.execute("SELECT name FROM sqlite_master WHERE type='table'")]
        rows, journal = {}, []
        for t in tabs:
            if t.startswith("journal") :
                journal += list(db.execute("SELECT id, query FROM %s" % t))
            elif len(t) == 2 and t[0] == "t":
                for (c,) in db.execute("SELECT c FROM %s" % t):
                    rows[c] = rows.get(c, 0) + 1
        db.close()
        return rows, sorted(journal)

    def all_events(self):
        ev = list(self.events)
        for x in self.nodes:
            try:
                for line in open(x.log):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    r["ts"] = int(r["ts"])
                    ev.append(r)
            except OSError:
                pass
        return sorted(ev, key=lambda r: r["ts"])


# ------------------------------------------------------------------------------------------------------------ workloads
class Run:
    """One recorded run: requests of many clients against a cluster, merged with what the nodes recorded."""

    def __init__(self, cluster, ends=True):
        self.cl, self.next, self.ends = cluster, 0, ends
        self.lock = threading.Lock()
        self.termed = {}

    def request(self, kind="put", node=0, may=("ok",), rows=1, dep=0, limit=0, params=None, line=None):
        """A request ready to be sent; limit: time limit in ms; rows: how many rows a success leaves."""
        with self.lock:
            self.next += 1
            c = self.next
        p = {"c": c}
        if dep:
            p["commitCount"] = dep
        if limit:
            p["timeout"] = limit
        p.update(params or {})
        return dict(c=c, kind=kind, node=node, may=list(may), rows=rows, dep=dep, limit=limit, params=p, line=line or ("Get" if kind == "get" else "Put"))

    def sent(self, q):
        q["at"] = self.cl.ev("send", c=q["c"], node=self.cl.nodes[q["node"]].name, kind=q["kind"], may=q["may"], rows=q["rows"], dep=q["dep"])["ts"]

    def answered(self, q, r):
        """r: a Reply, None (closed) or "hang"."""
        name = self.cl.nodes[q["node"]].name
        t = time.monotonic_ns()
        if r == "hang":
            self.cl.ev("hang", c=q["c"])
            return None
        if r is None:
            term = self.termed.get(name)
            self.cl.ev("lost", c=q["c"], fresh=bool(term and (q["at"] > term - 30_000_000 or q.get("told"))))
            return None
        cls = {200: "ok", 202: "queued", 555: "timeout", 433: "fail", 501: "fail", 502: "fail"}.get(r.code)
        if cls is None:
            cls = {"500 Internal Server Error": "broken", "500 Refused": "refused", "500 Unhandled Exception": "fail", "500 Leader stopped leading": "broken"}.get(r.line, r.line)
        late = bool(q["limit"]) and (t - q["at"]) / 1e6 > q["limit"] + 4000
        rec = dict(c=q["c"], cls=cls, count=int(r.headers.get("commitcount", "0") or 0), late=late, line=r.line)
        if q["kind"] == "get":
            rec["list"] = sorted({int(x) for x in r.body.split(",") if x} - {0}) if cls == "ok" else []
        self.cl.ev("rep", **rec)
        return rec

    def call(self, conn, q, wait=40):
        self.sent(q)
        try:
            conn.send(q["line"], q["params"])
            r = conn.recv(wait)
        except TimeoutError:
            r = "hang"
        except OSError:
            r = None
        return self.answered(q, r)

    def burst(self, conn, qs, wait=40, pieces=None):
        """Several requests at once; pieces: cut the bytes there."""
        data = b""
        for q in qs:
            self.sent(q)
            data += message(q["line"], q["params"])
        ok = True
        try:
            at = 0
            for x in sorted(pieces or []) + [len(data)]:
                conn.s.sendall(data[at:x])
                at = max(at, x)
                if x != len(data):
                    time.sleep(0.01)
        except OSError:
            ok = False
        last = None
        for q in qs:
            try:
                r = conn.recv(wait) if ok else None
            except TimeoutError:
                r = "hang"
            ok = r is not None and r != "hang"
            # told that the connection would be closed: what was sent behind was not accepted
            q["told"] = last is not None and last.headers.get("connection", "").lower() == "close"
            last = r if ok else last
            self.answered(q, r)

    def term(self, i):
        x = self.cl.nodes[i]
        self.termed[x.name] = self.cl.ev("term", node=x.name)["ts"]
        x.proc.send_signal(signal.SIGTERM)

    def exit(self, i, within=35):
        x = self.cl.nodes[i]
        left = within - (time.monotonic_ns() - self.termed[x.name]) / 1e9
        ok = self.cl.gone(i, max(left, 0.1)) and x.proc.returncode == 0
        self.cl.ev("exit", node=x.name, ok=ok, rc=x.proc.poll() if x.proc.poll() is not None else 999)
        return ok

    def count(self, i):
        return int(self.cl.status(i).get("CommitCount", -1))

    def trace(self, nodes=None):
        """The nodes are down."""
        import re
        nodes = range(len(self.cl.nodes)) if nodes is None else nodes
        per = []
        for i in nodes:
            rows, journal = self.cl.rows(i)
            at = {}
            for jid, q in journal:
                for m in re.findall(r"INSERT INTO t\d VALUES \( (\d+),", q.decode("latin-1") if isinstance(q, bytes) else str(q)):
                    at.setdefault(int(m), jid)
            per.append([dict(c=c, n=rows[c], at=at.get(c, 0), k=k + 1) for k, c in enumerate(sorted(rows, key=lambda c: (at.get(c, 0), c)))])
        best = max(per, key=len)
        ev = [dict(e="begin", final=best, ends=self.ends)] + [r for r in self.cl.all_events() if r.get("c", 1) != 0 and r["e"] not in ("up", "down")]
        for i, f in zip(nodes, per):
            ev.append(dict(e="rows", node=self.cl.nodes[i].name, final=f))
        ev.append(dict(e="end"))
        for r in ev:
            r.pop("ts", None)
        return ev


def threads(fns, timeout=120):
    ts = [threading.Thread(target=f, daemon=True) for f in fns]
    for t in ts:
        t.start()
    end = time.monotonic() + timeout
    for t in ts:
        t.join(max(0.1, end - time.monotonic()))
    return not any(t.is_alive() for t in ts)


def judge(ctx, scenarios, what, confirm=1, spec="ServerTrace", det=True):
    """scenarios: functions that run and return a trace.  Each is repeated when its trace is rejected; twice rejected is a violation."""
    for k, f in enumerate(scenarios):
        last = None
        for attempt in range(1 + confirm + 1):
            try:
                t = f()
            except CheckError as e:
                bad = Violation("%s: %s" % (what, e), dict(detail=str(e)))
                t = None
            if t is not None:
                rej = validate(ctx, spec, [t], det=det)
                if rej is None:
                    if last is None:
                        ctx.sample(dict(what=what, trace=[x for x in t[1:] if x["e"] in ("send", "peek", "process", "rep")][:12]))
                        ctx.count("events", len(t))
                        break
                    if attempt >= 2:
                        log("not repeated, so not reported")
                        ctx.count("unrepeated_rejections")
                        break
                    continue
                bad = Violation("%s: recorded run is not allowed by %s: event %d %s" % (what, spec, rej.line, json.dumps(rej.event)[:600]),
                                dict(trace=[x for x in t if x.get("c") == rej.event.get("c")] if rej.event and "c" in rej.event else t[-60:], final=t[0]))
            log("rejected (attempt %d): %s" % (attempt + 1, bad.msg[:500]))
            if last is not None:
                raise last
            last = bad


def finish(run, order=None):
    """Everybody down, in order."""
    order = list(reversed(range(len(run.cl.nodes)))) if order is None else order
    for i in order:
        if run.cl.nodes[i].name not in run.termed:
            run.term(i)
        run.exit(i)


def model(ctx, mistakes, props="Still", liveness=False):
    base = """SPECIFICATION Spec
CONSTANTS Nodes = {n1, n2}
Cmds = {c1, c2}
MaxConflicts = 1
MaxMoves = %d
MISTAKE = "%s"
INVARIANTS AtMostOnce Truthful InTime NoneLost
PROPERTIES Still%s
CHECK_DEADLOCK FALSE
"""
    tlc_model(ctx, "Server", base % (2 if vlib.THOROUGH else 1, "none", " Answered" if liveness or vlib.THOROUGH else ""), timeout=700)
    for m in mistakes:
        tlc_must_fail(ctx, "Server", base % (1, m, " Answered" if m == "oneTooMany" else ""))
