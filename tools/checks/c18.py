"""C18: the public command port is open exactly when nothing blocks it."""
from checks.server import *

GRACE = 5000


class PortRun:
    def __init__(self, cl):
        self.cl, self.x, self.id, self.lock = cl, cl.nodes[0], 0, threading.Lock()
        self.t0 = time.monotonic_ns()

    def ms(self):
        return (time.monotonic_ns() - self.t0) // 1000000

    def new(self):
        with self.lock:
            self.id += 1
            return self.id

    def ask(self, op, reason, port=None):
        i = self.new()
        self.cl.ev("ask", id=i, op=op, reason=reason)
        try:
            c = Conn(port or self.x.control, timeout=15)
            r = c.call("SuppressCommandPort" if op == "block" else "ClearCommandPort", {"reason": reason} if reason != "MANUAL" else {}, timeout=15)
            c.close()
            reply = r.line if r else "closed"
        except OSError as e:
            reply = "no: %s" % e
        self.cl.ev("done", id=i, reply=reply, t=self.ms())

    def connects(self):
        try:
            c = Conn(self.x.public, timeout=5)
            c.close()
            return True
        except OSError:
            return False

    def probe(self, patient=False):
        """patient: closed only when it stays closed."""
        end = time.monotonic() + (GRACE / 1000 + 1.5 if patient else 0)
        while True:
            i = self.new()
            self.cl.ev("probe", id=i)
            got = self.connects()
            if got or time.monotonic() >= end:
                self.cl.ev("probed", id=i, open=got, t=self.ms(), grace=GRACE)
                return got
            self.cl.ev("probed", id=i, open=got, t=self.ms(), grace=GRACE)
            time.sleep(0.1)

    def other(self):
        for port in (self.x.private, self.x.control):
            ok = False
            try:
                c = Conn(port, timeout=10)
                r = c.call("Get" if port == self.x.private else "Status", {"c": 0}, timeout=15)
                ok = bool(r) and r.code == 200
                c.close()
            except OSError:
                pass
            self.cl.ev("other", ok=ok, port="private" if port == self.x.private else "control")

    def told(self, conn):
        i = self.new()
        self.cl.ev("probe", id=i)
        r = conn.call("Get", {"c": 0}, timeout=20)
        close = r is None or r.headers.get("connection", "").lower() == "close"
        self.cl.ev("told", id=i, close=close)
        if close:
            # and is closed
            try:
                self.cl.ev("other", ok=r is not None and conn.recv(10) is None, port="closing")
            except TimeoutError:
                self.cl.ev("other", ok=False, port="closing")
        return not close

    def shown(self):
        s = self.cl.status(0)
        v = s.get("commandPortBlockReasons", [])
        self.cl.ev("shown", list=sorted(json.loads(v) if isinstance(v, str) else v))

    def fresh(self):
        """A new connection after everything was lifted: answered without being told to close."""
        try:
            c = Conn(self.x.public, timeout=5)
        except OSError:
            return
        self.told(c)
        c.close()

    def held(self):
        """A connection from before, or None."""
        try:
            c = Conn(self.x.public, timeout=5)
        except OSError:
            return None
        r = c.call("Get", {"c": 0}, timeout=20)
        if r is None or r.headers.get("connection", "").lower() == "close":
            c.close()
            return None
        return c


def scenario(seed, rounds, together, moves):
    def go():
        rng = random.Random("%s-%s-port" % (SEED, seed))
        cl = Cluster(1)
        try:
            cl.ready()
            p = PortRun(cl)
            names = ["MANUAL", "a", "b", "LEGACY_x", "aa"]
            for k in range(rounds):
                # one request at a time: everything is determined
                held = p.held()
                n = {r: 0 for r in names}
                for _ in range(rng.randrange(2, 9)):
                    r = rng.choice(names[:rng.choice([1, 2, 5])])
                    x = rng.random()
                    op = "block" if x < 0.5 else "unblock"
                    if rng.random() < 0.5 and any(n.values()):
                        r, op = rng.choice([q for q in names if n[q]]), "unblock"
                    p.ask(op, r, port=p.x.private if rng.random() < 0.2 else None)
                    n[r] = n[r] + 1 if op == "block" else max(0, n[r] - 1)
                    if not any(n.values()) and rng.random() < 0.3:
                        time.sleep(1.2)
                    p.probe()
                    if rng.random() < 0.3:
                        p.shown()
                    if held and rng.random() < 0.5 and not p.told(held):
                        held = None
                    if rng.random() < 0.2:
                        p.other()
                if any(n.values()):
                    time.sleep(rng.choice([0.1, 1.3]))
                p.probe(patient=not any(n.values()))
                p.shown()
                if moves and rng.random() < 0.6:
                    if held:
                        held.close()
                        held = None
                    cl.ev("detach")
                    r = cl.control(0, "Detach")
                    cl.ev("other", ok=bool(r) and r.line == "203 DETACHING", port="detach")
                    cl.wait(lambda: str(cl.status(0).get("isDetached")).lower() == "true", 25, "detach")
                    if rng.random() < 0.5:
                        p.ask("block", "a")
                    p.probe()
                    r = cl.control(0, "Attach")
                    cl.ev("other", ok=bool(r) and r.line == "204 ATTACHING", port="attach")
                    cl.wait(lambda: cl.status(0).get("state") == "LEADING", 25, "attach")
                    cl.ev("attach", t=p.ms())
                    n = {r: 0 for r in names}
                    p.probe(patient=True)
                    p.fresh()
                    p.other()
                    p.shown()
                # everything lifted, one after the other, in any order
                left = [r for r in names for _ in range(n[r])]
                rng.shuffle(left)
                for r in left:
                    p.probe()
                    p.ask("unblock", r)
                p.probe(patient=True)
                if held:
                    p.told(held)
                    held.close()
            for k in range(together):
                # from several threads, each with reasons of its own
                stop = threading.Event()

                def worker(mine, r):
                    cnt = {q: 0 for q in mine}
                    for _ in range(r.randrange(3, 8)):
                        q = r.choice(mine)
                        op = "block" if r.random() < 0.5 else "unblock"
                        p.ask(op, q)
                        cnt[q] = cnt[q] + 1 if op == "block" else max(0, cnt[q] - 1)
                        if r.random() < 0.4:
                            time.sleep(r.random() * 0.05)
                    for q in mine:
                        for _ in range(cnt[q]):
                            p.ask("unblock", q)

                def watcher():
                    while not stop.is_set():
                        p.probe()
                        time.sleep(0.01)
                ws = [threading.Thread(target=watcher, daemon=True)]
                ws[0].start()
                threads([lambda i=i: worker(["r%d" % i, "s%d" % i], random.Random("%s-%d" % (rng.random(), i))) for i in range(3)])
                time.sleep(rng.random() * 1.5)
                stop.set()
                ws[0].join(20)
                p.probe(patient=True)
                p.shown()
                p.other()
            t = sorted(cl.events, key=lambda r: r["ts"])
            for r in t:
                r.pop("ts", None)
            return t
        finally:
            cl.kill()
    return go


def run(ctx):
    base = """SPECIFICATION Spec
CONSTANTS Reasons = {a, b%s}
MaxTimes = 2
MaxTurns = %d
MISTAKE = "%s"
INVARIANTS Closed Told Own
PROPERTIES Opens
CHECK_DEADLOCK FALSE
"""
    tlc_model(ctx, "Port", base % (", c" if vlib.THOROUGH else "", 2, "none"), timeout=600)
    for m in ["once", "keepOpen", "liftsAll", "flagStays", "noLock", "flagKept"]:
        tlc_must_fail(ctx, "Port", base % ("", 1, m))
    k = 5 if vlib.THOROUGH else 1
    judge(ctx, [scenario("p%d" % i, 3, 3, True) for i in range(k)] + [scenario("q%d" % i, 5, 0, False) for i in range(k)], "command port", spec="PortTrace", det=False)
    ctx.assumptions += ["one host, real time: an unblocked port has 5 s to open"]
