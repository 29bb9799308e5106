"""C15: each command is executed at most once and answered exactly once."""
from checks.server import *


def mixed(run, rng, node, n, hot, wild=True):
    """Requests of one client: (request) or lists of requests sent at once."""
    for _ in range(n):
        x = rng.random()
        t = rng.randrange(6) if rng.random() > hot else 0
        base = {"t": t}
        if rng.random() < 0.5:
            base["read"] = 1
        if rng.random() < 0.4:
            base["proc"] = rng.randrange(8)
        if rng.random() < 0.2:
            base["peek"] = rng.randrange(4)
        if rng.random() < 0.1:
            base["pre"] = 1
        if x < 0.5 or not wild:
            yield run.request(node=node, params=base)
        elif x < 0.68:
            st = rng.choice(["prepeek", "peek", "process", "late", "late", "peek-odd", "process-odd", "late-odd"])
            yield run.request(node=node, params=dict(base, fail=st), may=["fail"], rows=0)
        elif x < 0.72:
            # out of time in SQLite, in code, and before it is run at all
            kind = rng.randrange(3)
            if kind == 0:
                yield run.request(node=node, params=dict(base, proc=400, spin=1), limit=60, may=["timeout"], rows=0)
            elif kind == 1:
                yield run.request(node=node, params=dict(base, peek=150), limit=60, may=["timeout"], rows=0)
            else:
                yield run.request(node=node, params=dict(base, pre=150, proc=0), limit=60, may=["timeout"], rows=0)
        elif x < 0.76:
            # nothing written: nothing to commit
            yield run.request(node=node, params=dict(base, idle=1), rows=0)
        elif x < 0.80:
            yield run.request(kind="queue", node=node, params=dict(base, Connection="forget"), may=["queued"])
        elif x < 0.84:
            yield run.request(kind="queue", node=node, params=dict(base, commandExecuteTime=int(time.time() * 1e6) + rng.randrange(50, 400) * 1000), may=["queued"])
        elif x < 0.90:
            yield run.request(kind="get", node=node)
        else:
            yield [run.request(node=node, params=base), run.request(kind="get", node=node), run.request(node=node, params=base)][:rng.choice([2, 3])]


def client(run, rng, node, n, hot, wild=True):
    def go():
        conn = Conn(run.cl.nodes[node].public)
        for q in mixed(run, rng, node, n, hot, wild):
            if isinstance(q, list):
                size = sum(len(message(y["line"], y["params"])) for y in q)
                run.burst(conn, q, pieces=[] if rng.random() < 0.5 else [rng.randrange(1, size) for _ in range(2)])
            else:
                run.call(conn, q)
            if q.__class__ is dict and q["kind"] == "queue" or rng.random() < 0.05:
                conn.close()
                conn = Conn(run.cl.nodes[node].public)
        # nothing more is coming
        try:
            r = conn.recv(0.05)
            if r is not None:
                run.cl.ev("extra", line=r.line)
        except TimeoutError:
            pass
        conn.close()
    return go


def scenario(seed, nodes, clients, n, hot=0.6, args=None, moves=0, wild=True, settle=0.8):
    def go():
        rng = random.Random("%s-%s-%s" % (SEED, seed, nodes))
        cl = Cluster(nodes, args=args)
        try:
            cl.ready()
            run = Run(cl)
            fns = [client(run, random.Random(rng.random()), k % nodes, n, hot, wild) for k in range(clients)]
            stop = threading.Event()

            def mover():
                # leadership moves between n1 and n2 while the clients work
                r = random.Random(rng.random())
                for m in range(moves):
                    if stop.wait(r.uniform(0.4, 0.9)):
                        return
                    rep = cl.control(1, "SetPriority", {"priority": 300 if m % 2 == 0 else 150})
                    cl.ev("control", reply=rep.line if rep else "none", may=["200 OK"])
                    cl.wait(lambda: cl.leader() == (1 if m % 2 == 0 else 0), 20, "move")
            mt = threading.Thread(target=mover, daemon=True)
            if moves:
                mt.start()
            if not threads(fns):
                cl.ev("hang", c=-1)
            stop.set()
            if moves:
                mt.join(25)
            time.sleep(settle)
            finish(run)
            return run.trace()
        finally:
            cl.kill()
    return go


def run(ctx):
    model(ctx, ["keepOnFail", "okOnConflict", "rerun", "sendAgain", "brokenIsFailed"])
    k = 4 if vlib.THOROUGH else 1
    sc = []
    for i in range(k):
        sc += [scenario("a%d" % i, 1, 6, 40), scenario("b%d" % i, 1, 4, 40, args={"-conflictEvery": "3"}),
               scenario("c%d" % i, 1, 4, 30, args={"-conflictEvery": "2", "-synchronousCommands": "Put"}),
               scenario("d%d" % i, 3, 6, 30), scenario("e%d" % i, 3, 6, 60, moves=4, wild=False, args={"-slowCommit": "4"})]
    judge(ctx, sc, "commands")
    ctx.assumptions += ["one host, real time; conflicts are per table and also forced at every 2nd or 3rd commit",
                        "an answer lost between nodes is reported as an error of unknown outcome"]
