"""C19: a graceful shutdown finishes accepted work and always completes."""
from checks.server import *


def client(run, rng, node, stop, several):
    """Works until its node is gone."""
    def go():
        conn = None
        base = run.count(node)
        while not stop.is_set():
            try:
                if conn is None or rng.random() < 0.1:
                    if conn:
                        conn.close()
                    conn = Conn(run.cl.nodes[node].public, timeout=3)
            except OSError:
                if run.cl.nodes[node].name in run.termed:
                    return
                time.sleep(0.05)
                continue
            x = rng.random()
            p = {"t": rng.randrange(6) if rng.random() < 0.6 else 0, "proc": rng.choice([0, 0, 1, 5, 30]), "peek": rng.choice([0, 0, 3])}
            if rng.random() < 0.3:
                p["read"] = 1
            # where the answer has to come back from another node, it may get lost: an error, and it may have been carried out
            # (and the last ones wait for a leader that never comes, until their time is up)
            may = ["ok", "broken", "timeout"] if several else ["ok"]
            if several:
                p["timeout"] = 9000
            if x < 0.55:
                q = run.request(node=node, params=p, may=may)
            elif x < 0.65:
                q = run.request(node=node, params=dict(p, proc=rng.choice([300, 900, 2000]), t=rng.randrange(6)), may=may)
            elif x < 0.72:
                q = run.request(node=node, params=dict(p, proc=rng.choice([100, 700]), spin=1), may=may)
            elif x < 0.80:
                q = run.request(kind="get", node=node, params=dict(p, proc=0, peek=rng.choice([0, 50, 1000])), may=["ok"] + may[2:])
            elif x < 0.86:
                # waits for a commit that others may or may not make before the end
                q = run.request(kind="get", node=node, dep=run.seen + rng.randrange(1, 4), may=["ok", "timeout"], limit=rng.choice([1500, 4000, 9000]))
            elif x < 0.90:
                q = run.request(node=node, params=dict(p, fail=rng.choice(["peek", "process", "late"])), may=["fail"] + may[1:], rows=0)
            elif x < 0.94:
                q = run.request(kind="queue", node=node, params=dict(p, Connection="forget", timeout=9000), may=["queued"])
            else:
                q = [run.request(node=node, params=p, may=may), run.request(kind="get", node=node, params=dict(p, proc=0), may=["ok"] + may[2:])]
            if isinstance(q, list):
                run.burst(conn, q, wait=45)
                a = None
            else:
                a = run.call(conn, q, wait=45)
            if a:
                run.seen = max(run.seen, a["count"])
            if a is None or (q.__class__ is dict and q["kind"] == "queue"):
                conn.close()
                conn = None
        if conn:
            conn.close()
    return go


def scenario(seed, nodes, clients, ends, args=None):
    """ends: groups of nodes told to end, one group after the other."""
    def go():
        rng = random.Random("%s-%s-%s" % (SEED, seed, nodes))
        cl = Cluster(nodes, args=args)
        try:
            cl.ready()
            run = Run(cl, ends=False)
            run.seen = run.count(0)
            stop = threading.Event()
            ts = [threading.Thread(target=client(run, random.Random(rng.random()), k % nodes, stop, nodes > 1), daemon=True) for k in range(clients)]
            for t in ts:
                t.start()
            for k, group in enumerate(ends):
                time.sleep(rng.uniform(0.15, 1.6))
                group = [cl.leader() or 0] if group == "leader" else group
                group = [i for i in group if cl.nodes[i].name not in run.termed]
                for i in group:
                    run.term(i)
                for i in group:
                    run.exit(i)
            for i in range(nodes):
                if cl.nodes[i].name not in run.termed:
                    run.term(i)
                    run.exit(i)
            stop.set()
            for t in ts:
                t.join(60)
                if t.is_alive():
                    cl.ev("hang", c=-1)
            return run.trace()
        finally:
            cl.kill()
    return go


def run(ctx):
    model(ctx, ["exitEarly"], liveness=True)
    k = 6 if vlib.THOROUGH else 1
    sc = []
    for i in range(k):
        sc += [scenario("a%d" % i, 1, 6, [[0]]), scenario("b%d" % i, 1, 8, [[0]], args={"-conflictEvery": "3"}), scenario("c%d" % i, 1, 5, [[0]], args={"-synchronousCommands": "Put"}),
               scenario("d%d" % i, 3, 9, ["leader"]), scenario("e%d" % i, 3, 9, [[2], [1], [0]]), scenario("f%d" % i, 3, 9, [[0, 1, 2]]),
               scenario("g%d" % i, 3, 6, ["leader", "leader"], args={"-slowCommit": "3"})]
    judge(ctx, sc, "shutdown")
    ctx.assumptions += ["one host, real time", "every command has a time limit: a node does not end while one of them waits for a commit or a leader that never comes", "what a client is told about commands forwarded to a node that ends may be an error of unknown outcome"]
