"""C16: a command waits for the commit it depends on."""
from checks.server import *


def scenario(seed, nodes, n, future):
    def go():
        rng = random.Random("%s-%s-%s" % (SEED, seed, nodes))
        cl = Cluster(nodes)
        try:
            cl.ready()
            run = Run(cl)
            base = run.count(0)
            last = [base]  # the newest commit number any client was given
            total = 3 * n

            def writer(node, r):
                conn = Conn(cl.nodes[node].public)
                for _ in range(n):
                    a = run.call(conn, run.request(node=node, params={"t": r.randrange(6)}))
                    if a and a["cls"] == "ok":
                        last[0] = max(last[0], a["count"])
                        # reads its own write, wherever
                        m = r.randrange(nodes)
                        c2 = Conn(cl.nodes[m].public)
                        run.call(c2, run.request(kind="get", node=m, dep=a["count"], params={"peek": r.choice([0, 0, 2])}))
                        c2.close()
                conn.close()

            def waiter(node, r):
                # numbers to come, several for the same one; the last of them are reached at the very end
                conn = Conn(cl.nodes[node].public)
                for k in range(3):
                    d = min(base + total, max(base + 1, last[0] + r.choice([1, 1, 2, 2, 3, 5, total])))
                    if r.random() < 0.3:
                        run.call(conn, run.request(node=node, dep=min(d, base + total), params={"t": r.randrange(6)}))
                    else:
                        run.call(conn, run.request(kind="get", node=node, dep=min(d, base + total)))
                conn.close()

            def never(node, r):
                conn = Conn(cl.nodes[node].public)
                for k in range(2):
                    run.call(conn, run.request(kind=r.choice(["get", "put"]), node=node, dep=base + 100000, limit=r.choice([150, 150, 400]), may=["timeout"], rows=0))
                conn.close()
            fns = [lambda k=k, r=random.Random(rng.random()): writer(k % nodes, r) for k in range(3)]
            fns += [lambda k=k, r=random.Random(rng.random()): waiter(k % nodes, r) for k in range(future)]
            fns += [lambda k=k, r=random.Random(rng.random()): never(k % nodes, r) for k in range(4)]
            # they wait first
            rng.shuffle(fns)
            if not threads(fns):
                cl.ev("hang", c=-1)
            finish(run)
            return run.trace()
        finally:
            cl.kill()
    return go


def together(seed, nodes):
    """Many waiting for the same and neighbouring numbers before anything is committed, with equal time limits, then one commit at a time."""
    def go():
        rng = random.Random("%s-%s" % (SEED, seed))
        cl = Cluster(nodes)
        try:
            cl.ready()
            run = Run(cl)
            base = run.count(0)
            fns = []
            for k in range(12):
                node, dep = rng.randrange(nodes), base + 1 + rng.randrange(3)
                q = run.request(kind="get", node=node, dep=dep, limit=rng.choice([0, 0, 20000, 20000]))
                fns.append(lambda q=q: run.call(Conn(cl.nodes[q["node"]].public), q))
            for k in range(6):
                node = rng.randrange(nodes)
                q = run.request(kind="get", node=node, dep=base + 3 + rng.randrange(2), limit=300, may=["timeout"])
                fns.append(lambda q=q: run.call(Conn(cl.nodes[q["node"]].public), q))

            def commits():
                time.sleep(2.2)
                conn = Conn(cl.nodes[-1].public)
                for k in range(4):
                    run.call(conn, run.request(node=len(cl.nodes) - 1))
                    time.sleep(0.3)
            if not threads(fns + [commits]):
                cl.ev("hang", c=-1)
            finish(run)
            return run.trace()
        finally:
            cl.kill()
    return go


def run(ctx):
    model(ctx, ["early", "oneTooMany"], liveness=True)
    k = 4 if vlib.THOROUGH else 1
    sc = []
    for i in range(k):
        sc += [scenario("a%d" % i, 3, 25, 6), scenario("b%d" % i, 1, 25, 3), together("c%d" % i, 3), together("d%d" % i, 1), together("e%d" % i, 3)]
    judge(ctx, sc, "dependent commands")
    ctx.assumptions += ["one host, real time"]
