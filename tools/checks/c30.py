"""C30: blocking writes really stops them, and unblocking really resumes them."""
from checks.server import *


def ask(run, i, line, may=None, timeout=25):
    """A control command that has to be answered."""
    try:
        r = run.cl.control(i, line, timeout=timeout)
        reply = r.line if r else "closed"
    except TimeoutError:
        reply = "hang"
    except OSError:
        reply = "refused"
    if may is not None:
        run.cl.ev("control", node=run.cl.nodes[i].name, line=line, reply=reply, may=may)
    return reply


def block(run, i):
    reply = ask(run, i, "BlockWrites")
    run.cl.ev("block", node=run.cl.nodes[i].name, reply=reply, count=run.count(i))
    return reply


def scenario(seed, nodes, rounds, detach=False):
    def go():
        rng = random.Random("%s-%s-%s" % (SEED, seed, nodes))
        cl = Cluster(nodes)
        try:
            cl.ready()
            run = Run(cl)
            stop = threading.Event()

            def client(node, r):
                conn = Conn(cl.nodes[node].public)
                while not stop.is_set():
                    x = r.random()
                    run.call(conn, run.request(node=node, params={"t": r.randrange(6), "proc": r.randrange(4)}))
                    time.sleep(0.08 if x < 0.3 else 0.01)
                conn.close()

            def reader(node):
                # answered while writes are blocked
                conn = Conn(cl.nodes[node].public)
                for _ in range(3):
                    run.call(conn, run.request(kind="get", node=node, limit=8000))
                conn.close()
            ts = [threading.Thread(target=client, args=(k % nodes, random.Random(rng.random())), daemon=True) for k in range(5)]
            for t in ts:
                t.start()
            where = 0
            for k in range(rounds):
                time.sleep(rng.uniform(0.05, 0.25))
                who = where if rng.random() < 0.7 else rng.randrange(nodes)
                name = cl.nodes[who].name
                if rng.random() < 0.3:
                    ask(run, who, "UnblockWrites", may=["200 Not Blocked"])
                if block(run, who) != "200 Blocked":
                    continue
                for _ in range(rng.randrange(1, 4)):
                    time.sleep(rng.uniform(0.02, 0.1))
                    if rng.random() < 0.5:
                        block(run, who)
                    else:
                        cl.ev("still", node=name, count=run.count(who))
                    if rng.random() < 0.7:
                        reader(who)
                # concurrent requests for the same
                if rng.random() < 0.5:
                    threads([lambda: ask(run, who, "BlockWrites", may=["400 Already Blocked"]) for _ in range(3)])
                cl.ev("unblock", node=name)
                ask(run, who, "UnblockWrites", may=["200 Unblocked"])
            stop.set()
            for t in ts:
                t.join(30)
                if t.is_alive():
                    cl.ev("hang", c=-1)
            # both ways round at the same time: one of the orders explains the answers
            if rng.random() < 0.7:
                ask(run, 0, "UnblockWrites", may=["200 Not Blocked"])
            conn = Conn(cl.nodes[0].public)
            run.call(conn, run.request(node=0))
            conn.close()
            finish(run)
            return run.trace()
        finally:
            cl.kill()
    return go


def orders(seed, steps):
    """A node by itself goes through an order of block, unblock, detach, attach and finally ends; each request is answered."""
    def go():
        cl = Cluster(1)
        try:
            cl.ready()
            run = Run(cl)
            blocked, name = False, cl.nodes[0].name
            attached = True

            def put(wait=25):
                try:
                    conn = Conn(cl.nodes[0].public)
                except OSError:
                    return
                run.call(conn, run.request(node=0), wait=wait)
                conn.close()
            pending = None
            for st in steps:
                if st == "block":
                    if not attached:
                        reply = ask(run, 0, "BlockWrites", may=["500 Not running"])
                    else:
                        block(run, 0)
                        blocked = True
                elif st == "unblock":
                    if blocked:
                        cl.ev("unblock", node=name)
                    ask(run, 0, "UnblockWrites", may=["200 Unblocked"] if blocked else ["200 Not Blocked"])
                    blocked = False
                    if pending:
                        pending.join(30)
                        if pending.is_alive():
                            cl.ev("hang", c=-1)
                        pending = None
                elif st == "detach":
                    if blocked:
                        cl.ev("unblock", node=name)     # detaching (or ending) lifts the block
                        blocked = False
                    ask(run, 0, "Detach", may=["203 DETACHING"])
                    ok = cl.wait(lambda: detached(cl), 25, "detach")
                    cl.ev("control", line="(detached)", reply="yes" if ok else "no", may=["yes"])
                    attached = False
                    if pending:
                        pending.join(30)
                        if pending.is_alive():
                            cl.ev("hang", c=-1)
                        pending = None
                elif st == "attach":
                    ask(run, 0, "Attach", may=["204 ATTACHING"])
                    try:
                        cl.ready()
                        ok = True
                    except CheckError:
                        ok = False
                    cl.ev("control", line="(attached)", reply="yes" if ok else "no", may=["yes"])
                    attached = True
                elif st == "put":
                    if blocked:
                        pending = threading.Thread(target=put, daemon=True)
                        pending.start()
                        time.sleep(0.2)
                        cl.ev("still", node=name, count=run.count(0))
                    else:
                        put()
                elif st == "get":
                    conn = Conn(cl.nodes[0].public)
                    run.call(conn, run.request(kind="get", node=0, limit=5000))
                    conn.close()
            if blocked:
                cl.ev("unblock", node=name)
            finish(run)
            return run.trace()
        finally:
            cl.kill()
    return go


def detached(cl):
    return str(cl.status(0).get("isDetached")).lower() == "true"


def run(ctx):
    model(ctx, ["commitWhileBlocked"])
    k = 4 if vlib.THOROUGH else 1
    sc = []
    for i in range(k):
        sc += [scenario("a%d" % i, 1, 8), scenario("b%d" % i, 3, 8)]
    sc += [orders("o1", ["put", "block", "get", "put", "unblock", "put", "block", "block", "unblock", "unblock", "put"]),
           orders("o2", ["put", "detach", "block", "unblock", "attach", "put", "block", "put", "unblock", "put"]),
           orders("o3", ["put", "block", "detach", "unblock", "attach", "put", "get"]),
           orders("o4", ["put", "block"]),
           orders("o5", ["put", "block", "put", "detach", "attach", "get"]),
           orders("o6", ["put", "block", "put"])]
    judge(ctx, sc, "blocked writes")
    ctx.assumptions += ["one host, real time"]
