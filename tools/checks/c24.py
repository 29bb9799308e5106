"""C24: Query commands."""
import binascii, sqlite3, base64
import vlib
from vlib import *
from checks.jobs import exe

MC = """SPECIFICATION Spec
CONSTANT Ids = {%s}
CONSTANT Txts = {"x", "y"}
CONSTANT MaxOps = %d
CONSTANT MISTAKE = "%s"
INVARIANT Same NothingBad Unique
CHECK_DEADLOCK FALSE
"""
TX = ["x", "y", "y's", "a b", "delete from ta", " WHERE ", "; --", "\u00e9", "\\", "\"q\"", "12", "a%", ":p", "commit;"]
SCHEMA = "CREATE TABLE ta (a INTEGER PRIMARY KEY, b TEXT); CREATE TABLE tb (a INTEGER PRIMARY KEY, b TEXT UNIQUE);"


def q(s):
    return "'" + s.replace("'", "''") + "'"


class Gen:
    """Random statements: what the specification is told, and as SQL text."""

    def __init__(self, r):
        self.r, self.params = r, {}

    def case(self, s):
        return s if self.r.random() < 0.6 else s.lower()

    def txt(self, s):
        if self.r.random() < 0.25:
            n = ":p%d" % len(self.params)
            self.params["sql-param-#3Ap%d" % len(self.params)] = "T" + base64.b64encode(s.encode()).decode()
            return n
        return q(s)

    def num(self, n):
        if self.r.random() < 0.1:
            k = len(self.params)
            self.params["sql-param-#40n%d" % k] = "I%d" % n
            return "@n%d" % k
        return str(n)

    def cond(self, d, always=False):
        r = self.r
        x = r.random()
        if x < 0.12 and not always:
            return ""
        d["c"] = r.choice(["eq", "eq", "gt", "txt", "none", "all"])
        d["n"], d["txt"] = r.randint(0, 6), r.choice(TX)
        w = self.case(" WHERE ") if r.random() < 0.93 else "\nWHERE "
        return w + {"eq": "a = " + self.num(d["n"]), "gt": "a > " + self.num(d["n"]), "txt": "b = " + self.txt(d["txt"]), "none": "1 = 0", "all": "1"}[d["c"]]

    def stmt(self, kind=None):
        r = self.r
        d = dict(op="", t=r.choice(["ta", "tb"]), rows=[], mode="abort", c="all", n=1, txt="x", set="x", add=False, k=0, desc=False)
        t = d["t"]
        k = kind or r.choice(["ins"] * 6 + ["copy", "upd", "upd", "move", "del", "del", "sel", "sel", "count", "both", "txn", "broken", "ddl"])
        d["op"] = k
        mode = lambda: {"abort": "", "ignore": " OR IGNORE", "replace": " OR REPLACE"}[d["mode"]]
        if k == "ins":
            d["mode"] = r.choice(["abort"] * 3 + ["ignore", "replace"])
            d["rows"] = [dict(a=r.randint(0, 6), b=r.choice(TX)) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            if r.random() < 0.6:
                d["rows"] = [dict(a=0, b=x["b"]) for x in d["rows"]]
            return d, "%s INTO %s (a, b) VALUES %s" % (self.case("INSERT" + mode()), t, ", ".join("(%s, %s)" % (x["a"] or "NULL", self.txt(x["b"])) for x in d["rows"]))
        if k == "copy":
            d["mode"], d["k"] = r.choice(["abort", "ignore", "replace"]), r.randint(0, 3)
            o = "tb" if t == "ta" else "ta"
            return d, "%sINSERT%s INTO %s SELECT a + %d, b FROM %s%s ORDER BY a" % (r.choice(["", "WITH c AS (SELECT 1) "]), mode(), t, d["k"], o, self.cond(d))
        if k == "upd":
            d["set"] = r.choice(TX)
            d["add"] = t == "ta" and r.random() < 0.3
            v = self.txt(d["set"])
            return d, "%s %s SET b = %s%s" % (self.case("UPDATE"), t, "b || " + v if d["add"] else v, self.cond(d))
        if k == "move":
            d["k"] = r.randint(1, 7)
            return d, "UPDATE %s SET a = %d%s" % (t, d["k"], self.cond(d))
        if k == "del":
            return d, "%s FROM %s%s" % (self.case("DELETE"), t, self.cond(d))
        if k == "sel":
            d["desc"] = r.random() < 0.4
            return d, "%s a, b FROM %s%s ORDER BY a%s" % (self.case("SELECT"), t, self.cond(d), " DESC" if d["desc"] else "")
        if k == "count":
            return d, "SELECT count(*) FROM %s%s" % (t, self.cond(d))
        if k == "both":
            w = self.cond(d)
            o = "tb" if t == "ta" else "ta"
            return d, "SELECT a, b FROM (SELECT 0 AS w, a, b FROM %s%s UNION ALL SELECT 1, a, b FROM %s%s ORDER BY w, a)" % (t, w, o, w)
        if k == "txn":
            return d, r.choice(["BEGIN", "BEGIN IMMEDIATE", "COMMIT", "END", "ROLLBACK", "SAVEPOINT s", "RELEASE s", "commit"])
        if k == "broken":
            return d, r.choice(["SELEC 1", "SELECT * FROM nosuch", "INSERT INTO ta VALUES (1)", "UPDATE ta SET z = 1 WHERE a = 1", "SELECT nofun(1)", "DELETE FROM ta WHERE", "'"])
        return d, r.choice(["DROP TABLE IF EXISTS nosuch", "CREATE INDEX IF NOT EXISTS ix ON ta (b)", "DROP INDEX IF EXISTS ix", "CREATE TABLE IF NOT EXISTS tz (q)"])

    def query(self):
        r = self.r
        self.params = {}
        x = r.random()
        if x < 0.72:
            parts = [self.stmt()]
        elif x < 0.92:
            parts = [self.stmt(r.choice(["ins", "upd", "del", "copy", "move"])) for _ in range(r.randint(2, 3))]
        else:
            parts = [self.stmt(r.choice(["sel", "count", "ins", "del", "txn", "upd"])) for _ in range(2)]
        ss = [p[0] for p in parts]
        semi = r.random() > 0.05
        sql = (";" + r.choice([" ", "\n", ""])).join(p[1] for p in parts) + (";" if semi else "")
        if ss[-1]["op"] == "broken" and parts[-1][1] == "'":
            semi = True
        ask = {}
        shown, fmt = True, r.choice(["list", "json", "list", "json", "args", "none"])
        read = all(s["op"] in ("sel", "count", "both") for s in ss)
        if read and len(ss) > 1:
            ss, parts = ss[:1], parts[:1]
            sql = parts[0][1] + (";" if semi else "")
        if fmt == "json":
            ask["Format"] = "json"
        elif fmt == "args":
            ask["SQLiteArgs"] = "-json"
        elif fmt == "none":
            ask["SuppressResult"] = "true"
            shown = False
        nowhere = r.random() < 0.3
        if nowhere:
            ask["nowhere"] = "true"
        elif r.random() < 0.1:
            ask["nowhere"] = "false"
        up = sql.strip().upper()
        pre = r.choice(["", "", "", " ", "\n", "/* c */ "]) if ss[0]["op"] not in ("upd", "move", "del", "ins") else r.choice(["", "", " ", "\n"])
        if "\n" not in sql and r.random() < 0.15 and not pre.strip():
            ask["_verb"] = r.choice(["Query: ", "query:", "QUERY:  "]) + sql
        else:
            ask["_verb"], ask["query"] = "Query", pre + sql
        ask.update(self.params)
        if r.random() < 0.06:
            ask["_rollback"] = "1"
        return ask, dict(ss=ss, semi=semi, danger=up.startswith(("UPDATE", "DELETE")), where=" WHERE " in up, nowhere=nowhere), fmt, shown


def rows_of(fmt, content, ok):
    """The rows of an answer, every value as text."""
    if not ok or not content:
        return []
    text = lambda v: "" if v is None else str(v)
    if fmt == "json":
        return [[text(v) for v in r] for r in json.loads(content)["rows"]]
    if fmt == "args":
        return [[text(v) for v in r.values()] for r in json.loads(content)]
    return [x.split("|") for x in content.split("\n")[1:-1]]


def utf8(x):
    """The driver writes bytes; what they spell."""
    if isinstance(x, str):
        return x.encode("latin-1").decode("utf-8", "replace")
    if isinstance(x, list):
        return [utf8(v) for v in x]
    if isinstance(x, dict):
        return {k: utf8(v) for k, v in x.items()}
    return x


def post_with(plan):
    def post(traces):
        assert len(traces) <= len(plan), (len(traces), len(plan))
        out = []
        for t, pl in zip(traces, plan):
            rep = sqlite3.connect(":memory:", isolation_level=None)
            o = [dict(e="begin")]
            for k, ev in enumerate(t[1:]):
                ev = utf8(ev)
                alive = True
                for _, text in ev["journal"]:
                    try:
                        rep.executescript("BEGIN; %s; COMMIT;" % text.rstrip().rstrip(";"))
                    except sqlite3.Error:
                        alive = False
                if k == 0:
                    assert ev["code"].startswith("200"), ev["code"]
                    continue
                _, spec, fmt, shown = pl[k - 1]
                dump = {n: [dict(a=int(r[0]), b=r[1]) for r in ev[n]] for n in ("ta", "tb")}
                mine = {n: [dict(a=r[0], b=r[1]) for r in rep.execute("SELECT a, b FROM %s ORDER BY a" % n)] for n in ("ta", "tb")}
                ok = ev["code"].startswith("200")
                s0 = spec["ss"][0]
                plain = len(spec["ss"]) == 1 and s0["op"] == "ins" and s0["mode"] == "abort"
                last = int(ev["head"].get("lastInsertRowID", 0))
                o.append(dict(e="query", q=spec, ok=ok, code=ev["code"], lost=ev["code"] == "ROLLED BACK", ta=dump["ta"], tb=dump["tb"], same=alive and mine == dump, shown=shown,
                              commits=ev["commits"], rows=rows_of(fmt, ev["content"], ok), closed="_open" not in ev["req"], last=last if plain else 0,
                              mustlast=plain and not ev["req"].get("_rollback"), text=ev["req"].get("query", ev["req"]["_verb"])))
            out.append(o)
        return out
    return post


def script(r, n, steps):
    lines, plan = [], []
    for _ in range(n):
        lines.append('begin {"-cache.max":"30"}')
        lines.append("cmd " + json.dumps(dict(_verb="Query", query=SCHEMA)))
        g, pl = Gen(r), []
        for _ in range(steps):
            x = g.query()
            pl.append(x)
            lines.append("cmd " + json.dumps(x[0], ensure_ascii=False))
        plan.append(pl)
    return "\n".join(lines) + "\n", plan


def run(ctx):
    tlc_model(ctx, "DBMC", MC % (("1, 2", 3, "none") if not THOROUGH else ("1, 2, 3", 4, "none")), timeout=3000)
    for m in ("firstOnly", "keepPartial", "anyDelete"):
        tlc_must_fail(ctx, "DBMC", MC % ("1, 2", 3, m))
    n = 120
    for _ in range(1 if not THOROUGH else 20):
        s, plan = script(ctx.rng, n, 50)
        drive_and_validate(ctx, exe(), s, "DBTrace", post=post_with(plan), constants='CONSTANT MISTAKE = "none"', expect_traces=n, what="Query commands of the DB plugin", timeout=200)
    ctx.assumptions += ["two tables of an id and a text; queries of a grammar covering single and multiple reads, inserts (also from a select), updates, deletes, schema changes, transaction control and broken SQL",
                        "an independent SQLite (Python's) runs the replicated text as a follower would; texts without zero bytes"]
