// Drives real SQLite handles (sqlitecluster/SQLite.*) over one database file: scripted interleavings of handles (each in its
// own thread), free concurrency, and process ends at chosen points.  Script lines; see execute().
//   begin ...            a new trace in a fresh directory; what follows up to the next "begin" belongs to it
//   segment [crash K]    the lines after it run in a process of their own, ended (kill -9) before its K-th statement step
#include <libstuff/libstuff.h>
#include <libstuff/sqlite3.h>
#include <sqlitecluster/SQLite.h>
#include <plugins/Compression.h>
#include <zdict.h>
#include <condition_variable>
#include <csignal>
#include <map>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include "shim/sqlite_shim.h"
#include "util.h"

// ---- a clock for SQLite's own time functions
static sqlite3_vfs vfs;
static atomic<sqlite3_int64> vfsOffset(0);
static int (*realTime)(sqlite3_vfs*, sqlite3_int64*);
static int fakeTime(sqlite3_vfs* v, sqlite3_int64* t)
{
    int rc = realTime(v, t);
    *t += vfsOffset;
    return rc;
}
static uint64_t rs = 1;
static mutex rsm;
static uint64_t rnd()
{
    lock_guard<mutex> l(rsm);
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return rs >> 9;
}
static string bytes(const string& s)
{
    string o = "[";
    for (unsigned char c : s) {
        o += (o.size() > 1 ? "," : "") + to_string((int) c);
    }
    return o + "]";
}
static string rows(SQResult& r)
{
    string o = "[";
    for (auto& row : r) {
        string x = "[";
        for (size_t i = 0; i < row.size(); i++) {
            x += string(i ? "," : "") + jstr(row[i]);
        }
        o += string(o.size() > 1 ? "," : "") + x + "]";
    }
    return o + "]";
}
static string dir, path;
// ---- the whole database as another process would see it
static string sel(sqlite3* db, const string& q)
{
    SQResult r;
    if (SQuery(db, q, r)) {
        return "[" + jstr("error "s + sqlite3_errmsg(db)) + "]";
    }
    return rows(r);
}
static void dump(const string& name)
{
    sqlite3* db = nullptr;
    sqlite3_open_v2(path.c_str(), &db, SQLITE_OPEN_READONLY, nullptr);
    sqlite3_busy_timeout(db, 5000);
    BedrockPlugin_Compression::registerSQLite(db);
    SQResult js;
    SQuery(db, "SELECT name FROM sqlite_master WHERE type='table' AND name LIKE 'journal%' ORDER BY name", js);
    SQuery(db, "BEGIN");
    string q, per = "[";
    for (size_t i = 0; i < js.size(); i++) {
        q += (i ? " UNION ALL " : "") + ("SELECT id, hash, decompress(query) AS query FROM " + js[i][0]);
        SQResult c;
        SQuery(db, "SELECT id FROM " + js[i][0] + " ORDER BY id", c);
        string ids = "[";
        for (size_t k = 0; k < c.size(); k++) {
            ids += (k ? "," : "") + c[k][0];
        }
        per += string(i ? "," : "") + ids + "]";
    }
    Rec(name).raw("journal", q.empty() ? "[]" : sel(db, "SELECT id, hash, query FROM (" + q + ") ORDER BY id")).raw("per", per + "]")
        .raw("a", sel(db, "SELECT k, v FROM a ORDER BY k")).raw("b", sel(db, "SELECT k, v FROM b ORDER BY k")).emit();
    SQuery(db, "COMMIT");
    sqlite3_close_v2(db);
}
// ---- handles, each with its own thread
struct Handle {
    unique_ptr<SQLite> db;
    thread th;
    mutex m;
    condition_variable cv;
    function<void()> job;
    bool busy = false, stop = false;
    atomic<bool> abort{false};
    map<string, set<string>> white;
    void loop()
    {
        SInitialize("h");
        unique_lock<mutex> l(m);
        while (true) {
            cv.wait(l, [&]() {
                return job || stop;
            });
            if (!job) {
                return;
            }
            auto j = move(job);
            job = nullptr;
            l.unlock();
            j();
            l.lock();
            busy = false;
            cv.notify_all();
        }
    }
};
static map<int, unique_ptr<Handle>> handles;
static recursive_mutex order; // a release and its record are one step to whoever was waiting
static atomic<int> lockOwner(-1); // who holds the commit lock as far as the calls' results tell
static Handle& H(int h)
{
    auto& p = handles[h];
    if (!p) {
        p = make_unique<Handle>();
        p->th = thread([q = p.get()]() {
            q->loop();
        });
    }
    return *p;
}
// Runs f on the handle's thread. If it does not finish: within a moment when another handle holds the commit lock, and within
// a long time otherwise, it is recorded as pending.
static void on(int h, const string& what, bool mayWait, function<void()> f)
{
    Handle& x = H(h);
    unique_lock<mutex> l(x.m);
    if (x.busy) {
        // the previous call of this handle is still waiting
        if (!x.cv.wait_for(l, chrono::seconds(20), [&]() {
            return !x.busy;
        })) {
            Rec("stuck").i("h", h).emit();
            _exit(0);
        }
    }
    x.job = f;
    x.busy = true;
    x.cv.notify_all();
    auto limit = mayWait && lockOwner.load() != -1 && lockOwner.load() != h ? chrono::milliseconds(40) : chrono::milliseconds(20000);
    if (!x.cv.wait_for(l, limit, [&]() {
        return !x.busy;
    })) {
        Rec("pending").i("h", h).t("what", what).emit();
    }
}
// after a release: whoever was waiting gets going
static void settle()
{
    for (auto& p : handles) {
        unique_lock<mutex> l(p.second->m);
        if (p.second->busy && lockOwner.load() == -1) {
            p.second->cv.wait_for(l, chrono::seconds(20), [&]() {
                return !p.second->busy;
            });
        }
    }
}
// ---- statements
struct Op {
    string op, t;
    long k = 0, v = 0;
};
static string sqlOf(const Op& o, bool params)
{
    string k = params ? ":k" : to_string(o.k), v = params ? ":v" : to_string(o.v);
    if (o.op == "put") {
        return "INSERT OR REPLACE INTO " + o.t + " VALUES(" + k + ", " + v + ");";
    }
    if (o.op == "ins") {
        return "INSERT INTO " + o.t + " VALUES(" + k + ", " + v + ");";
    }
    if (o.op == "add") {
        return "UPDATE " + o.t + " SET v = v + " + v + " WHERE k = " + k + ";";
    }
    if (o.op == "del") {
        return "DELETE FROM " + o.t + " WHERE k = " + k + ";";
    }
    if (o.op == "heavy") {
        return "UPDATE " + o.t + " SET v = v + (WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x + 1 FROM c WHERE x < 20000000) SELECT count(*) FROM c) WHERE k = " + k + ";";
    }
    if (o.op == "big") {
        return "INSERT OR REPLACE INTO " + o.t + " VALUES(" + k + ", " + v + " /* " + string(120, 'x') + " */);";
    }
    return "INSERT INTO nosuch VALUES(" + k + ");";
}
static string opsJson(const vector<Op>& ops)
{
    string o = "[";
    for (auto& x : ops) {
        o += string(o.size() > 1 ? "," : "") + "{\"op\":" + jstr(x.op) + ",\"t\":" + jstr(x.t) + ",\"k\":" + to_string(x.k) + ",\"v\":" + to_string(x.v) + "}";
    }
    return o + "]";
}
static string guarded(function<bool()> f)
{
    try {
        return f() ? "ok" : "false";
    } catch (const SQLite::constraint_error&) {
        return "constraint";
    } catch (const SQLite::timeout_error&) {
        return "timeout";
    } catch (const SException& e) {
        return SStartsWith(e.method, "499") ? "abort" : "throw " + e.method;
    }
}
static map<string, SQLite::Parameter> paramsOf(const Op& o)
{
    return {{":k", SQLite::Parameter::i(o.k)}, {":v", SQLite::Parameter::i(o.v)}};
}
static string expanded(const Op& o, const string& sql)
{
    return SReplace(SReplace(sql, ":k", to_string(o.k)), ":v", to_string(o.v));
}
static string g_rewrite;
static bool rewriteHandler(int action, const char* table, string& q)
{
    if (action == SQLITE_INSERT && table && !strcmp(table, "a")) {
        q = g_rewrite;
        return true;
    }
    return false;
}
static vector<Op> prepareOps;
static void onPrepare(SQLite& db, int64_t)
{
    for (auto& o : prepareOps) {
        db.write(sqlOf(o, false));
    }
}
static string readSql(const vector<string>& w, size_t i, map<string, SQLite::Parameter>& p)
{
    if (w[i] == "get") {
        return "SELECT v FROM " + w[i + 1] + " WHERE k = " + w[i + 2] + ";";
    }
    if (w[i] == "pget") {
        p = {{":k", SQLite::Parameter::i(atol(w[i + 2].c_str()))}};
        return "SELECT v FROM " + w[i + 1] + " WHERE k = :k;";
    }
    if (w[i] == "nget") { // the text of pget without its parameter
        return "SELECT v FROM " + w[i + 1] + " WHERE k = :k;";
    }
    if (w[i] == "all") {
        return "SELECT k, v FROM " + w[i + 1] + " ORDER BY k;";
    }
    if (w[i] == "cnt") {
        return "SELECT COUNT(*) FROM " + w[i + 1] + ";";
    }
    if (w[i] == "write") { // a write disguised as a read
        return "INSERT INTO " + w[i + 1] + " VALUES(" + w[i + 2] + ", 1);";
    }
    if (w[i] == "view") {
        return "SELECT k, v FROM va ORDER BY k;";
    }
    if (w[i] == "sub") {
        return "SELECT (SELECT COUNT(*) FROM " + w[i + 1] + " WHERE v > 0);";
    }
    if (w[i] == "kv") { // columns one by one
        return "SELECT k FROM " + w[i + 1] + " ORDER BY k;";
    }
    return "SELECT 1;";
}
static Op opAt(const vector<string>& w, size_t i)
{
    Op o;
    o.op = w[i];
    o.t = w[i + 1];
    o.k = atol(w[i + 2].c_str());
    o.v = atol(w[i + 3].c_str());
    return o;
}
static void concurrent(const vector<string>& w);

static void execute(const vector<string>& w)
{
    const string& c = w[0];
    auto h = [&]() {
        return atoi(w[1].c_str());
    };
    if (c == "open") { // open <h> <max journal> <min tables>
        on(h(), c, false, [&]() {
            H(h()).db = make_unique<SQLite>(path, 1000, atoi(w[2].c_str()), atoi(w[3].c_str()));
            H(h()).db->setOnPrepareHandler(onPrepare);
            H(h()).db->setRewriteHandler(rewriteHandler);
            SQResult has;
            H(h()).db->read("SELECT name FROM sqlite_master WHERE name = 'zstdDictionaries';", has);
            if (!has.empty()) { // as the plugin does at start
                BedrockPlugin_Compression::loadDictionariesFromDB(*H(h()).db);
            }
            Rec("open").i("h", h()).i("max", atoi(w[2].c_str())).i("count", H(h()).db->getCommitCount()).t("hash", H(h()).db->getCommittedHash()).emit();
        });
    } else if (c == "copy") { // copy <h> <from>
        on(h(), c, false, [&]() {
            H(h()).db = make_unique<SQLite>(*H(atoi(w[2].c_str())).db);
            H(h()).db->setOnPrepareHandler(onPrepare);
            H(h()).db->setRewriteHandler(rewriteHandler);
            Rec("copy").i("h", h()).i("from", atoi(w[2].c_str())).i("count", H(h()).db->getCommitCount()).t("hash", H(h()).db->getCommittedHash()).emit();
        });
    } else if (c == "close") {
        on(h(), c, false, [&]() {
            lock_guard<recursive_mutex> inOrder(order);
            H(h()).db.reset();
            int me = h();
            lockOwner.compare_exchange_strong(me, -1);
            Rec("close").i("h", h()).emit();
        });
    } else if (c == "schema") { // the tables, outside any history
        sqlite3* db = nullptr;
        sqlite3_open(path.c_str(), &db);
        sqlite3_exec(db, "CREATE TABLE IF NOT EXISTS a(k INTEGER PRIMARY KEY, v INTEGER); CREATE TABLE IF NOT EXISTS b(k INTEGER PRIMARY KEY, v INTEGER); CREATE VIEW IF NOT EXISTS va AS SELECT k, v FROM a;", 0, 0, 0);
        sqlite3_close(db);
    } else if (c == "dict") { // compress the journal from now on, or not: dict <id>
        static bool loaded = false;
        if (!loaded && w[1] != "0") {
            loaded = true;
            sqlite3* db = nullptr;
            sqlite3_open(path.c_str(), &db);
            string samples, dict(4096, 0), content;
            vector<size_t> sizes;
            for (int i = 0; i < 200; i++) {
                string one = sqlOf({vector<string>{"put", "add", "del"}[i % 3], i % 2 ? "a" : "b", i % 7, i % 11}, false);
                one += sqlOf({"ins", "a", i, i * 3}, false);
                samples += one;
                sizes.push_back(one.size());
            }
            content = samples.substr(0, 600);
            ZDICT_params_t par{};
            par.dictID = 7;
            size_t n = ZDICT_finalizeDictionary(dict.data(), dict.size(), content.data(), content.size(), samples.data(), sizes.data(), sizes.size(), par);
            if (ZDICT_isError(n)) {
                cerr << "no dictionary: " << ZDICT_getErrorName(n) << endl;
                _exit(3);
            }
            sqlite3_exec(db, "CREATE TABLE IF NOT EXISTS zstdDictionaries (dictionaryID INTEGER PRIMARY KEY, description TEXT, dictionary BLOB);", 0, 0, 0);
            sqlite3_stmt* q = nullptr;
            sqlite3_prepare_v2(db, "INSERT OR IGNORE INTO zstdDictionaries VALUES (7, 'x', ?);", -1, &q, nullptr);
            sqlite3_bind_blob(q, 1, dict.data(), n, SQLITE_TRANSIENT);
            sqlite3_step(q);
            sqlite3_finalize(q);
            sqlite3_close(db);
            BedrockPlugin_Compression::loadDictionariesFromDB(*H(0).db);
        }
        SQLite::journalZstdDictionaryID = atoi(w[1].c_str());
    } else if (c == "tx") { // tx <h> shared|excl
        auto w1 = w;
        on(h(), c, w[2] == "excl", [w1]() {
            int h = atoi(w1[1].c_str());
            bool excl = w1[2] == "excl";
            bool ok = false;
            unique_lock<recursive_mutex> whole(order, defer_lock);
            if (!excl) {
                whole.lock();
            }
            string r = guarded([&]() {
                ok = H(h).db->beginTransaction(excl ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED);
                return ok;
            });
            lock_guard<recursive_mutex> inOrder(order);
            if (excl && ok) {
                lockOwner = h;
            }
            if (r.substr(0, 5) == "throw") {
                int me = h;
                lockOwner.compare_exchange_strong(me, -1); // it rolled back
            }
            Rec("tx").i("h", h).b("excl", excl).t("res", r.substr(0, 5)).emit();
        });
        settle();
    } else if (c == "w") { // w <h> write|idem|unmod|pwrite|pidem|local <op> <t> <k> <v> [<op> ...]
        on(h(), c, false, [&]() {
            const string& kind = w[2];
            vector<Op> ops;
            string sql, want;
            vector<string> parts;
            for (size_t i = 3; i + 3 < w.size(); i += 4) {
                ops.push_back(opAt(w, i));
                string one = sqlOf(ops.back(), kind[0] == 'p');
                sql += one;
                parts.push_back(expanded(ops.back(), one));
            }
            SQLite& db = *H(h()).db;
            string r = guarded([&]() {
                SQResult res;
                if (kind == "write") {
                    return db.write(sql);
                }
                if (kind == "wres") {
                    return db.write(sql, res);
                }
                if (kind == "idem") {
                    return db.writeIdempotent(sql);
                }
                if (kind == "unmod") {
                    return db.writeUnmodified(sql);
                }
                if (kind == "pwrite") {
                    return db.write(sql, paramsOf(ops[0]));
                }
                if (kind == "pidem") {
                    return db.writeIdempotent(sql, paramsOf(ops[0]), res);
                }
                return db.writeLocalUnreplicated(sql);
            });
            Rec("w").i("h", h()).t("kind", kind).raw("ops", opsJson(ops)).t("res", SBefore(r + " ", " ")).strs("sql", parts).emit();
        });
    } else if (c == "r") { // r <h> <query...>
        on(h(), c, false, [&]() {
            map<string, SQLite::Parameter> p;
            string sql = readSql(w, 2, p);
            SQResult res;
            SQLite& db = *H(h()).db;
            string r = guarded([&]() {
                return p.empty() ? db.read(sql, res) : db.read(sql, p, res);
            });
            Rec("r").i("h", h()).t("q", w[2]).t("t", w.size() > 3 ? w[3] : "").i("k", w.size() > 4 ? atol(w[4].c_str()) : 0).t("res", SBefore(r + " ", " ")).raw("rows", rows(res)).emit();
        });
    } else if (c == "fn") { // fn <h> <expression>: read it, let time pass, read it again
        on(h(), c, false, [&]() {
            SQLite& db = *H(h()).db;
            string e;
            for (size_t i = 2; i < w.size(); i++) {
                e += (i > 2 ? " " : "") + w[i];
            }
            SQResult r1, r2;
            bool ok = db.read("SELECT " + e + ";", r1) && r1.size() == 1;
            vfsOffset += 86400'000ll * 400 + 3723'457;
            ok = db.read("SELECT " + e + ";", r2) && r2.size() == 1 && ok;
            Rec("fn").i("h", h()).t("expr", e).b("ok", ok).b("same", ok && r1[0][0] == r2[0][0]).emit();
        });
    } else if (c == "prep") { // prep <h> [abort] [timeout ms]
        auto w1 = w;
        on(h(), c, false, [w1]() {
            int h = atoi(w1[1].c_str());
            Handle& x = H(h);
            uint64_t id = 0;
            string hash;
            int ms = w1.size() > 2 ? atoi(w1[2].c_str()) : 30;
            x.abort = w1.size() > 3 && w1[3] == "abort";
            bool abort = x.abort;
            lock_guard<recursive_mutex> inOrder(order);
            string r = guarded([&]() {
                return x.db->prepare(&id, &hash, chrono::milliseconds(ms), &x.abort);
            });
            x.abort = false;
            if (r == "ok") {
                lockOwner = h;
            } else if (!x.db->insideTransaction()) {
                int me = h;
                lockOwner.compare_exchange_strong(me, -1);
            }
            Rec("prep").i("h", h).t("res", SBefore(r + " ", " ")).i("id", id).t("hash", hash).b("abort", abort).b("inside", x.db->insideTransaction()).i("ms", ms).emit();
        });
        settle();
    } else if (c == "commit") {
        auto w1 = w;
        on(h(), c, false, [w1]() {
            int h = atoi(w1[1].c_str());
            SQLite& db = *H(h).db;
            lock_guard<recursive_mutex> inOrder(order);
            bool force = w1.size() > 2;
            if (force) {
                shimHooks.forceConflict = [&](sqlite3* d) {
                    return d == db.getDBHandle();
                };
            }
            int r = db.commit("test", "test");
            shimHooks.forceConflict = nullptr;
            if (r == 0) {
                lockOwner = -1;
            }
            Rec("commit").i("h", h).t("res", r == 0 ? "ok" : r == SQLITE_BUSY_SNAPSHOT ? "conflict" : r == SQLite::COMMIT_DISABLED ? "disabled" : "other").b("forced", force).i("count", db.getCommitCount()).t("hash", db.getCommittedHash()).emit();
        });
        settle();
        dump("dump");
    } else if (c == "rollback") {
        auto w1 = w;
        on(h(), c, false, [w1]() {
            int h = atoi(w1[1].c_str());
            lock_guard<recursive_mutex> inOrder(order);
            H(h).db->rollback();
            int me = h;
            lockOwner.compare_exchange_strong(me, -1);
            Rec("rollback").i("h", h).b("inside", H(h).db->insideTransaction()).i("count", H(h).db->getCommitCount()).emit();
        });
        settle();
        dump("dump");
    } else if (c == "enable") { // commits of this database on or off
        on(h(), c, false, [&]() {
            H(h()).db->setCommitEnabled(w[2] == "1");
            Rec("enable").b("on", w[2] == "1").emit();
        });
    } else if (c == "timeout") {
        on(h(), c, false, [&]() {
            if (w[2] == "0") {
                H(h()).db->clearTimeout();
            } else {
                H(h()).db->setTimeout((uint64_t) atol(w[2].c_str()));
            }
        });
    } else if (c == "abortref") { // abortref <h> 1|0: the caller has lost interest
        on(h(), c, false, [&]() {
            H(h()).abort = w[2] == "1";
            if (w[2] == "1") {
                H(h()).db->setAbortRef(H(h()).abort);
            } else {
                H(h()).db->clearAbortRef();
            }
        });
    } else if (c == "notify") { // notify <h> 0|1 [ops]: the on-prepare handler writes these
        prepareOps.clear();
        for (size_t i = 3; i + 3 < w.size(); i += 4) {
            prepareOps.push_back(opAt(w, i));
        }
        on(h(), c, false, [&]() {
            H(h()).db->enablePrepareNotifications(w[2] == "1");
            vector<string> parts;
            for (auto& o : prepareOps) {
                parts.push_back(sqlOf(o, false));
            }
            Rec("notify").i("h", h()).b("on", w[2] == "1").raw("ops", opsJson(prepareOps)).strs("sql", parts).emit();
        });
    } else if (c == "fail") { // fail <code> <start of statement>: the next such statement fails
        string what;
        for (size_t i = 2; i < w.size(); i++) {
            what += (i > 2 ? " " : "") + w[i];
        }
        int code = atoi(w[1].c_str());
        shimHooks.failStep = [what, code](sqlite3*, const char* s) {
            if (code && !strncmp(s, what.c_str(), what.size())) {
                shimHooks.failStep = nullptr;
                return code;
            }
            return 0;
        };
        if (!code) {
            shimHooks.failStep = nullptr;
        }
        Rec("fail").b("on", code != 0).emit();
    } else if (c == "white") { // white <h> off | <table> <columns,> ...
        on(h(), c, false, [&]() {
            H(h()).white.clear();
            string o = "{";
            for (size_t i = 2; i + 1 < w.size(); i += 2) {
                auto cols = SParseList(w[i + 1]);
                H(h()).white[w[i]] = set<string>(cols.begin(), cols.end());
            }
            bool off = w[2] == "off";
            H(h()).db->whitelist = off ? nullptr : &H(h()).white;
            Rec r("white");
            r.i("h", h()).b("on", !off);
            for (string t : {"a", "b"}) {
                r.strs(t, H(h()).white[t]);
                if (H(h()).white[t].empty()) {
                    H(h()).white.erase(t);
                }
            }
            r.emit();
        });
    } else if (c == "noop") {
        on(h(), c, false, [&]() {
            H(h()).db->setUpdateNoopMode(w[2] == "1");
            Rec("noop").i("h", h()).b("on", w[2] == "1").b("is", H(h()).db->getUpdateNoopMode()).emit();
        });
    } else if (c == "rewrite") { // rewrite <h> 0|1 <op...>: INSERTs into a become this
        vector<Op> ops;
        vector<string> parts;
        g_rewrite.clear();
        for (size_t i = 3; i + 3 < w.size(); i += 4) {
            ops.push_back(opAt(w, i));
            parts.push_back(sqlOf(ops.back(), false));
            g_rewrite += parts.back();
        }
        on(h(), c, false, [&]() {
            H(h()).db->enableRewrite(w[2] == "1");
            Rec("rewrite").i("h", h()).b("on", w[2] == "1").raw("ops", opsJson(ops)).strs("sql", parts).emit();
        });
    } else if (c == "qonly") {
        on(h(), c, false, [&]() {
            H(h()).db->setQueryOnly(w[2] == "1");
            Rec("qonly").i("h", h()).b("on", w[2] == "1").emit();
        });
    } else if (c == "pop") {
        on(h(), c, false, [&]() {
            string o = "[";
            for (auto& p : H(h()).db->popCommittedTransactions()) {
                o += string(o.size() > 1 ? "," : "") + "{\"id\":" + to_string(p.first) + ",\"q\":" + jstr(BedrockPlugin_Compression::decompress(p.second.first)) + ",\"hash\":" + jstr(p.second.second) + "}";
            }
            Rec("pop").raw("txs", o + "]").emit();
        });
    } else if (c == "get") { // get <h>: every transaction by number, one beyond the last and 0
        on(h(), c, false, [&]() {
            SQLite& db = *H(h()).db;
            string o = "[";
            uint64_t n = db.getCommitCount();
            for (uint64_t i = 0; i <= n + 1; i++) {
                string q, hash, q2, hash2;
                bool ok = db.getCommit(i, &q, &hash);
                bool ok2 = db.getCommit(i, nullptr, &hash2);
                bool ok3 = db.getCommit(i, &q2, nullptr);
                o += string(i ? "," : "") + "{\"id\":" + to_string(i) + ",\"ok\":" + (ok ? "true" : "false") + ",\"agree\":" + (ok == ok2 && ok == ok3 && q == q2 && hash == hash2 ? "true" : "false") + ",\"q\":" + jstr(q) + ",\"hash\":" + jstr(hash) + "}";
            }
            Rec("get").raw("all", o + "]").emit();
        });
    } else if (c == "range") { // range <h> <from> <to>
        on(h(), c, false, [&]() {
            SQResult r;
            int rc = H(h()).db->getCompressedCommits(atoi(w[2].c_str()), atoi(w[3].c_str()), r, 1'000'000'0);
            string o = "[";
            for (auto& row : r) {
                o += string(o.size() > 1 ? "," : "") + "{\"hash\":" + jstr(row[0]) + ",\"q\":" + jstr(BedrockPlugin_Compression::decompress(row[1])) + "}";
            }
            Rec("range").i("from", atoi(w[2].c_str())).i("to", atoi(w[3].c_str())).i("rc", rc).raw("rows", o + "]").emit();
        });
    } else if (c == "dump") {
        dump("dump");
    } else if (c == "conc") {
        concurrent(w);
    }
}
// conc <threads> <transactions each> <copies of handle 0>: free concurrency with random pauses around commits
static void concurrent(const vector<string>& w)
{
    int n = atoi(w[1].c_str()), each = atoi(w[2].c_str());
    shimHooks.afterStep = [](sqlite3*, const char* s, int) {
        if (!strcmp(s, "COMMIT") || !strncmp(s, "INSERT INTO JOURNAL", 19)) {
            if (rnd() % 3 == 0) {
                usleep(rnd() % 3000);
            }
        }
    };
    if (w.size() > 3) {
        shimHooks.beforeStep = [](sqlite3*, const char* s) {
            if (!strcmp(s, "COMMIT") && rnd() % 2 == 0) {
                usleep(rnd() % 5000);
            }
        };
    }
    vector<thread> ts;
    vector<unique_ptr<SQLite>> dbs;
    for (int i = 0; i < n; i++) {
        dbs.push_back(make_unique<SQLite>(*H(0).db));
    }
    atomic<int> id(0), running(n);
    for (int i = 0; i < n; i++) {
        ts.emplace_back([&, i]() {
            SInitialize("c");
            SQLite& db = *dbs[i];
            for (int k = 0; k < each; k++) {
                int me = id++;
                bool excl = rnd() % 6 == 0;
                try {
                    if (!db.beginTransaction(excl ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED)) {
                        Rec("cbad").t("what", "begin").emit();
                        continue;
                    }
                    string steps = "[";
                    int m = 1 + rnd() % 3;
                    for (int j = 0; j < m; j++) {
                        string t = rnd() % 2 ? "a" : "b";
                        long key = 1 + rnd() % 3;
                        if (rnd() % 3 == 0) {
                            SQResult r;
                            db.read("SELECT v FROM " + t + " WHERE k = " + to_string(key) + ";", r);
                            steps += string(steps.size() > 1 ? "," : "") + "{\"op\":\"get\",\"t\":" + jstr(t) + ",\"k\":" + to_string(key) + ",\"v\":0,\"sql\":\"\",\"rows\":" + rows(r) + "}";
                        } else {
                            Op o;
                            o.op = vector<string>{"put", "add", "del", "add"}[rnd() % 4];
                            o.t = t;
                            o.k = key;
                            o.v = rnd() % 9;
                            string sql = sqlOf(o, false);
                            if (!db.write(sql)) {
                                Rec("cbad").t("what", "write").emit();
                            }
                            steps += string(steps.size() > 1 ? "," : "") + "{\"op\":" + jstr(o.op) + ",\"t\":" + jstr(t) + ",\"k\":" + to_string(key) + ",\"v\":" + to_string(o.v) + ",\"sql\":" + jstr(sql) + ",\"rows\":[]}";
                        }
                        if (rnd() % 4 == 0) {
                            usleep(rnd() % 500);
                        }
                    }
                    if (rnd() % 8 == 0) {
                        db.rollback();
                        continue;
                    }
                    uint64_t num = 0;
                    string hash;
                    atomic<bool> abort(false);
                    if (!db.prepare(&num, &hash, rnd() % 8 ? chrono::microseconds(20'000'000) : chrono::microseconds(500), &abort)) {
                        db.rollback();
                        continue;
                    }
                    Rec("try").i("tx", me).i("n", num).t("hash", hash).raw("steps", steps + "]").emit();
                    int rc = db.commit();
                    if (rc == 0) {
                        Rec("done").i("tx", me).i("n", num).emit();
                    } else {
                        Rec("lost").i("tx", me).i("n", num).emit();
                        db.rollback();
                    }
                } catch (const SQLite::constraint_error&) {
                    db.rollback();
                } catch (const SException& e) {
                    Rec("cbad").t("what", e.method).emit();
                    db.rollback();
                }
            }
            running--;
        });
    }
    map<uint64_t, pair<string, string>> popped;
    uint64_t last = 0;
    bool mono = true;
    thread toggler;
    if (w.size() > 3 && w[3] == "toggle") { // commits off and on
        toggler = thread([&]() {
            SInitialize("t");
            SQLite db(*H(0).db);
            while (running) {
                usleep(rnd() % 4000);
                db.setCommitEnabled(false);
                Rec("ctog").b("on", false).i("count", db.getCommitCount()).emit();
                usleep(rnd() % 4000);
                Rec("ctog").b("on", true).i("count", db.getCommitCount()).emit();
                db.setCommitEnabled(true);
            }
        });
    }
    while (running) {
        for (auto& p : H(0).db->popCommittedTransactions()) {
            mono = mono && !popped.count(p.first);
            popped[p.first] = p.second;
        }
        uint64_t c = H(0).db->getCommitCount();
        mono = mono && c >= last;
        last = c;
        usleep(300);
    }
    for (auto& t : ts) {
        t.join();
    }
    if (toggler.joinable()) {
        toggler.join();
    }
    shimHooks.afterStep = nullptr;
    if (w.size() > 3) {
        shimHooks.beforeStep = nullptr;
    }
    for (auto& p : H(0).db->popCommittedTransactions()) {
        mono = mono && !popped.count(p.first);
        popped[p.first] = p.second;
    }
    string o = "[";
    for (auto& p : popped) {
        o += string(o.size() > 1 ? "," : "") + "{\"id\":" + to_string(p.first) + ",\"q\":" + jstr(BedrockPlugin_Compression::decompress(p.second.first)) + ",\"hash\":" + jstr(p.second.second) + "}";
    }
    Rec("cend").b("mono", mono).raw("txs", o + "]").i("count", H(0).db->getCommitCount()).t("hash", H(0).db->getCommittedHash()).emit();
    dbs.clear();
    dump("dump");
}
int main(int argc, char** argv)
{
    SInitialize("main", "sqlite");
    SLogLevel(LOG_ALERT);
    sqlite3_initialize();
    vfs = *sqlite3_vfs_find(nullptr);
    realTime = vfs.xCurrentTimeInt64;
    vfs.xCurrentTimeInt64 = fakeTime;
    vfs.zName = "clocked";
    sqlite3_vfs_register(&vfs, 1);
    const uint64_t seed = atol(argv[1]) * 7919 + 3;
    vector<vector<vector<string>>> traces; // trace -> lines
    string line;
    while (getline(cin, line)) {
        auto w = words(line);
        if (w.empty()) {
            continue;
        }
        if (w[0] == "begin" || traces.empty()) {
            traces.push_back({});
        }
        traces.back().push_back(w);
    }
    char cwd[4096];
    getcwd(cwd, sizeof(cwd));
    int tn = 0;
    for (auto& t : traces) {
        dir = string(cwd) + "/t" + to_string(tn++);
        mkdir(dir.c_str(), 0777);
        path = dir + "/db";
        Rec("begin").emit();
        size_t i = 1;
        while (i < t.size()) {
            long crash = 0, killms = 0;
            if (t[i][0] == "segment") {
                crash = t[i].size() > 2 && t[i][1] == "crash" ? atol(t[i][2].c_str()) : 0;
                killms = t[i].size() > 2 && t[i][1] == "kill" ? atol(t[i][2].c_str()) : 0;
                i++;
            }
            size_t j = i;
            while (j < t.size() && t[j][0] != "segment") {
                j++;
            }
            pid_t pid = fork();
            if (!pid) {
                rs = seed + tn * 1000003ull + i;
                SInitialize("main");
                atomic<long> steps(0);
                if (crash) {
                    shimHooks.beforeStep = [&](sqlite3*, const char*) {
                        if (++steps == crash) {
                            raise(SIGKILL);
                        }
                    };
                }
                for (size_t k = i; k < j; k++) {
                    execute(t[k]);
                }
                // everything closed in order
                for (auto& p : handles) {
                    on(p.first, "end", false, [&]() {
                        p.second->db.reset();
                    });
                }
                _exit(0);
            }
            int st = 0;
            int waited = 0;
            while (waitpid(pid, &st, WNOHANG) == 0) {
                usleep(killms ? 200 : 500);
                waited++;
                if (killms && waited * 0.2 >= killms) {
                    kill(pid, SIGKILL);
                    killms = 1 << 30;
                    crash = -1;
                }
                if (waited > 120'000) {
                    kill(pid, SIGKILL);
                    waitpid(pid, &st, 0);
                    Rec("hang").emit();
                    _exit(0);
                }
            }
            bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
            if (killed && crash) {
                Rec("crash").emit();
            } else if (!WIFEXITED(st) || WEXITSTATUS(st)) {
                Rec("died").i("status", st).emit();
                break;
            } else {
                Rec("exit").emit();
            }
            i = j;
        }
        string cmd = dir;
        for (auto f : {"/db", "/db-wal", "/db-shm", "/db-journal"}) {
            unlink((dir + f).c_str());
        }
        rmdir(dir.c_str());
    }
    _exit(0);
}
