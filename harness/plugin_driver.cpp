// Runs commands of the real Jobs, Cache and DB plugins through the real BedrockCore on real SQLite handles, under a virtual
// clock, and records after each one the reply and the tables as another process would see them.
//   begin {"-cache.max": "30", ...}   a new trace: fresh directory, fresh plugins
//   cmd {"_verb": "GetJob", "name": "x"}    a value "@aK" / "@rK" / "@cK" / "@pK" / "@qK" / "@fK" stands for the id of some job:
//        any / running / a child / a paused one / a queued one / a failed one
//   "_body": content; "_rollback": "1": the command is processed but its commit fails (nothing is kept); "_failreply": "1": the
//        answer cannot be delivered, what the plugin then queues is run too
//   advance MS
//   restart   new handles and plugins on the same file
#include <BedrockServer.h>
#include <BedrockCore.h>
#include <libstuff/libstuff.h>
#include <libstuff/sqlite3.h>
#include <plugins/Cache.h>
#include <plugins/DB.h>
#include <plugins/Jobs.h>
#include <sqlitecluster/SQLite.h>
#include <sys/stat.h>
#include "shim/sqlite_shim.h"
#include "util.h"
#include "vtime.h"

extern "C" string __wrap__Z21SCURRENT_TIMESTAMP_MSB5cxx11v()
{
    return STIMESTAMP_MS(g_vnow.load());
}
string STIMESTAMP_MS(uint64_t);
// 2024-01-07 was a Sunday
static const uint64_t BASE = 1704585600000000ull;
static string dir, path;
static unique_ptr<BedrockServer> server;
static vector<unique_ptr<BedrockPlugin>> plugins;
static vector<unique_ptr<SQLite>> dbs;
static vector<string> ids;
static string rowsJSON(SQResult& r)
{
    string o = "[";
    for (auto& row : r) {
        string x = "[";
        for (size_t i = 0; i < row.size(); i++) {
            x += string(i ? "," : "") + jstr(row[i]);
        }
        o += string(o.size() > 1 ? "," : "") + x + "]";
    }
    return o + "]";
}
static sqlite3* ext = nullptr;
static SQResult outside(const string& q)
{
    SQResult r;
    if (!ext && sqlite3_open_v2(path.c_str(), &ext, SQLITE_OPEN_READWRITE, nullptr)) {
        fprintf(stderr, "cannot look at the database\n");
        _exit(3);
    }
    SQuery(ext, q, r);
    return r;
}
static void openAll(const STable& args)
{
    SData a("args");
    a.nameValueMap = args;
    server = make_unique<BedrockServer>(SQLiteNodeState::LEADING, a);
    plugins.clear();
    plugins.push_back(make_unique<BedrockPlugin_Jobs>(*server));
    plugins.push_back(make_unique<BedrockPlugin_Cache>(*server));
    plugins.push_back(make_unique<BedrockPlugin_DB>(*server));
    dbs.clear();
    dbs.push_back(make_unique<SQLite>(path, 1000, 1000, 1));
    dbs[0]->beginTransaction(SQLite::TRANSACTION_TYPE::EXCLUSIVE);
    for (auto& p : plugins) {
        p->upgradeDatabase(*dbs[0]);
    }
    if (dbs[0]->getUncommittedQuery().empty()) {
        dbs[0]->rollback();
    } else {
        dbs[0]->prepare();
        if (dbs[0]->commit() != SQLITE_OK) {
            fprintf(stderr, "upgrade did not commit\n");
            _exit(3);
        }
    }
    dbs.push_back(make_unique<SQLite>(*dbs[0]));
}
static string pick(const string& v)
{
    if (v.size() < 2 || v[0] != '@') {
        return v;
    }
    string where = v[1] == 'r' ? "state IN ('RUNNING','RUNQUEUED')" : v[1] == 'c' ? "parentJobID != 0" : v[1] == 'p' ? "state='PAUSED'" :
        v[1] == 'q' ? "state='QUEUED'" : v[1] == 'f' ? "state='FAILED'" : v[1] == 't' ? "parentJobID = 0 AND state IN ('RUNNING','RUNQUEUED')" :
        v[1] == 'd' ? "parentJobID != 0 AND state IN ('RUNNING','RUNQUEUED')" : "1";
    SQResult r = outside("SELECT jobID FROM jobs WHERE " + where);
    if (r.empty()) {
        r = outside("SELECT jobID FROM jobs");
    }
    set<string> have;
    for (auto& x : r) {
        have.insert(x[0]);
    }
    vector<string> l;
    for (auto& i : ids) {
        if (have.count(i)) {
            l.push_back(i);
        }
    }
    int k = atoi(v.c_str() + 2);
    return l.empty() ? "1" : l[k % l.size()];
}
static void runOne(SQLiteCommand&& base, bool dorollback, bool failreply, STable asked, string content);
static void record(const string& e, const STable& asked, const string& content, const SData& resp, uint64_t before)
{
    Rec r(e);
    r.i("ms", (long long) ((g_vnow.load() - BASE) / 1000));
    STable a = asked;
    string s = "{";
    for (auto& [k, v] : a) {
        s += (s.size() > 1 ? "," : "") + jstr(k) + ":" + jstr(v);
    }
    r.raw("req", s + "}").t("body", content);
    r.t("code", resp.methodLine).t("content", resp.content);
    s = "{";
    for (auto& [k, v] : resp.nameValueMap) {
        s += (s.size() > 1 ? "," : "") + jstr(k) + ":" + jstr(v);
    }
    r.raw("head", s + "}");
    auto jobs = outside("SELECT jobID, created, state, name, nextRun, lastRun, repeat, data, priority, parentJobID, retryAfter FROM jobs ORDER BY rowid");
    for (auto& x : jobs) {
        if (find(ids.begin(), ids.end(), x[0]) == ids.end()) {
            ids.push_back(x[0]);
        }
    }
    r.raw("jobs", rowsJSON(jobs));
    auto c = outside("SELECT name, LENGTH(CAST(value AS BLOB)), HEX(CAST(value AS BLOB)) FROM cache ORDER BY rowid");
    r.raw("cache", rowsJSON(c));
    auto z = outside("SELECT size FROM cacheSize");
    r.raw("size", rowsJSON(z));
    auto sch = outside("SELECT name FROM sqlite_schema WHERE name LIKE 't_'");
    for (string t : {"ta", "tb"}) {
        SQResult x;
        for (auto& n : sch) {
            if (n[0] == t) {
                x = outside("SELECT * FROM " + t + " ORDER BY rowid");
            }
        }
        r.raw(t, rowsJSON(x));
    }
    // the journal is spread over several tables
    auto names = outside("SELECT name FROM sqlite_schema WHERE type = 'table' AND name LIKE 'journal%'");
    string all;
    for (auto& x : names) {
        all += (all.empty() ? "" : " UNION ALL ") + ("SELECT id, query FROM " + x[0] + " WHERE id > " + to_string(before));
    }
    auto j = outside("SELECT id, query FROM (" + all + ") ORDER BY id");
    r.i("commits", (long long) j.size());
    r.raw("journal", rowsJSON(j));
    r.emit();
}
static int which = 0;
static void runOne(SQLiteCommand&& base, bool dorollback, bool failreply, STable asked, string content)
{
    unique_ptr<BedrockCommand> cmd;
    for (auto& p : plugins) {
        cmd = p->getCommand(move(base));
        if (cmd) {
            break;
        }
    }
    uint64_t before = dbs[0]->getCommitCount();
    if (!cmd) {
        record("nocmd", asked, content, SData("430 Unrecognized command"), before);
        return;
    }
    SQLite& db = *dbs[which++ % dbs.size()];
    BedrockCore core(db, *server);
    bool kept = false;
    auto res = core.peekCommand(cmd);
    if (res == BedrockCore::RESULT::SHOULD_PROCESS) {
        res = core.processCommand(cmd);
        if (res == BedrockCore::RESULT::NEEDS_COMMIT) {
            if (dorollback) {
                db.rollback();
                cmd->response.methodLine = "ROLLED BACK";
            } else {
                if (!db.prepare() || db.commit() != SQLITE_OK) {
                    fprintf(stderr, "commit failed\n");
                    _exit(3);
                }
                kept = true;
            }
        }
    } else if (res != BedrockCore::RESULT::COMPLETE) {
        record("odd", asked, content, cmd->response, before);
    }
    asked["_kept"] = kept ? "1" : "0";
    if (db.insideTransaction() || !sqlite3_get_autocommit(db.getDBHandle())) {
        asked["_open"] = "1";
    }
    record("cmd", asked, content, cmd->response, before);
    if (failreply) {
        cmd->handleFailedReply();
        while (!server->_commandQueue.empty()) {
            auto next = server->_commandQueue.get(1);
            STable a = next->request.nameValueMap;
            a["_verb"] = next->request.methodLine;
            SData req = next->request;
            runOne(SQLiteCommand(move(req)), false, false, a, "");
        }
    }
}
int main(int argc, char** argv)
{
    SLogLevel(LOG_EMERG);
    string line;
    int n = 0;
    STable args;
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) {
        return 3;
    }
    BedrockServer dummy(SQLiteNodeState::LEADING, SData("args"));
    while (getline(cin, line)) {
        if (line.substr(0, 6) == "begin ") {
            sqlite3_close(ext);
            ext = nullptr;
            dbs.clear();
            plugins.clear();
            server.reset();
            if (!dir.empty()) {
                for (auto f : {"db", "db-wal", "db-shm"}) {
                    unlink((dir + "/" + f).c_str());
                }
                rmdir(dir.c_str());
            }
            dir = string(cwd) + "/d" + to_string(n++);
            mkdir(dir.c_str(), 0755);
            path = dir + "/db";
            fclose(fopen(path.c_str(), "w"));
            ids.clear();
            which = 0;
            g_vnow = BASE + 36000000000ull;
            args = SParseJSONObject(line.substr(6));
            openAll(args);
            Rec("begin").i("ms", (g_vnow - BASE) / 1000).t("max", args["-cache.max"]).emit();
        } else if (line.substr(0, 8) == "advance ") {
            g_vnow += atoll(line.c_str() + 8) * 1000;
        } else if (line == "restart") {
            dbs.clear();
            openAll(args);
            Rec("restart").emit();
        } else if (line.substr(0, 4) == "cmd ") {
            STable t = SParseJSONObject(line.substr(4));
            SData req(t["_verb"]);
            for (auto& [k, v] : t) {
                if (k[0] != '_' || k == "_source") {
                    if (k == "jobIDs") {
                        list<string> l;
                        for (auto& x : SParseList(v)) {
                            l.push_back(pick(x));
                        }
                        v = SComposeList(l);
                    } else if (k == "jobs") {
                        // a JSON array of objects
                        list<string> l;
                        for (auto& x : SParseJSONArray(v)) {
                            STable o = SParseJSONObject(x);
                            for (auto& [k2, v2] : o) {
                                v2 = pick(v2);
                            }
                            l.push_back(SComposeJSONObject(o));
                        }
                        v = SComposeJSONArray(l);
                    } else {
                        v = pick(v);
                    }
                    req[k] = v;
                }
            }
            req.content = t["_body"];
            string body = t["_body"];
            runOne(SQLiteCommand(move(req)), !t["_rollback"].empty(), !t["_failreply"].empty(), t, body);
        }
    }
    fflush(stdout);
    _exit(0);
}
