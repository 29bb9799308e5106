#include <cstdarg>
// One real BedrockServer with a test plugin, driven over its real ports by tools/checks/server.py.  What happens inside the
// plugin is appended to the file named by -events, one JSON line each, stamped with CLOCK_MONOTONIC.
// Commands of the plugin (c: number of the request, t: table):
//   Put   insert c into table t<t>; pre/peek/proc: milliseconds spent there, fail: stage that throws (prepeek, peek, process,
//         late (after the row was written), odd (something that is no SException), post), spin: 1 = spend the time in SQLite
//   Get   the rows of all tables and the commit they are from
//   Die   segmentation fault; who and kind identify it
#include <BedrockServer.h>
#include <BedrockCore.h>
#include <BedrockPlugin.h>
#include <libstuff/libstuff.h>
#include <sqlitecluster/SQLite.h>
#include <libstuff/sqlite3.h>
#include <fcntl.h>
#include <signal.h>
#include "shim/sqlite_shim.h"
#include "util.h"

static int g_events = -1;
static string g_name;
static void event(Rec r)
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    string s = r.t("node", g_name).t("ts", to_string(ts.tv_sec * 1000000000ull + ts.tv_nsec)).s + "}\n";
    if (write(g_events, s.data(), s.size()) < 0) {
        _exit(3);
    }
}
static const int TABLES = 6;
extern "C" int __wrap_creat(const char*, mode_t m)
{
    return open("crash.log", O_CREAT | O_WRONLY | O_TRUNC, m);
}

struct TestPlugin : BedrockPlugin {
    TestPlugin(BedrockServer& s) : BedrockPlugin(s)
    {
    }
    const string& getName() const override
    {
        static const string n = "TEST";
        return n;
    }
    unique_ptr<BedrockCommand> getCommand(SQLiteCommand&& base) override;
    void upgradeDatabase(SQLite& db) override
    {
        for (int i = 0; i < TABLES; i++) {
            bool created;
            db.verifyTable("t" + to_string(i), "CREATE TABLE t" + to_string(i) + " ( c INTEGER, who TEXT )", created);
        }
    }
};
struct TestCommand : BedrockCommand {
    TestCommand(SQLiteCommand&& base, TestPlugin* p) : BedrockCommand(move(base), p)
    {
        if (SIEquals(request.methodLine, "Die")) {
            crashIdentifyingValues.insert("who");
            crashIdentifyingValues.insert("kind");
        }
        if (request.isSet("limitID")) {
            blockingQueueRateLimitIdentifier = request["limitID"];
        }
    }
    int c()
    {
        return request.calc("c");
    }
    void spend(SQLite& db, const string& what)
    {
        int ms = request.calc(what);
        if (ms && request.test("spin")) {
            uint64_t end = STimeNow() + ms * 1000ull;
            while (STimeNow() < end) {
                SQResult r;
                db.read("WITH RECURSIVE n(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM n WHERE x < 20000) SELECT SUM(x) FROM n;", r);
            }
        } else if (ms) {
            usleep(ms * 1000);
        }
    }
    void fail(const string& stage)
    {
        if (request["fail"] == stage) {
            STHROW("433 Failed in " + stage);
        }
        if (request["fail"] == stage + "-odd") {
            throw 5;
        }
    }
    bool shouldPrePeek() override
    {
        return request.isSet("pre") || SStartsWith(request["fail"], "prepeek");
    }
    bool shouldPostProcess() override
    {
        return SStartsWith(request["fail"], "post");
    }
    void prePeek(SQLite& db) override
    {
        spend(db, "pre");
        fail("prepeek");
    }
    void postProcess(SQLite& db) override
    {
        fail("post");
    }
    bool peek(SQLite& db) override
    {
        event(Rec("peek").i("c", c()).i("count", db.getCommitCount()));
        if (SIEquals(request.methodLine, "Die") && request.test("inPeek")) {
            event(Rec("die").i("c", c()));
            *(volatile int*) nullptr = 1;
        }
        spend(db, "peek");
        fail("peek");
        if (SIEquals(request.methodLine, "Get") || SIEquals(request.methodLine, "Die")) {
            string all;
            for (int i = 0; i < TABLES; i++) {
                SQResult r;
                db.read("SELECT c FROM t" + to_string(i) + ";", r);
                for (auto& row : r) {
                    all += row[0] + ",";
                }
            }
            response.content = all;
            return true;
        }
        return false;
    }
    void process(SQLite& db) override
    {
        event(Rec("process").i("c", c()).i("count", db.getCommitCount()));
        fail("process");
        string t = "t" + to_string(request.calc("t") % TABLES);
        if (request.test("read")) {
            SQResult r;
            db.read("SELECT COUNT(*) FROM " + t + ";", r);
        }
        if (!request.test("idle") && !db.write("INSERT INTO " + t + " VALUES ( " + to_string(c()) + ", " + SQ(g_name) + " );")) {
            STHROW("502 Query failed");
        }
        spend(db, "proc");
        fail("late");
    }
};
unique_ptr<BedrockCommand> TestPlugin::getCommand(SQLiteCommand&& base)
{
    for (auto& n : {"Put", "Get", "Die"}) {
        if (SIEquals(base.request.methodLine, n)) {
            return make_unique<TestCommand>(move(base), this);
        }
    }
    return nullptr;
}

static void logToStderr(int, const char* format, ...)
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    va_list a;
    va_start(a, format);
    char b[2048];
    vsnprintf(b, sizeof b, format, a);
    va_end(a);
    dprintf(2, "%ld.%06ld %s\n", long(t.tv_sec), t.tv_nsec / 1000, b);
}

int main(int argc, char** argv)
{
    SData args("bedrock");
    for (int i = 1; i + 1 < argc; i += 2) {
        args[argv[i]] = argv[i + 1];
    }
    g_name = args["-nodeName"];
    g_events = open(args["-events"].c_str(), O_CREAT | O_WRONLY | O_APPEND, 0666);
    SInitialize("main");
    SLogLevel(args.isSet("-loud") ? LOG_DEBUG : LOG_ERR);
    if (args.isSet("-loud")) {
        SSyslogFunc = &logToStderr;
    }
    BedrockPlugin::g_registeredPluginList.emplace("TEST", [](BedrockServer& s) -> BedrockPlugin* { return new TestPlugin(s); });
    if (args.isSet("-conflictEvery")) {
        static int every = args.calc("-conflictEvery");
        static atomic<unsigned> n{0};
        shimHooks.forceConflict = [](sqlite3*) { return n++ % every == 0; };
    }
    if (args.isSet("-slowCommit")) {
        static int us = args.calc("-slowCommit") * 1000;
        shimHooks.afterStep = [](sqlite3*, const char* q, int rc) {
            if (rc == SQLITE_DONE && !strcmp(q, "COMMIT")) {
                usleep(us);
            }
        };
    }
    int period = args.isSet("-period") ? args.calc("-period") : 20;
    {
        BedrockServer server(args);
        event(Rec("up"));
        uint64_t nextActivity = STimeNow();
        while (!(server.shutdownComplete() || STerminationSignalCount() >= 2)) {
            fd_map fdm;
            server.prePoll(fdm);
            uint64_t now = STimeNow();
            S_poll(fdm, max(nextActivity, now) - now);
            nextActivity = STimeNow() + period * 1000;
            server.postPoll(fdm, nextActivity);
        }
        if (STerminationSignalCount() >= 2) {
            abort();
        }
    }
    event(Rec("down"));
    SStopSignalThread();
    return 0;
}
