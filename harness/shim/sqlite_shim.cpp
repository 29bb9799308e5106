// Adapts the stock SQLite 3.45 of this sandbox to the dialect Bedrock's (absent) SQLite branch offers.  It replaces only
// the missing DEPENDENCY, never Bedrock's own code:
//   * BEGIN CONCURRENT       -> BEGIN (deferred, WAL snapshot), made optimistic: stock SQLite lets one transaction write at
//                               a time and refuses writes on a stale snapshot.  Here a transaction in the way is *parked*
//                               (rolled back, its statements kept) and, like one with a stale snapshot, started again and
//                               replayed at its next step, unless a commit since its snapshot wrote a table it has read or
//                               written: then it is *doomed*, its writes pretend to succeed and COMMIT reports
//                               SQLITE_BUSY_SNAPSHOT, so nothing of it ever becomes visible.  (Conflicts are per table
//                               here, per page in the branch.)
//   * journal_mode=wal2      -> wal (and reported as wal2)
//   * PRAGMA noop_update     -> emulated (UPDATE statements become no-ops on that handle)
//   * sqlite3_normalized_sql -> ""
// It also offers observation/injection points (ShimHooks) used by the drivers: forced commit conflicts, a callback before
// and after each statement (crash points).
// Linked with -Wl,--wrap=... so that no Bedrock source is touched.
#include <libstuff/sqlite3.h>
#include <atomic>
#include <cctype>
#include <chrono>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <set>
#include <thread>
#include <vector>
#include "sqlite_shim.h"
using namespace std;

ShimHooks shimHooks;

namespace {
struct DBState {
    sqlite3* db = nullptr;
    recursive_mutex m;         // held while a statement of this handle runs
    bool concurrent = false;   // inside a transaction opened with BEGIN CONCURRENT
    bool doomed = false;       // lost a conflict; COMMIT must fail
    bool parked = false;       // rolled back by another handle; to be started again
    bool noop = false;         // PRAGMA noop_update=ON
    int extOverride = 0;       // what sqlite3_extended_errcode shall report
    int pretendChanges = 0;
    string file;
    uint64_t snapshot = 0;     // number of the last commit before the transaction began
    set<string> reads, writes; // tables
    vector<string> log;        // statements that wrote
    int (*auth)(void*, int, const char*, const char*, const char*, const char*) = nullptr;
    void* authArg = nullptr;
};
mutex g_mutex;
map<sqlite3*, shared_ptr<DBState>> g_dbs;
struct FileState {
    uint64_t commits = 0;
    vector<pair<uint64_t, set<string>>> history; // tables written by each commit
};
map<string, FileState> g_files;
mutex g_commit; // a commit and its note in g_files are one step
DBState& stateOf(sqlite3* db)
{
    lock_guard<mutex> l(g_mutex);
    auto& p = g_dbs[db];
    if (!p) {
        p = make_shared<DBState>();
    }
    DBState& st = *p;
    if (!st.db) {
        st.db = db;
        const char* f = sqlite3_db_filename(db, "main");
        st.file = f ? f : "";
    }
    return st;
}
string norm(const char* sql, int n)
{
    string out;
    if (!sql) {
        return out;
    }
    for (int i = 0; sql[i] && (n < 0 || i < n) && out.size() < 80; i++) {
        unsigned char c = sql[i];
        if (isspace(c)) {
            if (!out.empty() && out.back() != ' ') {
                out += ' ';
            }
        } else {
            out += toupper(c);
        }
    }
    while (!out.empty() && (out.back() == ' ' || out.back() == ';')) {
        out.pop_back();
    }
    return out;
}
bool starts(const string& s, const char* p)
{
    return s.compare(0, strlen(p), p) == 0;
}
}

extern "C" {
int __real_sqlite3_prepare_v2(sqlite3*, const char*, int, sqlite3_stmt**, const char**);
int __real_sqlite3_prepare_v3(sqlite3*, const char*, int, unsigned, sqlite3_stmt**, const char**);
int __real_sqlite3_step(sqlite3_stmt*);
int __real_sqlite3_extended_errcode(sqlite3*);
int __real_sqlite3_total_changes(sqlite3*);
int __real_sqlite3_close(sqlite3*);
int __real_sqlite3_get_autocommit(sqlite3*);

int __real_sqlite3_set_authorizer(sqlite3*, int (*)(void*, int, const char*, const char*, const char*, const char*), void*);

// A handle may be parked by another one's thread, so its calls must exclude each other.
int __real_sqlite3_open_v2(const char*, sqlite3**, int, const char*);
int __wrap_sqlite3_open_v2(const char* name, sqlite3** db, int flags, const char* vfs)
{
    return __real_sqlite3_open_v2(name, db, (flags & ~SQLITE_OPEN_NOMUTEX) | SQLITE_OPEN_FULLMUTEX, vfs);
}

const char* sqlite3_normalized_sql(sqlite3_stmt*)
{
    return "";
}

// ---- tables touched, by handle
static int recordAuth(void* arg, int action, const char* a, const char* b, const char* c, const char* d)
{
    DBState* st = (DBState*) arg;
    if (a && action == SQLITE_READ) {
        st->reads.insert(a);
    } else if (a && (action == SQLITE_INSERT || action == SQLITE_UPDATE || action == SQLITE_DELETE)) {
        st->writes.insert(a);
    }
    return st->auth ? st->auth(st->authArg, action, a, b, c, d) : SQLITE_OK;
}

int __wrap_sqlite3_set_authorizer(sqlite3* db, int (*f)(void*, int, const char*, const char*, const char*, const char*), void* arg)
{
    DBState& st = stateOf(db);
    st.auth = f;
    st.authArg = arg;
    return __real_sqlite3_set_authorizer(db, recordAuth, &st);
}

static void raw(sqlite3* db, const char* sql)
{
    sqlite3_stmt* q = nullptr;
    if (__real_sqlite3_prepare_v2(db, sql, -1, &q, nullptr) == SQLITE_OK) {
        while (__real_sqlite3_step(q) == SQLITE_ROW) {
        }
    }
    sqlite3_finalize(q);
}

static bool conflicts(DBState& st)
{
    lock_guard<mutex> l(g_mutex);
    for (auto& h : g_files[st.file].history) {
        if (h.first > st.snapshot) {
            for (auto& t : h.second) {
                if (t == "sqlite_master" || st.reads.count(t) || st.writes.count(t)) {
                    return true;
                }
            }
        }
    }
    return false;
}

// Rolls back whoever holds the write lock of this file, if it is between statements.
static void parkOthers(DBState& me)
{
    vector<shared_ptr<DBState>> others;
    {
        lock_guard<mutex> l(g_mutex);
        for (auto& p : g_dbs) {
            if (p.second && p.second.get() != &me && p.second->file == me.file && p.second->db) {
                others.push_back(p.second);
            }
        }
    }
    for (auto& o : others) {
        unique_lock<recursive_mutex> l(o->m, try_to_lock);
        if (!l.owns_lock() || !o->db || !o->concurrent || o->parked || o->doomed || sqlite3_txn_state(o->db, nullptr) != SQLITE_TXN_WRITE) {
            continue;
        }
        bool busy = false;
        for (sqlite3_stmt* q = sqlite3_next_stmt(o->db, nullptr); q; q = sqlite3_next_stmt(o->db, q)) {
            busy = busy || sqlite3_stmt_busy(q);
        }
        if (!busy) {
            sqlite3_int64 rowid = sqlite3_last_insert_rowid(o->db);
            raw(o->db, "ROLLBACK");
            sqlite3_set_last_insert_rowid(o->db, rowid);
            o->parked = true;
        }
    }
}

// Starts a transaction again on the newest snapshot. Afterwards it is as it was, or doomed.
static void restart(DBState& st)
{
    if (!__real_sqlite3_get_autocommit(st.db)) {
        raw(st.db, "ROLLBACK");
    }
    st.parked = false;
    const int changes = __real_sqlite3_total_changes(st.db);
    const sqlite3_int64 rowid = sqlite3_last_insert_rowid(st.db);
    auto give = chrono::steady_clock::now() + chrono::seconds(5);
    while (true) {
        uint64_t pinned;
        {
            // a snapshot together with what was committed up to it
            lock_guard<mutex> c(g_commit);
            raw(st.db, "BEGIN");
            raw(st.db, "SELECT count(*) FROM sqlite_master");
            if (conflicts(st)) {
                st.doomed = true;
                break;
            }
            lock_guard<mutex> l(g_mutex);
            pinned = g_files[st.file].commits;
        }
        bool again = false;
        for (const string& sql : st.log) {
            sqlite3_stmt* q = nullptr;
            int rc = __real_sqlite3_prepare_v2(st.db, sql.c_str(), -1, &q, nullptr);
            while (rc == SQLITE_OK || rc == SQLITE_ROW) {
                rc = __real_sqlite3_step(q);
            }
            sqlite3_finalize(q);
            if (rc != SQLITE_DONE) {
                again = true;
                break;
            }
        }
        if (!again) {
            st.snapshot = pinned;
            break;
        }
        raw(st.db, "ROLLBACK");
        if (chrono::steady_clock::now() > give) {
            st.doomed = true;
            raw(st.db, "BEGIN");
            break;
        }
        parkOthers(st);
        this_thread::sleep_for(chrono::microseconds(200));
    }
    st.pretendChanges -= __real_sqlite3_total_changes(st.db) - changes;
    sqlite3_set_last_insert_rowid(st.db, rowid);
}

// Returns the end of the first statement if it is simple (used for the rewritten statements, which hold no quotes).
static const char* endOfStatement(const char* sql, int n)
{
    int i = 0;
    for (; sql[i] && (n < 0 || i < n); i++) {
        if (sql[i] == ';') {
            return sql + i + 1;
        }
    }
    return sql + i;
}

static int prepareAny(sqlite3* db, const char* sql, int n, unsigned flags, bool v3, sqlite3_stmt** stmt, const char** tail)
{
    const string s = norm(sql, n);
    string replacement;
    if (starts(s, "BEGIN CONCURRENT")) {
        replacement = "BEGIN";
    } else if (starts(s, "PRAGMA JOURNAL_MODE = WAL2") || starts(s, "PRAGMA JOURNAL_MODE=WAL2")) {
        replacement = "PRAGMA journal_mode = wal";
    } else if (s == "PRAGMA JOURNAL_MODE") {
        sqlite3_stmt* q = nullptr;
        string mode;
        if (__real_sqlite3_prepare_v2(db, "PRAGMA journal_mode", -1, &q, nullptr) == SQLITE_OK && __real_sqlite3_step(q) == SQLITE_ROW) {
            mode = (const char*) sqlite3_column_text(q, 0);
        }
        sqlite3_finalize(q);
        replacement = "SELECT '" + (mode == "wal" ? string("wal2") : mode) + "'";
    } else if (starts(s, "PRAGMA NOOP_UPDATE")) {
        bool on = s.find("ON") != string::npos && s.find("=") != string::npos && s.substr(s.find("=")).find("ON") != string::npos;
        stateOf(db).noop = on;
        replacement = "SELECT 1 WHERE 0";
    } else if (starts(s, "UPDATE") && stateOf(db).noop) {
        const char* localTail = nullptr;
        int rc = v3 ? __real_sqlite3_prepare_v3(db, sql, n, flags, stmt, &localTail) : __real_sqlite3_prepare_v2(db, sql, n, stmt, &localTail);
        if (tail) {
            *tail = localTail;
        }
        if (rc) {
            return rc;
        }
        sqlite3_finalize(*stmt);
        return __real_sqlite3_prepare_v2(db, "SELECT 1 WHERE 0", -1, stmt, nullptr);
    }
    if (!replacement.empty()) {
        if (tail) {
            *tail = endOfStatement(sql, n);
        }
        int rc = __real_sqlite3_prepare_v2(db, replacement.c_str(), -1, stmt, nullptr);
        if (rc == SQLITE_OK && replacement == "BEGIN") {
            DBState& st = stateOf(db);
            st.concurrent = true; // takes effect with the step that follows at once
            st.doomed = st.parked = false;
            st.reads.clear();
            st.writes.clear();
            st.log.clear();
            lock_guard<mutex> l(g_mutex);
            st.snapshot = g_files[st.file].commits;
        }
        return rc;
    }
    auto give = chrono::steady_clock::now() + chrono::seconds(5);
    while (true) {
        int rc = v3 ? __real_sqlite3_prepare_v3(db, sql, n, flags, stmt, tail) : __real_sqlite3_prepare_v2(db, sql, n, stmt, tail);
        if (rc != SQLITE_BUSY || chrono::steady_clock::now() > give) {
            return rc;
        }
        this_thread::sleep_for(chrono::milliseconds(1));
    }
}

int __wrap_sqlite3_prepare_v2(sqlite3* db, const char* sql, int n, sqlite3_stmt** stmt, const char** tail)
{
    return prepareAny(db, sql, n, 0, false, stmt, tail);
}

int __wrap_sqlite3_prepare_v3(sqlite3* db, const char* sql, int n, unsigned flags, sqlite3_stmt** stmt, const char** tail)
{
    return prepareAny(db, sql, n, flags, true, stmt, tail);
}

static void noteCommit(DBState& st)
{
    lock_guard<mutex> l(g_mutex);
    FileState& f = g_files[st.file];
    f.commits++;
    if (!st.writes.empty()) {
        f.history.emplace_back(f.commits, st.writes);
        if (f.history.size() > 400) {
            f.history.erase(f.history.begin(), f.history.begin() + 200);
        }
    }
}

int __wrap_sqlite3_step(sqlite3_stmt* stmt)
{
    sqlite3* db = sqlite3_db_handle(stmt);
    DBState& st = stateOf(db);
    st.extOverride = 0;
    const char* sql = sqlite3_sql(stmt);
    const string s = norm(sql, -1);
    if (shimHooks.beforeStep) {
        shimHooks.beforeStep(db, s.c_str());
    }
    if (shimHooks.failStep) {
        int rc = shimHooks.failStep(db, s.c_str());
        if (rc) {
            st.extOverride = rc;
            return rc & 255;
        }
    }
    lock_guard<recursive_mutex> lock(st.m);
    if (st.parked) {
        if (starts(s, "ROLLBACK")) {
            st.parked = st.concurrent = st.doomed = false;
            st.reads.clear();
            st.writes.clear();
            raw(db, "BEGIN");
            return __real_sqlite3_step(stmt);
        }
        restart(st);
    }
    const bool inTxn = !__real_sqlite3_get_autocommit(db);
    if (inTxn && (s == "COMMIT" || s == "END")) {
        bool force = shimHooks.forceConflict && shimHooks.forceConflict(db);
        if (st.doomed || force) {
            st.doomed = true;
            st.extOverride = SQLITE_BUSY_SNAPSHOT;
            if (shimHooks.afterStep) {
                shimHooks.afterStep(db, s.c_str(), SQLITE_BUSY);
            }
            return SQLITE_BUSY;
        }
        const bool wrote = sqlite3_txn_state(db, nullptr) == SQLITE_TXN_WRITE;
        auto give = chrono::steady_clock::now() + chrono::seconds(5);
        int rc;
        while (true) {
            {
                lock_guard<mutex> c(g_commit);
                rc = __real_sqlite3_step(stmt);
                if (rc == SQLITE_DONE && wrote) {
                    noteCommit(st);
                }
            }
            if (rc != SQLITE_BUSY || chrono::steady_clock::now() > give) {
                break;
            }
            sqlite3_reset(stmt);
            this_thread::sleep_for(chrono::milliseconds(1));
        }
        if (rc == SQLITE_DONE) {
            st.concurrent = false;
            st.reads.clear();
            st.writes.clear();
        }
        if (shimHooks.afterStep) {
            shimHooks.afterStep(db, s.c_str(), rc);
        }
        return rc;
    }
    if (starts(s, "ROLLBACK")) {
        st.concurrent = false;
        st.doomed = false;
        st.reads.clear();
        st.writes.clear();
        return __real_sqlite3_step(stmt);
    }
    if (inTxn && st.concurrent && !sqlite3_stmt_readonly(stmt)) {
        if (st.doomed) {
            st.pretendChanges++;
            return SQLITE_DONE;
        }
        int rc = __real_sqlite3_step(stmt);
        auto give = chrono::steady_clock::now() + chrono::seconds(5);
        while (rc == SQLITE_BUSY) {
            const bool stale = __real_sqlite3_extended_errcode(db) == SQLITE_BUSY_SNAPSHOT;
            sqlite3_reset(stmt);
            if (stale) {
                restart(st);
            }
            if (st.doomed || chrono::steady_clock::now() > give) {
                st.doomed = true;
                st.pretendChanges++;
                return SQLITE_DONE;
            }
            if (!stale) {
                parkOthers(st);
                this_thread::sleep_for(chrono::microseconds(200));
            }
            rc = __real_sqlite3_step(stmt);
        }
        if (rc == SQLITE_DONE) {
            char* e = sqlite3_expanded_sql(stmt);
            if (e) {
                st.log.push_back(e);
                sqlite3_free(e);
            }
        }
        if (shimHooks.afterStep) {
            shimHooks.afterStep(db, s.c_str(), rc);
        }
        return rc;
    }
    if (!inTxn && st.concurrent && s == "BEGIN") {
        // a snapshot together with what was committed up to it
        lock_guard<mutex> c(g_commit);
        int rc = __real_sqlite3_step(stmt);
        raw(db, "SELECT count(*) FROM sqlite_master");
        lock_guard<mutex> l(g_mutex);
        st.snapshot = g_files[st.file].commits;
        return rc;
    }
    int rc = __real_sqlite3_step(stmt);
    if (!inTxn && rc == SQLITE_BUSY) {
        // Autocommit statement (schema creation at open) meeting another writer: wait for it.
        auto give = chrono::steady_clock::now() + chrono::seconds(5);
        while (rc == SQLITE_BUSY && chrono::steady_clock::now() < give) {
            sqlite3_reset(stmt);
            parkOthers(st);
            this_thread::sleep_for(chrono::milliseconds(1));
            rc = __real_sqlite3_step(stmt);
        }
    }
    if (!inTxn && rc == SQLITE_DONE && !sqlite3_stmt_readonly(stmt) && !starts(s, "BEGIN")) {
        noteCommit(st);
    }
    if (shimHooks.afterStep) {
        shimHooks.afterStep(db, s.c_str(), rc);
    }
    return rc;
}

int __wrap_sqlite3_get_autocommit(sqlite3* db)
{
    return stateOf(db).parked ? 0 : __real_sqlite3_get_autocommit(db);
}

int __wrap_sqlite3_extended_errcode(sqlite3* db)
{
    DBState& st = stateOf(db);
    return st.extOverride ? st.extOverride : __real_sqlite3_extended_errcode(db);
}

int __wrap_sqlite3_total_changes(sqlite3* db)
{
    return __real_sqlite3_total_changes(db) + stateOf(db).pretendChanges;
}

int __wrap_sqlite3_close(sqlite3* db)
{
    shared_ptr<DBState> st;
    {
        lock_guard<mutex> l(g_mutex);
        auto i = g_dbs.find(db);
        if (i != g_dbs.end()) {
            st = i->second;
            g_dbs.erase(i); // the pointer may be handed out again as soon as it is closed
        }
    }
    if (!st) {
        return __real_sqlite3_close(db);
    }
    lock_guard<recursive_mutex> inUse(st->m);
    int rc = __real_sqlite3_close(db);
    if (rc == SQLITE_OK) {
        st->db = nullptr;
    } else {
        lock_guard<mutex> l(g_mutex);
        g_dbs[db] = st;
    }
    return rc;
}

int mbedtls_ssl_is_handshake_over(struct mbedtls_ssl_context*)
{
    return 1;
}

void sqlite3_str_truncate(sqlite3_str* str, int n)
{
    if (n < 0 || n >= sqlite3_str_length(str)) {
        return;
    }
    string keep(sqlite3_str_value(str), n);
    sqlite3_str_reset(str);
    sqlite3_str_append(str, keep.data(), n);
}
}
