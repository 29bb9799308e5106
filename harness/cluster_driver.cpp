// Several real SQLiteNode objects, each with its own database, in one process.  All traffic between them passes through a
// proxy that delivers one message at a time in an order (and with delays, cuts and restarts) chosen at random.  Virtual time.
//   run SEED KIND N STEPS [key=value ...]     one trace each; runs are processes of their own, several at once
#include <libstuff/libstuff.h>
#include <libstuff/sqlite3.h>
#include <sqlitecluster/SQLiteNode.h>
#include <sqlitecluster/SQLitePeer.h>
#include <sqlitecluster/SQLiteServer.h>
#include <sqlitecluster/SQLiteCore.h>
#include <plugins/Compression.h>
#include <arpa/inet.h>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <deque>
#include <fcntl.h>
#include <map>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <set>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include "shim/sqlite_shim.h"
#include "util.h"
#include "vtime.h"

static uint64_t rs = 1;
static uint64_t rnd()
{
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return rs >> 9;
}
static int n(int k)
{
    return k <= 1 ? 0 : rnd() % k;
}
static bool p(double x)
{
    return (rnd() % 100000) < x * 100000;
}
static map<string, string> opt;
static long o(const string& k, long d)
{
    return opt.count(k) ? atol(opt[k].c_str()) : d;
}

// ---- abort() inside a node (SERROR) ends that node, not the driver
static thread_local jmp_buf* dieJump = nullptr;
extern "C" [[noreturn]] void __wrap_abort()
{
    if (dieJump) {
        longjmp(*dieJump, 1);
    }
    signal(SIGABRT, SIG_DFL);
    raise(SIGABRT);
    _exit(134);
}
extern "C" unsigned int __wrap_sleep(unsigned int)
{
    return 0;
}

struct NodeBox;
struct Server : SQLiteServer {
    NodeBox* box = nullptr;
    set<string> blocks;
    void onNodeLogin(SQLitePeer* peer) override
    {
    }
    void notifyStateChangeToPlugins(SQLite& db, SQLiteNodeState newState) override;
    void blockCommandPort(const string& r) override
    {
        blocks.insert(r);
    }
    void unblockCommandPort(const string& r) override
    {
        blocks.erase(r);
    }
};
static int N;
struct NodeBox {
    int id = 0;
    string name, file;
    int port = 0;
    bool permaParam = false;
    atomic<int> conf{0};
    int paramPrio = 0;
    Server server;
    shared_ptr<SQLitePool> pool;
    SQLiteNode* node = nullptr;
    SQLite* client = nullptr;
    bool up = false, dead = false, stopping = false;
    bool wantStop = false;
    sqlite3* obs = nullptr;
    string obsSQL;
    long last = 0;           // last journal entry seen
    vector<int> hist;        // ids of hashes
    vector<bool> in, fk;
    vector<string> loginRx;  // fields of the last LOGIN delivered from a peer
    long lcAtRx = 0;
    bool openTx = false;
    thread slow;
    atomic<bool> slowRunning{false}, slowOk{false};
    set<int> subs;           // who subscribed (for the careful mode)
};
static vector<unique_ptr<NodeBox>> nodes; // 1..N at index 1..N
static map<string, int> hashIds;
static int hid(const string& h)
{
    if (h.empty()) {
        return 0;
    }
    auto it = hashIds.find(h);
    if (it == hashIds.end()) {
        it = hashIds.emplace(h, hashIds.size() + 1).first;
    }
    return it->second;
}
static SQLitePeer* peerOf(NodeBox& b, int j)
{
    return b.node->getPeerByName("n" + to_string(j));
}
static bool strictMode = false;

// ---- what a node's database holds, seen through a handle of its own
static void openObs(NodeBox& b)
{
    sqlite3_open_v2(b.file.c_str(), &b.obs, SQLITE_OPEN_READWRITE, nullptr);
    sqlite3_busy_timeout(b.obs, 5000);
    SQResult js;
    SQuery(b.obs, "SELECT name FROM sqlite_master WHERE type='table' AND name LIKE 'journal%' ORDER BY name", js);
    b.obsSQL = "";
    for (auto& r : js) {
        b.obsSQL += (b.obsSQL.empty() ? "" : " UNION ALL ") + ("SELECT id, hash FROM " + r[0] + " WHERE id > ");
        b.obsSQL += "@@";
    }
    b.obsSQL = "SELECT id, hash FROM (" + b.obsSQL + ") ORDER BY id";
}
static string num(long x)
{
    return to_string(x);
}
static void drain(NodeBox& b)
{
    if (!b.obs) {
        return;
    }
    SQResult r;
    if (SQuery(b.obs, SReplace(b.obsSQL, "@@", num(b.last)), r)) {
        fprintf(stderr, "observer failed\n");
        _exit(3);
    }
    for (auto& row : r) {
        long id = atol(row[0].c_str());
        int h = hid(row[1]);
        Rec("com").i("n", b.id).i("num", id).i("h", h).emit();
        b.last = id;
        b.hist.push_back(h);
    }
}
static void diff(NodeBox& b)
{
    drain(b);
    for (int j = 1; j <= N; j++) {
        if (j == b.id) {
            continue;
        }
        auto pe = peerOf(b, j);
        bool in = pe->loggedIn, fk = pe->forked;
        if (in != b.in[j]) {
            b.in[j] = in;
            if (in) {
                Rec r("in");
                r.i("n", b.id).i("p", j).i("lc", b.lcAtRx);
                r.s += b.loginRx[j];
                r.emit();
            } else {
                Rec("out").i("n", b.id).i("p", j).emit();
            }
        }
        if (fk != b.fk[j]) {
            b.fk[j] = fk;
            Rec("fk").i("n", b.id).i("p", j).b("v", fk).i("lc", b.lcAtRx).raw("login", "{\"x\":0" + (b.loginRx[j].empty() ? string(",\"cc\":0,\"ch\":0") : b.loginRx[j]) + "}").emit();
        }
    }
}
void Server::notifyStateChangeToPlugins(SQLite& db, SQLiteNodeState newState)
{
    if (!box->node) {
        return; // the constructor's UNKNOWN -> SEARCHING
    }
    diff(*box);
    Rec("state").i("n", box->id).t("from", SQLiteNode::stateName(box->node->getState())).t("to", SQLiteNode::stateName(newState))
        .i("pr", box->node->getPriority()).emit();
}

// ---- proxy
struct Conn {
    int id;
    int end[2];              // the nodes: end[0] opened it
    int fd[2];               // our socket towards each of them
    bool eof[2] = {false, false};
    bool closeSent[2] = {false, false};
    string raw[2];           // bytes read from end k
    deque<string> q[2];      // messages from end k, to be delivered to the other
};
static list<shared_ptr<Conn>> conns;
static map<pair<int, int>, int> listenFd, listenPort;
static set<pair<int, int>> linkDown, linkStalled;
static int connIds = 0;
static void setNB(int fd)
{
    fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
}
// every run has a loopback address of its own, and its ports are below the ones the system hands out
static uint32_t myAddress()
{
    uint32_t p = getpid();
    return htonl((127u << 24) | ((1 + (p >> 16) % 250) << 16) | (((p >> 8) & 255) << 8) | (p & 255));
}
static string myHost()
{
    in_addr a{myAddress()};
    return inet_ntoa(a);
}
static int bindAt(int port, bool must = true)
{
    int s = socket(AF_INET, SOCK_STREAM, 0);
    int one = 1;
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = myAddress();
    a.sin_port = htons(port);
    if (::bind(s, (sockaddr*) &a, sizeof(a))) {
        if (!must) {
            ::close(s);
            return -1;
        }
        fprintf(stderr, "bind failed %s:%d %s\n", myHost().c_str(), port, strerror(errno));
        _exit(3);
    }
    return s;
}
static string headerInt(SData& m, const string& k)
{
    return m.isSet(k) ? num(m.calc64(k)) : "-9";
}
static bool interesting(SData& m)
{
    return !(SIEquals(m.methodLine, "PING") || SIEquals(m.methodLine, "PONG"));
}
// the fields every record of a message has
static string fields(SData& m)
{
    string s = ",\"t\":" + jstr(m.methodLine) + ",\"cc\":" + headerInt(m, "CommitCount") + ",\"ch\":" + num(hid(m["Hash"]));
    if (m.isSet("State")) {
        s += ",\"st\":" + jstr(m["State"]) + ",\"pr\":" + headerInt(m, "Priority") + ",\"scc\":" + headerInt(m, "StateChangeCount");
    }
    if (m.methodLine == "STANDUP_RESPONSE") {
        s += ",\"scc\":" + headerInt(m, "StateChangeCount") + ",\"resp\":" + jstr(m["Response"]);
    }
    if (m.methodLine == "TRANSACTION") {
        s += ",\"num\":" + headerInt(m, "NewCount") + ",\"h\":" + num(hid(m["NewHash"]));
    }
    if (m.methodLine == "SYNCHRONIZE_RESPONSE" || m.methodLine == "SUBSCRIPTION_APPROVED") {
        string l;
        SData c;
        string x = m.content;
        int sz;
        while ((sz = c.deserialize(x))) {
            l += (l.empty() ? "" : ",") + ("{\"num\":" + headerInt(c, "CommitIndex") + ",\"h\":" + num(hid(c["Hash"])) + "}");
            x = x.substr(sz);
            c = SData();
        }
        s += ",\"k\":" + headerInt(m, "NumCommits") + ",\"list\":[" + l + "]";
        s += string(",\"mm\":") + (m.isSet("hashMismatchNumber") ? "true" : "false") + ",\"sd\":" + (m.isSet("ShuttingDown") ? "true" : "false");
    }
    return s;
}
static void pumpSocket(Conn& c, int k)
{
    char buf[65536];
    // no delayed acknowledgements: the node's next message would wait for them
    int one = 1;
    setsockopt(c.fd[k], IPPROTO_TCP, TCP_QUICKACK, &one, sizeof(one));
    while (!c.eof[k]) {
        setsockopt(c.fd[k], IPPROTO_TCP, TCP_QUICKACK, &one, sizeof(one));
        ssize_t r = ::recv(c.fd[k], buf, sizeof(buf), 0);
        if (r > 0) {
            c.raw[k].append(buf, r);
            continue;
        }
        if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
            break;
        }
        c.eof[k] = true;
    }
    while (true) {
        SData m;
        int sz = m.deserialize(c.raw[k]);
        if (!sz) {
            break;
        }
        string wire = c.raw[k].substr(0, sz);
        c.raw[k] = c.raw[k].substr(sz);
        int from = c.end[k], to = c.end[1 - k];
        if (interesting(m)) {
            // what it says it has was committed before it said so
            if (m.calc64("CommitCount") > nodes[from]->last || m.calc64("NewCount") > nodes[from]->last) {
                drain(*nodes[from]);
            }
            Rec r("tx");
            r.i("n", from).i("p", to).i("c", c.id);
            r.s += fields(m);
            r.emit();
            if (m.methodLine == "SUBSCRIPTION_APPROVED") {
                nodes[from]->subs.insert(to);
            }
            if (m.methodLine == "STATE" && m["State"] != "LEADING" && m["State"] != "STANDINGDOWN") {
                nodes[from]->subs.clear();
            }
        }
        c.q[k].push_back(wire);
    }
}
static void pump()
{
    for (auto& [k, fd] : listenFd) {
        while (true) {
            int s = ::accept(fd, nullptr, nullptr);
            if (s < 0) {
                break;
            }
            int i = k.first, j = k.second;
            if (linkDown.count({min(i, j), max(i, j)}) || !nodes[j]->up || nodes[j]->dead || !nodes[i]->up) {
                ::close(s);
                continue;
            }
            int t = socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_addr.s_addr = myAddress();
            a.sin_port = htons(nodes[j]->port);
            if (::connect(t, (sockaddr*) &a, sizeof(a))) {
                ::close(t);
                ::close(s);
                continue;
            }
            setNB(s);
            setNB(t);
            auto c = make_shared<Conn>();
            c->id = ++connIds;
            c->end[0] = i;
            c->end[1] = j;
            c->fd[0] = s;
            c->fd[1] = t;
            conns.push_back(c);
        }
    }
    for (auto& c : conns) {
        pumpSocket(*c, 0);
        pumpSocket(*c, 1);
    }
    for (auto it = conns.begin(); it != conns.end(); ) {
        auto& c = **it;
        bool gone = (c.eof[0] || c.closeSent[0]) && (c.eof[1] || c.closeSent[1]);
        if (gone) {
            ::close(c.fd[0]);
            ::close(c.fd[1]);
            it = conns.erase(it);
        } else {
            ++it;
        }
    }
}
static void cut(int i, int j)
{
    pump();
    bool any = false;
    for (auto& c : conns) {
        any = any || (c->end[0] == i && c->end[1] == j) || (c->end[0] == j && c->end[1] == i);
    }
    if (any) {
        Rec("cut").i("n", i).i("p", j).emit();
    }
    for (auto it = conns.begin(); it != conns.end(); ) {
        auto& c = **it;
        if ((c.end[0] == i && c.end[1] == j) || (c.end[0] == j && c.end[1] == i)) {
            ::close(c.fd[0]);
            ::close(c.fd[1]);
            it = conns.erase(it);
        } else {
            ++it;
        }
    }
}

// ---- stepping
static void markDead(NodeBox& b)
{
    Rec("die").i("n", b.id).emit();
    b.dead = true;
    for (int j = 1; j <= N; j++) {
        if (j != b.id) {
            cut(b.id, j);
        }
    }
}
static bool guarded(NodeBox& b, const function<void()>& f)
{
    jmp_buf jb;
    if (setjmp(jb) == 0) {
        dieJump = &jb;
        f();
        dieJump = nullptr;
        return true;
    }
    dieJump = nullptr;
    diff(b);
    pump();
    markDead(b);
    return false;
}
static void afterNode(NodeBox& b)
{
    diff(b);
    pump();
}
static void postPoll(NodeBox& b)
{
    if (!b.up || b.dead) {
        return;
    }
    guarded(b, [&]() {
        fd_map fdm;
        b.node->prePoll(fdm);
        S_poll(fdm, 0);
        uint64_t next = STimeNow() + 1000000;
        b.node->postPoll(fdm, next);
    });
    if (!b.dead) {
        afterNode(b);
    }
}
static void update(NodeBox& b)
{
    if (!b.up || b.dead) {
        return;
    }
    bool more = true;
    int k = 0;
    while (more && !b.dead) {
        guarded(b, [&]() {
            more = b.node->update();
        });
        if (b.dead) {
            return;
        }
        afterNode(b);
        if (++k > 200) {
            Rec("hang").i("n", b.id).emit();
            _exit(0);
        }
    }
    Rec("upd").i("n", b.id).t("st", SQLiteNode::stateName(b.node->getState())).i("pr", b.node->getPriority()).i("cc", b.node->getCommitCount()).emit();
}
static void step(NodeBox& b)
{
    postPoll(b);
    update(b);
}
static void waitApplied(NodeBox& b, uint64_t want)
{
    for (int i = 0; i < 4000 && b.up && !b.dead && b.node->getCommitCount() < want; i++) {
        usleep(i < 100 ? 50 : 500);
    }
}
static double asyncP = 0;
// delivers the first message from end k of c
static void deliver(shared_ptr<Conn> c, int k, bool alwaysUpdate = false)
{
    int from = c->end[k], to = c->end[1 - k];
    auto& b = *nodes[to];
    pump();
    if (c->eof[1 - k] || !b.up || b.dead) {
        c->q[k].clear();
        if (c->eof[k]) {
            c->closeSent[1 - k] = true;
        }
        pump();
        return;
    }
    if (c->q[k].empty()) {
        if (c->eof[k] && !c->closeSent[1 - k]) {
            // the sender closed: now the other side sees it
            ::shutdown(c->fd[1 - k], SHUT_RDWR);
            c->closeSent[1 - k] = true;
            postPoll(b);
            if (alwaysUpdate || p(0.8)) {
                update(b);
            }
        }
        return;
    }
    string wire = c->q[k].front();
    c->q[k].pop_front();
    SData m(wire);
    if (interesting(m)) {
        drain(b);
        b.lcAtRx = b.last;
        Rec r("rx");
        r.i("n", to).i("p", from).i("c", c->id).i("lc", b.last);
        string f = fields(m);
        r.s += f;
        r.emit();
        if (m.methodLine == "LOGIN") {
            b.loginRx[from] = f;
        }
    }
    size_t off = 0;
    while (off < wire.size()) {
        ssize_t w = ::send(c->fd[1 - k], wire.data() + off, wire.size() - off, MSG_NOSIGNAL);
        if (w <= 0) {
            if (errno == EAGAIN) {
                postPoll(b);
                continue;
            }
            break;
        }
        off += w;
    }
    postPoll(b);
    if (b.dead) {
        return;
    }
    if (m.methodLine == "TRANSACTION" && b.node->getState() == SQLiteNodeState::FOLLOWING && !p(asyncP)) {
        waitApplied(b, m.calcU64("NewCount"));
        drain(b);
    }
    if (m.methodLine == "SYNCHRONIZE" && !p(asyncP)) {
        for (int i = 0; i < 400; i++) {
            pump();
            bool got = false;
            for (auto& d : conns) {
                for (int e : {0, 1}) {
                    if (d->end[e] == to && d->end[1 - e] == from) {
                        for (auto& x : d->q[e]) {
                            got = got || SStartsWith(x, "SYNCHRONIZE_RESPONSE") || SStartsWith(x, "RECONNECT");
                        }
                    }
                }
            }
            if (got) {
                break;
            }
            usleep(500);
        }
    }
    if (alwaysUpdate || p(0.8)) {
        update(b);
    }
}
static vector<pair<shared_ptr<Conn>, int>> deliverable()
{
    vector<pair<shared_ptr<Conn>, int>> v;
    for (auto& c : conns) {
        if (linkStalled.count({min(c->end[0], c->end[1]), max(c->end[0], c->end[1])})) {
            continue;
        }
        for (int k : {0, 1}) {
            if (!c->q[k].empty() || (c->eof[k] && !c->closeSent[1 - k])) {
                v.push_back({c, k});
            }
        }
    }
    return v;
}

// ---- lives of a node
static void start(NodeBox& b, int N)
{
    b.pool = make_shared<SQLitePool>(6, b.file, 2000, (int) o("journal", 100000), (int) o("tables", -1));
    string peers;
    for (int j = 1; j <= N; j++) {
        if (j != b.id) {
            peers += (peers.empty() ? "" : ",") + myHost() + ":" + to_string(listenPort[{b.id, j}]) + "?nodeName=n" + to_string(j);
            if (nodes[j]->permaParam) {
                peers += "&Permafollower=true";
            }
        }
    }
    b.in.assign(N + 1, false);
    b.fk.assign(N + 1, false);
    b.loginRx.assign(N + 1, "");
    b.subs.clear();
    b.conf = b.paramPrio;
    b.node = nullptr;
    b.server.blocks.clear();
    b.stopping = b.wantStop = b.dead = false;
    openObs(b);
    b.last = 0;
    b.hist.clear();
    SQResult r;
    SQuery(b.obs, SReplace(b.obsSQL, "@@", "0"), r);
    string hist = "[";
    for (auto& row : r) {
        b.last = atol(row[0].c_str());
        b.hist.push_back(hid(row[1]));
        hist += (hist.size() > 1 ? "," : "") + num(b.hist.back());
    }
    b.node = new SQLiteNode(b.server, b.pool, b.name, myHost() + ":" + to_string(b.port), peers, b.conf, 0, "v1", "127.0.0.1:1");
    b.client = new SQLite(b.pool->getBase());
    b.up = true;
    Rec("start").i("n", b.id).i("conf", b.conf).raw("hist", hist + "]").emit();
}
static void finishSlow(NodeBox& b);
static void finishOpen(NodeBox& b);
static void destroy(NodeBox& b, const char* how)
{
    finishOpen(b);
    finishSlow(b);
    drain(b);
    pump();
    Rec("stop").i("n", b.id).t("how", how).emit();
    usleep(20000);
    for (int j = 1; j <= N; j++) {
        if (j != b.id && string(how) == "crash") {
            cut(b.id, j);
        }
    }
    b.up = false;
    if (!b.dead) {
        delete b.node;
        delete b.client;
        b.pool.reset();
        sqlite3_close(b.obs);
    }
    b.node = nullptr;
    b.client = nullptr;
    b.obs = nullptr;
    pump();
    for (int j = 1; strictMode && j <= N; j++) {
        step(*nodes[j]); // in careful mode the others see at once that it is gone
    }
}
static long uniq = 0;
static string stmt(NodeBox& b)
{
    long k = ++uniq;
    switch (n(6)) {
        case 0:
            return "UPDATE t SET v = v || '" + num(k % 10) + "' WHERE id % 3 = " + num(k % 3) + ";";

        case 1:
            return "DELETE FROM t WHERE id = " + num(n(k + 1)) + "; INSERT INTO t VALUES(" + num(k) + ", 'd" + num(b.id) + "');";

        default:
            return "INSERT INTO t VALUES(" + num(k) + ", 'n" + num(b.id) + "-" + num(k) + "');";
    }
}
static bool write(NodeBox& b)
{
    if (b.openTx || b.slowRunning || b.slow.joinable()) {
        return false;
    }
    bool ok = false;
    if (!b.client->beginTransaction()) {
        return false;
    }
    if (b.client->write(stmt(b))) {
        uint64_t id;
        string hash;
        SQLiteCore core(*b.client);
        ok = core.commit(*b.node, id, hash, "w", false);
    } else {
        b.client->rollback();
    }
    drain(b);
    Rec("wr").i("n", b.id).b("ok", ok).i("cnt", b.last).emit();
    if (ok) {
        b.node->notifyCommit();
    }
    return ok;
}
static void openWrite(NodeBox& b)
{
    if (b.openTx || b.slow.joinable()) {
        return;
    }
    if (b.client->beginTransaction() && b.client->write(stmt(b))) {
        b.openTx = true;
    }
}
static void finishOpen(NodeBox& b)
{
    if (!b.openTx || b.dead) {
        return;
    }
    b.openTx = false;
    uint64_t id;
    string hash;
    SQLiteCore core(*b.client);
    bool ok = core.commit(*b.node, id, hash, "w", false);
    drain(b);
    Rec("wr").i("n", b.id).b("ok", ok).i("cnt", b.last).emit();
    if (ok) {
        b.node->notifyCommit();
    }
}
// a write in a thread of its own that pauses at a chosen statement
static thread_local int pauseAt = 0; // 1: before its journal entry (prepare), 2: before COMMIT
static atomic<bool> paused{false}, resume_{false};
static void slowWrite(NodeBox& b, int where)
{
    if (b.openTx || b.slow.joinable()) {
        return;
    }
    paused = false;
    resume_ = false;
    b.slowRunning = true;
    string s = stmt(b);
    b.slow = thread([&b, s, where]() {
        SInitialize("slow");
        bool ok = false;
        pauseAt = where;
        if (b.client->beginTransaction()) {
            if (b.client->write(s)) {
                uint64_t id;
                string hash;
                SQLiteCore core(*b.client);
                ok = core.commit(*b.node, id, hash, "w", false);
            } else {
                b.client->rollback();
            }
        }
        b.slowOk = ok;
        if (ok) {
            b.node->notifyCommit();
        }
        b.slowRunning = false;
    });
    for (int i = 0; i < 2000 && b.slowRunning && !paused; i++) {
        usleep(50);
    }
}
static void finishSlow(NodeBox& b)
{
    if (!b.slow.joinable()) {
        return;
    }
    resume_ = true;
    b.slow.join();
    drain(b);
    Rec("wr").i("n", b.id).b("ok", b.slowOk).i("cnt", b.last).emit();
}
static void hookStatements()
{
    shimHooks.beforeStep = [](sqlite3*, const char* s) {
        if (pauseAt && ((pauseAt == 2 && SStartsWith(s, "COMMIT")) || (pauseAt == 1 && SContains(s, "journal") && SStartsWith(s, "INSERT")))) {
            pauseAt = 0;
            paused = true;
            for (int i = 0; i < 400 && !resume_; i++) {
                usleep(100);
            }
        }
    };
}
// careful mode: nothing a leader committed is lost with it
static void shipAll(NodeBox& b)
{
    finishSlow(b);
    if (!b.up || b.dead || b.node->getState() != SQLiteNodeState::LEADING) {
        return;
    }
    for (int r = 0; r < 200; r++) {
        step(b);
        bool any = false;
        for (auto& d : list<shared_ptr<Conn>>(conns)) {
            for (int k : {0, 1}) {
                if (d->end[k] == b.id) {
                    while (!d->q[k].empty()) {
                        deliver(d, k, true);
                        any = true;
                    }
                }
            }
        }
        for (int j : b.subs) {
            if (nodes[j]->up && !nodes[j]->dead && nodes[j]->node->getState() == SQLiteNodeState::FOLLOWING) {
                waitApplied(*nodes[j], b.node->getCommitCount());
            }
        }
        if (!any) {
            break;
        }
    }
}
// in careful mode a leader may lose a connection only when enough others have what it committed
static bool mayLose(NodeBox& b)
{
    if (!strictMode || !b.up || b.dead) {
        return true;
    }
    if (b.node->getState() != SQLiteNodeState::LEADING && b.node->getState() != SQLiteNodeState::STANDINGDOWN) {
        return true;
    }
    shipAll(b);
    if (!b.up || b.dead || b.openTx) {
        return false;
    }
    if (b.node->getState() != SQLiteNodeState::LEADING) {
        return b.node->getState() != SQLiteNodeState::STANDINGDOWN;
    }
    return true;
}
// Who has transaction b.last, counted over full nodes: everything committed must be on a majority
static bool safeToLose(NodeBox& b)
{
    int full = 0, have = 0;
    for (int j = 1; j <= N; j++) {
        if (nodes[j]->paramPrio != 0) {
            full++;
            drain(*nodes[j]);
            if (nodes[j]->last >= b.last) {
                have++;
            }
        }
    }
    return have * 2 > full;
}
static bool leading(NodeBox& b)
{
    return b.up && !b.dead && (b.node->getState() == SQLiteNodeState::LEADING || b.node->getState() == SQLiteNodeState::STANDINGDOWN);
}
// careful mode: what is on its way between two nodes arrives before they are cut
static void flushPair(int i, int j)
{
    for (int r = 0; strictMode && r < 500; r++) {
        bool any = false;
        for (auto& d : list<shared_ptr<Conn>>(conns)) {
            if ((d->end[0] == i && d->end[1] == j) || (d->end[0] == j && d->end[1] == i)) {
                for (int k : {0, 1}) {
                    if (!d->q[k].empty()) {
                        deliver(d, k, true);
                        any = true;
                    }
                }
            }
        }
        if (!any) {
            break;
        }
    }
    for (int k : {i, j}) {
        if (nodes[k]->up && !nodes[k]->dead && strictMode) {
            usleep(300);
            drain(*nodes[k]);
        }
    }
}
static bool lossless(NodeBox& b)
{
    if (!strictMode) {
        return true;
    }
    if (!mayLose(b)) {
        return false;
    }
    for (int j = 1; j <= N; j++) {
        if (j != b.id) {
            flushPair(b.id, j);
        }
    }
    return !leading(b) || (!b.slow.joinable() && !b.openTx && safeToLose(b));
}
static bool mostFollow(NodeBox& b)
{
    int full = 0, have = 1;
    for (int j = 1; j <= N; j++) {
        if (nodes[j]->paramPrio != 0) {
            full++;
            have += b.subs.count(j) && nodes[j]->up && !nodes[j]->dead && nodes[j]->node->getState() == SQLiteNodeState::FOLLOWING;
        }
    }
    return have * 2 > full;
}
static void crash(NodeBox& b)
{
    if (!b.up) {
        return;
    }
    if (!b.dead) {
        if (!lossless(b)) {
            return;
        }
        if (b.openTx && !b.dead) {
            b.openTx = false;
            b.client->rollback();
        }
        finishSlow(b);
        for (int j = 1; j <= N; j++) {
            if (j != b.id) {
                cut(b.id, j);
            }
        }
        for (int i = 0; i < 5 && !b.dead; i++) {
            step(b);
        }
    }
    destroy(b, "crash");
}
static void gracefulStep(NodeBox& b)
{
    if (b.up && !b.dead && b.stopping && b.node->shutdownComplete()) {
        destroy(b, "graceful");
    }
}
static void restart(NodeBox& b)
{
    if (!b.up) {
        start(b, N);
    }
}
static set<int> confs()
{
    set<int> s;
    for (int j = 1; j <= N; j++) {
        s.insert(nodes[j]->conf);
        s.insert(nodes[j]->paramPrio);
    }
    return s;
}
static void setPriority(NodeBox& b, int v)
{
    if (!b.up || b.dead || b.stopping) {
        return;
    }
    Rec("sp").i("n", b.id).i("v", v).i("pr", b.node->getPriority()).i("conf", b.conf).emit();
    int res = 200;
    string why;
    guarded(b, [&]() {
        try {
            res = b.node->setPriority(v);
            res = 200;
        } catch (const SException& e) {
            res = atoi(e.what());
            why = e.what();
        }
    });
    if (b.dead) {
        return;
    }
    afterNode(b);
    Rec("spr").i("n", b.id).i("v", v).i("res", res).i("pr", b.node->getPriority()).i("conf", b.conf).emit();
    b.paramPrio = b.conf;
}
static int unusedPriority()
{
    auto s = confs();
    while (true) {
        int v = 2 + n(400);
        if (!s.count(v)) {
            return v;
        }
    }
}
static bool unique_(int id, int v)
{
    for (int j = 1; j <= N; j++) {
        if (j != id && v > 0 && nodes[j]->conf == v) {
            return false;
        }
    }
    return true;
}
static string dataOf(NodeBox& b)
{
    SQResult r;
    SQuery(b.obs, "SELECT group_concat(id || ':' || v, '|') FROM (SELECT id, v FROM t ORDER BY id)", r);
    return r.empty() ? "" : r[0][0];
}
static bool prefixes(const vector<int>& a, const vector<int>& b)
{
    for (size_t i = 0; i < min(a.size(), b.size()); i++) {
        if (a[i] != b[i]) {
            return false;
        }
    }
    return true;
}
// the nodes whose history a majority shares
static set<int> mainland()
{
    set<int> best;
    for (int i = 1; i <= N; i++) {
        set<int> s;
        for (int j = 1; j <= N; j++) {
            if (prefixes(nodes[i]->hist, nodes[j]->hist)) {
                s.insert(j);
            }
        }
        // mutually compatible?
        bool ok = true;
        for (int x : s) {
            for (int y : s) {
                ok = ok && prefixes(nodes[x]->hist, nodes[y]->hist);
            }
        }
        if (ok && s.size() > best.size()) {
            best = s;
        }
    }
    return best;
}
static bool converged(const set<int>& m, int& leader)
{
    leader = 0;
    int hp = 0;
    for (int j : m) {
        if (nodes[j]->dead || !nodes[j]->up) {
            return false;
        }
        if (nodes[j]->conf > hp) {
            hp = nodes[j]->conf;
            leader = j;
        }
    }
    if (!leader) {
        return false;
    }
    for (int j : m) {
        auto st = nodes[j]->node->getState();
        if (st != (j == leader ? SQLiteNodeState::LEADING : SQLiteNodeState::FOLLOWING)) {
            return false;
        }
        if (nodes[j]->node->getCommitCount() != nodes[leader]->node->getCommitCount()) {
            return false;
        }
    }
    for (auto& c : conns) {
        for (int k : {0, 1}) {
            for (auto& x : c->q[k]) {
                if (!SStartsWith(x, "PING") && !SStartsWith(x, "PONG")) {
                    return false;
                }
            }
        }
    }
    return true;
}
static void tick(uint64_t us)
{
    g_vnow += us;
}
static void copyDb(const string& from, const string& to)
{
    for (string s : {"", "-wal"}) {
        if (SFileExists(from + s)) {
            SFileCopy(from + s, to + s);
        }
    }
}
static void grow(const string& file, int k, int salt)
{
    SQLitePool pool(3, file, 2000, (int) o("journal", 100000), (int) o("tables", -1));
    SQLite& db = pool.getBase();
    for (int i = 0; i < k; i++) {
        db.beginTransaction();
        if (!db.getCommitCount()) {
            db.write("CREATE TABLE t(id INTEGER PRIMARY KEY, v);");
        } else {
            db.write("INSERT INTO t VALUES(" + num(100000 * (salt + 1) + db.getCommitCount()) + ", 's" + num(salt) + "');");
        }
        db.prepare();
        db.commit();
    }
}
static void one(const string& dir, uint64_t seed, const string& kind, int nn, int steps)
{
    rs = seed * 2654435761ull + 88172645463325252ull;
    for (int i = 0; i < 20; i++) {
        rnd();
    }
    N = nn;
    strictMode = o("strict", 1);
    asyncP = o("async", 0) ? 0.4 : 0;
    g_vnow = 1700000000000000ull + seed * 1000000ull;
    mkdir(dir.c_str(), 0777);
    hookStatements();
    const int perma = o("perma", 0);
    nodes.push_back(nullptr);
    for (int i = 1; i <= N; i++) {
        nodes.push_back(make_unique<NodeBox>());
        auto& b = *nodes[i];
        b.id = i;
        b.name = "n" + to_string(i);
        b.server.box = &b;
        b.file = dir + "/db" + to_string(i);
        b.paramPrio = i > N - perma ? 0 : (N + 1 - i) * 10;
        b.permaParam = b.paramPrio == 0;
        b.conf = b.paramPrio;
    }
    // initial histories: a common part, some behind, some forked
    const int base = o("base", 3);
    grow(dir + "/seed", base, 0);
    for (int i = 1; i <= N; i++) {
        copyDb(dir + "/seed", nodes[i]->file);
    }
    const int lag = o("lag", 0); // the first node is behind by this many
    if (lag) {
        string ahead = dir + "/ahead";
        copyDb(dir + "/seed", ahead);
        grow(ahead, lag, 0);
        int who = o("behind", 0) ? (int) o("behind", 0) : 1 + n(N);
        for (int i = 1; i <= N; i++) {
            if (i != who) {
                ::unlink(nodes[i]->file.c_str());
                ::unlink((nodes[i]->file + "-wal").c_str());
                copyDb(ahead, nodes[i]->file);
            }
        }
    }
    set<int> forkset;
    for (int f = 0; f < o("forked", 0); f++) {
        int who;
        do {
            who = 1 + n(N);
        } while (forkset.count(who));
        if (f == 0 && o("who", 0)) {
            who = o("who", 0);
        }
        forkset.insert(who);
    }
    if (!forkset.empty()) {
        int deep = o("deep", 1);
        string f = dir + "/fork";
        copyDb(dir + "/seed", f);
        grow(f, deep, 7);
        string f2 = dir + "/main";
        copyDb(dir + "/seed", f2);
        grow(f2, o("mainDeep", 1), 3);
        for (int i = 1; i <= N; i++) {
            if (!forkset.count(i) && o("mainSplit", 0) && i == N) {
                continue; // one node has only the common part
            }
            ::unlink(nodes[i]->file.c_str());
            ::unlink((nodes[i]->file + "-wal").c_str());
            copyDb(forkset.count(i) ? f : f2, nodes[i]->file);
        }
    }
    // (something else may listen on some port on every address)
    int portBase = 26100;
    for (bool ok = false; !ok && portBase < 32000; portBase += ok ? 0 : 500) {
        ok = true;
        for (int k = 0; k < 320 && ok; k++) {
            int t = bindAt(portBase + k, false);
            ok = t >= 0;
            if (ok) {
                ::close(t);
            }
        }
    }
    for (int i = 1; i <= N; i++) {
        nodes[i]->port = portBase + 300 + i;
        for (int j = 1; j <= N; j++) {
            if (i != j) {
                int s = bindAt(listenPort[{i, j}] = portBase + 10 * i + j);
                ::listen(s, 32);
                setNB(s);
                listenFd[{i, j}] = s;
            }
        }
    }
    vector<int> pr;
    for (int i = 1; i <= N; i++) {
        pr.push_back(nodes[i]->paramPrio);
    }
    Rec("begin").i("N", N).ints("conf", pr).b("strict", strictMode).t("kind", kind).i("seed", seed).b("forks", !forkset.empty()).emit();
    auto anyLeader = [&]() {
        for (int i = 1; i <= N; i++) {
            if (nodes[i]->up && !nodes[i]->dead && nodes[i]->node->getState() == SQLiteNodeState::LEADING) {
                return i;
            }
        }
        return 0;
    };
    auto fair = [&](uint64_t us) {
        for (int z = 0; z < 400; z++) {
            auto d = deliverable();
            if (d.empty()) {
                break;
            }
            auto x = d[n(d.size())];
            deliver(x.first, x.second, true);
        }
        for (int i = 1; i <= N; i++) {
            gracefulStep(*nodes[i]);
            step(*nodes[i]);
        }
        tick(us);
    };
    // start: all, or one after the other
    for (int i = 1; i <= N; i++) {
        if (!p(0.2)) {
            start(*nodes[i], N);
        }
    }
    const bool settle = p(0.6);
    if (settle) {
        for (int i = 1; i <= N; i++) {
            restart(*nodes[i]);
        }
        for (int r = 0; r < 40; r++) {
            fair(200000);
        }
    }
    const bool prio = o("prio", 0);
    uint64_t lastShip = g_vnow;
    for (int s = 0; s < steps; s++) {
        int i = 1 + n(N), j = 1 + n(N);
        auto& b = *nodes[i];
        auto l = make_pair(min(i, j), max(i, j));
        int a = n(1000);
        if (a < 560) {
            auto d = deliverable();
            if (!d.empty()) {
                auto x = d[n(d.size())];
                int burst = p(0.1) ? 10 : 1;
                for (int z = 0; z < burst; z++) {
                    if (x.first->eof[0] && x.first->eof[1]) {
                        break;
                    }
                    deliver(x.first, x.second);
                }
            }
        } else if (a < 700) {
            step(b);
        } else if (a < 780) {
            static const uint64_t ts[] = {50000, 100000, 300000, 1000000, 3000000, 6000000, 12000000, 31000000};
            uint64_t dt = ts[p(0.9) ? n(5) : n(8)];
            bool may = true;
            if (strictMode && g_vnow + dt > lastShip + 8000000) {
                // in careful mode connections do not time out on what a leader has sent
                for (int k = 1; k <= N; k++) {
                    may = may && lossless(*nodes[k]);
                }
                if (may) {
                    lastShip = g_vnow + dt;
                }
            }
            if (may) {
                tick(dt);
                for (int k = 1; strictMode && k <= N; k++) {
                    step(*nodes[k]); // whoever loses a connection to the clock knows before it commits again
                }
            }
        } else if (a < 900) {
            int w = anyLeader();
            if (p(0.1)) {
                w = i; // whatever its state: must be refused
            }
            if (w && nodes[w]->up && !nodes[w]->dead) {
                auto& x = *nodes[w];
                int how = n(10);
                if (x.openTx) {
                    finishOpen(x);
                } else if (x.slow.joinable()) {
                    finishSlow(x);
                } else if (how < 7) {
                    write(x);
                    if (p(0.3)) {
                        write(x);
                    }
                } else if (how == 7) {
                    openWrite(x);
                } else {
                    const bool follow = !strictMode || mostFollow(x);
                    slowWrite(x, 1 + n(2));
                    if (p(0.5)) {
                        step(x);
                    }
                    if (follow && p(0.3)) {
                        x.node->beginShutdown();
                        x.stopping = true;
                        step(x);
                    } else if (prio && p(0.3)) {
                        setPriority(x, unusedPriority());
                    }
                    if (p(0.7)) {
                        finishSlow(x);
                    }
                }
            }
        } else if (a < 915 && i != j) {
            if (lossless(b) && lossless(*nodes[j])) {
                cut(i, j);
                if (strictMode || p(0.5)) {
                    step(b);
                    step(*nodes[j]);
                }
            }
        } else if (a < 925 && i != j) {
            if (lossless(b) && lossless(*nodes[j])) {
                linkDown.insert(l);
                cut(i, j);
                if (strictMode) {
                    step(b);
                    step(*nodes[j]);
                }
            }
        } else if (a < 940) {
            if (!linkDown.empty()) {
                linkDown.erase(linkDown.begin());
            }
        } else if (a < 945 && i != j) {
            if (!strictMode) {
                linkStalled.insert(l);
            }
        } else if (a < 955) {
            linkStalled.clear();
        } else if (a < 963) {
            crash(b);
        } else if (a < 975) {
            restart(b);
        } else if (a < 981) {
            if (b.up && !b.dead && !b.stopping && (!strictMode || !leading(b) || mostFollow(b) || lossless(b))) {
                if (p(0.6)) {
                    b.node->setShutdownPriority();
                    afterNode(b);
                    Rec("ssp").i("n", b.id).emit();
                    if (p(0.5)) {
                        step(b);
                    }
                }
                b.node->beginShutdown();
                b.stopping = true;
                step(b);
            }
        } else if (a < 1000 && prio) {
            int w = p(0.4) ? anyLeader() : i;
            if (w) {
                auto& x = *nodes[w];
                int q = n(10);
                int v = q < 4 ? unusedPriority() : q < 6 ? 0 : q < 8 ? (int) nodes[j]->conf : q == 8 ? 1 : -5;
                if (v > 1 && !unique_(w, v)) {
                    // accepted by a node that does not see the other one: not ours to test
                    bool seen = x.up && !x.dead && j != w && x.in[j] && peerOf(x, j)->priority == v;
                    if (!seen) {
                        v = unusedPriority();
                    }
                }
                setPriority(x, v);
            }
        }
        for (int k = 1; k <= N; k++) {
            gracefulStep(*nodes[k]);
        }
        tick(1000);
    }
    // everything heals; a fair schedule from here on
    for (int k = 1; k <= N; k++) {
        finishSlow(*nodes[k]);
        finishOpen(*nodes[k]);
    }
    linkDown.clear();
    linkStalled.clear();
    const bool writesOn = p(0.3);
    Rec("heal").emit();
    int leader = 0, stable = 0, rounds = 0;
    set<int> m;
    const int maxRounds = o("rounds", 1500);
    for (; rounds < maxRounds; rounds++) {
        if (rounds % 5 == 0) {
            for (int k = 1; k <= N; k++) {
                auto& b = *nodes[k];
                if (!b.up) {
                    restart(b);
                } else if (b.stopping && b.dead) {
                    destroy(b, "crash");
                }
            }
        }
        fair(150000 + n(100000));
        if (writesOn && rounds < 60) {
            int w = anyLeader();
            if (w && rounds % 3 == 0 && nodes[w]->up && !nodes[w]->stopping) {
                write(*nodes[w]);
            }
            continue;
        }
        m = mainland();
        bool allUp = true;
        for (int k = 1; k <= N; k++) {
            allUp = allUp && (nodes[k]->up || !m.count(k));
        }
        if (allUp && converged(m, leader)) {
            if (++stable > 30) {
                break;
            }
        } else {
            stable = 0;
        }
    }
    m = mainland();
    string st = "[";
    for (int k = 1; k <= N; k++) {
        auto& b = *nodes[k];
        if (b.up && !b.dead) {
            for (int z = 0; z < 3; z++) {
                drain(b);
            }
        }
        st += string(k > 1 ? "," : "") + "{\"up\":" + (b.up && !b.dead ? "true" : "false") + ",\"st\":" + jstr(b.up && !b.dead ? SQLiteNode::stateName(b.node->getState()) : "-") +
            ",\"cnt\":" + num(b.last) + ",\"conf\":" + num(b.conf) + ",\"pr\":" + num(b.up && !b.dead ? b.node->getPriority() : -1) + ",\"data\":" + num(hid("d" + (b.up && !b.dead ? dataOf(b) : ""))) +
            ",\"blocked\":" + num(b.server.blocks.size()) + ",\"main\":" + (m.count(k) ? "true" : "false") + "}";
    }
    Rec("fin").i("rounds", rounds).b("conv", stable > 30).i("leader", leader).raw("nodes", st + "]").emit();
    fflush(stdout);
    _exit(0);
}

static void logToStderr(int, const char* f, ...)
{
    va_list a;
    va_start(a, f);
    char buf[2000];
    vsnprintf(buf, sizeof(buf), f, a);
    va_end(a);
    fprintf(stderr, "%s\n", buf);
}
int main(int argc, char** argv)
{
    signal(SIGPIPE, SIG_IGN);
    SInitialize("main", "cluster");
    if (getenv("CLUSTER_LOG")) {
        SSyslogFunc = logToStderr;
    }
    SLogLevel(getenv("CLUSTER_LOG") ? LOG_DEBUG : LOG_ALERT);
    vector<vector<string>> runs;
    string line;
    while (getline(cin, line)) {
        auto w = words(line);
        if (w.size() >= 5 && w[0] == "run") {
            runs.push_back(w);
        }
    }
    char cwd[4096];
    getcwd(cwd, sizeof(cwd));
    const uint64_t salt = argc > 1 ? atol(argv[1]) : 1;
    const int par = argc > 2 ? atoi(argv[2]) : 8;
    const int limit = argc > 3 ? atoi(argv[3]) : 60;
    map<pid_t, int> running;
    vector<string> outs(runs.size());
    size_t next = 0, printed = 0;
    vector<int> done(runs.size(), 0);
    map<int, time_t> started;
    while (printed < runs.size()) {
        while (next < runs.size() && (int) running.size() < par) {
            string f = string(cwd) + "/out" + to_string(next);
            pid_t pid = fork();
            if (!pid) {
                int fd = ::open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
                dup2(fd, 1);
                auto& w = runs[next];
                for (size_t k = 5; k < w.size(); k++) {
                    auto e = w[k].find('=');
                    opt[w[k].substr(0, e)] = w[k].substr(e + 1);
                }
                one(string(cwd) + "/r" + to_string(next), salt * 100003 + atol(w[1].c_str()), w[2], atoi(w[3].c_str()), atoi(w[4].c_str()));
                _exit(0);
            }
            running[pid] = next;
            started[next] = time(nullptr);
            next++;
        }
        int stt;
        pid_t q = waitpid(-1, &stt, WNOHANG);
        if (q > 0) {
            int k = running[q];
            running.erase(q);
            done[k] = WIFEXITED(stt) && WEXITSTATUS(stt) == 0 ? 1 : WIFEXITED(stt) ? 100 + WEXITSTATUS(stt) : 1000 + WTERMSIG(stt);
        } else {
            for (auto& [pid, k] : running) {
                if (time(nullptr) - started[k] > limit) {
                    kill(pid, SIGKILL);
                }
            }
            usleep(2000);
        }
        while (printed < runs.size() && done[printed]) {
            string f = string(cwd) + "/out" + to_string(printed);
            string c = SFileLoad(f);
            if (!c.empty() && c.back() != '\n') {
                c += "\n";
            }
            fwrite(c.data(), 1, c.size(), stdout);
            if (done[printed] == 103) {
                fflush(stdout);
                _exit(3);
            }
            if (done[printed] != 1) {
                string x = done[printed] == 1009 ? "{\"e\":\"hang\"}" : "{\"e\":\"died\",\"rc\":" + to_string(done[printed]) + "}";
                printf("%s\n", x.c_str());
            }
            fflush(stdout);
            ::unlink(f.c_str());
            // the databases are small; the scratch directory goes with the check
            printed++;
        }
    }
    fflush(stdout);
    _exit(0);
}
