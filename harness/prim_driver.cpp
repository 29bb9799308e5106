// Drives SRingBuffer, ConflictLockGuard, SSynchronizedQueue, SQLitePool and the socket pools under the controlled scheduler
// and records what every thread saw.
#include <libstuff/libstuff.h>
#include <array>
#include <atomic>
#include <optional>
#include <set>
#include <malloc.h>
#include <arpa/inet.h>
#include <csignal>
#include "util.h"
#include "vatomic.h"
#define atomic vatomic
#define atomic_thread_fence vatomic_thread_fence
#include <libstuff/SRingBuffer.h>
#undef atomic
#undef atomic_thread_fence
#include <ConflictLockGuard.h>
#include <libstuff/SSynchronizedQueue.h>
#include <libstuff/SMultiHostSocketPool.h>
#include <sqlitecluster/SQLite.h>
#include <sqlitecluster/SQLitePool.h>

using sched::point;
typedef unique_ptr<sched::Chooser> ChooserP;
static set<string> seen;
static long distinctHist = 0, runs = 0;

struct Hist {
    vector<Rec> evs;
    void flush()
    {
        string all;
        for (auto& r : evs) {
            all += r.s;
        }
        runs++;
        if (seen.insert(all).second) {
            distinctHist++;
            for (auto& r : evs) {
                r.emit();
            }
        }
        evs.clear();
    }
};
static uint64_t rngState = 1;
static uint64_t rnd()
{
    rngState ^= rngState << 13;
    rngState ^= rngState >> 7;
    rngState ^= rngState << 17;
    return rngState >> 9;
}
// Runs `one` under many schedules until enough distinct histories were seen.
static void explore(const string& how, long param, long n, uint64_t seed, const function<bool(sched::Chooser&)>& one)
{
    if (how == "dfs") {
        sched::DfsChooser d(param);
        long k = 0;
        while (k++ < n && one(d) && d.advance()) {
        }
    } else {
        for (long k = 0; k < n; k++) {
            static const int sticky[] = {0, 30, 60, 80, 90, 95};
            sched::RandomChooser c(seed * 1000003 + k + 1, sticky[k % 6]);
            if (!one(c)) {
                break;
            }
        }
    }
    fprintf(stderr, "%ld runs, %ld distinct histories\n", runs, distinctHist);
}

// ------------------------------------------------------------------------------------------------------- ring buffer
static bool torn = false;
struct Payload {
    int id = 0;
    int wt = -1, rt = -1;
    uint32_t wc = 0, rc = 0;
    bool ordered(int t, uint32_t c) const
    {
        return t < 0 || sched::self() < 0 || t == sched::self() || sched::clockOf()[t] >= c;
    }
    void wrote()
    {
        if (!ordered(wt, wc) || !ordered(rt, rc)) {
            torn = true;
        }
        wt = sched::self();
        wc = wt >= 0 ? sched::clockOf()[wt] : 0;
        rt = -1;
    }
    void read()
    {
        if (!ordered(wt, wc)) {
            torn = true;
        }
        rt = sched::self();
        rc = rt >= 0 ? sched::clockOf()[rt] : 0;
    }
    Payload() {}
    explicit Payload(int i) : id(i)
    {
        wrote();
    }
    Payload(Payload&& o)
    {
        o.read();
        point();
        id = o.id;
        wrote();
    }
    Payload(const Payload& o)
    {
        const_cast<Payload&>(o).read();
        point();
        id = o.id;
        wrote();
    }
    Payload& operator=(Payload&& o)
    {
        o.read();
        wrote();
        id = -7;
        point();
        id = o.id;
        o.id = -9;
        return *this;
    }
    Payload& operator=(const Payload& o)
    {
        const_cast<Payload&>(o).read();
        wrote();
        id = -7;
        point();
        id = o.id;
        return *this;
    }
};
template<size_t C> static bool ringOne(sched::Chooser& c, int producers, int per, bool waitMode)
{
    auto ring = make_unique<SRingBuffer<Payload, C>>();
    Hist h;
    h.evs.reserve(4 * (producers * per + 8) * 4);
    h.evs.push_back(Rec("begin").i("cap", C));
    int doneProducers = 0;
    int pops = 0;
    torn = false;
    bool closed = false;
    auto call = [&](const string& op, int th, const function<void(int&, bool&)>& f) {
        size_t at = h.evs.size();
        h.evs.push_back(Rec(""));
        int id = 0;
        bool ok = true;
        f(id, ok);
        h.evs[at] = Rec("inv").i("th", th).t("op", op).i("id", id).b("ok", ok);
        h.evs.push_back(Rec("res").i("th", th).b("torn", torn));
    };
    vector<function<void()>> bodies;
    for (int p = 0; p < producers; p++) {
        bodies.push_back([&, p]() {
            for (int k = 0; k < per; k++) {
                bool got = false;
                int tries = 0;
                while (!got && tries++ < 2) {
                    call("push", p, [&](int& id, bool& ok) {
                        id = (p + 1) * 10 + k;
                        Payload x(id);
                        got = ok = ring->push(move(x));
                    });
                }
            }
            if (++doneProducers == producers && waitMode) {
                call("shutdown", p, [&](int& id, bool& ok) {
                    id = -1;
                    ring->shutdown();
                });
            }
        });
    }
    bodies.push_back([&]() {
        int budget = producers * per + 6;
        while (!closed) {
            if (waitMode) {
                ring->wait();
            }
            call("pop", producers, [&](int& id, bool& ok) {
                auto [x, st] = ring->pop();
                pops++;
                if (st == State::Shutdown) {
                    id = -1;
                    closed = true;
                } else if (st == State::Ready && x) {
                    id = x->id;
                }
            });
            if (!waitMode && budget-- == 0) {
                closed = true;
            }
        }
    });
    auto r = sched::run(bodies, c);
    for (size_t i = 0; i < h.evs.size(); i++) {
        if (h.evs[i].s == Rec("").s) {
            h.evs.erase(h.evs.begin() + i--);
        }
    }
    h.evs.push_back(Rec("end").b("stuck", r != sched::DONE).i("res", r));
    h.flush();
    if (r != sched::DONE) {
        ring.release();
        return false;
    }
    return true;
}
static bool ringDispatch(sched::Chooser& c, int cap, int producers, int per, bool waitMode)
{
    switch (cap) {
        case 1: return ringOne<1>(c, producers, per, waitMode);
        case 2: return ringOne<2>(c, producers, per, waitMode);
        case 3: return ringOne<3>(c, producers, per, waitMode);
        default: return ringOne<5>(c, producers, per, waitMode);
    }
}
// ------------------------------------------------------------------------------------------------------ conflict locks
static bool clockOne(sched::Chooser& c, int threads, int rounds, int spread, bool gate, bool nested)
{
    Hist h;
    h.evs.reserve(10000);
    h.evs.push_back(Rec("begin"));
    vector<function<void()>> bodies;
    static const uint64_t big[] = {1, 0x8000000000000001ull, 0xffffffffffffffffull, 42, 1ull << 32, 7, 8, 9};
    vector<vector<int>> plan(threads);
    for (auto& p : plan) {
        for (int k = 0; k < rounds; k++) {
            p.push_back(rnd() % (spread + 1));
        }
    }
    int finished = 0;
    // fresh names in every run, so that each is created, used and retained anew; sometimes the old ones again
    static uint64_t runNo = 0;
    uint64_t salt = ++runNo % 5 ? runNo * 32 : 0;
    auto ident = [&](int k) {
        return k == 0 ? 0 : big[(k - 1) % 8] ^ ((salt + k) << 8);
    };
    for (int t = 0; t < threads; t++) {
        bodies.push_back([&, t]() {
            for (int k : plan[t]) {
                if (gate && t == 0) {
                    k = 1;
                }
                if (gate && t > 1 && k == 1) {
                    k = 2; // only thread 1 competes with the holder
                }
                if (gate && t == 1) {
                    k = 1;
                }
                h.evs.push_back(Rec("ask").i("th", t).i("id", k));
                {
                    ConflictLockGuard g(ident(k));
                    h.evs.push_back(Rec("got").i("th", t).i("id", k));
                    if (gate && t == 0) {
                        // holds its name until everybody who asked for other names is through
                        sched::block([&]() {
                            return finished >= threads - 2;
                        });
                    } else {
                        point();
                        point();
                    }
                    if (nested && k != 0 && t == 0) {
                        // many other names come and go while this one is held (and perhaps waited for)
                        sched::quiet = true;
                        uint64_t from = 1000000 + rnd() % 1000000 * 1000;
                        for (int x = 0; x < 520; x++) {
                            ConflictLockGuard other(from + x);
                        }
                        sched::quiet = false;
                        point();
                    }
                    h.evs.push_back(Rec("rel").i("th", t).i("id", k));
                }
                if (gate && t == 0) {
                    break;
                }
            }
            if (t > 1) {
                finished++;
            }
        });
    }
    auto r = sched::run(bodies, c, 200000);
    h.evs.push_back(Rec("end").b("stuck", r != sched::DONE).i("res", r));
    h.flush();
    return r == sched::DONE;
}
static void clockMem()
{
    Rec("begin").emit();
    // A thousand names to fill whatever is retained, then many more: the bookkeeping must not grow with them.
    auto touch = [](uint64_t from, uint64_t n) {
        for (uint64_t i = from; i < from + n; i++) {
            ConflictLockGuard a(i);
            ConflictLockGuard b(i + 5000000);
        }
    };
    touch(1, 2000);
    auto before = mallinfo2().uordblks;
    touch(100000, 4000);
    auto after = mallinfo2().uordblks;
    Rec("mem").b("grew", after > before + 700000).i("kb", (int64_t) (after - before) / 1024).emit();
    Rec("end").b("stuck", false).emit();
}
// --------------------------------------------------------------------------------------------------- synchronized queue
static bool syncqOne(sched::Chooser& c, int pushers, int per, bool extras)
{
    struct Item {
        int id;
    };
    auto q = new SSynchronizedQueue<Item>();
    Hist h;
    h.evs.reserve(10000);
    h.evs.push_back(Rec("begin"));
    bool asleep = false;
    auto call = [&](const string& op, int th, const function<int()>& f, const function<string()>& all = nullptr) {
        size_t at = h.evs.size();
        h.evs.push_back(Rec(""));
        int id = f();
        h.evs[at] = Rec("inv").i("th", th).t("op", op).i("id", id).raw("all", all ? all() : "[]");
        h.evs.push_back(Rec("res").i("th", th));
    };
    auto tryPop = [&](int th) {
        int id = 0;
        call("pop", th, [&]() {
            try {
                id = q->pop().id;
            } catch (const out_of_range& e) {
                id = 0;
            }
            return id;
        });
        return id;
    };
    vector<function<void()>> bodies;
    for (int p = 0; p < pushers; p++) {
        bodies.push_back([&, p]() {
            for (int k = 0; k < per; k++) {
                int id = (p + 1) * 10 + k;
                call("push", p, [&]() {
                    q->push(Item{id});
                    return id;
                });
            }
        });
    }
    if (extras) {
        uint64_t what[3] = {rnd() % 6, rnd() % 6, rnd() % 6};
        bodies.push_back([&, what]() {
            int th = pushers;
            for (auto w : what) {
                if (w == 0) {
                    call("size", th, [&]() {
                        return (int) q->size();
                    });
                } else if (w == 1) {
                    call("empty", th, [&]() {
                        return (int) q->empty();
                    });
                } else if (w == 2) {
                    string s;
                    call("each", th, [&]() {
                        q->each([&](Item& i) {
                            point();
                            s += (s.empty() ? "" : ",") + to_string(i.id);
                        });
                        return 0;
                    }, [&]() {
                        return "[" + s + "]";
                    });
                } else if (w == 3) {
                    call("clear", th, [&]() {
                        q->clear();
                        return 0;
                    });
                } else if (w == 4) {
                    // nobody else pops while this thread looks, so a reference to the front stays good only if the poller
                    // has not taken it: peek through each() instead
                    int id = 0;
                    call("front", th, [&]() {
                        bool first = true;
                        q->each([&](Item& i) {
                            if (first) {
                                id = i.id;
                            }
                            first = false;
                        });
                        return id;
                    });
                } else {
                    tryPop(th);
                }
            }
        });
    }
    int poller = bodies.size();
    bodies.push_back([&]() {
        while (true) {
            fd_map fdm;
            q->prePoll(fdm);
            asleep = true;
            S_poll(fdm, 1000000000);
            asleep = false;
            q->postPoll(fdm);
            while (tryPop(poller)) {
            }
        }
    });
    auto r = sched::run(bodies, c);
    auto& st = sched::stuckThreads();
    bool onlyPoller = r == sched::STUCK && st.size() == 1 && st[0] == poller;
    for (size_t i = 0; i < h.evs.size(); i++) {
        if (h.evs[i].s == Rec("").s) {
            h.evs.erase(h.evs.begin() + i--);
        }
    }
    h.evs.push_back(Rec("end").b("asleep", onlyPoller && asleep).b("stuck", !(onlyPoller && asleep)));
    h.flush();
    // the poller stays behind by design; its queue and pipe are abandoned
    return onlyPoller;
}
// ---------------------------------------------------------------------------------------------------------- SQLite pool
static bool poolOne(sched::Chooser& c, SQLitePool& pool, int max, int threads, int rounds, map<void*, int>& names)
{
    Hist h;
    h.evs.reserve(10000);
    h.evs.push_back(Rec("begin").i("max", max));
    vector<function<void()>> bodies;
    auto name = [&](void* p) {
        auto it = names.find(p);
        if (it == names.end()) {
            it = names.emplace(p, names.size() + 1).first;
        }
        return it->second;
    };
    for (int t = 0; t < threads; t++) {
        uint64_t style = rnd();
        bodies.push_back([&, t, style]() {
            for (int k = 0; k < rounds; k++) {
                h.evs.push_back(Rec("ask").i("th", t));
                size_t idx = pool.getIndex((style >> k) & 1);
                h.evs.push_back(Rec("got").i("th", t).i("h", idx));
                point();
                SQLiteScopedHandle handle(pool, idx);
                SQLite* db = &handle.db();
                h.evs.push_back(Rec("db").i("th", t).i("h", idx).i("p", name(db)).b("base", db == &pool.getBase()));
                point();
                bool sameDB = &handle.db() == db;
                h.evs.push_back(Rec("ret").i("th", t).i("h", idx).b("same", sameDB));
                if ((style >> (k + 8)) & 1) {
                    handle.release();
                    handle.release();
                }
            }
        });
    }
    auto r = sched::run(bodies, c);
    h.evs.push_back(Rec("end").b("stuck", r != sched::DONE));
    h.flush();
    return r == sched::DONE;
}
// -------------------------------------------------------------------------------------------------------- socket pools
static int listenOn(string& host)
{
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::bind(s, (sockaddr*) &a, sizeof(a)) || listen(s, 100)) {
        _exit(3);
    }
    socklen_t l = sizeof(a);
    getsockname(s, (sockaddr*) &a, &l);
    host = "127.0.0.1:" + to_string(ntohs(a.sin_port));
    return s;
}
static bool sockOne(sched::Chooser& c, int threads, int rounds)
{
    Hist h;
    h.evs.reserve(10000);
    sched::vsteady = 1000000000000;
    const int64_t t0 = sched::vsteady;
    auto now = [&]() {
        return (int) ((sched::vsteady - t0) / 1000000);
    };
    h.evs.push_back(Rec("begin").i("now", 0));
    string hosts[2];
    int listeners[2] = {listenOn(hosts[0]), listenOn(hosts[1])};
    map<int, int> server;     // connection id -> accepted fd
    map<int, int> portToId;
    int next = 0;
    auto openSet = [&]() {
        vector<int> open;
        for (auto& p : server) {
            char b;
            ssize_t n = ::recv(p.second, &b, 1, MSG_PEEK | MSG_DONTWAIT);
            if (n < 0 && errno == EAGAIN) {
                open.push_back(p.first);
            }
        }
        return open;
    };
    vector<int> peerClosed;
    bool finishedAll = false;
    auto pool = make_unique<SMultiHostSocketPool>();
    int running = threads;
    vector<function<void()>> bodies;
    for (int t = 0; t < threads; t++) {
        vector<uint64_t> plan;
        for (int k = 0; k < rounds * 4; k++) {
            plan.push_back(rnd());
        }
        bodies.push_back([&, t, plan]() {
            size_t pi = 0;
            vector<pair<int, unique_ptr<STCPManager::Socket>>> held; // (id, socket)
            map<int, int> hostOf;
            for (int k = 0; k < rounds; k++) {
                int act = plan[pi++] % 10;
                if (act < 4 || (held.empty() && act < 7)) {
                    int host = plan[pi++] % 4 ? 0 : 1;
                    h.evs.push_back(Rec("ask").i("th", t).i("host", host).i("now", now()));
                    auto s = pool->getSocket(hosts[host]);
                    if (!s) {
                        h.evs.push_back(Rec("got").i("th", t).i("id", -1).i("host", host).b("fresh", false));
                        continue;
                    }
                    sockaddr_in a{};
                    socklen_t l = sizeof(a);
                    getsockname(s->s, (sockaddr*) &a, &l);
                    int port = ntohs(a.sin_port);
                    // a connection the server has not seen yet is a new one
                    struct pollfd pf = {listeners[host], POLLIN, 0};
                    bool fresh = false;
                    int id = 0;
                    while (::poll(&pf, 1, 0) > 0) {
                        sockaddr_in peer{};
                        socklen_t pl = sizeof(peer);
                        int fd = accept(listeners[host], (sockaddr*) &peer, &pl);
                        int nid = ++next;
                        server[nid] = fd;
                        portToId[ntohs(peer.sin_port)] = nid;
                        if (ntohs(peer.sin_port) == port) {
                            fresh = true;
                        }
                    }
                    id = portToId.count(port) ? portToId[port] : 0;
                    // concurrent users may have accepted our connection for us
                    h.evs.push_back(Rec("got").i("th", t).i("id", id).i("host", host).i("now", now()));
                    hostOf[id] = host;
                    held.emplace_back(id, move(s));
                } else if (act < 7) {
                    size_t w = plan[pi++] % held.size();
                    int id = held[w].first;
                    h.evs.push_back(Rec("ret").i("th", t).i("id", id).i("now", now()));
                    pool->returnSocket(move(held[w].second), hosts[hostOf[id]]);
                    h.evs.push_back(Rec("returned").i("th", t).i("id", id).i("now", now()));
                    held.erase(held.begin() + w);
                } else if (act < 9) {
                    int64_t d = (int64_t) (1 + plan[pi++] % 7) * 1000000000 + 1000000 * (t + 1);
                    int64_t until = sched::vsteady + d;
                    std::mutex m;
                    condition_variable cv;
                    unique_lock<std::mutex> l(m);
                    cv.wait_until(l, chrono::steady_clock::time_point(chrono::nanoseconds(until)));
                    h.evs.push_back(Rec("time").i("now", now()).ints("open", openSet()));
                } else if (!server.empty()) {
                    // the server closes one of its connections
                    auto it = server.begin();
                    advance(it, plan[pi++] % server.size());
                    h.evs.push_back(Rec("peerclose").i("id", it->first));
                    ::close(it->second);
                    server.erase(it);
                    usleep(300);
                }
            }
            for (auto& p : held) {
                h.evs.push_back(Rec("drop").i("th", t).i("id", p.first));
            }
            held.clear();
            if (--running == 0) {
                std::mutex m;
                condition_variable cv;
                unique_lock<std::mutex> l(m);
                cv.wait_until(l, chrono::steady_clock::time_point(chrono::nanoseconds(sched::vsteady + 21000000000ll)));
                h.evs.push_back(Rec("time").i("now", now()).ints("open", openSet()));
                pool.reset();
                finishedAll = true;
            }
        });
    }
    sched::adopt = true;
    sched::timeoutsFire = true;
    auto r = sched::run(bodies, c, 50000);
    sched::adopt = false;
    sched::timeoutsFire = false;
    h.evs.push_back(Rec("end").b("stuck", r != sched::DONE).i("res", r));
    h.flush();
    for (auto& p : server) {
        ::close(p.second);
    }
    ::close(listeners[0]);
    ::close(listeners[1]);
    if (r != sched::DONE) {
        pool.release();
        return false;
    }
    return true;
}

int main(int argc, char** argv)
{
    SInitialize("main", "prim");
    SLogLevel(LOG_ERR);
    signal(SIGPIPE, SIG_IGN);
    string mode = argv[1];
    rngState = (uint64_t) atol(argv[2]) * 7919 + 12345;
    uint64_t seed = atol(argv[2]);
    string line;
    // each line: <how> <param> <n> <args...>
    while (getline(cin, line)) {
        auto w = words(line);
        if (w.empty()) {
            continue;
        }
        auto n = [&](size_t i) {
            return i < w.size() ? atol(w[i].c_str()) : 0;
        };
        if (w[0] == "mem") {
            clockMem();
            continue;
        }
        string how = w[0];
        long param = n(1), cnt = n(2);
        seed += 17;
        if (mode == "ring") {
            explore(how, param, cnt, seed, [&](sched::Chooser& c) {
                return ringDispatch(c, n(3), n(4), n(5), n(6));
            });
        } else if (mode == "clock") {
            explore(how, param, cnt, seed, [&](sched::Chooser& c) {
                if (how == "dfs") {
                    rngState = seed; // the programs must not change between enumerated schedules
                }
                return clockOne(c, n(3), n(4), n(5), n(6), n(7));
            });
        } else if (mode == "syncq") {
            explore(how, param, cnt, seed, [&](sched::Chooser& c) {
                if (how == "dfs") {
                    rngState = seed;
                }
                return syncqOne(c, n(3), n(4), n(5));
            });
        } else if (mode == "pool") {
            string file = "pool.db";
            auto pool = make_unique<SQLitePool>(n(3), file, 1000, 100, -1);
            map<void*, int> names;
            explore(how, param, cnt, seed, [&](sched::Chooser& c) {
                bool ok = poolOne(c, *pool, n(3), n(4), n(5), names);
                if (!ok) {
                    pool.release();
                    pool = nullptr;
                }
                return ok;
            });
        } else if (mode == "sock") {
            explore(how, param, cnt, seed, [&](sched::Chooser& c) {
                return sockOne(c, n(3), n(4));
            });
        }
    }
    fflush(stdout);
    _exit(0);
}
