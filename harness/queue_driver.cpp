// Drives the real BedrockCommandQueue / BedrockBlockingCommandQueue with a virtual clock.
#include <libstuff/libstuff.h>
#include <BedrockCommand.h>
#include <BedrockCommandQueue.h>
#include <BedrockBlockingCommandQueue.h>
#include <thread>
#include <map>
#include "util.h"
#include "vtime.h"

static const uint64_t BASE = 1'700'000'000'000'000ull;

static unique_ptr<BedrockCommand> makeCommand(int id, long long tmoUnits, long long unit, const string& ident = "", const string& name = "")
{
    SData r(name.empty() ? "cmd" + to_string(id) : name);
    // The timeout is given relative to the execution time, in milliseconds.
    r["commandExecuteTime"] = to_string(BASE);
    r["timeout"] = to_string(tmoUnits * unit / 1000);
    r["id"] = to_string(id);
    auto c = make_unique<BedrockCommand>(SQLiteCommand(move(r)), nullptr);
    c->blockingQueueRateLimitIdentifier = ident;
    return c;
}

static int idOf(const unique_ptr<BedrockCommand>& c)
{
    return c ? atoi(c->request["id"].c_str()) : 0;
}

template<class Q> static void project(Rec& r, Q& q)
{
    vector<int> ids;
    for (auto& m : q.getRequestMethodLines()) {
        ids.push_back(atoi(m.c_str() + 3));
    }
    r.ints("ids", ids).i("size", (q.empty() ? 0 : q.size()));
}

// Sequential base queue; the unit of time is 1 ms.
static void sequential()
{
    unique_ptr<BedrockCommandQueue> q;
    long long now = 0;
    string line;
    while (getline(cin, line)) {
        auto w = words(line);
        if (w.empty()) {
            continue;
        }
        if (w[0] == "new") {
            q = make_unique<BedrockCommandQueue>();
            now = stoll(w[1]);
            g_vnow = BASE + now * 1000;
            Rec("begin").i("now", now).emit();
        } else if (w[0] == "advance") {
            now += stoll(w[1]);
            g_vnow = BASE + now * 1000;
            Rec("advance").i("now", now).emit();
        } else if (w[0] == "push") {
            int id = stoi(w[1]);
            long long sched = stoll(w[2]), tmo = stoll(w[3]);
            auto c = makeCommand(id, tmo, 1000);
            if ((long long) c->timeout() != (long long) BASE + tmo * 1000) {
                cerr << "timeout not as constructed" << endl;
                exit(3);
            }
            q->push(move(c), BASE + sched * 1000);
            Rec r("push");
            r.i("id", id).i("sched", sched).i("tmo", tmo);
            project(r, *q);
            r.emit();
        } else if (w[0] == "get") {
            int id = 0;
            try {
                auto c = q->get(1);
                id = idOf(c);
            } catch (const BedrockCommandQueue::timeout_error& e) {
            }
            Rec r("get");
            r.i("id", id);
            project(r, *q);
            r.emit();
        } else if (w[0] == "clear") {
            q->clear();
            Rec r("clear");
            project(r, *q);
            r.emit();
        } else if (w[0] == "getall") {
            vector<int> all;
            for (auto& c : q->getAll()) {
                all.push_back(idOf(c));
            }
            Rec r("getall");
            r.ints("all", all);
            project(r, *q);
            r.emit();
        } else if (w[0] == "abandon") {
            q->abandonFutureCommands(stoi(w[1]));
            Rec r("abandon");
            r.i("us", stoll(w[1]));
            project(r, *q);
            r.emit();
        }
    }
}

// Concurrent use of the base queue. Each thread records invocation and result of its calls; a global ticket orders them.
static void concurrent(int histories, unsigned seed, int producers, int consumers, int perProducer)
{
    for (int h = 0; h < histories; h++) {
        srand(seed * 1000 + h);
        BedrockCommandQueue q;
        g_vnow = BASE + 5000;
        Rec("begin").i("now", 5).i("threads", producers + consumers).emit();
        struct Op { uint64_t inv, res; int th; string op; int id; long long sched, tmo; };
        atomic<uint64_t> ticket{0};
        vector<vector<Op>> logs(producers + consumers);
        const int total = producers * perProducer;
        atomic<int> go{0};
        vector<thread> ts;
        vector<vector<pair<long long, long long>>> plan(producers);
        for (int p = 0; p < producers; p++) {
            for (int k = 0; k < perProducer; k++) {
                plan[p].push_back({rand() % 4 + 1, 3 + rand() % 5});
            }
        }
        vector<int> share(consumers, total / consumers);
        share[0] += total % consumers;
        const int style = rand() % 3;
        for (int c = 0; c < consumers; c++) {
            ts.emplace_back([&, c] () {
                while (!go) {
                }
                for (int k = 0; k < share[c]; k++) {
                    Op o{ticket++, 0, producers + c, "get", 0, 0, 0};
                    auto cmd = q.get(0); // waits until there is one: a lost wake-up would hang here
                    o.id = idOf(cmd);
                    o.res = ticket++;
                    logs[producers + c].push_back(o);
                }
            });
        }
        for (int p = 0; p < producers; p++) {
            ts.emplace_back([&, p] () {
                while (!go) {
                }
                for (int k = 0; k < perProducer; k++) {
                    if (style == 1) {
                        this_thread::sleep_for(chrono::microseconds(300)); // let the consumers wait
                    } else if (style == 2 && k == 0) {
                        this_thread::sleep_for(chrono::milliseconds(5));
                    }
                    int id = p * 100 + k + 1;
                    auto cmd = makeCommand(id, plan[p][k].second, 1000);
                    Op o{ticket++, 0, p, "push", id, plan[p][k].first, plan[p][k].second};
                    q.push(move(cmd), BASE + plan[p][k].first * 1000);
                    o.res = ticket++;
                    logs[p].push_back(o);
                }
            });
        }
        go = 1;
        for (auto& t : ts) {
            t.join();
        }
        map<uint64_t, string> ordered;
        for (auto& lg : logs) {
            for (auto& o : lg) {
                Rec a("inv");
                a.i("th", o.th + 1).t("op", o.op).i("id", o.id).i("sched", o.sched).i("tmo", o.tmo);
                ordered[o.inv] = a.s + "}";
                Rec b("res");
                b.i("th", o.th + 1);
                ordered[o.res] = b.s + "}";
            }
        }
        for (auto& p : ordered) {
            string s = p.second + "\n";
            fwrite(s.data(), 1, s.size(), stdout);
        }
        fflush(stdout);
        Rec e("end");
        e.i("size", q.size()).emit();
    }
}

// Rate-limited queue; the unit of time is 1 us.
static void rateLimit()
{
    unique_ptr<BedrockBlockingCommandQueue> q;
    string line;
    while (getline(cin, line)) {
        auto w = words(line);
        if (w.empty()) {
            continue;
        }
        auto str = [&](size_t i) {
            return w[i] == "-" ? string() : w[i];
        };
        if (w[0] == "new") {
            q = make_unique<BedrockBlockingCommandQueue>();
            g_vnow = BASE + stoll(w[1]);
            q->setWindow(stoll(w[2]));
            q->setIdentifierThreshold(stoll(w[3]));
            q->setCommandThreshold(stoll(w[4]));
            q->setBlockDuration(stoll(w[5]));
            Rec("begin").i("now", stoll(w[1])).i("win", stoll(w[2])).i("idt", stoll(w[3])).i("cmt", stoll(w[4])).i("dur", stoll(w[5])).emit();
        } else if (w[0] == "advance") {
            g_vnow += stoll(w[1]);
            Rec("advance").i("now", g_vnow - BASE).emit();
        } else if (w[0] == "set") {
            uint64_t v = stoll(w[2]), prev = 0;
            if (w[1] == "win") {
                prev = q->setWindow(v);
            } else if (w[1] == "idt") {
                prev = q->setIdentifierThreshold(v);
            } else if (w[1] == "cmt") {
                prev = q->setCommandThreshold(v);
            } else if (w[1] == "dur") {
                prev = q->setBlockDuration(v);
            }
            Rec("set").t("what", w[1]).i("val", v).i("prev", prev).emit();
        } else if (w[0] == "record") {
            q->recordExecutionTime(str(1), str(2), stoll(w[3]));
            Rec("record").t("ident", str(1)).t("cmd", str(2)).i("us", stoll(w[3])).emit();
        } else if (w[0] == "blocked") {
            bool b = q->isBlocked(str(1), str(2));
            Rec("blocked").t("ident", str(1)).t("cmd", str(2)).b("ret", b).emit();
        } else if (w[0] == "push") {
            int id = stoi(w[1]);
            auto c = makeCommand(id, 3'600'000, 1000, str(2), str(3));
            bool ok = true;
            string err;
            try {
                q->push(move(c));
            } catch (const SException& e) {
                ok = false;
                err = e.what();
            }
            Rec("push").i("id", id).t("ident", str(2)).t("cmd", str(3)).b("ok", ok).t("err", err.substr(0, 3)).i("size", q->size()).emit();
        } else if (w[0] == "get") {
            int id = 0;
            bool complete = false;
            string resp;
            try {
                auto c = q->get(1);
                id = idOf(c);
                complete = c->complete;
                resp = c->response.methodLine;
            } catch (const BedrockCommandQueue::timeout_error& e) {
            }
            Rec("get").i("id", id).b("refused", complete).t("resp", resp.substr(0, 3)).i("size", q->size()).emit();
        } else if (w[0] == "clearlimits") {
            size_t n = q->clearRateLimits();
            Rec("clearlimits").i("n", n).i("size", q->size()).emit();
        } else if (w[0] == "clear") {
            q->clear();
            Rec("clear").i("size", q->size()).emit();
        } else if (w[0] == "state") {
            STable s = q->getState();
            auto names = [](const string& v) {
                list<string> l = SParseList(v);
                return vector<string>(l.begin(), l.end());
            };
            auto a = names(s["blockingBlockedIdentifiers"]), b = names(s["blockingBlockedCommands"]);
            sort(a.begin(), a.end());
            sort(b.begin(), b.end());
            Rec("state").strs("idents", a).strs("cmds", b)
                .i("winMS", stoll(s["blockingTimeWindowMS"])).i("idtMS", stoll(s["blockingIdentifierThresholdMS"]))
                .i("cmtMS", stoll(s["blockingCommandThresholdMS"])).i("durMS", stoll(s["blockingBlockDurationMS"])).emit();
        }
    }
}

int main(int argc, char** argv)
{
    string mode = argc > 1 ? argv[1] : "";
    SSyslogFunc = &SSyslogNoop;
    SLogLevel(LOG_ERR);
    if (mode == "seq") {
        sequential();
    } else if (mode == "conc") {
        concurrent(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]), atoi(argv[5]), atoi(argv[6]));
    } else if (mode == "rate") {
        rateLimit();
    } else {
        return 3;
    }
    return 0;
}
