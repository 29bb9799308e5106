// Byte streams through SData/SFastBuffer in arbitrary chunks, composing and parsing back, and sockets with partial transfers.
#include <libstuff/libstuff.h>
#include <libstuff/SData.h>
#include <libstuff/SFastBuffer.h>
#include <libstuff/STCPManager.h>
#include <csignal>
#include <fcntl.h>
#include <sys/socket.h>
#include "util.h"

static uint64_t rs = 1;
static uint64_t rnd()
{
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return rs >> 9;
}
// ---- faults on send/recvfrom
static bool faults = false;
extern "C" {
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
ssize_t __wrap_send(int s, const void* b, size_t n, int f)
{
    if (faults) {
        int r = rnd() % 10;
        if (r == 0) {
            errno = EAGAIN;
            return -1;
        }
        if (r == 1) {
            errno = EINTR;
            return -1;
        }
        if (r < 7) {
            n = min<size_t>(n, 1 + rnd() % 7);
        }
    }
    return __real_send(s, b, n, f);
}
ssize_t __wrap_recvfrom(int s, void* b, size_t n, int f, struct sockaddr* a, socklen_t* l)
{
    if (faults) {
        int r = rnd() % 10;
        if (r == 0) {
            errno = EAGAIN;
            return -1;
        }
        if (r < 6) {
            n = min<size_t>(n, 1 + rnd() % 5);
        }
    }
    return __real_recvfrom(s, b, n, f, a, l);
}
}
static string unhex(const string& h)
{
    string o;
    for (size_t i = 0; i + 1 < h.size(); i += 2) {
        o += (char) strtol(h.substr(i, 2).c_str(), 0, 16);
    }
    return o;
}
static string bytes(const string& s)
{
    string o = "[";
    for (unsigned char c : s) {
        o += (o.size() > 1 ? "," : "") + to_string((int) c);
    }
    return o + "]";
}
static string table(const STable& t)
{
    string o = "[";
    for (auto& p : t) {
        o += string(o.size() > 1 ? "," : "") + "{\"n\":" + bytes(p.first) + ",\"v\":" + bytes(p.second) + "}";
    }
    return o + "]";
}
int main(int argc, char** argv)
{
    SInitialize("main", "frame");
    SLogLevel(LOG_ERR);
    signal(SIGPIPE, SIG_IGN);
    rs = atol(argv[1]) * 7919 + 3;
    string line;
    SFastBuffer buf;
    bool guard = false; // read like the server (startsWithHTTPRequest first) or like a peer (deserialize at once)
    while (getline(cin, line)) {
        auto w = words(line);
        if (w.empty()) {
            continue;
        }
        if (w[0] == "begin") {
            buf.clear();
            guard = w[1] == "server";
            Rec("begin").b("guard", guard).emit();
        } else if (w[0] == "chunk") {
            string s = unhex(w[1]);
            buf.append(s.data(), s.size());
            Rec("chunk").raw("b", bytes(s)).emit();
            while (true) {
                SData d;
                int n = 0;
                bool may = !guard || buf.startsWithHTTPRequest();
                size_t before = buf.size();
                if (may) {
                    n = d.deserialize(buf);
                }
                Rec("parse").b("may", may).i("n", n).raw("m", bytes(d.methodLine)).raw("h", table(d.nameValueMap)).raw("c", bytes(d.content)).emit();
                if (!n) {
                    break;
                }
                buf.consumeFront(n);
                if (buf.size() + n != before) {
                    Rec("bad").emit();
                }
            }
        } else if (w[0] == "round") {
            // round <method hex> <n> <name hex> <value hex> ... <content hex>: compose, then parse back
            SData d;
            d.methodLine = unhex(w[1]);
            size_t i = 3;
            for (int k = 0; k < atoi(w[2].c_str()); k++, i += 2) {
                d[unhex(w[i])] = w[i + 1] == "-" ? "" : unhex(w[i + 1]);
            }
            d.content = w[i] == "-" ? "" : unhex(w[i]);
            string s = d.serialize();
            SData e;
            int n = e.deserialize(s);
            Rec("round").i("n", n).i("len", s.size()).raw("m", bytes(d.methodLine)).raw("h", table(d.nameValueMap)).raw("c", bytes(d.content))
                .raw("m2", bytes(e.methodLine)).raw("h2", table(e.nameValueMap)).raw("c2", bytes(e.content)).emit();
        } else if (w[0] == "stream") {
            // stream <n>: n random sends over a socket pair with partial transfers; the receiver must see the same bytes in order
            int n = atoi(w[1].c_str());
            int sv[2];
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) {
                return 3;
            }
            for (int k : {0, 1}) {
                fcntl(sv[k], F_SETFL, O_NONBLOCK);
                int sz = 2048;
                setsockopt(sv[k], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
            }
            STCPManager::Socket a(sv[0], STCPManager::Socket::CONNECTED), b(sv[1], STCPManager::Socket::CONNECTED);
            Rec("begin").b("guard", false).emit();
            faults = true;
            uint32_t sent = 0;
            string got;
            size_t seen = 0;
            auto receive = [&](bool polled) {
                bool alive;
                if (polled) {
                    fd_map fdm;
                    STCPManager::prePoll(fdm, b);
                    faults = false;
                    S_poll(fdm, 0);
                    faults = true;
                    STCPManager::postPoll(fdm, b);
                    alive = b.state != STCPManager::Socket::CLOSED;
                } else {
                    alive = b.recv();
                }
                size_t nb = b.recvBuffer.size();
                size_t take = nb ? rnd() % (nb + 1) : 0;
                string s(b.recvBuffer.c_str(), take);
                b.recvBuffer.consumeFront(take);
                Rec("got").raw("b", bytes(s)).b("alive", alive).emit();
            };
            for (int k = 0; k < n; k++) {
                int act = rnd() % 10;
                if (act < 5) {
                    size_t len = rnd() % 4 ? rnd() % 20 : rnd() % 400;
                    string s;
                    for (size_t i = 0; i < len; i++) {
                        s += (char) (sent++ % 251);
                    }
                    size_t sc = 0;
                    bool alive = a.send(s, &sc);
                    Rec("sent").raw("b", bytes(s)).b("alive", alive).i("left", a.sendBufferCopy().size()).b("empty", a.sendBufferEmpty()).emit();
                } else if (act < 8) {
                    receive(rnd() % 2);
                } else {
                    fd_map fdm;
                    STCPManager::prePoll(fdm, a);
                    faults = false;
                    S_poll(fdm, 0);
                    faults = true;
                    STCPManager::postPoll(fdm, a);
                    Rec("sent").raw("b", "[]").b("alive", a.state != STCPManager::Socket::CLOSED).i("left", a.sendBufferCopy().size()).b("empty", a.sendBufferEmpty()).emit();
                }
            }
            // everything still buffered goes out and arrives
            faults = false;
            for (int k = 0; k < 3000 && (!a.sendBufferEmpty() || k < 3); k++) {
                a.send();
                receive(false);
            }
            b.recv();
            string s(b.recvBuffer.c_str(), b.recvBuffer.size());
            Rec("got").raw("b", bytes(s)).b("alive", true).emit();
            Rec("drained").i("left", a.sendBufferCopy().size()).emit();
            a.shutdown(STCPManager::Socket::CLOSED);
        }
    }
    fflush(stdout);
    _exit(0);
}
