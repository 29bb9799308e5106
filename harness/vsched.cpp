#include "vsched.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <thread>
#include <time.h>
#include <unistd.h>

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_poll(struct pollfd*, nfds_t, int);
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*, std::unique_lock<std::mutex>&);
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*);
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*);
}
namespace sched {
bool quiet = false;
bool adopt = false;
bool timeoutsFire = false;
int64_t vsteady = 0;
static thread_local int tid = -1;
struct Th {
    sem_t go;
    bool finished = false, started = false;
    std::function<bool()> ready; // empty: runnable
    int64_t deadline = 0;        // > 0: a timed wait
    bool timedOut = false;
    VC vc;
};
static std::vector<Th*> ths;
static Chooser* chooser;
static sem_t mainGo;
static long steps, maxSteps_;
static Result result;
static std::vector<int> stuck;
static int current = -1;
static bool ending = false;
static int cvSeq = 0;
struct CvWaiter {
    const void* cv;
    int t;
    bool notified;
};
static std::vector<CvWaiter*> cvWaiters;

int RandomChooser::pick(const std::vector<int>& r, int cur)
{
    if (cur >= 0 && (int) (next() % 100) < sticky) {
        return cur;
    }
    return next() % r.size();
}
int DfsChooser::pick(const std::vector<int>& r, int cur)
{
    int n = r.size();
    bool mustStay = cur >= 0 && used >= bound;
    if (n == 1 || mustStay) {
        return n == 1 ? 0 : cur;
    }
    // alternatives are ordered with the current thread first, so choice 0 is "no preemption"
    int c;
    if (pos < path.size()) {
        c = std::min(path[pos].first, n - 1); // state kept between schedules may change the alternatives
    } else {
        path.push_back({0, n});
        c = 0;
    }
    pos++;
    if (cur < 0) {
        return c % n;
    }
    if (c == 0) {
        return cur;
    }
    used++;
    return c <= cur ? c - 1 : c;
}
bool DfsChooser::advance()
{
    while (!path.empty() && path.back().first + 1 >= path.back().second) {
        path.pop_back();
    }
    if (path.empty()) {
        return false;
    }
    path.back().first++;
    pos = 0;
    used = 0;
    return true;
}
bool controlled()
{
    return tid >= 0;
}
int self()
{
    return tid;
}
std::vector<int>& stuckThreads()
{
    return stuck;
}
VC& clockOf()
{
    static thread_local VC none(64, 0);
    return tid >= 0 ? ths[tid]->vc : none;
}
// Chooses and wakes the next thread. Called by the thread holding the baton. Returns true if the caller goes on itself.
static bool dispatch(int me)
{
    std::vector<int> r;
    int cur = -1;
    while (true) {
        r.clear();
        for (size_t i = 0; i < ths.size(); i++) {
            Th* t = ths[i];
            if (!t->finished && (!t->ready || t->ready())) {
                if ((int) i == me) {
                    cur = r.size();
                }
                r.push_back(i);
            }
        }
        if (!r.empty()) {
            break;
        }
        // Nothing can run: let the earliest timed wait time out, if that is allowed.
        Th* best = nullptr;
        if (timeoutsFire) {
            for (auto t : ths) {
                if (!t->finished && t->deadline > 0 && !t->timedOut && (!best || t->deadline < best->deadline)) {
                    best = t;
                }
            }
        }
        if (!best) {
            break;
        }
        if (vsteady > 0 && best->deadline >= vsteady) {
            vsteady = best->deadline + 1;
        }
        best->timedOut = true;
    }
    bool all = true;
    for (auto t : ths) {
        all = all && t->finished;
    }
    if (r.empty() || ++steps > maxSteps_) {
        result = all ? DONE : r.empty() ? STUCK : LIMIT;
        stuck.clear();
        for (size_t i = 0; i < ths.size(); i++) {
            if (!ths[i]->finished) {
                stuck.push_back(i);
            }
        }
        ending = true;
        sem_post(&mainGo);
        return false;
    }
    int n = r[chooser->pick(r, cur)];
    current = n;
    if (n == me) {
        return true;
    }
    sem_post(&ths[n]->go);
    return false;
}
static void waitTurn(Th* t)
{
    while (sem_wait(&t->go) && errno == EINTR) {
    }
    if (ending) {
        // abandoned: this thread never runs again
        while (true) {
            ::pause();
        }
    }
}
void point()
{
    if (tid < 0 || quiet) {
        return;
    }
    Th* t = ths[tid];
    if (!dispatch(tid)) {
        waitTurn(t);
    }
}
void block(const std::function<bool()>& ready)
{
    if (tid < 0) {
        while (!ready()) {
            usleep(100);
        }
        return;
    }
    Th* t = ths[tid];
    bool q = quiet;
    quiet = false;
    t->ready = ready;
    if (!dispatch(tid)) {
        waitTurn(t);
    }
    t->ready = nullptr;
    quiet = q;
}
// A wait with a deadline (virtual ns): false if it timed out.
static bool blockUntil(const std::function<bool()>& ready, int64_t deadline)
{
    Th* t = ths[tid];
    t->deadline = deadline;
    t->timedOut = false;
    block([&]() {
        return t->timedOut || ready();
    });
    bool to = t->timedOut;
    t->deadline = 0;
    t->timedOut = false;
    return !to || ready();
}
Result run(const std::vector<std::function<void()>>& bodies, Chooser& c, long maxSteps)
{
    for (auto t : ths) {
        (void) t; // earlier abandoned threads keep theirs
    }
    ths.clear();
    cvWaiters.clear();
    chooser = &c;
    steps = 0;
    maxSteps_ = maxSteps;
    ending = false;
    sem_init(&mainGo, 0, 0);
    std::vector<std::thread> real;
    for (size_t i = 0; i < bodies.size(); i++) {
        Th* t = new Th;
        sem_init(&t->go, 0, 0);
        t->vc.assign(64, 0);
        t->vc[i] = 1;
        ths.push_back(t);
    }
    for (size_t i = 0; i < bodies.size(); i++) {
        real.emplace_back([i, &bodies]() {
            Th* t = ths[i];
            tid = i;
            waitTurn(t);
            bodies[i]();
            t->finished = true;
            dispatch(i);
            tid = -1;
        });
    }
    dispatch(-1);
    while (sem_wait(&mainGo) && errno == EINTR) {
    }
    bool allDone = result == DONE;
    for (size_t i = 0; i < real.size(); i++) {
        if (allDone || ths[i]->finished) {
            real[i].join();
        } else {
            real[i].detach();
        }
    }
    if (allDone) {
        for (auto t : ths) {
            delete t;
        }
        ths.clear();
    }
    return result;
}
}
using namespace sched;
static inline bool mutexFree(pthread_mutex_t* m)
{
    return m->__data.__lock == 0;
}
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!controlled()) {
        return __real_pthread_mutex_lock(m);
    }
    point();
    while (true) {
        int rc = __real_pthread_mutex_trylock(m);
        if (rc != EBUSY) {
            return rc;
        }
        block([m]() {
            return mutexFree(m);
        });
    }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (controlled()) {
        point();
    }
    return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int rc = __real_pthread_mutex_unlock(m);
    if (controlled()) {
        point();
    }
    return rc;
}
static bool cvWait(const void* cv, pthread_mutex_t* m, int64_t deadline)
{
    CvWaiter* w = new CvWaiter{cv, self(), false};
    cvWaiters.push_back(w);
    __real_pthread_mutex_unlock(m);
    bool ok = true;
    if (deadline) {
        ok = blockUntil([w]() {
            return w->notified;
        }, deadline);
    } else {
        block([w]() {
            return w->notified;
        });
    }
    cvWaiters.erase(std::remove(cvWaiters.begin(), cvWaiters.end(), w), cvWaiters.end());
    delete w;
    while (__real_pthread_mutex_trylock(m) == EBUSY) {
        block([m]() {
            return mutexFree(m);
        });
    }
    return ok;
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* cv, std::unique_lock<std::mutex>& l)
{
    if (!controlled()) {
        return __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, l);
    }
    cvWait(cv->native_handle(), l.mutex()->native_handle(), 0);
}
static int64_t ns(const struct timespec* t)
{
    return (int64_t) t->tv_sec * 1000000000 + t->tv_nsec;
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t c, const struct timespec* t)
{
    if (!controlled()) {
        return __real_pthread_cond_clockwait(cv, m, c, t);
    }
    return cvWait(cv, m, std::max<int64_t>(1, ns(t))) ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* t)
{
    if (!controlled()) {
        return __real_pthread_cond_timedwait(cv, m, t);
    }
    return cvWait(cv, m, std::max<int64_t>(1, ns(t))) ? 0 : ETIMEDOUT;
}
static void cvNotify(const void* cv, bool all)
{
    for (auto w : cvWaiters) {
        if (w->cv == cv && !w->notified) {
            w->notified = true;
            if (!all) {
                break;
            }
        }
    }
    point();
}
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* cv)
{
    if (!controlled()) {
        return __real__ZNSt18condition_variable10notify_oneEv(cv);
    }
    cvNotify(cv->native_handle(), false);
}
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* cv)
{
    if (!controlled()) {
        return __real__ZNSt18condition_variable10notify_allEv(cv);
    }
    cvNotify(cv->native_handle(), true);
}
int __wrap_poll(struct pollfd* p, nfds_t n, int timeout)
{
    if (!controlled() || timeout == 0) {
        return __real_poll(p, n, timeout);
    }
    auto ready = [p, n]() {
        return __real_poll(p, n, 0) != 0;
    };
    point();
    if (timeout < 0) {
        block(ready);
    } else {
        blockUntil(ready, vsteady + (int64_t) timeout * 1000000 + 1);
    }
    return __real_poll(p, n, 0);
}
void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread*, std::unique_ptr<std::thread::_State>, void (*)());
struct AdoptState : std::thread::_State {
    std::unique_ptr<std::thread::_State> inner;
    int id;
    AdoptState(std::unique_ptr<std::thread::_State> s, int id) : inner(std::move(s)), id(id) {}
    void _M_run() override
    {
        Th* t = ths[id];
        tid = id;
        waitTurn(t);
        inner->_M_run();
        t->finished = true;
        dispatch(id);
        tid = -1;
    }
};
static std::map<pthread_t, int> adopted;
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* th, std::unique_ptr<std::thread::_State> s, void (*f)())
{
    if (!controlled() || !adopt) {
        return __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(th, std::move(s), f);
    }
    int id = ths.size();
    Th* t = new Th;
    sem_init(&t->go, 0, 0);
    t->vc = ths[tid]->vc;
    t->vc[id % 64] = 1;
    ths.push_back(t);
    __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(th, std::unique_ptr<std::thread::_State>(new AdoptState(std::move(s), id)), f);
    adopted[th->native_handle()] = id;
    point();
}
void __real__ZNSt6thread4joinEv(std::thread*);
void __wrap__ZNSt6thread4joinEv(std::thread* th)
{
    if (controlled() && adopted.count(th->native_handle())) {
        Th* t = ths[adopted[th->native_handle()]];
        adopted.erase(th->native_handle());
        block([t]() {
            return t->finished;
        });
    }
    __real__ZNSt6thread4joinEv(th);
}
std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{
    if (vsteady > 0) {
        return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(vsteady));
    }
    return __real__ZNSt6chrono3_V212steady_clock3nowEv();
}
}
