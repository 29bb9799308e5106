// std::atomic look-alike under the controlled scheduler (include after the standard headers, then the code under test).
// Sequentially consistent values, but happens-before follows the memory orders used, so that Payload can tell when an
// element is read without being ordered after its write.
#pragma once
#include <atomic>
#include <optional>
#include <string>
#include <thread>
#include <utility>
#include "vsched.h"
namespace sched {
inline bool acq(std::memory_order o)
{
    return o == std::memory_order_acquire || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst || o == std::memory_order_consume;
}
inline bool rel(std::memory_order o)
{
    return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst;
}
inline void join(VC& a, const VC& b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); i++) {
        a[i] = a[i] > b[i] ? a[i] : b[i];
    }
}
inline void tick()
{
    if (self() >= 0) {
        clockOf()[self()]++;
    }
}
}
namespace std {
inline void vatomic_thread_fence(memory_order)
{
    sched::point();
}
template<typename T> class vatomic {
    T v;
    sched::VC sync = sched::VC(64, 0);
    struct W {
        bool notified;
    };
    vector<W*> waiters;
    void ld(memory_order o)
    {
        if (sched::acq(o)) {
            sched::join(sched::clockOf(), sync);
        }
    }
    void st(memory_order o, bool rmw)
    {
        if (!rmw) {
            sync.assign(64, 0);
        }
        if (sched::rel(o)) {
            sched::join(sync, sched::clockOf());
            sched::tick();
        }
    }
    void wake(bool all)
    {
        for (auto w : waiters) {
            if (!w->notified) {
                w->notified = true;
                if (!all) {
                    break;
                }
            }
        }
    }
public:
    constexpr vatomic() : v() {}
    vatomic(T x) : v(x) {}
    vatomic(const vatomic&) = delete;
    vatomic& operator=(const vatomic&) = delete;
    T load(memory_order o = memory_order_seq_cst) const
    {
        sched::point();
        const_cast<vatomic*>(this)->ld(o);
        return v;
    }
    void store(T x, memory_order o = memory_order_seq_cst)
    {
        sched::point();
        v = x;
        st(o, false);
    }
    operator T() const { return load(); }
    T operator=(T x)
    {
        store(x);
        return x;
    }
    T exchange(T x, memory_order o = memory_order_seq_cst)
    {
        sched::point();
        T old = v;
        ld(o);
        v = x;
        st(o, true);
        return old;
    }
    bool compare_exchange_strong(T& e, T d, memory_order s, memory_order f)
    {
        sched::point();
        if (v == e) {
            ld(s);
            v = d;
            st(s, true);
            return true;
        }
        ld(f);
        e = v;
        return false;
    }
    bool compare_exchange_strong(T& e, T d, memory_order o = memory_order_seq_cst) { return compare_exchange_strong(e, d, o, o == memory_order_release ? memory_order_relaxed : o); }
    bool compare_exchange_weak(T& e, T d, memory_order s, memory_order f) { return compare_exchange_strong(e, d, s, f); }
    bool compare_exchange_weak(T& e, T d, memory_order o = memory_order_seq_cst) { return compare_exchange_strong(e, d, o); }
    template<typename F> T rmw(F f, memory_order o)
    {
        sched::point();
        T old = v;
        ld(o);
        v = f(old);
        st(o, true);
        return old;
    }
    T fetch_add(T d, memory_order o = memory_order_seq_cst) { return rmw([d](T x) { return (T) (x + d); }, o); }
    T fetch_sub(T d, memory_order o = memory_order_seq_cst) { return rmw([d](T x) { return (T) (x - d); }, o); }
    T operator++() { return fetch_add(1) + 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; }
    T operator--(int) { return fetch_sub(1); }
    T operator+=(T d) { return fetch_add(d) + d; }
    T operator-=(T d) { return fetch_sub(d) - d; }
    void wait(T old, memory_order o = memory_order_seq_cst)
    {
        while (true) {
            sched::point();
            ld(o);
            if (v != old) {
                return;
            }
            W w{false};
            waiters.push_back(&w);
            sched::block([&w]() {
                return w.notified;
            });
            for (size_t i = 0; i < waiters.size(); i++) {
                if (waiters[i] == &w) {
                    waiters.erase(waiters.begin() + i);
                    break;
                }
            }
        }
    }
    void notify_one()
    {
        sched::point();
        wake(false);
    }
    void notify_all()
    {
        sched::point();
        wake(true);
    }
    bool is_lock_free() const { return true; }
};
}
