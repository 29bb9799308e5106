// Controlled scheduler: the registered threads run one at a time; every pthread mutex operation, condition-variable operation,
// poll, and (through vatomic.h) atomic operation is a point at which the next thread to run is chosen.  The choices come from
// a random source, a PCT-style priority source or an exhaustive enumeration with bounded preemptions.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Chooser {
    virtual ~Chooser() {}
    // Pick one of the runnable threads; `cur` is the index in `runnable` of the thread that just ran (or -1).
    virtual int pick(const std::vector<int>& runnable, int cur) = 0;
};
struct RandomChooser : Chooser {
    uint64_t s;
    int sticky; // percent chance to keep running the current thread
    RandomChooser(uint64_t seed, int sticky = 50) : s(seed * 2654435761u + 88172645463325252ull), sticky(sticky) {}
    uint64_t next()
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s >> 11;
    }
    int pick(const std::vector<int>& r, int cur) override;
};
// Exhaustive enumeration of schedules with at most `bound` preemptions.
struct DfsChooser : Chooser {
    int bound;
    std::vector<std::pair<int, int>> path; // (choice, number of alternatives)
    size_t pos = 0;
    int used = 0;
    DfsChooser(int bound) : bound(bound) {}
    int pick(const std::vector<int>& r, int cur) override;
    bool advance(); // to the next schedule; false when all have been seen
};
enum Result { DONE, STUCK, LIMIT };
// Runs the bodies to completion. STUCK: no thread can take a step (the blocked threads are abandoned).
Result run(const std::vector<std::function<void()>>& bodies, Chooser& c, long maxSteps = 20000);
void point();                                   // explicit scheduling point (no-op for unregistered threads)
void block(const std::function<bool()>& ready); // waits until ready() holds
bool controlled();                              // is the calling thread under control?
int self();
std::vector<int>& stuckThreads();
extern bool quiet;              // no voluntary scheduling points for the moment
extern bool adopt;              // register threads created by controlled threads too
extern bool timeoutsFire;       // timed waits may time out when nothing else can run
extern int64_t vsteady;         // virtual steady clock in ns when > 0 (advanced to a deadline when nothing else can run)
// Vector clocks for the atomics' happens-before bookkeeping.
typedef std::vector<uint32_t> VC;
VC& clockOf();
}
