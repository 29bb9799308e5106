// Virtual clock: every STimeNow() of Bedrock's objects comes here (-Wl,--wrap=_Z8STimeNowv).
#include <atomic>
#include <cstdint>
#include "vtime.h"
std::atomic<uint64_t> g_vnow{0};
extern "C" uint64_t __real__Z8STimeNowv();
extern "C" uint64_t __wrap__Z8STimeNowv()
{
    uint64_t v = g_vnow.load();
    return v ? v : __real__Z8STimeNowv();
}
