#pragma once
#include <atomic>
#include <cstdint>
extern std::atomic<uint64_t> g_vnow; // 0: real time
