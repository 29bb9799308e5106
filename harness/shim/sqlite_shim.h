#pragma once
#include <atomic>
#include <functional>
struct sqlite3;
struct ShimHooks {
    std::function<void(sqlite3*, const char*)> beforeStep;      // (handle, normalised statement)
    std::function<void(sqlite3*, const char*, int)> afterStep;  // (handle, normalised statement, result)
    std::function<int(sqlite3*, const char*)> failStep;         // a result other than 0 is returned instead of running the statement
    std::function<bool(sqlite3*)> forceConflict;                // COMMIT must report a conflict
};
extern ShimHooks shimHooks;
