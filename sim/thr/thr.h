// Threads under a simulated scheduler: real threads (libcrypto keeps per-thread state), of which exactly one runs at a
// time. The engine is compiled so that every access to memory is announced; the scheduler may hand over to another thread
// at any access to a writable global or to memory another thread allocated, at every allocation, release and library call
// of the engine, and whenever a lock is not free.
#pragma once
#include "../core.h"
#include <functional>
namespace thr {
// after so many points, hand over to thread (to mod runnable). on: which points count - 0 all, 1 writes to shared memory,
// 2 allocations, releases and library calls
struct Switch { uint32_t gap, to, on; };
struct Result { uint64_t points = 0, switches = 0, preemptions = 0, blocked = 0, globals = 0, foreign = 0, sig = 0; };
// runs the bodies to their end under the schedule; when it is used up, threads run one after the other
Result run(const std::vector<std::function<void()>> &bodies, const std::vector<Switch> &sched, bool verbose);
void op_name(const char *n);                    // name of the operation the running thread is in
}
