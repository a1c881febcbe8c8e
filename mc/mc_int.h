// Internal interface between the runtime core and its extensions (vsock.cpp).
#pragma once
#include <cstdint>
#include "mc.h"
namespace mcint {
bool active();                 // inside a controlled execution
// block the calling thread until pred(arg) holds (deadline: virtual ns, 0=none)
// returns 0 normally, 1 on timeout
int block_until(bool (*pred)(void *), void *arg, uint64_t deadline,
                const char *what);
void sched(const char *what);  // plain scheduling point
void acquire(const void *);
void release(const void *);
}  // namespace mcint
