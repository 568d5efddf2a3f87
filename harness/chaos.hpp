#pragma once
#include <atomic>
namespace chaos {
extern std::atomic<int> level;      // 0: no delays
extern thread_local int held;       // mutexes held by this thread
void pause();
}
