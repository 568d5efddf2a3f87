// Interposed pthread mutexes: count the locks a thread holds and delay it at random after a release and before an acquisition,
// so that windows between critical sections are hit.
#include "chaos.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>

namespace chaos {
std::atomic<int> level(0);
thread_local int held = 0;
static std::atomic<unsigned> seeds(1);
static unsigned rnd() {
    static thread_local unsigned s = 0;
    if (!s) s = 2654435761u * seeds.fetch_add(1) + 12345u;
    s = s * 1664525u + 1013904223u;
    return s >> 8;
}
void pause() {
    int l = level.load(std::memory_order_relaxed);
    if (!l) return;
    unsigned r = rnd() % 16;
    if (r < 4) sched_yield();
    else if (r < 4u + l) usleep(rnd() % (40 * l));
}
}

#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if !__has_feature(thread_sanitizer)
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    chaos::pause();
    int r = real(m);
    if (!r) chaos::held++;
    return r;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    int r = real(m);
    if (!r) chaos::held++;
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    chaos::held--;
    chaos::pause();
    return r;
}
#endif
