// Replacement of libgomp for the ThreadSanitizer build: every parallel region runs on real std::threads, so that the
// sanitizer knows all synchronisation (libgomp itself is not instrumented and would give false alarms and hide races).
#include <atomic>
#include <condition_variable>
#include <chrono>
#include <map>
#include <mutex>
#include <random>
#include <string>
#include <thread>
#include <vector>

namespace
{
    struct Team
    {
        int n = 1;
        std::mutex m;
        std::condition_variable cv;
        int waiting = 0;
        unsigned generation = 0;
        int singles = 0;
        // one work sharing construct at a time
        long next = 0, end = 0, incr = 1, chunk = 1;
        unsigned loop = 0;
        int left = 0;
    };
    thread_local Team* team = nullptr;
    thread_local int tid = 0;
    thread_local unsigned myLoop = 0;
    thread_local int mySingle = 0;
    int wanted = 4;
    std::recursive_mutex critical;
    std::mutex namedLock;
    std::map<void**, std::recursive_mutex*> named;

    void barrier()
    {
        if (!team || team->n == 1)
            return;
        std::unique_lock<std::mutex> l(team->m);
        unsigned g = team->generation;
        if (++team->waiting == team->n)
        {
            team->waiting = 0;
            team->generation++;
            team->cv.notify_all();
        }
        else
            team->cv.wait(l, [&] { return g != team->generation; });
    }
    bool nextChunk(long* s, long* e)
    {
        std::lock_guard<std::mutex> l(team->m);
        if (team->incr > 0 ? team->next >= team->end : team->next <= team->end)
            return false;
        *s = team->next;
        *e = *s + team->incr * team->chunk;
        if (team->incr > 0 ? *e > team->end : *e < team->end)
            *e = team->end;
        team->next = *e;
        return true;
    }
    void initLoop(long s, long e, long i, long c)
    {
        std::lock_guard<std::mutex> l(team->m);
        if (++myLoop != team->loop)
        {
            team->loop = myLoop;
            team->next = s, team->end = e, team->incr = i, team->chunk = c > 0 ? c : 1;
        }
    }
    template <class F>
    void region(F fn, unsigned num, bool loop = false, long s = 0, long e = 0, long i = 1, long c = 1)
    {
        // a region inside a region is run by one thread
        Team t;
        t.n = team && team->n > 1 ? 1 : (int)(num ? num : wanted);
        if (loop)
            t.next = s, t.end = e, t.incr = i, t.chunk = c > 0 ? c : 1, t.loop = 1;
        Team* outer = team;
        int outerTid = tid;
        unsigned outerLoop = myLoop;
        int outerSingle = mySingle;
        std::vector<std::thread> v;
        auto body = [&](int k)
        {
            team = &t, tid = k, myLoop = loop ? 1 : 0, mySingle = 0;
            fn();
        };
        for (int k = 1; k < t.n; ++k)
            v.emplace_back(body, k);
        body(0);
        for (auto& x : v)
            x.join();
        team = outer, tid = outerTid, myLoop = outerLoop, mySingle = outerSingle;
    }
} // namespace
int shimThreads() { return wanted; }

extern "C"
{
    void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned)
    {
        region([=] { fn(d); }, n);
    }
#define PLOOP(name)                                                                                              \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) \
    {                                                                                                            \
        region([=] { fn(d); }, n, true, s, e, i, c);                                                             \
    }                                                                                                            \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b)                              \
    {                                                                                                            \
        if (!team)                                                                                               \
        {                                                                                                        \
            *a = s, *b = e;                                                                                      \
            return i > 0 ? s < e : s > e;                                                                        \
        }                                                                                                        \
        initLoop(s, e, i, c);                                                                                    \
        return nextChunk(a, b);                                                                                  \
    }                                                                                                            \
    bool GOMP_loop_##name##_next(long* a, long* b) { return team && nextChunk(a, b); }
    PLOOP(dynamic)
    PLOOP(guided)
    PLOOP(nonmonotonic_dynamic)
    PLOOP(nonmonotonic_guided)
    PLOOP(static)
    void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { region([=] { fn(d); }, n, true, s, e, i, 1); }
    void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { region([=] { fn(d); }, n, true, s, e, i, 1); }
    bool GOMP_loop_runtime_next(long* a, long* b) { return team && nextChunk(a, b); }
    bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return team && nextChunk(a, b); }
    void GOMP_loop_end() { barrier(); }
    void GOMP_loop_end_nowait() {}
    void GOMP_barrier() { barrier(); }
    bool GOMP_single_start()
    {
        if (!team)
            return true;
        std::lock_guard<std::mutex> l(team->m);
        if (++mySingle > team->singles)
        {
            team->singles = mySingle;
            return true;
        }
        return false;
    }
    void GOMP_critical_start() { critical.lock(); }
    void GOMP_critical_end() { critical.unlock(); }
    void GOMP_atomic_start() { critical.lock(); }
    void GOMP_atomic_end() { critical.unlock(); }
    void GOMP_critical_name_start(void** p)
    {
        std::recursive_mutex* m;
        {
            std::lock_guard<std::mutex> l(namedLock);
            auto& q = named[p];
            if (!q)
                q = new std::recursive_mutex;
            m = q;
        }
        m->lock();
    }
    void GOMP_critical_name_end(void** p)
    {
        std::recursive_mutex* m;
        {
            std::lock_guard<std::mutex> l(namedLock);
            m = named[p];
        }
        m->unlock();
    }
    int omp_get_num_threads() { return team ? team->n : 1; }
    int omp_get_thread_num() { return tid; }
    int omp_get_max_threads() { return wanted; }
    int omp_get_num_procs() { return (int)std::thread::hardware_concurrency(); }
    void omp_set_num_threads(int n) { wanted = n > 0 ? n : 1; }
    int omp_in_parallel() { return team && team->n > 1; }
    void omp_set_dynamic(int) {}
    void omp_set_nested(int) {}
    double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
}
