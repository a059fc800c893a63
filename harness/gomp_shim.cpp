// A small OpenMP runtime on std::thread, compiled with ThreadSanitizer so that the synchronisation of parallel regions
// is visible to it (the one of libgomp is not, which would make every parallel loop look like a race or hide it).
// It stands in for libgomp at link time in the tsan configuration only.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace {
struct Share { std::mutex m; long next = 0, end = 0, incr = 1, chunk = 1; bool set = false; bool guided = false; unsigned threads = 1; };
struct Team {
    unsigned n; std::mutex m; std::condition_variable cv; unsigned waiting = 0; unsigned long phase = 0;
    std::map<unsigned long, std::shared_ptr<Share>> shares; std::map<unsigned long, bool> singles;
    explicit Team(unsigned n) : n(n) {}
    void barrier() {
        std::unique_lock<std::mutex> l(m); unsigned long p = phase;
        if (++waiting == n) { waiting = 0; ++phase; cv.notify_all(); } else cv.wait(l, [&] { return phase != p; });
    }
};
struct Me { Team* team = nullptr; unsigned id = 0; unsigned long loops = 0, singles = 0; std::shared_ptr<Share> cur; };
thread_local Me me;
std::atomic<int> limit{0};
int max_threads() { int l = limit.load(); if (l) return l; const char* e = getenv("OMP_NUM_THREADS"); int v = e ? atoi(e) : 4; return v < 1 ? 1 : v; }
std::mutex crit, atom;
std::mutex& named(void** p) { static std::mutex g; static std::map<void**, std::unique_ptr<std::mutex>> t; std::lock_guard<std::mutex> l(g); auto& q = t[p]; if (!q) q = std::make_unique<std::mutex>(); return *q; }
void run(void (*fn)(void*), void* data, unsigned n, long* loop /* start end incr chunk guided */) {
    if (!n) n = (unsigned)max_threads();
    if (me.team && me.team->n > 1) n = 1;   // no nested parallelism
    Team t(n);
    if (loop) { auto s = std::make_shared<Share>(); s->next = loop[0]; s->end = loop[1]; s->incr = loop[2]; s->chunk = loop[3] < 1 ? 1 : loop[3]; s->guided = loop[4]; s->threads = n; s->set = true; t.shares[0] = s; }
    auto body = [&](unsigned id) {
        Me old = me; me = Me{&t, id, 0, 0, nullptr};
        if (loop) { std::lock_guard<std::mutex> l(t.m); me.cur = t.shares[0]; me.loops = 1; }
        fn(data); me = old;
    };
    std::vector<std::thread> th;
    for (unsigned i = 1; i < n; ++i) th.emplace_back(body, i);
    body(0);
    for (auto& x : th) x.join();
}
bool next(long* a, long* b) {
    auto s = me.cur; std::lock_guard<std::mutex> l(s->m);
    bool up = s->incr > 0;
    if (up ? s->next >= s->end : s->next <= s->end) return false;
    long left = (s->end - s->next + s->incr - (up ? 1 : -1)) / s->incr, k = s->chunk;
    if (s->guided) k = std::max(s->chunk, left / (long)(2 * s->threads));
    if (k > left) k = left;
    *a = s->next; s->next += k * s->incr; *b = s->next;
    if (up ? *b > s->end : *b < s->end) *b = s->end;
    return true;
}
bool start(long s, long e, long i, long c, bool guided, long* a, long* b) {
    Team* t = me.team; unsigned long k = me.loops++;
    if (!t) { me.cur = std::make_shared<Share>(); }
    else { std::lock_guard<std::mutex> l(t->m); auto& p = t->shares[k]; if (!p) p = std::make_shared<Share>(); me.cur = p; }
    { std::lock_guard<std::mutex> l(me.cur->m); if (!me.cur->set) { me.cur->next = s; me.cur->end = e; me.cur->incr = i; me.cur->chunk = c < 1 ? 1 : c; me.cur->guided = guided; me.cur->threads = t ? t->n : 1; me.cur->set = true; } }
    return next(a, b);
}
}
extern "C" {
int omp_get_num_threads() { return me.team ? (int)me.team->n : 1; }
int omp_get_thread_num() { return (int)me.id; }
int omp_get_max_threads() { return max_threads(); }
int omp_get_num_procs() { return (int)std::thread::hardware_concurrency(); }
int omp_in_parallel() { return me.team && me.team->n > 1; }
void omp_set_num_threads(int n) { limit.store(n); }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_nested() { return 0; }
int omp_get_active_level() { return me.team && me.team->n > 1; }
int omp_get_team_size(int) { return omp_get_num_threads(); }
int omp_get_ancestor_thread_num(int) { return omp_get_thread_num(); }
int omp_get_dynamic() { return 0; }
int omp_get_level() { return me.team ? 1 : 0; }
int omp_get_thread_limit() { return 1 << 20; }
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { run(fn, d, n, nullptr); }
#define PLOOP(name, g) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { long l[] = {s, e, i, c, g}; run(fn, d, n, l); }
PLOOP(static, 0) PLOOP(dynamic, 0) PLOOP(guided, 1) PLOOP(nonmonotonic_dynamic, 0) PLOOP(nonmonotonic_guided, 1)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { long l[] = {s, e, i, 1, 0}; run(fn, d, n, l); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(name, g) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, g, a, b); } bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); } \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { (void)up; return start((long)s, (long)e, (long)i, (long)c, g, (long*)a, (long*)b); } bool GOMP_loop_ull_##name##_next(unsigned long long* a, unsigned long long* b) { return next((long*)a, (long*)b); }
LOOP(static, 0) LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1)
void GOMP_barrier() { if (me.team) me.team->barrier(); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_critical_start() { crit.lock(); }
void GOMP_critical_end() { crit.unlock(); }
void GOMP_critical_name_start(void** p) { named(p).lock(); }
void GOMP_critical_name_end(void** p) { named(p).unlock(); }
void GOMP_atomic_start() { atom.lock(); }
void GOMP_atomic_end() { atom.unlock(); }
static unsigned section(bool first, unsigned n) {
    if (first) { long a, b; return start(1, (long)n + 1, 1, 1, false, &a, &b) ? (unsigned)a : 0; }
    long a, b; return next(&a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_start(unsigned n) { return section(true, n); }
unsigned GOMP_sections_next() { return section(false, 0); }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { long l[] = {1, (long)count + 1, 1, 1, 0}; run(fn, d, n, l); }
bool GOMP_single_start() { if (!me.team) return true; std::lock_guard<std::mutex> l(me.team->m); bool& b = me.team->singles[me.singles++]; if (b) return false; return b = true; }
}
