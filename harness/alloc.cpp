// Guarded allocator for builds without sanitizers: every heap block of the program gets guard zones that are
// verified when it is freed (and all live ones at the end), fresh memory is filled with a pattern, and live
// blocks are counted so that leaks show.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <new>

namespace {
constexpr size_t G = 64;
constexpr unsigned char GP = 0xD5, FRESH = 0xFF;   // all ones: a NaN for every floating-point type
struct Head { size_t n; Head* prev; Head* next; uint64_t magic; const char* op; uint64_t kase; };
static_assert(sizeof(Head) <= 64);
std::mutex mu;
Head root{0, &root, &root, 0, nullptr, 0};
const char* cur_op = nullptr; uint64_t cur_case = 0;   // what the program was doing when a block was allocated
std::atomic<long> live{0}, errors{0};

bool guards_ok(Head* h) {
    auto base = reinterpret_cast<unsigned char*>(h) + 64;
    for (size_t i = 0; i < G; ++i) if (base[i] != GP || base[G + h->n + i] != GP) return false;
    return true;
}
void* get(size_t n) {
    auto raw = static_cast<unsigned char*>(std::aligned_alloc(64, (64 + G + n + G + 63) / 64 * 64));
    if (!raw) throw std::bad_alloc();
    auto h = reinterpret_cast<Head*>(raw);
    h->n = n; h->magic = 0x5ca1ab1e; h->op = cur_op; h->kase = cur_case;
    std::memset(raw + 64, GP, G);
    std::memset(raw + 64 + G, FRESH, n);
    std::memset(raw + 64 + G + n, GP, G);
    { std::lock_guard<std::mutex> l(mu); h->next = root.next; h->prev = &root; root.next->prev = h; root.next = h; }
    ++live;
    return raw + 64 + G;
}
void put(void* p) {
    if (!p) return;
    auto h = reinterpret_cast<Head*>(static_cast<unsigned char*>(p) - G - 64);
    if (h->magic != 0x5ca1ab1e) { std::fprintf(stderr, "heap-guard: invalid or repeated free\n"); std::abort(); }
    if (!guards_ok(h)) ++errors;
    { std::lock_guard<std::mutex> l(mu); h->prev->next = h->next; h->next->prev = h->prev; }
    h->magic = 0xdead;
    std::memset(p, 0xEE, h->n);
    --live;
    std::free(h);
}
}
extern "C" long vp_live_blocks() { return live; }
extern "C" void vp_alloc_case(const char* op, uint64_t k) { cur_op = op; cur_case = k; }
// Calls f for every live block that was allocated during a case.
extern "C" void vp_each_leak(void (*f)(const char* op, uint64_t kase, size_t n)) {
    for (Head* h = root.next; h != &root; h = h->next) if (h->op) f(h->op, h->kase, h->n);
}
extern "C" long vp_guard_errors() { return errors; }
extern "C" long vp_check_all_blocks() {
    std::lock_guard<std::mutex> l(mu);
    long bad = 0;
    for (Head* h = root.next; h != &root; h = h->next) if (!guards_ok(h)) ++bad;
    errors += bad;
    return bad;
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
