// Core of the monitoring harness: case accounting, crash attribution, oracles, event log.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cinttypes>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#ifdef VP_MSAN
#include <sanitizer/msan_interface.h>
#define VP_DEFINED(p, n) __msan_check_mem_is_initialized((p), (n))
#define VP_TEXT(s) (__msan_unpoison_string(s), (s))
#else
#define VP_DEFINED(p, n) ((void)0)
#define VP_TEXT(s) (s)
#endif

namespace vp {

// ---- guarded allocation monitor (alloc.cpp; weak here so that sanitizer builds do without it) ----
extern "C" __attribute__((weak)) long vp_live_blocks();
extern "C" __attribute__((weak)) void vp_alloc_case(const char* op, uint64_t k);
extern "C" __attribute__((weak)) void vp_each_leak(void (*f)(const char* op, uint64_t kase, size_t n));
extern "C" __attribute__((weak)) long vp_guard_errors();
extern "C" __attribute__((weak)) long vp_check_all_blocks();
// ---- BLAS / LAPACK call monitor (wrap.cpp) ----
extern "C" __attribute__((weak)) long vp_blas_calls();
extern "C" __attribute__((weak)) long vp_blas_errors();
extern "C" __attribute__((weak)) const char* vp_blas_last_error();

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const char* s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    double unit() { return (double)(next() >> 11) * 0x1p-53; }
    bool chance(double p) { return unit() < p; }
    template<class A> const auto& pick(const A& a) { return a[below(std::size(a))]; }
};

// ---- element types ----
template<class T> struct Tr { using real = T; using ref = long double; static constexpr bool cplx = false; };
template<class R> struct Tr<std::complex<R>> { using real = R; using ref = std::complex<long double>; static constexpr bool cplx = true; };
template<class T> using Ref = typename Tr<T>::ref;
template<class T> using Real = typename Tr<T>::real;
template<class T> inline const char* tname() {
    if constexpr (std::is_same_v<T, double>) return "f64";
    else if constexpr (std::is_same_v<T, float>) return "f32";
    else if constexpr (std::is_same_v<T, int>) return "i32";
    else if constexpr (std::is_same_v<T, std::complex<double>>) return "c64";
    else return "c32";
}
template<class T> inline Ref<T> up(const T& v) {
    if constexpr (Tr<T>::cplx) return Ref<T>((long double)v.real(), (long double)v.imag());
    else return (long double)v;
}
template<class T> inline long double mag(const T& v) {
    if constexpr (Tr<T>::cplx) return hypotl((long double)v.real(), (long double)v.imag());
    else return fabsl((long double)v);
}
inline long double rmag(long double v) { return fabsl(v); }
inline long double rmag(const std::complex<long double>& v) { return hypotl(v.real(), v.imag()); }
inline std::complex<long double> rmul(const std::complex<long double>& a, const std::complex<long double>& b) {
    return {a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()};
}
inline long double rmul(long double a, long double b) { return a * b; }
template<class T> inline long double eps() {
    if constexpr (std::is_integral_v<Real<T>>) return 0.0L;
    else return (long double)std::numeric_limits<Real<T>>::epsilon();
}
template<class T> inline long double tiny() {
    if constexpr (std::is_integral_v<Real<T>>) return 0.0L;
    else return 8 * (long double)std::numeric_limits<Real<T>>::min();
}
// Fills the stack below the caller with 0xFF bytes (NaN, or -1), so that temporaries the library leaves unset are noticed.
#if defined(VP_MSAN)
inline void soil_stack() {}
#else
__attribute__((noinline)) inline void soil_stack() { unsigned char junk[6144]; std::memset(junk, 0xFF, sizeof junk); asm volatile("" : : "r"(junk) : "memory"); }
#endif
template<class T> inline bool same_bits(const T& a, const T& b) {   // equal as numbers; the sign of zero is not observed
    return a == b || std::memcmp(&a, &b, sizeof(T)) == 0;
}
template<class T> inline void fmt_val(std::string& s, const T& v) {
    char b[96];
    if constexpr (Tr<T>::cplx) snprintf(b, sizeof b, "(%.9g,%.9g)", (double)v.real(), (double)v.imag());
    else snprintf(b, sizeof b, "%.17g", (double)v);
    s += b;
}
template<class P> inline std::string show(const P* p, size_t n, size_t lim = 8) {
    std::string s = "[";
    for (size_t i = 0; i < n && i < lim; ++i) { if (i) s += ' '; fmt_val(s, p[i]); }
    if (n > lim) s += " ..";
    return s + "]";
}

struct Failure { uint64_t count = 0; uint64_t kase = 0; std::string what, desc; };

enum Mode { CHECK = 0, LOG = 1, SAN = 2 };

struct Ctx {
    std::string unit, cfg;
    uint64_t seed = 1, salt = 0;
    bool thorough = false;
    int mode = CHECK;
    double boost = 1;   // scales the quick budgets
    Rng rng;
    uint64_t evals = 0, observations = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> ops;
    std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;
    std::map<std::string, Failure> fails;
    std::string cur_op;
    char cur_desc[600] = "";
    char* crash = nullptr;
    FILE* log = nullptr;
    std::string out;
    long blas_err_seen = 0;

    // Reads a budget: quick / thorough number of repetitions.
    size_t n(size_t quick, size_t deep) const { return thorough ? deep : std::max(quick, std::min((size_t)(quick * boost), deep)); }

    static const char* intern(const std::string& s) {   // outlives everything; not from operator new
        static char* tab[4096]; static size_t k = 0, last = 0;
        if (k && s == tab[last]) return tab[last];
        for (size_t i = 0; i < k; ++i) if (s == tab[i]) return tab[last = i];
        if (k == 4096) return tab[0];
        return tab[last = k++] = strdup(s.c_str());
    }
    void note_crash_slot() {
        if (vp_alloc_case) vp_alloc_case(intern(cur_op), evals);
        if (crash) snprintf(crash, 4096, "%s|%" PRIu64 "|%s", cur_op.c_str(), evals, cur_desc);
    }
    // Starts a case. `h` identifies its inputs; `nontrivial` follows the rule stated in the evidence.
    __attribute__((format(printf, 5, 6)))
    void begin(const std::string& op, uint64_t h, bool nontrivial, const char* fmt, ...) {
        end();
        soil_stack();
        ++evals;
        cur_op = op;
        va_list ap; va_start(ap, fmt); vsnprintf(cur_desc, sizeof cur_desc, fmt, ap); va_end(ap);
        auto& k = ops[op];
        ++k;
        if (nontrivial) distinct.insert(mix(h ^ hash_str(op.c_str())));
        if (k == 3 && samples.size() < 24) samples.push_back(op + ": " + cur_desc);
        note_crash_slot();
        if (log) {
            std::string s = op + "|" + cur_desc; uint16_t l = (uint16_t)s.size();
            fputc('o', log); fwrite(&l, 2, 1, log); fwrite(s.data(), 1, l, log);
        }
    }
    void end() {
        if (cur_op.empty()) return;
        if (vp_blas_errors) {
            long e = vp_blas_errors();
            if (e != blas_err_seen) { blas_err_seen = e; fail("blas-contract", "%s", vp_blas_last_error()); }
        }
    }
    __attribute__((format(printf, 3, 4)))
    void fail(const char* kind, const char* fmt, ...) {
        char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        auto& f = fails[cur_op + ":" + kind];
        if (!f.count++) { f.what = b; f.desc = cur_desc; f.kase = evals; }
    }
    template<class... A> void want(bool ok, const char* kind, const char* fmt, A... a) {
        ++observations;
        if (log) { char t = 'b'; fputc(t, log); fputc(ok ? 1 : 0, log); uint32_t k = (uint32_t)hash_str((cur_op + kind).c_str()); fwrite(&k, 4, 1, log); }
        if (!ok && (mode == CHECK || (mode == SAN && (!strcmp(kind, "stray-write") || !strcmp(kind, "leak"))))) fail(kind, fmt, a...);
    }
    // Compares n results with the reference. bound == nullptr means the result must be exact.
    template<class T> void values(const char* kind, const T* got, size_t n, const Ref<T>* ref, const long double* bound) {
        observations += n;
        VP_DEFINED(got, n * sizeof(T));
        if (log) {
            fputc('v', log);
            uint32_t k = (uint32_t)hash_str((cur_op + kind).c_str()); fwrite(&k, 4, 1, log);
            uint32_t m = (uint32_t)(n * (Tr<T>::cplx ? 2 : 1)); fwrite(&m, 4, 1, log);
            for (size_t i = 0; i < n; ++i) {
                double b = bound ? (double)bound[i] : 0.0;
                if constexpr (Tr<T>::cplx) {
                    double r = got[i].real(), im = got[i].imag();
                    fwrite(&r, 8, 1, log); fwrite(&b, 8, 1, log); fwrite(&im, 8, 1, log); fwrite(&b, 8, 1, log);
                } else { double r = (double)got[i]; fwrite(&r, 8, 1, log); fwrite(&b, 8, 1, log); }
            }
        }
        if (mode != CHECK) return;
        for (size_t i = 0; i < n; ++i) {
            long double d = rmag(up(got[i]) - ref[i]);
            long double b = bound ? bound[i] : 0.0L;
            if (!(d <= b)) {
                std::string g, r; fmt_val(g, got[i]); fmt_val(r, ref[i]);
                fail(kind, "element %zu of %zu is %s, expected %s (difference %.3Lg, allowed %.3Lg)", i, n, g.c_str(), r.c_str(), d, b);
                return;
            }
        }
    }
    template<class T> void same(const char* kind, const T* got, const T* want_, size_t n) {
        ++observations;
        VP_DEFINED(got, n * sizeof(T));
        if (mode != CHECK) return;
        for (size_t i = 0; i < n; ++i)
            if (!same_bits(got[i], want_[i])) {
                std::string g, r; fmt_val(g, got[i]); fmt_val(r, want_[i]);
                fail(kind, "element %zu of %zu is %s, expected %s unchanged", i, n, g.c_str(), r.c_str());
                return;
            }
    }
    // Records values for the comparison between back ends; they are judged elsewhere.
    template<class T> void record(const char* kind, const T* got, size_t n, long double bound) {
        if (!log) return;
        fputc('v', log);
        uint32_t k = (uint32_t)hash_str((cur_op + kind).c_str()), m = (uint32_t)n; fwrite(&k, 4, 1, log); fwrite(&m, 4, 1, log);
        double b = (double)bound;
        for (size_t i = 0; i < n; ++i) { double v = (double)got[i]; fwrite(&v, 8, 1, log); fwrite(&b, 8, 1, log); }
    }
    void count(const char* k, uint64_t d = 1) { counters[k] += d; }
};

inline void json_str(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { fputc('\\', f); fputc(ch, f); }
        else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch);
        else fputc(ch, f);
    }
    fputc('"', f);
}

inline Ctx* g_ctx = nullptr;

// Runs `fn` as the unit's main. A C++ exception that escapes is an observation like any other.
inline int run_unit(int argc, char** argv, const char* unit, void (*fn)(Ctx&)) {
    static Ctx c;
    g_ctx = &c;
    c.unit = unit;
    std::string crash, logf;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--tier") c.thorough = v == "thorough";
        else if (k == "--boost") c.boost = strtod(v.c_str(), nullptr);
        else if (k == "--cfg") c.cfg = v;
        else if (k == "--mode") c.mode = v == "log" ? LOG : v == "san" ? SAN : CHECK;
        else if (k == "--crash") crash = v;
        else if (k == "--out") c.out = v;
        else if (k == "--log") logf = v;
    }
    c.rng = Rng(mix(c.seed * 0x10001 + 77) ^ hash_str(unit));
    if (!crash.empty()) {
        int fd = open(crash.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, 4096)) { perror("crash slot"); return 3; }
        c.crash = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
        if (c.crash == MAP_FAILED) { perror("mmap"); return 3; }
    }
    if (!logf.empty()) { c.log = fopen(logf.c_str(), "wb"); if (!c.log) { perror("log"); return 3; } }
    try { fn(c); c.end(); }
    catch (const std::exception& e) { if (c.mode == SAN) c.count("unexpected_exceptions"); else c.fail("unexpected-exception", "exception escaped: %.300s", e.what()); }
    catch (...) { if (c.mode == SAN) c.count("unexpected_exceptions"); else c.fail("unexpected-exception", "exception of an unknown type escaped"); }
    if (vp_alloc_case) vp_alloc_case(nullptr, 0);
    if (vp_check_all_blocks) {
        if (vp_check_all_blocks() || vp_guard_errors()) {
            c.fail("heap-guard", "bytes outside a heap block were overwritten (%ld blocks)", vp_guard_errors());
        }
    }
    struct Leak { const char* op; uint64_t kase, count; size_t bytes; };
    static Leak leaks[64]; static size_t nleaks = 0;
    if (vp_each_leak && c.mode == SAN) {   // everything the harness itself keeps is given back first
        auto copy = [](auto& m) { std::remove_reference_t<decltype(m)> t(m); m.swap(t); };
        copy(c.distinct); copy(c.ops); copy(c.counters); copy(c.fails);
        { std::vector<std::string> t; for (auto& x : c.samples) t.push_back(std::string(x.c_str())); c.samples.swap(t); }
        { std::string t(c.cur_op.c_str()); c.cur_op.swap(t); }
        vp_each_leak([](const char* op, uint64_t k, size_t n) {
            for (size_t i = 0; i < nleaks; ++i) if (leaks[i].op == op) { ++leaks[i].count; leaks[i].bytes += n; leaks[i].kase = std::min(leaks[i].kase, k); return; }
            if (nleaks < 64) leaks[nleaks++] = {op, k, 1, n};
        });
        for (size_t i = 0; i < nleaks; ++i) { c.cur_op = leaks[i].op; snprintf(c.cur_desc, sizeof c.cur_desc, "first at case %llu", (unsigned long long)leaks[i].kase); c.fail("leak", "%llu blocks (%zu bytes) were never freed", (unsigned long long)leaks[i].count, leaks[i].bytes); }
    }
    if (c.log) fclose(c.log);
    FILE* f = c.out.empty() ? stdout : fopen(c.out.c_str(), "w");
    if (!f) { perror("out"); return 3; }
    fprintf(f, "{\"unit\":\"%s\",\"evals\":%" PRIu64 ",\"observations\":%" PRIu64 ",\"distinct\":%zu,\n\"ops\":{", unit, c.evals, c.observations, c.distinct.size());
    bool first = true;
    for (auto& [k, v] : c.ops) { if (!first) fputc(',', f); first = false; json_str(f, k); fprintf(f, ":%" PRIu64, v); }
    fprintf(f, "},\n\"counters\":{");
    first = true;
    if (vp_blas_calls) c.counters["blas_lapack_calls_monitored"] = vp_blas_calls();
    for (auto& [k, v] : c.counters) { if (!first) fputc(',', f); first = false; json_str(f, k); fprintf(f, ":%" PRIu64, v); }
    fprintf(f, "},\n\"samples\":[");
    first = true;
    for (auto& s : c.samples) { if (!first) fputc(',', f); first = false; json_str(f, s); }
    fprintf(f, "],\n\"fails\":[");
    first = true;
    for (auto& [k, v] : c.fails) {
        if (!first) fputc(',', f);
        first = false;
        fprintf(f, "\n{\"key\":"); json_str(f, k);
        fprintf(f, ",\"count\":%" PRIu64 ",\"case\":%" PRIu64 ",\"what\":", v.count, v.kase); json_str(f, v.what);
        fprintf(f, ",\"desc\":"); json_str(f, v.desc); fputc('}', f);
    }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return 0;
}

// The result of an expression, built in place in memory of 0xFF bytes.
template<class F> struct Held {
    using X = std::invoke_result_t<F>;
    alignas(X) unsigned char raw[sizeof(X)];
    explicit Held(F f) {
#if !defined(VP_MSAN)
        std::memset(raw, 0xFF, sizeof raw); asm volatile("" : : "r"(raw) : "memory");
#endif
        soil_stack();
        new (raw) X(f());
    }
    Held(const Held&) = delete;
    ~Held() { get().~X(); }
    X& get() { return *std::launder(reinterpret_cast<X*>(raw)); }
};

// ---- guarded objects: bytes around a fixed-size object must survive every operation ----
template<class V> struct Guarded {
    static constexpr size_t G = 64;
    unsigned char pre[G];
    V v;
    unsigned char post[G];
    template<class... A> explicit Guarded(A&&... a) : v(std::forward<A>(a)...) { std::memset(pre, 0xA7, G); std::memset(post, 0xA7, G); }
    bool ok() const {
        for (size_t i = 0; i < G; ++i) if (pre[i] != 0xA7 || post[i] != 0xA7) return false;
        return true;
    }
};

// ---- data ----
// kind 0: small integers (all arithmetic exact), 1: uniform reals, 2: mixed magnitudes, 3: position codes, 4: many zeros
enum { D_INT = 0, D_REAL = 1, D_MIX = 2, D_POS = 3, D_SPARSE = 4, D_KINDS = 5 };
inline const char* dname(int k) { static const char* n[] = {"int", "real", "mixed", "pos", "sparse"}; return n[k]; }
inline bool exact_kind(int k) { return k == D_INT || k == D_POS || k == D_SPARSE; }
template<class R> inline R gen_real(Rng& r, int kind, size_t i) {
    if constexpr (std::is_integral_v<R>) { return kind == D_POS ? (R)(i % 97 + 1) : kind == D_SPARSE && r.chance(0.6) ? R(0) : (R)r.range(-9, 9); }
    else switch (kind) {
        case D_INT: return (R)r.range(-9, 9);
        case D_REAL: return (R)(2 * r.unit() - 1);
        case D_MIX: { R m = (R)std::ldexp(1.0 + r.unit(), (int)r.range(-12, 12)); return r.chance(0.5) ? m : -m; }
        case D_POS: return (R)(i % 97 + 1);
        default: return r.chance(0.6) ? (r.chance(0.3) ? R(-0.0) : R(0)) : (R)r.range(-9, 9);
    }
}
template<class T> inline T gen(Rng& r, int kind, size_t i = 0) {
    if constexpr (Tr<T>::cplx) {
        auto a = gen_real<Real<T>>(r, kind, i);
        auto b = kind == D_POS ? Real<T>((i * 7) % 13) - Real<T>(6) : gen_real<Real<T>>(r, kind, i);
        return T(a, b);
    } else return gen_real<T>(r, kind, i);
}
// Binary exponents that three-fold products still survive.
template<class R> inline int gen_exponent(Rng& r) {
    constexpr int lim = std::is_same_v<R, float> ? 30 : std::is_same_v<R, double> ? 220 : 0;
    switch (r.below(3)) { case 0: return (int)r.range(-lim, lim); case 1: return r.chance(0.5) ? -lim : lim; default: return (int)r.range(-12, 12); }
}
template<class T> inline void scale2(T& v, int e) {   // an exact multiplication by 2^e
    using R = Real<T>;
    if constexpr (std::is_floating_point_v<R>) {
        if constexpr (Tr<T>::cplx) v = T(std::ldexp(v.real(), e), std::ldexp(v.imag(), e)); else v = std::ldexp(v, e);
    }
}
template<class T> inline std::vector<T> gen_vec(Rng& r, int kind, size_t n, size_t off = 0) {
    std::vector<T> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = gen<T>(r, kind, i + off);
    if constexpr (std::is_floating_point_v<Real<T>>) if (!exact_kind(kind) && r.chance(0.15)) {
        if (kind == D_REAL) switch (r.below(4)) {
            case 0: for (auto& x : v) x = n ? v[0] : x; break;                                        // all elements the same
            case 1: for (auto& x : v) x = T(1) + x * T(r.chance(0.5) ? 0x1p-20 : 0x1p-10); break;        // all next to one
            default: { int e = gen_exponent<Real<T>>(r); for (auto& x : v) scale2(x, e); }             // all tiny or all huge
        } else for (auto& x : v) scale2(x, gen_exponent<Real<T>>(r));                                  // tiny next to huge
    }
    return v;
}
// Scalars: the special values 0, 1, -1 and others, exactly representable when the data is exact.
template<class T> inline T gen_scalar(Rng& r, int kind) {
    using R = Real<T>;
    auto pick = [&]() -> R {
        switch (r.below(8)) {
            case 0: return R(0); case 1: case 2: return R(1); case 3: return R(-1); case 4: return R(2);
            case 5: return exact_kind(kind) ? R(-3) : std::is_integral_v<R> ? R(5) : (R)(0.5);
            case 6: if constexpr (std::is_floating_point_v<R>) if (!exact_kind(kind)) {   // next to 0, 1 and -1; tiny and huge
                R e = std::ldexp(R(1), -(int)r.range(1, std::numeric_limits<R>::digits - 1)) * (r.chance(0.5) ? 1 : -1);
                switch (r.below(4)) { case 0: return 1 + e; case 1: return -1 + e; case 2: return e; default: return std::ldexp((R)(1 + r.unit()), gen_exponent<R>(r)); }
            } [[fallthrough]];
            default: return exact_kind(kind) ? (R)r.range(-5, 5) : gen_real<R>(r, D_REAL, 0);
        }
    };
    if constexpr (Tr<T>::cplx) { R a = pick(); return T(a, r.chance(0.5) ? R(0) : pick()); }
    else return pick();
}
template<class T> inline uint64_t hv(const std::vector<T>& v, uint64_t h = 7) { return hash_bytes(v.data(), v.size() * sizeof(T), h + v.size()); }
template<class T> inline uint64_t hs(const T& v, uint64_t h = 7) { return hash_bytes(&v, sizeof v, h); }
template<class T> inline bool any_nonzero(const std::vector<T>& v) { for (auto& x : v) if (x != T(0)) return true; return false; }
inline std::string cat(const char* a, const char* b) { return std::string(a) + "." + b; }
template<class T> inline std::string opn(const char* name) { return std::string(name) + "<" + tname<T>() + ">"; }

// Sizes around the thresholds of vectorised and parallel loops.
inline size_t gen_size(Rng& r, bool thorough, size_t lo = 1) {
    static const size_t s[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257};
    size_t k;
    static const size_t large[] = {500, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8193, 10000};
    if (r.chance(0.03)) return std::max(r.pick(large), lo);
    switch (r.below(4)) {
        case 0: k = r.pick(s); break;
        case 1: k = 1 + r.below(20); break;
        case 2: k = 1 + r.below(80); break;
        default: k = 1 + r.below(thorough ? 1500 : 400);
    }
    return std::max(k, lo);
}

template<size_t... N, class F> inline void for_sizes(std::index_sequence<N...>, F&& f) { (f(std::integral_constant<size_t, N>{}), ...); }

// Runs f and says which kind of exception it ended with: 0 none, 1 E or derived, 2 another std::exception, 3 anything else.
template<class E, class F> inline int outcome(F&& f, std::string* what = nullptr) {
    try { f(); return 0; }
    catch (const E& e) { if (what) { const char* w_ = e.what(); *what = VP_TEXT(w_); } return 1; }
    catch (const std::exception& e) { if (what) { const char* w_ = e.what(); *what = VP_TEXT(w_); } return 2; }
    catch (...) { return 3; }
}

}  // namespace vp
