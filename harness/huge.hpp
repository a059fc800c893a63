// Long operands of small integers: every result is exact, and the reference is cheap enough for millions of elements.
#pragma once
#include "core.hpp"
namespace vp {
inline bool roomy(const Ctx& c) { return c.mode == CHECK && !c.log && c.cfg.rfind("opt", 0) == 0; }
inline int icode(uint64_t i, uint64_t salt, int span) { return (int)(mix(i * 2 + salt * 0x9e3779b97f4a7c15ull) % (2 * span + 1)) - span; }
// Element i of the operand `salt`, in -span..span (and as much for the imaginary part).
template<class T> T code(uint64_t i, uint64_t salt, int span) {
    using R = Real<T>;
    if constexpr (Tr<T>::cplx) return T((R)icode(i, salt, span), (R)icode(i, salt + 77, span)); else return (T)icode(i, salt, span);
}
template<class T> std::vector<T> codes(size_t n, uint64_t salt, int span) { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = code<T>(i, salt, span); return v; }
// A length around or past 2^20, 2^21, 2^22 (or more), rarely a multiple of anything.
inline size_t huge_size(Ctx& c) { static const int e[] = {20, 21, 22}, deep[] = {20, 21, 22, 23, 24}; return ((size_t)1 << (c.thorough ? c.rng.pick(deep) : c.rng.pick(e))) + c.rng.below(40000); }
template<class T, class F> void each(Ctx& c, const char* kind, const T* got, size_t n, F&& want) {
    c.observations += n;
    size_t bad = 0, at = 0;
    for (size_t i = 0; i < n; ++i) if (!(got[i] == want(i)) && !bad++) at = i;
    c.count("values_exact", n);
    if (bad) { T w = want(at); c.fail(kind, "element %zu of %zu is %s, expected %s (%zu such)", at, n, show(got + at, 1).c_str(), show(&w, 1).c_str(), bad); }
}
}
namespace vp {
// Sorted positions of a large sparse matrix: every row has few entries, or one row or column has most of them.
struct HugeSp { size_t n, m; std::vector<size_t> r, c; };
inline HugeSp huge_sp(Ctx& c, int shape, size_t rows = 0) {
    auto& g = c.rng; HugeSp s; size_t lo = 66000, hi = c.thorough ? 400000 : 90000;
    auto some = [&] { return lo + g.below(hi - lo); };
    s.n = rows ? rows + g.below(rows) : some(); s.m = some();
    auto put = [&](size_t i, size_t j) { s.r.push_back(i); s.c.push_back(j); };
    switch (shape) {
        case 0: for (size_t i = 0; i < s.n; ++i) { size_t j = g.below(7); for (size_t k = g.below(4); k--; ) { put(i, j); j += 1 + g.below(s.m / 4); } } break;   // a few per row
        case 1: { size_t w = g.below(5); s.n = 5; for (size_t i = 0; i < 5; ++i) for (size_t j = g.below(3); j < s.m; j += i == w ? 1 : 1 + g.below(9000)) put(i, j); break; }   // a long row
        case 2: s.m = 4; for (size_t i = g.below(3); i < s.n; ++i) if (g.chance(0.95)) put(i, g.below(4)); break;   // long columns
        default: { size_t d = 1 + g.below(700); s.m = s.n; for (size_t i = 0; i < s.n; ++i) { if (i >= d) put(i, i - d); put(i, i); if (i + 1 < s.n) put(i, i + 1); } }   // bands
    }
    s.n = s.r.back() + 1; s.m = 0; for (auto j : s.c) s.m = std::max(s.m, j + 1);
    return s;
}
inline std::vector<size_t> row_pointers(const HugeSp& s) { std::vector<size_t> p{0}; size_t k = 0; for (size_t i = 0; i < s.n; ++i) { while (k < s.r.size() && s.r[k] == i) ++k; p.push_back(k); } return p; }
}
