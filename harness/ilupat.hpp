// Diagonally dominant systems on many patterns, and an independent ILU(0) in long double.
#pragma once
#include "sparse.hpp"
namespace vp {
// 0 random, 1 tri-diagonal, 2 arrow (last row and column), 3 lower, 4 upper, 5 diagonal, 6 dense, 7 five-point grid, 8 cyclic, 9 block diagonal, 10 reversed arrow (first row and column: fills in), 11 banded with gaps
static const int PATTERNS = 12;
inline bool no_fill(int p) { return p == 1 || p == 2 || p == 3 || p == 4 || p == 5 || p == 6 || p == 9; }
inline const char* pat_name(int p) { static const char* n[] = {"random", "tridiagonal", "arrow", "lower", "upper", "diagonal", "dense", "grid", "cyclic", "blocks", "reversed-arrow", "gapped-band"}; return n[p]; }
template<class T> SpModel<T> gen_dom(Rng& r, size_t n, int pat, double dom) {
    SpModel<T> s;
    double p = std::min(1.0, 1.0 / n + 0.4 * r.unit());
    size_t w = std::max<size_t>(1, (size_t)std::sqrt((double)n)), blk = 1 + r.below(4);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        if (i == j) continue;
        size_t d = i > j ? i - j : j - i; bool on;
        switch (pat) {
            case 1: on = d == 1; break;
            case 2: on = i + 1 == n || j + 1 == n; break;
            case 3: on = j < i && r.chance(0.5); break;
            case 4: on = j > i && r.chance(0.5); break;
            case 5: on = false; break;
            case 6: on = true; break;
            case 7: on = d == w || (d == 1 && i / w == j / w); break;
            case 8: on = (i + 1) % n == j || (r.s % 2 && (j + 1) % n == i); break;
            case 9: on = i / blk == j / blk; break;
            case 10: on = i == 0 || j == 0; break;
            case 11: on = (d == 1 || d == 3) && r.chance(0.8); break;
            default: on = r.chance(p);
        }
        if (on) { T v = (T)((0.1 + 0.9 * r.unit()) * (r.chance(0.6) ? -1 : 1)); s[{i, j}] = v; }
    }
    std::vector<double> row(n, 0.0);
    for (auto& [q, v] : s) row[q.first] += std::abs((double)v);
    for (size_t i = 0; i < n; ++i) s[{i, i}] = (T)((row[i] * dom + 0.2 + 0.3 * r.unit()) * (r.chance(0.2) ? -1 : 1));
    return s;
}
// An exact change of units.
template<class T> void rescale(Rng& r, SpModel<T>& s) {
    if (!r.chance(0.2)) return;
    int lim = sizeof(T) == 8 ? 200 : 30, e = (int)r.range(-lim, lim);
    for (auto& [p, v] : s) scale2(v, e);
}
// Large systems without fill-in whose factors are small integers and powers of two: every step is exact, and no element
// of the pattern vanishes.
// shape 0: tridiagonal, 1: last row and column, 2: blocks of 3.
template<class T> struct ExactSparse { SpModel<T> s; std::vector<T> x, b; };
template<class T> ExactSparse<T> exact_sparse(Rng& r, size_t n, int shape) {
    auto nz = [&] { return (T)(r.chance(0.5) ? 1 : -1); };
    std::map<Pos, T> l, u;
    for (size_t i = 0; i < n; ++i) {
        u[{i, i}] = (T)((2 << r.below(2)) * (r.chance(0.3) ? -1 : 1));
        if (shape == 0 && i) { l[{i, i - 1}] = nz(); u[{i - 1, i}] = nz(); }
        if (shape == 1 && i + 1 < n) { l[{n - 1, i}] = nz(); u[{i, n - 1}] = nz(); }
        if (shape == 2) for (size_t j = i - i % 3; j < i; ++j) { l[{i, j}] = nz(); u[{j, i}] = nz() * T(j % 3 ? 2 : 1); }
    }
    if (shape == 1) { T t = u[{n - 1, n - 1}]; for (size_t i = 0; i + 1 < n; ++i) t += l[{n - 1, i}] * u[{i, n - 1}]; if (t == T(0)) u[{n - 1, n - 1}] *= T(2); }
    ExactSparse<T> e; e.x.resize(n); e.b.assign(n, T(0));
    for (auto& v : e.x) v = (T)r.range(-9, 9);
    auto add = [&](size_t i, size_t j, T v) { e.s[{i, j}] += v; };
    for (auto& [p, v] : u) add(p.first, p.second, v);
    for (auto& [p, v] : l) for (auto it = u.lower_bound({p.second, 0}); it != u.end() && it->first.first == p.second; ++it) add(p.first, it->first.second, v * it->second);
    for (auto& [p, v] : e.s) e.b[p.first] += v * e.x[p.second];
    return e;
}
struct RefIlu {   // unit lower and upper factor on the pattern
    size_t n = 0; std::vector<long double> f; std::vector<char> in;
    template<class T> RefIlu(const SpModel<T>& s, size_t n) : n(n), f(n * n, 0), in(n * n, 0) {
        for (auto& [p, v] : s) { f[p.first * n + p.second] = v; in[p.first * n + p.second] = v != T(0); }
        for (size_t i = 1; i < n; ++i) for (size_t k = 0; k < i; ++k) if (in[i * n + k]) {
            f[i * n + k] /= f[k * n + k];
            for (size_t j = k + 1; j < n; ++j) if (in[i * n + j]) f[i * n + j] -= f[i * n + k] * f[k * n + j];
        }
    }
    void solve(std::vector<long double>& b) const {
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) b[i] -= f[i * n + j] * b[j];
        for (size_t i = n; i-- > 0;) { for (size_t j = i + 1; j < n; ++j) b[i] -= f[i * n + j] * b[j]; b[i] /= f[i * n + i]; }
    }
};
}
