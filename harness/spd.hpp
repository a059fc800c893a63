// Symmetric positive definite and indefinite test matrices, and the checks of their factorizations.
#pragma once
#include "lib.hpp"
#include "ref.hpp"
namespace vp {
template<class T> struct Spd {
    size_t n; Mat<T> a; bool exact = false; Mat<T> l;   // l: the exact factor when it is known
    const char* kind = "";
};
// An exact change of units: A by 4^e and its factor by 2^e (or, for L D, by 4^e).
template<class T> void rescale(Rng& r, Spd<T>& s, int kind) {
    if (kind == 4 && r.chance(0.4)) { int lim = sizeof(T) == 8 ? 200 : 20; for (size_t i = 0; i < s.n; ++i) scale2(s.a(i, i), (int)r.range(-lim, lim)); return; }   // diagonal: any magnitudes
    if (!r.chance(0.25)) return;
    int lim = sizeof(T) == 8 ? 100 : 10, e = (int)r.range(-lim, lim);
    for (auto& v : s.a.a) scale2(v, 2 * e);
    for (auto& v : s.l.a) scale2(v, kind < 0 ? 2 * e : e);
}
// kind 0: G G' + c I, 1: exact integer factor with power-of-two diagonal, 2: badly scaled D (G G' + I) D, 3: banded, 4: diagonal, 5: Hilbert-like smooth, 6: dominant with negative off-diagonals,
// 7: as 1 with a few entries per row, exact for any n
template<class T> Spd<T> gen_spd(Rng& r, size_t n, int kind) {
    Spd<T> s{n, Mat<T>(n, n), false, Mat<T>(n, n), ""};
    static const char* names[] = {"gram", "exact", "scaled", "banded", "diagonal", "kernel", "laplacian", "exact-sparse"};
    s.kind = names[kind];
    auto& a = s.a;
    auto sym = [&](size_t i, size_t j, T v) { a(i, j) = v; a(j, i) = v; };
    switch (kind) {
        case 1: {
            s.exact = true;
            for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) s.l(i, j) = (T)r.range(-2, 2); s.l(i, i) = (T)(1 << r.below(2)); }
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { T v = 0; for (size_t k = 0; k <= j; ++k) v += s.l(i, k) * s.l(j, k); sym(i, j, v); }
            break;
        }
        case 7: {
            s.exact = true;
            for (size_t i = 0; i < n; ++i) { for (int q = 0; i && q < 3; ++q) s.l(i, r.chance(0.4) ? i - 1 : r.below(i)) = (T)r.range(-2, 2); s.l(i, i) = (T)(1 << r.below(2)); }
            for (size_t i = 0; i < n; ++i) {
                std::vector<std::pair<size_t, T>> row; for (size_t k = 0; k <= i; ++k) if (s.l(i, k) != T(0)) row.emplace_back(k, s.l(i, k));
                for (size_t j = 0; j <= i; ++j) { T v = 0; for (auto& [k, x] : row) v += x * s.l(j, k); sym(i, j, v); }
            }
            break;
        }
        case 3: case 6: for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) sym(i, j, i - j <= 2 ? (T)(kind == 6 ? -r.unit() : 2 * r.unit() - 1) : T(0)); }
                for (size_t i = 0; i < n; ++i) { T t = T(0.3); for (size_t j = 0; j < n; ++j) if (j != i) t += std::abs(a(i, j)); a(i, i) = t; } break;
        case 4: for (size_t i = 0; i < n; ++i) a(i, i) = (T)(0.1 + 3 * r.unit()); break;
        case 5: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) sym(i, j, (T)std::exp(-0.7 * (double)(i - j)) + (i == j ? T(0.05) : T(0))); break;
        default: {
            Mat<double> g(n, n); for (auto& v : g.a) v = 2 * r.unit() - 1;
            std::vector<double> d(n, 1.0); if (kind == 2) for (auto& v : d) v = std::ldexp(1.0, (int)r.range(-6, 6));
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { double v = i == j ? 0.5 : 0; for (size_t k = 0; k < n; ++k) v += g(i, k) * g(j, k) / (double)n; sym(i, j, (T)(v * d[i] * d[j])); }
        }
    }
    rescale(r, s, kind);
    return s;
}
// Indefinite A = Lu D Lu' with unit lower Lu and |D| away from zero; l holds Lu D.
template<class T> Spd<T> gen_ldl(Rng& r, size_t n, bool exact) {
    Spd<T> s{n, Mat<T>(n, n), exact, Mat<T>(n, n), exact ? "ldl-exact" : "ldl"};
    std::vector<T> d(n); Mat<T> u(n, n);
    for (auto& v : d) { v = exact ? (T)(1 << r.below(3)) : (T)(0.5 + r.unit()); if (r.chance(0.5)) v = -v; }
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) u(i, j) = exact ? (n > 12 && !r.chance(3.0 / n) ? T(0) : (T)r.range(-1, 1)) : (T)((2 * r.unit() - 1) * std::min(1.0, 4.0 / n)); u(i, i) = 1; }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) {
        double v = 0; for (size_t k = 0; k <= j; ++k) v += (double)u(i, k) * (double)d[k] * (double)u(j, k);
        s.a(i, j) = s.a(j, i) = (T)v; s.l(i, j) = u(i, j) * d[j];
    }
    rescale(r, s, -1);
    return s;
}
template<class T> std::vector<T> packed_lower(const Mat<T>& a) { std::vector<T> p; for (size_t i = 0; i < a.n; ++i) for (size_t j = 0; j <= i; ++j) p.push_back(a(i, j)); return p; }
// The full matrix, with arbitrary values above the diagonal when `junk`.
template<class T> std::vector<T> full(Rng& r, const Mat<T>& a, bool junk) { auto v = a.a; if (junk) for (size_t i = 0; i < a.n; ++i) for (size_t j = i + 1; j < a.n; ++j) v[i * a.n + j] = (T)r.range(-50, 50); return v; }
}
