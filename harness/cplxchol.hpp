// Cholesky factorizations of Hermitian matrices with complex elements (available with the LAPACK back end).
#pragma once
#include "spd.hpp"
namespace vp {
template<class C> struct Herm { size_t n; Mat<C> a; bool exact; Mat<C> l; const char* kind; };
// kind 0: G G* + c I, 1: exact Gaussian integers, 2: badly scaled, 3: banded and dominant, 4: diagonal
template<class C> Herm<C> gen_herm(Rng& r, size_t n, int kind) {
    using T = Real<C>;
    static const char* names[] = {"gram", "exact", "scaled", "banded", "diagonal"};
    Herm<C> s{n, Mat<C>(n, n), kind == 1, Mat<C>(n, n), names[kind]};
    auto set = [&](size_t i, size_t j, C v) { s.a(i, j) = v; s.a(j, i) = std::conj(v); };
    if (kind == 1) {
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) s.l(i, j) = C((T)r.range(-2, 2), (T)r.range(-2, 2)); s.l(i, i) = C((T)(1 << r.below(2)), 0); }
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { C v = 0; for (size_t k = 0; k <= j; ++k) v += s.l(i, k) * std::conj(s.l(j, k)); set(i, j, v); }
    } else if (kind == 3) {
        for (size_t i = 0; i < n; ++i) for (size_t j = i > 2 ? i - 2 : 0; j < i; ++j) set(i, j, C((T)(2 * r.unit() - 1), (T)(2 * r.unit() - 1)));
        for (size_t i = 0; i < n; ++i) { T t = T(0.3); for (size_t j = 0; j < n; ++j) if (j != i) t += std::abs(s.a(i, j)); s.a(i, i) = C(t, 0); }
    } else if (kind == 4) { for (size_t i = 0; i < n; ++i) s.a(i, i) = C((T)(0.1 + 3 * r.unit()), 0); }
    else {
        std::vector<std::complex<double>> g(n * n); for (auto& v : g) v = {2 * r.unit() - 1, 2 * r.unit() - 1};
        std::vector<double> d(n, 1.0); if (kind == 2) for (auto& v : d) v = std::ldexp(1.0, (int)r.range(-6, 6));
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) {
            std::complex<double> v = i == j ? 0.5 : 0.0; for (size_t k = 0; k < n; ++k) v += g[i * n + k] * std::conj(g[j * n + k]) / (double)n;
            v *= d[i] * d[j]; set(i, j, i == j ? C((T)v.real(), 0) : C((T)v.real(), (T)v.imag()));
        }
    }
    if (r.chance(0.25)) {   // an exact change of units
        int lim = sizeof(T) == 8 ? 100 : 10, e = (int)r.range(-lim, lim);
        auto up2 = [](C v, int q) { return C(std::ldexp(v.real(), q), std::ldexp(v.imag(), q)); };
        for (auto& v : s.a.a) v = up2(v, 2 * e);
        for (auto& v : s.l.a) v = up2(v, e);
    }
    return s;
}
template<class C> std::vector<C> full_herm(Rng& r, const Mat<C>& a, bool junk) {
    auto v = a.a; using T = Real<C>;
    if (junk) for (size_t i = 0; i < a.n; ++i) for (size_t j = i + 1; j < a.n; ++j) v[i * a.n + j] = C((T)r.range(-50, 50), (T)r.range(-50, 50));
    return v;
}
}
