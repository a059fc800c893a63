// Checks of Cholesky factors and solutions.
#pragma once
#include "spd.hpp"
namespace vp {
// |L| |D^-1| |L'| row sums against |x|: the scale of the backward error.
template<class T> struct Fact {
    size_t n; bool mod; Mat<T> l;
    long double prod_mag(size_t i, size_t j) const {
        long double t = 0; for (size_t k = 0; k <= std::min(i, j); ++k) t += mag(l(i, k)) * mag(l(j, k)) / (mod ? mag(l(k, k)) : 1.0L); return t;
    }
    long double prod(size_t i, size_t j) const {
        long double t = 0; for (size_t k = 0; k <= std::min(i, j); ++k) t += (long double)l(i, k) * l(j, k) / (mod ? (long double)l(k, k) : 1.0L); return t;
    }
};
template<class T, class Get> Fact<T> check_factor(Ctx& c, const Spd<T>& s, bool mod, Get&& get) {
    Fact<T> f{s.n, mod, Mat<T>(s.n, s.n)};
    for (size_t i = 0; i < s.n; ++i) for (size_t j = 0; j <= i; ++j) f.l(i, j) = get(i, j);
    if (s.exact) {
        auto got = packed_lower(f.l), want = packed_lower(s.l);
        std::vector<Ref<T>> ref(want.begin(), want.end());
        c.values<T>("exact-factor", got.data(), got.size(), ref.data(), nullptr);
        return f;
    }
    bool ok = true; size_t bi = 0, bj = 0; long double worst = 0;
    for (size_t i = 0; i < s.n; ++i) for (size_t j = 0; j <= i; ++j) {
        long double e = fabsl(f.prod(i, j) - s.a(i, j)), b = (long double)(s.n + 6) * eps<T>() * (f.prod_mag(i, j) + mag(s.a(i, j))) + tiny<T>();
        if (!(e <= b)) { ok = false; bi = i; bj = j; worst = e; }
        auto& m = c.counters["worst_factor_permille_of_bound"]; if (e <= b) m = std::max<uint64_t>(m, (uint64_t)(1000 * e / b));
    }
    c.observations += s.n * s.n;
    c.want(ok, "factor", "the product of the factors differs from the matrix at (%zu, %zu) by %.3Lg", bi, bj, worst);
    if (!mod) { bool pos = true; for (size_t i = 0; i < s.n; ++i) pos = pos && f.l(i, i) > 0; c.want(pos, "positive", "the factor has a diagonal element that is not positive"); }
    return f;
}
template<class T, class Get> void check_solution(Ctx& c, const Spd<T>& s, const Fact<T>& f, const Mat<T>& b, const Mat<T>* xe, Get&& x) {
    size_t n = s.n, k = b.m;
    if (s.exact && xe) {
        std::vector<T> got(n * k); std::vector<Ref<T>> ref(n * k);
        for (size_t i = 0; i < n; ++i) for (size_t q = 0; q < k; ++q) { got[i * k + q] = x(i, q); ref[i * k + q] = (*xe)(i, q); }
        c.values<T>("exact-solution", got.data(), n * k, ref.data(), nullptr);
        return;
    }
    bool ok = true; size_t bi = 0, bq = 0; long double worst = 0;
    for (size_t i = 0; i < n; ++i) {
        std::vector<long double> t(n);
        for (size_t j = 0; j < n; ++j) t[j] = f.prod_mag(std::max(i, j), std::min(i, j)) + mag(s.a(i, j));
        for (size_t q = 0; q < k; ++q) {
            long double v = -(long double)b(i, q), sc = mag(b(i, q));
            for (size_t j = 0; j < n; ++j) { v += (long double)s.a(i, j) * x(j, q); sc += t[j] * mag(x(j, q)); }
            long double bound = (long double)(4 * n + 20) * eps<T>() * sc + tiny<T>();
            if (!(fabsl(v) <= bound)) { ok = false; bi = i; bq = q; worst = fabsl(v); }
            else { auto& m = c.counters["worst_residual_permille_of_bound"]; m = std::max<uint64_t>(m, (uint64_t)(1000 * fabsl(v) / bound)); }
        }
    }
    c.observations += n * k;
    c.want(ok, "residual", "row %zu of right-hand side %zu of %zu: residual %.3Lg", bi, bq, k, worst);
}
}
