// Tri-diagonal systems and the check of their solutions.
#pragma once
#include "lib.hpp"
#include "ref.hpp"
namespace vp {
enum { ROWDOM, COLDOM, LAPLACE, EXACT, DIAGONAL, SYS };
template<class T> struct Sys {
    size_t n, k; std::vector<T> dl, d, du, x; Mat<T> b; bool exact = false; int kind;
    Sys(Rng& r, size_t n, size_t k, int kind) : n(n), k(k), dl(n - 1), d(n), du(n - 1), b(n, k), kind(kind) {
        auto u = [&] { return (T)(2 * r.unit() - 1); };
        auto sgn = [&] { return r.chance(0.5) ? T(1) : T(-1); };
        if (kind == EXACT) {   // A = L U with power-of-two pivots and multipliers in {-1, 0, 1}: no rounding anywhere
            exact = true;
            std::vector<T> p(n); std::vector<long> l(n > 1 ? n - 1 : 0);
            for (auto& v : p) v = (T)(1 << r.below(3)) * sgn();
            for (auto& v : du) v = (T)r.range(-3, 3);
            for (auto& v : l) v = r.range(-1, 1);
            for (size_t i = 0; i < n; ++i) { d[i] = p[i] + (i ? (T)l[i - 1] * du[i - 1] : T(0)); if (i + 1 < n) dl[i] = (T)l[i] * p[i]; }
            x.resize(n * k); for (auto& v : x) v = (T)r.range(-9, 9);
            for (size_t i = 0; i < n; ++i) for (size_t c = 0; c < k; ++c) {
                T s = d[i] * x[i * k + c];
                if (i) s += dl[i - 1] * x[(i - 1) * k + c];
                if (i + 1 < n) s += du[i] * x[(i + 1) * k + c];
                b(i, c) = s;
            }
            rescale(r);
            return;
        }
        for (auto& v : dl) v = u(); for (auto& v : du) v = u();
        if (kind == LAPLACE) { std::fill(dl.begin(), dl.end(), T(-1)); std::fill(du.begin(), du.end(), T(-1)); }
        if (kind == DIAGONAL) { std::fill(dl.begin(), dl.end(), T(0)); std::fill(du.begin(), du.end(), T(0)); }
        for (size_t i = 0; i < n; ++i) {
            T row = (i ? std::abs(dl[i - 1]) : T(0)) + (i + 1 < n ? std::abs(du[i]) : T(0));
            T col = (i ? std::abs(du[i - 1]) : T(0)) + (i + 1 < n ? std::abs(dl[i]) : T(0));
            if (kind == LAPLACE) d[i] = T(2) + (T)(0.1 * r.unit());
            else if (kind == SYS) d[i] = std::max(row, col) + T(0.5);
            else d[i] = (kind == COLDOM ? col : row) * (T)(1.02 + r.unit()) * sgn() + (kind == DIAGONAL ? sgn() * (T)(0.5 + r.unit()) : sgn() * T(0.02));
            // a sign flip of the last term may cancel: keep it dominant
            T need = kind == COLDOM ? col : row;
            if (std::abs(d[i]) < need + T(0.01)) d[i] = std::copysign(need + T(0.02), d[i]);
        }
        bool zero = r.chance(0.05), ints = r.chance(0.3);
        for (auto& v : b.a) v = zero ? T(0) : ints ? (T)r.range(-9, 9) : u();
        rescale(r);
    }
    // An exact change of units: A by 2^ea, b by 2^(ea + ex), the solution by 2^ex.
    void rescale(Rng& r) {
        if (!r.chance(0.25)) return;
        const int lim = sizeof(T) == 8 ? 200 : 24; int ea = (int)r.range(-lim, lim), ex = (int)r.range(-lim, lim);
        for (auto* v : {&dl, &d, &du}) for (auto& e : *v) scale2(e, ea);
        for (auto& e : b.a) scale2(e, ea + ex);
        for (auto& e : x) scale2(e, ex);
    }
    uint64_t hash() const { return hv(dl, hv(d, hv(du, hv(b.a, k)))); }
};
template<class T, class Get> void check_tri(Ctx& c, const Sys<T>& s, Get&& x) {
    if (s.exact) {
        std::vector<T> got(s.n * s.k); std::vector<Ref<T>> ref(s.n * s.k);
        for (size_t i = 0; i < s.n; ++i) for (size_t k = 0; k < s.k; ++k) { got[i * s.k + k] = x(i, k); ref[i * s.k + k] = s.x[i * s.k + k]; }
        c.values<T>("exact-solution", got.data(), got.size(), ref.data(), nullptr);
        return;
    }
    long double an = 0;
    for (size_t i = 0; i < s.n; ++i) an = std::max<long double>(an, std::abs(s.d[i]) + (i ? std::abs(s.dl[i - 1]) : 0) + (i + 1 < s.n ? std::abs(s.du[i]) : 0));
    for (size_t k = 0; k < s.k; ++k) {
        long double xn = 0, bn = 0, worst = 0; size_t wi = 0; bool fin = true;
        for (size_t i = 0; i < s.n; ++i) { xn = std::max(xn, mag(x(i, k))); bn = std::max(bn, mag(s.b(i, k))); fin = fin && std::isfinite((double)x(i, k)); }
        for (size_t i = 0; i < s.n; ++i) {
            long double v = (long double)s.d[i] * x(i, k) - s.b(i, k);
            if (i) v += (long double)s.dl[i - 1] * x(i - 1, k);
            if (i + 1 < s.n) v += (long double)s.du[i] * x(i + 1, k);
            if (!(fabsl(v) <= worst)) { worst = fabsl(v); wi = i; }
        }
        long double bound = 8 * eps<T>() * (an * xn + bn);
        c.want(fin && worst <= bound, "residual", "right-hand side %zu of %zu, row %zu of %zu: residual %.3Lg, allowed %.3Lg", k, s.k, wi, s.n, worst, bound);
        if (bound > 0) { auto& m = c.counters["worst_residual_permille_of_bound"]; m = std::max<uint64_t>(m, (uint64_t)(1000 * worst / bound)); }
    }
}
inline const char* tri_kind(int k) { static const char* kn[] = {"row-dominant", "column-dominant", "laplace", "exact", "diagonal", "symmetric"}; return kn[k]; }
}
