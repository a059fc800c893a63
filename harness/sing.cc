// P16: factorizations that do not exist are reported.
#include "spd.hpp"
#include "cplxchol.hpp"
#include "sparse.hpp"
using namespace vp;
using lalib::DynVec; using lalib::DynMat; using lalib::SizedMat; using lalib::DynHermiteMat; using lalib::SpMat; using lalib::SpCooMat;
using lalib::solver::DynTriCholeskyFactorization; using lalib::solver::DynCholeskyFactorization; using lalib::solver::DynModCholeskyFactorization; using lalib::solver::Ilu;

// 0: succeeded, 1: runtime_error, other: something else
template<class F> int try_it(F&& f) { return outcome<std::runtime_error>(f); }

// An exact change of units by a power of two.
template<class T> void units(Rng& r, Mat<T>& a) {
    if (!r.chance(0.3)) return;
    int lim = sizeof(T) == 8 ? 200 : 40, e = r.chance(0.4) ? (r.chance(0.7) ? -lim : lim) : (int)r.range(-lim, lim);
    for (auto& v : a.a) scale2(v, e & ~1);
}
// Symmetric matrix whose first k pivots are powers of four and whose pivot k is exactly p (all arithmetic is exact).
template<class T> Mat<T> chol_pivot(Rng& r, size_t n, size_t k, T p) {
    Mat<T> l(n, n), a(n, n);
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) l(i, j) = (T)r.range(-1, 1); l(i, i) = (T)(1 << r.below(2)); }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) {
        T v = 0; for (size_t q = 0; q <= j; ++q) v += l(i, q) * l(j, q);
        if (i == k && j == k) v += p - l(k, k) * l(k, k);
        a(i, j) = a(j, i) = v;
    }
    units(r, a);
    return a;
}
template<class T> void chol_case(Ctx& c, size_t n, size_t k, T p) {
    auto& r = c.rng;
    auto a = chol_pivot<T>(r, n, k, p);
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), hv(a.a, n * 1000 + k), true, "n=%zu pivot %zu is %g A=%s", n, k, (double)p, show(a.a.data(), n * n, 9).c_str()); };
    begin("tri-cholesky"); { int o = try_it([&] { DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(n, packed_lower(a))); }); c.want(o == 1, "not-reported", "pivot %zu of %zu is %g: outcome %d", k, n, (double)p, o); }
    begin("cholesky"); { int o = try_it([&] { DynCholeskyFactorization<T> f(DynMat<T>(n, n, full(r, a, r.chance(0.3)))); }); c.want(o == 1, "not-reported", "pivot %zu of %zu is %g: outcome %d", k, n, (double)p, o); }
    c.count(p == 0 ? "zero_pivots" : "negative_pivots");
}
template<class T> void mod_case(Ctx& c, size_t n, size_t k) {
    auto& r = c.rng;
    auto build = [&](bool zero) {
        Mat<T> u(n, n), a(n, n); std::vector<T> d(n);
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) u(i, j) = (T)r.range(-1, 1); u(i, i) = 1; d[i] = (T)(1 << r.below(2)) * (r.chance(0.5) ? T(1) : T(-1)); }
        if (zero) d[k] = 0;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { T v = 0; for (size_t q = 0; q <= j; ++q) v += u(i, q) * d[q] * u(j, q); a(i, j) = a(j, i) = v; }
        units(r, a);
        return a;
    };
    auto bad = build(true), good = build(false);
    c.begin(cat("mod-cholesky", tname<T>()), hv(bad.a, n * 1000 + k), true, "n=%zu pivot %zu is 0 A=%s", n, k, show(bad.a.data(), n * n, 9).c_str());
    int o = try_it([&] { DynModCholeskyFactorization<T> f(DynMat<T>(n, n, full(r, bad, r.chance(0.3)))); });
    c.want(o == 1, "not-reported", "pivot %zu of %zu is zero: outcome %d", k, n, o);
    c.begin(cat("mod-cholesky-regular", tname<T>()), hv(good.a, n), true, "n=%zu A=%s", n, show(good.a.data(), n * n, 9).c_str());
    o = try_it([&] { DynModCholeskyFactorization<T> f(DynMat<T>(n, n, full(r, good, r.chance(0.3)))); });
    c.want(o == 0, "false-report", "all pivots are +-1 or +-2: outcome %d", o);
}
// A = Lu U with integer factors, power-of-two pivots, and pivot k zero.
template<class T> void ilu_case(Ctx& c, size_t n, size_t k) {
    auto& r = c.rng;
    auto build = [&](bool zero) {
        Mat<T> l(n, n), u(n, n), a(n, n);
        // entries chosen so that no other element of A vanishes: the pattern stays full and the elimination exact
        for (int tries = 0;; ++tries) {
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { l(i, j) = i > j ? (T)r.range(-2, 2) : i == j ? T(1) : T(0); u(i, j) = i < j ? (T)r.range(-3, 3) : i == j ? (T)(1 << r.below(2)) * (r.chance(0.5) ? T(1) : T(-1)) : T(0); }
            if (zero) u(k, k) = 0;
            bool full = true;
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { T v = 0; for (size_t q = 0; q <= std::min(i, j); ++q) v += l(i, q) * u(q, j); a(i, j) = v; full = full && (v != 0); }
            if (n == 1 && zero) break;
            if (full || tries > 3000) break;
        }
        units(r, a);
        return a;
    };
    auto run1 = [&](const Mat<T>& a, bool bad) {
        SpModel<T> s; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (a(i, j) != 0) s[{i, j}] = a(i, j);
        bool fullp = s.size() == n * n;
        if (!fullp && !(bad && n == 1)) return;
        auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), hv(a.a, n * 1000 + k), true, "n=%zu %s pivot %zu A=%s", n, bad ? "zero" : "regular", k, show(a.a.data(), n * n, 9).c_str()); };
        const char* kind = bad ? "not-reported" : "false-report"; int want = bad ? 1 : 0;
        begin(bad ? "ilu-dense" : "ilu-dense-regular"); { int o = try_it([&] { Ilu<T, DynMat<T>> f(DynMat<T>(n, n, a.a)); }); c.want(o == want, kind, "pivot %zu of %zu: outcome %d", k, n, o); }
        if (s.size()) {
            begin(bad ? "ilu-csr" : "ilu-csr-regular"); { int o = try_it([&] { Ilu<T, SpMat<T>> f(csr_of(s, n)); }); c.want(o == want, kind, "pivot %zu of %zu: outcome %d", k, n, o); }
            begin(bad ? "ilu-coo" : "ilu-coo-regular"); { int o = try_it([&] { Ilu<T, SpCooMat<T>> f(coo_of(r, s, 1)); }); c.want(o == want, kind, "pivot %zu of %zu: outcome %d", k, n, o); }
        }
    };
    run1(build(true), true); run1(build(false), false);
}
// Sparse, no diagonal entry in row k, nothing to its left: pivot k is zero whatever precedes it.
template<class T> void ilu_missing(Ctx& c, size_t n, size_t k) {
    auto& r = c.rng;
    SpModel<T> s;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        if (i == k && j <= k) continue;
        if (i == j) s[{i, j}] = (T)(1 << r.below(2));
        else if (r.chance(0.4)) s[{i, j}] = (T)r.range(1, 3);
    }
    if (r.chance(0.3)) { int e = sizeof(T) == 8 ? -180 : -60; for (auto& [p, v] : s) scale2(v, e); }
    if (s.rows() < n || s.cols() < n) { if (k + 1 == n && n > 1) { s[{0, n - 1}] = T(1); } else return; }
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), hsp(s, n * 1000 + k), true, "n=%zu no diagonal entry in row %zu %s", n, k, show_sp(s).c_str()); };
    begin("ilu-csr-missing"); { int o = try_it([&] { Ilu<T, SpMat<T>> f(csr_of(s, n)); }); c.want(o == 1, "not-reported", "row %zu of %zu has no pivot: outcome %d", k, n, o); }
    begin("ilu-dense-missing"); { int o = try_it([&] { auto d = dense_of(s, n, n); Ilu<T, DynMat<T>> f(DynMat<T>(n, n, d.a)); }); c.want(o == 1, "not-reported", "row %zu of %zu has no pivot: outcome %d", k, n, o); }
}
template<class T> void regular(Ctx& c, size_t n, int kind) {
    auto& r = c.rng;
    auto s = gen_spd<T>(r, n, kind);
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), hv(s.a.a, n), true, "n=%zu %s A=%s", n, s.kind, show(s.a.a.data(), n * n, 9).c_str()); };
    begin("tri-cholesky-regular"); { int o = try_it([&] { DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(n, packed_lower(s.a))); }); c.want(o == 0, "false-report", "positive definite matrix: outcome %d", o); }
    begin("cholesky-regular"); { int o = try_it([&] { DynCholeskyFactorization<T> f(DynMat<T>(n, n, s.a.a)); }); c.want(o == 0, "false-report", "positive definite matrix: outcome %d", o); }
    begin("mod-cholesky-regular"); { int o = try_it([&] { DynModCholeskyFactorization<T> f(DynMat<T>(n, n, s.a.a)); }); c.want(o == 0, "false-report", "positive definite matrix: outcome %d", o); }
    if (kind == 0 || kind == 3 || kind == 4 || kind == 6) { begin("ilu-regular"); int o = try_it([&] { Ilu<T, DynMat<T>> f(DynMat<T>(n, n, s.a.a)); }); c.want(o == 0, "false-report", "positive definite matrix: outcome %d", o); }
}
template<class T> void run(Ctx& c, size_t reps) {
    auto& r = c.rng;
    static const double piv[] = {0, -1, -4, -3, 0, -0.5, -64};
    for (size_t n = 1; n <= 16; ++n) for (size_t k = 0; k < n; ++k) { chol_case<T>(c, n, k, T(0)); chol_case<T>(c, n, k, (T)piv[1 + r.below(6)]); mod_case<T>(c, std::min<size_t>(n, 9), k % std::min<size_t>(n, 9)); }
    for (size_t n : {33, 65, 90}) for (size_t k : {(size_t)0, n / 2, n - 1}) { chol_case<T>(c, n, k, T(0)); chol_case<T>(c, n, k, T(-1)); }
    for (size_t n = 1; n <= 6; ++n) for (size_t k = 0; k < n; ++k) for (size_t q = 0; q < c.n(4, 40); ++q) ilu_case<T>(c, n, k);
    for (size_t n = 2; n <= 12; ++n) for (size_t k = 0; k < n; ++k) ilu_missing<T>(c, n, k);
    for (size_t q = 0; q < reps; ++q) {
        size_t n = 1 + r.below(q % 6 == 0 ? 100 : 40), k = r.below(n);
        chol_case<T>(c, n, k, (T)piv[r.below(7)]);
        n = 1 + r.below(10); mod_case<T>(c, n, r.below(n));
        n = 2 + r.below(20); ilu_missing<T>(c, n, r.below(n));
        n = 1 + r.below(30); int kind = (int)r.below(7); if (kind == 1) n = std::min<size_t>(n, 12); regular<T>(c, n, kind);
    }
}
#ifdef LALIB_LAPACK_BACKEND
// A Hermitian matrix of Gaussian integers whose pivot k is exactly p; the others are powers of four.
template<class C> void herm_pivot(Ctx& c, size_t n, size_t k, int p) {
    auto& r = c.rng; using T = Real<C>;
    Mat<C> l(n, n), a(n, n);
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) l(i, j) = C((T)r.range(-1, 1), (T)r.range(-1, 1)); l(i, i) = C((T)(1 << r.below(2)), 0); }
    int e = r.chance(0.3) ? 2 * (int)r.range(-15, 15) : 0; bool junk = r.chance(0.3);
    for (int good = 0; good < 2; ++good) {
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) {
            C v = 0; for (size_t q = 0; q <= j; ++q) v += l(i, q) * std::conj(l(j, q));
            if (!good && i == k && j == k) v += C((T)p, 0) - l(k, k) * l(k, k);
            v = C(std::ldexp(v.real(), e), std::ldexp(v.imag(), e)); a(i, j) = v; a(j, i) = std::conj(v);
        }
        c.begin(cat(good ? "cholesky-regular" : "cholesky", tname<C>()), hv(a.a, n * 1000 + k), true, "n=%zu hermitian pivot %zu is %d A=%s", n, k, good ? 1 : p, show(a.a.data(), n * n, 9).c_str());
        int o = try_it([&] { DynCholeskyFactorization<C> f(DynMat<C>(n, n, full_herm(r, a, junk))); });
        c.want(o == !good, good ? "false-report" : "not-reported", "pivot %zu of %zu is %d: outcome %d", k, n, good ? 1 : p, o);
    }
    c.count("hermitian_pivots");
}
template<class C> void run_herm(Ctx& c, size_t reps) {
    auto& r = c.rng; static const int piv[] = {0, -1, 0, -4, -3};
    for (size_t n = 1; n <= 8; ++n) for (size_t k = 0; k < n; ++k) { herm_pivot<C>(c, n, k, 0); herm_pivot<C>(c, n, k, piv[r.below(5)]); }
    for (size_t q = 0; q < reps; ++q) { size_t n = 1 + r.below(q % 6 == 0 ? 90 : 30); herm_pivot<C>(c, n, r.below(n), piv[r.below(5)]); }
}
#endif
int main(int argc, char** argv) { return run_unit(argc, argv, "sing", [](Ctx& c) { run<double>(c, c.n(150, 4000)); run<float>(c, c.n(150, 4000));
#ifdef LALIB_LAPACK_BACKEND
    if (!c.log) { run_herm<std::complex<double>>(c, c.n(60, 1500)); run_herm<std::complex<float>>(c, c.n(60, 1500)); }
#endif
}); }
