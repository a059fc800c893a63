// P15: Cholesky and modified Cholesky factorizations and solves.
#include "cholcheck.hpp"
#include "huge.hpp"
#include "cplxchol.hpp"
using namespace vp;
using lalib::DynVec; using lalib::SizedVec; using lalib::DynMat; using lalib::SizedMat; using lalib::DynHermiteMat;
using lalib::solver::DynTriCholeskyFactorization; using lalib::solver::DynCholeskyFactorization; using lalib::solver::DynModCholeskyFactorization;

template<class T> uint64_t hsys(const Spd<T>& s, const Mat<T>& b) { return hv(s.a.a, hv(b.a, s.n * 31 + b.m)); }
template<class T> void begin(Ctx& c, const std::string& op, const Spd<T>& s, const Mat<T>& b) {
    c.begin(cat(op.c_str(), tname<T>()), hsys(s, b), any_nonzero(b.a), "n=%zu %s rhs=%zu A=%s b=%s", s.n, s.kind, b.m, show(s.a.a.data(), s.n * s.n, 9).c_str(), show(b.a.data(), b.a.size(), 6).c_str());
}
// All the ways to solve with one factorization.
template<class T, class F> void solves(Ctx& c, const std::string& name, const F& fac, const Spd<T>& s, const Fact<T>& f, size_t k) {
    auto& r = c.rng;
    size_t n = s.n;
    Mat<T> xe(n, k), b(n, k), x1(n, 1), b1(n, 1);
    auto rhs = [&](Mat<T>& x, Mat<T>& bb) {
        if (s.exact) {
            for (auto& v : x.a) v = (T)r.range(-9, 9);
            for (size_t i = 0; i < n; ++i) for (size_t q = 0; q < x.m; ++q) { T v = 0; for (size_t j = 0; j < n; ++j) v += s.a(i, j) * x(j, q); bb(i, q) = v; }
        } else { bool z = r.chance(0.05), ints = r.chance(0.3); for (auto& v : bb.a) v = z ? T(0) : ints ? (T)r.range(-9, 9) : (T)(2 * r.unit() - 1); }
    };
    rhs(xe, b); rhs(x1, b1);
    auto e = [&](const Mat<T>& m) { return s.exact ? &m : nullptr; };
    {
        const DynVec<T> v(b1.a);
        begin(c, name + ".vec", s, b1); auto x = fac.solve_linear(v);
        c.want(x.size() == n, "size", "solution has %zu elements", (size_t)x.size());
        if (x.size() == n) check_solution(c, s, f, b1, e(x1), [&](size_t i, size_t) { return x[i]; });
        c.same("rhs", v.data(), b1.a.data(), n);
        begin(c, name + ".vec-mut", s, b1); DynVec<T> w(b1.a); c.want(&fac.solve_linear_mut(w) == &w, "return", "wrong result operand");
        check_solution(c, s, f, b1, e(x1), [&](size_t i, size_t) { return w[i]; });
    }
    {
        const DynMat<T> v(n, k, b.a);
        begin(c, name + ".mat", s, b); auto x = fac.solve_linear(v);
        c.want(x.shape() == v.shape(), "shape", "wrong shape of the solution");
        if (x.shape() == v.shape()) check_solution(c, s, f, b, e(xe), [&](size_t i, size_t q) { return x(i, q); });
        c.same("rhs", v.data(), b.a.data(), n * k);
        begin(c, name + ".mat-mut", s, b); DynMat<T> w(n, k, b.a); c.want(&fac.solve_linear_mut(w) == &w, "return", "wrong result operand");
        check_solution(c, s, f, b, e(xe), [&](size_t i, size_t q) { return w(i, q); });
    }
    auto sized = [&]<size_t N, size_t K>() {
        if (n == N) {
            const Guarded<SizedVec<T, N>> v(b1.a); Guarded<SizedVec<T, N>> w(b1.a);
            begin(c, name + ".sized-vec", s, b1); auto x = fac.solve_linear(v.v); check_solution(c, s, f, b1, e(x1), [&](size_t i, size_t) { return x[i]; });
            begin(c, name + ".sized-vec-mut", s, b1); fac.solve_linear_mut(w.v); check_solution(c, s, f, b1, e(x1), [&](size_t i, size_t) { return w.v[i]; });
            c.same("rhs", v.v.data(), b1.a.data(), N); c.want(v.ok() && w.ok(), "stray-write", "bytes next to a vector overwritten");
        }
        if (n == N && k == K) {
            const Guarded<SizedMat<T, N, K>> v(b.a); Guarded<SizedMat<T, N, K>> w(b.a);
            begin(c, name + ".sized-mat", s, b); auto x = fac.solve_linear(v.v); check_solution(c, s, f, b, e(xe), [&](size_t i, size_t q) { return x(i, q); });
            begin(c, name + ".sized-mat-mut", s, b); fac.solve_linear_mut(w.v); check_solution(c, s, f, b, e(xe), [&](size_t i, size_t q) { return w.v(i, q); });
            c.same("rhs", v.v.data(), b.a.data(), N * K); c.want(v.ok() && w.ok(), "stray-write", "bytes next to a matrix overwritten");
        }
    };
    sized.template operator()<1, 1>(); sized.template operator()<2, 3>(); sized.template operator()<3, 2>(); sized.template operator()<3, 3>(); sized.template operator()<4, 5>(); sized.template operator()<5, 1>();
}
template<class T> void spd_case(Ctx& c, size_t n, size_t k, int kind) {
    auto& r = c.rng;
    auto s = gen_spd<T>(r, n, kind);
    Mat<T> none(n, 0);
    {
        begin(c, "tri-cholesky.factor", s, none);
        DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(n, packed_lower(s.a)));
        auto& L = f.lower_mat();
        c.want(L.shape().first == n && L.shape().second == n, "shape", "wrong shape of the factor");
        auto fc = check_factor(c, s, false, [&](size_t i, size_t j) { return L(i, j); });
        solves(c, "tri-cholesky", f, s, fc, k);
    }
    for (int junk = 0; junk < 2; ++junk) {
        begin(c, junk ? "cholesky-lower-only.factor" : "cholesky.factor", s, none);
        DynCholeskyFactorization<T> f(DynMat<T>(n, n, full(r, s.a, junk)));
        auto& L = f.factor_mat();
        c.want(L.shape().first == n && L.shape().second == n, "shape", "wrong shape of the factor");
        auto fc = check_factor(c, s, false, [&](size_t i, size_t j) { return L(i, j); });
        solves(c, junk ? "cholesky-lower-only" : "cholesky", f, s, fc, k);
    }
    if (kind != 1 && kind != 7) {
        begin(c, "mod-cholesky.factor", s, none);
        DynModCholeskyFactorization<T> f(DynMat<T>(n, n, full(r, s.a, r.chance(0.5))));
        auto& L = f.factor_mat();
        auto fc = check_factor(c, s, true, [&](size_t i, size_t j) { return L(i, j); });
        solves(c, "mod-cholesky", f, s, fc, k);
    }
}
template<class T> void ldl_case(Ctx& c, size_t n, size_t k, bool exact) {
    auto& r = c.rng;
    auto s = gen_ldl<T>(r, n, exact);
    Mat<T> none(n, 0);
    begin(c, "mod-cholesky-indefinite.factor", s, none);
    DynModCholeskyFactorization<T> f(DynMat<T>(n, n, full(r, s.a, r.chance(0.5))));
    auto& L = f.factor_mat();
    auto fc = check_factor(c, s, true, [&](size_t i, size_t j) { return L(i, j); });
    solves(c, "mod-cholesky-indefinite", f, s, fc, k);
}
template<class T> void run(Ctx& c, size_t reps) {
    auto& r = c.rng;
    for (size_t q = 0; q < c.n(2, 30); ++q) { spd_case<T>(c, 13 + r.below(60), 1 + r.below(7), 7); ldl_case<T>(c, 13 + r.below(60), 1 + r.below(7), true); }
    if (roomy(c)) { spd_case<T>(c, 257 + r.below(300), 2, 7); ldl_case<T>(c, 257 + r.below(300), 3, true); spd_case<T>(c, 90 + r.below(80), 600 + r.below(500), 7); spd_case<T>(c, 3, 66000 + r.below(5000), 1); ldl_case<T>(c, 2 + r.below(3), 66000 + r.below(5000), true);
        if (c.thorough) { spd_case<T>(c, 1030 + r.below(300), 2, 7); ldl_case<T>(c, 1030 + r.below(300), 1, true); for (int k = 0; k < 7; ++k) if (k != 1) spd_case<T>(c, 200 + r.below(60), 2, k); } }
    for (size_t n = 1; n <= 8; ++n) for (size_t k = 1; k <= 5; ++k) { spd_case<T>(c, n, k, (int)((n + k) % 7)); spd_case<T>(c, n, k, 1); ldl_case<T>(c, n, k, k % 2); }
    for (auto [n, k] : {std::pair<size_t, size_t>{1, 1}, {2, 3}, {3, 2}, {3, 3}, {4, 5}, {5, 1}}) for (int kind = 0; kind < 7; ++kind) spd_case<T>(c, n, k, kind);
    for (size_t q = 0; q < reps; ++q) {
        size_t n = 1 + r.below(q % 8 == 0 ? 60 : 18), k = 1 + r.below(7); int kind = (int)r.below(7);
        if (kind == 1) n = std::min<size_t>(n, 12);
        spd_case<T>(c, n, k, kind); ldl_case<T>(c, std::min<size_t>(n, 20), k, r.chance(0.4) && n <= 8);
    }
    spd_case<T>(c, 5, 40, 1); spd_case<T>(c, 12, 33 + r.below(40), 0); ldl_case<T>(c, 8, 50, true); spd_case<T>(c, 130, 2, (int)(r.below(2) ? 6 : 0)); spd_case<T>(c, 80, 3, 3); spd_case<T>(c, 100, 1, 6); spd_case<T>(c, 66, 70, 0);
}
#ifdef LALIB_LAPACK_BACKEND
// Hermitian matrices with complex elements.
template<class C> void herm_case(Ctx& c, size_t n, size_t k, int kind) {
    auto& r = c.rng; using T = Real<C>;
    auto s = gen_herm<C>(r, n, kind);
    Mat<C> xe(n, k), b(n, k);
    for (auto& v : xe.a) v = C((T)r.range(-9, 9), (T)r.range(-9, 9));
    if (s.exact) { for (size_t i = 0; i < n; ++i) for (size_t q = 0; q < k; ++q) { C v = 0; for (size_t j = 0; j < n; ++j) v += s.a(i, j) * xe(j, q); b(i, q) = v; } }
    else for (auto& v : b.a) v = C((T)(2 * r.unit() - 1), (T)(2 * r.unit() - 1));
    auto begin = [&](const char* op) { c.begin(cat(op, tname<C>()), hv(s.a.a, hv(b.a, n * 31 + k)), any_nonzero(b.a), "n=%zu %s hermitian rhs=%zu A=%s b=%s", n, s.kind, k, show(s.a.a.data(), n * n, 9).c_str(), show(b.a.data(), b.a.size(), 6).c_str()); };
    bool junk = r.chance(0.5);
    begin("cholesky.factor");
    DynCholeskyFactorization<C> f(DynMat<C>(n, n, full_herm(r, s.a, junk)));
    auto& L = f.factor_mat();
    c.want(L.shape().first == n && L.shape().second == n, "shape", "wrong shape of the factor");
    Mat<long double> m(n, n);   // |L| |L*|
    std::vector<C> got; std::vector<Ref<C>> ref; bool ok = true, real = true; size_t bi = 0, bj = 0; long double worst = 0;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) {
        got.push_back(L(i, j)); ref.push_back(up(s.l(i, j)));
        Ref<C> v = -up(s.a(i, j)); long double t = 0;
        for (size_t q = 0; q <= j; ++q) { v += rmul(up(L(i, q)), std::conj(up(L(j, q)))); t += mag(L(i, q)) * mag(L(j, q)); }
        m(i, j) = m(j, i) = t;
        if (i == j && !(L(i, i).real() > 0 && L(i, i).imag() == 0)) real = false;
        if (!(rmag(v) <= (long double)(4 * n + 24) * eps<C>() * (t + mag(s.a(i, j))) + tiny<C>())) { ok = false; bi = i; bj = j; worst = rmag(v); }
    }
    c.observations += n * n;
    if (s.exact) c.values<C>("exact-factor", got.data(), got.size(), ref.data(), nullptr);
    else c.want(ok, "factor", "the product of the factors differs from the matrix at (%zu, %zu) by %.3Lg", bi, bj, worst);
    c.want(real, "positive", "the factor has a diagonal element that is not real and positive");
    auto check = [&](size_t kk, auto&& x) {
        if (s.exact) {
            std::vector<C> g(n * kk); std::vector<Ref<C>> e(n * kk);
            for (size_t i = 0; i < n; ++i) for (size_t q = 0; q < kk; ++q) { g[i * kk + q] = x(i, q); e[i * kk + q] = up(xe(i, q)); }
            c.values<C>("exact-solution", g.data(), n * kk, e.data(), nullptr); return;
        }
        bool good = true; size_t wi = 0, wq = 0; long double w = 0;
        for (size_t i = 0; i < n; ++i) for (size_t q = 0; q < kk; ++q) {
            Ref<C> v = -up(b(i, q)); long double sc = mag(b(i, q));
            for (size_t j = 0; j < n; ++j) { v += rmul(up(s.a(i, j)), up(C(x(j, q)))); sc += (m(i, j) + mag(s.a(i, j))) * mag(C(x(j, q))); }
            if (!(rmag(v) <= (long double)(8 * n + 40) * eps<C>() * sc + tiny<C>())) { good = false; wi = i; wq = q; w = rmag(v); }
        }
        c.observations += n * kk;
        c.want(good, "residual", "row %zu of right-hand side %zu of %zu: residual %.3Lg", wi, wq, kk, w);
    };
    std::vector<C> b0(n); for (size_t i = 0; i < n; ++i) b0[i] = b(i, 0);
    const DynVec<C> v(b0); const DynMat<C> w(n, k, b.a);
    begin("cholesky.vec"); { auto x = f.solve_linear(v); c.want(x.size() == n, "size", "solution has %zu elements", (size_t)x.size()); if (x.size() == n) check(1, [&](size_t i, size_t) { return x[i]; }); c.same("rhs", v.data(), b0.data(), n); }
    begin("cholesky.vec-mut"); { DynVec<C> x(b0); c.want(&f.solve_linear_mut(x) == &x, "return", "wrong result operand"); check(1, [&](size_t i, size_t) { return x[i]; }); }
    begin("cholesky.mat"); { auto x = f.solve_linear(w); c.want(x.shape() == w.shape(), "shape", "wrong shape of the solution"); if (x.shape() == w.shape()) check(k, [&](size_t i, size_t q) { return x(i, q); }); c.same("rhs", w.data(), b.a.data(), n * k); }
    begin("cholesky.mat-mut"); { DynMat<C> x(n, k, b.a); c.want(&f.solve_linear_mut(x) == &x, "return", "wrong result operand"); check(k, [&](size_t i, size_t q) { return x(i, q); }); }
    c.count("hermitian_systems");
}
template<class C> void run_herm(Ctx& c, size_t reps) {
    auto& r = c.rng;
    for (size_t n = 1; n <= 7; ++n) for (int kind = 0; kind < 5; ++kind) herm_case<C>(c, n, 1 + r.below(6), kind);
    for (size_t q = 0; q < reps; ++q) { int kind = (int)r.below(5); herm_case<C>(c, 1 + r.below(kind == 1 ? 9 : q % 9 == 0 ? 70 : 20), 1 + r.below(q % 5 == 0 ? 40 : 7), kind); }
}
#endif
int main(int argc, char** argv) { return run_unit(argc, argv, "chol", [](Ctx& c) { run<double>(c, c.n(60, 1500)); run<float>(c, c.n(60, 1500));
#ifdef LALIB_LAPACK_BACKEND
    if (!c.log) { run_herm<std::complex<double>>(c, c.n(60, 1500)); run_herm<std::complex<float>>(c, c.n(60, 1500)); }
#endif
}); }
