// P17: incomplete LU factorization.
#include "ilupat.hpp"
#include "huge.hpp"
using namespace vp;
using lalib::DynVec; using lalib::DynMat; using lalib::SizedMat; using lalib::SpMat; using lalib::SpCooMat; using lalib::solver::Ilu;

template<class T, class Get> void check_factor(Ctx& c, const SpModel<T>& s, size_t n, bool exact, Get&& F) {
    size_t outside = 0, wrong = 0, bi = 0, bj = 0; long double worst = 0;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        if (!s.count({i, j})) { if (!(F(i, j) == T(0))) { ++outside; bi = i; bj = j; } continue; }
        long double v = 0, m = 0;
        for (size_t k = 0; k < std::min(i, j); ++k) { v += (long double)F(i, k) * F(k, j); m += mag(F(i, k)) * mag(F(k, j)); }
        long double last = i <= j ? (long double)F(i, j) : (long double)F(i, j) * F(j, j);
        v += last; m += fabsl(last) + mag(s.get(i, j));
        long double e = fabsl(v - s.get(i, j)), b = exact ? 0 : (long double)(n + 6) * eps<T>() * m + tiny<T>();
        if (!(e <= b)) { ++wrong; bi = i; bj = j; worst = e; }
    }
    c.observations += n * n;
    c.want(!outside, "pattern", "the factorization is not zero at (%zu, %zu), outside the pattern (%zu such)", bi, bj, outside);
    c.want(!wrong, "factor", "the product of the factors differs from the matrix at (%zu, %zu) by %.3Lg (%zu such)", bi, bj, worst, wrong);
}
template<class T, class Get, class V> void check_solve(Ctx& c, const SpModel<T>& s, size_t n, bool full, const std::vector<T>& b, const V& x, Get&& F, const std::vector<T>* xe) {
    c.want(x.size() == n, "size", "solution has %zu elements, expected %zu", (size_t)x.size(), n);
    if (x.size() != n) return;
    if (xe) { std::vector<Ref<T>> ref(xe->begin(), xe->end()); c.values<T>("exact-solution", x.data(), n, ref.data(), nullptr); return; }
    std::vector<long double> u(n), um(n), ax(n);
    for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) { u[i] += (long double)F(i, j) * x[j]; um[i] += mag(F(i, j)) * mag(x[j]); }
    for (auto& [p, v] : s) ax[p.first] += (long double)v * x[p.second];
    bool ok = true, ok2 = true; size_t bi = 0; long double worst = 0;
    for (size_t i = 0; i < n; ++i) {
        long double v = u[i], m = um[i];
        for (size_t j = 0; j < i; ++j) { v += (long double)F(i, j) * u[j]; m += mag(F(i, j)) * um[j]; }
        long double bound = (long double)(3 * n + 12) * eps<T>() * (m + mag(b[i])) + tiny<T>();
        if (!(fabsl(v - b[i]) <= bound)) { ok = false; bi = i; worst = fabsl(v - b[i]); }
        if (full && !(fabsl(ax[i] - b[i]) <= 2 * bound)) { ok2 = false; bi = i; worst = fabsl(ax[i] - b[i]); }
    }
    c.observations += n;
    c.want(ok, "solve", "L U x differs from the right-hand side in row %zu by %.3Lg", bi, worst);
    c.want(ok2, "solve-exact-pattern", "A x differs from the right-hand side in row %zu by %.3Lg although there is no fill-in", bi, worst);
}
template<class T> std::vector<T> rhs(Rng& r, size_t n) { int k = (int)r.below(4); return gen_vec<T>(r, k == 0 ? D_INT : k == 1 ? D_SPARSE : D_REAL, n); }

template<class T, class M> void one(Ctx& c, const char* name, M m, const SpModel<T>& s, size_t n, int pat, bool full, bool exact, const std::vector<T>* xe, const std::vector<T>& b) {
    auto begin = [&](const char* op) { c.begin(cat(cat(name, op).c_str(), tname<T>()), hsp(s, hv(b)), n > 1 || any_nonzero(b), "n=%zu pattern=%s nnz=%zu A=%s b=%s", n, pat < 0 ? "exact" : pat_name(pat), s.size(), show_sp(s).c_str(), show(b.data(), n).c_str()); };
    begin("factor");
    Ilu<T, M> f(std::move(m));
    const M& F = f.mat();
    auto get = [&](size_t i, size_t j) -> T { return F(i, j); };
    c.want(F.shape().first == n && F.shape().second == n, "shape", "the factorization has another shape");
    if constexpr (requires { F.nnz(); }) c.want(F.nnz() == s.size(), "nnz", "the factorization stores %zu entries, the matrix %zu", (size_t)F.nnz(), s.size());
    check_factor<T>(c, s, n, exact, get);
    std::vector<T> fb; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) fb.push_back(get(i, j));
    begin("solve");
    const DynVec<T> v(b);
    auto x = f.solve(v);
    check_solve<T>(c, s, n, full, b, x, get, xe);
    c.same("rhs", v.data(), b.data(), n);
    std::vector<T> fa; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) fa.push_back(get(i, j));
    c.same("factors", fa.data(), fb.data(), fa.size());
}
template<class T> void dom_case(Ctx& c, size_t n, int pat) {
    auto& r = c.rng;
    auto s = gen_dom<T>(r, n, pat, 1.02 + r.unit());
    rescale(r, s);
    auto b = rhs<T>(r, n);
    bool full = no_fill(pat);
    one<T>(c, "csr", csr_of(s, n), s, n, pat, full, false, nullptr, b);
    if (n <= 24) one<T>(c, "coo", coo_of(r, s, (int)r.below(4)), s, n, pat, full, false, nullptr, b);
    one<T>(c, "dense", DynMat<T>(n, n, dense_of(s, n, n).a), s, n, pat, full, false, nullptr, b);
    auto sized = [&]<size_t N>() { if (n == N) one<T>(c, "sized", SizedMat<T, N, N>(dense_of(s, n, n).a), s, n, pat, full, false, nullptr, b); };
    sized.template operator()<1>(); sized.template operator()<3>(); sized.template operator()<4>(); sized.template operator()<8>();
}
template<class T> void exact_case(Ctx& c, size_t n) {   // integer factors, power-of-two pivots, full pattern
    auto& r = c.rng;
    Mat<T> l(n, n), u(n, n), a(n, n); SpModel<T> s;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { l(i, j) = i > j ? (T)r.range(-2, 2) : i == j ? T(1) : T(0); u(i, j) = i < j ? (T)r.range(-2, 2) : i == j ? (T)(1 << r.below(3)) : T(0); }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { T v = 0; for (size_t q = 0; q <= std::min(i, j); ++q) v += l(i, q) * u(q, j); a(i, j) = v; if (v == 0) return; s[{i, j}] = v; }
    std::vector<T> x(n), b(n, T(0));
    for (auto& v : x) v = (T)r.range(-9, 9);
    for (auto& [p, v] : s) b[p.first] += v * x[p.second];
    one<T>(c, "dense-exact", DynMat<T>(n, n, a.a), s, n, -1, true, true, &x, b);
    one<T>(c, "csr-exact", csr_of(s, n), s, n, -1, true, true, &x, b);
}
template<class T> void long_case(Ctx& c, size_t n, int shape) {
    auto e = exact_sparse<T>(c.rng, n, shape); auto& s = e.s;
    auto go = [&](const char* name, auto m) {
        using M = decltype(m);
        c.begin(cat(name, tname<T>()), hsp(s, hv(e.b)), true, "long n=%zu shape=%d nnz=%zu A=%s b=%s", n, shape, s.size(), show_sp(s).c_str(), show(e.b.data(), n).c_str());
        const M before(m);
        Ilu<T, M> f(std::move(m)); const DynVec<T> b(e.b);
        auto x = f.solve(b);
        c.want(x.size() == n, "size", "solution has %zu elements, expected %zu", (size_t)x.size(), n);
        if (x.size() == n) c.same("exact-solution", x.data(), e.x.data(), n);
        const M& F = f.mat(); size_t bad = 0, bi = 0, bj = 0;
        c.want(F.shape().first == n && F.shape().second == n, "shape", "the factorization has another shape");
        size_t q = 0;
        for (auto& [p, v] : s) {   // the product of the factors, from the elements they store
            if (q++ % 7 && p.first + 3 < n) continue;
            T t = p.first <= p.second ? F(p.first, p.second) : F(p.first, p.second) * F(p.second, p.second);
            for (auto it = s.lower_bound({p.first, 0}); it != s.end() && it->first.first == p.first && it->first.second < std::min(p.first, p.second); ++it) if (s.count({it->first.second, p.second})) t += F(p.first, it->first.second) * F(it->first.second, p.second);
            if (t != v && !bad++) { bi = p.first; bj = p.second; }
        }
        c.observations += s.size() / 7;
        c.want(!bad, "factor", "the product of the factors differs from the matrix at (%zu, %zu) (%zu such)", bi, bj, bad);
        c.same("rhs", b.data(), e.b.data(), n);
    };
    go("csr-long", csr_of(s, n));
    if (n < 200) go("coo-long", coo_of(c.rng, s, 1));
    if (n < 800) go("dense-long", DynMat<T>(n, n, dense_of(s, n, n).a));
}
template<class T> void run(Ctx& c, size_t reps) {
    if (roomy(c)) for (int shape = 0; shape < 3; ++shape) { long_case<T>(c, 100 + c.rng.below(100), shape); long_case<T>(c, 300 + c.rng.below(shape == 1 ? 200 : 500), shape); if (shape != 1) long_case<T>(c, 1030 + c.rng.below(300), shape); if (c.thorough && shape != 1) long_case<T>(c, 1400 + c.rng.below(1500), shape); }
    auto& r = c.rng;
    for (int pat = 0; pat < PATTERNS; ++pat) for (size_t n = 1; n <= 10; ++n) dom_case<T>(c, n, pat);
    for (size_t q = 0; q < reps; ++q) dom_case<T>(c, 1 + r.below(q % 10 == 0 ? 60 : 25), (int)r.below(PATTERNS));
    for (size_t q = 0; q < 8 * reps; ++q) exact_case<T>(c, 1 + r.below(6));
    dom_case<T>(c, 100, 7); dom_case<T>(c, 120 + r.below(60), 1); dom_case<T>(c, 70 + r.below(60), (int)r.below(PATTERNS));
}
int main(int argc, char** argv) { return run_unit(argc, argv, "ilu", [](Ctx& c) { run<double>(c, c.n(80, 1500)); run<float>(c, c.n(80, 1500)); }); }
