// P18: GMRES.
#include "ilupat.hpp"
#include "huge.hpp"
using namespace vp;
using lalib::DynVec; using lalib::DynMat; using lalib::SpMat; using lalib::solver::Gmres;

template<class T, class M> void one(Ctx& c, const char* name, M m, const SpModel<T>& s, size_t n, int pat, const RefIlu& ilu, std::vector<T> b, double rel, const char* rk, long double cond = 1) {
    std::vector<long double> p(b.begin(), b.end()); ilu.solve(p);
    long double pn = 0; for (auto v : p) pn += v * v; pn = sqrtl(pn);
    const int lim = sizeof(T) == 8 ? 450 : 45;   // the square of the norm stays in the range of the type
    if (int e = pn > 0 ? std::ilogb(pn) : 0; std::abs(e) > lim) { int d = e > 0 ? lim - e : -lim - e; for (auto& v : b) v = std::ldexp(v, d); pn = std::ldexp(pn, d); }
    T tol = (T)(rel * (pn > 0 ? (double)pn : 1.0));
    c.begin(cat(name, tname<T>()), hsp(s, hv(b, hs(tol))), any_nonzero(b), "n=%zu pattern=%s nnz=%zu rhs=%s tol=%.3g A=%s b=%s", n, pat_name(pat), s.size(), rk, (double)tol, show_sp(s).c_str(), show(b.data(), n).c_str());
    const Gmres<T, M> solver(std::move(m), tol);
    const DynVec<T> v(b);
    auto x = solver.solve(v);
    c.want(x.size() == n, "size", "solution has %zu elements, expected %zu", (size_t)x.size(), n);
    if (x.size() != n) return;
    bool fin = true; for (auto e : x) fin = fin && std::isfinite(e);
    c.want(fin, "finite", "the solution is not finite");
    c.same("rhs", v.data(), b.data(), n);
    if (!any_nonzero(b)) { std::vector<T> z(n, T(0)); c.same("zero", x.data(), z.data(), n); return; }
    std::vector<long double> res(b.begin(), b.end());
    for (auto& [q, a] : s) res[q.first] -= (long double)a * x[q.second];
    ilu.solve(res);
    long double rn = 0; for (auto e : res) rn += e * e; rn = sqrtl(rn);
    long double slack = (long double)(200 + 20 * n) * eps<T>() * pn * cond;
    c.want(fin && rn <= 1.02L * tol + slack, "residual", "preconditioned residual %.3Lg, tolerance %.3Lg, rounding %.3Lg", rn, (long double)tol, slack);
    if (fin && rn > 1.02L * tol) { auto& w = c.counters["worst_rounding_permille_of_slack"]; w = std::max<uint64_t>(w, (uint64_t)(1000 * (rn - 1.02L * tol) / slack)); c.count("cases_at_rounding_level"); }
}
template<class T> void sys_case(Ctx& c, size_t n, int pat) {
    auto& r = c.rng;
    auto s = gen_dom<T>(r, n, pat, r.chance(0.3) ? 1.05 : 1.2 + r.unit());
    rescale(r, s);
    RefIlu ilu(s, n);
    for (int q = 0; q < 3; ++q) {
        std::vector<T> b; const char* rk;
        switch (r.below(8)) {
            case 0: b.assign(n, T(0)); rk = "zero"; break;
            case 1: b.assign(n, T(0)); b[r.below(n)] = T(1); rk = "unit"; break;
            case 2: { b.assign(n, T(0)); auto x = gen_vec<T>(r, D_INT, n); for (auto& [p, v] : s) b[p.first] += v * x[p.second]; rk = "A*integers"; break; }
            case 3: { b.assign(n, T(0)); size_t j = r.below(n); for (auto& [p, v] : s) if (p.second == j) b[p.first] += v; rk = "column"; break; }
            case 4: { b = gen_vec<T>(r, D_REAL, n); T sc = (T)std::ldexp(1.0, (int)r.range(-20, 20)); for (auto& v : b) v *= sc; rk = "scaled"; break; }
            default: b = gen_vec<T>(r, D_REAL, n); rk = "random";
        }
        double lo = sizeof(T) == 8 ? -12 : -5;
        double rel = r.chance(0.12) ? (r.chance(0.5) ? 0 : 1e-30) : std::pow(10.0, lo + r.unit() * (-1 - lo));   // 0: as close as possible
        one<T>(c, "csr", csr_of(s, n), s, n, pat, ilu, b, rel, rk);
        if (r.chance(0.5)) one<T>(c, "dense", DynMat<T>(n, n, dense_of(s, n, n).a), s, n, pat, ilu, b, rel, rk);
    }
}
// A chain of n points numbered even ones first: nearly everything is fill-in, which the preconditioner drops, so that
// about 30 to n / 2 iterations are needed.
template<class T> void slow_case(Ctx& c, size_t n) {
    auto& r = c.rng; SpModel<T> s; T shift = (T)(0.03 + 0.05 * r.unit()), wind = (T)(0.3 * r.unit());
    auto no = [&](size_t i) { return i % 2 ? (n + 1) / 2 + i / 2 : i / 2; };
    for (size_t i = 0; i < n; ++i) {
        s[{no(i), no(i)}] = T(2) + shift;
        if (i) s[{no(i), no(i - 1)}] = T(-1) - wind;
        if (i + 1 < n) s[{no(i), no(i + 1)}] = T(-1) + wind;
    }
    rescale(r, s);
    RefIlu ilu(s, n);
    for (double rel : {0.5, 1e-2, sizeof(T) == 8 ? 1e-10 : 1e-4}) { auto b = gen_vec<T>(r, D_REAL, n); one<T>(c, "csr-slow", csr_of(s, n), s, n, 1, ilu, b, rel, "random"); }
}
// Systems that are not diagonally dominant: well-conditioned, but the preconditioner may be far from the inverse, and for some
// right-hand sides q^T B q = 0 (B the preconditioned matrix), so that the first step does not reduce the residual at all.
template<class T> bool hard_case(Ctx& c, size_t n) {
    auto& r = c.rng; SpModel<T> s; double p = 0.15 + 0.5 * r.unit(), off = 0.5 + 3.5 * r.unit();
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        if (i == j) s[{i, i}] = (T)((0.5 + 1.5 * r.unit()) * (r.chance(0.2) ? -1 : 1));
        else if (r.chance(p)) s[{i, j}] = (T)(off * (0.1 + 0.9 * r.unit()) * (r.chance(0.5) ? -1 : 1));
    }
    RefIlu ilu(s, n);
    using V = std::vector<long double>;
    auto fro = [](const std::vector<V>& m) { long double t = 0; for (auto& v : m) for (auto e : v) t += e * e; return sqrtl(t); };
    for (size_t i = 0; i < n; ++i) if (!(fabsl(ilu.f[i * n + i]) > 0.2L)) return false;
    // Columns of B, of its inverse, and the growth |(LU)^-1| |L| |U| |..| bounded by norms
    std::vector<V> B(n, V(n)), I(n, V(n)), W(n, V(n));
    for (size_t j = 0; j < n; ++j) { V a(n); for (auto& [q, v] : s) if (q.second == j) a[q.first] = v; ilu.solve(a); B[j] = a; V e(n); e[j] = 1; ilu.solve(e); W[j] = e; }
    {
        std::vector<V> m(n, V(2 * n)); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) m[i][j] = B[j][i]; m[i][n + i] = 1; }
        for (size_t k = 0; k < n; ++k) {
            size_t b = k; for (size_t i = k + 1; i < n; ++i) if (fabsl(m[i][k]) > fabsl(m[b][k])) b = i;
            std::swap(m[k], m[b]); if (!(fabsl(m[k][k]) > 1e-3L)) return false;
            long double d = m[k][k]; for (auto& v : m[k]) v /= d;
            for (size_t i = 0; i < n; ++i) if (i != k) { long double f = m[i][k]; for (size_t j = 0; j < 2 * n; ++j) m[i][j] -= f * m[k][j]; }
        }
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) I[j][i] = m[i][n + j];
    }
    long double L = 0, U = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) (j < i ? L : U) += ilu.f[i * n + j] * ilu.f[i * n + j];
    long double kb = fro(B) * fro(I), kw = fro(W) * sqrtl(L + n) * sqrtl(U);
    if (!(kb <= (sizeof(T) == 8 ? 200 : 40) && kw <= (sizeof(T) == 8 ? 1000 : 100))) return false;
    auto qBq = [&](const V& q) { long double t = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) t += q[i] * B[j][i] * q[j]; return t; };
    auto rhs = [&](const V& q) { V u(n), b(n); std::vector<T> o(n); for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) u[i] += ilu.f[i * n + j] * q[j]; for (size_t i = 0; i < n; ++i) { b[i] = u[i]; for (size_t j = 0; j < i; ++j) b[i] += ilu.f[i * n + j] * u[j]; o[i] = (T)b[i]; } return o; };
    V lo, hi; for (int k = 0; k < 400 && (lo.empty() || hi.empty()); ++k) { V q(n); for (auto& e : q) e = 2 * r.unit() - 1; (qBq(q) < 0 ? lo : hi) = q; }
    double rel = std::pow(10.0, sizeof(T) == 8 ? -6 + 4 * r.unit() : -2 + r.unit());
    auto go = [&](const std::vector<T>& b, const char* rk) {
        one<T>(c, "csr-hard", csr_of(s, n), s, n, 0, ilu, b, rel, rk, kb * kw);
        if (r.chance(0.4)) one<T>(c, "dense-hard", DynMat<T>(n, n, dense_of(s, n, n).a), s, n, 0, ilu, b, rel, rk, kb * kw);
    };
    if (!lo.empty() && !hi.empty()) {
        for (int k = 0; k < 100; ++k) { V m(n); for (size_t i = 0; i < n; ++i) m[i] = (lo[i] + hi[i]) / 2; (qBq(m) < 0 ? lo : hi) = m; }
        go(rhs(lo), "stagnating"); c.count("stagnating_systems");
    }
    go(gen_vec<T>(r, D_REAL, n), "random"); c.count("hard_systems");
    return true;
}
// Large systems without fill-in: the preconditioner is the inverse, and the preconditioned residual is the error.
template<class T> void long_case(Ctx& c, size_t n, int shape) {
    auto e = exact_sparse<T>(c.rng, n, shape); auto& s = e.s;
    long double xn = 0; for (auto v : e.x) xn += (long double)v * v; xn = sqrtl(xn);
    T tol = (T)((sizeof(T) == 8 ? 1e-9 : 1e-3) * (double)xn);
    c.begin(cat("csr-long", tname<T>()), hsp(s, hv(e.b)), true, "long n=%zu shape=%d nnz=%zu tol=%.3g A=%s b=%s", n, shape, s.size(), (double)tol, show_sp(s).c_str(), show(e.b.data(), n).c_str());
    const Gmres<T, SpMat<T>> solver(csr_of(s, n), tol); const DynVec<T> b(e.b);
    auto x = solver.solve(b);
    c.want(x.size() == n, "size", "solution has %zu elements, expected %zu", (size_t)x.size(), n);
    if (x.size() != n) return;
    long double d = 0; for (size_t i = 0; i < n; ++i) d += ((long double)x[i] - e.x[i]) * ((long double)x[i] - e.x[i]); d = sqrtl(d);
    c.want(d <= 1.02L * tol, "residual", "preconditioned residual %.3Lg, tolerance %.3Lg", d, (long double)tol);
    c.same("rhs", b.data(), e.b.data(), n);
}
template<class T> void run(Ctx& c, size_t reps) {
    if (roomy(c)) { for (int shape = 0; shape < 3; ++shape) { long_case<T>(c, 300 + c.rng.below(shape == 1 ? 200 : 700), shape); if (shape != 1) long_case<T>(c, 1030 + c.rng.below(300), shape); } slow_case<T>(c, 300 + c.rng.below(c.thorough ? 500 : 250)); }
    auto& r = c.rng;
    for (int pat = 0; pat < PATTERNS; ++pat) for (size_t n = 1; n <= 8; ++n) sys_case<T>(c, n, pat);
    for (size_t q = 0; q < reps; ++q) { int pat = (int)r.below(PATTERNS); if (r.chance(0.6)) { static const int fill[] = {0, 7, 8, 10, 11}; pat = r.pick(fill); } sys_case<T>(c, 1 + r.below(q % 10 == 0 ? 64 : 30), pat); }
    sys_case<T>(c, 100, 7); sys_case<T>(c, 70 + r.below(60), 0);
    for (size_t q = 0, k = 0; q < reps && k < 60 * reps; ++k) q += hard_case<T>(c, 2 + r.below(c.thorough ? 14 : 9));
    for (size_t q = 0; q < c.n(2, 20); ++q) slow_case<T>(c, 60 + r.below(120));
}
int main(int argc, char** argv) { return run_unit(argc, argv, "gmres", [](Ctx& c) { run<double>(c, c.n(100, 2500)); run<float>(c, c.n(100, 2500)); }); }
