// P25: histories of solves on the same solver objects, several of them alive at once, each compared with a solver built
// afresh for that call, with the oracle of the solver, and with the state before.
#include "trisys.hpp"
#include "cholcheck.hpp"
#include "ilupat.hpp"
using namespace vp;
using namespace lalib;
using namespace lalib::solver;

template<class T> void rhs_fill(Rng& r, std::vector<T>& b) {
    int k = (int)r.below(6);
    for (auto& v : b) v = k == 0 ? T(0) : k == 1 ? (T)r.range(-9, 9) : k == 2 ? (T)((2 * r.unit() - 1) * 1e4) : (T)(2 * r.unit() - 1);
    if (k == 3 && !b.empty()) { std::fill(b.begin(), b.end(), T(0)); b[r.below(b.size())] = T(1); }
}
template<class T> void fresh_same(Ctx& c, const T* x, const T* y, size_t n, long double rel) {
    long double m = 0, d = 0; for (size_t i = 0; i < n; ++i) { m = std::max(m, mag(y[i])); long double e = fabsl((long double)x[i] - y[i]); if (!(e <= d)) d = e; }
    c.want(d <= rel * m + tiny<T>(), "fresh", "differs by %.3Lg from the solution a fresh solver gives (allowed %.3Lg)", d, rel * m);
    c.observations += n;
    c.record<T>("solution", x, n, 10 * rel * m + tiny<T>());
}
template<class T> struct Item { std::string name; size_t uses = 0; virtual void step(Ctx&, const std::string& trail) = 0; virtual ~Item() = default; };

template<class T> constexpr long double REL = 2e3L * std::numeric_limits<T>::epsilon();

template<class T, class M> struct TriItem : Item<T> {
    Sys<T> s; M mat; std::unique_ptr<TriDiag<M>> solver;
    static M mk(const Sys<T>& s) {
        if constexpr (requires { M(s.dl, s.d, s.du); }) return M(s.dl, s.d, s.du);
        else { std::array<T, 5> d; std::array<T, 4> l, u; std::copy(s.d.begin(), s.d.end(), d.begin()); std::copy(s.dl.begin(), s.dl.end(), l.begin()); std::copy(s.du.begin(), s.du.end(), u.begin()); return M(l, d, u); }
    }
    TriItem(Ctx& c, size_t n, const char* nm) : s(c.rng, n, 1, c.rng.chance(0.5) ? SYS : ROWDOM), mat(mk(s)), solver(new TriDiag<M>(mat)) { this->name = nm; }
    void step(Ctx& c, const std::string& trail) override {
        auto& r = c.rng; size_t n = s.n;
        int form = (int)r.below(6); size_t k = form < 2 ? 1 : 1 + r.below(5); if (form >= 4) k = 1;
        static const char* fn[] = {"vec", "vec-in-place", "mat", "mat-in-place", "copy-vec", "sized-vec"};
        if (form == 5 && n != 5) form = 0;
        Sys<T> q = s; q.k = k; q.exact = false; q.b = Mat<T>(n, k); rhs_fill(r, q.b.a);
        c.begin(cat(cat("TriDiag", this->name.c_str()).c_str(), fn[form]), mix(q.hash() + this->uses), any_nonzero(q.b.a), "call %zu on this solver, n=%zu k=%zu %s; history %s", this->uses + 1, n, k, fn[form], trail.c_str());
        TriDiag<M> fresh(M(mk(s))); TriDiag<M> copy(*solver);
        TriDiag<M>& use = form == 4 ? copy : *solver;
        std::vector<T> got, ref;
        if (form == 2 || form == 3) {
            const DynMat<T> b(n, k, q.b.a); DynMat<T> x(n, k, form == 3 ? q.b.a : gen_vec<T>(r, D_INT, n * k)), y = DynMat<T>::filled(T(3), n, k);
            if (form == 3) use.solve_linear(x, x); else use.solve_linear(b, x);
            fresh.solve_linear(b, y); c.same("rhs", b.data(), q.b.a.data(), n * k);
            got.assign(x.begin(), x.end()); ref.assign(y.begin(), y.end());
        } else if (form == 5) {
            if (n == 5) { const SizedVec<T, 5> b(q.b.a); SizedVec<T, 5> x = SizedVec<T, 5>::filled(T(4)); use.solve_linear(b, x); c.same("rhs", b.data(), q.b.a.data(), n); got.assign(x.begin(), x.end());
                DynVec<T> y = DynVec<T>::filled(n, T(0)); fresh.solve_linear(DynVec<T>(q.b.a), y); ref.assign(y.begin(), y.end()); }
        } else {
            const DynVec<T> b(q.b.a); DynVec<T> x(form == 1 ? q.b.a : gen_vec<T>(r, D_INT, n)), y = DynVec<T>::filled(n, T(3));
            if (form == 1) use.solve_linear(x, x); else use.solve_linear(b, x);
            fresh.solve_linear(b, y); c.same("rhs", b.data(), q.b.a.data(), n);
            got.assign(x.begin(), x.end()); ref.assign(y.begin(), y.end());
        }
        ++this->uses;
        c.want(got.size() == n * k, "size", "the solution has %zu elements, expected %zu", got.size(), n * k);
        if (got.size() != n * k) return;
        check_tri(c, q, [&](size_t i, size_t j) { return got[i * k + j]; });
        fresh_same(c, got.data(), ref.data(), n * k, REL<T>);
        const M& cm = mat;
        c.same("matrix", cm.data_d(), s.d.data(), n);
        if (n > 1) { c.same("matrix", cm.data_dl(), s.dl.data(), n - 1); c.same("matrix", cm.data_du(), s.du.data(), n - 1); }
    }
};
template<class T, class S, class M> struct CholItem : Item<T> {
    Spd<T> s; std::unique_ptr<const S> solver; std::unique_ptr<S> other; Fact<T> f; std::vector<T> before; bool mod;
    M mk() const { if constexpr (std::is_same_v<M, DynHermiteMat<T>>) return M(s.n, packed_lower(s.a)); else return M(s.n, s.n, s.a.a); }
    std::vector<T> factor(const S& x) const {
        std::vector<T> v;
        if constexpr (requires { x.lower_mat(); }) { for (size_t i = 0; i < s.n; ++i) for (size_t j = 0; j <= i; ++j) v.push_back(x.lower_mat()(i, j)); }
        else for (size_t i = 0; i < s.n; ++i) for (size_t j = 0; j < s.n; ++j) v.push_back(x.factor_mat()(i, j));
        return v;
    }
    CholItem(Ctx& c, size_t n, const char* nm, bool mod) : s(gen_spd<T>(c.rng, n, c.rng.chance(0.5) ? 3 : 6)), f{n, mod, Mat<T>(n, n)}, mod(mod) {
        this->name = nm; s.exact = false;
        solver.reset(new S(mk())); before = factor(*solver);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { if constexpr (requires { solver->lower_mat(); }) f.l(i, j) = solver->lower_mat()(i, j); else f.l(i, j) = solver->factor_mat()(i, j); }
    }
    void step(Ctx& c, const std::string& trail) override {
        auto& r = c.rng; size_t n = s.n; int form = (int)r.below(7); size_t k = form == 2 || form == 3 ? 1 + r.below(5) : 1;
        static const char* fn[] = {"vec", "vec-mut", "mat", "mat-mut", "copy-vec", "failed-then-vec", "sized-vec"};
        if (form == 6 && n != 5) form = 1;
        Mat<T> b(n, k); rhs_fill(r, b.a);
        c.begin(cat(cat(this->name.c_str(), fn[form]).c_str(), tname<T>()), mix(hv(s.a.a, hv(b.a, k)) + this->uses), any_nonzero(b.a), "call %zu on this solver, n=%zu k=%zu; history %s", this->uses + 1, n, k, trail.c_str());
        const S fresh(mk()); std::vector<T> got, ref;
        if (form == 2 || form == 3) {
            const DynMat<T> v(n, k, b.a); auto y = fresh.solve_linear(v);
            if (form == 2) { auto x = solver->solve_linear(v); got.assign(x.begin(), x.end()); } else { DynMat<T> x(n, k, b.a); solver->solve_linear_mut(x); got.assign(x.begin(), x.end()); }
            ref.assign(y.begin(), y.end()); c.same("rhs", v.data(), b.a.data(), n * k);
        } else {
            const DynVec<T> v(b.a); auto y = fresh.solve_linear(v); ref.assign(y.begin(), y.end());
            if (form == 5) {   // a factorization that fails must leave the others as they are
                int o = outcome<std::runtime_error>([&] { auto a = s.a.a; a[(n - 1) * n + n - 1] = T(-1e3); if constexpr (std::is_same_v<M, DynHermiteMat<T>>) { Mat<T> w(n, n); w.a = a; S bad(M(n, packed_lower(w))); } else { S bad(M(n, n, a)); } });
                c.count("failed_factorizations_between", o == 1);
            }
            if (form == 1) { DynVec<T> x(b.a); solver->solve_linear_mut(x); got.assign(x.begin(), x.end()); }
            else if (form == 4) { S copy(*solver); auto x = copy.solve_linear(v); got.assign(x.begin(), x.end()); }
            else if (form == 6) { if (n == 5) { SizedVec<T, 5> x(b.a); if (r.chance(0.5)) solver->solve_linear_mut(x); else x = solver->solve_linear(x); got.assign(x.begin(), x.end()); } }
            else { auto x = solver->solve_linear(v); got.assign(x.begin(), x.end()); }
            c.same("rhs", v.data(), b.a.data(), n);
        }
        ++this->uses;
        c.want(got.size() == n * k, "size", "the solution has %zu elements, expected %zu", got.size(), n * k);
        if (got.size() != n * k) return;
        check_solution(c, s, f, b, (const Mat<T>*)nullptr, [&](size_t i, size_t j) { return got[i * k + j]; });
        fresh_same(c, got.data(), ref.data(), n * k, REL<T>);
        auto now = factor(*solver);
        c.same("factors", now.data(), before.data(), now.size());
    }
};
template<class T, class M> struct IluItem : Item<T> {
    size_t n; SpModel<T> s; RefIlu ref; std::unique_ptr<const Ilu<T, M>> solver; std::vector<T> before;
    static M mk(const SpModel<T>& s, size_t n) { if constexpr (std::is_same_v<M, SpMat<T>>) return csr_of(s, n); else return M(n, n, dense_of(s, n, n).a); }
    std::vector<T> factor() const { std::vector<T> v; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) v.push_back(solver->mat()(i, j)); return v; }
    IluItem(Ctx& c, size_t n, const char* nm) : n(n), s(gen_dom<T>(c.rng, n, (int)c.rng.below(PATTERNS), 1.6)), ref(s, n), solver(new Ilu<T, M>(mk(s, n))) { this->name = nm; before = factor(); }
    void step(Ctx& c, const std::string& trail) override {
        std::vector<T> b(n); rhs_fill(c.rng, b);
        c.begin(cat(cat("Ilu", this->name.c_str()).c_str(), tname<T>()), mix(hsp(s, hv(b)) + this->uses), any_nonzero(b), "call %zu on this solver, n=%zu; history %s", this->uses + 1, n, trail.c_str());
        const Ilu<T, M> fresh(mk(s, n)); const DynVec<T> v(b);
        auto x = c.rng.chance(0.2) ? Ilu<T, M>(*solver).solve(v) : solver->solve(v); auto y = fresh.solve(v);
        ++this->uses;
        c.want(x.size() == n, "size", "the solution has %zu elements", (size_t)x.size());
        if (x.size() != n || y.size() != n) return;
        std::vector<long double> e(b.begin(), b.end()); ref.solve(e); long double m = 0, d = 0;
        for (size_t i = 0; i < n; ++i) { m = std::max(m, fabsl(e[i])); long double t = fabsl(e[i] - x[i]); if (!(t <= d)) d = t; }
        c.want(d <= 4 * REL<T> * m + tiny<T>(), "oracle", "differs by %.3Lg from the exact application of the factors (allowed %.3Lg)", d, 4 * REL<T> * m);
        fresh_same(c, x.data(), y.data(), n, REL<T>);
        c.same("rhs", v.data(), b.data(), n);
        auto now = factor(); c.same("factors", now.data(), before.data(), now.size());
    }
};
template<class T, class M> struct GmresItem : Item<T> {
    size_t n; SpModel<T> s; RefIlu ilu; T tol; std::unique_ptr<const Gmres<T, M>> solver;
    GmresItem(Ctx& c, size_t n, const char* nm) : n(n), s(gen_dom<T>(c.rng, n, (int)c.rng.below(PATTERNS), 1.6)), ilu(s, n), tol(sizeof(T) == 8 ? (T)1e-8 : (T)1e-3), solver(new Gmres<T, M>(IluItem<T, M>::mk(s, n), tol)) { this->name = nm; }
    void step(Ctx& c, const std::string& trail) override {
        std::vector<T> b(n); rhs_fill(c.rng, b);
        c.begin(cat(cat("Gmres", this->name.c_str()).c_str(), tname<T>()), mix(hsp(s, hv(b)) + this->uses), any_nonzero(b), "call %zu on this solver, n=%zu; history %s", this->uses + 1, n, trail.c_str());
        const Gmres<T, M> fresh(IluItem<T, M>::mk(s, n), tol); const DynVec<T> v(b);
        auto x = c.rng.chance(0.2) ? Gmres<T, M>(*solver).solve(v) : solver->solve(v); auto y = fresh.solve(v);
        ++this->uses;
        c.want(x.size() == n, "size", "the solution has %zu elements", (size_t)x.size());
        if (x.size() != n || y.size() != n) return;
        std::vector<long double> p(b.begin(), b.end()), e = p; ilu.solve(p);
        for (auto& [q, a] : s) e[q.first] -= (long double)a * x[q.second];
        ilu.solve(e); long double pn = 0, en = 0; bool fin = true;
        for (size_t i = 0; i < n; ++i) { pn += p[i] * p[i]; en += e[i] * e[i]; fin = fin && std::isfinite(x[i]); }
        pn = sqrtl(pn); en = sqrtl(en);
        c.want(fin && en <= 1.02L * tol + (long double)(200 + 20 * n) * eps<T>() * pn, "residual", "preconditioned residual %.3Lg, tolerance %.3Lg", en, (long double)tol);
        long double d = 0, m = 0; for (size_t i = 0; i < n; ++i) { long double t = fabsl((long double)x[i] - y[i]); if (!(t <= d)) d = t; m = std::max(m, mag(y[i])); }
        c.want(d <= 200 * (long double)tol + 2 * REL<T> * m * n, "fresh", "differs by %.3Lg from the solution a fresh solver gives", d);
        c.record<T>("solution", x.data(), n, 200 * (long double)tol + 2 * REL<T> * m * n);
        c.same("rhs", v.data(), b.data(), n);
    }
};
template<class T> void history(Ctx& c, size_t steps) {
    auto& r = c.rng; std::vector<std::unique_ptr<Item<T>>> it;
    auto n = [&] { return 1 + r.below(r.chance(0.2) ? r.chance(0.1) ? 70 : 24 : 8); };
    auto add = [&](int k) {
        switch (k) {
            case 0: it.emplace_back(new TriItem<T, DynTriDiagMat<T>>(c, r.chance(0.3) ? 5 : n(), "dyn")); break;
            case 1: it.emplace_back(new TriItem<T, SizedTriDiagMat<T, 5>>(c, 5, "sized")); break;
            case 2: it.emplace_back(new CholItem<T, DynCholeskyFactorization<T>, DynMat<T>>(c, r.chance(0.3) ? 5 : n(), "Cholesky", false)); break;
            case 3: it.emplace_back(new CholItem<T, DynTriCholeskyFactorization<T>, DynHermiteMat<T>>(c, r.chance(0.3) ? 5 : n(), "TriCholesky", false)); break;
            case 4: it.emplace_back(new CholItem<T, DynModCholeskyFactorization<T>, DynMat<T>>(c, r.chance(0.3) ? 5 : n(), "ModCholesky", true)); break;
            case 5: it.emplace_back(new IluItem<T, SpMat<T>>(c, n(), "csr")); break;
            case 6: it.emplace_back(new IluItem<T, DynMat<T>>(c, n(), "dense")); break;
            case 7: it.emplace_back(new GmresItem<T, SpMat<T>>(c, n(), "csr")); break;
            default: it.emplace_back(new GmresItem<T, DynMat<T>>(c, n(), "dense"));
        }
    };
    c.begin(opn<T>("construct"), r.s, false, "building solvers");
    for (int k = 0; k < 9; ++k) { add(k); if (r.chance(0.5)) add(k); }
    std::string trail;
    for (size_t q = 0; q < steps; ++q) {
        size_t i = r.chance(0.5) ? r.below(it.size()) : r.below(3) + (q / 7) % (it.size() - 2);   // bursts on few solvers and wide interleaving
        it[i]->step(c, trail);
        trail += it[i]->name + "#" + std::to_string(i) + " "; if (trail.size() > 120) trail.erase(0, trail.size() - 120);
        if (r.chance(0.02)) { c.begin(opn<T>("construct"), r.s, false, "building a solver"); it[i] = nullptr; add((int)r.below(9)); std::swap(it[i], it.back()); it.pop_back(); }
    }
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "reuse", [](Ctx& c) {
        for (size_t q = 0; q < c.n(12, 400); ++q) { history<double>(c, 150); history<float>(c, 150); }
    });
}
