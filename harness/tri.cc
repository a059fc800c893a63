// P14: tri-diagonal solver.
#include "trisys.hpp"
using namespace vp;
using lalib::DynVec; using lalib::SizedVec; using lalib::DynMat; using lalib::SizedMat; using lalib::DynTriDiagMat; using lalib::SizedTriDiagMat; using lalib::solver::TriDiag;

template<class T> void begin(Ctx& c, const char* op, const Sys<T>& s) {
    c.begin(cat(op, tname<T>()), s.hash(), any_nonzero(s.b.a), "n=%zu rhs=%zu %s dl=%s d=%s du=%s b=%s", s.n, s.k, tri_kind(s.kind), show(s.dl.data(), s.n - 1, 5).c_str(), show(s.d.data(), s.n, 5).c_str(), show(s.du.data(), s.n - 1, 5).c_str(), show(s.b.a.data(), s.b.a.size(), 6).c_str());
}
template<class T, class M> void untouched(Ctx& c, const M& m, const Sys<T>& s) {
    c.same("matrix", m.data_d(), s.d.data(), s.n);
    if (s.n > 1) { c.same("matrix", m.data_dl(), s.dl.data(), s.n - 1); c.same("matrix", m.data_du(), s.du.data(), s.n - 1); }
}
template<class T, class M> void with_matrix(Ctx& c, const char* name, M m, const Sys<T>& s) {
    TriDiag<M> byref(m);
    auto& r = c.rng;
    if (s.k == 1) {
        const DynVec<T> b(s.b.a); DynVec<T> x(gen_vec<T>(r, D_INT, s.n));
        begin(c, cat(name, "vec").c_str(), s);
        auto& ret = byref.solve_linear(b, x);
        c.want(&ret == &x && x.size() == s.n, "return", "wrong result operand");
        if (x.size() == s.n) check_tri(c, s, [&](size_t i, size_t) { return x[i]; });
        c.same("rhs", b.data(), s.b.a.data(), s.n);
    }
    {
        const DynMat<T> b(s.n, s.k, s.b.a); DynMat<T> x(s.n, s.k, gen_vec<T>(r, D_INT, s.n * s.k));
        begin(c, cat(name, "mat").c_str(), s);
        TriDiag<M> moved(M{m});
        auto& ret = moved.solve_linear(b, x);
        c.want(&ret == &x && x.shape() == b.shape(), "return", "wrong result operand");
        if (x.shape() == b.shape()) check_tri(c, s, [&](size_t i, size_t k) { return x(i, k); });
        c.same("rhs", b.data(), s.b.a.data(), s.n * s.k);
        begin(c, cat(name, "mat-in-place").c_str(), s);
        DynMat<T> y(s.n, s.k, s.b.a);
        byref.solve_linear(y, y);
        check_tri(c, s, [&](size_t i, size_t k) { return y(i, k); });
    }
    untouched(c, m, s);
}
template<class T, size_t N, size_t K> void sized(Ctx& c, int kind) {
    Sys<T> s(c.rng, N, K, kind);
    std::array<T, N - 1> dl{}, du{}; std::array<T, N> d{};
    for (size_t i = 0; i < N; ++i) d[i] = s.d[i];
    for (size_t i = 0; i + 1 < N; ++i) { dl[i] = s.dl[i]; du[i] = s.du[i]; }
    SizedTriDiagMat<T, N> m(dl, d, du);
    with_matrix(c, "sized", m, s);
    TriDiag<SizedTriDiagMat<T, N>> solver(m);
    TriDiag<DynTriDiagMat<T>> dsolver(DynTriDiagMat<T>(s.dl, s.d, s.du));
    {
        const Guarded<SizedMat<T, N, K>> b(s.b.a); Guarded<SizedMat<T, N, K>> x(gen_vec<T>(c.rng, D_INT, N * K));
        begin(c, "sized.sized-mat", s);
        auto& ret = solver.solve_linear(b.v, x.v);
        c.want(&ret == &x.v && b.ok() && x.ok(), "stray-write", "wrong result operand, or bytes next to it overwritten");
        check_tri(c, s, [&](size_t i, size_t k) { return x.v(i, k); });
        c.same("rhs", b.v.data(), s.b.a.data(), N * K);
        begin(c, "dyn.sized-mat", s);
        x.v = SizedMat<T, N, K>(gen_vec<T>(c.rng, D_INT, N * K));
        dsolver.solve_linear(b.v, x.v);
        check_tri(c, s, [&](size_t i, size_t k) { return x.v(i, k); });
        c.want(x.ok(), "stray-write", "bytes next to the result overwritten");
    }
    if constexpr (K == 1) {
        const Guarded<SizedVec<T, N>> b(s.b.a); Guarded<SizedVec<T, N>> x(gen_vec<T>(c.rng, D_INT, N));
        begin(c, "sized.sized-vec", s);
        auto& ret = solver.solve_linear(b.v, x.v);
        c.want(&ret == &x.v && b.ok() && x.ok(), "stray-write", "wrong result operand, or bytes next to it overwritten");
        check_tri(c, s, [&](size_t i, size_t) { return x.v[i]; });
        c.same("rhs", b.v.data(), s.b.a.data(), N);
    }
}
template<class T> void dyn(Ctx& c, size_t n, size_t k, int kind) {
    Sys<T> s(c.rng, n, k, kind);
    with_matrix(c, "dyn", DynTriDiagMat<T>(s.dl, s.d, s.du), s);
}
template<class T> void run(Ctx& c, size_t reps) {
    auto& r = c.rng;
    for (size_t n = 1; n <= 12; ++n) for (size_t k = 1; k <= 5; ++k) for (int kind = 0; kind < 6; ++kind) dyn<T>(c, n, k, kind);
    for (size_t q = 0; q < reps; ++q) dyn<T>(c, 1 + r.below(q % 10 == 0 ? 300 : 60), r.chance(0.4) ? 1 : 1 + r.below(12), (int)r.below(6));
    dyn<T>(c, 1000, 1, ROWDOM); dyn<T>(c, 2000, 2, LAPLACE); dyn<T>(c, 777, 3, EXACT); dyn<T>(c, 9, 70, EXACT); dyn<T>(c, 40, 300, SYS); dyn<T>(c, 2 + r.below(30), 30 + r.below(60), (int)r.below(6));
    for (size_t q = 0; q < c.n(2, 12); ++q) { dyn<T>(c, 1000 + r.below(9000), 1 + r.below(4), (int)r.below(6)); dyn<T>(c, 32766 + r.below(12), 1, (int)r.below(6)); dyn<T>(c, 65530 + r.below(12), 1 + r.below(2), (int)r.below(6)); }
    dyn<T>(c, 40000 + r.below(60000), 1, EXACT); dyn<T>(c, 1 + r.below(4), 66000 + r.below(9000), EXACT); dyn<T>(c, 2 + r.below(40), 300 + r.below(3000), EXACT); dyn<T>(c, 100000 + r.below(200000), 1, COLDOM);
    for (size_t q = 0; q < c.n(10, 100); ++q) for (int kind = 0; kind < 6; ++kind) {
        sized<T, 1, 1>(c, kind); sized<T, 1, 3>(c, kind); sized<T, 2, 1>(c, kind); sized<T, 2, 3>(c, kind); sized<T, 3, 1>(c, kind); sized<T, 4, 4>(c, kind); sized<T, 7, 2>(c, kind); sized<T, 16, 1>(c, kind);
    }
}
int main(int argc, char** argv) { return run_unit(argc, argv, "tri", [](Ctx& c) { run<double>(c, c.n(300, 8000)); run<float>(c, c.n(300, 8000)); }); }
