// P06: dense matrix-vector products.
#include "lib.hpp"
#include "ref.hpp"
#include "huge.hpp"
using namespace vp;
using lalib::DynVec; using lalib::SizedVec; using lalib::DynMat; using lalib::SizedMat;

template<class T> struct In {
    Mat<T> A; std::vector<T> x, y; T al, be; int kind; uint64_t h; bool nt;
    In(Ctx& c, size_t n, size_t m, int k) : kind(k) {
        auto& r = c.rng;
        A = gen_mat<T>(r, k, n, m); x = gen_vec<T>(r, k, m, 5); y = gen_vec<T>(r, k, n, 50);
        al = gen_scalar<T>(r, k); be = gen_scalar<T>(r, k);
        h = hv(A.a, hv(x, hv(y, hs(al, hs(be))))); nt = any_nonzero(A.a) && any_nonzero(x);
    }
    void begin(Ctx& c, const std::string& op) const {
        c.begin(op, h, nt, "%zux%zu data=%s alpha=%s beta=%s A=%s x=%s y=%s", A.n, A.m, dname(kind), show(&al, 1).c_str(), show(&be, 1).c_str(), show(A.a.data(), A.a.size()).c_str(), show(x.data(), A.m).c_str(), show(y.data(), A.n).c_str());
    }
};
template<class T> void dyn_case(Ctx& c, size_t n, size_t m, int kind) {
    In<T> in(c, n, m, kind);
    const DynMat<T> A(n, m, in.A.a); const DynVec<T> x(in.x); DynVec<T> y(in.y);
    in.begin(c, cat("mul-ddd", opn<T>("").c_str()));
    auto& ret = lalib::mul(in.al, A, x, in.be, y);
    c.want(&ret == &y && y.size() == n, "return", "wrong result operand");
    expect<T>(c, "value", y.data(), r_gemv<T>(in.al, in.A, in.x, in.be, in.y), kind);
    c.same("operand", A.data(), in.A.a.data(), n * m); c.same("operand", x.data(), in.x.data(), m);
    in.begin(c, cat("op-dd", opn<T>("").c_str()));
    auto p = A * x;
    c.want(p.size() == n, "size", "product has %zu elements, expected %zu", (size_t)p.size(), n);
    if (p.size() == n) expect<T>(c, "value", p.data(), r_gemv<T>(T(1), in.A, in.x, T(0), {}), kind);
    c.same("operand", A.data(), in.A.a.data(), n * m); c.same("operand", x.data(), in.x.data(), m);
    c.want(A.shape() == std::pair<size_t, size_t>(n, m), "shape", "shape of A changed");
}
template<class T, size_t N, size_t M> void sized_case(Ctx& c, int kind) {
    auto& r = c.rng;
    In<T> in(c, N, M, kind);
    const Guarded<SizedMat<T, N, M>> gA(in.A.a); const Guarded<SizedVec<T, M>> gx(in.x); Guarded<SizedVec<T, N>> gy(in.y);
    const auto& A = gA.v; const auto& x = gx.v; auto& y = gy.v;
    const DynVec<T> dx(in.x); const DynMat<T> dA(N, M, in.A.a); DynVec<T> dy(in.y);
    auto full = r_gemv<T>(in.al, in.A, in.x, in.be, in.y), plain = r_gemv<T>(T(1), in.A, in.x, T(0), {});
    in.begin(c, cat("mul-sss", opn<T>("").c_str()));
    c.want(&lalib::mul(in.al, A, x, in.be, y) == &y, "return", "wrong result operand");
    expect<T>(c, "value", y.data(), full, kind);
    y = SizedVec<T, N>(in.y);
    in.begin(c, cat("mul-sds", opn<T>("").c_str()));
    c.want(&lalib::mul(in.al, A, dx, in.be, y) == &y, "return", "wrong result operand");
    expect<T>(c, "value", y.data(), full, kind);
    in.begin(c, cat("mul-dsd", opn<T>("").c_str()));
    c.want(&lalib::mul(in.al, dA, x, in.be, dy) == &dy, "return", "wrong result operand");
    expect<T>(c, "value", dy.data(), full, kind);
    in.begin(c, cat("op-ss", opn<T>("").c_str()));
    Held h1([&] { return A * x; }); auto& p1 = h1.get(); expect<T>(c, "value", p1.data(), plain, kind);
    in.begin(c, cat("op-sd", opn<T>("").c_str()));
    Held h2([&] { return A * dx; }); auto& p2 = h2.get(); expect<T>(c, "value", p2.data(), plain, kind);
    in.begin(c, cat("op-ds", opn<T>("").c_str()));
    Held h3([&] { return dA * x; }); auto& p3 = h3.get(); c.want(p3.size() == N, "size", "wrong size"); if (p3.size() == N) expect<T>(c, "value", p3.data(), plain, kind);
    c.same("operand", A.data(), in.A.a.data(), N * M); c.same("operand", x.data(), in.x.data(), M);
    c.same("operand", dA.data(), in.A.a.data(), N * M); c.same("operand", dx.data(), in.x.data(), M);
    c.want(gA.ok() && gx.ok() && gy.ok(), "stray-write", "bytes next to a fixed-size operand were overwritten");
    (void)r;
}
// Very long in one direction or both.
template<class T> void long_case(Ctx& c) {
    size_t q = huge_size(c), n, m; uint64_t s = c.rng.next(); bool op = c.rng.chance(0.4);
    switch (c.rng.below(6)) { case 0: n = q; m = 1; break; case 1: n = 1; m = q; break; case 2: m = 2 + c.rng.below(40); n = q / m; break; case 3: n = 2 + c.rng.below(40); m = q / n; break; case 4: n = 66000 + c.rng.below(9000); m = q / n; break; default: n = 500 + c.rng.below(3000); m = q / n; }
    int span = m > 60000 && sizeof(Real<T>) == 4 ? 1 : 5, sx = span == 1 ? 1 : 3;   // every partial sum is exact
    T al = op ? T(1) : code<T>(1, s, 1), be = op ? T(0) : code<T>(2, s, 2);
    const DynMat<T> A(n, m, codes<T>(n * m, s + 3, span)); const DynVec<T> x(codes<T>(m, s + 4, sx)); DynVec<T> y(codes<T>(n, s + 5, 9));
    c.begin(cat(op ? "long-op" : "long-mul", tname<T>()), mix(s ^ n), true, "%zux%zu alpha=%s beta=%s A=%s x=%s y=%s", n, m, show(&al, 1).c_str(), show(&be, 1).c_str(), show(A.data(), n * m).c_str(), show(x.data(), m).c_str(), show(y.data(), n).c_str());
    if (op) y = A * x; else lalib::mul(al, A, x, be, y);
    c.want(y.size() == n, "size", "product has %zu elements, expected %zu", (size_t)y.size(), n);
    std::vector<T> xs = codes<T>(m, s + 4, sx);
    if (y.size() == n) each<T>(c, "value", y.data(), n, [&](size_t i) { T v = 0; for (size_t k = 0; k < m; ++k) v += code<T>(i * m + k, s + 3, span) * xs[k]; return T(al * v + be * code<T>(i, s + 5, 9)); });
    each<T>(c, "operand", A.data(), n * m, [&](size_t i) { return code<T>(i, s + 3, span); }); each<T>(c, "operand", x.data(), m, [&](size_t i) { return xs[i]; });
}
template<class T> void run(Ctx& c, size_t mult) {
    if (roomy(c)) for (size_t k = 0; k < (c.thorough ? 30 : 6); ++k) long_case<T>(c);
    for (size_t n = 1; n <= 12; ++n) for (size_t m = 1; m <= 12; ++m) dyn_case<T>(c, n, m, (int)((n + m) % D_KINDS));
    for (size_t k = 0; k < mult; ++k) {
        size_t n = gen_size(c.rng, false), m = gen_size(c.rng, false);
        if (n * m > (c.thorough ? 90000u : 12000u) && !c.rng.chance(0.02)) (c.rng.chance(0.5) ? n : m) %= 40, n = std::max<size_t>(n, 1), m = std::max<size_t>(m, 1);
        if (n * m > 1500000) n = 100 + n % 30;
        dyn_case<T>(c, n, m, (int)c.rng.below(D_KINDS));
    }
    for (auto [n, m] : {std::pair<size_t, size_t>{1, 1000}, {1000, 1}, {257, 130}, {1500, 3}, {3, 1500}, {300, 300}, {40, 1030}, {1030, 40}, {1, 70000}, {70000, 1}, {129, 513}}) dyn_case<T>(c, n, m, (int)c.rng.below(D_KINDS));
    // large in both directions: blocks of rows, columns or both
    for (size_t k = 0; k < c.n(3, 30); ++k) { size_t n = 130 + c.rng.below(1000), m = 130 + c.rng.below(400000 / n > 130 ? std::min<size_t>(400000 / n - 130, 900) : 1); if (c.rng.chance(0.5)) std::swap(n, m); dyn_case<T>(c, n, m, (int)c.rng.below(D_KINDS)); }
    for (size_t k = 0; k < c.n(8, 60); ++k) {
        auto kd = [&] { return (int)c.rng.below(D_KINDS); };
        sized_case<T, 1, 1>(c, kd()); sized_case<T, 2, 2>(c, kd()); sized_case<T, 3, 3>(c, kd()); sized_case<T, 2, 3>(c, kd()); sized_case<T, 3, 2>(c, kd());
        sized_case<T, 1, 5>(c, kd()); sized_case<T, 5, 1>(c, kd()); sized_case<T, 4, 7>(c, kd()); sized_case<T, 9, 6>(c, kd());
        if constexpr (std::is_same_v<T, double>) { sized_case<T, 17, 8>(c, kd()); sized_case<T, 8, 33>(c, kd()); sized_case<T, 16, 16>(c, kd()); }
    }
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "mv", [](Ctx& c) {
        run<double>(c, c.n(150, 3000)); run<float>(c, c.n(150, 3000)); run<std::complex<double>>(c, c.n(50, 800)); run<std::complex<float>>(c, c.n(50, 800)); run<int>(c, c.n(20, 100));
    });
}
