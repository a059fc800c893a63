// P07: dense matrix-matrix products.
#include "lib.hpp"
#include "ref.hpp"
#include "huge.hpp"
using namespace vp;
using lalib::DynMat; using lalib::SizedMat;

template<class T> struct In {
    Mat<T> A, B, C; T al, be; int kind; uint64_t h; bool nt;
    In(Ctx& c, size_t n, size_t l, size_t m, int k) : kind(k) {
        auto& r = c.rng;
        A = gen_mat<T>(r, k, n, l); B = gen_mat<T>(r, k, l, m, 5); C = gen_mat<T>(r, k, n, m, 50);
        al = gen_scalar<T>(r, k); be = gen_scalar<T>(r, k);
        h = hv(A.a, hv(B.a, hv(C.a, hs(al, hs(be, n * 10007 + l * 101 + m))))); nt = any_nonzero(A.a) && any_nonzero(B.a);
    }
    void begin(Ctx& c, const char* op) const {
        c.begin(cat(op, tname<T>()), h, nt, "%zux%zu * %zux%zu data=%s alpha=%s beta=%s A=%s B=%s C=%s", A.n, A.m, B.n, B.m, dname(kind), show(&al, 1).c_str(), show(&be, 1).c_str(), show(A.a.data(), A.a.size()).c_str(), show(B.a.data(), B.a.size()).c_str(), show(C.a.data(), C.a.size()).c_str());
    }
};
template<class T, class M> void check(Ctx& c, const M& got, size_t n, size_t m, const Expect<T>& e, int kind) {
    auto s = got.shape();
    c.want(s.first == n && s.second == m, "shape", "result is %zux%zu, expected %zux%zu", (size_t)s.first, (size_t)s.second, n, m);
    if (s.first == n && s.second == m) expect<T>(c, "value", got.data(), e, kind);
}
template<class T> void dyn_case(Ctx& c, size_t n, size_t l, size_t m, int kind) {
    In<T> in(c, n, l, m, kind);
    const DynMat<T> A(n, l, in.A.a), B(l, m, in.B.a); DynMat<T> C(n, m, in.C.a);
    in.begin(c, "mul-ddd");
    auto& ret = lalib::mul(in.al, A, B, in.be, C);
    c.want(&ret == &C, "return", "wrong result operand");
    check<T>(c, C, n, m, r_gemm<T>(in.al, in.A, in.B, in.be, &in.C), kind);
    in.begin(c, "op-dd");
    auto p = A * B;
    check<T>(c, p, n, m, r_gemm<T>(T(1), in.A, in.B, T(0), nullptr), kind);
    c.same("operand", A.data(), in.A.a.data(), n * l); c.same("operand", B.data(), in.B.a.data(), l * m);
}
template<class T, size_t N, size_t L, size_t M> void sized_case(Ctx& c, int kind) {
    In<T> in(c, N, L, M, kind);
    const Guarded<SizedMat<T, N, L>> gA(in.A.a); const Guarded<SizedMat<T, L, M>> gB(in.B.a); Guarded<SizedMat<T, N, M>> gC(in.C.a);
    const auto& A = gA.v; const auto& B = gB.v; auto& C = gC.v;
    const DynMat<T> dA(N, L, in.A.a), dB(L, M, in.B.a);
    auto full = r_gemm<T>(in.al, in.A, in.B, in.be, &in.C), plain = r_gemm<T>(T(1), in.A, in.B, T(0), nullptr);
    auto sres = [&](const char* op, const auto& a, const auto& b) {
        C = SizedMat<T, N, M>(in.C.a);
        in.begin(c, op);
        auto& ret = lalib::mul(in.al, a, b, in.be, C);
        c.want(&ret == &C, "return", "wrong result operand");
        check<T>(c, C, N, M, full, kind);
    };
    auto dres = [&](const char* op, const auto& a, const auto& b) {
        DynMat<T> D(N, M, in.C.a);
        in.begin(c, op);
        auto& ret = lalib::mul(in.al, a, b, in.be, D);
        c.want(&ret == &D, "return", "wrong result operand");
        check<T>(c, D, N, M, full, kind);
    };
    sres("mul-sss", A, B); sres("mul-dss", dA, B); sres("mul-sds", A, dB); sres("mul-dds", dA, dB);
    dres("mul-ssd", A, B); dres("mul-dsd", dA, B); dres("mul-sdd", A, dB);
    in.begin(c, "op-ss");
    Held h([&] { return A * B; }); check<T>(c, h.get(), N, M, plain, kind);
    c.same("operand", A.data(), in.A.a.data(), N * L); c.same("operand", B.data(), in.B.a.data(), L * M);
    c.same("operand", dA.data(), in.A.a.data(), N * L); c.same("operand", dB.data(), in.B.a.data(), L * M);
    c.want(gA.ok() && gB.ok() && gC.ok(), "stray-write", "bytes next to a fixed-size operand were overwritten");
}
// Very long in one direction, or large in all.
template<class T> void long_case(Ctx& c, int shape) {
    auto& r = c.rng; uint64_t s = r.next(); bool op = r.chance(0.4);
    size_t n = 1 + r.below(6), l = 1 + r.below(6), m = 1 + r.below(6), big = 66000 + r.below(30000);
    switch (shape) { case 0: n = big; break; case 1: l = big; break; case 2: m = big; break; case 3: n = 200 + r.below(200); l = 100 + r.below(100); m = 200 + r.below(200); break; default: n = 100 + r.below(60); l = 400 + r.below(200); m = 100 + r.below(60); }
    int span = sizeof(Real<T>) == 4 ? 4 : 9;
    T al = op ? T(1) : code<T>(1, s, 1), be = op ? T(0) : code<T>(2, s, 2);
    const auto av = codes<T>(n * l, s + 3, span), bv = codes<T>(l * m, s + 4, span);
    const DynMat<T> A(n, l, av), B(l, m, bv); DynMat<T> C(n, m, codes<T>(n * m, s + 5, 9));
    c.begin(cat(op ? "long-op" : "long-mul", tname<T>()), mix(s ^ n), true, "%zux%zu * %zux%zu alpha=%s beta=%s A=%s B=%s C=%s", n, l, l, m, show(&al, 1).c_str(), show(&be, 1).c_str(), show(A.data(), n * l).c_str(), show(B.data(), l * m).c_str(), show(C.data(), n * m).c_str());
    if (op) C = A * B; else lalib::mul(al, A, B, be, C);
    auto sh = C.shape();
    c.want(sh.first == n && sh.second == m, "shape", "result is %zux%zu, expected %zux%zu", (size_t)sh.first, (size_t)sh.second, n, m);
    if (sh.first != n || sh.second != m) return;
    std::vector<T> e(n * m, T(0));
    for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < l; ++k) { T a = av[i * l + k]; for (size_t j = 0; j < m; ++j) e[i * m + j] += a * bv[k * m + j]; }
    each<T>(c, "value", C.data(), n * m, [&](size_t i) { return T(al * e[i] + be * code<T>(i, s + 5, 9)); });
    each<T>(c, "operand", A.data(), n * l, [&](size_t i) { return av[i]; }); each<T>(c, "operand", B.data(), l * m, [&](size_t i) { return bv[i]; });
}
template<class T> void run(Ctx& c, size_t mult) {
    if (roomy(c)) for (int shape = 0; shape < 5; ++shape) for (size_t k = 0; k < (c.thorough ? 6 : 1); ++k) long_case<T>(c, shape);
    for (size_t n = 1; n <= 6; ++n) for (size_t l = 1; l <= 6; ++l) for (size_t m = 1; m <= 6; ++m) dyn_case<T>(c, n, l, m, (int)((n + l + 2 * m) % D_KINDS));
    for (size_t k = 0; k < mult; ++k) {
        size_t n = gen_size(c.rng, false), l = gen_size(c.rng, false), m = gen_size(c.rng, false);
        size_t cap = c.thorough ? 400000 : 40000;
        if (n * l * m > cap && !(n * l * m < 2000000 && c.rng.chance(0.1))) switch (c.rng.below(4)) {
            case 0: n = 1 + n % 5; l = 1 + l % 5; m %= 2000; break;
            case 1: n = 1 + n % 5; m = 1 + m % 5; l %= 2000; break;
            case 2: l = 1 + l % 5; m = 1 + m % 5; n %= 2000; break;
            default: n = 1 + n % 34; l = 1 + l % 34; m = 1 + m % 34;
        }
        n = std::max<size_t>(n, 1); l = std::max<size_t>(l, 1); m = std::max<size_t>(m, 1);
        dyn_case<T>(c, n, l, m, (int)c.rng.below(D_KINDS));
    }
    for (auto [n, l, m] : {std::array<size_t, 3>{1, 300, 1}, {200, 1, 3}, {3, 1, 200}, {70, 65, 33}, {2, 257, 5}, {129, 128, 130}, {1, 2049, 2}, {2, 3, 2049}, {2049, 2, 1}, {257, 33, 65}, {33, 65, 257}, {64, 64, 64}, {100, 101, 99}}) dyn_case<T>(c, n, l, m, (int)c.rng.below(D_KINDS));
    for (size_t k = 0; k < c.n(8, 60); ++k) {
        auto kd = [&] { return (int)c.rng.below(D_KINDS); };
        sized_case<T, 1, 1, 1>(c, kd()); sized_case<T, 2, 2, 2>(c, kd()); sized_case<T, 3, 3, 3>(c, kd()); sized_case<T, 2, 3, 4>(c, kd()); sized_case<T, 4, 3, 2>(c, kd());
        sized_case<T, 3, 5, 1>(c, kd()); sized_case<T, 1, 4, 6>(c, kd()); sized_case<T, 5, 1, 3>(c, kd());
        if constexpr (std::is_same_v<T, double>) { sized_case<T, 7, 9, 8>(c, kd()); sized_case<T, 16, 5, 17>(c, kd()); }
    }
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "mm", [](Ctx& c) {
        run<double>(c, c.n(100, 2500)); run<float>(c, c.n(100, 2500)); run<std::complex<double>>(c, c.n(30, 500)); run<std::complex<float>>(c, c.n(30, 500)); run<int>(c, c.n(20, 100));
    });
}
