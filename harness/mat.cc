// P08: element-wise matrix arithmetic and 2x2 inverses.
#include "lib.hpp"
#include "ref.hpp"
#include "huge.hpp"
using namespace vp;
using lalib::DynMat; using lalib::SizedMat; using lalib::SpMat; using lalib::SpCooMat;

template<class T> Expect<T> r_add(const std::vector<T>& x, const std::vector<T>& y, int s) {
    Expect<T> e; for (size_t i = 0; i < x.size(); ++i) { auto v = s > 0 ? up(x[i]) + up(y[i]) : up(x[i]) - up(y[i]); e.add(v, rmag(v), 1); } return e;
}
template<class T> Expect<T> r_scale(T a, const std::vector<T>& x) {
    Expect<T> e; for (auto& v : x) e.add(rmul(up(a), up(v)), mag(a) * mag(v), Tr<T>::cplx ? 6 : 1); return e;
}
template<class T, class M> void check(Ctx& c, const M& got, size_t n, size_t m, const Expect<T>& e, int kind) {
    auto s = got.shape();
    c.want(s.first == n && s.second == m, "shape", "result is %zux%zu, expected %zux%zu", (size_t)s.first, (size_t)s.second, n, m);
    if (s.first == n && s.second == m) expect<T>(c, "value", got.data(), e, kind);
}
template<class T> struct In {
    size_t n, m; int kind; std::vector<T> x, y; T a; uint64_t h; bool nt;
    In(Ctx& c, size_t n, size_t m, int k) : n(n), m(m), kind(k) {
        x = gen_vec<T>(c.rng, k, n * m); y = gen_vec<T>(c.rng, k, n * m, 33); a = gen_scalar<T>(c.rng, k);
        h = hv(x, hv(y, hs(a, n))); nt = any_nonzero(x);
    }
    void begin(Ctx& c, const char* op) const {
        c.begin(cat(op, tname<T>()), h, nt, "%zux%zu data=%s alpha=%s x=%s y=%s", n, m, dname(kind), show(&a, 1).c_str(), show(x.data(), x.size()).c_str(), show(y.data(), y.size()).c_str());
    }
};
template<class T> constexpr bool has_neg = !Tr<T>::cplx;

template<class T> void dyn_case(Ctx& c, size_t n, size_t m, int kind) {
    In<T> in(c, n, m, kind);
    const DynMat<T> x(n, m, in.x), y(n, m, in.y);
    DynMat<T> r(n, m, gen_vec<T>(c.rng, D_INT, n * m));
    in.begin(c, "add-ddd"); c.want(&lalib::add(x, y, r) == &r, "return", "wrong result"); check<T>(c, r, n, m, r_add(in.x, in.y, 1), kind);
    in.begin(c, "sub-ddd"); c.want(&lalib::sub(x, y, r) == &r, "return", "wrong result"); check<T>(c, r, n, m, r_add(in.x, in.y, -1), kind);
    in.begin(c, "add-op-d"); { auto p = x + y; check<T>(c, p, n, m, r_add(in.x, in.y, 1), kind); }
    in.begin(c, "sub-op-d"); { auto p = x - y; check<T>(c, p, n, m, r_add(in.x, in.y, -1), kind); }
    in.begin(c, "scale-d"); r = x; c.want(&lalib::scale(in.a, r) == &r, "return", "wrong result"); check<T>(c, r, n, m, r_scale(in.a, in.x), kind);
    in.begin(c, "mul-op-d"); { auto p = in.a * x; check<T>(c, p, n, m, r_scale(in.a, in.x), kind); }
    if constexpr (has_neg<T>) { in.begin(c, "neg-op-d"); auto p = -x; check<T>(c, p, n, m, r_scale(T(-1), in.x), kind); }
    c.same("operand", x.data(), in.x.data(), n * m); c.same("operand", y.data(), in.y.data(), n * m);
}
template<class T, size_t N, size_t M> void sized_case(Ctx& c, int kind) {
    In<T> in(c, N, M, kind);
    using S = SizedMat<T, N, M>;
    const Guarded<S> gx(in.x), gy(in.y); Guarded<S> gr(gen_vec<T>(c.rng, D_INT, N * M));
    const S& x = gx.v; const S& y = gy.v; S& r = gr.v;
    const DynMat<T> dx(N, M, in.x), dy(N, M, in.y);
    auto ea = r_add(in.x, in.y, 1), es = r_add(in.x, in.y, -1), ek = r_scale(in.a, in.x);
    in.begin(c, "add-sss"); c.want(&lalib::add(x, y, r) == &r, "return", "wrong result"); check<T>(c, r, N, M, ea, kind);
    in.begin(c, "add-sds"); c.want(&lalib::add(x, dy, r) == &r, "return", "wrong result"); check<T>(c, r, N, M, ea, kind);
    in.begin(c, "sub-sss"); c.want(&lalib::sub(x, y, r) == &r, "return", "wrong result"); check<T>(c, r, N, M, es, kind);
    in.begin(c, "add-dss"); c.want(&lalib::add(dx, y, r) == &r, "return", "wrong result"); check<T>(c, r, N, M, ea, kind);
    in.begin(c, "sub-sds"); c.want(&lalib::sub(x, dy, r) == &r, "return", "wrong result"); check<T>(c, r, N, M, es, kind);
    r = x;
    in.begin(c, "sub-dss"); c.want(&lalib::sub(dx, y, r) == &r, "return", "wrong result"); check<T>(c, r, N, M, es, kind);
    in.begin(c, "add-op-s"); { Held p([&] { return x + y; }); check<T>(c, p.get(), N, M, ea, kind); }
    in.begin(c, "sub-op-s"); { Held p([&] { return x - y; }); check<T>(c, p.get(), N, M, es, kind); }
    in.begin(c, "scale-s"); r = x; c.want(&lalib::scale(in.a, r) == &r, "return", "wrong result"); check<T>(c, r, N, M, ek, kind);
    in.begin(c, "mul-op-s"); { auto p = in.a * x; check<T>(c, p, N, M, ek, kind); }
    if constexpr (has_neg<T>) { in.begin(c, "neg-op-s"); Held p([&] { return -x; }); check<T>(c, p.get(), N, M, r_scale(T(-1), in.x), kind); }
    c.same("operand", x.data(), in.x.data(), N * M); c.same("operand", y.data(), in.y.data(), N * M);
    c.same("operand", dx.data(), in.x.data(), N * M); c.same("operand", dy.data(), in.y.data(), N * M);
    c.want(gx.ok() && gy.ok() && gr.ok(), "stray-write", "bytes next to a fixed-size matrix were overwritten");
}
template<class T> void sparse_case(Ctx& c, int kind) {
    auto& r = c.rng;
    size_t n = 1 + r.below(r.chance(0.05) ? 90 : 20), m = 1 + r.below(r.chance(0.05) ? 90 : 20);
    std::vector<T> val; std::vector<size_t> ri, ci;
    double p = r.unit();
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) if (r.chance(p)) { val.push_back(gen<T>(r, kind, i * m + j)); ri.push_back(i); ci.push_back(j); }
    if (val.empty()) { val.push_back(gen<T>(r, kind, 0)); ri.push_back(n - 1); ci.push_back(m - 1); }
    T a = gen_scalar<T>(r, kind);
    auto ek = r_scale(a, val), en = r_scale(T(-1), val);
    const SpCooMat<T> coo(val, ri, ci); const SpMat<T> csr(coo);
    uint64_t h = hv(val, hv(ri, hv(ci, hs(a))));
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), h, true, "%zux%zu nnz=%zu data=%s alpha=%s values=%s", n, m, val.size(), dname(kind), show(&a, 1).c_str(), show(val.data(), val.size()).c_str()); };
    auto cmp = [&](const auto& got, const auto& src, const Expect<T>& e) {
        c.want(got.nnz() == val.size() && got.shape() == src.shape() && got.col_indices() == ci, "pattern", "the sparsity pattern changed");
        if constexpr (std::is_same_v<std::decay_t<decltype(got)>, SpCooMat<T>>) c.want(got.row_indices() == ri, "pattern", "row indices changed");
        else c.want(got.row_ptr() == src.row_ptr(), "pattern", "row pointers changed");
        if (got.nnz() == val.size()) expect<T>(c, "value", got.values().data(), e, kind);
    };
    { begin("scale-coo"); SpCooMat<T> q(coo); c.want(&lalib::scale(a, q) == &q, "return", "wrong result"); cmp(q, coo, ek); }
    { begin("scale-csr"); SpMat<T> q(csr); c.want(&lalib::scale(a, q) == &q, "return", "wrong result"); cmp(q, csr, ek); }
    { begin("mul-op-coo"); auto q = a * coo; cmp(q, coo, ek); }
    { begin("mul-op-csr"); auto q = a * csr; cmp(q, csr, ek); }
    if constexpr (has_neg<T>) {
        { begin("neg-op-coo"); auto q = -coo; cmp(q, coo, en); }
        { begin("neg-op-csr"); auto q = -csr; cmp(q, csr, en); }
    }
    c.same("operand", coo.values().data(), val.data(), val.size()); c.same("operand", csr.values().data(), val.data(), val.size());
}
template<class T> void inverse_case(Ctx& c) {
    auto& r = c.rng;
    using R = Real<T>;
    std::vector<T> a(4); Ref<T> d; long double t; bool exact = r.chance(0.4);
    int sc = 0;
    do {
        if (exact) {   // determinant +-1, +-2, +-4: the inverse is exact
            for (auto& v : a) v = gen<T>(r, D_INT);
            if constexpr (Tr<T>::cplx) for (auto& v : a) v = T(v.real(), R(0));
        } else a = gen_vec<T>(r, r.chance(0.5) ? D_REAL : D_INT, 4);
        d = rmul(up(a[0]), up(a[3])) - rmul(up(a[1]), up(a[2]));
        t = mag(a[0]) * mag(a[3]) + mag(a[1]) * mag(a[2]);
    } while (exact ? !(rmag(d) == 1 || rmag(d) == 2 || rmag(d) == 4 || rmag(d) == 8) : !(rmag(d) > (r.chance(0.5) ? 0.05L : 64 * eps<T>()) * t && rmag(d) > 0));
    if (r.chance(0.4)) {   // an exact change of scale
        sc = r.chance(0.5) ? gen_exponent<Real<T>>(r) : (int)r.range(-20, 20);
        for (auto& v : a) scale2(v, sc);
        d *= ldexpl(1, 2 * sc); t *= ldexpl(1, 2 * sc);
    }
    if (exact && Tr<T>::cplx) exact = false;
    Ref<T> inv[4] = {up(a[3]) / d, -up(a[1]) / d, -up(a[2]) / d, up(a[0]) / d};
    Expect<T> e;
    for (auto& v : inv) e.add(v, rmag(v) * (2 + 4 * t / rmag(d)), exact ? 0 : 24);
    using S = SizedMat<T, 2, 2>;
    const Guarded<S> g(a); Guarded<S> q(std::vector<T>{T(1), T(2), T(3), T(4)});
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), hv(a), true, "a=%s", show(a.data(), 4).c_str()); };
    auto cmp = [&](const S& s) {
        c.values<T>("value", s.data(), 4, e.v.data(), e.b.data());
        // A * inv(A) = I
        std::array<Ref<T>, 4> p{}; Ref<T> id[4] = {Ref<T>(1), Ref<T>(0), Ref<T>(0), Ref<T>(1)}; bool ok = true;
        for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
            Ref<T> v = 0; long double b = 0;
            for (int k = 0; k < 2; ++k) { v += rmul(up(a[i * 2 + k]), up(s(k, j))); b += mag(a[i * 2 + k]) * e.b[k * 2 + j]; }
            ok = ok && rmag(v - id[i * 2 + j]) <= b + 1e-15L;
        }
        c.want(ok, "identity", "A * inverse(A) is not the identity");
    };
    begin("invert-into"); { auto v = lalib::invert(g.v, q.v); cmp(q.v); c.same("return", v.data(), q.v.data(), 4); }
    begin("inverted"); cmp(lalib::inverted(g.v));
    begin("invert-self"); { S s(g.v); c.want(&lalib::invert(s) == &s, "return", "wrong result"); cmp(s); }
    begin("invert-same"); { S s(g.v); auto v = lalib::invert(static_cast<const S&>(s), s); cmp(s); c.same("return", v.data(), s.data(), 4); }
    c.same("operand", g.v.data(), a.data(), 4);
    c.want(g.ok() && q.ok(), "stray-write", "bytes next to a matrix were overwritten");
}
template<class T> void long_case(Ctx& c, int op) {
    if (!has_neg<T> && op == 6) return;
    size_t n = huge_size(c), m = 1; uint64_t s = c.rng.next(), s2 = s + 1; T a = code<T>(0, s + 2, 5);
    switch (c.rng.below(4)) { case 0: break; case 1: m = n; n = 1; break; case 2: m = 2 + c.rng.below(9); n = n / m; break; default: m = 900 + c.rng.below(900); n = n / m; }
    size_t q = n * m;
    static const char* names[] = {"add", "sub", "add-op", "sub-op", "scale", "mul-op", "neg-op"};
    const DynMat<T> x(n, m, codes<T>(q, s, 9)), y(n, m, codes<T>(q, s2, 9));
    c.begin(cat("long", opn<T>(names[op]).c_str()), mix(s ^ n ^ op), true, "%zux%zu alpha=%s x=%s y=%s", n, m, show(&a, 1).c_str(), show(x.data(), q).c_str(), show(y.data(), q).c_str());
    DynMat<T> r = op == 4 ? x : DynMat<T>::filled(T(77), n, m);
    auto X = [&](size_t i) { return code<T>(i, s, 9); }; auto Y = [&](size_t i) { return code<T>(i, s2, 9); };
    auto is = [&](const DynMat<T>& v, auto f) { auto sh = v.shape(); bool ok = sh.first == n && sh.second == m; c.want(ok, "shape", "result is %zux%zu", (size_t)sh.first, (size_t)sh.second); if (ok) each<T>(c, "value", v.data(), q, f); };
    auto add = [&](size_t i) { return T(X(i) + Y(i)); }; auto sub = [&](size_t i) { return T(X(i) - Y(i)); }; auto mul = [&](size_t i) { return T(a * X(i)); };
    switch (op) {
        case 0: lalib::add(x, y, r); is(r, add); break;
        case 1: lalib::sub(x, y, r); is(r, sub); break;
        case 2: is(x + y, add); break;
        case 3: is(x - y, sub); break;
        case 4: lalib::scale(a, r); is(r, mul); break;
        case 5: is(a * x, mul); break;
        case 6: if constexpr (has_neg<T>) is(-x, [&](size_t i) { return T(-X(i)); }); break;
    }
    each<T>(c, "operand", x.data(), q, X); each<T>(c, "operand", y.data(), q, Y);
}
template<class T> void run(Ctx& c, size_t mult) {
    if (roomy(c)) for (int op = 0; op < 7; ++op) for (size_t k = 0; k < (c.thorough ? 8 : 1); ++k) long_case<T>(c, op);
    auto kd = [&] { return (int)c.rng.below(D_KINDS); };
    for (size_t n = 1; n <= 9; ++n) for (size_t m = 1; m <= 9; ++m) dyn_case<T>(c, n, m, kd());
    for (size_t k = 0; k < mult; ++k) dyn_case<T>(c, 1 + c.rng.below(60), 1 + c.rng.below(60), kd());
    for (size_t k = 0; k < c.n(3, 60); ++k) { size_t n = gen_size(c.rng, false), m = gen_size(c.rng, false); if (n * m > 60000) m = 1 + m % 6; dyn_case<T>(c, n, m, kd()); dyn_case<T>(c, m, n, kd()); }
    for (auto [n, m] : {std::pair<size_t, size_t>{1, 1025}, {1025, 1}, {101, 99}, {64, 64}, {300, 250}, {2, 40000}}) dyn_case<T>(c, n, m, kd());
    for (size_t k = 0; k < c.n(8, 80); ++k) {
        sized_case<T, 1, 1>(c, kd()); sized_case<T, 2, 2>(c, kd()); sized_case<T, 3, 3>(c, kd()); sized_case<T, 2, 3>(c, kd()); sized_case<T, 3, 2>(c, kd());
        sized_case<T, 1, 7>(c, kd()); sized_case<T, 5, 3>(c, kd());
        if constexpr (std::is_same_v<T, double>) { sized_case<T, 9, 9>(c, kd()); sized_case<T, 4, 17>(c, kd()); sized_case<T, 16, 16>(c, kd()); }
    }
    for (size_t k = 0; k < mult; ++k) sparse_case<T>(c, kd());
    if constexpr (!std::is_integral_v<T>) for (size_t k = 0; k < 2 * mult; ++k) inverse_case<T>(c);
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "mat", [](Ctx& c) {
        run<double>(c, c.n(120, 3000)); run<float>(c, c.n(120, 3000)); run<std::complex<double>>(c, c.n(50, 800)); run<std::complex<float>>(c, c.n(50, 800)); run<int>(c, c.n(20, 100));
    });
}
