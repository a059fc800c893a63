// P02: inner products and Euclidean norms.
#include "lib.hpp"
#include "huge.hpp"
using namespace vp;
using lalib::DynVec; using lalib::SizedVec;

template<class T> void expect_dot(Ctx& c, const char* kind, T got, const std::vector<T>& x, const std::vector<T>& y, bool ex) {
    long double s = 0, a = 0;
    for (size_t i = 0; i < x.size(); ++i) { s += up(x[i]) * up(y[i]); a += fabsl(up(x[i]) * up(y[i])); }
    long double b = 2 * (x.size() + 4) * eps<T>() * a + tiny<T>();
    c.values<T>(kind, &got, 1, &s, ex ? nullptr : &b);
}
template<class T> void expect_norm(Ctx& c, const char* kind, T got, const std::vector<T>& x) {
    long double s = 0;
    for (auto& v : x) s += up(v) * up(v);
    s = sqrtl(s);
    long double b = (x.size() + 8) * eps<T>() * s + tiny<T>();
    c.values<T>(kind, &got, 1, &s, &b);
}
// Data kinds whose sums stay exact in T: at most 2^24 (float) for the sizes used.
template<class T> bool exact(int kind, size_t n) { return exact_kind(kind) && (!std::is_same_v<T, float> || n <= 1500); }

template<class T> void dyn_case(Ctx& c, size_t n, int kind, int op) {
    auto x = gen_vec<T>(c.rng, kind, n), y = gen_vec<T>(c.rng, kind, n, 31);
    if (op == 3) y = x;
    static const char* names[] = {"dot-fn", "dot-member", "norm2", "dot-self"};
    c.begin(cat("dyn", opn<T>(names[op]).c_str()), hv(x, hv(y)), any_nonzero(x) && any_nonzero(y), "n=%zu data=%s x=%s y=%s", n, dname(kind), show(x.data(), n).c_str(), show(y.data(), n).c_str());
    const DynVec<T> dx(x), dy(y);
    bool ex = exact<T>(kind, n) || std::is_integral_v<T>;
    switch (op) {
        case 0: expect_dot<T>(c, "value", lalib::dot(dx, dy), x, y, ex); break;
        case 1: expect_dot<T>(c, "value", dx.dot(dy), x, y, ex); break;
        case 2: if constexpr (!std::is_integral_v<T>) expect_norm<T>(c, "value", dx.norm2(), x); break;
        case 3: expect_dot<T>(c, "value", lalib::dot(dx, dx), x, x, ex); expect_dot<T>(c, "value", dx.dot(dx), x, x, ex); break;
    }
    c.same("operand", dx.data(), x.data(), n);
    c.same("operand", dy.data(), y.data(), n);
}
template<class T, size_t N> void sized_case(Ctx& c, int kind, int op) {
    auto x = gen_vec<T>(c.rng, kind, N), y = gen_vec<T>(c.rng, kind, N, 31);
    static const char* names[] = {"dot-fn", "dot-ss", "dot-sd", "dot-ds", "norm2"};
    c.begin(cat("sized", opn<T>(names[op]).c_str()), hv(x, hv(y)), any_nonzero(x) && any_nonzero(y), "N=%zu data=%s x=%s y=%s", N, dname(kind), show(x.data(), N).c_str(), show(y.data(), N).c_str());
    const DynVec<T> dx(x), dy(y);
    const Guarded<SizedVec<T, N>> gx(x), gy(y);
    auto& sx = gx.v; auto& sy = gy.v;
    bool ex = exact<T>(kind, N) || std::is_integral_v<T>;
    switch (op) {
        case 0: expect_dot<T>(c, "value", lalib::dot(sx, sy), x, y, ex); break;
        case 1: expect_dot<T>(c, "value", sx.dot(sy), x, y, ex); break;
        case 2: expect_dot<T>(c, "value", sx.dot(dy), x, y, ex); break;
        case 3: expect_dot<T>(c, "value", dx.dot(sy), x, y, ex); break;
        case 4: if constexpr (!std::is_integral_v<T>) expect_norm<T>(c, "value", sx.norm2(), x); break;
    }
    c.same("operand", sx.data(), x.data(), N);
    c.same("operand", sy.data(), y.data(), N);
    c.same("operand", dx.data(), x.data(), N);
    c.same("operand", dy.data(), y.data(), N);
    c.want(gx.ok() && gy.ok(), "stray-write", "bytes next to a fixed-size vector were overwritten");
}
template<class T> void long_case(Ctx& c, int op) {
    size_t n = huge_size(c); uint64_t s = c.rng.next(), s2 = s + 1;
    int span = sizeof(T) == 8 ? 9 : 1;
    const DynVec<T> x(codes<T>(n, s, span)), y(codes<T>(n, s2, span));
    static const char* names[] = {"dot", "dyn.dot", "dyn.norm2", "dot-same"};
    c.begin(cat("long", opn<T>(names[op]).c_str()), mix(s ^ n ^ op), true, "n=%zu x=%s y=%s", n, show(x.data(), n).c_str(), show(y.data(), n).c_str());
    int64_t d = 0; for (size_t i = 0; i < n; ++i) d += (int64_t)icode(i, s, span) * icode(i, op >= 2 ? s : s2, span);
    T e = op == 2 ? (T)sqrtl((long double)d) : (T)d, g = 0;
    switch (op) {
        case 0: g = lalib::dot(x, y); break;
        case 1: g = x.dot(y); break;
        case 2: if constexpr (std::is_integral_v<T>) g = e; else g = x.norm2(); break;
        case 3: g = lalib::dot(x, x); break;
    }
    c.observations += n;
    c.want(op == 2 ? fabsl((long double)g - e) <= 16 * eps<T>() * e : g == e, "value", "result %.17g, expected %.17g", (double)g, (double)e);
    each<T>(c, "operand", x.data(), n, [&](size_t i) { return code<T>(i, s, span); });
}
template<class T> void run(Ctx& c) {
    if (roomy(c)) for (int op = 0; op < 4; ++op) for (size_t k = 0; k < (c.thorough ? 12 : 3); ++k) long_case<T>(c, op);
    for (size_t n = 0; n <= 140; ++n)
        for (int k = 0; k < D_KINDS; ++k) for (int op = 0; op < 4; ++op) dyn_case<T>(c, n, k, op);
    for (size_t k = 0; k < c.n(300, 6000); ++k) for (int op = 0; op < 4; ++op) dyn_case<T>(c, gen_size(c.rng, c.thorough), (int)c.rng.below(D_KINDS), op);
    static const size_t big[] = {1023, 1024, 1025, 4099, 8192, 10007, 20011, 32769, 65535, 65536, 65537, 100003, 262147, 1000003};
    for (size_t n : big) { if (!c.thorough && n > 300000) break; for (int op = 0; op < 4; ++op) for (int k = 0; k < D_KINDS; ++k) dyn_case<T>(c, n, k, op); }
    for (size_t k = 0; k < c.n(8, 60); ++k) for (int op = 0; op < 5; ++op) for (int kind = 0; kind < D_KINDS; ++kind)
        for_sizes(std::index_sequence<1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 65>{}, [&](auto N) { sized_case<T, N.value>(c, kind, op); });
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "dot", [](Ctx& c) { run<double>(c); run<float>(c); run<int>(c); });
}
