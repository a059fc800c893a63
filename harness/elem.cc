// P01: element by element vector arithmetic.
#include "lib.hpp"
#include "huge.hpp"
using namespace vp;
using lalib::DynVec; using lalib::SizedVec;

template<class T> struct Model {   // expected values and rounding bounds of one operation
    std::vector<Ref<T>> r; std::vector<long double> b; bool exact;
    void add(Ref<T> v, long double bound) { r.push_back(v); b.push_back(bound); }
};
// A single correctly rounded operation: within half an ulp; a complex one per component.
template<class T> long double one(long double m) { return m * eps<T>() * 1.0L + tiny<T>(); }

template<class T> Model<T> m_neg(const std::vector<T>& x) { Model<T> m; m.exact = true; for (auto& v : x) m.add(-up(v), 0); return m; }
template<class T> Model<T> m_add(const std::vector<T>& x, const std::vector<T>& y, int s) {
    Model<T> m; m.exact = false;
    for (size_t i = 0; i < x.size(); ++i) { auto v = s > 0 ? up(x[i]) + up(y[i]) : up(x[i]) - up(y[i]); m.add(v, one<T>(rmag(v))); }
    return m;
}
template<class T> Model<T> m_axpy(T a, const std::vector<T>& x, const std::vector<T>& y) {
    Model<T> m; m.exact = false;
    for (size_t i = 0; i < x.size(); ++i) {
        auto p = rmul(up(a), up(x[i]));
        m.add(p + up(y[i]), 6 * eps<T>() * (mag(a) * mag(x[i]) + mag(y[i])) + tiny<T>());
    }
    return m;
}
template<class T> Model<T> m_scale(T a, const std::vector<T>& x) {
    Model<T> m; m.exact = false;
    for (auto& v : x) m.add(rmul(up(a), up(v)), (Tr<T>::cplx ? 6 : 1) * eps<T>() * mag(a) * mag(v) + tiny<T>());
    return m;
}
template<class T> Model<T> m_div(const std::vector<T>& x, T a) {
    Model<T> m; m.exact = false;
    for (auto& v : x) { Ref<T> q = up(v) / up(a); m.add(q, (Tr<T>::cplx ? 24 : 4) * eps<T>() * rmag(q) + tiny<T>()); }
    return m;
}
template<class T, class V> void chk(Ctx& c, const V& got, const Model<T>& m, bool ex) {
    c.want(got.size() == m.r.size(), "size", "result has %zu elements, expected %zu", (size_t)got.size(), m.r.size());
    if (got.size() == m.r.size()) c.values<T>("value", got.data(), m.r.size(), m.r.data(), ex || m.exact ? nullptr : m.b.data());
}
template<class T> std::vector<T> raw(const DynVec<T>& v) { return std::vector<T>(v.begin(), v.end()); }

template<class T> T divisor(Rng& r, int kind) {
    using R = Real<T>;
    static const double p2[] = {1, -1, 2, -2, 0.5, 4, -0.25, 8, 0x1p-20, -0x1p20, 0x1p-40, 0x1p60};
    if (exact_kind(kind)) { R a = (R)r.pick(p2); if constexpr (Tr<T>::cplx) return T(a, 0); else return a; }
    R a = (R)(r.unit() * 3 + 0.1) * (r.chance(0.5) ? R(-1) : R(1));
    int e = r.chance(0.3) ? gen_exponent<R>(r) : 0;
    if constexpr (Tr<T>::cplx) { T d(a, r.chance(0.2) ? R(0) : gen_real<R>(r, D_REAL, 0)); scale2(d, e); if (r.chance(0.1)) d = T(0, d.real()); return d; }
    else { scale2(a, e); return a; }
}

template<class T> void dyn_case(Ctx& c, size_t n, int kind, int op) {
    auto& r = c.rng;
    auto x = gen_vec<T>(r, kind, n), y = gen_vec<T>(r, kind, n, 31), junk = gen_vec<T>(r, D_INT, n);
    bool ex = exact_kind(kind), nt = n > 0 && (any_nonzero(x) || any_nonzero(y));
    T a = gen_scalar<T>(r, kind);
    uint64_t h = hv(x, hv(y, hs(a)));
    static const char* names[] = {"neg", "neg-op", "add", "add-op", "sub", "sub-op", "axpy", "scale", "scaled", "mul-left", "mul-right", "div"};
    c.begin(cat("dyn", opn<T>(names[op]).c_str()), h, nt, "n=%zu data=%s alpha=%s x=%s y=%s", n, dname(kind), show(&a, 1).c_str(), show(x.data(), n).c_str(), show(y.data(), n).c_str());
    const DynVec<T> dx(x), dy(y);
    DynVec<T> vr(junk);
    const void* ret = &vr;
    auto from = [&](const auto& v, const Model<T>& m) { chk<T>(c, v, m, ex); };
    switch (op) {
        case 0: ret = &lalib::neg(dx, vr); from(vr, m_neg(x)); break;
        case 1: from(-dx, m_neg(x)); break;
        case 2: ret = &lalib::add(dx, dy, vr); from(vr, m_add(x, y, 1)); break;
        case 3: from(dx + dy, m_add(x, y, 1)); break;
        case 4: ret = &lalib::sub(dx, dy, vr); from(vr, m_add(x, y, -1)); break;
        case 5: from(dx - dy, m_add(x, y, -1)); break;
        case 6: vr = dy; ret = &lalib::axpy(a, dx, vr); from(vr, m_axpy(a, x, y)); break;
        case 7: vr = dx; ret = &lalib::scale(a, vr); from(vr, m_scale(a, x)); break;
        case 8: from(lalib::scaled(a, dx), m_scale(a, x)); break;
        case 9: from(a * dx, m_scale(a, x)); break;
        case 10: from(dx * a, m_scale(a, x)); break;
        case 11: if constexpr (!std::is_integral_v<T>) { T d = divisor<T>(r, kind); from(dx / d, m_div(x, d)); } break;
    }
    c.want(ret == &vr, "return", "the returned reference is not the result operand");
    c.same("operand", dx.data(), x.data(), n);
    c.same("operand", dy.data(), y.data(), n);
}

template<class T, size_t N> void sized_case(Ctx& c, int kind, int op) {
    auto& r = c.rng;
    auto x = gen_vec<T>(r, kind, N), y = gen_vec<T>(r, kind, N, 31), junk = gen_vec<T>(r, D_INT, N);
    bool ex = exact_kind(kind), nt = any_nonzero(x) || any_nonzero(y);
    T a = gen_scalar<T>(r, kind);
    static const char* names[] = {"neg", "neg-op", "add", "add-op", "sub", "sub-op", "axpy", "scale", "scaled", "mul-left", "mul-right", "div", "add-sd", "add-ds", "sub-sd", "sub-ds"};
    c.begin(cat("sized", opn<T>(names[op]).c_str()), hv(x, hv(y, hs(a))), nt, "N=%zu data=%s alpha=%s x=%s y=%s", N, dname(kind), show(&a, 1).c_str(), show(x.data(), N).c_str(), show(y.data(), N).c_str());
    using S = SizedVec<T, N>;
    const Guarded<S> gx(x), gy(y);
    Guarded<S> gr(junk);
    const S& sx = gx.v; const S& sy = gy.v; S& vr = gr.v;
    const DynVec<T> dx(x), dy(y);
    const void* ret = &vr;
    auto from = [&](const auto& v, const Model<T>& m) { chk<T>(c, v, m, ex); };
    switch (op) {
        case 0: ret = &lalib::neg(sx, vr); from(vr, m_neg(x)); break;
        case 1: from(-sx, m_neg(x)); break;
        case 2: ret = &lalib::add(sx, sy, vr); from(vr, m_add(x, y, 1)); break;
        case 3: from(sx + sy, m_add(x, y, 1)); break;
        case 4: ret = &lalib::sub(sx, sy, vr); from(vr, m_add(x, y, -1)); break;
        case 5: from(sx - sy, m_add(x, y, -1)); break;
        case 6: vr = sy; ret = &lalib::axpy(a, sx, vr); from(vr, m_axpy(a, x, y)); break;
        case 7: vr = sx; ret = &lalib::scale(a, vr); from(vr, m_scale(a, x)); break;
        case 8: from(lalib::scaled(a, sx), m_scale(a, x)); break;
        case 9: from(a * sx, m_scale(a, x)); break;
        case 10: from(sx * a, m_scale(a, x)); break;
        case 11: if constexpr (!std::is_integral_v<T>) { T d = divisor<T>(r, kind); from(sx / d, m_div(x, d)); } break;
        case 12: ret = &lalib::add(sx, dy, vr); from(vr, m_add(x, y, 1)); break;
        case 13: ret = &lalib::add(dx, sy, vr); from(vr, m_add(x, y, 1)); break;
        case 14: ret = &lalib::sub(sx, dy, vr); from(vr, m_add(x, y, -1)); break;
        case 15: ret = &lalib::sub(dx, sy, vr); from(vr, m_add(x, y, -1)); break;
    }
    c.want(ret == &vr, "return", "the returned reference is not the result operand");
    c.same("operand", sx.data(), x.data(), N);
    c.same("operand", sy.data(), y.data(), N);
    c.same("operand", dx.data(), x.data(), N);
    c.same("operand", dy.data(), y.data(), N);
    c.want(gx.ok() && gy.ok() && gr.ok(), "stray-write", "bytes next to a fixed-size vector were overwritten");
}

template<class T> void long_case(Ctx& c, int op) {
    size_t n = huge_size(c); uint64_t s = c.rng.next(), s2 = s + 1; T a = code<T>(0, s + 2, 5);
    static const char* names[] = {"neg", "neg-op", "add", "add-op", "sub", "sub-op", "axpy", "scale", "scaled", "mul-left", "mul-right", "div"};
    if (op == 11) { if (std::is_integral_v<T>) return; a = T(Real<T>(1) / (1 << c.rng.below(4))); }
    const DynVec<T> x(codes<T>(n, s, 9)), y(codes<T>(n, s2, 9));
    c.begin(cat("long", opn<T>(names[op]).c_str()), mix(s ^ n ^ op), true, "n=%zu alpha=%s x=%s y=%s", n, show(&a, 1).c_str(), show(x.data(), n).c_str(), show(y.data(), n).c_str());
    auto X = [&](size_t i) { return code<T>(i, s, 9); }; auto Y = [&](size_t i) { return code<T>(i, s2, 9); };
    DynVec<T> r = op == 6 ? y : op == 7 ? x : DynVec<T>::filled(n, T(77));
    auto is = [&](const DynVec<T>& v, auto f) { c.want(v.size() == n, "size", "result has %zu elements, expected %zu", (size_t)v.size(), n); if (v.size() == n) each<T>(c, "value", v.data(), n, f); };
    auto neg = [&](size_t i) { return T(-X(i)); }; auto add = [&](size_t i) { return T(X(i) + Y(i)); }; auto sub = [&](size_t i) { return T(X(i) - Y(i)); };
    auto mul = [&](size_t i) { return T(a * X(i)); };
    switch (op) {
        case 0: lalib::neg(x, r); is(r, neg); break;
        case 1: is(-x, neg); break;
        case 2: lalib::add(x, y, r); is(r, add); break;
        case 3: is(x + y, add); break;
        case 4: lalib::sub(x, y, r); is(r, sub); break;
        case 5: is(x - y, sub); break;
        case 6: lalib::axpy(a, x, r); is(r, [&](size_t i) { return T(a * X(i) + Y(i)); }); break;
        case 7: lalib::scale(a, r); is(r, mul); break;
        case 8: is(lalib::scaled(a, x), mul); break;
        case 9: is(a * x, mul); break;
        case 10: is(x * a, mul); break;
        case 11: if constexpr (!std::is_integral_v<T>) is(x / a, [&](size_t i) { return T(X(i) / a); }); break;
    }
    each<T>(c, "operand", x.data(), n, X); each<T>(c, "operand", y.data(), n, Y);
}
template<class T> void run(Ctx& c, size_t mult) {
    if (roomy(c)) for (int op = 0; op < 12; ++op) for (size_t k = 0; k < (c.thorough ? 4 : 1); ++k) long_case<T>(c, op);
    // every small size, every operation
    for (size_t n = 0; n <= 70; ++n)
        for (int op = 0; op < 12; ++op) dyn_case<T>(c, n, (int)((n + op) % D_KINDS), op);
    for (size_t k = 0; k < mult; ++k)
        for (int op = 0; op < 12; ++op) dyn_case<T>(c, gen_size(c.rng, c.thorough), (int)c.rng.below(D_KINDS), op);
    static const size_t big[] = {1023, 1024, 1025, 4099, 10007, 16384, 32769, 65535, 65537, 100003, 262147};
    for (size_t n : big) { for (int op = 0; op < 12; ++op) dyn_case<T>(c, n, (int)c.rng.below(D_KINDS), op); }
    for (size_t k = 0; k < c.n(6, 40); ++k)
        for (int op = 0; op < 16; ++op)
            for_sizes(std::conditional_t<std::is_same_v<T, double>, std::index_sequence<1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 33, 64>, std::index_sequence<1, 3, 15, 16, 33>>{},
                      [&](auto N) { sized_case<T, N.value>(c, (int)c.rng.below(D_KINDS), op); });
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "elem", [](Ctx& c) {
        run<double>(c, c.n(120, 3000)); run<float>(c, c.n(120, 3000));
        run<std::complex<double>>(c, c.n(60, 1500)); run<std::complex<float>>(c, c.n(60, 1500)); run<int>(c, c.n(20, 300));
    });
}
