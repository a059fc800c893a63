// P03: cross products, all overloads.
#include "lib.hpp"
#include "core.hpp"
using namespace vp;
using lalib::DynVec; using lalib::SizedVec;

template<class T> void cross2(Ctx& c, int kind, int op) {
    auto x = gen_vec<T>(c.rng, kind, 2), y = gen_vec<T>(c.rng, kind, 2, 5);
    static const char* names[] = {"cross2-ss", "cross2-sd", "cross2-ds"};
    c.begin(opn<T>(names[op]), hv(x, hv(y)), any_nonzero(x) && any_nonzero(y), "data=%s x=%s y=%s", dname(kind), show(x.data(), 2).c_str(), show(y.data(), 2).c_str());
    const Guarded<SizedVec<T, 2>> gx(x), gy(y);
    const DynVec<T> dx(x), dy(y);
    T got;
    switch (op) { case 0: got = lalib::cross(gx.v, gy.v); break; case 1: got = lalib::cross(gx.v, dy); break; default: got = lalib::cross(dx, gy.v); }
    Ref<T> e = rmul(up(x[0]), up(y[1])) - rmul(up(y[0]), up(x[1]));
    long double b = 8 * eps<T>() * (mag(x[0]) * mag(y[1]) + mag(y[0]) * mag(x[1])) + tiny<T>();
    c.values<T>("value", &got, 1, &e, exact_kind(kind) ? nullptr : &b);
    c.same("operand", gx.v.data(), x.data(), 2); c.same("operand", gy.v.data(), y.data(), 2);
    c.same("operand", dx.data(), x.data(), 2); c.same("operand", dy.data(), y.data(), 2);
}
template<class T> struct E3 { Ref<T> e[3]; long double b[3]; };
template<class T> E3<T> model3(const std::vector<T>& x, const std::vector<T>& y, const std::vector<T>* acc) {
    E3<T> m;
    for (int i = 0; i < 3; ++i) {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        m.e[i] = rmul(up(x[j]), up(y[k])) - rmul(up(x[k]), up(y[j]));
        long double s = mag(x[j]) * mag(y[k]) + mag(x[k]) * mag(y[j]);
        if (acc) { m.e[i] += up((*acc)[i]); s += mag((*acc)[i]); }
        m.b[i] = 8 * eps<T>() * s + tiny<T>();
    }
    return m;
}
// op: 0..3 two operands, result returned; 4..11 result operand (sized, dynamic); 12..19 accumulating
template<class T> void cross3(Ctx& c, int kind, int op) {
    auto x = gen_vec<T>(c.rng, kind, 3), y = gen_vec<T>(c.rng, kind, 3, 5), z = gen_vec<T>(c.rng, kind, 3, 11);
    static const char* combo[] = {"ss", "sd", "ds", "dd"};
    bool acc = op >= 12;
    int cb = op < 4 ? op : (op - 4) % 4;
    bool dynr = op >= 4 && ((op - 4) / 4) % 2 == 1;
    if (op == 3) return;   // cross(DynVec, DynVec) without a result operand is ambiguous between the 2D and 3D products
    std::string name = std::string(acc ? "cross_acc-" : "cross3-") + combo[cb] + (op < 4 ? "" : dynr ? "-d" : "-s");
    c.begin(opn<T>(name.c_str()), hv(x, hv(y, hv(z))), any_nonzero(x) && any_nonzero(y), "data=%s x=%s y=%s result before=%s", dname(kind), show(x.data(), 3).c_str(), show(y.data(), 3).c_str(), show(z.data(), 3).c_str());
    const Guarded<SizedVec<T, 3>> gx(x), gy(y);
    const DynVec<T> dx(x), dy(y);
    Guarded<SizedVec<T, 3>> gr(z);
    DynVec<T> dr(z);
    auto m = model3<T>(x, y, acc ? &z : nullptr);
    bool ex = exact_kind(kind);
    auto out = [&](const auto& v) { c.want(v.size() == 3, "size", "result size"); c.values<T>("value", v.data(), 3, m.e, ex ? nullptr : m.b); };
    if (op < 4) {
        if (cb == 0) out(lalib::cross(gx.v, gy.v)); else if (cb == 1) out(lalib::cross(gx.v, dy)); else out(lalib::cross(dx, gy.v));
    } else {
        const void* ret = nullptr;
        auto call = [&](auto& r) {
            switch (cb + (acc ? 4 : 0)) {
                case 0: ret = &lalib::cross(gx.v, gy.v, r); break;
                case 1: ret = &lalib::cross(gx.v, dy, r); break;
                case 2: ret = &lalib::cross(dx, gy.v, r); break;
                case 3: ret = &lalib::cross(dx, dy, r); break;
                case 4: ret = &lalib::cross_acc(gx.v, gy.v, r); break;
                case 5: ret = &lalib::cross_acc(gx.v, dy, r); break;
                case 6: ret = &lalib::cross_acc(dx, gy.v, r); break;
                case 7: ret = &lalib::cross_acc(dx, dy, r); break;
            }
            c.want(ret == &r, "return", "the returned reference is not the result operand");
            out(r);
        };
        if (dynr) call(dr); else call(gr.v);
    }
    c.same("operand", gx.v.data(), x.data(), 3); c.same("operand", gy.v.data(), y.data(), 3);
    c.same("operand", dx.data(), x.data(), 3); c.same("operand", dy.data(), y.data(), 3);
    c.want(gx.ok() && gy.ok() && gr.ok(), "stray-write", "bytes next to a fixed-size vector were overwritten");
}
// Every unit vector pair: the right-hand rule, independent of the component formula used as the model above.
template<class T> void basis(Ctx& c) {
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        std::vector<T> x(3), y(3); x[i] = T(1); y[j] = T(1);
        c.begin(opn<T>("basis"), i * 3 + j + 100, true, "e%d x e%d", i, j);
        auto g = lalib::cross(SizedVec<T, 3>(x), SizedVec<T, 3>(y));
        Ref<T> e[3] = {};
        if (j == (i + 1) % 3) e[3 - i - j] = 1; else if (i == (j + 1) % 3) e[3 - i - j] = -1;
        c.values<T>("value", g.data(), 3, e, nullptr);
    }
}
template<class T> void run(Ctx& c) {
    basis<T>(c);
    for (size_t k = 0; k < c.n(60, 3000); ++k) for (int kind = 0; kind < D_KINDS; ++kind) {
        for (int op = 0; op < 3; ++op) cross2<T>(c, kind, op);
        for (int op = 0; op < 20; ++op) cross3<T>(c, kind, op);
    }
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "cross", [](Ctx& c) { run<double>(c); run<float>(c); run<std::complex<double>>(c); run<std::complex<float>>(c); });
}
