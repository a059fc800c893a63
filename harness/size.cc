// P05: operands of different lengths are reported, and nothing is touched.
#include "lib.hpp"
#include "core.hpp"
using namespace vp;
using lalib::DynVec; using lalib::SizedVec; using lalib::SizedMat;
using lalib::vec_error::SizeMismatched;

template<class F> void must_throw(Ctx& c, size_t n1, size_t n2, F&& f) {
    std::string what;
    int o = outcome<SizeMismatched>(f, &what);
    c.want(o == 1, "not-reported", "sizes %zu and %zu: %s", n1, n2, o == 0 ? "no exception" : o == 2 ? "another exception" : "an exception of a foreign type");
    if (o == 1) {
        std::string a = std::to_string(n1), b = std::to_string(n2);
        c.want(what.find(a) != std::string::npos && what.find(b) != std::string::npos, "message", "sizes %zu and %zu are not both in the message", n1, n2);
    }
    // caught by the standard base class as well
    c.want(outcome<std::runtime_error>(f) == 1, "base", "not catchable as std::runtime_error (sizes %zu and %zu)", n1, n2);
}
template<class T, class V> void keep(Ctx& c, const V& v, const std::vector<T>& x) {
    c.want(v.size() == x.size(), "touched", "the size of an operand changed");
    if (v.size() == x.size()) c.same("touched", v.data(), x.data(), x.size());
}
template<class T> void dyn_case(Ctx& c, size_t n, size_t m, size_t k, int op) {
    auto x = gen_vec<T>(c.rng, D_REAL, n), y = gen_vec<T>(c.rng, D_REAL, m), z = gen_vec<T>(c.rng, D_REAL, k);
    DynVec<T> dx(x), dy(y), dz(z);
    static const char* names[] = {"neg", "add", "sub", "add-op", "sub-op", "axpy", "dot-fn", "dot-member", "add-result", "sub-result"};
    c.begin(opn<T>(names[op]), hv(x, hv(y, hv(z))), true, "sizes %zu %zu result %zu", n, m, k);
    T a = gen_scalar<T>(c.rng, D_REAL);
    switch (op) {
        case 0: must_throw(c, n, m, [&] { lalib::neg(dx, dy); }); break;
        case 1: must_throw(c, n, m, [&] { lalib::add(dx, dy, dz); }); break;
        case 2: must_throw(c, n, m, [&] { lalib::sub(dx, dy, dz); }); break;
        case 3: must_throw(c, n, m, [&] { (void)(dx + dy); }); break;
        case 4: must_throw(c, n, m, [&] { (void)(dx - dy); }); break;
        case 5: must_throw(c, n, m, [&] { lalib::axpy(a, dx, dy); }); break;
        case 6: if constexpr (!Tr<T>::cplx) must_throw(c, n, m, [&] { (void)lalib::dot(dx, dy); }); break;
        case 7: if constexpr (!Tr<T>::cplx) must_throw(c, n, m, [&] { (void)dx.dot(dy); }); break;
        case 8: { DynVec<T> d2(x); must_throw(c, n, k, [&] { lalib::add(dx, d2, dz); }); } break;
        case 9: { DynVec<T> d2(x); must_throw(c, n, k, [&] { lalib::sub(dx, d2, dz); }); } break;
    }
    keep(c, dx, x); keep(c, dy, y); keep(c, dz, z);
}
template<class T, size_t N> void sized_case(Ctx& c, size_t m, int op) {
    auto x = gen_vec<T>(c.rng, D_REAL, N), y = gen_vec<T>(c.rng, D_REAL, m), z = gen_vec<T>(c.rng, D_REAL, N);
    Guarded<SizedVec<T, N>> gx(x), gz(z);
    auto &sx = gx.v, &sz = gz.v;
    DynVec<T> dy(y);
    static const char* names[] = {"add-sd", "add-ds", "sub-sd", "sub-ds", "dot-sd", "dot-ds"};
    c.begin(opn<T>(names[op]), hv(x, hv(y, hv(z))), true, "N=%zu dynamic %zu", N, m);
    switch (op) {
        case 0: must_throw(c, N, m, [&] { lalib::add(sx, dy, sz); }); break;
        case 1: must_throw(c, N, m, [&] { lalib::add(dy, sx, sz); }); break;
        case 2: must_throw(c, N, m, [&] { lalib::sub(sx, dy, sz); }); break;
        case 3: must_throw(c, N, m, [&] { lalib::sub(dy, sx, sz); }); break;
        case 4: if constexpr (!Tr<T>::cplx) must_throw(c, N, m, [&] { (void)sx.dot(dy); }); break;
        case 5: if constexpr (!Tr<T>::cplx) must_throw(c, N, m, [&] { (void)dy.dot(sx); }); break;
    }
    keep(c, sx, x); keep(c, dy, y); keep(c, sz, z);
    c.want(gx.ok() && gz.ok(), "stray-write", "bytes next to a fixed-size vector were overwritten");
}
// Equal sizes are never reported.
template<class T> void equal_case(Ctx& c, size_t n) {
    auto x = gen_vec<T>(c.rng, D_REAL, n);
    DynVec<T> a(x), b(x), r(x);
    c.begin(opn<T>("equal"), hv(x), true, "n=%zu", n);
    int o = outcome<std::exception>([&] {
        lalib::neg(a, r); lalib::add(a, b, r); lalib::sub(a, b, r); (void)(a + b); (void)(a - b); lalib::axpy(T(1), a, r);
        if constexpr (!Tr<T>::cplx) { (void)lalib::dot(a, b); (void)a.dot(b); }
    });
    c.want(o == 0, "spurious", "equal sizes %zu were reported as different", n);
}
template<class T, size_t N> void equal_sized(Ctx& c) {
    auto x = gen_vec<T>(c.rng, D_REAL, N);
    SizedVec<T, N> a(x), r(x); DynVec<T> b(x);
    c.begin(opn<T>("equal-sized"), hv(x), true, "N=%zu", N);
    int o = outcome<std::exception>([&] {
        lalib::add(a, b, r); lalib::add(b, a, r); lalib::sub(a, b, r); lalib::sub(b, a, r);
        if constexpr (!Tr<T>::cplx) { (void)a.dot(b); (void)b.dot(a); }
    });
    c.want(o == 0, "spurious", "equal sizes %zu were reported as different", N);
}
// Fixed-size objects take exactly the number of elements they hold.
template<class T, size_t N> void ctor_case(Ctx& c, size_t m) {
    auto x = gen_vec<T>(c.rng, D_REAL, m);
    c.begin(opn<T>("construct-vec"), hv(x, N), true, "N=%zu from %zu elements", N, m);
    int o = outcome<std::runtime_error>([&] { Guarded<SizedVec<T, N>> v(x); c.same("value", v.v.data(), x.data(), std::min(N, m)); });
    c.want(o == (N == m ? 0 : 1), "constructor", "SizedVec of %zu from %zu elements: outcome %d", N, m, o);
}
template<class T, size_t N, size_t M> void ctor_mat(Ctx& c, size_t m) {
    auto x = gen_vec<T>(c.rng, D_REAL, m);
    c.begin(opn<T>("construct-mat"), hv(x, N * 64 + M), true, "%zux%zu from %zu elements", N, M, m);
    int o = outcome<std::runtime_error>([&] { Guarded<SizedMat<T, N, M>> v(x); c.same("value", v.v.data(), x.data(), std::min(N * M, m)); });
    c.want(o == (N * M == m ? 0 : 1), "constructor", "SizedMat of %zux%zu from %zu elements: outcome %d", N, M, m, o);
}
template<class T> void init_lists(Ctx& c) {
    c.begin(opn<T>("construct-init-list"), 1, true, "initializer lists of 0..5 elements");
    auto t = [&](int want_, auto&& f) { int o = outcome<std::runtime_error>(f); c.want(o == want_, "constructor", "initializer list: outcome %d, expected %d", o, want_); };
    T a(1), b(2);
    t(1, [&] { SizedVec<T, 3> v{a}; }); t(1, [&] { SizedVec<T, 3> v{a, b}; }); t(0, [&] { SizedVec<T, 3> v{a, b, a}; }); t(1, [&] { SizedVec<T, 3> v{a, b, a, b}; });
    t(0, [&] { SizedVec<T, 1> v{a}; }); t(1, [&] { SizedVec<T, 1> v{a, b}; });
    t(1, [&] { SizedMat<T, 2, 2> v{a, b, a}; }); t(0, [&] { SizedMat<T, 2, 2> v{a, b, a, b}; }); t(1, [&] { SizedMat<T, 2, 2> v{a, b, a, b, a}; });
    t(0, [&] { SizedMat<T, 1, 3> v{a, b, a}; }); t(1, [&] { SizedMat<T, 1, 3> v{a}; });
}
template<class T> void run(Ctx& c) {
    init_lists<T>(c);
    for (size_t n = 0; n <= 20; ++n) for (size_t m = 0; m <= 20; ++m) {
        if (n == m) { equal_case<T>(c, n); continue; }
        for (int op = 0; op < 8; ++op) dyn_case<T>(c, n, m, c.rng.chance(0.5) ? n : m, op);
        for (int op = 8; op < 10; ++op) dyn_case<T>(c, n, n, m, op);
    }
    for (size_t k = 0; k < c.n(200, 5000); ++k) {
        size_t n = gen_size(c.rng, c.thorough, 0), m = c.rng.chance(0.5) ? n + 1 : c.rng.chance(0.5) && n ? n - 1 : gen_size(c.rng, c.thorough);
        if (n == m) { equal_case<T>(c, n); continue; }
        for (int op = 0; op < 8; ++op) dyn_case<T>(c, n, m, c.rng.chance(0.5) ? n : c.rng.below(40), op);
        for (int op = 8; op < 10; ++op) dyn_case<T>(c, n, n, m, op);
    }
    for (size_t k = 0; k < c.n(8, 100); ++k) {   // sizes that agree in their low bits
        static const int bits[] = {4, 5, 6, 7, 8, 8, 12, 15, 16, 16, 17};
        size_t n = c.rng.below(c.rng.chance(0.5) ? 5 : 300), m = n + (((size_t)1 + c.rng.below(2)) << c.rng.pick(bits));
        if (c.rng.chance(0.5)) std::swap(n, m);
        for (int op = 0; op < 8; ++op) dyn_case<T>(c, n, m, c.rng.chance(0.5) ? n : m, op);
        for (int op = 8; op < 10; ++op) dyn_case<T>(c, n, n, m, op);
        if (k < 3) equal_case<T>(c, std::max(n, m));
    }
    for_sizes(std::index_sequence<1, 2, 3, 4, 8, 15, 16, 17, 33>{}, [&](auto N) {
        for (size_t b : {16, 32, 64, 128, 256, 1024, 4096, 65536, 131072}) { for (int op = 0; op < 6; ++op) sized_case<T, N.value>(c, N.value + b, op); ctor_case<T, N.value>(c, N.value + b); }
        equal_sized<T, N.value>(c);
        for (size_t m = 0; m <= 40; ++m) {
            ctor_case<T, N.value>(c, m);
            if (m != N.value) for (int op = 0; op < 6; ++op) sized_case<T, N.value>(c, m, op);
        }
    });
    for (size_t m = 0; m <= 20; ++m) { ctor_mat<T, 1, 1>(c, m); ctor_mat<T, 2, 3>(c, m); ctor_mat<T, 3, 2>(c, m); ctor_mat<T, 4, 4>(c, m); }
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "size", [](Ctx& c) { run<double>(c); run<float>(c); run<std::complex<double>>(c); });
}
