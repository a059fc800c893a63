// Reference models on plain arrays, in long double, with rounding bounds.
#pragma once
#include "core.hpp"
namespace vp {

template<class T> struct Mat {   // row-major dense matrix
    size_t n = 0, m = 0;
    std::vector<T> a;
    Mat() = default;
    Mat(size_t n, size_t m, std::vector<T> v) : n(n), m(m), a(std::move(v)) {}
    Mat(size_t n, size_t m) : n(n), m(m), a(n * m) {}
    T& operator()(size_t i, size_t j) { return a[i * m + j]; }
    const T& operator()(size_t i, size_t j) const { return a[i * m + j]; }
};
template<class T> Mat<T> gen_mat(Rng& r, int kind, size_t n, size_t m, size_t off = 0) {
    Mat<T> A(n, m, gen_vec<T>(r, kind, n * m, off));
    if (r.chance(0.15)) switch (r.below(7)) {   // matrices with structure
        case 0: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) A(i, j) = T(i == j ? 1 : 0); break;
        case 1: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) if (i != j) A(i, j) = T(0); break;
        case 2: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m && j < i; ++j) if (j < n && i < m) A(i, j) = A(j, i); break;
        case 3: { size_t z = r.below(n ? n : 1), w = r.below(m ? m : 1); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) if (i == z || j == w) A(i, j) = T(0); break; }
        case 4: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) if (j > i) A(i, j) = T(0); break;
        case 5: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) if (j < i) A(i, j) = T(0); break;
        default: for (auto& v : A.a) v = T(0);
    }
    return A;
}

template<class T> struct Expect {
    std::vector<Ref<T>> v; std::vector<long double> b; long double peak = 0;
    void add(Ref<T> x, long double terms, long double k) {   // k roundings of quantities that sum up to `terms` in magnitude
        v.push_back(x); b.push_back(k * eps<T>() * terms + tiny<T>()); peak = std::max(peak, terms);
    }
    // integer data whose partial sums are all representable: the result must be exact
    bool exact(int kind) const { return std::is_integral_v<Real<T>> || (exact_kind(kind) && peak < 0.25L / eps<T>()); }
};
template<class T> void expect(Ctx& c, const char* what, const T* got, const Expect<T>& e, int kind) {
    bool ex = e.exact(kind);
    c.count(ex ? "values_exact" : "values_bounded", e.v.size());
    c.values<T>(what, got, e.v.size(), e.v.data(), ex ? nullptr : e.b.data());
}

template<class T> Expect<T> r_gemv(T al, const Mat<T>& A, const std::vector<T>& x, T be, const std::vector<T>& y) {
    Expect<T> e;
    for (size_t i = 0; i < A.n; ++i) {
        Ref<T> s = 0; long double t = 0;
        for (size_t k = 0; k < A.m; ++k) { s += rmul(up(A(i, k)), up(x[k])); t += mag(A(i, k)) * mag(x[k]); }
        long double by = y.empty() ? 0 : mag(be) * mag(y[i]);
        e.add(rmul(up(al), s) + (y.empty() ? Ref<T>(0) : rmul(up(be), up(y[i]))), mag(al) * t + t * (al == T(0) ? 0 : 1e-30L) + by, (long double)(2 * A.m + 16));
    }
    return e;
}
template<class T> Expect<T> r_gemm(T al, const Mat<T>& A, const Mat<T>& B, T be, const Mat<T>* C) {
    Expect<T> e;
    std::vector<Ref<T>> s(B.m); std::vector<long double> t(B.m);
    for (size_t i = 0; i < A.n; ++i) {
        std::fill(s.begin(), s.end(), Ref<T>(0)); std::fill(t.begin(), t.end(), 0);
        for (size_t k = 0; k < A.m; ++k) {
            auto a = up(A(i, k)); auto ma = mag(A(i, k));
            for (size_t j = 0; j < B.m; ++j) { s[j] += rmul(a, up(B(k, j))); t[j] += ma * mag(B(k, j)); }
        }
        for (size_t j = 0; j < B.m; ++j)
            e.add(rmul(up(al), s[j]) + (C ? rmul(up(be), up((*C)(i, j))) : Ref<T>(0)), mag(al) * t[j] + (C ? mag(be) * mag((*C)(i, j)) : 0), (long double)(2 * A.m + 16));
    }
    return e;
}
}
