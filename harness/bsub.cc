// P20: back substitution.
#include "lib.hpp"
#include "ref.hpp"
#include "huge.hpp"
#include <deque>
#include <ranges>
#include <span>
using namespace vp;
using lalib::DynUpperTriMat; using lalib::DynVec; using lalib::SizedVec;

enum { DOM, EXACT, RANDOM, GRADED, DIAG, KINDS };
template<class T> struct Sys {
    size_t n; int kind; Mat<T> R; std::vector<T> x, y; bool exact;
    Sys(Rng& r, size_t n, int kind) : n(n), kind(kind), R(n, n), x(n), y(n), exact(kind == EXACT) {
        for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) {
            T& v = R(i, j);
            switch (kind) {
                case EXACT: v = i == j ? (T)std::ldexp(r.chance(0.5) ? 1.0 : -1.0, (int)r.below(4)) : (T)r.range(-5, 5); break;
                case DIAG: v = i == j ? (T)(0.1 + r.unit()) : T(0); break;
                case GRADED: v = i == j ? (T)std::ldexp(1.0 + r.unit(), (int)r.range(-6, 6)) : (T)((2 * r.unit() - 1) / (double)n); break;
                case RANDOM: v = i == j ? (T)(1 + r.unit()) * (r.chance(0.5) ? T(1) : T(-1)) : (T)(2 * r.unit() - 1) * (T)std::min(1.0, 6.0 / n); break;
                default: v = i == j ? (T)(n + r.unit()) : (T)(2 * r.unit() - 1);
            }
        }
        if (exact) { for (auto& v : x) v = (T)r.range(-9, 9); for (size_t i = 0; i < n; ++i) { T s = 0; for (size_t j = i; j < n; ++j) s += R(i, j) * x[j]; y[i] = s; } }
        else { int k = (int)r.below(4); y = gen_vec<T>(r, k == 0 ? D_INT : k == 1 ? D_SPARSE : D_REAL, n); }
        if (r.chance(0.25)) {   // other units, exactly
            const int lim = sizeof(T) == 8 ? 200 : 24; int ea = (int)r.range(-lim, lim), ex = (int)r.range(-lim, lim);
            for (auto& v : R.a) scale2(v, ea);
            for (auto& v : y) scale2(v, ea + ex);
            for (auto& v : x) scale2(v, ex);
        }
    }
};
template<class T> void begin(Ctx& c, const char* op, const Sys<T>& s) {
    static const char* kn[] = {"dominant", "exact", "random", "graded", "diagonal"};
    c.begin(cat(op, tname<T>()), hv(s.R.a, hv(s.y, s.n)), s.n > 1 && any_nonzero(s.y), "n=%zu %s R=%s y=%s", s.n, kn[s.kind], show(s.R.a.data(), s.R.a.size(), 9).c_str(), show(s.y.data(), s.n).c_str());
}
template<class T, class V> void check(Ctx& c, const Sys<T>& s, V&& got) {   // got(i)
    std::vector<T> x(s.n); for (size_t i = 0; i < s.n; ++i) x[i] = got(i);
    if (s.exact) { std::vector<Ref<T>> ref(s.x.begin(), s.x.end()); c.values<T>("exact-solution", x.data(), s.n, ref.data(), nullptr); return; }
    bool ok = true; size_t bi = 0; long double worst = 0;
    for (size_t i = 0; i < s.n; ++i) {
        long double v = -(long double)s.y[i], m = mag(s.y[i]);
        for (size_t j = i; j < s.n; ++j) { v += (long double)s.R(i, j) * x[j]; m += mag(s.R(i, j)) * mag(x[j]); }
        long double b = (long double)(2 * s.n + 6) * eps<T>() * m + tiny<T>();
        if (!(fabsl(v) <= b)) { ok = false; bi = i; worst = fabsl(v); }
    }
    c.observations += s.n;
    c.want(ok, "residual", "row %zu of %zu: residual %.3Lg", bi, s.n, worst);
}
template<class T> DynUpperTriMat<T> matrix(Rng& r, const Sys<T>& s) {
    auto column = [&](size_t j) { std::vector<T> v; for (size_t i = 0; i <= j; ++i) v.push_back(s.R(i, j)); return v; };
    switch (r.below(4)) {
        case 0: case 1: { std::vector<T> v; for (size_t j = 0; j < s.n; ++j) for (auto x : column(j)) v.push_back(x); return DynUpperTriMat<T>(std::move(v)); }
        case 2: { auto m = r.chance(0.5) ? DynUpperTriMat<T>() : DynUpperTriMat<T>::with_capacity(r.below(20)); for (size_t j = 0; j < s.n; ++j) m.extend_with(column(j)); return m; }
        default: { DynUpperTriMat<T> m; for (size_t j = 0; j < s.n; ++j) { m.extend_with_zero(); for (size_t i = 0; i <= j; ++i) { if (i % 2) m(i, j) = s.R(i, j); else m.mut_at(i, j) = s.R(i, j); } } return m; }
    }
}
template<class T> void system_case(Ctx& c, size_t n, int kind) {
    auto& r = c.rng;
    Sys<T> s(r, n, kind);
    const auto m = matrix(r, s);
    c.want(m.shape().first == n && m.shape().second == n, "shape", "the matrix has another shape");
    { begin(c, "vector", s); std::vector<T> y(s.y); m.back_sub(y); check(c, s, [&](size_t i) { return y[i]; }); }
    { begin(c, "dynvec", s); DynVec<T> y(s.y); m.back_sub(y); c.want(y.size() == n, "size", "size changed"); check(c, s, [&](size_t i) { return y[i]; }); }
    { begin(c, "span", s); std::vector<T> buf(n + 4, T(77)); std::copy(s.y.begin(), s.y.end(), buf.begin() + 2); m.back_sub(std::span<T>(buf.data() + 2, n)); check(c, s, [&](size_t i) { return buf[i + 2]; });
      c.want(buf[0] == T(77) && buf[1] == T(77) && buf[n + 2] == T(77) && buf[n + 3] == T(77), "stray-write", "elements outside the range were written"); }
    if (n <= 12) {
        { begin(c, "deque", s); std::deque<T> y(s.y.begin(), s.y.end()); m.back_sub(y); check(c, s, [&](size_t i) { return y[i]; }); }
        { begin(c, "reversed-view", s); std::vector<T> y(s.y.rbegin(), s.y.rend()); m.back_sub(std::views::reverse(y)); check(c, s, [&](size_t i) { return y[n - 1 - i]; }); }
    }
    // elements of the matrix afterwards
    bool same = true; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) same = same && m(i, j) == s.R(i, j);
    c.want(same, "matrix", "the matrix was changed");
    for (int q = 0; q < 2; ++q) {
        size_t k = q ? n + 1 + r.below(3) : (n ? n - 1 - r.below(n) : 1);
        begin(c, "wrong-size", s);
        std::vector<T> y = gen_vec<T>(r, D_INT, k), o = y;
        int out = outcome<std::invalid_argument>([&] { m.back_sub(y); });
        c.want(out == 1, "wrong-size", "a right-hand side of %zu elements for a %zux%zu matrix: outcome %d", k, n, n, out);
        c.want(y.size() == k, "size", "size changed");
        if (y.size() == k) c.same("rhs", y.data(), o.data(), k);
    }
}
template<class T, size_t N> void sized_case(Ctx& c, int kind) {
    Sys<T> s(c.rng, N, kind);
    const auto m = matrix(c.rng, s);
    begin(c, "sizedvec", s); Guarded<SizedVec<T, N>> y(s.y); m.back_sub(y.v); check(c, s, [&](size_t i) { return y.v[i]; });
    begin(c, "array", s); std::array<T, N> a; std::copy(s.y.begin(), s.y.end(), a.begin()); m.back_sub(a); check(c, s, [&](size_t i) { return a[i]; });
    c.want(y.ok(), "stray-write", "bytes next to the vector overwritten");
}
template<class T> void run(Ctx& c, size_t reps) {
    auto& r = c.rng;
    for (size_t n = 0; n <= 16; ++n) for (int k = 0; k < KINDS; ++k) for (size_t q = 0; q < c.n(4, 40); ++q) system_case<T>(c, n, k);
    for (size_t q = 0; q < reps; ++q) system_case<T>(c, 1 + r.below(q % 10 == 0 ? 160 : 40), (int)r.below(KINDS));
    if (roomy(c)) { system_case<T>(c, 1025 + r.below(1200), EXACT); if (c.thorough) for (int q = 0; q < 4; ++q) system_case<T>(c, 2000 + r.below(2500), EXACT); }
    system_case<T>(c, 257, RANDOM); system_case<T>(c, 300 + r.below(200), EXACT); system_case<T>(c, 520 + r.below(80), (int)r.below(KINDS));
    for (size_t q = 0; q < c.n(20, 200); ++q) for (int k = 0; k < KINDS; ++k) { sized_case<T, 1>(c, k); sized_case<T, 2>(c, k); sized_case<T, 3>(c, k); sized_case<T, 5>(c, k); sized_case<T, 12>(c, k); }
}
int main(int argc, char** argv) { return run_unit(argc, argv, "bsub", [](Ctx& c) { run<double>(c, c.n(150, 4000)); run<float>(c, c.n(150, 4000)); }); }
