// P24: constructors and element order. Every object is built in memory that was filled with non-zero bytes before.
#include "lib.hpp"
#include "huge.hpp"
#include "ref.hpp"
using namespace vp;
using namespace lalib;

__attribute__((noinline)) static void dirty_stack(unsigned char b) { volatile unsigned char junk[24576]; for (size_t i = 0; i < sizeof junk; ++i) junk[i] = b; asm volatile("" ::: "memory"); }
__attribute__((noinline)) static void dirty_heap(size_t bytes, unsigned char b) {
    void* p[4]; for (auto& q : p) { q = malloc(bytes + 1); memset(q, b, bytes + 1); }
    for (auto q : p) { asm volatile("" : : "r"(q) : "memory"); free(q); }
}
// A place of known, dirty bytes with guards around it, in which the object under test is built.
template<class X> struct Place {
    unsigned char* raw; X* x = nullptr; unsigned char fill;
    explicit Place(unsigned char f) : fill(f) { raw = (unsigned char*)aligned_alloc(64, (sizeof(X) + 128 + 63) / 64 * 64); memset(raw, f, sizeof(X) + 128); }
    template<class F> X& build(F&& f) { x = new (raw + 64) X(f()); return *x; }
    bool ok() const { for (size_t i = 0; i < 64; ++i) if (raw[i] != fill || raw[64 + sizeof(X) + i] != fill) return false; return true; }
    ~Place() { if (x) x->~X(); free(raw); }
};
static unsigned char fillb(Ctx& c) { static const unsigned char f[] = {0xFF, 0xA5, 0x7F, 0x41}; return c.rng.pick(f); }

template<class T, class X> void check_vec(Ctx& c, X& x, std::vector<T> ref, bool writes = true) {
    const X& k = x; size_t n = ref.size();
    c.want(k.size() == n, "size", "%zu elements, expected %zu", (size_t)k.size(), n);
    if (k.size() != n) return;
    auto all = [&](const char* when) {
        std::vector<T> a, b, d, e; for (size_t i = 0; i < n; ++i) a.push_back(k[i]);
        for (auto it = k.begin(); it != k.end(); ++it) b.push_back(*it);
        for (auto it = x.begin(); it != x.end(); ++it) d.push_back(*it);
        for (auto it = k.cbegin(); it != k.cend(); ++it) e.push_back(*it);
        std::vector<T> f(k.data(), k.data() + n), g(x.data(), x.data() + n), h; for (size_t i = 0; i < n; ++i) h.push_back(x[i]);
        const char* nm[] = {"index", "begin", "begin-const", "cbegin", "data", "data-const", "index-const"};
        int q = 0; for (auto* v : {&h, &d, &b, &e, &g, &f, &a}) { c.want(v->size() == n, "count", "%s: %s yields %zu elements, expected %zu", when, nm[q], v->size(), n); if (v->size() == n) c.same(nm[q], v->data(), ref.data(), n); ++q; }
    };
    all("built");
    if (!writes || !n) return;
    for (int k2 = 0; k2 < 6; ++k2) {
        size_t i = c.rng.below(n); T t = T((Real<T>)(1000 + k2));
        switch (k2 % 3) { case 0: x[i] = t; break; case 1: *(x.begin() + i) = t; break; default: x.data()[i] = t; }
        ref[i] = t; all("written");
    }
}
template<class T, class X> void check_mat(Ctx& c, X& x, std::vector<T> ref, size_t n, size_t m) {
    const X& k = x; auto s = k.shape();
    c.want(s.first == n && s.second == m, "shape", "shape %zux%zu, expected %zux%zu", (size_t)s.first, (size_t)s.second, n, m);
    if (s.first != n || s.second != m) return;
    auto all = [&](const char* when) {
        std::vector<T> v[8];
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { v[0].push_back(k(i, j)); v[1].push_back(x(i, j)); v[2].push_back(k.at(i, j)); v[3].push_back(x.mut_at(i, j)); v[4].push_back(k.data()[i * m + j]); v[5].push_back(x.data()[i * m + j]); }
        for (auto it = x.begin(); it != x.end(); ++it) v[6].push_back(*it);
        for (auto it = k.cbegin(); it != k.cend(); ++it) v[7].push_back(*it);
        static const char* nm[] = {"call-const", "call", "at", "mut_at", "data-const", "data", "iterate", "citerate"};
        for (int q = 0; q < 8; ++q) { c.want(v[q].size() == n * m, "count", "%s: %s yields %zu elements, expected %zu", when, nm[q], v[q].size(), n * m); if (v[q].size() == n * m) c.same(nm[q], v[q].data(), ref.data(), n * m); }
        std::vector<T> b; for (auto& e : k) b.push_back(e);
        c.want(b.size() == n * m, "count", "%s: const iteration yields %zu elements", when, b.size());
        if (b.size() == n * m) c.same("iterate-const", b.data(), ref.data(), b.size());
    };
    all("built");
    if (ref.empty()) return;
    for (int w = 0; w < 8; ++w) {
        size_t q = c.rng.below(n * m), i = q / m, j = q % m; T t = T((Real<T>)(1000 + w));
        switch (w % 4) { case 0: x(i, j) = t; break; case 1: x.mut_at(i, j) = t; break; case 2: x.data()[q] = t; break; default: *(x.begin() + q) = t; }
        ref[q] = t; all("written");
    }
}
template<class T> std::vector<T> codes(Ctx& c, size_t n) { return gen_vec<T>(c.rng, c.rng.chance(0.6) ? D_POS : D_INT, n, c.rng.below(11)); }

template<class T, size_t N> void sized_vec(Ctx& c) {
    using X = SizedVec<T, N>;
    auto src = codes<T>(c, N); std::array<T, N> arr; std::copy(src.begin(), src.end(), arr.begin());
    T f = gen<T>(c.rng, D_INT);
    auto go = [&](const char* how, auto&& mk, const std::vector<T>& ref) {
        c.begin(cat(how, tname<T>()), hv(src, hs(f, N)), true, "SizedVec<%zu> %s from %s", N, how, show(src.data(), N).c_str());
        Place<X> p(fillb(c)); dirty_stack(p.fill);
        X& x = p.build(mk); check_vec<T>(c, x, ref); c.want(p.ok(), "stray-write", "bytes around the vector were overwritten");
    };
    go("SizedVec(array)", [&] { return X(arr); }, src);
    go("SizedVec(vector)", [&] { return X(src); }, src);
    go("SizedVec::filled", [&] { return X::filled(f); }, std::vector<T>(N, f));
    c.begin(opn<T>("SizedVec::uninit"), N, true, "N=%zu", N); auto u = X::uninit(); c.want(u.size() == N, "size", "uninit has %zu elements", (size_t)u.size());
    if constexpr (N == 4) {
        std::vector<T> l{src[0], src[1], src[2], src[3]};
        go("SizedVec{list}", [&] { return X{src[0], src[1], src[2], src[3]}; }, l);
        go("SizedVec(list)", [&] { return X(std::initializer_list<T>{src[0], src[1], src[2], src[3]}); }, l);
    }
    if constexpr (N == 1) go("SizedVec{list}", [&] { return X{src[0]}; }, src);
}
template<class T> void dyn_vec(Ctx& c) {
    using X = DynVec<T>;
    size_t n = c.rng.chance(0.1) ? 0 : gen_size(c.rng, false);
    auto src = codes<T>(c, n); T f = gen<T>(c.rng, D_INT);
    auto go = [&](const char* how, auto&& mk, const std::vector<T>& ref) {
        c.begin(cat(how, tname<T>()), hv(ref, hs(f, n)), n > 0, "DynVec %s of %zu elements %s", how, n, show(ref.data(), ref.size()).c_str());
        Place<X> p(fillb(c)); dirty_stack(p.fill); dirty_heap(ref.size() * sizeof(T), p.fill);
        X& x = p.build(mk); check_vec<T>(c, x, ref); c.want(p.ok(), "stray-write", "bytes around the vector were overwritten");
    };
    go("DynVec(vector)", [&] { return X(src); }, src);
    { auto s2 = src; go("DynVec(vector&&)", [&] { return X(std::move(s2)); }, src); }
    go("DynVec::filled", [&] { return X::filled(n, f); }, std::vector<T>(n, f));
    go("DynVec()", [&] { return X(); }, {});
    if (n >= 3) { go("DynVec{list}", [&] { return X{src[0], src[1], src[2]}; }, {src[0], src[1], src[2]}); go("DynVec{1}", [&] { return X{src[0]}; }, {src[0]}); }
    c.begin(opn<T>("DynVec::uninit"), n, true, "n=%zu", n); auto u = X::uninit(n); c.want(u.size() == n, "size", "uninit(%zu) has %zu elements", n, (size_t)u.size());
}
template<class T> std::vector<T> diagonal(const std::vector<T>& d) { size_t n = d.size(); std::vector<T> v(n * n, T(0)); for (size_t i = 0; i < n; ++i) v[i * n + i] = d[i]; return v; }
template<class T, size_t N, size_t M> void sized_mat(Ctx& c) {
    using X = SizedMat<T, N, M>;
    auto src = codes<T>(c, N * M); std::array<T, N * M> arr; std::copy(src.begin(), src.end(), arr.begin());
    T f = gen<T>(c.rng, D_INT);
    auto go = [&](const char* how, auto&& mk, const std::vector<T>& ref) {
        c.begin(cat(how, tname<T>()), hv(ref, N * 100 + M), true, "SizedMat<%zu,%zu> %s %s", N, M, how, show(ref.data(), ref.size()).c_str());
        Place<X> p(fillb(c)); dirty_stack(p.fill);
        X& x = p.build(mk); check_mat<T>(c, x, ref, N, M); c.want(p.ok(), "stray-write", "bytes around the matrix were overwritten");
    };
    go("SizedMat(array)", [&] { return X(arr); }, src);
    go("SizedMat(vector)", [&] { return X(src); }, src);
    go("SizedMat::filled", [&] { return X::filled(f); }, std::vector<T>(N * M, f));
    if constexpr (N == M) {
        std::vector<T> d(src.begin(), src.begin() + N); std::array<T, N> da; std::copy(d.begin(), d.end(), da.begin());
        if constexpr (N > 1) { go("SizedMat::diag(array)", [&] { return X::diag(da); }, diagonal(d));
        go("SizedMat::diag(value)", [&] { return X::diag(f); }, diagonal(std::vector<T>(N, f))); }
        go("SizedMat::identity", [&] { return X::identity(); }, diagonal(std::vector<T>(N, T(1))));
    }
    if constexpr (N == 2 && M == 3) go("SizedMat{list}", [&] { return X{src[0], src[1], src[2], src[3], src[4], src[5]}; }, src);
    c.begin(opn<T>("SizedMat::uninit"), N * 100 + M, true, "%zux%zu", N, M); auto u = X::uninit(); c.want(u.shape().first == N && u.shape().second == M, "shape", "uninit has another shape");
}
template<class T> void dyn_mat(Ctx& c) {
    using X = DynMat<T>;
    size_t n = 1 + c.rng.below(c.rng.chance(0.2) ? 60 : 9), m = 1 + c.rng.below(c.rng.chance(0.2) ? 60 : 9);
    auto src = codes<T>(c, n * m); T f = gen<T>(c.rng, D_INT);
    auto go = [&](const char* how, auto&& mk, const std::vector<T>& ref, size_t a, size_t b) {
        c.begin(cat(how, tname<T>()), hv(ref, a * 1000 + b), a * b > 1, "DynMat %s %zux%zu %s", how, a, b, show(ref.data(), ref.size()).c_str());
        Place<X> p(fillb(c)); dirty_stack(p.fill); dirty_heap(ref.size() * sizeof(T), p.fill);
        X& x = p.build(mk); check_mat<T>(c, x, ref, a, b); c.want(p.ok(), "stray-write", "bytes around the matrix were overwritten");
    };
    go("DynMat(n,m,vector)", [&] { return X(n, m, src); }, src, n, m);
    go("DynMat(vector,n,m)", [&] { return X(src, n, m); }, src, n, m);
    go("DynMat::filled", [&] { return X::filled(f, n, m); }, std::vector<T>(n * m, f), n, m);
    std::vector<T> d(src.begin(), src.begin() + std::min(n, src.size()));
    go("DynMat::diag(vector)", [&] { return X::diag(d); }, diagonal(d), d.size(), d.size());
    go("DynMat::diag(value,n)", [&] { return X::diag(f, n); }, diagonal(std::vector<T>(n, f)), n, n);
    go("DynMat::identity", [&] { return X::identity(n); }, diagonal(std::vector<T>(n, T(1))), n, n);
    if (n * m >= 6) { std::vector<T> s6(src.begin(), src.begin() + 6);
        go("DynMat(n,m,list)", [&] { return X(3, 2, {s6[0], s6[1], s6[2], s6[3], s6[4], s6[5]}); }, s6, 3, 2);
        go("DynMat{n,m,list}", [&] { return X{2, 3, {s6[0], s6[1], s6[2], s6[3], s6[4], s6[5]}}; }, s6, 2, 3); }
    c.begin(opn<T>("DynMat::uninit"), n * 100 + m, true, "%zux%zu", n, m); auto u = X::uninit(n, m); c.want(u.shape().first == n && u.shape().second == m && (size_t)(u.end() - u.begin()) == n * m, "shape", "uninit has another shape");
}
template<class T> void constants(Ctx& c) {
    c.begin(opn<T>("Zero/One"), 1, true, "Zero and One");
    auto z = Zero<T>::value(); auto o = One<T>::value();
    c.want(T(z) == T(0), "zero", "Zero is not 0"); c.want(T(o) == T(1), "one", "One is not 1");
    if constexpr (!std::is_integral_v<Real<T>>) for (int q = 0; q < 50; ++q) {
        T v = gen<T>(c.rng, D_REAL); if (mag(v) < 0.05L) continue;
        c.begin(opn<T>("reciprocal"), hs(v), true, "reciprocal of %s", show(&v, 1).c_str());
        T got = reciprocal(v); Ref<T> ref = Ref<T>(1) / up(v); long double b = 16 * eps<T>() * rmag(ref);
        c.values("value", &got, 1, &ref, &b);
    }
}
template<class X, class Y> void alias(Ctx& c, const char* n) { c.begin("alias", hash_str(n), true, "%s", n); c.want(std::is_same_v<X, Y>, "type", "%s names another type", n); }

// Millions of elements.
template<class T> void long_case(Ctx& c) {
    size_t q = huge_size(c), n = 900 + c.rng.below(700), m = q / n, d = 700 + c.rng.below(900); uint64_t s = c.rng.next(); T f = T(7);
    auto is = [&](const char* how, auto&& mk, size_t a, size_t b, auto&& want) {
        c.begin(cat(how, tname<T>()), mix(s ^ a), true, "long %zux%zu", a, b);
        dirty_heap(std::min<size_t>(a * b * sizeof(T), 1 << 22), 0xA5);
        auto x = mk(); bool ok;
        if constexpr (requires { x.shape(); }) ok = x.shape().first == a && x.shape().second == b; else ok = x.size() == a;
        ok = ok && (size_t)(x.end() - x.begin()) == a * b;
        c.want(ok, "size", "it has another size");
        if (ok) each<T>(c, "value", x.data(), a * b, want);
    };
    auto code_at = [&](size_t i) { return code<T>(i, s, 9); };
    auto fill_at = [&](size_t) { return f; };
    is("DynVec(vector)", [&] { return DynVec<T>(vp::codes<T>(q, s, 9)); }, q, 1, code_at);
    { auto v = vp::codes<T>(q, s, 9); is("DynVec(const vector)", [&] { return DynVec<T>(static_cast<const std::vector<T>&>(v)); }, q, 1, code_at); }
    is("DynVec::filled", [&] { return DynVec<T>::filled(q, f); }, q, 1, fill_at);
    { auto v = vp::codes<T>(n * m, s, 9); is("DynMat(n,m,vector)", [&] { return DynMat<T>(n, m, v); }, n, m, code_at); is("DynMat(vector,n,m)", [&] { return DynMat<T>(v, m, n); }, m, n, code_at); }
    is("DynMat::filled", [&] { return DynMat<T>::filled(f, n, m); }, n, m, fill_at);
    auto dv = vp::codes<T>(d, s, 9);
    is("DynMat::diag(vector)", [&] { return DynMat<T>::diag(dv); }, d, d, [&](size_t i) { return i / d == i % d ? dv[i / d] : T(0); });
    is("DynMat::diag(value,n)", [&] { return DynMat<T>::diag(f, d); }, d, d, [&](size_t i) { return i / d == i % d ? f : T(0); });
    is("DynMat::identity", [&] { return DynMat<T>::identity(d); }, d, d, [&](size_t i) { return i / d == i % d ? T(1) : T(0); });
    c.begin(cat("copies", tname<T>()), mix(s), true, "long n=%zu", q);
    DynVec<T> a(vp::codes<T>(q, s, 9)), b(a), e; e = b; auto w = std::move(b);
    c.want(a.size() == q && e.size() == q && w.size() == q, "size", "a copy has another size");
    if (a.size() == q && e.size() == q && w.size() == q) { each<T>(c, "copy", a.data(), q, code_at); each<T>(c, "copy", e.data(), q, code_at); each<T>(c, "copy", w.data(), q, code_at); }
    DynMat<T> g(n, m, vp::codes<T>(n * m, s, 9)), h(g); auto k = DynMat<T>::filled(f, 1, 1); k = h; auto l = std::move(h);
    for (auto* x : {&g, &k, &l}) { bool ok = x->shape().first == n && x->shape().second == m; c.want(ok, "size", "a copy has another shape"); if (ok) each<T>(c, "copy", x->data(), n * m, code_at); }
}
template<class T> void run(Ctx& c, size_t reps) {
    if (roomy(c)) for (int k = 0; k < (c.thorough ? 5 : 1); ++k) long_case<T>(c);
    constants<T>(c);
    for (size_t q = 0; q < reps; ++q) {
        for_sizes(std::index_sequence<1, 2, 3, 4, 5, 8, 16, 17, 33, 64>{}, [&](auto N) { sized_vec<T, N()>(c); });
        for (int k = 0; k < 12; ++k) { dyn_vec<T>(c); dyn_mat<T>(c); }
        sized_mat<T, 1, 1>(c); sized_mat<T, 1, 4>(c); sized_mat<T, 4, 1>(c); sized_mat<T, 2, 3>(c); sized_mat<T, 3, 2>(c); sized_mat<T, 3, 3>(c); sized_mat<T, 2, 2>(c); sized_mat<T, 5, 7>(c); sized_mat<T, 8, 8>(c);
    }
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "init", [](Ctx& c) {
        using cf = std::complex<float>; using cd = std::complex<double>;
        alias<VecF<3>, SizedVec<float, 3>>(c, "VecF"); alias<VecD<3>, SizedVec<double, 3>>(c, "VecD"); alias<VecC<3>, SizedVec<cf, 3>>(c, "VecC"); alias<VecZ<3>, SizedVec<cd, 3>>(c, "VecZ");
        alias<DynVecF, DynVec<float>>(c, "DynVecF"); alias<DynVecD, DynVec<double>>(c, "DynVecD"); alias<DynVecC, DynVec<cf>>(c, "DynVecC"); alias<DynVecZ, DynVec<cd>>(c, "DynVecZ");
        alias<MatF<2, 3>, SizedMat<float, 2, 3>>(c, "MatF"); alias<MatD<2, 3>, SizedMat<double, 2, 3>>(c, "MatD"); alias<MatC<2, 3>, SizedMat<cf, 2, 3>>(c, "MatC"); alias<MatZ<2, 3>, SizedMat<cd, 2, 3>>(c, "MatZ");
        alias<DynMatF, DynMat<float>>(c, "DynMatF"); alias<DynMatD, DynMat<double>>(c, "DynMatD"); alias<DynMatC, DynMat<cf>>(c, "DynMatC"); alias<DynMatZ, DynMat<cd>>(c, "DynMatZ");
        size_t k = c.n(12, 200);
        run<double>(c, k); run<float>(c, k); run<cd>(c, k); run<cf>(c, k); run<int>(c, k);
    });
}
