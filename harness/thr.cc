// P21: constant objects shared by threads, and independence of the number of threads of internally parallel loops.
#include "sparse.hpp"
#include "trisys.hpp"
#include "spd.hpp"
#include "ilupat.hpp"
#include <atomic>
#include <thread>
using namespace vp;
using namespace lalib;
using namespace lalib::solver;
extern "C" { void omp_set_num_threads(int); int omp_get_thread_num(); int omp_get_num_threads(); void omp_set_max_active_levels(int); }

template<class T> struct Bundle {
    size_t n, m, k; Sys<T> sys; Spd<T> spd; SpModel<T> sp, sp2;
    const DynVec<T> x, y, z; const SizedVec<T, 20> fx, fy; const SizedVec<T, 3> c3; const SizedVec<T, 4> c4;
    const DynMat<T> a, b, sq; const SizedMat<T, 4, 4> fm; const SizedMat<T, 2, 2> m2;
    const DynTriDiagMat<T> tri; const DynUpperTriMat<T> up; const HessenbergMat<T> hess; const DynLowerTriMat<T> low; const DynHermiteMat<T> herm;
    const SpMat<T> csr; const SpCooMat<T> coo, coo2;
    const DynCholeskyFactorization<T> chol; const DynTriCholeskyFactorization<T> tchol; const DynModCholeskyFactorization<T> mchol;
    const Ilu<T, SpMat<T>> ilu; const Ilu<T, DynMat<T>> ilud; const Gmres<T, SpMat<T>> gm; const Gmres<T, DynMat<T>> gmd;
    const DynVec<T> wrong;
    static HessenbergMat<T> mkh(Rng r, size_t n) { auto h = HessenbergMat<T>::with_capacity(4); for (size_t i = 0; i < n; ++i) h.extend_with_zero(); for (size_t i = 0; i < n; ++i) for (size_t j = i ? i - 1 : 0; j < n; ++j) h(i, j) = gen<T>(r, D_INT); return h; }
    static std::vector<T> upk(Rng r, size_t n) { std::vector<T> v; for (size_t j = 0; j < n; ++j) for (size_t i = 0; i <= j; ++i) v.push_back(i == j ? T(1) : (T)r.range(-1, 1)); return v; }
    static SpModel<T> dom(Rng r, size_t n, int p) { return gen_dom<T>(r, n, p, 1.6); }
    static std::vector<T> v(Rng r, uint64_t salt, int kind, size_t n) { r.s ^= mix(salt); return gen_vec<T>(r, kind, n); }
    static Spd<T> mks(Rng r, size_t n) { return gen_spd<T>(r, n, 6); }
    // The same seed gives the same bundle.
    Bundle(Rng r, size_t n, size_t m, int kind, int pat) : n(n), m(m), k(1 + n % 5), sys(r, n, k, SYS), spd(mks(r, n)), sp(dom(r, n, pat)), sp2(dom(Rng(mix(r.s)), n, (pat + 3) % PATTERNS)),
        x(v(r, 1, kind, n)), y(v(r, 2, kind, n)), z(v(r, 3, kind, m)), fx(v(r, 4, kind, 20)), fy(v(r, 5, kind, 20)), c3(v(r, 6, kind, 3)), c4(v(r, 60, kind, 4)),
        a(n, m, v(r, 7, kind, n * m)), b(m, k, v(r, 8, kind, m * k)), sq(n, n, v(r, 9, kind, n * n)), fm(v(r, 10, kind, 16)), m2(std::vector<T>{T(4), T(1), T(-2), T(3)}),
        tri(sys.dl, sys.d, sys.du), up(upk(r, n)), hess(mkh(r, n)), low(n, packed_lower(spd.a)), herm(n, packed_lower(spd.a)),
        csr(csr_of(sp, n)), coo(coo_of(r, sp, 2)), coo2(coo_of(r, sp2, 1)),
        chol(DynMat<T>(n, n, spd.a.a)), tchol(DynHermiteMat<T>(n, packed_lower(spd.a))), mchol(DynMat<T>(n, n, spd.a.a)),
        ilu(csr_of(sp, n)), ilud(DynMat<T>(n, n, dense_of(sp, n, n).a)), gm(csr_of(sp, n), (T)(sizeof(T) == 8 ? 1e-10 : 1e-4)), gmd(DynMat<T>(n, n, dense_of(sp, n, n).a), (T)(sizeof(T) == 8 ? 1e-10 : 1e-4)),
        wrong(std::vector<T>(n + 1, T(1))) {}
    Bundle(Sys<T>&&, int) = delete;
};
template<class T> using Res = std::vector<T>;
template<class T> struct Op { const char* name; Res<T> (*f)(const Bundle<T>&); int tol; };   // tol 0: element-wise and exact sums, 1: solves
template<class T, class V> Res<T> flat(const V& v) { return Res<T>(v.begin(), v.end()); }
template<class T, class M> Res<T> flatm(const M& m) { Res<T> o; for (size_t i = 0; i < m.shape().first; ++i) for (size_t j = 0; j < m.shape().second; ++j) o.push_back(m(i, j)); return o; }
template<class T> const std::vector<Op<T>>& ops() {
    using B = Bundle<T>;
    static const std::vector<Op<T>> o = {
        {"add", [](const B& b) { return flat<T>(b.x + b.y); }, 0},
        {"sub", [](const B& b) { return flat<T>(b.x - b.y); }, 0},
        {"neg", [](const B& b) { return flat<T>(-b.x); }, 0},
        {"scale", [](const B& b) { return flat<T>(T(3) * b.x); }, 0},
        {"axpy", [](const B& b) { DynVec<T> r(b.y); axpy(T(2), b.x, r); return flat<T>(r); }, 0},
        {"add-into", [](const B& b) { auto r = DynVec<T>::uninit(b.n); add(b.x, b.y, r); return flat<T>(r); }, 0},
        {"sub-into", [](const B& b) { auto r = DynVec<T>::uninit(b.n); sub(b.x, b.y, r); return flat<T>(r); }, 0},
        {"neg-into", [](const B& b) { auto r = DynVec<T>::uninit(b.n); neg(b.x, r); return flat<T>(r); }, 0},
        {"scale-in", [](const B& b) { DynVec<T> r(b.y); scale(T(-2), r); return flat<T>(r); }, 0},
        {"dot", [](const B& b) { return Res<T>{dot(b.x, b.y), b.x.dot(b.y), b.x.dot(b.x)}; }, 0},
        {"norm2", [](const B& b) { return Res<T>{b.x.norm2(), b.fx.norm2()}; }, 1},
        {"sized", [](const B& b) { auto r = b.fx + b.fy; auto s = b.fx - b.fy; auto o = flat<T>(r); for (auto e : s) o.push_back(e); for (auto e : -b.fx) o.push_back(e); o.push_back(dot(b.fx, b.fy)); return o; }, 0},
        {"cross", [](const B& b) { auto r = cross(b.c3, b.c3); return flat<T>(r); }, 0},
        {"read", [](const B& b) { Res<T> o; for (auto e : b.x) o.push_back(e); for (size_t i = 0; i < b.n; ++i) o.push_back(b.y[i]); for (auto e : b.a) o.push_back(e); for (auto e : flatm<T>(b.tri)) o.push_back(e); for (auto e : flatm<T>(b.up)) o.push_back(e); return o; }, 0},
        {"read-structured", [](const B& b) { Res<T> o = flatm<T>(b.hess); for (auto e : flatm<T>(b.low)) o.push_back(e); for (auto e : flatm<T>(b.herm)) o.push_back(e); for (size_t i = 0; i < b.n; ++i) for (size_t j = 0; j < b.n; ++j) { o.push_back(b.hess.at(i, j)); o.push_back(b.herm.at(i, j)); } auto c = b.hess.get_col(b.n - 1); o.push_back(T(c.size())); return o; }, 0},
        {"read-sparse", [](const B& b) { Res<T> o = flatm<T>(b.csr); for (auto e : flatm<T>(b.coo)) o.push_back(e); for (size_t i = 0; i < b.n; ++i) { o.push_back(b.csr.at(i, b.n - 1 - i)); o.push_back(b.coo.at(i, b.n - 1 - i)); } o.push_back(T(b.csr.nnz())); o.push_back(T(b.coo.nnz())); return o; }, 0},
        {"copies", [](const B& b) { DynVec<T> x(b.x); DynMat<T> a(b.a); SpMat<T> s(b.csr); SpCooMat<T> c(b.coo); auto o = flat<T>(x); for (auto e : flatm<T>(a)) o.push_back(e); for (auto e : flatm<T>(s)) o.push_back(e); return o; }, 0},
        {"mat-vec", [](const B& b) { return flat<T>(b.a * b.z); }, 0},
        {"mul-into", [](const B& b) { DynVec<T> r(b.y); mul(T(2), b.a, b.z, T(-1), r); return flat<T>(r); }, 0},
        {"mat-mat", [](const B& b) { return flatm<T>(b.a * b.b); }, 0},
        {"mat-add", [](const B& b) { return flatm<T>(b.sq + b.sq); }, 0},
        {"mat-sub", [](const B& b) { return flatm<T>(b.sq - b.sq); }, 0},
        {"mat-scale", [](const B& b) { return flatm<T>(T(3) * b.sq); }, 0},
        {"mat-neg", [](const B& b) { return flatm<T>(-b.sq); }, 0},
        {"sized-mat", [](const B& b) { auto o = flat<T>(b.fm * b.c4); for (auto e : flatm<T>(b.fm * b.fm)) o.push_back(e); return o; }, 0},
        {"inverted", [](const B& b) { return flatm<T>(inverted(b.m2)); }, 1},
        {"sp-mat-vec", [](const B& b) { return flat<T>(b.csr * b.x); }, 1},
        {"sp-mul-into", [](const B& b) { DynVec<T> r(b.y); mul(T(2), b.csr, b.x, T(-1), r); return flat<T>(r); }, 1},
        {"coo-to-csr", [](const B& b) { SpMat<T> s(b.coo); return flatm<T>(s); }, 0},
        {"coo-add", [](const B& b) { auto s = b.coo + b.coo2; return flatm<T>(s); }, 0},
        {"coo-sub", [](const B& b) { auto s = b.coo - b.coo2; return flatm<T>(s); }, 0},
        {"coo-plus-eq", [](const B& b) { SpCooMat<T> s(b.coo); s += b.coo2; return flatm<T>(s); }, 0},
        {"back-sub", [](const B& b) { std::vector<T> y(b.x.begin(), b.x.end()); b.up.back_sub(y); return y; }, 1},
        {"back-sub-mismatch", [](const B& b) { std::vector<T> y(b.n + 1, T(1)); int o = outcome<std::invalid_argument>([&] { b.up.back_sub(y); }); y.push_back(T(o)); return y; }, 0},
        {"mismatch", [](const B& b) { int o = outcome<vec_error::SizeMismatched>([&] { DynVec<T> r(b.x); add(b.x, b.wrong, r); }); int p = outcome<vec_error::SizeMismatched>([&] { (void)dot(b.x, b.wrong); }); return Res<T>{T(o), T(p)}; }, 0},
        {"gram-schmidt", [](const B& b) { size_t k = std::min<size_t>(4, b.n); std::vector<DynVec<T>> v; for (size_t i = 0; i < k; ++i) { auto e = std::vector<T>(b.n, T(0)); e[i] = T(2); e[(i + 1) % b.n] += T(1); v.emplace_back(e); } orth::cgs(v); Res<T> o; for (auto& q : v) for (auto e : q) o.push_back(e); return o; }, 1},
        {"tri-diag", [](const B& b) { DynTriDiagMat<T> m(b.tri); TriDiag<DynTriDiagMat<T>> s(m); DynVec<T> r = DynVec<T>::uninit(b.n); s.solve_linear(b.x, r); DynMat<T> q = DynMat<T>::uninit(b.n, b.k), rb(b.n, b.k, b.sys.b.a); s.solve_linear(rb, q); auto o = flat<T>(r); for (auto e : q) o.push_back(e); return o; }, 1},
        {"chol", [](const B& b) { auto o = flat<T>(b.chol.solve_linear(b.x)); DynVec<T> w(b.y); b.chol.solve_linear_mut(w); for (auto e : w) o.push_back(e); o.push_back(b.chol.factor_mat()(b.n - 1, 0)); return o; }, 1},
        {"chol-mat", [](const B& b) { DynMat<T> r(b.n, b.k, b.sys.b.a); return flatm<T>(b.chol.solve_linear(r)); }, 1},
        {"tri-chol", [](const B& b) { auto o = flat<T>(b.tchol.solve_linear(b.x)); DynVec<T> w(b.y); b.tchol.solve_linear_mut(w); for (auto e : w) o.push_back(e); o.push_back(b.tchol.lower_mat()(b.n - 1, 0)); return o; }, 1},
        {"tri-chol-mat", [](const B& b) { DynMat<T> r(b.n, b.k, b.sys.b.a); return flatm<T>(b.tchol.solve_linear(r)); }, 1},
        {"mod-chol", [](const B& b) { auto o = flat<T>(b.mchol.solve_linear(b.x)); DynVec<T> w(b.y); b.mchol.solve_linear_mut(w); for (auto e : w) o.push_back(e); return o; }, 1},
        {"mod-chol-mat", [](const B& b) { DynMat<T> r(b.n, b.k, b.sys.b.a); return flatm<T>(b.mchol.solve_linear(r)); }, 1},
        {"factorize", [](const B& b) { DynCholeskyFactorization<T> f(DynMat<T>(b.n, b.n, b.spd.a.a)); Ilu<T, SpMat<T>> g(SpMat<T>(b.csr)); auto o = flat<T>(f.solve_linear(b.x)); for (auto e : g.solve(b.x)) o.push_back(e); return o; }, 1},
        {"ilu", [](const B& b) { auto o = flat<T>(b.ilu.solve(b.x)); o.push_back(b.ilu.mat()(0, 0)); return o; }, 1},
        {"ilu-dense", [](const B& b) { return flat<T>(b.ilud.solve(b.x)); }, 1},
        {"gmres", [](const B& b) { return flat<T>(b.gm.solve(b.x)); }, 2},
        {"gmres-dense", [](const B& b) { return flat<T>(b.gmd.solve(b.y)); }, 2},
        {"solver-copies", [](const B& b) { auto c = b.chol; auto t = b.tchol; auto g = b.gm; auto o = flat<T>(c.solve_linear(b.y)); for (auto e : t.solve_linear(b.y)) o.push_back(e); return o; }, 1},
    };
    return o;
}
template<class T> bool close(const Res<T>& a, const Res<T>& b, int tol, bool exact, size_t& where) {
    if (a.size() != b.size()) { where = 0; return false; }
    long double m = 0; for (auto v : b) m = std::max(m, mag(v));
    long double rel = tol == 2 ? (sizeof(T) == 8 ? 1e-6L : 2e-2L) : tol == 1 ? 2e3L * eps<T>() : exact ? 0.0L : 64 * eps<T>();
    for (size_t i = 0; i < a.size(); ++i) if (!(fabsl((long double)a[i] - b[i]) <= rel * (m + (tol == 2)))) { where = i; return false; }
    return true;
}
static std::atomic<unsigned long> ticket{0};   // relaxed: orders the log, not the program

template<class T> void sharing(Ctx& c, bool big) {
    auto& r = c.rng; auto& o = ops<T>();
    size_t n = big ? 90 + r.below(70) : r.chance(0.5) ? 1 + r.below(14) : 15 + r.below(c.thorough ? 60 : 25), m = 1 + r.below(big ? 300 : 30);
    int kind = r.chance(0.7) ? D_INT : D_REAL, pat = (int)r.below(PATTERNS); unsigned nt = 2 + (unsigned)r.below(5);
    Rng seed(r.next());
    omp_set_num_threads(1 + (int)r.below(4));
    c.begin(opn<T>("share"), seed.s, true, "n=%zu m=%zu %s pattern=%s %u threads, each all %zu operations in its own order", n, m, dname(kind), pat_name(pat), nt, o.size());
    auto b = std::make_unique<const Bundle<T>>(seed, n, m, kind, pat);
    struct Out { std::vector<std::pair<size_t, Res<T>>> res; std::vector<unsigned long> tick; std::string exc; };
    std::vector<Out> out(nt); std::vector<std::thread> th; std::atomic<unsigned> ready{0};
    uint64_t base = r.next(); bool hot = r.chance(0.4); size_t hotop = r.below(o.size());
    for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t] {
        Rng q(base + t * 7919); auto& me = out[t];
        std::vector<size_t> order(o.size()); for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[q.below(i)]);
        if (hot) std::swap(order[0], *std::find(order.begin(), order.end(), hotop));   // everyone starts with the same first use
        me.res.reserve(order.size()); me.tick.reserve(order.size());
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
        try {
            for (size_t i : order) {
                me.tick.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
                me.res.emplace_back(i, o[i].f(*b));
                if (q.chance(0.2)) for (uint64_t s = q.below(3000); s--;) asm volatile("");
                else if (q.chance(0.1)) std::this_thread::yield();
            }
        } catch (const std::exception& e) { me.exc = e.what(); } catch (...) { me.exc = "unknown exception"; }
    });
    for (auto& t : th) t.join();
    std::vector<std::pair<unsigned long, unsigned>> order; for (unsigned t = 0; t < nt; ++t) for (auto k : out[t].tick) order.push_back({k, t});
    std::sort(order.begin(), order.end()); uint64_t h = 1; size_t sw = 0;
    for (size_t i = 0; i < order.size(); ++i) { h = mix(h ^ order[i].second); sw += i && order[i].second != order[i - 1].second; }
    static std::unordered_set<uint64_t> seen; seen.insert(h);
    c.counters["distinct_interleavings"] = seen.size(); c.count("thread_switches_between_operations", sw); c.count("concurrent_operations", order.size());
    // What one thread computes with objects of its own.
    const Bundle<T> own(seed, n, m, kind, pat);
    for (size_t i = 0; i < o.size(); ++i) {
        auto ref = o[i].f(own);
        for (unsigned t = 0; t < nt; ++t) for (auto& [k, v] : out[t].res) if (k == i) {
            size_t w = 0; bool ok = close<T>(v, ref, o[i].tol, kind == D_INT, w);
            c.observations += v.size();
            c.want(ok, o[i].name, "thread %u of %u got another result than a single thread (size %zu, expected %zu, first difference at %zu)", t, nt, v.size(), ref.size(), w);
        }
        auto again = o[i].f(*b); size_t w = 0;   // and the shared objects are as they were
        c.want(close<T>(again, ref, o[i].tol, kind == D_INT, w), o[i].name, "afterwards the shared objects give another result (difference at %zu)", w);
    }
    for (unsigned t = 0; t < nt; ++t) c.want(out[t].exc.empty(), "exception", "thread %u ended with an exception: %s", t, out[t].exc.c_str());
}
// The operations on vectors of n elements, in one list.
template<class T> Res<T> elementwise(const DynVec<T>& x, const DynVec<T>& y) {
    auto o = flat<T>(x + y); auto app = [&](auto&& v) { for (auto e : v) o.push_back(e); };
    app(x - y); app(-x); app(T(3) * x); { DynVec<T> q(y); axpy(T(2), x, q); app(q); } { DynVec<T> q(y); add(q, x, q); app(q); } { DynVec<T> q(y); sub(x, q, q); app(q); } { DynVec<T> q(y); neg(q, q); app(q); }
    return o;
}
// Long vectors, large matrices and every element type: what the bundle of all operations is too expensive or too real for.
template<class T> struct Wide {
    const DynVec<T> x, y; const DynMat<T> a, b, q; const DynVec<T> z, w; const SpMat<T> s; const SpCooMat<T> c1, c2; const SizedVec<T, 70> fx, fy; const SizedVec<T, 3> c3, d3; const SizedMat<T, 9, 7> fa; const SizedMat<T, 7, 9> fb; const SizedVec<T, 7> fz;
    static SpCooMat<T> coo(Rng& r, size_t n, size_t m) {
        std::vector<T> v; std::vector<size_t> i, j;
        for (size_t p = 0; p < n; ++p) for (size_t q = p % 3; q < m; q += 1 + r.below(9)) { v.push_back(gen<T>(r, D_INT) + T(p == 0)); i.push_back(p); j.push_back(q); }
        v.push_back(T(3)); i.push_back(n); j.push_back(m); return SpCooMat<T>(v, i, j);
    }
    static Rng at(Rng r, uint64_t salt) { r.s ^= mix(salt); return r; }
    static std::vector<T> v(Rng r, uint64_t salt, size_t n) { r.s ^= mix(salt); return gen_vec<T>(r, D_INT, n); }
    static SpCooMat<T> cc(Rng r, uint64_t salt, size_t n, size_t m) { r.s ^= mix(salt); return coo(r, n, m); }
    Wide(Rng r, size_t n, size_t p, size_t q, size_t l) : x(v(r, 1, n)), y(v(r, 2, n)), a(p, q, v(r, 3, p * q)), b(q, l, v(r, 4, q * l)), q(p, q, v(r, 5, p * q)), z(v(r, 6, q)), w(v(r, 7, q + 1)),
        s(cc(r, 8, p, q)), c1(cc(r, 9, p, q)), c2(cc(r, 10, q, p)), fx(v(r, 11, 70)), fy(v(r, 12, 70)), c3(v(r, 13, 3)), d3(v(r, 14, 3)), fa(v(r, 15, 63)), fb(v(r, 16, 63)), fz(v(r, 17, 7)) {}
};
template<class T> const std::vector<Res<T> (*)(const Wide<T>&)>& wide_ops() {
    using W = Wide<T>;
    static const std::vector<Res<T> (*)(const W&)> o = {
        [](const W& b) { return elementwise<T>(b.x, b.y); },
        [](const W& b) { auto o = flat<T>(b.x * T(2)); DynVec<T> r(b.y); scale(T(-3), r); for (auto e : r) o.push_back(e); for (auto e : scaled(T(2), b.y)) o.push_back(e); return o; },
        [](const W& b) { if constexpr (Tr<T>::cplx) return flat<T>(b.x); else return Res<T>{dot(b.x, b.y), b.x.dot(b.y), dot(b.fx, b.fy)}; },
        [](const W& b) { auto o = flat<T>(b.fx + b.fy); for (auto e : b.fx - b.fy) o.push_back(e); for (auto e : -b.fx) o.push_back(e); SizedVec<T, 70> r(b.fy); axpy(T(2), b.fx, r); for (auto e : r) o.push_back(e); sub(b.fx, r, r); for (auto e : r) o.push_back(e); return o; },
        [](const W& b) { auto o = flat<T>(b.a * b.z); DynVec<T> r = DynVec<T>::filled(b.a.shape().first, T(2)); mul(T(2), b.a, b.z, T(-1), r); for (auto e : r) o.push_back(e); return o; },
        [](const W& b) { auto o = flatm<T>(b.a * b.b); DynMat<T> r = DynMat<T>::filled(T(1), b.a.shape().first, b.b.shape().second); mul(T(2), b.a, b.b, T(-1), r); for (auto e : r) o.push_back(e); return o; },
        [](const W& b) { auto o = flatm<T>(b.a + b.q); for (auto e : b.a - b.q) o.push_back(e); for (auto e : T(2) * b.a) o.push_back(e); return o; },
        [](const W& b) { auto o = flatm<T>(b.fa * b.fb); for (auto e : b.fa * b.fz) o.push_back(e); for (auto e : cross(b.c3, b.d3)) o.push_back(e); return o; },
        [](const W& b) { auto o = flat<T>(b.s * b.w); DynVec<T> r = DynVec<T>::filled(b.s.shape().first, T(2)); mul(T(2), b.s, b.w, T(-1), r); for (auto e : r) o.push_back(e); return o; },
        [](const W& b) { return flatm<T>(b.s); },
        [](const W& b) { auto s = b.c1 + b.c2; return flatm<T>(SpMat<T>(s)); },
        [](const W& b) { SpCooMat<T> s(b.c1); s += b.c2; s += s; auto [n, m] = s.shape(); Res<T> o{T((int)n), T((int)m), T((int)s.nnz())}; for (auto& e : s.values()) o.push_back(e); return o; },
        [](const W& b) { DynVec<T> x(b.x); DynMat<T> a(b.a); SpMat<T> s(b.c1); auto o = flat<T>(x); for (auto e : a) o.push_back(e); for (auto& e : s.values()) o.push_back(e); x = b.y; a = b.q; for (auto e : x) o.push_back(e); for (auto e : a) o.push_back(e); return o; },
    };
    return o;
}
template<class T> void wide(Ctx& c) {
    auto& r = c.rng; auto& o = wide_ops<T>(); bool ts = c.cfg.rfind("tsan", 0) == 0;
    size_t n = r.chance(0.5) ? 1 + r.below(300) : 300 + r.below(6000), p = 1 + r.below(r.chance(0.3) ? (ts ? 90 : 200) : 20), q = 1 + r.below(r.chance(0.3) ? (ts ? 90 : 200) : 20), l = 1 + r.below(40); unsigned nt = 2 + (unsigned)r.below(4);
    Rng seed(r.next()); omp_set_num_threads(1 + (int)r.below(3));
    c.begin(opn<T>("wide"), seed.s, true, "n=%zu matrices %zux%zux%zu, %u threads, each all %zu operations in its own order", n, p, q, l, nt, o.size());
    auto b = std::make_unique<const Wide<T>>(seed, n, p, q, l);
    std::vector<std::vector<Res<T>>> out(nt, std::vector<Res<T>>(o.size())); std::vector<std::string> exc(nt); std::vector<std::thread> th; std::atomic<unsigned> ready{0}; uint64_t base = r.next();
    for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t] {
        Rng g(base + (t / 2) * 7919);   // pairs of threads in the same order
        std::vector<size_t> order(o.size()); for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
        try { for (size_t i : order) out[t][i] = o[i](*b); } catch (const std::exception& e) { exc[t] = e.what(); } catch (...) { exc[t] = "unknown exception"; }
    });
    for (auto& t : th) t.join();
    omp_set_num_threads(1);
    const Wide<T> own(seed, n, p, q, l);
    for (size_t i = 0; i < o.size(); ++i) {
        auto ref = o[i](own);
        for (unsigned t = 0; t < nt; ++t) { c.observations += ref.size(); c.want(out[t][i] == ref, "result", "operation %zu: thread %u of %u got another result than a single thread", i, t, nt); }
        c.want(o[i](*b) == ref, "shared", "operation %zu: afterwards the shared objects give another result", i);
    }
    for (unsigned t = 0; t < nt; ++t) c.want(exc[t].empty(), "exception", "thread %u ended with an exception: %s", t, exc[t].c_str());
    c.count("wide_rounds"); omp_set_num_threads(4);
}
// More threads than anyone has processors.
template<class T> void crowd(Ctx& c, size_t n) {
    Rng seed(c.rng.next()); const DynVec<T> x(gen_vec<T>(seed, D_INT, n)), y(gen_vec<T>(seed, D_INT, n));
    omp_set_num_threads(1); auto ref = elementwise<T>(x, y); T d = dot(x, y), nn = x.norm2();
    for (int k : {16, 17, 24, 33, 48, 65, 70, 129, 140, 257, 300}) {
        omp_set_num_threads(k);
        c.begin(opn<T>("crowd"), mix(seed.s ^ (uint64_t)k), true, "n=%zu, %d threads in parallel loops", n, k);
        auto now = elementwise<T>(x, y); c.observations += now.size();
        c.want(now == ref, "elementwise", "differs from the result with one thread");
        c.want(dot(x, y) == d, "dot", "the dot product differs from the one with one thread");
        c.want(fabsl((long double)x.norm2() - nn) <= 2 * n * eps<T>() * mag(nn), "norm2", "the norm differs beyond rounding from the one with one thread");
    }
    omp_set_num_threads(4);
}
// Called from the threads of a parallel region of the program, where the loops inside the library have a team of their own.
template<class T> void region(Ctx& c, size_t n, int kind) {
    auto& r = c.rng; size_t m = 1 + r.below(40), cap = std::min<size_t>(n, 40);
    Rng seed(r.next());
    const Bundle<T> own(seed, cap, m, kind, (int)r.below(PATTERNS));
    const DynVec<T> x(Bundle<T>::v(seed, 11, kind, n)), y(Bundle<T>::v(seed, 12, kind, n));
    auto& o = ops<T>();
    omp_set_num_threads(1);
    std::vector<Res<T>> ref{elementwise<T>(x, y)}; for (auto& op : o) ref.push_back(op.f(own));
    int inner = 1 + (int)r.below(5), levels = 1 + (int)r.below(2), k = 2 + (int)r.below(3);
    omp_set_num_threads(inner); omp_set_max_active_levels(levels);
    c.begin(opn<T>("region"), mix(seed.s ^ (uint64_t)(inner * 100 + levels * 10 + k)), true, "n=%zu %s, inside a parallel region of %d threads, default %d threads, %d active levels", n, dname(kind), k, inner, levels);
    std::vector<std::vector<Res<T>>> out(k); std::vector<std::string> exc(k); std::atomic<int> team{0};
    #pragma omp parallel num_threads(k)
    {
        int t = omp_get_thread_num(); team.store(omp_get_num_threads(), std::memory_order_relaxed);
        try { out[t].push_back(elementwise<T>(x, y)); for (auto& op : o) out[t].push_back(op.f(own)); }
        catch (const std::exception& e) { exc[t] = e.what(); } catch (...) { exc[t] = "unknown exception"; }
    }
    for (int t = 0; t < team; ++t) {
        c.want(exc[t].empty(), "exception", "thread %d ended with an exception: %s", t, exc[t].c_str());
        for (size_t i = 0; i < out[t].size(); ++i) {
            size_t w = 0; c.observations += ref[i].size();
            c.want(close<T>(out[t][i], ref[i], i ? o[i - 1].tol : 0, kind == D_INT, w), i ? o[i - 1].name : "elementwise", "thread %d of %d in a parallel region got another result than the program alone (difference at %zu)", t, team.load(), w);
        }
    }
    c.count("operations_in_parallel_regions", (size_t)team * ref.size());
    omp_set_num_threads(4); omp_set_max_active_levels(1);
}
template<class T> void counts(Ctx& c, size_t n, int kind) {
    auto& r = c.rng; size_t m = 1 + r.below(40), cap = std::min<size_t>(n, 70);
    Rng seed(r.next()); static const int cnt[] = {1, 2, 3, 4, 5, 7, 8, 13};
    const Bundle<T> small(seed, cap, m, kind, (int)r.below(PATTERNS));
    std::vector<Res<T>> ref;
    const DynVec<T> x(Bundle<T>::v(seed, 11, kind, n)), y(Bundle<T>::v(seed, 12, kind, n));
    auto sums = [&]() -> Res<T> { return {dot(x, y), x.dot(x)}; };
    for (int k : cnt) {
        omp_set_num_threads(k);
        c.begin(opn<T>("threads"), mix(seed.s ^ (uint64_t)k), true, "n=%zu %s, %d threads in parallel loops", n, dname(kind), k);
        size_t w = 0; std::vector<Res<T>> now; now.push_back(elementwise<T>(x, y)); now.push_back(sums()); now.push_back({x.norm2()});
        for (auto& op : ops<T>()) now.push_back(op.f(small));
        if (k == 1) { ref = now; continue; }
        c.want(close<T>(now[0], ref[0], 0, kind == D_INT, w), "elementwise", "element %zu differs from the result with one thread", w);
        long double m2 = 0; for (size_t i = 0; i < n; ++i) m2 += std::max(mag(x[i]) * mag(x[i]), mag(x[i]) * mag(y[i]));
        bool ok = true; for (size_t i = 0; i < 2; ++i) ok = ok && fabsl((long double)now[1][i] - ref[1][i]) <= (kind == D_INT ? 0.0L : 2 * (long double)n * eps<T>() * m2);
        c.want(ok, "dot", "the dot product differs beyond rounding from the one with one thread");
        c.want(close<T>(now[2], ref[2], 1, false, w), "norm2", "the norm differs beyond rounding from the one with one thread");
        for (size_t i = 0; i < ops<T>().size(); ++i) c.want(close<T>(now[3 + i], ref[3 + i], ops<T>()[i].tol, kind == D_INT, w), ops<T>()[i].name, "differs from the result with one thread at %zu", w);
        c.observations += n * 8;
    }
    omp_set_num_threads(4);
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "thr", [](Ctx& c) {
        bool ts = c.cfg.rfind("tsan", 0) == 0;
        for (size_t q = 0; q < (ts ? c.n(12, 200) : c.n(60, 1500)); ++q) { sharing<double>(c, false); sharing<float>(c, false); }
        for (size_t q = 0; q < (ts ? c.n(1, 8) : c.n(3, 30)); ++q) { sharing<double>(c, true); if (q % 2) sharing<float>(c, true); }
        for (size_t q = 0; q < (ts ? c.n(5, 60) : c.n(20, 300)); ++q) { wide<double>(c); wide<float>(c); wide<std::complex<double>>(c); wide<std::complex<float>>(c); wide<int>(c); }
        if (!ts) for (size_t n : {40, 1000, 6000}) { crowd<double>(c, n); crowd<float>(c, n); }
        static const size_t sz[] = {1, 15, 16, 17, 31, 100, 257, 1000, 4097};
        for (size_t q = 0; q < (ts ? c.n(4, 30) : c.n(18, 180)); ++q) { size_t n = c.rng.pick(sz); if (q < 9 && !ts) n = sz[q]; counts<double>(c, n, q % 2 ? D_REAL : D_INT); counts<float>(c, n, q % 2 ? D_REAL : D_INT); }
        for (size_t q = 0; q < (ts ? c.n(4, 40) : c.n(24, 300)); ++q) { size_t n = c.rng.pick(sz); region<double>(c, n, q % 2 ? D_REAL : D_INT); region<float>(c, n, q % 2 ? D_REAL : D_INT); }
    });
}
