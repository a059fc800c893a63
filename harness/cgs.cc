// P19: Gram-Schmidt orthogonalization.
#include "lib.hpp"
#include "ref.hpp"
#include <deque>
using namespace vp;
using lalib::DynVec; using lalib::SizedVec;

enum { NEAR, RANDOM, SCALED, INT_ORTH, UNIT, TRIANG, HADAMARD, KINDS };
template<class T> struct Fam { std::vector<std::vector<T>> v; bool exact = false; int kind; };
template<class T> Fam<T> gen_family(Rng& r, size_t m, size_t n, int kind) {
    Fam<T> f; f.kind = kind; f.v.assign(m, std::vector<T>(n, T(0)));
    std::vector<size_t> perm(n); for (size_t i = 0; i < n; ++i) perm[i] = i;
    for (size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
    switch (kind) {
        case NEAR: case SCALED: { int wide = r.chance(0.5) ? 8 : sizeof(T) == 8 ? 60 : 20;
            for (size_t j = 0; j < m; ++j) {
                T s = kind == SCALED ? (T)std::ldexp(1.0, (int)r.range(-wide, wide)) : T(1);
                for (size_t i = 0; i < n; ++i) f.v[j][i] = (T)((2 * r.unit() - 1) * 0.6 / std::sqrt((double)n)) * s;
                f.v[j][perm[j]] += (r.chance(0.5) ? s : -s);
            }
            break; }
        case RANDOM: for (auto& v : f.v) for (auto& x : v) x = (T)(2 * r.unit() - 1); break;      // m <= n / 2
        case TRIANG: for (size_t j = 0; j < m; ++j) for (size_t i = 0; i <= j; ++i) f.v[j][perm[i]] = i == j ? (r.chance(0.5) ? T(1) : T(-2)) : (T)((2 * r.unit() - 1) * 0.5); break;
        case INT_ORTH: {   // disjoint supports: orthogonal, any integers
            f.exact = true;
            for (size_t i = 0; i < n; ++i) f.v[i % m][perm[i]] = (T)(r.range(1, 9) * (r.chance(0.5) ? 1 : -1));
            break;
        }
        case UNIT: f.exact = true; for (size_t j = 0; j < m; ++j) f.v[j][perm[j]] = (T)r.range(1, 9); break;
        default: {   // columns of a Hadamard matrix in the first 2^k positions
            f.exact = true; size_t k = 1; while (2 * k <= n) k *= 2;
            for (size_t j = 0; j < m; ++j) for (size_t i = 0; i < k; ++i) f.v[j][i] = __builtin_popcountll(i & j) & 1 ? T(-1) : T(1);
        }
    }
    if (r.chance(0.25)) { int lim = sizeof(T) == 8 ? 150 : 20, e = (int)r.range(-lim, lim); for (auto& v : f.v) for (auto& x : v) scale2(x, e); }   // other units
    return f;
}
inline size_t max_vectors(int kind, size_t n) { if (kind == RANDOM) return std::max<size_t>(1, n / 2); if (kind == HADAMARD) { size_t k = 1; while (2 * k <= n) k *= 2; return k; } return n; }
template<class T, class C> void one(Ctx& c, const char* name, C vecs, const Fam<T>& f) {
    size_t m = f.v.size(), n = f.v[0].size();
    static const char* kn[] = {"near-orthogonal", "random", "scaled", "integer-orthogonal", "unit", "triangular", "hadamard"};
    uint64_t h = m * 1009 + n; for (auto& v : f.v) h = hv(v, h);
    c.begin(cat(name, tname<T>()), h, m > 1, "%zu vectors of %zu elements, %s, first=%s last=%s", m, n, kn[f.kind], show(f.v[0].data(), n).c_str(), show(f.v[m - 1].data(), n).c_str());
    lalib::orth::cgs(vecs);
    c.want(vecs.size() == m, "count", "%zu vectors after the call", (size_t)vecs.size());
    if (vecs.size() != m) return;
    bool sz = true; for (auto& v : vecs) sz = sz && v.size() == n;
    c.want(sz, "size", "a vector changed its size");
    if (!sz) return;
    c.same("first", vecs[0].data(), f.v[0].data(), n);
    if (f.exact) { for (size_t j = 1; j < m; ++j) { std::vector<Ref<T>> ref(f.v[j].begin(), f.v[j].end()); c.values<T>("orthogonal-input", vecs[j].data(), n, ref.data(), nullptr); } return; }
    // the Gram-Schmidt basis in long double (modified form, twice)
    std::vector<std::vector<long double>> q(m);
    for (size_t j = 0; j < m; ++j) {
        q[j].assign(f.v[j].begin(), f.v[j].end());
        for (int pass = 0; pass < 2; ++pass) for (size_t k = 0; k < j; ++k) {
            long double d = 0, s = 0; for (size_t i = 0; i < n; ++i) { d += q[k][i] * q[j][i]; s += q[k][i] * q[k][i]; }
            for (size_t i = 0; i < n; ++i) q[j][i] -= d / s * q[k][i];
        }
    }
    std::vector<long double> nf(m), nq(m);
    for (size_t j = 0; j < m; ++j) { long double a = 0, b = 0; for (size_t i = 0; i < n; ++i) { a += (long double)f.v[j][i] * f.v[j][i]; b += q[j][i] * q[j][i]; } nf[j] = sqrtl(a); nq[j] = sqrtl(b); }
    long double kappa = 1; for (size_t j = 0; j < m; ++j) kappa = std::max(kappa, nf[j] / nq[j]);
    if (kappa > 6) { c.count("skipped_ill_conditioned"); return; }
    long double rel = 6 * (long double)(m + 4) * (long double)(n + 8) * eps<T>() * kappa * kappa;   // far above what the sizes here produce, far below any wrong coefficient
    for (size_t j = 1; j < m; ++j) {
        std::vector<long double> b(n, rel * nf[j]);
        c.values<T>("basis", vecs[j].data(), n, q[j].data(), b.data());
        long double worst = 0; for (size_t i = 0; i < n; ++i) worst = std::max(worst, fabsl(vecs[j][i] - q[j][i]) / (rel * nf[j]));
        auto& w = c.counters["worst_error_permille_of_bound"]; w = std::max<uint64_t>(w, (uint64_t)(1000 * worst + 0.999L));
    }
    bool ok = true; size_t bi = 0, bj = 0; long double wv = 0;
    for (size_t j = 0; j < m; ++j) for (size_t k = 0; k < j; ++k) {
        long double d = 0; for (size_t i = 0; i < n; ++i) d += (long double)vecs[j][i] * vecs[k][i];
        if (!(fabsl(d) <= 4 * rel * nf[j] * nf[k])) { ok = false; bi = j; bj = k; wv = d; }
    }
    c.observations += m * m;
    c.want(ok, "orthogonal", "the product of vectors %zu and %zu is %.3Lg", bj, bi, wv);
}
template<class T> void dyn(Ctx& c, size_t m, size_t n, int kind) {
    m = std::min(m, max_vectors(kind, n));
    auto f = gen_family<T>(c.rng, m, n, kind);
    std::vector<DynVec<T>> v; for (auto& x : f.v) v.emplace_back(x);
    if (c.rng.chance(0.3)) { std::deque<DynVec<T>> d(v.begin(), v.end()); one<T>(c, "deque-dyn", d, f); }
    one<T>(c, "vector-dyn", std::move(v), f);
}
template<class T, size_t M, size_t N> void sized(Ctx& c, int kind) {
    if (M > max_vectors(kind, N)) kind = NEAR;
    auto f = gen_family<T>(c.rng, M, N, kind);
    std::vector<SizedVec<T, N>> v; for (auto& x : f.v) v.emplace_back(x);
    auto a = [&]<size_t... I>(std::index_sequence<I...>) { return std::array<SizedVec<T, N>, M>{v[I]...}; }(std::make_index_sequence<M>{});
    one<T>(c, "array-sized", a, f);
    one<T>(c, "vector-sized", std::move(v), f);
}
template<class T> void run(Ctx& c, size_t reps) {
    auto& r = c.rng;
    for (int k = 0; k < KINDS; ++k) for (size_t n = 1; n <= 10; ++n) for (size_t m = 1; m <= n; ++m) dyn<T>(c, m, n, k);
    for (size_t q = 0; q < reps; ++q) { size_t n = 1 + r.below(q % 8 == 0 ? 200 : 40); dyn<T>(c, 1 + r.below(std::min<size_t>(n, 14)), n, (int)r.below(KINDS)); }
    for (int k = 0; k < KINDS; ++k) for (size_t q = 0; q < c.n(6, 60); ++q) { sized<T, 1, 1>(c, k); sized<T, 2, 2>(c, k); sized<T, 2, 3>(c, k); sized<T, 3, 3>(c, k); sized<T, 3, 4>(c, k); sized<T, 4, 9>(c, k); sized<T, 6, 16>(c, k); }
    for (size_t q = 0; q < c.n(12, 60); ++q) { size_t n = 20 + r.below(140); dyn<T>(c, 15 + r.below(n - 14), n, (int)r.below(KINDS)); }
    dyn<T>(c, 5, 2000, NEAR); dyn<T>(c, 3, 70000, RANDOM); dyn<T>(c, 128, 128, INT_ORTH); dyn<T>(c, 40, 64, NEAR); dyn<T>(c, 64, 64, HADAMARD);
}
int main(int argc, char** argv) { return run_unit(argc, argv, "cgs", [](Ctx& c) { run<double>(c, c.n(400, 10000)); run<float>(c, c.n(400, 10000)); }); }
