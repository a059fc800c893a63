// P10: structured matrices against a dense model, over histories of operations.
#include "lib.hpp"
#include "ref.hpp"
#include "huge.hpp"
using namespace vp;

enum Kind { TRI, HESS, UPPER, LOWER, HERM };
template<class T> struct Model {
    Kind k; size_t n; std::vector<T> d;
    Model(Kind k, size_t n) : k(k), n(n), d(n * n, T(0)) {}
    bool in(size_t i, size_t j) const {
        switch (k) {
            case TRI: return i + 1 >= j && j + 1 >= i;
            case HESS: return i <= j + 1;
            case UPPER: return i <= j;
            case LOWER: return i >= j;
            default: return true;
        }
    }
    T get(size_t i, size_t j) const { return d[i * n + j]; }
    void set(size_t i, size_t j, T v) { d[i * n + j] = v; if (k == HERM) d[j * n + i] = v; }
    void grow(const std::vector<T>& e) {   // extension by one dimension, packed column order
        Model g(k, n + 1);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) g.d[i * (n + 1) + j] = get(i, j);
        size_t p = 0;
        if (k == HESS && n > 0) g.set(n, n - 1, e[p++]);
        for (size_t i = 0; i <= n; ++i) g.set(i, n, e[p++]);
        *this = g;
    }
    size_t grow_len() const { return k == HESS ? (n == 0 ? 1 : n + 2) : n + 1; }
};
// Packed storage orders documented by the constructors.
template<class T> void fill_packed(Model<T>& m, const std::vector<T>& e) {
    size_t p = 0;
    if (m.k == LOWER || m.k == HERM) { for (size_t i = 0; i < m.n; ++i) for (size_t j = 0; j <= i; ++j) m.set(i, j, e[p++]); }
    else for (size_t j = 0; j < m.n; ++j) for (size_t i = 0; i < m.n; ++i) if (m.in(i, j)) m.set(i, j, e[p++]);
}
inline size_t packed_len(Kind k, size_t n) { return k == HESS ? (n ? n * (n + 3) / 2 - 1 : 0) : n * (n + 1) / 2; }

template<class T, class M> void check_all(Ctx& c, const M& m, const Model<T>& d, const char* when) {
    auto s = m.shape();
    c.want(s.first == d.n && s.second == d.n, "shape", "%s: shape is %zux%zu, expected %zu", when, (size_t)s.first, (size_t)s.second, d.n);
    if (s.first != d.n || s.second != d.n) return;
    size_t bad = 0, bi = 0, bj = 0;
    for (size_t i = 0; i < d.n; ++i) for (size_t j = 0; j < d.n; ++j)
        if (!(m(i, j) == d.get(i, j)) || !(m.at(i, j) == d.get(i, j))) { if (!bad++) { bi = i; bj = j; } }
    c.observations += d.n * d.n;
    c.want(!bad, "element", "%s: element (%zu, %zu) of a %zux%zu matrix reads wrong (%zu wrong)", when, bi, bj, d.n, d.n, bad);
    if constexpr (requires { m.get_col(0); }) {
        bool ok = true; size_t bc = 0;
        for (size_t j = 0; j < d.n; ++j) {
            auto col = m.get_col(j);
            size_t len = std::min(j + 2, d.n);
            bool o = col.size() == len;
            for (size_t i = 0; o && i < len; ++i) o = col[i] == d.get(i, j);
            if (!o && ok) { ok = false; bc = j; }
        }
        c.want(ok, "column", "%s: column %zu differs", when, bc);
    }
}
template<class T> T distinct_value(Rng& r, size_t k) { T v = gen<T>(r, D_POS, k); if constexpr (Tr<T>::cplx) return v + T(Real<T>(k % 3), Real<T>(r.below(50))); else return v + T(r.below(100)); }

template<class T, class M, class Mk> void history(Ctx& c, const char* name, Kind k, M m0, Model<T> d, size_t steps, Mk&& copy_assign) {
    auto& r = c.rng;
    // const reads must not disturb later histories, so copies are kept and re-checked at the end
    std::vector<std::pair<std::unique_ptr<M>, Model<T>>> kept;
    auto m = std::make_unique<M>(std::move(m0));
    uint64_t h = hash_bytes(d.d.data(), d.d.size() * sizeof(T), d.n) ^ r.s;
    c.begin(cat(name, tname<T>()), h, d.n > 0, "n=%zu, %zu steps, diag=%s", d.n, steps, show(d.d.data(), std::min<size_t>(d.d.size(), 4)).c_str());
    check_all(c, std::as_const(*m), d, "after construction");
    for (size_t s = 0; s < steps; ++s) {
        const char* what = "";
        switch (r.below(8)) {
            case 0: case 1: case 2: {   // write inside the structure
                if (!d.n) break;
                size_t i = r.below(d.n), j = r.below(d.n);
                if (!d.in(i, j)) std::swap(i, j);
                if (!d.in(i, j)) { i = j; }
                T v = distinct_value<T>(r, s * 3 + i);
                auto o = outcome<std::exception>([&] { if (r.chance(0.5)) (*m)(i, j) = v; else m->mut_at(i, j) = v; });
                c.want(o == 0, "write-throws", "writing element (%zu, %zu) of a %zux%zu matrix threw", i, j, d.n, d.n);
                d.set(i, j, v); what = "after a write"; c.count("writes"); break;
            }
            case 3: {   // write outside the structure
                if (d.n < 2 || k == HERM) break;
                size_t i = r.below(d.n), j = r.below(d.n);
                if (d.in(i, j)) std::swap(i, j);
                if (d.in(i, j)) { if (k == UPPER || k == HESS) { i = d.n - 1; j = 0; } else { i = 0; j = d.n - 1; } }
                if (d.in(i, j)) break;
                bool acc = r.chance(0.5);
                auto o = outcome<std::logic_error>([&] { if (acc) (*m)(i, j) = T(55); else m->mut_at(i, j) = T(55); });
                c.want(o == 1, "zero-write", "writing the structural zero (%zu, %zu) of a %zux%zu matrix: outcome %d", i, j, d.n, d.n, o);
                what = "after a rejected write"; c.count("rejected_writes"); break;
            }
            case 4: {   // copy, kept for the end
                if (kept.size() < 3) { kept.emplace_back(std::make_unique<M>(std::as_const(*m)), d); c.count("copies"); }
                what = "after copying"; break;
            }
            case 5: {   // continue on a copy or a moved object
                if (r.chance(0.5)) { auto q = std::make_unique<M>(std::as_const(*m)); m = std::move(q); }
                else { auto q = std::make_unique<M>(std::move(*m)); m = std::move(q); }
                what = "after replacing by a copy or move"; break;
            }
            default: {
                if constexpr (requires { m->extend_with_zero(); }) {
                    if (d.n > 40) break;
                    size_t len = d.grow_len();
                    switch (r.below(4)) {
                        case 0: m->extend_with_zero(); d.grow(std::vector<T>(len, T(0))); what = "after extend_with_zero"; c.count("extensions"); break;
                        case 1: {
                            size_t bad = r.chance(0.5) ? len + 1 + r.below(3) : len - 1 - r.below(len);
                            std::vector<T> e(bad, T(9));
                            auto o = outcome<std::invalid_argument>([&] { m->extend_with(std::move(e)); });
                            c.want(o == 1, "bad-extension", "extending a %zux%zu matrix with %zu elements: outcome %d", d.n, d.n, bad, o);
                            what = "after a rejected extension"; c.count("rejected_extensions"); break;
                        }
                        default: {
                            std::vector<T> e(len);
                            for (size_t i = 0; i < len; ++i) e[i] = distinct_value<T>(r, s + i);
                            auto ec = e;
                            auto o = outcome<std::exception>([&] { m->extend_with(std::move(ec)); });
                            c.want(o == 0, "extension-throws", "extending a %zux%zu matrix with %zu elements threw", d.n, d.n, len);
                            if (o) return;
                            d.grow(e); what = "after extend_with"; c.count("extensions");
                        }
                    }
                } else { copy_assign(*m, d); what = "after an assignment"; }
            }
        }
        check_all(c, std::as_const(*m), d, what);
    }
    for (auto& [q, dq] : kept) check_all(c, std::as_const(*q), dq, "copy taken earlier");
    if constexpr (requires { m->into_lower_mat(); }) {
        auto low = m->into_lower_mat();
        Model<T> dl(LOWER, d.n);
        for (size_t i = 0; i < d.n; ++i) for (size_t j = 0; j <= i; ++j) dl.set(i, j, d.get(i, j));
        check_all(c, std::as_const(low), dl, "lower triangular matrix");
    }
}
template<class T> std::vector<T> elems(Rng& r, size_t n) { std::vector<T> e(n); for (size_t i = 0; i < n; ++i) e[i] = distinct_value<T>(r, i); return e; }
template<class M> M clone(const M& m) { return m; }

template<class T> Model<T> tri_model(const std::vector<T>& dl, const std::vector<T>& dd, const std::vector<T>& du) {
    Model<T> d(TRI, dd.size());
    for (size_t i = 0; i < dd.size(); ++i) d.set(i, i, dd[i]);
    for (size_t i = 0; i + 1 < dd.size(); ++i) { d.set(i + 1, i, dl[i]); d.set(i, i + 1, du[i]); }
    return d;
}
template<class T> void tri_data(Ctx& c, auto& m, Model<T>& d) {   // the documented diagonal arrays are the elements
    auto& r = c.rng;
    if (d.n == 0) return;
    const auto& cm = m;
    bool ok = true;
    for (size_t i = 0; i < d.n; ++i) ok = ok && cm.data_d()[i] == d.get(i, i);
    for (size_t i = 0; i + 1 < d.n; ++i) ok = ok && cm.data_dl()[i] == d.get(i + 1, i) && cm.data_du()[i] == d.get(i, i + 1);
    c.want(ok, "data", "a diagonal array differs from the elements");
    size_t i = r.below(d.n); T v = distinct_value<T>(r, i);
    m.data_d()[i] = v; d.set(i, i, v);
    if (d.n > 1) { i = r.below(d.n - 1); m.data_dl()[i] = v + T(1); d.set(i + 1, i, v + T(1)); i = r.below(d.n - 1); m.data_du()[i] = v + T(2); d.set(i, i + 1, v + T(2)); }
}
template<class T> void low_data(Ctx& c, auto& m, Model<T>& d) {
    size_t len = packed_len(d.k, d.n); if (!len) return;
    const auto& cm = m;
    size_t p = 0; bool ok = true;
    for (size_t i = 0; i < d.n; ++i) for (size_t j = 0; j <= i; ++j) ok = ok && cm.lower_data()[p++] == d.get(i, j);
    c.want(ok, "data", "the packed array differs from the elements");
    p = c.rng.below(len); T v = distinct_value<T>(c.rng, p); m.lower_data()[p] = v;
    size_t q = 0; for (size_t i = 0; i < d.n; ++i) for (size_t j = 0; j <= i; ++j) if (q++ == p) d.set(i, j, v);
}
template<class T, size_t N> std::array<T, N> arr(const std::vector<T>& v) { std::array<T, N> a{}; for (size_t i = 0; i < N; ++i) a[i] = v[i]; return a; }

template<class T, size_t N> void sized(Ctx& c, size_t steps) {
    auto& r = c.rng;
    {
        auto dl = elems<T>(r, N - 1), d = elems<T>(r, N), du = elems<T>(r, N - 1);
        lalib::SizedTriDiagMat<T, N> m(arr<T, N - 1>(dl), arr<T, N>(d), arr<T, N - 1>(du));
        history<T>(c, "sized-tri-diagonal", TRI, m, tri_model(dl, d, du), steps, [&](auto& m, auto& d) { auto q = clone(m); tri_data<T>(c, q, d); m = q; });
    }
    auto e = elems<T>(r, N * (N + 1) / 2);
    { Model<T> d(LOWER, N); fill_packed(d, e); history<T>(c, "sized-lower", LOWER, lalib::SizedLowerTriMat<T, N>(arr<T, N * (N + 1) / 2>(e)), d, steps, [&](auto& m, auto& d) { auto q = clone(m); low_data<T>(c, q, d); m = q; }); }
    { Model<T> d(HERM, N); fill_packed(d, e); history<T>(c, "sized-hermite", HERM, lalib::SizedHermiteMat<T, N>(arr<T, N * (N + 1) / 2>(e)), d, steps, [&](auto& m, auto& d) { auto q = clone(m); low_data<T>(c, q, d); m = q; }); }
}
template<class T> void dyn(Ctx& c, size_t n, size_t steps) {
    auto& r = c.rng;
    auto nop = [](auto&, auto&) {};
    if (n > 0) {
        auto dl = elems<T>(r, n - 1), d = elems<T>(r, n), du = elems<T>(r, n - 1);
        auto model = tri_model(dl, d, du);
        auto asg = [&](auto& m, auto& d) { auto q = clone(m); tri_data<T>(c, q, d); if (r.chance(0.5)) m = q; else m = std::move(q); };
        if (r.chance(0.5)) history<T>(c, "dyn-tri-diagonal", TRI, lalib::DynTriDiagMat<T>(dl, d, du), model, steps, asg);
        else history<T>(c, "dyn-tri-diagonal", TRI, lalib::DynTriDiagMat<T>(std::move(dl), std::move(d), std::move(du)), model, steps, asg);
    }
    auto e = elems<T>(r, packed_len(LOWER, n));
    auto take = [](std::vector<T> v) { return v; };
    auto lasg = [&](auto& m, auto& d) { auto q = clone(m); low_data<T>(c, q, d); if (r.chance(0.5)) m = q; else m = std::move(q); };
    { Model<T> d(LOWER, n); fill_packed(d, e); history<T>(c, "dyn-lower", LOWER, lalib::DynLowerTriMat<T>(n, take(e)), d, steps, lasg); }
    { Model<T> d(HERM, n); fill_packed(d, e); history<T>(c, "dyn-hermite", HERM, lalib::DynHermiteMat<T>(n, take(e)), d, steps, lasg); }
    { Model<T> d(UPPER, n); fill_packed(d, e); history<T>(c, "upper", UPPER, lalib::DynUpperTriMat<T>(take(e)), d, steps, nop); }
    auto eh = elems<T>(r, packed_len(HESS, n));
    { Model<T> d(HESS, n); fill_packed(d, eh); history<T>(c, "hessenberg", HESS, lalib::HessenbergMat<T>(take(eh)), d, steps, nop); }
    history<T>(c, "upper-empty", UPPER, r.chance(0.5) ? lalib::DynUpperTriMat<T>() : lalib::DynUpperTriMat<T>::with_capacity(r.below(30)), Model<T>(UPPER, 0), steps + 6, nop);
    history<T>(c, "hessenberg-empty", HESS, lalib::HessenbergMat<T>::with_capacity(r.below(30)), Model<T>(HESS, 0), steps + 6, nop);
}
template<class T> void counts(Ctx& c) {   // every number of packed elements
    auto one = [&](size_t len) {
        size_t nu = 0; while (packed_len(UPPER, nu) < len) ++nu;
        size_t nh = 0; while (packed_len(HESS, nh) < len) ++nh;
        bool okU = packed_len(UPPER, nu) == len, okH = packed_len(HESS, nh) == len;
        auto e = elems<T>(c.rng, len);
        c.begin(cat("upper-count", tname<T>()), len, len > 0, "%zu packed elements", len);
        auto o = outcome<std::invalid_argument>([&] { lalib::DynUpperTriMat<T> m(std::vector<T>{e}); if (okU) { c.want(m.shape().first == nu && m.shape().second == nu, "shape", "shape from %zu elements is %zu", len, (size_t)m.shape().first); } });
        c.want(o == (okU ? 0 : 1), "count", "constructing an upper triangular matrix with %zu elements: outcome %d", len, o);
        c.begin(cat("hessenberg-count", tname<T>()), len, len > 0, "%zu packed elements", len);
        o = outcome<std::invalid_argument>([&] { lalib::HessenbergMat<T> m(std::vector<T>{e}); if (okH) { c.want(m.shape().first == nh && m.shape().second == nh, "shape", "shape from %zu elements is %zu", len, (size_t)m.shape().first); } });
        c.want(o == (okH ? 0 : 1), "count", "constructing a Hessenberg matrix with %zu elements: outcome %d", len, o);
    };
    for (size_t len = 0; len < 300; ++len) one(len);
    for (size_t n : {50, 101, 180, 250}) for (int d = -2; d <= 2; ++d) { one(packed_len(UPPER, n) + d); one(packed_len(HESS, n) + d); }
}
// Large matrices: every packed element is told apart, a sample of the positions is read and written.
template<class T> void long_case(Ctx& c, size_t n) {
    auto& r = c.rng; uint64_t s = r.next();
    auto run = [&](const char* name, size_t len, auto make, auto in, auto at) {
        c.begin(cat(name, tname<T>()), mix(s ^ len), true, "n=%zu, %zu stored elements", n, len);
        auto m = make(codes<T>(len, s, 1000));
        auto sh = m.shape(); c.want(sh.first == n && sh.second == n, "shape", "shape is %zux%zu, expected %zu", (size_t)sh.first, (size_t)sh.second, n);
        if (sh.first != n || sh.second != n) return;
        std::unordered_map<size_t, T> put;
        auto value = [&](size_t i, size_t j) { if (!in(i, j)) return T(0); size_t p = at(i, j); auto it = put.find(p); return it == put.end() ? code<T>(p, s, 1000) : it->second; };
        auto look = [&](const auto& m, const char* when) {
            size_t bad = 0, bi = 0, bj = 0, q = 0, stride = n * n > 300000 ? n * n / 300000 | 1 : 1;
            auto one = [&](size_t i, size_t j) { T e = value(i, j); ++q; if (!(m(i, j) == e) || !(m.at(i, j) == e)) if (!bad++) { bi = i; bj = j; } };
            for (size_t k = r.below(stride); k < n * n; k += stride) one(k / n, k % n);
            for (size_t i = 0; i < n; ++i) for (size_t j : {i, i - (i > 0), i + (i + 1 < n), (size_t)0, n - 1}) { one(i, j); one(j, i); }
            c.observations += q; c.want(!bad, "element", "%s: element (%zu, %zu) reads wrong (%zu wrong)", when, bi, bj, bad);
        };
        look(std::as_const(m), "after construction");
        for (int k = 0; k < 60; ++k) { size_t i = k == 0 ? n - 1 : r.below(n), j = k == 0 ? n - 1 : k % 3 ? r.below(n) : i; if (!in(i, j)) { auto o = outcome<std::logic_error>([&] { m(i, j) = T(5); }); c.want(o == 1, "zero-write", "writing the structural zero (%zu, %zu): outcome %d", i, j, o); continue; } T v = T(2000 + k); m(i, j) = v; put[at(i, j)] = v; }
        look(std::as_const(m), "after writes");
        auto q = m; look(std::as_const(q), "copied"); auto w = std::move(q); look(std::as_const(w), "moved");
        if constexpr (requires { m.extend_with_zero(); }) {
            if constexpr (requires { m.get_col(0); }) for (size_t j : {(size_t)0, n / 2, n - 2, n - 1}) {
                auto col = std::as_const(m).get_col(j); bool ok = col.size() == std::min(j + 2, n);
                for (size_t i = 0; ok && i < col.size(); ++i) ok = col[i] == value(i, j);
                c.want(ok, "column", "column %zu differs", j);
            }
            size_t k = requires { m.get_col(0); } ? n + 2 : n + 1, d = k - n - 1;
            auto e = codes<T>(k, s + 3, 1000); auto ec = e; m.extend_with(std::move(ec));
            auto sh = m.shape(); bool ok = sh.first == n + 1 && sh.second == n + 1; c.want(ok, "shape", "extended to %zux%zu", (size_t)sh.first, (size_t)sh.second);
            if (!ok) return;
            for (size_t i = 0; i <= n; ++i) ok = ok && m.at(i, n) == e[i + d]; if (d) ok = ok && m.at(n, n - 1) == e[0];
            c.want(ok, "extended", "the new column reads wrong"); look(std::as_const(m), "after an extension");
        }
    };
    auto low = [](size_t i, size_t j) { return i * (i + 1) / 2 + j; };
    size_t tri = n * (n + 1) / 2;
    run("long-lower", tri, [&](std::vector<T> v) { return lalib::DynLowerTriMat<T>(n, std::move(v)); }, [](size_t i, size_t j) { return i >= j; }, low);
    run("long-hermite", tri, [&](std::vector<T> v) { return lalib::DynHermiteMat<T>(n, std::move(v)); }, [](size_t, size_t) { return true; }, [&](size_t i, size_t j) { return low(std::max(i, j), std::min(i, j)); });
    run("long-upper", tri, [&](std::vector<T> v) { return lalib::DynUpperTriMat<T>(std::move(v)); }, [](size_t i, size_t j) { return i <= j; }, [&](size_t i, size_t j) { return low(j, i); });
    run("long-hessenberg", packed_len(HESS, n), [&](std::vector<T> v) { return lalib::HessenbergMat<T>(std::move(v)); }, [](size_t i, size_t j) { return i <= j + 1; }, [](size_t i, size_t j) { return j * (j + 3) / 2 + i; });
    n = 60000 + r.below(20000);
    run("long-tri-diagonal", 3 * n - 2, [&](std::vector<T> v) { std::vector<T> a(v.begin(), v.begin() + n - 1), d(v.begin() + n - 1, v.begin() + 2 * n - 1), u(v.begin() + 2 * n - 1, v.end()); return lalib::DynTriDiagMat<T>(std::move(a), std::move(d), std::move(u)); },
        [](size_t i, size_t j) { return i + 1 >= j && j + 1 >= i; }, [&](size_t i, size_t j) { return i == j ? n - 1 + i : i > j ? j : 2 * n - 1 + i; });
}
template<class T> void run(Ctx& c, size_t reps) {
    if (roomy(c)) { long_case<T>(c, 300 + c.rng.below(1000)); if (std::is_same_v<T, double>) long_case<T>(c, 4100 + c.rng.below(2000)); if (c.thorough) for (int k = 0; k < 8; ++k) long_case<T>(c, 257 + c.rng.below(4000)); }
    counts<T>(c);
    for (size_t n = 0; n <= 9; ++n) for (size_t k = 0; k < 4; ++k) dyn<T>(c, n, 14);
    for (size_t k = 0; k < reps; ++k) dyn<T>(c, 1 + c.rng.below(30), 10 + c.rng.below(20));
    for (size_t k = 0; k < c.n(20, 200); ++k) { sized<T, 1>(c, 12); sized<T, 2>(c, 15); sized<T, 3>(c, 20); sized<T, 4>(c, 20); sized<T, 9>(c, 20); if constexpr (std::is_same_v<T, double>) sized<T, 17>(c, 20); }
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "struct", [](Ctx& c) {
        run<double>(c, c.n(60, 1500)); run<float>(c, c.n(20, 500)); run<std::complex<double>>(c, c.n(20, 500)); run<int>(c, c.n(20, 500));
    });
}
