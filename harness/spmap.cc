// P11: sparse matrices as maps from positions to values.
#include "sparse.hpp"
#include "huge.hpp"
using namespace vp;
using lalib::SpMat; using lalib::SpCooMat;

// A history of mutable accesses, copies, moves and assignments over a coordinate and a compressed matrix.
template<class T, class M, class Chk> void mutate(Ctx& c, M& m, SpModel<T>& s, size_t rows, bool csr, Chk&& chk) {
    auto& r = c.rng;
    std::vector<std::pair<M, SpModel<T>>> kept;
    for (size_t step = 0; step < 14; ++step) {
        size_t i = r.below(rows + 2), j = r.below(s.cols() + 2);
        if (!s.empty() && r.chance(0.5)) { auto it = s.begin(); std::advance(it, r.below(s.size())); i = it->first.first; j = it->first.second; }
        if (r.chance(0.05)) i = (size_t)1 << 40;
        if (r.chance(0.05)) j = (size_t)1 << 33;
        bool in = s.count({i, j}) > 0;
        switch (r.below(6)) {
            case 0: {
                if (kept.size() < 3) kept.emplace_back(M(m), s);
                break;
            }
            case 1: { M q(m); m = q; break; }
            case 2: { M q(std::move(m)); m = std::move(q); break; }
            case 3: { if (!kept.empty()) { auto& [q, sq] = kept[r.below(kept.size())]; m = q; s = sq; } break; }
            default: {
                T v = gen<T>(r, D_INT, 0) + T(20);
                auto o = outcome<std::out_of_range>([&] { m.mut_at(i, j) = v; });
                c.want(o == (in ? 0 : 1), "mut-at", "mutable access to %s element (%zu, %zu): outcome %d", in ? "a stored" : "an absent", i, j, o);
                if (in) { s[{i, j}] = v; c.count("writes"); } else c.count("rejected_accesses");
            }
        }
    }
    chk(m, s, "after a history");
    for (auto& [q, sq] : kept) chk(q, sq, "copy taken earlier");
    (void)csr;
}
template<class T> void map_case(Ctx& c, SpModel<T> s, size_t n, size_t m, int pat, int order, bool csr_too = true);
template<class T> void map_case(Ctx& c, size_t n, size_t m, int pat, int order, int kind) { map_case<T>(c, gen_sp<T>(c.rng, kind, n, m, pat), n, m, pat, order); }
template<class T> void map_case(Ctx& c, SpModel<T> s, size_t n, size_t m, int pat, int order, bool csr_too) {
    auto& r = c.rng;
    auto t = triplets(r, s, order);
    uint64_t h = hsp(s, order);
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), h, !s.empty(), "%zux%zu pattern=%d order=%d nnz=%zu %s", n, m, pat, order, s.size(), show_sp(s).c_str()); };
    size_t rows = s.rows();
    begin("coo-copy-ctor"); SpCooMat<T> a(t.v, t.r, t.c); check_coo<T>(c, a, s, "built from arrays");
    begin("coo-move-ctor"); { auto u = t; SpCooMat<T> b(std::move(u.v), std::move(u.r), std::move(u.c)); check_coo<T>(c, b, s, "built from moved arrays"); }
    if (!s.empty() && csr_too) {
        begin("csr-from-coo"); SpMat<T> m1(a); check_csr<T>(c, m1, s, rows, "converted"); check_coo<T>(c, a, s, "source of a conversion");
        begin("csr-from-moved-coo"); { SpCooMat<T> b(a); SpMat<T> m2(std::move(b)); check_csr<T>(c, m2, s, rows, "converted from a moved matrix"); }
        begin("csr-arrays"); size_t extra = r.below(3);
        SpMat<T> m3 = csr_of(s, rows + extra); check_csr<T>(c, m3, s, rows + extra, "built from arrays");
        { auto v = m3.values(); auto p = m3.row_ptr(); auto q = m3.col_indices(); SpMat<T> m4(std::move(v), std::move(p), std::move(q)); check_csr<T>(c, m4, s, rows + extra, "built from moved arrays"); }
        begin("csr-history"); { auto s2 = s; mutate<T>(c, m1, s2, rows, true, [&](const SpMat<T>& q, const SpModel<T>& d, const char* w) { check_csr<T>(c, q, d, rows, w); }); }
        begin("reserve"); { SpCooMat<T> b(a); b.reserve(r.below(100)); check_coo<T>(c, b, s, "after reserve"); m3.reserve(r.below(50), r.below(100)); check_csr<T>(c, m3, s, rows + extra, "after reserve"); }
        begin("data"); { SpCooMat<T> b(a); bool ok = true; for (size_t k = 0; k < s.size(); ++k) ok = ok && b.data()[k] == b.values()[k]; size_t k = r.below(s.size()); b.data()[k] = T(77); auto s2 = s; auto it = s2.begin(); std::advance(it, k); it->second = T(77); c.want(ok, "data", "data() is not the stored values"); check_coo<T>(c, b, s2, "after a write through data()"); }
    }
    begin("coo-history"); { auto s2 = s; SpCooMat<T> b(a); mutate<T>(c, b, s2, rows, false, [&](const SpCooMat<T>& q, const SpModel<T>& d, const char* w) { check_coo<T>(c, q, d, w); }); }
    // arrays of different lengths
    begin("coo-mismatch");
    {
        auto u = t; int which = (int)r.below(3); size_t d = 1 + r.below(3);
        bool shrink = r.chance(0.5) && s.size() >= d;
        auto chg = [&](auto& v) { v.resize(shrink ? v.size() - d : v.size() + d); };
        if (which == 0) chg(u.v); else if (which == 1) chg(u.r); else chg(u.c);
        auto o = outcome<std::runtime_error>([&] { SpCooMat<T> b(u.v, u.r, u.c); });
        auto o2 = outcome<std::runtime_error>([&] { auto w = u; SpCooMat<T> b(std::move(w.v), std::move(w.r), std::move(w.c)); });
        c.want(o == 1 && o2 == 1, "mismatch", "arrays of %zu, %zu and %zu elements: outcomes %d and %d", u.v.size(), u.r.size(), u.c.size(), o, o2);
        if (which != 1) {
            std::vector<size_t> ptr{0, u.v.size()};
            o = outcome<std::runtime_error>([&] { SpMat<T> b(u.v, ptr, u.c); });
            o2 = outcome<std::runtime_error>([&] { auto w = u; auto p = ptr; SpMat<T> b(std::move(w.v), std::move(p), std::move(w.c)); });
            c.want(o == 1 && o2 == 1, "mismatch-csr", "%zu values and %zu columns: outcomes %d and %d", u.v.size(), u.c.size(), o, o2);
        }
    }
}
template<class T> void unit_case(Ctx& c, size_t n) {
    SpModel<T> s; for (size_t i = 0; i < n; ++i) s[{i, i}] = T(1);
    c.begin(cat("unit-coo", tname<T>()), n, n > 0, "n=%zu", n); { auto u = SpCooMat<T>::unit(n); check_coo<T>(c, u, s, "unit"); }
    c.begin(cat("unit-csr", tname<T>()), n, n > 0, "n=%zu", n); { auto u = SpMat<T>::unit(n); check_csr<T>(c, u, s, n, "unit"); }
    c.begin(cat("empty", tname<T>()), n, false, "empty matrices");
    { SpCooMat<T> u; check_coo<T>(c, u, SpModel<T>(), "empty"); SpMat<T> v; check_csr<T>(c, v, SpModel<T>(), 0, "empty");
      auto o = outcome<std::out_of_range>([&] { u.mut_at(n, 0) = T(1); }); auto o2 = outcome<std::out_of_range>([&] { v.mut_at(n, 0) = T(1); });
      c.want(o == 1 && o2 == 1, "mut-at", "mutable access to an empty matrix: outcomes %d %d", o, o2); }
}
// Tens of thousands of rows, columns and entries.
template<class T> void long_case(Ctx& c, int shape) {
    auto& r = c.rng; auto s = huge_sp(c, shape); size_t z = s.r.size(); uint64_t salt = r.next();
    std::vector<size_t> o(z); for (size_t i = 0; i < z; ++i) o[i] = i;
    int order = (int)r.below(4);
    if (order == 1) for (size_t i = z; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
    else if (order == 2) std::reverse(o.begin(), o.end());
    else if (order == 3) std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return s.c[a] < s.c[b]; });
    auto V = [&](size_t k) { return T(code<T>(k, salt, 9) + T(20)); };
    Trip<T> t; for (auto k : o) { t.v.push_back(V(k)); t.r.push_back(s.r[k]); t.c.push_back(s.c[k]); }
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), mix(salt), true, "long %zux%zu shape=%d order=%d nnz=%zu", s.n, s.m, shape, order, z); };
    auto probe = [&](const auto& m, const char* w) {
        bool ok = true; size_t bi = 0, bj = 0;
        for (int q = 0; q < 120; ++q) {
            size_t k = q == 0 ? 0 : q == 1 ? z - 1 : q < 5 ? z - 1 - r.below(100) : r.below(z);
            for (size_t d = 0; d < 3; ++d) {
                size_t i = s.r[k], j = s.c[k] + d; T e = T(0);
                for (size_t p = k; p < z && p <= k + d && s.r[p] == i; ++p) if (s.c[p] == j) e = V(p);
                if (!(m(i, j) == e) || !(m.at(i, j) == e)) { ok = false; bi = i; bj = j; }
            }
        }
        c.observations += 360; c.want(ok, "element", "%s: element (%zu, %zu) reads wrong", w, bi, bj);
    };
    begin("long-coo"); SpCooMat<T> a(t.v, t.r, t.c);
    auto coo_ok = [&](const SpCooMat<T>& a, const char* w) {
        c.want(a.nnz() == z && a.shape().first == s.n && a.shape().second == s.m, "shape", "%s: %zux%zu with %zu entries", w, (size_t)a.shape().first, (size_t)a.shape().second, (size_t)a.nnz());
        c.want(a.row_indices() == s.r && a.col_indices() == s.c, "order", "%s: the entries are not in row-major order", w);
        if (a.values().size() == z) each<T>(c, "value", a.values().data(), z, V);
    };
    auto csr_ok = [&](const SpMat<T>& m, const char* w) {
        c.want(m.nnz() == z && m.shape().first == s.n && m.shape().second == s.m, "shape", "%s: %zux%zu with %zu entries", w, (size_t)m.shape().first, (size_t)m.shape().second, (size_t)m.nnz());
        c.want(m.row_ptr() == row_pointers(s), "row-pointers", "%s: the row pointers do not delimit the rows", w);
        c.want(m.col_indices() == s.c, "columns", "%s: the column indices differ", w);
        if (m.values().size() == z) each<T>(c, "value", m.values().data(), z, V);
    };
    coo_ok(a, "built from arrays"); probe(a, "built from arrays");
    begin("long-csr"); SpMat<T> m(a); csr_ok(m, "converted"); probe(m, "converted"); coo_ok(a, "source of a conversion");
    begin("long-csr-arrays"); SpMat<T> q(a.values(), row_pointers(s), s.c); csr_ok(q, "built from arrays"); probe(q, "built from arrays");
    begin("long-copy"); { SpCooMat<T> b(a), d; d = b; coo_ok(d, "copied"); SpMat<T> e(m), f; f = std::move(e); csr_ok(f, "copied and moved"); SpMat<T> g(std::move(b)); csr_ok(g, "converted from a moved matrix"); }
    begin("long-mut"); for (int k = 0; k < 40; ++k) {
        size_t p = k == 0 ? z - 1 : r.below(z); auto o = outcome<std::out_of_range>([&] { a.mut_at(s.r[p], s.c[p]) = T(99); m.mut_at(s.r[p], s.c[p]) = T(99); });
        c.want(o == 0 && a.values()[p] == T(99) && m.values()[p] == T(99), "mut-at", "mutable access to the stored element (%zu, %zu): outcome %d", s.r[p], s.c[p], o);
    }
}
template<class T> void run(Ctx& c, size_t reps) {
    if (roomy(c)) for (int shape = 0; shape < 4; ++shape) for (size_t k = 0; k < (c.thorough ? 6 : 1); ++k) long_case<T>(c, shape);
    for (size_t n = 0; n <= 20; ++n) unit_case<T>(c, n);
    for (int pat = 0; pat < 9; ++pat) for (int order = 0; order < 4; ++order) for (int k = 0; k < 3; ++k)
        map_case<T>(c, 1 + c.rng.below(6), 1 + c.rng.below(6), pat, order, D_POS);
    for (size_t k = 0; k < reps; ++k) map_case<T>(c, 1 + c.rng.below(30), 1 + c.rng.below(30), (int)c.rng.below(9), (int)c.rng.below(4), (int)c.rng.below(D_KINDS));
    for (size_t k = 0; k < c.n(6, 120); ++k) {   // wide index ranges
        auto s = gen_sp<T>(c.rng, D_POS, 1 + c.rng.below(12), 1 + c.rng.below(12), (int)c.rng.below(9));
        if (s.empty()) continue;
        static const size_t lim[] = {300, 600, 70000, 140000, (size_t)1 << 33, (size_t)1 << 41};
        size_t mr = c.rng.pick(lim), mc = c.rng.pick(lim);
        if (k % 3 == 0) mr = std::min<size_t>(mr, 70000);
        auto w = spread(c.rng, s, mr, mc);
        map_case<T>(c, w, w.rows(), w.cols(), 100, (int)c.rng.below(4), w.rows() < 150000);
    }
    for (size_t k = 0; k < c.n(2, 40); ++k) map_case<T>(c, 1 + c.rng.below(150), 1 + c.rng.below(60), (int)c.rng.below(9), (int)c.rng.below(4), D_POS);
    unit_case<T>(c, 300); unit_case<T>(c, 3001);
    map_case<T>(c, 120, 90, 6, 1, D_POS); map_case<T>(c, 40, 40, 3, 1, D_POS); map_case<T>(c, 300, 2, 2, 1, D_POS);
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "spmap", [](Ctx& c) { run<double>(c, c.n(150, 3000)); run<float>(c, c.n(60, 800)); run<std::complex<double>>(c, c.n(50, 800)); run<int>(c, c.n(30, 300)); });
}
