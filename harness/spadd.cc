// P12: sparse addition and subtraction.
#include "sparse.hpp"
#include "huge.hpp"
using namespace vp;
using lalib::SpMat; using lalib::SpCooMat;

template<class T> void add_case(Ctx& c, const SpModel<T>& a, const SpModel<T>& b, int kind) {
    auto& r = c.rng;
    SpModel<T> sum = a, dif = a;
    for (auto& [p, v] : b) { sum[p] = a.get(p.first, p.second) + v; dif[p] = a.get(p.first, p.second) - v; }
    size_t common = 0; for (auto& [p, v] : b) common += a.count(p);
    const auto A = coo_of(r, a, (int)r.below(4)), B = coo_of(r, b, (int)r.below(4));
    uint64_t h = hsp(a, hsp(b));
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), h, !a.empty() && !b.empty(), "%zux%zu (%zu) with %zux%zu (%zu), %zu common, A=%s B=%s", a.rows(), a.cols(), a.size(), b.rows(), b.cols(), b.size(), common, show_sp(a).c_str(), show_sp(b).c_str()); };
    // a single rounding per element; every intermediate is one addition, so the result is the rounded sum
    auto result = [&](const SpCooMat<T>& m, const SpModel<T>& s, const char* w) {
        check_coo<T>(c, m, s, w, false);
        if (m.nnz() != s.size()) return;
        Expect<T> e; for (auto& [p, v] : s) e.add(up(v), mag(v), 2);
        std::vector<T> got; for (auto& [p, v] : s) got.push_back(m(p.first, p.second));
        expect<T>(c, "value", got.data(), e, kind);
        bool zero = true;
        if (s.rows() < 400 && s.cols() < 400) for (size_t i = 0; i < s.rows() + 1; ++i) for (size_t j = 0; j < s.cols() + 1; ++j) if (!s.count({i, j}) && !(m(i, j) == T(0))) zero = false;
        c.want(zero, "absent", "%s: an element absent from both operands is not zero", w);
        if (!s.empty() && s.rows() < 200000) {
            SpMat<T> q(m); auto sh = q.shape(); bool ok = sh.first == s.rows() && sh.second == s.cols() && q.nnz() == s.size();
            for (auto& [p, v] : s) ok = ok && q(p.first, p.second) == m(p.first, p.second);
            c.want(ok, "converted", "%s: the row-compressed conversion differs", w);
        }
    };
    begin("add-assign"); { SpCooMat<T> m(A); auto& ret = (m += B); c.want(&ret == &m, "return", "wrong result"); result(m, sum, "sum"); }
    begin("add"); { auto m = A + B; result(m, sum, "sum"); }
    if constexpr (!Tr<T>::cplx) { begin("sub"); auto m = A - B; result(m, dif, "difference"); }
    begin("add-self"); {
        SpCooMat<T> m(A); m += m;
        SpModel<T> two; for (auto& [p, v] : a) two[p] = v + v;
        result(m, two, "sum with itself");
    }
    begin("accumulate"); {   // several additions in a row
        SpCooMat<T> m(A); SpModel<T> s = a; SpModel<T> x = gen_sp<T>(r, D_INT, 1 + r.below(8), 1 + r.below(8), (int)r.below(9));
        if (kind == D_INT || kind == D_POS) {
            const auto X = coo_of(r, x, 1);
            m += X; m += B; m += X;
            for (auto& [p, v] : x) s[p] = s.get(p.first, p.second) + v + v;
            for (auto& [p, v] : b) s[p] = s.get(p.first, p.second) + v;
            result(m, s, "accumulated sum");
        }
    }
    check_coo<T>(c, A, a, "left operand"); check_coo<T>(c, B, b, "right operand");
}
// Thousands of rows, tens of thousands of columns and entries.
template<class T> void long_case(Ctx& c, int shape) {
    auto& r = c.rng; auto s = huge_sp(c, shape, 4000);   // an addition costs the rows times the entries
    size_t z = s.r.size(); uint64_t salt = r.next(); int kind = (int)r.below(3);
    Trip<T> a, b; std::vector<char> in(z); double p = 0.2 + 0.6 * r.unit();
    for (size_t k = 0; k < z; ++k) {
        in[k] = kind == 0 ? (char)(1 + r.below(3)) : kind == 1 ? (char)(r.chance(p) ? 3 : 1) : (char)(s.r[k] < s.n / 2 ? 1 : r.chance(p) ? 2 : 3);   // 1 left, 2 right, 3 both
        if (in[k] & 1) { a.v.push_back(code<T>(k, salt, 9)); a.r.push_back(s.r[k]); a.c.push_back(s.c[k]); }
        if (in[k] & 2) { b.v.push_back(code<T>(k, salt + 1, 9)); b.r.push_back(s.r[k]); b.c.push_back(s.c[k]); }
    }
    const SpCooMat<T> A(a.v, a.r, a.c), B(b.v, b.r, b.c);
    auto result = [&](const SpCooMat<T>& m, int sign, const char* w) {
        c.want(m.row_indices() == s.r && m.col_indices() == s.c, "order", "%s: %zu entries; the positions are not the union of the positions of the operands in row-major order", w, (size_t)m.nnz());
        if (m.values().size() == z) each<T>(c, "value", m.values().data(), z, [&](size_t k) { T v = 0; if (in[k] & 1) v += code<T>(k, salt, 9); if (in[k] & 2) v += T(sign) * code<T>(k, salt + 1, 9); return v; });
    };
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), mix(salt), true, "long %zux%zu shape=%d (%zu) and (%zu) entries, %zu together", s.n, s.m, shape, a.v.size(), b.v.size(), z); };
    begin("long-add-assign"); { SpCooMat<T> m(A); m += B; result(m, 1, "sum"); }
    begin("long-add"); { auto m = B + A; result(m, 1, "sum"); }
    if constexpr (!Tr<T>::cplx) { begin("long-sub"); auto m = A - B; result(m, -1, "difference"); }
    c.want(A.values() == a.v && A.row_indices() == a.r && A.col_indices() == a.c && B.values() == b.v && B.row_indices() == b.r && B.col_indices() == b.c, "operand", "an operand changed");
}
template<class T> void run(Ctx& c, size_t reps) {
    if (roomy(c)) for (int shape = 0; shape < 4; ++shape) for (size_t k = 0; k < (c.thorough ? 10 : 2); ++k) long_case<T>(c, shape);
    auto& r = c.rng;
    // every pair of patterns within one row of 4 columns: all interleavings of a row merge
    for (int x = 0; x < 16; ++x) for (int y = 0; y < 16; ++y) {
        SpModel<T> a, b;
        for (int j = 0; j < 4; ++j) { if (x >> j & 1) a[{1, (size_t)j}] = T(j + 1); if (y >> j & 1) b[{1, (size_t)j}] = T(10 * (j + 1)); }
        if ((x + y) % 3 == 0) { a[{0, 2}] = T(5); b[{2, 1}] = T(6); }
        if ((x + y) % 3 == 1) { b[{0, 2}] = T(5); a[{2, 1}] = T(6); }
        add_case<T>(c, a, b, D_INT);
    }
    for (size_t k = 0; k < reps; ++k) {
        int kind = r.chance(0.7) ? D_POS : r.chance(0.5) ? D_INT : D_REAL;
        size_t n = 1 + r.below(14), m = 1 + r.below(14);
        auto a = gen_sp<T>(r, kind, n, m, (int)r.below(9));
        if (r.chance(0.5)) { n = 1 + r.below(14); m = 1 + r.below(14); }
        auto b = r.chance(0.1) ? SpModel<T>() : gen_sp<T>(r, kind, n, m, (int)r.below(9));
        if (r.chance(0.15)) { b.clear(); for (auto& [p, v] : a) b[p] = gen<T>(r, kind, p.first); }                                  // equal patterns
        if (r.chance(0.15)) { b.clear(); for (auto& [p, v] : a) if (r.chance(0.5)) b[p] = gen<T>(r, kind, p.second); }                 // nested
        if (r.chance(0.05)) a.clear();
        add_case<T>(c, a, b, kind);
    }
    for (size_t k = 0; k < c.n(4, 80); ++k) {   // wide index ranges; larger patterns
        auto a = gen_sp<T>(r, D_POS, 1 + r.below(10), 1 + r.below(10), (int)r.below(9)), b = gen_sp<T>(r, D_POS, 1 + r.below(10), 1 + r.below(10), (int)r.below(9));
        SpModel<T> u = a; for (auto& [p, v] : b) u.emplace(p, v);
        size_t mr = r.chance(0.5) ? 400 : 70000, mc = r.chance(0.3) ? 300 : r.chance(0.5) ? 70000 : (size_t)1 << 40;
        Rng q = r; auto w = spread(q, u, mr, mc);
        SpModel<T> a2, b2; auto it = w.begin();
        for (auto& [p, v] : u) { auto d = it->first; ++it; if (a.count(p)) a2[d] = a[p]; if (b.count(p)) b2[d] = b[p]; }
        r = q;
        add_case<T>(c, a2, b2, D_POS);
        add_case<T>(c, gen_sp<T>(r, D_INT, 1 + r.below(70), 1 + r.below(40), (int)r.below(9)), gen_sp<T>(r, D_INT, 1 + r.below(70), 1 + r.below(40), (int)r.below(9)), D_INT);
    }
    add_case<T>(c, gen_sp<T>(r, D_POS, 2, 300, 3), gen_sp<T>(r, D_POS, 2, 350, 0), D_POS); add_case<T>(c, gen_sp<T>(r, D_POS, 300, 2, 0), gen_sp<T>(r, D_POS, 350, 2, 3), D_POS);
    add_case<T>(c, gen_sp<T>(r, D_POS, 60, 60, 0), gen_sp<T>(r, D_POS, 60, 60, 0), D_POS);
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "spadd", [](Ctx& c) { run<double>(c, c.n(500, 8000)); run<float>(c, c.n(150, 2000)); run<std::complex<double>>(c, c.n(100, 2000)); run<int>(c, c.n(60, 500)); });
}
