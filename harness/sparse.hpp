// Random sparse patterns and the map model shared by the sparse units.
#pragma once
#include "lib.hpp"
#include "ref.hpp"
namespace vp {
using Pos = std::pair<size_t, size_t>;
template<class T> struct SpModel : std::map<Pos, T> {
    T get(size_t i, size_t j) const { auto it = this->find({i, j}); return it == this->end() ? T(0) : it->second; }
    size_t rows() const { size_t n = 0; for (auto& [p, v] : *this) n = std::max(n, p.first + 1); return n; }
    size_t cols() const { size_t n = 0; for (auto& [p, v] : *this) n = std::max(n, p.second + 1); return n; }
};
// Patterns: 0 random density, 1 few entries, 2 banded, 3 dense, 4 one row, 5 one column, 6 rows with long empty runs, 7 diagonal, 8 last row and column only
template<class T> SpModel<T> gen_sp(Rng& r, int kind, size_t n, size_t m, int pat) {
    SpModel<T> s;
    double p = pat == 0 ? r.unit() : pat == 3 ? 1.0 : pat == 6 ? 0.5 : 0;
    size_t row = r.below(n), col = r.below(m);
    std::vector<char> live(n, 1);
    if (pat == 6) for (auto& l : live) l = r.chance(0.25);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
        bool on;
        switch (pat) {
            case 1: on = r.below(n * m) < 3; break;
            case 2: on = i + 2 >= j && j + 2 >= i; break;
            case 4: on = i == row; break;
            case 5: on = j == col; break;
            case 7: on = i == j; break;
            case 8: on = i + 1 == n || j + 1 == m; break;
            default: on = live[i] && r.chance(p);
        }
        if (on) { T v = gen<T>(r, kind, i * m + j); s[{i, j}] = v; }
    }
    return s;
}
template<class T> struct Trip { std::vector<T> v; std::vector<size_t> r, c; };
// Entries in a random order (shuffle) or sorted.
template<class T> Trip<T> triplets(Rng& r, const SpModel<T>& s, int order) {
    std::vector<std::pair<Pos, T>> e(s.begin(), s.end());
    if (order == 1) for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[r.below(i)]);
    else if (order == 2) std::reverse(e.begin(), e.end());
    else if (order == 3) std::stable_sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.first.second < b.first.second; });   // column-major
    Trip<T> t;
    for (auto& [p, v] : e) { t.v.push_back(v); t.r.push_back(p.first); t.c.push_back(p.second); }
    return t;
}
template<class T> lalib::SpCooMat<T> coo_of(Rng& r, const SpModel<T>& s, int order) {
    auto t = triplets(r, s, order);
    if (r.chance(0.5)) return lalib::SpCooMat<T>(t.v, t.r, t.c);
    return lalib::SpCooMat<T>(std::move(t.v), std::move(t.r), std::move(t.c));
}
// Row-compressed arrays with n rows (n may exceed the last row that has an entry).
template<class T> lalib::SpMat<T> csr_of(const SpModel<T>& s, size_t n) {
    std::vector<T> v; std::vector<size_t> p{0}, c;
    auto it = s.begin();
    for (size_t i = 0; i < n; ++i) { for (; it != s.end() && it->first.first == i; ++it) { v.push_back(it->second); c.push_back(it->first.second); } p.push_back(v.size()); }
    return lalib::SpMat<T>(v, p, c);
}
// Spreads the rows and columns of a pattern: indices that need more than 8, 16 or 32 bits.
template<class T> SpModel<T> spread(Rng& r, const SpModel<T>& s, size_t max_row, size_t max_col) {
    auto pick = [&](size_t n, size_t lim) {
        std::vector<size_t> v; size_t step = std::max<size_t>(1, lim / (n + 1)), at = r.below(step);
        for (size_t i = 0; i < n; ++i) { v.push_back(at); at += 1 + r.below(step); }
        return v;
    };
    auto ri = pick(s.rows(), max_row), ci = pick(s.cols(), max_col);
    SpModel<T> o; for (auto& [p, v] : s) o[{ri[p.first], ci[p.second]}] = v;
    return o;
}
// As csr_of, the entries of each row in a random order of columns.
template<class T> lalib::SpMat<T> csr_shuffled(Rng& r, const SpModel<T>& s, size_t n) {
    std::vector<T> v; std::vector<size_t> p{0}, c;
    auto it = s.begin();
    for (size_t i = 0; i < n; ++i) {
        size_t b = v.size();
        for (; it != s.end() && it->first.first == i; ++it) { v.push_back(it->second); c.push_back(it->first.second); }
        for (size_t k = v.size(); k > b + 1; --k) { size_t q = b + r.below(k - b); std::swap(v[k - 1], v[q]); std::swap(c[k - 1], c[q]); }
        p.push_back(v.size());
    }
    return lalib::SpMat<T>(v, p, c);
}
template<class T> Mat<T> dense_of(const SpModel<T>& s, size_t n, size_t m) { Mat<T> a(n, m); for (auto& [p, v] : s) a(p.first, p.second) = v; return a; }
template<class T> uint64_t hsp(const SpModel<T>& s, uint64_t h = 3) { for (auto& [p, v] : s) { h = hash_bytes(&p, sizeof p, h); h = hash_bytes(&v, sizeof v, h); } return h; }
template<class T> std::string show_sp(const SpModel<T>& s, size_t lim = 6) {
    std::string o; size_t k = 0;
    for (auto& [p, v] : s) { if (k++ == lim) { o += ".."; break; } o += "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")="; fmt_val(o, v); o += ' '; }
    return o;
}
// Compares a coordinate-form matrix with the model: reads, count, shape, order of entries.
template<class T> void check_coo(Ctx& c, const lalib::SpCooMat<T>& m, const SpModel<T>& s, const char* when, bool values = true) {
    c.want(m.nnz() == s.size() && m.values().size() == s.size() && m.row_indices().size() == s.size() && m.col_indices().size() == s.size(), "nnz", "%s: %zu entries, expected %zu", when, (size_t)m.nnz(), s.size());
    auto sh = m.shape();
    c.want(sh.first == s.rows() && sh.second == s.cols(), "shape", "%s: shape %zux%zu, expected %zux%zu", when, (size_t)sh.first, (size_t)sh.second, s.rows(), s.cols());
    if (m.nnz() != s.size()) return;
    size_t k = 0; bool ord = true;
    for (auto& [p, v] : s) { ord = ord && m.row_indices()[k] == p.first && m.col_indices()[k] == p.second && (!values || m.values()[k] == v); ++k; }
    c.want(ord, "order", "%s: the stored entries are not the given ones in row-major order", when);
    if (!values) return;
    bool ok = true; size_t bi = 0, bj = 0;
    if (s.rows() > 3000 || s.cols() > 3000) {   // too many positions: every entry, its neighbours, its transposed position
        size_t st = 1 + s.size() * s.size() / 400000, q = 0;
        for (auto& [p, v] : s) {
            if (q++ % st) continue;
            for (auto [i, j] : {Pos{p.first, p.second}, Pos{p.first + 1, p.second}, Pos{p.first, p.second + 1}, Pos{p.first - (p.first > 0), p.second}, Pos{p.first, p.second - (p.second > 0)}, Pos{p.second, p.first}, Pos{(unsigned)p.first, (unsigned)p.second}, Pos{p.first, 0}, Pos{0, p.second}}) {
                ++c.observations;
                if (!(m(i, j) == s.get(i, j)) || !(m.at(i, j) == s.get(i, j))) { ok = false; bi = i; bj = j; }
            }
        }
        c.want(ok, "element", "%s: element (%zu, %zu) reads wrong", when, bi, bj);
        return;
    }
    size_t cells = (s.rows() + 2) * (s.cols() + 2);
    size_t stride = 1 + cells * (s.size() + 1) / 100000;   // a lookup is linear: large matrices are sampled
    for (size_t q = c.evals % stride; q < cells; q += stride) {
        size_t i = q / (s.cols() + 2), j = q % (s.cols() + 2);
        ++c.observations;
        if (!(m(i, j) == s.get(i, j)) || !(m.at(i, j) == s.get(i, j))) { ok = false; bi = i; bj = j; }
    }
    c.want(ok, "element", "%s: element (%zu, %zu) reads wrong", when, bi, bj);
}
template<class T> void check_csr(Ctx& c, const lalib::SpMat<T>& m, const SpModel<T>& s, size_t rows, const char* when) {
    c.want(m.nnz() == s.size() && m.values().size() == s.size() && m.col_indices().size() == s.size(), "nnz", "%s: %zu entries, expected %zu", when, (size_t)m.nnz(), s.size());
    auto sh = m.shape();
    c.want(sh.first == rows && sh.second == s.cols(), "shape", "%s: shape %zux%zu, expected %zux%zu", when, (size_t)sh.first, (size_t)sh.second, rows, s.cols());
    if (m.nnz() != s.size() || sh.first != rows) return;
    bool ptr = m.row_ptr().size() == rows + 1 || (rows == 0 && m.row_ptr().empty());
    size_t k = 0;
    auto it = s.begin();
    for (size_t i = 0; ptr && i < rows; ++i) { ptr = m.row_ptr()[i] == k; for (; it != s.end() && it->first.first == i; ++it) ++k; ptr = ptr && m.row_ptr()[i + 1] == k; }
    c.want(ptr, "row-pointers", "%s: the row pointers do not delimit the rows", when);
    if (!ptr) return;
    bool ok = true; size_t bi = 0, bj = 0;
    if (rows * s.cols() > 400000) {
        it = s.begin();
        for (size_t i = 0; i < rows; ++i) {
            for (size_t j : {(size_t)0, i, s.cols() - 1, s.cols(), s.cols() / 2}) if (!(m(i, j) == s.get(i, j)) || !(m.at(i, j) == s.get(i, j))) { ok = false; bi = i; bj = j; }
            for (; it != s.end() && it->first.first == i; ++it) for (size_t j : {it->first.second, it->first.second + 1, it->first.second - (it->first.second > 0), (size_t)(unsigned)it->first.second})
                if (!(m(i, j) == s.get(i, j)) || !(m.at(i, j) == s.get(i, j))) { ok = false; bi = i; bj = j; }
        }
        c.observations += rows * 5;
        c.want(ok, "element", "%s: element (%zu, %zu) reads wrong", when, bi, bj);
        return;
    }
    for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < s.cols() + 2; ++j)
        if (!(m(i, j) == s.get(i, j)) || !(m.at(i, j) == s.get(i, j))) { ok = false; bi = i; bj = j; }
    c.observations += rows * (s.cols() + 2);
    c.want(ok, "element", "%s: element (%zu, %zu) reads wrong", when, bi, bj);
}
}
