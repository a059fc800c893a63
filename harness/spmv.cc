// P13: sparse matrix-vector products.
#include "sparse.hpp"
#include "huge.hpp"
using namespace vp;
using lalib::SpMat; using lalib::SpCooMat; using lalib::DynVec;

template<class T> void mv_case(Ctx& c, size_t n, size_t m, int pat, int kind) {
    auto& r = c.rng;
    auto s = gen_sp<T>(r, kind, n, m, pat);
    if (s.empty()) s[{n - 1, m - 1}] = gen<T>(r, kind, 1);
    m = s.cols();
    bool arrays = r.chance(0.5);
    if (!arrays) n = s.rows();
    bool mixed = arrays && r.chance(0.3);
    const SpMat<T> A = mixed ? csr_shuffled(r, s, n) : arrays ? csr_of(s, n) : SpMat<T>(coo_of(r, s, (int)r.below(4)));
    auto D = dense_of(s, n, m);
    auto x = gen_vec<T>(r, kind, m, 3), y = gen_vec<T>(r, kind, n, 40);
    T al = gen_scalar<T>(r, kind), be = gen_scalar<T>(r, kind);
    uint64_t h = hsp(s, hv(x, hv(y, hs(al, hs(be)))));
    size_t empty = 0; for (size_t i = 0; i < n; ++i) empty += A.row_ptr()[i] == A.row_ptr()[i + 1];
    c.count("empty_rows", empty);
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), h, any_nonzero(x), "%zux%zu pattern=%d nnz=%zu data=%s alpha=%s beta=%s A=%s x=%s y=%s", n, m, pat, s.size(), dname(kind), show(&al, 1).c_str(), show(&be, 1).c_str(), show_sp(s).c_str(), show(x.data(), m).c_str(), show(y.data(), n).c_str()); };
    const DynVec<T> vx(x); DynVec<T> vy(y);
    const std::vector<T> v0 = A.values(); const std::vector<size_t> p0 = A.row_ptr(), c0 = A.col_indices();
    begin("mul");
    auto& ret = lalib::mul(al, A, vx, be, vy);
    c.want(&ret == &vy && vy.size() == n, "return", "wrong result operand");
    auto full = r_gemv<T>(al, D, x, be, y);
    if (vy.size() == n) expect<T>(c, "value", vy.data(), full, kind);
    begin("mul-again"); {   // accumulate again into the same result
        std::vector<T> y1(vy.begin(), vy.end());
        lalib::mul(al, A, vx, be, vy);
        expect<T>(c, "value", vy.data(), r_gemv<T>(al, D, x, be, y1), kind);
    }
    begin("op");
    auto p = A * vx;
    c.want(p.size() == n, "size", "product has %zu elements, expected %zu", (size_t)p.size(), n);
    if (p.size() == n) expect<T>(c, "value", p.data(), r_gemv<T>(T(1), D, x, T(0), {}), kind);
    // the dense product of the library agrees within the same bound
    begin("dense");
    if (p.size() == n) {
        lalib::DynMat<T> L(n, m, D.a); auto q = L * vx;
        auto e = r_gemv<T>(T(1), D, x, T(0), {}); bool ok = true;
        for (size_t i = 0; i < n; ++i) ok = ok && rmag(up(q[i]) - up(p[i])) <= 2 * e.b[i];
        c.want(ok, "dense", "the sparse product differs from the dense product");
    }
    c.same("operand", vx.data(), x.data(), m);
    c.want(A.row_ptr() == p0 && A.col_indices() == c0 && A.values().size() == v0.size(), "pattern", "the matrix operand changed");
    c.same("operand", A.values().data(), v0.data(), v0.size());
    if (!mixed && n * m < 40000) check_csr<T>(c, A, s, n, "matrix operand");
}
// Tens of thousands of rows, columns and entries.
template<class T> void long_case(Ctx& c, int shape) {
    auto& r = c.rng; auto s = huge_sp(c, shape); size_t z = s.r.size(), n = s.n + r.below(3), m = s.m; uint64_t salt = r.next();
    int span = sizeof(Real<T>) == 4 ? 4 : 9; bool op = r.chance(0.3), conv = r.chance(0.4);
    if (conv) n = s.n;
    auto ptr = row_pointers(s); ptr.resize(n + 1, z);
    const auto av = codes<T>(z, salt, span), xv = codes<T>(m, salt + 1, span);
    T al = op ? T(1) : code<T>(1, salt + 5, 1), be = op ? T(0) : code<T>(2, salt + 5, 2);
    const SpMat<T> A = conv ? SpMat<T>(SpCooMat<T>(av, s.r, s.c)) : SpMat<T>(av, ptr, s.c);
    const DynVec<T> x(xv); DynVec<T> y(codes<T>(n, salt + 2, 9));
    c.begin(cat(op ? "long-op" : "long-mul", tname<T>()), mix(salt), true, "long %zux%zu shape=%d nnz=%zu alpha=%s beta=%s x=%s", n, m, shape, z, show(&al, 1).c_str(), show(&be, 1).c_str(), show(xv.data(), m).c_str());
    if (op) y = A * x; else lalib::mul(al, A, x, be, y);
    c.want(y.size() == n, "size", "product has %zu elements, expected %zu", (size_t)y.size(), n);
    if (y.size() == n) each<T>(c, "value", y.data(), n, [&](size_t i) { T v = 0; for (size_t k = ptr[i]; k < ptr[i + 1]; ++k) v += av[k] * xv[s.c[k]]; return T(al * v + be * code<T>(i, salt + 2, 9)); });
    each<T>(c, "operand", x.data(), m, [&](size_t i) { return xv[i]; });
    c.want(A.row_ptr() == ptr && A.col_indices() == s.c && A.values() == av, "matrix", "the matrix operand changed");
}
template<class T> void run(Ctx& c, size_t reps) {
    if (roomy(c)) for (int shape = 0; shape < 4; ++shape) for (size_t k = 0; k < (c.thorough ? 12 : 2); ++k) long_case<T>(c, shape);
    auto kd = [&] { return (int)c.rng.below(D_KINDS); };
    for (int pat = 0; pat < 9; ++pat) for (size_t n = 1; n <= 4; ++n) for (size_t m = 1; m <= 4; ++m) mv_case<T>(c, n, m, pat, kd());
    for (size_t k = 0; k < reps; ++k) mv_case<T>(c, 1 + c.rng.below(40), 1 + c.rng.below(40), (int)c.rng.below(9), kd());
    for (size_t k = 0; k < c.n(3, 60); ++k) mv_case<T>(c, gen_size(c.rng, false) % 700 + 1, gen_size(c.rng, false) % 300 + 1, (int)c.rng.below(9), kd());
    mv_case<T>(c, 2000, 20, 6, kd()); mv_case<T>(c, 3, 5000, 4, kd()); mv_case<T>(c, 5000, 2, 1, kd()); mv_case<T>(c, 700, 700, 7, kd());
    mv_case<T>(c, 400, 3, 0, D_POS); mv_case<T>(c, 3, 400, 0, D_POS); mv_case<T>(c, 130, 130, 2, D_INT); mv_case<T>(c, 150, 60, 6, D_REAL);
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "spmv", [](Ctx& c) { run<double>(c, c.n(250, 5000)); run<float>(c, c.n(200, 3000)); run<std::complex<double>>(c, c.n(100, 2000)); run<std::complex<float>>(c, c.n(100, 1000)); run<int>(c, c.n(60, 300)); });
}
