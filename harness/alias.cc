// P04: the result operand is also an input.
#include "trisys.hpp"
#include "cholcheck.hpp"
using namespace vp;
using lalib::DynVec; using lalib::SizedVec; using lalib::DynMat; using lalib::SizedMat; using lalib::SpMat;

template<class T, class F> Expect<T> elementwise(size_t n, F&& f) { Expect<T> e; for (size_t i = 0; i < n; ++i) f(e, i); return e; }

// ---- vectors: V is a vector of n elements ----
template<class T, class Make> void vec_case(Ctx& c, const char* fam, size_t n, int kind, Make&& make) {
    auto& r = c.rng;
    auto x = gen_vec<T>(r, kind, n), y = gen_vec<T>(r, kind, n, 29); T a = gen_scalar<T>(r, kind);
    uint64_t h = hv(x, hv(y, hs(a)));
    auto begin = [&](const char* op) { c.begin(cat(cat(fam, op).c_str(), tname<T>()), h, any_nonzero(x), "n=%zu data=%s alpha=%s x=%s y=%s", n, dname(kind), show(&a, 1).c_str(), show(x.data(), n).c_str(), show(y.data(), n).c_str()); };
    auto chk = [&](const auto& v, const Expect<T>& e) { c.want(v.size() == n, "size", "result has %zu elements", (size_t)v.size()); if (v.size() == n) expect<T>(c, "value", v.data(), e, kind); };
    long double ce = Tr<T>::cplx ? 6 : 1;
    auto lin = [&](const std::vector<T>& p, const std::vector<T>& q, int s) { return elementwise<T>(n, [&](auto& e, size_t i) { auto v = s > 0 ? up(p[i]) + up(q[i]) : up(p[i]) - up(q[i]); e.add(v, rmag(v), 1); }); };
    auto X = [&] { return make(x); }; auto Y = [&] { return make(y); };
    { begin("neg(x->x)"); auto v = X(); lalib::neg(v, v); chk(v, elementwise<T>(n, [&](auto& e, size_t i) { e.add(-up(x[i]), 0, 0); })); }
    { begin("add(x,y->x)"); auto v = X(); const auto w = Y(); lalib::add(v, w, v); chk(v, lin(x, y, 1)); c.same("operand", w.data(), y.data(), n); }
    { begin("add(y,x->x)"); auto v = X(); const auto w = Y(); lalib::add(w, v, v); chk(v, lin(y, x, 1)); c.same("operand", w.data(), y.data(), n); }
    { begin("add(x,x->x)"); auto v = X(); lalib::add(v, v, v); chk(v, lin(x, x, 1)); }
    { begin("add(x,x->y)"); const auto v = X(); auto w = Y(); lalib::add(v, v, w); chk(w, lin(x, x, 1)); c.same("operand", v.data(), x.data(), n); }
    { begin("sub(x,y->x)"); auto v = X(); const auto w = Y(); lalib::sub(v, w, v); chk(v, lin(x, y, -1)); c.same("operand", w.data(), y.data(), n); }
    { begin("sub(y,x->x)"); auto v = X(); const auto w = Y(); lalib::sub(w, v, v); chk(v, lin(y, x, -1)); c.same("operand", w.data(), y.data(), n); }
    { begin("sub(x,x->x)"); auto v = X(); lalib::sub(v, v, v); chk(v, lin(x, x, -1)); }
    { begin("sub(x,x->y)"); const auto v = X(); auto w = Y(); lalib::sub(v, v, w); chk(w, lin(x, x, -1)); }
    { begin("axpy(x->x)"); auto v = X(); lalib::axpy(a, v, v); chk(v, elementwise<T>(n, [&](auto& e, size_t i) { e.add(rmul(up(a), up(x[i])) + up(x[i]), (mag(a) + 1) * mag(x[i]), ce + 1); })); }
    { begin("x=x+x"); auto v = X(); v = v + v; chk(v, lin(x, x, 1)); }
    { begin("x=x-y"); auto v = X(); const auto w = Y(); v = v - w; chk(v, lin(x, y, -1)); }
    { begin("x=-x"); auto v = X(); v = -v; chk(v, elementwise<T>(n, [&](auto& e, size_t i) { e.add(-up(x[i]), 0, 0); })); }
    { begin("x=a*x"); auto v = X(); v = a * v; chk(v, elementwise<T>(n, [&](auto& e, size_t i) { e.add(rmul(up(a), up(x[i])), mag(a) * mag(x[i]), ce); })); }
    if constexpr (!Tr<T>::cplx) {
        begin("dot(x,x)"); const auto v = X(); T d = v.dot(v), d2 = lalib::dot(v, v);
        Expect<T> e; long double s = 0; for (auto& q : x) s += (long double)q * q; e.add(s, s, (long double)n + 4);
        expect<T>(c, "value", &d, e, kind); expect<T>(c, "value-free", &d2, e, kind); c.same("operand", v.data(), x.data(), n);
    }
}
// ---- fixed-size/dynamic mixtures whose result can be an input ----
template<class T, size_t N> void mixed_case(Ctx& c, int kind) {
    auto& r = c.rng;
    auto x = gen_vec<T>(r, kind, N), y = gen_vec<T>(r, kind, N, 29);
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), hv(x, hv(y)), any_nonzero(x), "n=%zu data=%s x=%s y=%s", N, dname(kind), show(x.data(), N).c_str(), show(y.data(), N).c_str()); };
    auto lin = [&](const std::vector<T>& p, const std::vector<T>& q, int s) { return elementwise<T>(N, [&](auto& e, size_t i) { auto v = s > 0 ? up(p[i]) + up(q[i]) : up(p[i]) - up(q[i]); e.add(v, rmag(v), 1); }); };
    const DynVec<T> d(y);
    Guarded<SizedVec<T, N>> s(x);
    auto set = [&] { s.v = SizedVec<T, N>(x); };
    begin("add(s,d->s)"); lalib::add(s.v, d, s.v); expect<T>(c, "value", s.v.data(), lin(x, y, 1), kind); set();
    begin("add(d,s->s)"); lalib::add(d, s.v, s.v); expect<T>(c, "value", s.v.data(), lin(y, x, 1), kind); set();
    begin("sub(s,d->s)"); lalib::sub(s.v, d, s.v); expect<T>(c, "value", s.v.data(), lin(x, y, -1), kind); set();
    begin("sub(d,s->s)"); lalib::sub(d, s.v, s.v); expect<T>(c, "value", s.v.data(), lin(y, x, -1), kind); set();
    c.same("operand", d.data(), y.data(), N); c.want(s.ok(), "stray-write", "bytes next to the vector overwritten");
}
// ---- cross products ----
template<class T> Expect<T> r_cross(const std::vector<T>& x, const std::vector<T>& y, const std::vector<T>* acc) {
    Expect<T> e;
    for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; Ref<T> v = rmul(up(x[j]), up(y[k])) - rmul(up(y[j]), up(x[k])); long double m = mag(x[j]) * mag(y[k]) + mag(y[j]) * mag(x[k]); if (acc) { v += up((*acc)[i]); m += mag((*acc)[i]); } e.add(v, m, 10); }
    return e;
}
template<class T> void cross_case(Ctx& c, int kind) {
    auto& r = c.rng;
    auto x = gen_vec<T>(r, kind, 3), y = gen_vec<T>(r, kind, 3, 29);
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), hv(x, hv(y)), any_nonzero(x) && any_nonzero(y), "data=%s x=%s y=%s", dname(kind), show(x.data(), 3).c_str(), show(y.data(), 3).c_str()); };
    using S = SizedVec<T, 3>; using D = DynVec<T>;
    auto exy = r_cross(x, y, static_cast<std::vector<T>*>(nullptr)), ayx = r_cross(x, y, &x), ayy = r_cross(x, y, &y);
    auto go = [&](const char* name, auto mx, auto my, auto first) {   // result is the first or the second operand
        begin(cat("cross", name).c_str());
        { auto a = mx(x); auto b = my(y); if constexpr (first) { lalib::cross(a, b, a); expect<T>(c, "value", a.data(), exy, kind); c.same("operand", b.data(), y.data(), 3); } else { lalib::cross(a, b, b); expect<T>(c, "value", b.data(), exy, kind); c.same("operand", a.data(), x.data(), 3); } }
        begin(cat("cross_acc", name).c_str());
        { auto a = mx(x); auto b = my(y); if constexpr (first) { lalib::cross_acc(a, b, a); expect<T>(c, "value", a.data(), ayx, kind); c.same("operand", b.data(), y.data(), 3); } else { lalib::cross_acc(a, b, b); expect<T>(c, "value", b.data(), ayy, kind); c.same("operand", a.data(), x.data(), 3); } }
    };
    auto ms = [](const std::vector<T>& v) { return S(v); }; auto md = [](const std::vector<T>& v) { return D(v); };
    go("ss1", ms, ms, std::true_type{}); go("ss2", ms, ms, std::false_type{}); go("sd1", ms, md, std::true_type{}); go("sd2", ms, md, std::false_type{});
    go("ds1", md, ms, std::true_type{}); go("ds2", md, ms, std::false_type{}); go("dd1", md, md, std::true_type{}); go("dd2", md, md, std::false_type{});
    auto zero = r_cross(x, x, static_cast<std::vector<T>*>(nullptr));
    begin("cross.all-same"); { S a(x); lalib::cross(a, a, a); expect<T>(c, "value", a.data(), zero, kind); D d(x); lalib::cross(d, d, d); expect<T>(c, "value-dyn", d.data(), zero, kind); }
    auto keep = r_cross(x, x, &x);
    begin("cross_acc.all-same"); { S a(x); lalib::cross_acc(a, a, a); expect<T>(c, "value", a.data(), keep, kind); D d(x); lalib::cross_acc(d, d, d); expect<T>(c, "value-dyn", d.data(), keep, kind); }
    begin("cross.x=cross(x,y)"); { S a(x); const S b(y); a = lalib::cross(a, b); expect<T>(c, "value", a.data(), exy, kind); }
}
// ---- matrix-vector: the result is the vector ----
template<class T, class Mk, class Vk> void mv_case(Ctx& c, const char* fam, const Mat<T>& A, int kind, Mk&& mk, Vk&& vk) {
    auto& r = c.rng; size_t n = A.n;
    auto x = gen_vec<T>(r, kind, n, 3); T al = gen_scalar<T>(r, kind), be = gen_scalar<T>(r, kind);
    c.begin(cat(cat(fam, "mul(x->x)").c_str(), tname<T>()), hv(A.a, hv(x, hs(al, hs(be)))), any_nonzero(A.a) && any_nonzero(x), "n=%zu data=%s alpha=%s beta=%s A=%s x=%s", n, dname(kind), show(&al, 1).c_str(), show(&be, 1).c_str(), show(A.a.data(), n * n).c_str(), show(x.data(), n).c_str());
    const auto M = mk(A); auto v = vk(x);
    auto& ret = lalib::mul(al, M, v, be, v);
    c.want(&ret == &v && v.size() == n, "return", "wrong result operand");
    if (v.size() == n) expect<T>(c, "value", v.data(), r_gemv(al, A, x, be, x), kind);
    c.begin(cat(cat(fam, "x=A*x").c_str(), tname<T>()), hv(A.a, hv(x)), any_nonzero(A.a) && any_nonzero(x), "n=%zu data=%s A=%s x=%s", n, dname(kind), show(A.a.data(), n * n).c_str(), show(x.data(), n).c_str());
    v = vk(x); v = M * v;
    if (v.size() == n) expect<T>(c, "value", v.data(), r_gemv(T(1), A, x, T(0), {}), kind);
    if constexpr (requires { M.data(); }) c.same("operand", M.data(), A.a.data(), n * n);
}
// ---- matrix-matrix ----
template<class T, class Mk> void mm_case(Ctx& c, const char* fam, size_t n, int kind, Mk&& mk) {
    auto& r = c.rng;
    auto A = gen_mat<T>(r, kind, n, n), B = gen_mat<T>(r, kind, n, n, 5); T al = gen_scalar<T>(r, kind), be = gen_scalar<T>(r, kind);
    auto begin = [&](const char* op) { c.begin(cat(cat(fam, op).c_str(), tname<T>()), hv(A.a, hv(B.a, hs(al, hs(be)))), any_nonzero(A.a) && any_nonzero(B.a), "n=%zu data=%s alpha=%s beta=%s A=%s B=%s", n, dname(kind), show(&al, 1).c_str(), show(&be, 1).c_str(), show(A.a.data(), n * n).c_str(), show(B.a.data(), n * n).c_str()); };
    auto lin = [&](const Mat<T>& p, const Mat<T>& q, int s) { return elementwise<T>(n * n, [&](auto& e, size_t i) { auto v = s > 0 ? up(p.a[i]) + up(q.a[i]) : up(p.a[i]) - up(q.a[i]); e.add(v, rmag(v), 1); }); };
    { begin("mul(A,B->A)"); auto a = mk(A); const auto b = mk(B); auto& q = lalib::mul(al, a, b, be, a); c.want(&q == &a, "return", "wrong result"); expect<T>(c, "value", a.data(), r_gemm(al, A, B, be, &A), kind); c.same("operand", b.data(), B.a.data(), n * n); }
    { begin("mul(A,B->B)"); const auto a = mk(A); auto b = mk(B); lalib::mul(al, a, b, be, b); expect<T>(c, "value", b.data(), r_gemm(al, A, B, be, &B), kind); c.same("operand", a.data(), A.a.data(), n * n); }
    { begin("mul(A,A->A)"); auto a = mk(A); lalib::mul(al, a, a, be, a); expect<T>(c, "value", a.data(), r_gemm(al, A, A, be, &A), kind); }
    { begin("mul(A,A->C)"); const auto a = mk(A); auto b = mk(B); lalib::mul(al, a, a, be, b); expect<T>(c, "value", b.data(), r_gemm(al, A, A, be, &B), kind); c.same("operand", a.data(), A.a.data(), n * n); }
    { begin("A=A*B"); auto a = mk(A); const auto b = mk(B); a = a * b; expect<T>(c, "value", a.data(), r_gemm<T>(T(1), A, B, T(0), nullptr), kind); }
    { begin("add(A,B->A)"); auto a = mk(A); const auto b = mk(B); lalib::add(a, b, a); expect<T>(c, "value", a.data(), lin(A, B, 1), kind); c.same("operand", b.data(), B.a.data(), n * n); }
    { begin("add(A,B->B)"); const auto a = mk(A); auto b = mk(B); lalib::add(a, b, b); expect<T>(c, "value", b.data(), lin(A, B, 1), kind); }
    { begin("add(A,A->A)"); auto a = mk(A); lalib::add(a, a, a); expect<T>(c, "value", a.data(), lin(A, A, 1), kind); }
    { begin("sub(A,B->A)"); auto a = mk(A); const auto b = mk(B); lalib::sub(a, b, a); expect<T>(c, "value", a.data(), lin(A, B, -1), kind); c.same("operand", b.data(), B.a.data(), n * n); }
    { begin("sub(A,B->B)"); const auto a = mk(A); auto b = mk(B); lalib::sub(a, b, b); expect<T>(c, "value", b.data(), lin(A, B, -1), kind); c.same("operand", a.data(), A.a.data(), n * n); }
    { begin("sub(A,A->A)"); auto a = mk(A); lalib::sub(a, a, a); expect<T>(c, "value", a.data(), lin(A, A, -1), kind); }
}
// the result is one factor of a product that is not square: C (n x m) = al A (n x m) B (m x m) + be C, and its mirror image
template<class T> void mm_rect(Ctx& c, size_t n, size_t m, int kind) {
    auto& r = c.rng;
    auto A = gen_mat<T>(r, kind, n, m), B = gen_mat<T>(r, kind, m, m, 5), D = gen_mat<T>(r, kind, n, n, 9); T al = gen_scalar<T>(r, kind), be = gen_scalar<T>(r, kind);
    uint64_t h = hv(A.a, hv(B.a, hv(D.a, hs(al, hs(be)))));
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), h, any_nonzero(A.a), "%zux%zu data=%s alpha=%s beta=%s A=%s B=%s", n, m, dname(kind), show(&al, 1).c_str(), show(&be, 1).c_str(), show(A.a.data(), n * m).c_str(), show(B.a.data(), m * m).c_str()); };
    { begin("dyn.mul(A,B->A)rect"); DynMat<T> a(n, m, A.a); const DynMat<T> b(m, m, B.a); lalib::mul(al, a, b, be, a); expect<T>(c, "value", a.data(), r_gemm(al, A, B, be, &A), kind); c.same("operand", b.data(), B.a.data(), m * m); }
    { begin("dyn.mul(D,A->A)rect"); DynMat<T> a(n, m, A.a); const DynMat<T> d(n, n, D.a); lalib::mul(al, d, a, be, a); expect<T>(c, "value", a.data(), r_gemm(al, D, A, be, &A), kind); c.same("operand", d.data(), D.a.data(), n * n); }
}
template<class T, size_t N, size_t M> void mixed_mat(Ctx& c, int kind) {   // fixed-size with dynamic operands
    auto& r = c.rng;
    auto A = gen_mat<T>(r, kind, N, M), B = gen_mat<T>(r, kind, M, M, 5), D = gen_mat<T>(r, kind, N, N, 9), E = gen_mat<T>(r, kind, N, M, 31); T al = gen_scalar<T>(r, kind), be = gen_scalar<T>(r, kind);
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), hv(A.a, hv(B.a, hs(al, hs(be)))), any_nonzero(A.a), "%zux%zu data=%s alpha=%s beta=%s A=%s B=%s", N, M, dname(kind), show(&al, 1).c_str(), show(&be, 1).c_str(), show(A.a.data(), N * M).c_str(), show(B.a.data(), M * M).c_str()); };
    using S = SizedMat<T, N, M>; using SB = SizedMat<T, M, M>; using SD = SizedMat<T, N, N>;
    const DynMat<T> db(M, M, B.a), dd(N, N, D.a), de(N, M, E.a); const SB sb(B.a); const SD sd(D.a);
    Guarded<S> a(A.a); auto set = [&] { a.v = S(A.a); };
    auto right = r_gemm(al, A, B, be, &A), left = r_gemm(al, D, A, be, &A);
    auto lin = [&](const Mat<T>& p, const Mat<T>& q, int s) { return elementwise<T>(N * M, [&](auto& e, size_t i) { auto v = s > 0 ? up(p.a[i]) + up(q.a[i]) : up(p.a[i]) - up(q.a[i]); e.add(v, rmag(v), 1); }); };
    begin("s*s->first"); lalib::mul(al, a.v, sb, be, a.v); expect<T>(c, "value", a.v.data(), right, kind); set();
    begin("s*d->first"); lalib::mul(al, a.v, db, be, a.v); expect<T>(c, "value", a.v.data(), right, kind); set();
    begin("s*s->second"); lalib::mul(al, sd, a.v, be, a.v); expect<T>(c, "value", a.v.data(), left, kind); set();
    begin("d*s->second"); lalib::mul(al, dd, a.v, be, a.v); expect<T>(c, "value", a.v.data(), left, kind); set();
    { DynMat<T> w(N, M, A.a); begin("d*s->first"); lalib::mul(al, w, sb, be, w); expect<T>(c, "value", w.data(), right, kind); }
    { DynMat<T> w(N, M, A.a); begin("s*d->second"); lalib::mul(al, sd, w, be, w); expect<T>(c, "value", w.data(), left, kind); }
    begin("add(s,d->s)m"); lalib::add(a.v, de, a.v); expect<T>(c, "value", a.v.data(), lin(A, E, 1), kind); set();
    begin("add(d,s->s)m"); lalib::add(de, a.v, a.v); expect<T>(c, "value", a.v.data(), lin(E, A, 1), kind); set();
    begin("sub(s,d->s)m"); lalib::sub(a.v, de, a.v); expect<T>(c, "value", a.v.data(), lin(A, E, -1), kind); set();
    begin("sub(d,s->s)m"); lalib::sub(de, a.v, a.v); expect<T>(c, "value", a.v.data(), lin(E, A, -1), kind);
    c.same("operand", db.data(), B.a.data(), M * M); c.same("operand", dd.data(), D.a.data(), N * N); c.same("operand", de.data(), E.a.data(), N * M);
    c.want(a.ok(), "stray-write", "bytes next to the matrix overwritten");
}
template<class T> Mat<T> sparsify(Rng& r, Mat<T> A) { double p = r.unit(); for (auto& v : A.a) if (r.chance(p)) v = T(0); A(A.n - 1, A.n - 1) = T(3); return A; }
template<class T> SpMat<T> csr(const Mat<T>& A) {
    std::vector<T> v; std::vector<size_t> p{0}, q;
    for (size_t i = 0; i < A.n; ++i) { for (size_t j = 0; j < A.m; ++j) if (A(i, j) != T(0)) { v.push_back(A(i, j)); q.push_back(j); } p.push_back(v.size()); }
    return SpMat<T>(v, p, q);
}
template<class T, size_t N> void sized_all(Ctx& c, int kind) {
    vec_case<T>(c, "sized", N, kind, [](const std::vector<T>& v) { return SizedVec<T, N>(v); });
    mixed_case<T, N>(c, kind);
    mv_case<T>(c, "sized", gen_mat<T>(c.rng, kind, N, N), kind, [](const Mat<T>& A) { return SizedMat<T, N, N>(A.a); }, [](const std::vector<T>& v) { return SizedVec<T, N>(v); });
    mm_case<T>(c, "sized", N, kind, [](const Mat<T>& A) { return SizedMat<T, N, N>(A.a); });
}
// ---- linear solves into the right-hand side ----
template<class T> void solve_case(Ctx& c, size_t n, size_t k, int kind) {
    auto& r = c.rng;
    Sys<T> s(r, n, k, kind);
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), s.hash(), any_nonzero(s.b.a), "n=%zu rhs=%zu %s d=%s b=%s", n, k, tri_kind(kind), show(s.d.data(), n).c_str(), show(s.b.a.data(), n * k).c_str()); };
    lalib::DynTriDiagMat<T> m(s.dl, s.d, s.du);
    lalib::solver::TriDiag<lalib::DynTriDiagMat<T>> solver(m);
    if (k == 1) {
        begin("tri-diag.vec(b->b)"); DynVec<T> b(s.b.a); auto& ret = solver.solve_linear(b, b);
        c.want(&ret == &b && b.size() == n, "return", "wrong result operand");
        check_tri(c, s, [&](size_t i, size_t) { return b[i]; });
    }
    begin("tri-diag.mat(b->b)"); DynMat<T> B(n, k, s.b.a); auto& ret = solver.solve_linear(B, B);
    c.want(&ret == &B, "return", "wrong result operand");
    check_tri(c, s, [&](size_t i, size_t q) { return B(i, q); });
}
template<class T, size_t N, size_t K> void solve_sized(Ctx& c, int kind) {
    Sys<T> s(c.rng, N, K, kind);
    auto begin = [&](const char* op) { c.begin(cat(op, tname<T>()), s.hash(), any_nonzero(s.b.a), "n=%zu rhs=%zu %s d=%s b=%s", N, K, tri_kind(kind), show(s.d.data(), N).c_str(), show(s.b.a.data(), N * K).c_str()); };
    lalib::solver::TriDiag<lalib::DynTriDiagMat<T>> solver(lalib::DynTriDiagMat<T>(s.dl, s.d, s.du));
    begin("tri-diag.sized-mat(b->b)"); Guarded<SizedMat<T, N, K>> B(s.b.a); solver.solve_linear(B.v, B.v);
    check_tri(c, s, [&](size_t i, size_t q) { return B.v(i, q); });
    if constexpr (K == 1) {
        begin("tri-diag.sized-vec(b->b)"); Guarded<SizedVec<T, N>> b(s.b.a); solver.solve_linear(b.v, b.v);
        check_tri(c, s, [&](size_t i, size_t) { return b.v[i]; });
        c.want(b.ok(), "stray-write", "bytes next to the vector overwritten");
    }
    c.want(B.ok(), "stray-write", "bytes next to the matrix overwritten");
}
// in-place and other Cholesky solves of one factorization agree
template<class T> void chol_case(Ctx& c, size_t n, size_t k, int kind) {
    auto& r = c.rng;
    auto s = gen_spd<T>(r, n, kind);
    Mat<T> b(n, k); for (auto& v : b.a) v = (T)r.range(-9, 9);
    auto go = [&](const char* name, const auto& f, const Fact<T>& fc) {
        c.begin(cat(cat(name, "mat").c_str(), tname<T>()), hv(s.a.a, hv(b.a, k)), any_nonzero(b.a), "n=%zu rhs=%zu %s A=%s b=%s", n, k, s.kind, show(s.a.a.data(), n * n).c_str(), show(b.a.data(), n * k).c_str());
        const DynMat<T> B(n, k, b.a); auto X = f.solve_linear(B); DynMat<T> W(n, k, b.a); f.solve_linear_mut(W);
        Spd<T> ns = s; ns.exact = false;
        check_solution<T>(c, ns, fc, b, nullptr, [&](size_t i, size_t q) { return W(i, q); });
        check_solution<T>(c, ns, fc, b, nullptr, [&](size_t i, size_t q) { return X(i, q); });
        c.same("operand", B.data(), b.a.data(), n * k);
        if (k == 1) { DynVec<T> w(b.a); f.solve_linear_mut(w); check_solution<T>(c, ns, fc, b, nullptr, [&](size_t i, size_t) { return w[i]; }); }
    };
    auto fact = [&](bool mod, auto&& L) { Fact<T> f{n, mod, Mat<T>(n, n)}; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) f.l(i, j) = L(i, j); return f; };
    { lalib::solver::DynCholeskyFactorization<T> f(DynMat<T>(n, n, s.a.a)); go("cholesky", f, fact(false, f.factor_mat())); }
    { lalib::solver::DynModCholeskyFactorization<T> f(DynMat<T>(n, n, s.a.a)); go("mod-cholesky", f, fact(true, f.factor_mat())); }
    { lalib::solver::DynTriCholeskyFactorization<T> f(lalib::DynHermiteMat<T>(n, packed_lower(s.a))); go("tri-cholesky", f, fact(false, f.lower_mat())); }
}
template<class T> void run(Ctx& c, size_t reps) {
    auto& r = c.rng;
    auto kd = [&] { return (int)r.below(D_KINDS); };
    auto dv = [](const std::vector<T>& v) { return DynVec<T>(v); };
    auto dm = [](const Mat<T>& A) { return DynMat<T>(A.n, A.m, A.a); };
    for_sizes(std::index_sequence<1, 2, 3, 4, 7>{}, [&](auto N) { for (size_t q = 0; q < c.n(8, 60); ++q) sized_all<T, N>(c, kd()); });
    if constexpr (std::is_same_v<T, double>) for (size_t q = 0; q < c.n(5, 40); ++q) { sized_all<T, 16>(c, kd()); sized_all<T, 33>(c, kd()); }
    for (size_t q = 0; q < c.n(30, 300); ++q) { cross_case<T>(c, kd()); mixed_mat<T, 2, 3>(c, kd()); mixed_mat<T, 3, 2>(c, kd()); mixed_mat<T, 3, 3>(c, kd()); mixed_mat<T, 1, 4>(c, kd()); mixed_mat<T, 4, 1>(c, kd()); }
    for (size_t q = 0; q < reps; ++q) {
        vec_case<T>(c, "dyn", gen_size(r, c.thorough), kd(), dv);
        size_t n = q < 40 ? 1 + q % 20 : 1 + r.below(90);
        int k = kd(); mv_case<T>(c, "dyn", gen_mat<T>(r, k, n, n), k, dm, dv);
        k = kd(); mv_case<T>(c, "csr", sparsify(r, gen_mat<T>(r, k, n, n)), k, [](const Mat<T>& A) { return csr(A); }, dv);
        mm_case<T>(c, "dyn", q < 40 ? 1 + q % 12 : 1 + r.below(36), kd(), dm);
        mm_rect<T>(c, 1 + r.below(30), 1 + r.below(30), kd());
    }
    vec_case<T>(c, "dyn", 1025, kd(), dv); vec_case<T>(c, "dyn", 5000, kd(), dv);
    mv_case<T>(c, "dyn", gen_mat<T>(r, D_INT, 301, 301), D_INT, dm, dv);
    if constexpr (std::is_floating_point_v<T>) {
        for (size_t q = 0; q < 2 * reps; ++q) solve_case<T>(c, 1 + r.below(40), r.chance(0.5) ? 1 : 1 + r.below(9), (int)r.below(6));
        for (int q = 0; q < 36; ++q) { solve_sized<T, 1, 1>(c, q % 6); solve_sized<T, 2, 3>(c, q % 6); solve_sized<T, 5, 1>(c, q % 6); solve_sized<T, 4, 4>(c, q % 6); solve_sized<T, 6, 2>(c, q % 6); }
        for (size_t q = 0; q < reps; ++q) chol_case<T>(c, 1 + r.below(16), 1 + r.below(5), (int)r.below(7));
    }
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "alias", [](Ctx& c) {
        run<double>(c, c.n(80, 1500)); run<float>(c, c.n(80, 1500)); run<std::complex<double>>(c, c.n(40, 400)); run<std::complex<float>>(c, c.n(40, 400)); run<int>(c, c.n(20, 100));
    });
}
