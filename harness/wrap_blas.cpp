#include "wrap_core.hpp"
#include <complex>
#include <mutex>
#include <cstring>
std::atomic<long> vp_wrap_calls{0}, vp_wrap_errors{0};
static char last[300] = "";
static std::mutex mu;
void vp_wrap_error(const char* fn, const char* what, long a, long b) {
    std::lock_guard<std::mutex> l(mu);
    if (b == -1) std::snprintf(last, sizeof last, "%s: %s: %ld elements reach outside the object", fn, what, a);
    else std::snprintf(last, sizeof last, "%s: %s is %ld, at least %ld needed", fn, what, a, b);
    ++vp_wrap_errors;
}
extern "C" long vp_blas_calls() { return vp_wrap_calls; }
extern "C" long vp_blas_errors() { return vp_wrap_errors; }
extern "C" const char* vp_blas_last_error() { return last; }
using C = std::complex<float>; using Z = std::complex<double>;
static long span(long n, long inc) { return n > 0 ? 1 + (n - 1) * (inc < 0 ? -inc : inc) : 0; }
#define GEMM(NAME, T) \
extern "C" void __real_cblas_##NAME(int, int, int, int, int, int, T, const T*, int, const T*, int, T, T*, int); \
extern "C" void __wrap_cblas_##NAME(int o, int ta, int tb, int m, int n, int k, T al, const T* a, int lda, const T* b, int ldb, T be, T* c, int ldc) { \
    const char* f = "cblas_" #NAME; ++vp_wrap_calls; \
    long ar = ta == 111 ? m : k, ac = ta == 111 ? k : m, br = tb == 111 ? k : n, bc = tb == 111 ? n : k, cr = m, cc = n; \
    if (o == 102) { std::swap(ar, ac); std::swap(br, bc); std::swap(cr, cc); } \
    bool ok = vp_dim(f, "M", m, 0) & vp_dim(f, "N", n, 0) & vp_dim(f, "K", k, 0) & vp_dim(f, "lda", lda, ac > 1 ? ac : 1) & vp_dim(f, "ldb", ldb, bc > 1 ? bc : 1) & vp_dim(f, "ldc", ldc, cc > 1 ? cc : 1); \
    if (ok && m && n) { if (k) { vp_region(f, "A", a, (ar - 1) * lda + ac); vp_region(f, "B", b, (br - 1) * ldb + bc); } vp_region(f, "C", c, (cr - 1) * ldc + cc); } \
    __real_cblas_##NAME(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
GEMM(sgemm, float) GEMM(dgemm, double)
#define GEMV(NAME, T) \
extern "C" void __real_cblas_##NAME(int, int, int, int, T, const T*, int, const T*, int, T, T*, int); \
extern "C" void __wrap_cblas_##NAME(int o, int t, int m, int n, T al, const T* a, int lda, const T* x, int ix, T be, T* y, int iy) { \
    const char* f = "cblas_" #NAME; ++vp_wrap_calls; \
    long ac = o == 101 ? n : m, ar = o == 101 ? m : n; \
    bool ok = vp_dim(f, "M", m, 0) & vp_dim(f, "N", n, 0) & vp_dim(f, "lda", lda, ac > 1 ? ac : 1); \
    if (ok && m && n) { vp_region(f, "A", a, (ar - 1) * lda + ac); vp_region(f, "x", x, span(t == 111 ? n : m, ix)); vp_region(f, "y", y, span(t == 111 ? m : n, iy)); } \
    __real_cblas_##NAME(o, t, m, n, al, a, lda, x, ix, be, y, iy); }
GEMV(sgemv, float) GEMV(dgemv, double)
#define AXPY(NAME, S, T, TA) \
extern "C" void __real_cblas_##NAME(int, S, const TA*, int, TA*, int); \
extern "C" void __wrap_cblas_##NAME(int n, S al, const TA* x, int ix, TA* y, int iy) { \
    const char* f = "cblas_" #NAME; ++vp_wrap_calls; \
    if (vp_dim(f, "N", n, 0)) { vp_region(f, "x", (const T*)x, span(n, ix)); vp_region(f, "y", (T*)y, span(n, iy)); } \
    __real_cblas_##NAME(n, al, x, ix, y, iy); }
AXPY(saxpy, float, float, float) AXPY(daxpy, double, double, double) AXPY(caxpy, const void*, C, void) AXPY(zaxpy, const void*, Z, void)
#define SCAL(NAME, S, T, TA) \
extern "C" void __real_cblas_##NAME(int, S, TA*, int); \
extern "C" void __wrap_cblas_##NAME(int n, S al, TA* x, int ix) { \
    const char* f = "cblas_" #NAME; ++vp_wrap_calls; if (vp_dim(f, "N", n, 0)) vp_region(f, "x", (T*)x, span(n, ix)); __real_cblas_##NAME(n, al, x, ix); }
SCAL(sscal, float, float, float) SCAL(dscal, double, double, double) SCAL(cscal, const void*, C, void) SCAL(zscal, const void*, Z, void)
#define DOT(NAME, T) \
extern "C" T __real_cblas_##NAME(int, const T*, int, const T*, int); \
extern "C" T __wrap_cblas_##NAME(int n, const T* x, int ix, const T* y, int iy) { \
    const char* f = "cblas_" #NAME; ++vp_wrap_calls; if (vp_dim(f, "N", n, 0)) { vp_region(f, "x", x, span(n, ix)); vp_region(f, "y", y, span(n, iy)); } return __real_cblas_##NAME(n, x, ix, y, iy); }
DOT(sdot, float) DOT(ddot, double)
#define NRM(NAME, T) \
extern "C" T __real_cblas_##NAME(int, const T*, int); \
extern "C" T __wrap_cblas_##NAME(int n, const T* x, int ix) { \
    const char* f = "cblas_" #NAME; ++vp_wrap_calls; if (vp_dim(f, "N", n, 0)) vp_region(f, "x", x, span(n, ix)); return __real_cblas_##NAME(n, x, ix); }
NRM(snrm2, float) NRM(dnrm2, double)
