#include "wrap_core.hpp"
#include <complex>
using CF = std::complex<float>; using CD = std::complex<double>;
#define GTSV(NAME, T) \
extern "C" int __real_LAPACKE_##NAME(int, int, int, T*, T*, T*, T*, int); \
extern "C" int __wrap_LAPACKE_##NAME(int o, int n, int k, T* dl, T* d, T* du, T* b, int ldb) { \
    const char* f = "LAPACKE_" #NAME; ++vp_wrap_calls; long w = o == 101 ? k : n, h = o == 101 ? n : k; \
    if (vp_dim(f, "n", n, 0) & vp_dim(f, "nrhs", k, 0) & vp_dim(f, "ldb", ldb, w > 1 ? w : 1) && n && k) { vp_region(f, "dl", dl, n - 1); vp_region(f, "d", d, n); vp_region(f, "du", du, n - 1); vp_region(f, "b", b, (h - 1) * ldb + w); } \
    int info = __real_LAPACKE_##NAME(o, n, k, dl, d, du, b, ldb); if (info < 0) vp_wrap_error(f, "info (an argument is invalid)", info, 0); return info; }
GTSV(sgtsv, float) GTSV(dgtsv, double)
#define POTRF(NAME, T) \
extern "C" int __real_LAPACKE_##NAME(int, char, int, T*, int); \
extern "C" int __wrap_LAPACKE_##NAME(int o, char u, int n, T* a, int lda) { \
    const char* f = "LAPACKE_" #NAME; ++vp_wrap_calls; \
    if (vp_dim(f, "n", n, 0) & vp_dim(f, "lda", lda, n > 1 ? n : 1) && n) vp_region(f, "a", a, (long)(n - 1) * lda + n); \
    int info = __real_LAPACKE_##NAME(o, u, n, a, lda); if (info < 0) vp_wrap_error(f, "info (an argument is invalid)", info, 0); return info; }
POTRF(spotrf, float) POTRF(dpotrf, double) POTRF(cpotrf, CF) POTRF(zpotrf, CD)
#define POTRS(NAME, T) \
extern "C" int __real_LAPACKE_##NAME(int, char, int, int, const T*, int, T*, int); \
extern "C" int __wrap_LAPACKE_##NAME(int o, char u, int n, int k, const T* a, int lda, T* b, int ldb) { \
    const char* f = "LAPACKE_" #NAME; ++vp_wrap_calls; long w = o == 101 ? k : n, h = o == 101 ? n : k; \
    if (vp_dim(f, "n", n, 0) & vp_dim(f, "nrhs", k, 0) & vp_dim(f, "lda", lda, n > 1 ? n : 1) & vp_dim(f, "ldb", ldb, w > 1 ? w : 1) && n && k) { vp_region(f, "a", a, (long)(n - 1) * lda + n); vp_region(f, "b", b, (h - 1) * ldb + w); } \
    int info = __real_LAPACKE_##NAME(o, u, n, k, a, lda, b, ldb); if (info < 0) vp_wrap_error(f, "info (an argument is invalid)", info, 0); return info; }
POTRS(spotrs, float) POTRS(dpotrs, double) POTRS(cpotrs, CF) POTRS(zpotrs, CD)
