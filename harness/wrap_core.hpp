// Monitor of the calls into BLAS and LAPACK: dimensions, leading dimensions, increments and, under AddressSanitizer,
// the whole memory that the call may touch. The calls go through unchanged.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdio>
extern "C" __attribute__((weak)) void* __asan_region_is_poisoned(void* p, size_t n);
extern std::atomic<long> vp_wrap_calls, vp_wrap_errors;
void vp_wrap_error(const char* fn, const char* what, long a, long b);
inline bool vp_dim(const char* fn, const char* what, long v, long min) { if (v < min) { vp_wrap_error(fn, what, v, min); return false; } return true; }
template<class T> inline void vp_region(const char* fn, const char* what, const T* p, long n) {
    if (n <= 0) return;
    if (!p) { vp_wrap_error(fn, what, 0, n); return; }
    if (__asan_region_is_poisoned && __asan_region_is_poisoned(const_cast<void*>(static_cast<const void*>(p)), (size_t)n * sizeof(T))) vp_wrap_error(fn, what, n, -1);
}
