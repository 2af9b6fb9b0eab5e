// What nvcc provides, for running a CUDA source as host code under the emulator (emu.cc).
#pragma once
#include <cassert>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <algorithm>
#define __CUDACC__ 1
#define __CUDA_ARCH__ 700
#define __device__
#define __host__
#define __global__
#define __forceinline__ inline
#define __constant__ static const
#define __launch_bounds__(...)
#define __align__(n) __attribute__((aligned(n)))
#define __shared__ static __attribute__((section("fpvshared")))
#define FPV_NS __attribute__((no_sanitize("thread")))
struct fpv_dim { unsigned x, y, z; };
struct fpv_builtins { fpv_dim tid, bid, bdim, gdim; };
extern "C" {
extern fpv_builtins fpv_b;
extern char __start_fpvshared[] __attribute__((weak, visibility("hidden")));
extern char __stop_fpvshared[] __attribute__((weak, visibility("hidden")));
void *fpv_dynshared();
void fpv_barrier();
void fpv_warp_barrier(unsigned mask);
uint64_t fpv_exchange(unsigned mask, uint64_t v, int src, int what);
void fpv_atomic(void *p, int n);
int fpv_lane();
__attribute__((visibility("default"))) FPV_NS inline void fpv_unused() {}
__attribute__((visibility("default"), used)) static void *const fpv_keep = 0;
__attribute__((visibility("default"))) FPV_NS void fpv_shared_range(char **a, char **b) { *a = __start_fpvshared; *b = __stop_fpvshared; }
}
#define threadIdx (fpv_b.tid)
#define blockIdx (fpv_b.bid)
#define blockDim (fpv_b.bdim)
#define gridDim (fpv_b.gdim)
static const int warpSize = 32;
#define __syncthreads() fpv_barrier()
FPV_NS static inline void __syncwarp(unsigned mask = 0xffffffffu) { fpv_warp_barrier(mask); }
static inline void __threadfence() {}
static inline void __threadfence_block() {}
template <class T> FPV_NS static inline T fpv_shfl(unsigned mask, T v, int src, int what) {
    static_assert(sizeof(T) <= 8, "shuffle of a large type");
    uint64_t w = 0, r;
    __builtin_memcpy(&w, &v, sizeof(T));
    r = fpv_exchange(mask, w, src, what);
    T out;
    __builtin_memcpy(&out, &r, sizeof(T));
    return out;
}
template <class T> FPV_NS static inline T __shfl_down_sync(unsigned m, T v, unsigned d, int w = 32) {
    int l = fpv_lane(), s = l + (int)d; return fpv_shfl(m, v, (l / w == s / w) ? s : l, 1);
}
template <class T> FPV_NS static inline T __shfl_up_sync(unsigned m, T v, unsigned d, int w = 32) {
    int l = fpv_lane(), s = l - (int)d; return fpv_shfl(m, v, (s >= 0 && l / w == s / w) ? s : l, 2);
}
template <class T> FPV_NS static inline T __shfl_xor_sync(unsigned m, T v, int d, int w = 32) {
    int l = fpv_lane(), s = l ^ d; return fpv_shfl(m, v, (l / w == s / w) ? s : l, 3);
}
template <class T> FPV_NS static inline T __shfl_sync(unsigned m, T v, int s, int w = 32) {
    int l = fpv_lane(); return fpv_shfl(m, v, (l / w) * w + (s % w), 4);
}
template <class T> FPV_NS static inline T fpv_add(T *p, T v) { fpv_atomic(p, sizeof(T)); T o = *p; *p = o + v; return o; }
static inline float atomicAdd(float *p, float v) { return fpv_add(p, v); }
static inline double atomicAdd(double *p, double v) { return fpv_add(p, v); }
static inline int atomicAdd(int *p, int v) { return fpv_add(p, v); }
static inline unsigned atomicAdd(unsigned *p, unsigned v) { return fpv_add(p, v); }
template <class T> static inline T __ldg(const T *p) { return *p; }
static inline float rsqrtf(float x) { return 1.0f / sqrtf(x); }
#define __expf(x) expf(x)
static inline float __fdividef(float a, float b) { return a / b; }
static inline float __fmul_rn(float a, float b) { return a * b; }
using std::max;
using std::min;
#include <type_traits>
template <class A, class B> static inline typename std::common_type<A, B>::type min(A a, B b) { return b < a ? b : a; }
template <class A, class B> static inline typename std::common_type<A, B>::type max(A a, B b) { return a < b ? b : a; }
