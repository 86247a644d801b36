// A CUDA device emulated on the CPU: just enough of the runtime for libflatarray's device containers.
//  * "device memory" is an arena that is inaccessible (PROT_NONE) except while a kernel or a copy runs, so host code
//    which dereferences a device pointer crashes;
//  * pointers handed to kernels and copies are checked to be device (host) memory as the call demands, inside one live
//    allocation, and every allocation is fenced by canaries;
//  * the threads of a launch run one after another, in an order permuted at random for each launch.
#ifndef VERIF_FAKE_CUDA_H
#define VERIF_FAKE_CUDA_H

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <sys/mman.h>
#include <type_traits>

#ifndef __CUDACC__
#define __CUDACC__
#endif
#define __host__
#define __device__
#define __global__
#define __forceinline__ inline
#define __restrict__
#define __launch_bounds__(...)

struct dim3
{
    unsigned x, y, z;
    dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1) : x(x), y(y), z(z) {}
};
struct uint3 { unsigned x, y, z; };

typedef int cudaError_t;
enum { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9 };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
typedef void *cudaStream_t;

static dim3 gridDim, blockDim;
static uint3 blockIdx, threadIdx;

namespace cuda_emu {

struct Violation { char text[300]; };

const std::size_t ARENA = std::size_t(1) << 31;
const std::size_t FENCE = 256;

struct Device
{
    char *base;
    std::size_t used;
    std::map<char*, std::size_t> live;
    long launches, threads, mallocs;
    int open;
    std::uint64_t order;
    char error[300];

    Device() : used(0), launches(0), threads(0), mallocs(0), open(0), order(0)
    {
        base = static_cast<char*>(mmap(0, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (base == MAP_FAILED) std::abort();
        error[0] = 0;
    }

    void blame(const char *what, const void *p, std::size_t n)
    {
        if (!error[0]) std::snprintf(error, sizeof(error), "%s (address %s%ld, %lu bytes)", what, inside(p) ? "device+" : "host, ",
                                     inside(p) ? long((const char*)p - base) : 0L, (unsigned long)n);
    }

    bool inside(const void *p) const { return (const char*)p >= base && (const char*)p < base + ARENA; }

    // the live allocation that holds [p, p + n)
    bool valid(const void *p, std::size_t n) const
    {
        std::map<char*, std::size_t>::const_iterator i = live.upper_bound((char*)p);
        if (i == live.begin()) return false;
        --i;
        return (const char*)p + n <= i->first + i->second;
    }

    void enter() { if (open++ == 0 && used) mprotect(base, round(used), PROT_READ | PROT_WRITE); }
    void leave() { if (--open == 0 && used) mprotect(base, round(used), PROT_NONE); }
    static std::size_t round(std::size_t n) { return (n + 4095) / 4096 * 4096; }

    void *alloc(std::size_t n)
    {
        std::size_t need = (n + 255) / 256 * 256 + 2 * FENCE;
        if (n > ARENA || used + need > ARENA) return 0;
        char *p = base + used + FENCE;
        used += need;
        enter();
        std::memset(p - FENCE, 0x5b, FENCE);
        std::memset(p, 0xa5, n < (1 << 22) ? n : (1 << 22));
        std::memset(p + n, 0x5b, need - FENCE - n);
        leave();
        live[p] = n;
        ++mallocs;
        return p;
    }

    void check(char *p, std::size_t n)
    {
        std::size_t tail = (n + 255) / 256 * 256 - n + FENCE;
        for (std::size_t i = 0; i < FENCE; ++i) if (p[long(i) - long(FENCE)] != 0x5b) { blame("device memory in front of an allocation was overwritten", p, n); return; }
        for (std::size_t i = 0; i < tail; ++i) if (p[n + i] != 0x5b) { blame("device memory behind an allocation was overwritten", p, n); return; }
    }

    void check_all()
    {
        enter();
        for (std::map<char*, std::size_t>::iterator i = live.begin(); i != live.end(); ++i) check(i->first, i->second);
        leave();
    }

    void free(void *q)
    {
        if (!q) return;
        std::map<char*, std::size_t>::iterator i = live.find((char*)q);
        if (i == live.end()) { blame("cudaFree() of something that isn't a live allocation", q, 0); return; }
        enter();
        check(i->first, i->second);
        leave();
        live.erase(i);
        if (live.empty()) {
            mprotect(base, round(used), PROT_NONE);
            madvise(base, round(used), MADV_DONTNEED);
            used = 0;
        }
    }
};

inline Device& dev()
{
    static Device d;
    return d;
}

template<typename T> struct arg { static void check(const T&) {} };
template<typename T> struct arg<T*>
{
    static void check(T *p)
    {
        if (p && !dev().valid(p, 1) && dev().error[0] == 0) dev().blame("a kernel was passed a pointer that isn't device memory", (const void*)p, 1);
    }
};

template<typename F> struct Launch
{
    F f;
    dim3 grid, block;

    static unsigned long coprime(std::uint64_t r, unsigned long n)
    {
        if (n < 3) return 1;
        unsigned long a = r % n;
        for (;; ++a) {
            unsigned long x = a % n, y = n;
            while (x) { unsigned long t = y % x; y = x; x = t; }
            if (y == 1) return a % n ? a % n : 1;
        }
    }

    template<typename... A> void operator()(A... a) const
    {
        int unused[] = {0, (arg<A>::check(a), 0)...};
        (void)unused;
        Device& d = dev();
        ++d.launches;
        if (d.error[0]) return;
        // launches like these fail on a real device, too, and do nothing
        if (!grid.x || !grid.y || !grid.z || !block.x || !block.y || !block.z) return;
        if (block.x * block.y * block.z > 1024 || block.z > 64 || grid.y > 65535 || grid.z > 65535) return;
        gridDim = grid;
        blockDim = block;
        unsigned long nb = (unsigned long)(grid.x) * grid.y * grid.z, nt = (unsigned long)(block.x) * block.y * block.z;
        std::uint64_t r = d.order = d.order * 6364136223846793005ull + 1442695040888963407ull;
        unsigned long sb = coprime(r >> 33, nb), st = coprime(r >> 20, nt), ob = (r >> 40) % nb, ot = (r >> 17) % nt;
        d.enter();
        for (unsigned long i = 0; i < nb; ++i) {
            unsigned long b = (i * sb + ob) % nb;
            blockIdx.x = unsigned(b % grid.x);
            blockIdx.y = unsigned(b / grid.x % grid.y);
            blockIdx.z = unsigned(b / grid.x / grid.y);
            for (unsigned long j = 0; j < nt; ++j) {
                unsigned long t = (j * st + ot) % nt;
                threadIdx.x = unsigned(t % block.x);
                threadIdx.y = unsigned(t / block.x % block.y);
                threadIdx.z = unsigned(t / block.x / block.y);
                f(a...);
            }
        }
        d.threads += long(nb * nt);
        d.leave();
        d.check_all();
    }
};

template<typename F, typename... REST> Launch<F> launch(F f, dim3 grid, dim3 block, REST...)
{
    Launch<F> l = {f, grid, block};
    return l;
}

}

template<typename T> cudaError_t cudaMalloc(T **p, std::size_t n)
{
    *p = 0;
    if (n == 0) return cudaSuccess;
    *p = static_cast<T*>(cuda_emu::dev().alloc(n));
    return *p ? cudaSuccess : cudaErrorMemoryAllocation;
}

inline cudaError_t cudaFree(void *p)
{
    cuda_emu::dev().free(p);
    return cudaSuccess;
}

inline cudaError_t cudaMemcpy(void *target, const void *source, std::size_t n, cudaMemcpyKind kind)
{
    cuda_emu::Device& d = cuda_emu::dev();
    if (n == 0 || d.error[0]) return cudaSuccess;
    bool td = kind == cudaMemcpyDefault ? d.inside(target) : (kind == cudaMemcpyHostToDevice || kind == cudaMemcpyDeviceToDevice);
    bool sd = kind == cudaMemcpyDefault ? d.inside(source) : (kind == cudaMemcpyDeviceToHost || kind == cudaMemcpyDeviceToDevice);
    if (td ? !d.valid(target, n) : (!target || d.inside(target))) { d.blame("cudaMemcpy(): bad target", target, n); return cudaErrorInvalidValue; }
    if (sd ? !d.valid(source, n) : (!source || d.inside(source))) { d.blame("cudaMemcpy(): bad source", source, n); return cudaErrorInvalidValue; }
    d.enter();
    std::memmove(target, source, n);
    d.leave();
    return cudaSuccess;
}

inline cudaError_t cudaMemcpyAsync(void *t, const void *s, std::size_t n, cudaMemcpyKind k, cudaStream_t = 0) { return cudaMemcpy(t, s, n, k); }

inline cudaError_t cudaMemset(void *p, int v, std::size_t n)
{
    cuda_emu::Device& d = cuda_emu::dev();
    if (n == 0) return cudaSuccess;
    if (!d.valid(p, n)) { d.blame("cudaMemset(): bad target", p, n); return cudaErrorInvalidValue; }
    d.enter();
    std::memset(p, v, n);
    d.leave();
    return cudaSuccess;
}

inline cudaError_t cudaDeviceSynchronize() { return cudaSuccess; }
inline cudaError_t cudaGetLastError() { return cudaSuccess; }
inline cudaError_t cudaPeekAtLastError() { return cudaSuccess; }
inline const char *cudaGetErrorString(cudaError_t) { return "emulated"; }

#endif
