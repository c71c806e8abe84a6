// Allocation fault injection: the n-th allocation from now on through operator
// new fails with std::bad_alloc.
#pragma once
#include <cstdlib>
#include <new>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define NEWFAIL_POISON(p, n) __asan_poison_memory_region(p, n)
#define NEWFAIL_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define NEWFAIL_POISON(p, n) ((void)0)
#define NEWFAIL_UNPOISON(p, n) ((void)0)
#endif
namespace newfail {
static long countdown = -1; // -1: never
static long bytes = 0;
struct At { explicit At(long n) { countdown = n; } ~At() { countdown = -1; } };
inline void * get(std::size_t n) {
    if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc();
    if (n > (std::size_t(1) << 40)) throw std::bad_alloc();
    // Blocks of plain operator new are offset, so that they are not aligned any
    // better than promised: 16 bytes.
    char * const p = static_cast<char *>(std::malloc((n ? n : 1) + 16));
    if (!p) throw std::bad_alloc();
    NEWFAIL_POISON(p, 16);
    return p + 16;
}
inline void put(void * p) noexcept { if (!p) return; char * const q = static_cast<char *>(p) - 16; NEWFAIL_UNPOISON(q, 16); std::free(q); }
}
__attribute__((noinline)) void * operator new(std::size_t n) { return newfail::get(n); }
__attribute__((noinline)) void * operator new[](std::size_t n) { return newfail::get(n); }
__attribute__((noinline)) void operator delete(void * p) noexcept { newfail::put(p); }
__attribute__((noinline)) void operator delete[](void * p) noexcept { newfail::put(p); }
__attribute__((noinline)) void operator delete(void * p, std::size_t) noexcept { newfail::put(p); }
__attribute__((noinline)) void operator delete[](void * p, std::size_t) noexcept { newfail::put(p); }
#ifdef __cpp_aligned_new
__attribute__((noinline)) void * operator new(std::size_t n, std::align_val_t a) { void * const q = newfail::get(n); newfail::put(q); void * p; if (posix_memalign(&p, (std::size_t)a, n)) throw std::bad_alloc(); return p; }
__attribute__((noinline)) void * operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
__attribute__((noinline)) void operator delete(void * p, std::align_val_t) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete[](void * p, std::align_val_t) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete(void * p, std::size_t, std::align_val_t) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete[](void * p, std::size_t, std::align_val_t) noexcept { std::free(p); }
#endif
