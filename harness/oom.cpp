// Memory allocation that fails on request: operator new throws std::bad_alloc, malloc (called by the library's own
// objects, --wrap=malloc) returns null.  Allocations inside shared libraries (C runtime, codecs) are left alone.
#include <atomic>
#include <cstdlib>
#include <new>
std::atomic<bool> g_oom_on{false}; std::atomic<long> g_oom_seen{0}, g_oom_fired{0}; long g_oom_at = -1; int g_oom_len = 1; size_t g_oom_cap = ~size_t(0);     // fails requests [at, at + len)
static bool refuse(size_t bytes) {
    if (!g_oom_on.load(std::memory_order_relaxed)) return false;
    if (bytes > g_oom_cap) { g_oom_fired.fetch_add(1); return true; }
    long n = g_oom_seen.fetch_add(1); if (g_oom_at < 0 || n < g_oom_at || n >= g_oom_at + g_oom_len) return false;
    g_oom_fired.fetch_add(1); return true;
}
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
void* __wrap_malloc(size_t n) { return refuse(n) ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return refuse(a * b) ? nullptr : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return refuse(n) ? nullptr : __real_realloc(p, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { return refuse(n) ? 12 : __real_posix_memalign(p, a, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return refuse(n) ? nullptr : __real_aligned_alloc(a, n); }
}
static void* get(size_t n) { if (refuse(n)) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void* aget(size_t n, size_t a) { if (refuse(n)) throw std::bad_alloc(); void* p = __real_aligned_alloc(a, (n + a - 1) / a * a); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : __real_malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { return aget(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return aget(n, size_t(a)); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
