// Global operator new that throws std::bad_alloc above a cap instead of letting ASan end the process,
// and records the largest request.
#include <cstdlib>
#include <new>
size_t g_new_cap = size_t(1) << 30, g_new_max = 0;
static void* get(size_t n) { if (n > g_new_max) g_new_max = n; if (n > g_new_cap) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
