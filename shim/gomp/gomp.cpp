// A small OpenMP runtime on plain pthreads.  Being compiled with ThreadSanitizer it makes every
// synchronisation of a parallel region visible (libgomp's is not), and it varies team sizes'
// schedules with random delays.  Supports what gcc emits for common constructs.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <vector>

extern "C" {
typedef unsigned long long ull;
std::atomic<unsigned long> g_omp_regions{0}, g_omp_threads_started{0};
std::atomic<int> g_omp_max{4};
std::atomic<uint64_t> g_omp_seed{1};
}
namespace {
struct WorkShare { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int done = 0; bool is_single = false; int arrived = 0; };
struct Team {
    int n = 1; pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_barrier_t bar; std::vector<WorkShare*> ws; WorkShare* get(size_t i) { while (ws.size() <= i) ws.push_back(new WorkShare); return ws[i]; }
    explicit Team(int k) : n(k) { pthread_barrier_init(&bar, nullptr, unsigned(k)); }
    ~Team() { pthread_barrier_destroy(&bar); for (auto* w : ws) delete w; }
};
thread_local Team* t_team = nullptr; thread_local int t_id = 0, t_level = 0; thread_local size_t t_ws = 0; thread_local long t_chunk_static = -1; thread_local WorkShare* t_cur = nullptr;
thread_local int t_max = 0;
pthread_mutex_t g_critical = PTHREAD_MUTEX_INITIALIZER, g_atomic = PTHREAD_MUTEX_INITIALIZER;
void jitter() {
    uint64_t z = g_omp_seed.fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z ^= z >> 27;
    switch (z % 8) { case 0: case 1: case 2: break; case 3: case 4: sched_yield(); break; case 5: usleep(useconds_t(z >> 32) % 40); break; case 6: usleep(useconds_t(z >> 32) % 150); break; default: for (volatile int i = 0; i < int((z >> 32) % 2000); i = i + 1) {} }
}
struct Arg { void (*fn)(void*); void* data; Team* team; int id; };
void enter(Arg* a) {
    Team* ot = t_team; int oi = t_id, ol = t_level; size_t ow = t_ws; WorkShare* oc = t_cur;
    t_team = a->team; t_id = a->id; t_level = ol + 1; t_ws = 0; t_cur = nullptr;
    jitter(); a->fn(a->data);
    t_team = ot; t_id = oi; t_level = ol; t_ws = ow; t_cur = oc;
}
void* body(void* p) { Arg* a = static_cast<Arg*>(p); t_level = 0; enter(a); return nullptr; }
int want(unsigned num) { if (t_level > 0) return 1; int n = num ? int(num) : (t_max > 0 ? t_max : g_omp_max.load()); return n < 1 ? 1 : n > 16 ? 16 : n; }
}
extern "C" {
int omp_get_max_threads(void) { return t_level > 0 ? 1 : t_max > 0 ? t_max : g_omp_max.load(); }
void omp_set_num_threads(int n) { t_max = n; }
int omp_get_num_threads(void) { return t_team ? t_team->n : 1; }
int omp_get_thread_num(void) { return t_id; }
int omp_in_parallel(void) { return t_team && t_team->n > 1; }
int omp_get_num_procs(void) { return 8; }
int omp_get_level(void) { return t_level; }
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_thread_limit(void) { return 16; }
int omp_get_dynamic(void) { return 0; } void omp_set_dynamic(int) {} int omp_get_nested(void) { return 0; } void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {} int omp_get_max_active_levels(void) { return 1; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
typedef struct { pthread_mutex_t* m; } mylock;
void omp_init_lock(void* l) { auto* m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *static_cast<pthread_mutex_t**>(l) = m; }
void omp_destroy_lock(void* l) { delete *static_cast<pthread_mutex_t**>(l); }
void omp_set_lock(void* l) { pthread_mutex_lock(*static_cast<pthread_mutex_t**>(l)); }
void omp_unset_lock(void* l) { pthread_mutex_unlock(*static_cast<pthread_mutex_t**>(l)); }
int omp_test_lock(void* l) { return pthread_mutex_trylock(*static_cast<pthread_mutex_t**>(l)) == 0; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) {
    int n = want(num); Team team(n); g_omp_regions.fetch_add(1, std::memory_order_relaxed); if (n > 1) g_omp_threads_started.fetch_add((unsigned long)n, std::memory_order_relaxed);
    std::vector<Arg> a(static_cast<size_t>(n)); std::vector<pthread_t> th(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) a[size_t(i)] = Arg{fn, data, &team, i};
    for (int i = 1; i < n; ++i) if (pthread_create(&th[size_t(i)], nullptr, body, &a[size_t(i)])) abort();
    enter(&a[0]);
    for (int i = 1; i < n; ++i) pthread_join(th[size_t(i)], nullptr);
}
void GOMP_barrier(void) { if (t_team && t_team->n > 1) { jitter(); pthread_barrier_wait(&t_team->bar); } }
bool GOMP_cancellation_point(int) { return false; } bool GOMP_cancel(int, bool) { return false; } bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }
void GOMP_critical_start(void) { pthread_mutex_lock(&g_critical); } void GOMP_critical_end(void) { pthread_mutex_unlock(&g_critical); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&g_critical); } void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&g_critical); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&g_atomic); } void GOMP_atomic_end(void) { pthread_mutex_unlock(&g_atomic); }
bool GOMP_single_start(void) {
    if (!t_team || t_team->n == 1) return true;
    pthread_mutex_lock(&t_team->m); WorkShare* w = t_team->get(t_ws++); bool first = !w->init; w->init = true; pthread_mutex_unlock(&t_team->m); return first;
}
static Team* solo() { static thread_local Team one(1); return &one; }
static bool take(WorkShare* w, long* s, long* e) {
    long left = w->incr > 0 ? w->end - w->next : w->next - w->end; if (left <= 0) return false;
    long step = w->incr > 0 ? w->incr : -w->incr, span = w->chunk * step; if (span > left) span = left;
    *s = w->next; w->next += w->incr > 0 ? w->chunk * step : -w->chunk * step;
    *e = w->incr > 0 ? (*s + span) : (*s - span); return true;
}
static bool loop_start(long start, long end, long incr, long chunk, long* s, long* e) {
    Team* t = t_team ? t_team : solo(); pthread_mutex_lock(&t->m); WorkShare* w = t_team ? t->get(t_ws++) : (t->ws.clear(), t->get(0));
    if (!w->init) { w->init = true; w->next = start; w->end = end; w->incr = incr; w->chunk = chunk < 1 ? 1 : chunk; } t_cur = w; bool r = take(w, s, e); pthread_mutex_unlock(&t->m); jitter(); return r;
}
static bool loop_next(long* s, long* e) { Team* t = t_team ? t_team : solo(); pthread_mutex_lock(&t->m); bool r = take(t_cur, s, e); pthread_mutex_unlock(&t->m); return r; }
#define LOOP(K) \
bool GOMP_loop_##K##_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(a, b, i, c, s, e); } \
bool GOMP_loop_##K##_next(long* s, long* e) { return loop_next(s, e); } \
struct K##_pl { void (*fn)(void*); void* d; }; \
void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned num, long a, long b, long i, long c, unsigned f);
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long* s, long* e) { return loop_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return loop_next(s, e); }
void GOMP_loop_end(void) { GOMP_barrier(); } void GOMP_loop_end_nowait(void) {} bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }
// combined parallel loops: the first work share of the team is preset, the body only calls *_next
struct PL { void (*fn)(void*); void* data; long a, b, i, c; };
static void pl_body(void* p) {
    PL* l = static_cast<PL*>(p); Team* t = t_team; pthread_mutex_lock(&t->m); WorkShare* w = t->get(t_ws++);
    if (!w->init) { w->init = true; w->next = l->a; w->end = l->b; w->incr = l->i; w->chunk = l->c < 1 ? 1 : l->c; } t_cur = w; pthread_mutex_unlock(&t->m); l->fn(l->data);
}
#define PLOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned num, long a, long b, long i, long c, unsigned f) { PL l{fn, data, a, b, i, c}; GOMP_parallel(pl_body, &l, num, f); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned num, long a, long b, long i, unsigned f) { PL l{fn, data, a, b, i, 1}; GOMP_parallel(pl_body, &l, num, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned num, long a, long b, long i, unsigned f) { PL l{fn, data, a, b, i, 1}; GOMP_parallel(pl_body, &l, num, f); }
// unsigned long long loops
#define ULOOP(K) \
bool GOMP_loop_ull_##K##_start(bool up, ull a, ull b, ull i, ull c, ull* s, ull* e) { (void)up; return loop_start(long(a), long(b), long(i), long(c), reinterpret_cast<long*>(s), reinterpret_cast<long*>(e)); } \
bool GOMP_loop_ull_##K##_next(ull* s, ull* e) { return loop_next(reinterpret_cast<long*>(s), reinterpret_cast<long*>(e)); }
ULOOP(static) ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
// sections and tasks
unsigned GOMP_sections_next(void) { long s, e; return loop_next(&s, &e) ? unsigned(s) : 0u; }
unsigned GOMP_sections_start(unsigned n) { long s, e; return loop_start(1, long(n) + 1, 1, 1, &s, &e) ? unsigned(s) : 0u; }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned num, unsigned count, unsigned f) { PL l{fn, data, 1, long(count) + 1, 1, 1}; GOMP_parallel(pl_body, &l, num, f); }
void GOMP_sections_end(void) { GOMP_barrier(); } void GOMP_sections_end_nowait(void) {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (!cpy) { fn(data); return; }
    if (align < 1) align = 1; char* raw = static_cast<char*>(malloc(size_t(size + align))); char* p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(raw) + uintptr_t(align) - 1) & ~(uintptr_t(align) - 1));
    cpy(p, data); fn(p); free(raw);
}
void GOMP_taskwait(void) {} void GOMP_taskyield(void) {} void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) {}
}
