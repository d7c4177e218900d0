// see interleave.h; this file is not instrumented
#include "interleave.h"
#include <pthread.h>
#include <sched.h>
#include <dlfcn.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); }
namespace {
enum Mode { OFF, PROFILE, RUN };
Mode mode = OFF; __thread int tid = -1; __thread char *stack_lo, *stack_hi;
// granules (8 byte) touched by each thread alone
const size_t TAB = 1 << 21; struct Entry { uint64_t g; uint8_t bits; }; Entry *tab = nullptr; uint64_t used = 0;   // bits: 1 read by 0, 2 write by 0, 4 read by 1, 8 write by 1
Entry *find(uint64_t g, bool add) { uint64_t h = (g * 0x9e3779b97f4a7c15ull) >> 43; for (;;) { Entry &e = tab[h & (TAB - 1)]; if (e.g == g) return &e; if (!e.g) { if (!add) return nullptr; if (++used > TAB / 2) { fprintf(stderr, "sched: access table full\n"); _exit(97); } e.g = g; return &e; } ++h; } }
bool conflict(uint8_t b) { return ((b & 3) && (b & 8)) || ((b & 2) && (b & 12)); }
const size_t ARENA = 256u << 20; char *arena[2], *cur[2];
// --- the baton ---
std::atomic<int> running{-1}; bool finished[2], started[2]; uint64_t pos; std::vector<uint64_t> plan; size_t next_plan; uint64_t limit; bool blocked_switch;
void give(int t) { running.store(t, std::memory_order_release); }
void wait(int t) { int spin = 0; while (running.load(std::memory_order_acquire) != t) { if (++spin > 200) sched_yield(); } }
void switch_from(int t) { if (finished[1 - t]) return; give(1 - t); wait(t); }
void yield_point()
{
    ++pos; if (pos > limit * 64) { fprintf(stderr, "sched: an interleaving does not end\n"); _exit(96); }
    if (next_plan < plan.size() && plan[next_plan] == pos) { ++next_plan; switch_from(tid); }
}
bool foreign, seen_foreign, warm; // foreign: some thread touches memory of the other one
inline void access(uintptr_t a, size_t n, bool w)
{
    if (mode == OFF || tid < 0) return; if ((char *) a >= stack_lo && (char *) a < stack_hi) return;
    int t = tid; bool own = (char *) a >= arena[t] && (char *) a < arena[t] + ARENA; if (own && !foreign) return;   // nobody else has touched this thread's memory
    uint64_t g = a >> 3, e = (a + (n ? n : 1) - 1) >> 3;
    if (mode == PROFILE) { if ((char *) a >= arena[1 - t] && (char *) a < arena[1 - t] + ARENA) seen_foreign = true; for (; g <= e; ++g) find(g, true)->bits |= (w ? 2 : 1) << (2 * t); return; }
    for (; g <= e; ++g) { Entry *x = find(g, false); if (x && conflict(x->bits)) { yield_point(); return; } }
}
// --- memory of the managed threads: one arena each, so that they never share by accident of reuse ---
bool in_arena(void *p) { for (int t = 0; t < 2; ++t) if (arena[t] && p >= arena[t] && p < arena[t] + ARENA) return true; return false; }
void *take(size_t n) { if (tid >= 0 && mode != OFF && !warm) { char *p = cur[tid]; n = (n + 31) & ~(size_t) 31; if (p + n > arena[tid] + ARENA) { fprintf(stderr, "sched: arena full\n"); _exit(95); } cur[tid] = p + n; memset(p, 0xA5, n); return p; } return __real_malloc(n ? n : 1); }
struct Arg { int t; const std::function<void()> *f; };
void *thread_main(void *v)
{
    Arg *a = (Arg *) v; pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void *lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); stack_lo = (char *) lo; stack_hi = stack_lo + sz;   // thread-local variables live here, too
    wait(a->t); tid = a->t; (*a->f)(); tid = -1; finished[a->t] = true; give(finished[1 - a->t] ? 2 : 1 - a->t); return nullptr;
}
void run(const std::function<void()> (&body)[2], int first, bool alone)
{
    for (int t = 0; t < 2; ++t) { if (!arena[t]) arena[t] = (char *) aligned_alloc(4096, ARENA); cur[t] = arena[t]; finished[t] = alone && t != first; }
    pos = 0; next_plan = 0; running = -1; Arg a[2] = {{0, &body[0]}, {1, &body[1]}}; pthread_t th[2];
    for (int t = 0; t < 2; ++t) if (!finished[t] && pthread_create(&th[t], nullptr, thread_main, &a[t])) { perror("pthread_create"); _exit(2); }
    give(first); for (int t = 0; t < 2; ++t) if (!(alone && t != first)) pthread_join(th[t], nullptr);
}
}
// malloc and free of the code under test (linked with --wrap)
extern "C" void *__wrap_malloc(size_t n) { return take(n); }
extern "C" void __wrap_free(void *p) { if (p && !in_arena(p)) __real_free(p); }
extern "C" void *__wrap_calloc(size_t n, size_t k) { void *p = take(n * k); if (p) memset(p, 0, n * k); return p; }
extern "C" void *__wrap_realloc(void *p, size_t n) { if (tid < 0 || !p || !in_arena(p)) { if (tid < 0 || p) return __real_realloc(p, n); return take(n); } void *q = take(n); size_t have = (char *) q - (char *) p; memcpy(q, p, n < have ? n : have); return q; }
void *operator new(size_t n) { void *p = take(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = take(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { if (p && !in_arena(p)) __real_free(p); }
void operator delete[](void *p) noexcept { if (p && !in_arena(p)) __real_free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
namespace sched {
bool points_enabled = true;
void point() { if (mode == RUN && tid >= 0 && points_enabled) yield_point(); }
Stats explore(const std::function<void()> (&body)[2], int bound, const std::function<void(const std::string &)> &check, uint64_t max_points, uint64_t max_schedules)
{
    Stats s{0, 0, 0, false}; limit = max_points;
    auto plain = [&](int t) { plan.clear(); run(body, t, true); };
    if (!tab) tab = (Entry *) __real_calloc(TAB, sizeof(Entry)); else if (used) memset(tab, 0, TAB * sizeof(Entry)); used = 0; mode = RUN; warm = true; foreign = seen_foreign = false; for (int t = 0; t < 2; ++t) plain(t); warm = false;   // one-time initialisations keep ordinary memory
     bool en = points_enabled;
    mode = PROFILE; for (int t = 0; t < 2; ++t) plain(t); if (seen_foreign) { foreign = true; for (int t = 0; t < 2; ++t) plain(t); } for (size_t i = 0; i < TAB; ++i) if (tab[i].g && conflict(tab[i].bits)) { ++s.conflicts; if (getenv("SCHED_DEBUG") && s.conflicts < 8) dprintf(199, "conflict at %p bits %x arena %d\n", (void *)(tab[i].g << 3), tab[i].bits, in_arena((void *)(tab[i].g << 3))); }
    // schedules: first thread, then the increasing list of points at which the running thread is preempted; few preemptions first
    struct Plan { int first; std::vector<uint64_t> p; uint64_t total; }; std::vector<Plan> level{{0, {}, 0}, {1, {}, 0}};
    for (int depth = 0; depth <= bound && !s.capped; ++depth) {
        for (auto &l : level) {
            if (s.schedules >= max_schedules) { s.capped = true; break; }
            plan = l.p; mode = RUN; run(body, l.first, false); l.total = pos; mode = OFF; ++s.schedules; s.points = std::max(s.points, l.total);
            std::string n = "thread " + std::to_string(l.first) + " first, preemptions at points"; for (uint64_t x : l.p) n += " " + std::to_string(x); check(n);
        }
        if (depth == bound || s.capped) break;
        std::vector<Plan> next; for (auto &l : level) for (uint64_t k = (l.p.empty() ? 0 : l.p.back()) + 1; k <= std::min(l.total, max_points); ++k) { next.push_back(l); next.back().p.push_back(k); if (next.size() > max_schedules) break; }
        level.swap(next);
    }
    points_enabled = en; mode = OFF; return s;
}
}
// --- locks: a managed thread never sleeps while it holds the baton ---
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) __THROWNL
{
    typedef int (*F)(pthread_mutex_t *); static F real; if (!real) real = (F) dlsym(RTLD_NEXT, "pthread_mutex_lock"); if (tid < 0 || mode == OFF) return real(m);
    while (pthread_mutex_trylock(m) != 0) { if (finished[1 - tid]) return real(m); switch_from(tid); } return 0;
}
// --- hooks ---
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(N) void __tsan_read##N(void *a) { access((uintptr_t) a, N, false); } void __tsan_write##N(void *a) { access((uintptr_t) a, N, true); } \
  void __tsan_unaligned_read##N(void *a) { access((uintptr_t) a, N, false); } void __tsan_unaligned_write##N(void *a) { access((uintptr_t) a, N, true); } \
  void __tsan_read##N##_pc(void *a, void *) { access((uintptr_t) a, N, false); } void __tsan_write##N##_pc(void *a, void *) { access((uintptr_t) a, N, true); } \
  void __tsan_volatile_read##N(void *a) { access((uintptr_t) a, N, false); } void __tsan_volatile_write##N(void *a) { access((uintptr_t) a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void *a, void *) { access((uintptr_t) a, 8, true); } void __tsan_vptr_read(void *a) { access((uintptr_t) a, 8, false); }
void __tsan_read_range(void *a, unsigned long n) { access((uintptr_t) a, n, false); } void __tsan_write_range(void *a, unsigned long n) { access((uintptr_t) a, n, true); }
#define ATOMIC(B, T) T __tsan_atomic##B##_load(const volatile T *a, int) { access((uintptr_t) a, sizeof(T), false); return __atomic_load_n(a, 5); } void __tsan_atomic##B##_store(volatile T *a, T v, int) { access((uintptr_t) a, sizeof(T), true); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { access((uintptr_t) a, sizeof(T), true); return __atomic_exchange_n(a, v, 5); } T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { access((uintptr_t) a, sizeof(T), true); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { access((uintptr_t) a, sizeof(T), true); return __atomic_fetch_sub(a, v, 5); } T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { access((uintptr_t) a, sizeof(T), true); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { access((uintptr_t) a, sizeof(T), true); return __atomic_fetch_or(a, v, 5); } T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { access((uintptr_t) a, sizeof(T), true); return __atomic_fetch_xor(a, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((uintptr_t) a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((uintptr_t) a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((uintptr_t) a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); } void __tsan_atomic_signal_fence(int) {}
}
