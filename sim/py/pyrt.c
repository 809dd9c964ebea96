/* Runtime of the native library when it runs under the simulated Python host: allocator with a ledger and
   fault injection, counted basic-block steps with a preemption hook, cooperative locks, fixed ambient sources. */
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdio.h>
#define N_BAD 4
typedef struct blk { struct blk *next, *prev; size_t n; int kind, owner; uint64_t magic; } blk;
static blk head = { &head, &head, 0, 0, 0, 0 };
static long g_bad_free, g_steps; 
static __thread int t_mode, t_n, t_owner; static __thread long t_allocs, t_failed, t_steps, t_next = -1;
static long (*g_hook)(long);
void pysim_set_hook(long (*h)(long)) { g_hook = h; }
void pysim_enter(int owner, int mode, int n, long next) { t_owner = owner; t_mode = mode; t_n = n; t_allocs = t_failed = t_steps = 0; t_next = next; }
void pysim_leave(long* out) { out[0] = t_allocs; out[1] = t_failed; out[2] = t_steps; t_mode = 0; t_next = -1; t_owner = 0; }
long pysim_live(int owner) { long k = 0; for (blk* b = head.next; b != &head; b = b->next) if (owner < 0 || b->owner == owner) k++; return k; }
long pysim_bad_frees(void) { return g_bad_free; }
void pysim_reset(void) { g_bad_free = 0; while (head.next != &head) { blk* b = head.next; b->next->prev = b->prev; b->prev->next = b->next; free(b); } }
static void hook(void) { if (g_hook) { t_next = -1; t_next = g_hook(t_steps); } }
void __sanitizer_cov_trace_pc(void) { t_steps++; g_steps++; if (t_next >= 0 && t_steps >= t_next) hook(); }

static void* alloc(size_t n, int kind, size_t al) {
    if (t_owner) { long k = t_allocs++; if ((t_mode == 1 && k == t_n) || (t_mode == 2 && k >= t_n)) { t_failed++; errno = ENOMEM; return 0; } }
    if (n > ((size_t)1 << 30)) { t_failed++; errno = ENOMEM; return 0; }
    size_t h = (sizeof(blk) + 15) / 16 * 16; blk* b = malloc(h + n + 16); if (!b) { fprintf(stderr, "host out of memory\n"); abort(); }
    b->n = n; b->kind = kind; b->owner = t_owner; b->magic = 0x5117b10cull ^ (uintptr_t)b;
    b->next = &head; b->prev = head.prev; head.prev->next = b; head.prev = b;
    memset((char*)b + h, 0xA5, n + 16); return (char*)b + h;
}
static void release(void* p, int kind) {
    if (!p) return; size_t h = (sizeof(blk) + 15) / 16 * 16; blk* b = (blk*)((char*)p - h);
    if (b->magic != (0x5117b10cull ^ (uintptr_t)b) || (b->kind != kind)) { g_bad_free++; return; }
    b->magic = 0; b->next->prev = b->prev; b->prev->next = b->next; memset(p, 0xDD, b->n); free(b);
}
void* sim_malloc(size_t n) { return alloc(n, 1, 16); }
void* sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) n = ~(size_t)0 >> 1; void* p = alloc(n, 1, 16); if (p) memset(p, 0, n); return p; }
void sim_free(void* p) { release(p, 1); }
void* sim_realloc(void* p, size_t n) { if (!p) return sim_malloc(n); size_t h = (sizeof(blk) + 15) / 16 * 16; blk* b = (blk*)((char*)p - h); void* q = alloc(n, 1, 16); if (!q) return 0; memcpy(q, p, b->n < n ? b->n : n); release(p, 1); return q; }
void* sim_reallocarray(void* p, size_t a, size_t b) { return sim_realloc(p, a * b); }
void* sim_aligned_alloc(size_t al, size_t n) { return alloc(n, 1, al); }
int sim_posix_memalign(void** out, size_t al, size_t n) { void* p = alloc(n, 1, al); if (!p) return ENOMEM; *out = p; return 0; }
void* sim_memalign(size_t al, size_t n) { return alloc(n, 1, al); }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char* sim_strdup2(const char* s) { return sim_strdup(s); }
void pysim_throw(void);
#define NEW(name, kind) void* name(size_t n) { void* p = alloc(n, kind, 16); if (!p) pysim_throw(); return p; }
NEW(sim_new, 2) NEW(sim_newa, 3)
void* sim_new_nt(size_t n, void* x) { return alloc(n, 2, 16); }
void* sim_newa_nt(size_t n, void* x) { return alloc(n, 3, 16); }
void* sim_new_al(size_t n, size_t al) { return sim_new(n); }
void* sim_newa_al(size_t n, size_t al) { return sim_newa(n); }
void* sim_new_al_nt(size_t n, size_t al, void* x) { return alloc(n, 2, al); }
void* sim_newa_al_nt(size_t n, size_t al, void* x) { return alloc(n, 3, al); }
void sim_del(void* p) { release(p, 2); }
void sim_del_sz(void* p, size_t n) { release(p, 2); }
void sim_dela(void* p) { release(p, 3); }
void sim_dela_sz(void* p, size_t n) { release(p, 3); }
void sim_del_nt(void* p, void* x) { release(p, 2); }
void sim_dela_nt(void* p, void* x) { release(p, 3); }
void sim_del_al(void* p, size_t a) { release(p, 2); }
void sim_del_sz_al(void* p, size_t n, size_t a) { release(p, 2); }
void sim_dela_al(void* p, size_t a) { release(p, 3); }
void sim_dela_sz_al(void* p, size_t n, size_t a) { release(p, 3); }

/* locks: the holder may be preempted, so waiting means handing over to another simulated thread */
static struct { void* m; int held; } L[256]; static int* lk(void* m) { int i; for (i = 0; i < 256 && L[i].m && L[i].m != m; i++); if (i == 256) abort(); L[i].m = m; return &L[i].held; }
static void yield_(void) { long keep = t_next; if (!g_hook) { fprintf(stderr, "deadlock\n"); abort(); } g_hook(-1); t_next = keep; }
int sim_mutex_lock(void* m) { while (*lk(m)) yield_(); *lk(m) = 1; return 0; }
int sim_mutex_trylock(void* m) { if (*lk(m)) return EBUSY; *lk(m) = 1; return 0; }
int sim_mutex_unlock(void* m) { *lk(m) = 0; return 0; }
int sim_spin_lock(void* m) { return sim_mutex_lock(m); }
int sim_spin_trylock(void* m) { return sim_mutex_trylock(m); }
int sim_spin_unlock(void* m) { return sim_mutex_unlock(m); }
int sim_rdlock(void* m) { while (*lk(m) > 0) yield_(); --*lk(m); return 0; }
int sim_wrlock(void* m) { while (*lk(m)) yield_(); *lk(m) = 1; return 0; }
int sim_rwunlock(void* m) { int* v = lk(m); if (*v < 0) ++*v; else *v = 0; return 0; }
int sim_ok1(void* m) { return 0; }
int sim_ok2(void* m, void* a) { return 0; }
int sim_once(int* o, void (*f)(void)) { for (;;) { if (*o == 2) return 0; if (*o == 0) break; yield_(); } *o = 1; f(); *o = 2; return 0; }
int sim_guard_acquire(unsigned char* g) { for (;;) { if (g[0]) return 0; if (!g[1]) { g[1] = 1; return 1; } yield_(); } }
void sim_guard_release(unsigned char* g) { g[0] = 1; g[1] = 0; }
void sim_guard_abort(unsigned char* g) { g[1] = 0; }
/* ambient sources are constants here; whether results depend on them is decided under C08 */
int sim_rand(void) { return 4; }
long sim_random(void) { return 4; }
int sim_rand_r(unsigned* s) { return 4; }
double sim_drand48(void) { return 0.5; }
void sim_srand(unsigned s) {}
long sim_time(long* t) { if (t) *t = 1600000000; return 1600000000; }
long sim_clock(void) { return 0; }
int sim_clock_gettime(int c, long* ts) { ts[0] = 1600000000; ts[1] = 0; return 0; }
int sim_gettimeofday(long* tv, void* z) { tv[0] = 1600000000; tv[1] = 0; return 0; }
char* sim_getenv(const char* n) { return 0; }
int sim_getpid(void) { return 1000; }
void* sim_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { return memset(d, c, n); }
void* sim_memcpy_chk(void* d, const void* s, size_t n, size_t k) { return memcpy(d, s, n); }
void* sim_memmove_chk(void* d, const void* s, size_t n, size_t k) { return memmove(d, s, n); }
void* sim_memset_chk(void* d, int c, size_t n, size_t k) { return memset(d, c, n); }
