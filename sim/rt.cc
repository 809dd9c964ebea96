#include "rt.h"
#include <cstdarg>
#include <algorithm>
#include <unordered_map>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <errno.h>

const char* vk_name[V_MAX] = {"none","oob-read","oob-write","ro-write","use-after-free","stale-caller-pointer",
    "bad-free","mismatched-free","leak","exception-escapes","unbounded","crash","deadlock"};

Shared* SHM; u8* g_cov; Ctx* CUR; std::vector<Blk>* BLKS;
static u8* shadow;                       // one byte per arena byte
static uintptr_t brk_;                   // bump pointer
static Env env; static u64 serial_;
static std::unordered_map<uintptr_t, u32>* by_ptr;
static std::map<size_t, std::vector<uintptr_t>>* freelist;
static bool inited;
extern "C" char __executable_start, __data_start, _end, etext;

u64 rt_mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

void rt_init() {
    if (inited) return; inited = true;
    void* p = mmap((void*)ARENA, ARENA_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ARENA) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
    shadow = (u8*)mmap(nullptr, ARENA_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED) { fprintf(stderr, "shadow mmap failed\n"); _exit(3); }
    by_ptr = new std::unordered_map<uintptr_t, u32>(); BLKS = new std::vector<Blk>();
    freelist = new std::map<size_t, std::vector<uintptr_t>>();
    brk_ = ARENA + 4096;
}

static void on_sig(int sig, siginfo_t* si, void* uc) {
    SHM->crash_sig = sig; SHM->crash_pc = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    SHM->crash_addr = (u64)si->si_addr; SHM->crash_op = CUR ? CUR->op : -1;
    _exit(70);
}
static void altstack() {
    static thread_local char* s; if (s) return; s = (char*)malloc(65536);
    stack_t st{}; st.ss_sp = s; st.ss_size = 65536; sigaltstack(&st, nullptr);
}
void rt_begin(const Env& e) {
    env = e;
    brk_ = ARENA + 65536 + (size_t)(e.shift & 0xff) * 4096 + (size_t)((e.shift >> 8) & 0xff) * 16;
    altstack();
    struct sigaction sa{}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO|SA_ONSTACK;
    for (int s : {SIGVTALRM, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
}

void rt_viol(int kind, u64 pc, i64 off, u32 size, const char* fmt, ...) {
    int op = CUR ? CUR->op : -1;
    for (int i = 0; i < SHM->nviol; i++) { Viol& v = SHM->viol[i]; if (v.kind == kind && v.op == op && v.pc == pc) return; }
    if (SHM->nviol >= MAX_VIOL) return;
    Viol& v = SHM->viol[SHM->nviol++]; v.kind = (u8)kind; v.op = op; v.pc = pc; v.off = off; v.size = size;
    va_list ap; va_start(ap, fmt); vsnprintf(v.what, sizeof v.what, fmt, ap); va_end(ap);
}

void rt_fill(void* p, size_t n, int pat, u64 seed) {
    u8* b = (u8*)p;
    switch (pat) {
    case 0: memset(b, 0, n); return;
    case 1: memset(b, 0xA5, n); return;
    case 3: { size_t i = 0; for (; i + 8 <= n; i += 8) { double d = 1 + (rt_mix(seed + i) >> 40) * (200.0 / (1 << 24)); memcpy(b + i, &d, 8); } for (; i < n; i++) b[i] = 0x40; return; }
    case 4: memset(b, 0xFF, n); return;
    case 5: { size_t i = 0; for (; i + 4 <= n; i += 4) { u32 d = (u32)(rt_mix(seed + i) % 7); memcpy(b + i, &d, 4); } for (; i < n; i++) b[i] = 1; return; }
    default: for (size_t i = 0; i < n; i += 8) { u64 r = rt_mix(seed + i); memcpy(b + i, &r, n - i < 8 ? n - i : 8); } return;
    }
}

// ---------------------------------------------------------------- red zones of stack and global objects
// The second build of the library uses address-sanitizer instrumentation with this runtime instead of
// the compiler's: prologues poison the red zones around arrays in frames, constructors those of globals.
static bool asan_on, asan_map; static uintptr_t stack_top_;
static const uintptr_t ASH = 0x7fff8000ull, ASH_END = 0x10007fff8000ull;
static void asan_init() {
    asan_on = true; if (asan_map) return;
    void* p = mmap((void*)ASH, ASH_END - ASH, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ASH) { fprintf(stderr, "red-zone shadow mmap failed\n"); _exit(3); }
    madvise(p, ASH_END - ASH, MADV_NOHUGEPAGE); asan_map = true;
}
bool rt_asan() { return asan_on; }
static inline u8* ash(uintptr_t a) { return (u8*)((a >> 3) + ASH); }
static void asan_poison(uintptr_t a, size_t n, u8 v) { // a is 8-aligned
    if (n >> 3) memset(ash(a), v, n >> 3); if (n & 7) *ash(a + n) = v ? v : (u8)(n & 7); }
static bool asan_ok(uintptr_t a, size_t n, u8* what) {
    if (a >> 47) return true; // not an address of this process; the access itself will fault
    for (uintptr_t b = a & ~(uintptr_t)7; b < a + n; b += 8) { u8 s = *ash(b); if (!s) continue; if (s >= 0x80) { *what = s; return false; }
        uintptr_t last = std::min(a + n - 1, b + 7); if ((last & 7) >= s) { *what = s; return false; } }
    return true;
}
void rt_unpoison_stack() { if (!asan_on) return; uintptr_t sp = (uintptr_t)__builtin_frame_address(0) & ~(uintptr_t)7; memset(ash(sp - 262144), 0, 262144 / 8); }
static void asan_unwind() { if (!asan_on) return; // frames between here and the call into the library are about to be left without their epilogues
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0) & ~(uintptr_t)7; uintptr_t top = CUR && CUR->stack_base > sp && CUR->stack_base - sp < (1u << 20) ? CUR->stack_base : sp + 65536; memset(ash(sp), 0, (top - sp) / 8); }
static inline u8* sh(uintptr_t p) { return shadow + (p - ARENA); }
static const char* sh_what(uintptr_t p) {
    if (p - ARENA >= ARENA_SIZE) return "outside";
    switch (*sh(p)) { case SH_NONE: return "unallocated"; case SH_FREED: return "freed"; case SH_RED: return "redzone"; case SH_IN: return "input";
        case SH_OUT: case SH_OUTW: return "output"; case SH_REVOKED: return "revoked"; default: return "heap"; }
}

// ---------------------------------------------------------------- allocation
static uintptr_t carve(size_t n, size_t align, size_t off) {
    uintptr_t p = brk_ + 64; p = (p + align - 1) / align * align + off;
    if (p + n + 128 > ARENA + ARENA_SIZE) return 0;
    memset(sh(brk_), SH_RED, p - brk_); uintptr_t e = p + n;
    uintptr_t e2 = (e + 64 + 15) & ~(uintptr_t)15; memset(sh(e), SH_RED, e2 - e);
    if (env.fill) { rt_fill((void*)(brk_ + ((8 - brk_) & 7)), p - brk_ - ((8 - brk_) & 7), env.fill, rt_mix(env.seed ^ brk_)); rt_fill((void*)e, e2 - e, env.fill, rt_mix(env.seed ^ e)); } // what lies around a block is as arbitrary as its content
    brk_ = e2; return p;
}
static std::map<size_t, std::vector<uintptr_t>> g_ufree;
static size_t ucap(size_t n) { size_t c = 64; while (c < n) c *= 2; return c; }
void* rt_user_alloc(size_t n, Sh kind, int align8) {
    if (env.urec) { // the caller keeps its buffers: the same addresses serve call after call
        size_t cap = ucap(n); auto& l = g_ufree[cap]; uintptr_t p; if (!l.empty()) { p = l.back(); l.pop_back(); } else p = carve(cap, 16, align8 ? 8 : 0);
        if (!p) { fprintf(stderr, "arena exhausted\n"); _exit(3); } memset(sh(p), SH_RED, cap); memset(sh(p), kind, n); return (void*)p; }
    uintptr_t p = carve(n, 16, align8 ? 8 : 0); if (!p) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
    memset(sh(p), kind, n); return (void*)p;
}
void rt_user_revoke(void* p, size_t n) { memset(sh((uintptr_t)p), SH_REVOKED, n); rt_fill(p, n, 2, 77); if (env.urec) g_ufree[ucap(n)].push_back((uintptr_t)p); }
void rt_user_release(void* p, size_t n) { memset(sh((uintptr_t)p), SH_REVOKED, n); }

static void* sim_alloc(size_t n, int kind, size_t align, bool zero) {
    rt_init();
    Ctx* c = CUR;
    if (c && c->inlib) {
        u32 k = c->op_allocs++; SHM->allocs++;
        bool fail = false;
        if (c->fault_on) { const Fault& f = c->fault;
            if (f.mode == 1) fail = (int)k == f.n; else if (f.mode == 2) fail = (int)k >= f.n;
            else if (f.mode == 3) fail = k < 64 ? (f.mask >> k) & 1 : false; }
        if (fail) { c->op_failed++; SHM->fails++; errno = ENOMEM; return nullptr; }
        if (n > (64u << 20)) { c->op_failed++; errno = ENOMEM; return nullptr; }
    }
    uintptr_t p = 0; bool recycled = false;
    if (env.reuse && align <= 16) {
        auto it = freelist->find(n); if (it != freelist->end() && !it->second.empty()) { p = it->second.back(); it->second.pop_back(); recycled = true; }
    }
    if (!p) p = carve(n, align < 16 ? 16 : align, 0);
    if (!p) { if (c) c->op_failed++; errno = ENOMEM; return nullptr; }
    memset(sh(p), SH_HEAP, n);
    u32 id = (u32)BLKS->size();
    BLKS->push_back(Blk{p, n, (u8)kind, 1, c ? c->owner : -1, c ? c->op : -1, (u32)serial_++}); (*by_ptr)[p] = id;
    if (SHM) SHM->blocks++;
    if (zero) memset((void*)p, 0, n);
    else if (!(recycled && env.reuse == 1)) rt_fill((void*)p, n, env.fill, rt_mix(env.seed ^ serial_ * 7919));
    return (void*)p;
}
static void sim_release(void* q, int kind, i64 size, u64 pc) {
    if (!q) return; uintptr_t p = (uintptr_t)q;
    auto it = by_ptr->find(p);
    if (it == by_ptr->end()) { if (SHM) rt_viol(V_BADFREE, pc, 0, 0, "free of %s pointer", sh_what(p)); return; }
    Blk& b = (*BLKS)[it->second];
    if (!b.live) { if (SHM) rt_viol(V_BADFREE, pc, 0, (u32)b.n, "double free"); return; }
    if (SHM) {
        if (b.kind != kind) rt_viol(V_MISMATCH, pc, 0, (u32)b.n, "allocated by kind %d, freed by kind %d", b.kind, kind);
        else if (size >= 0 && (size_t)size != b.n) rt_viol(V_MISMATCH, pc, 0, (u32)b.n, "block of %u bytes deleted as %d bytes", (unsigned)b.n, (int)size);
    }
    b.live = 0; memset(sh(p), SH_FREED, b.n);
    if (env.reuse) (*freelist)[b.n].push_back(p);
    if (env.reuse != 1) rt_fill((void*)p, b.n, 2, 99);
}
int rt_leaks_of_owner(int owner, u32* bytes) { int n = 0; *bytes = 0; for (auto& b : *BLKS) if (b.live && b.owner == owner) { n++; *bytes += (u32)b.n; } return n; }
int rt_leaks_of_op(int op, u32* bytes) { int n = 0; *bytes = 0; for (auto& b : *BLKS) if (b.live && b.op == op) { n++; *bytes += (u32)b.n; } return n; }
void rt_forgive_owner(int owner) { for (auto& b : *BLKS) if (b.owner == owner) b.owner = -2; }

// ---------------------------------------------------------------- steps, scheduling
static sem_t* sems; static std::vector<Ctx*>* TASKS; static void (*BODY)(int); static u64 QUANTUM; static sem_t done_sem;
static void record_sw(int to, u64 pc) { SHM->switches++; SHM->switch_hash = rt_mix(SHM->switch_hash ^ pc ^ ((u64)to << 56) ^ ((u64)CUR->id << 48)); }
static void handoff(Ctx* me, int to, u64 pc) {
    record_sw(to, pc); bool fin = me->finished; int my = me->id;
    int saved_errno = errno;
    CUR = (*TASKS)[to]; CUR->quantum_left = QUANTUM; sem_post(&sems[to]);
    if (!fin) { while (sem_wait(&sems[my])) {} errno = saved_errno; }
}
static int pick_other(Ctx* me) { int n = (int)TASKS->size(); for (int d = 1; d < n; d++) { int t = (me->id + d) % n; if (!(*TASKS)[t]->finished && !(*TASKS)[t]->wait_on) return t; } return -1; }
static void arm(Ctx* c) { c->next_sw = c->swi < c->sw.size() ? c->sw[c->swi].first : ~0ull; }
static void slow(Ctx* c, u64 pc) {
    if (c->op_steps >= c->budget) { rt_viol(V_HANG, pc, (i64)c->op_steps, 0, "step budget exceeded"); SHM->crash_op = c->op; SHM->crash_sig = -1; SHM->crash_pc = pc; _exit(71); }
    if (!TASKS) return;
    bool sw = false; int to = -1;
    while (c->swi < c->sw.size() && c->steps >= c->sw[c->swi].first) { to = c->sw[c->swi].second; c->swi++; sw = true; }
    arm(c);
    if (c->quantum_left == 0) { sw = true; to = -1; c->quantum_left = QUANTUM; }
    if (!sw) return;
    if (to < 0 || to >= (int)TASKS->size() || to == c->id || (*TASKS)[to]->finished || (*TASKS)[to]->wait_on) to = pick_other(c);
    if (to >= 0) handoff(c, to, pc);
}
static inline void step(u64 pc) {
    Ctx* c = CUR; if (!c || !c->inlib) return;
    c->steps++; c->op_steps++; if (c->quantum_left) c->quantum_left--;
    if (c->steps >= c->next_sw || c->op_steps >= c->budget || (TASKS && c->quantum_left == 0)) slow(c, pc);
}
void sched_point() { // between calls: honour switches that are due
    Ctx* c = CUR; if (!c || !TASKS) return; c->steps++;
    if (c->steps >= c->next_sw || c->quantum_left == 0) { u64 b = c->budget; c->budget = ~0ull; slow(c, 1); c->budget = b; }
}
static void block_on(void* obj) { Ctx* c = CUR; if (!c) return;
    c->wait_on = obj; int to = TASKS ? pick_other(c) : -1;
    if (to < 0) { rt_viol(V_DEADLOCK, 0, 0, 0, "all tasks blocked"); SHM->crash_op = c->op; SHM->crash_sig = -2; _exit(72); }
    handoff(c, to, 2);
}
static void wake_all(void* obj) { if (TASKS) for (auto* t : *TASKS) if (t->wait_on == obj) t->wait_on = nullptr; }
void sched_wait(void* obj) { block_on(obj); }
void sched_wake(void* obj) { wake_all(obj); }
static void* thr(void* a) {
    int id = (int)(intptr_t)a; altstack(); while (sem_wait(&sems[id])) {}
    BODY(id);
    Ctx* me = (*TASKS)[id]; me->finished = true; int to = pick_other(me);
    if (to < 0) { // nobody runnable: finished, or deadlock
        for (auto* t : *TASKS) if (!t->finished) { rt_viol(V_DEADLOCK, 0, 0, 0, "task never released"); SHM->crash_op = t->op; SHM->crash_sig = -2; _exit(72); }
        CUR = nullptr; sem_post(&done_sem);
    } else handoff(me, to, 3);
    for (;;) pause();
    return nullptr;
}
void sched_run(std::vector<Ctx*>& tasks, void (*body)(int), u64 quantum) {
    BODY = body; QUANTUM = quantum; TASKS = &tasks; sems = new sem_t[tasks.size()]; sem_init(&done_sem, 0, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    for (size_t i = 0; i < tasks.size(); i++) { sem_init(&sems[i], 0, 0); arm(tasks[i]); pthread_t t; if (pthread_create(&t, &at, thr, (void*)(intptr_t)i)) { fprintf(stderr, "pthread_create failed\n"); _exit(3); } }
    CUR = tasks[0]; CUR->quantum_left = quantum; sem_post(&sems[0]);
    while (sem_wait(&done_sem)) {}
    TASKS = nullptr;
}
void __attribute__((noinline)) rt_scribble() {
    volatile char a[49152]; if (!env.scribble) { memset((void*)a, 0, sizeof a); } else rt_fill((void*)a, sizeof a, env.scribble, rt_mix(env.seed + 5));
    asm volatile("" :: "r"(a) : "memory");
}

// ---------------------------------------------------------------- memory access hooks
static void bad(uintptr_t a, size_t n, bool w, u64 pc, u8 s) {
    if (s == SH_FREED) rt_viol(V_UAF, pc, (i64)(a & 0xffff), (u32)n, "%s of freed memory", w ? "write" : "read");
    else if (s == SH_REVOKED) rt_viol(V_STALE, pc, 0, (u32)n, "%s of caller memory of an earlier call", w ? "write" : "read");
    else if (s == SH_IN && w) rt_viol(V_RO_WRITE, pc, 0, (u32)n, "write to input or option");
    else rt_viol(w ? V_OOB_WRITE : V_OOB_READ, pc, 0, (u32)n, "%s of %s memory", w ? "write" : "read", sh_what(a));
}
static inline void chk1(uintptr_t a, size_t n, bool w, u64 pc) {
    u8* s = sh(a);
    u8 s0 = s[0], s1 = s[n - 1];
    for (u8 x : {s0, s1}) {
        if (x == SH_HEAP || x == SH_OUT || x == SH_OUTW || (x == SH_IN && !w)) continue;
        bad(a, n, w, pc, x); return;
    }
    if (w && s0 == SH_OUT) memset(s, SH_OUTW, n);
}
static void access(void* p, size_t n, bool w, u64 pc) {
    Ctx* c = CUR; if (!c || !c->inlib || !n) return;
    uintptr_t a = (uintptr_t)p;
    SHM->accesses++;
    if (a - ARENA < ARENA_SIZE && a + n <= ARENA + ARENA_SIZE) {
        SHM->ev_hash = (SHM->ev_hash ^ (pc + a * 3 + w)) * 0x100000001b3ull;
        if (n <= 32) chk1(a, n, w, pc);
        else { for (size_t i = 0; i < n; i += 8) chk1(a + i, n - i < 8 ? n - i : 8, w, pc); }
    } else {
        SHM->ev_hash = (SHM->ev_hash ^ pc) * 0x100000001b3ull;
        u8 what; if (asan_on && !asan_ok(a, n, &what)) rt_viol(w ? V_OOB_WRITE : V_OOB_READ, pc, 0, (u32)n, "%s %s", w ? "write" : "read", what == 0xf9 || what < 0x80 ? "outside a global or local object" : what == 0xf8 ? "of a local out of scope" : what >= 0xf1 && what <= 0xf4 ? "outside a local array" : "outside an object");
        if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) { if (w || c->nglob) { if (c->nglob < 4) c->glob[c->nglob] = (u32)c->steps; else c->glob[1 + c->nglob % 3] = (u32)c->steps; c->nglob++; } }
    }
    step(pc);
}
#define PC ((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void* a) { access(a, N, false, PC); } \
void __tsan_write##N(void* a) { access(a, N, true, PC); } \
void __tsan_unaligned_read##N(void* a) { access(a, N, false, PC); } \
void __tsan_unaligned_write##N(void* a) { access(a, N, true, PC); } \
void __tsan_volatile_read##N(void* a) { access(a, N, false, PC); } \
void __tsan_volatile_write##N(void* a) { access(a, N, true, PC); } \
void __tsan_unaligned_volatile_read##N(void* a) { access(a, N, false, PC); } \
void __tsan_unaligned_volatile_write##N(void* a) { access(a, N, true, PC); } \
void __tsan_read_write##N(void* a) { access(a, N, false, PC); access(a, N, true, PC); } \
void __tsan_unaligned_read_write##N(void* a) { access(a, N, false, PC); access(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int) { access((void*)a, sizeof(T), false, PC); return *a; } \
void __tsan_atomic##B##_store(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, PC); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, PC); T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { access((void*)a, sizeof(T), true, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { access((void*)a, sizeof(T), true, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int, int) { access((void*)a, sizeof(T), true, PC); T o = *a; if (o == e) *a = v; return o; }
// address-sanitizer style callbacks
void __asan_init() { asan_init(); }
void __asan_version_mismatch_check_v8() {}
#define AS(N) \
void __asan_load##N##_noabort(void* a) { access(a, N, false, PC); } \
void __asan_store##N##_noabort(void* a) { access(a, N, true, PC); } \
void __asan_load##N(void* a) { access(a, N, false, PC); } \
void __asan_store##N(void* a) { access(a, N, true, PC); } \
void __asan_report_load##N##_noabort(void* a) { access(a, N, false, PC); } \
void __asan_report_store##N##_noabort(void* a) { access(a, N, true, PC); }
AS(1) AS(2) AS(4) AS(8) AS(16)
void __asan_loadN_noabort(void* a, size_t n) { access(a, n, false, PC); }
void __asan_storeN_noabort(void* a, size_t n) { access(a, n, true, PC); }
void __asan_loadN(void* a, size_t n) { access(a, n, false, PC); }
void __asan_storeN(void* a, size_t n) { access(a, n, true, PC); }
void __asan_report_load_n_noabort(void* a, size_t n) { access(a, n, false, PC); }
void __asan_report_store_n_noabort(void* a, size_t n) { access(a, n, true, PC); }
void __asan_handle_no_return() { asan_unwind(); }
struct AGlob { uintptr_t beg; size_t size, full; const char *name, *module; uintptr_t dyn; void* loc; uintptr_t odr; };
void __asan_register_globals(AGlob* g, size_t n) { asan_init(); for (size_t i = 0; i < n; i++) { asan_poison(g[i].beg, g[i].size, 0); uintptr_t e = (g[i].beg + g[i].size + 7) & ~(uintptr_t)7; asan_poison(e, g[i].beg + g[i].full - e, 0xf9); } }
void __asan_unregister_globals(AGlob*, size_t) {}
void __asan_before_dynamic_init(const char*) {}
void __asan_after_dynamic_init() {}
void __asan_poison_stack_memory(uintptr_t a, size_t n) { if (n) { asan_poison(a & ~(uintptr_t)7, (n + 7) & ~(size_t)7, 0xf8); } }
void __asan_unpoison_stack_memory(uintptr_t a, size_t n) { asan_poison(a, n, 0); }
void __asan_alloca_poison(uintptr_t a, size_t n) { uintptr_t e = (a + n + 31) & ~(uintptr_t)31; asan_poison(a - 32, 32, 0xca); asan_poison(a, n, 0); if (n & 7) { asan_poison(((a + n + 7) & ~(uintptr_t)7), e - ((a + n + 7) & ~(uintptr_t)7), 0xcb); } else asan_poison(a + n, e - a - n, 0xcb); asan_poison(e, 32, 0xcb); }
void __asan_allocas_unpoison(uintptr_t top, uintptr_t bottom) { if (top && top < bottom) memset(ash(top), 0, (bottom - top) / 8); }
int __asan_option_detect_stack_use_after_return = 0;

AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void __sanitizer_cov_trace_pc() { u64 pc = PC; if (g_cov) g_cov[(pc - (u64)&__executable_start) & (COV_SIZE - 1)] = 1; step(pc); }

void* sim_malloc(size_t n) { return sim_alloc(n, AK_MALLOC, 16, false); }
void* sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) n = ~(size_t)0 >> 1; return sim_alloc(n, AK_MALLOC, 16, true); }
void sim_free(void* p) { sim_release(p, AK_MALLOC, -1, PC); }
void* sim_realloc(void* p, size_t n) {
    if (!p) return sim_alloc(n, AK_MALLOC, 16, false);
    auto it = by_ptr->find((uintptr_t)p);
    if (it == by_ptr->end() || !(*BLKS)[it->second].live) { rt_viol(V_BADFREE, PC, 0, 0, "realloc of bad pointer"); return nullptr; }
    Blk b = (*BLKS)[it->second];
    if (!n) { sim_release(p, AK_MALLOC, -1, PC); return nullptr; }
    void* q = sim_alloc(n, AK_MALLOC, 16, false); if (!q) return nullptr;
    memcpy(q, p, b.n < n ? b.n : n); sim_release(p, AK_MALLOC, -1, PC); return q;
}
void* sim_reallocarray(void* p, size_t a, size_t b) { return sim_realloc(p, a * b); }
void* sim_aligned_alloc(size_t al, size_t n) { return sim_alloc(n, AK_MALLOC, al, false); }
int sim_posix_memalign(void** out, size_t al, size_t n) { void* p = sim_alloc(n, AK_MALLOC, al, false); if (!p) return ENOMEM; *out = p; return 0; }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)sim_alloc(n, AK_MALLOC, 16, false); if (p) memcpy(p, s, n); return p; }
void* sim_memalign(size_t al, size_t n) { return sim_alloc(n, AK_MALLOC, al, false); }
char* sim_strdup2(const char* s) { return sim_strdup(s); }
void* sim_new(size_t n) { void* p = sim_alloc(n, AK_NEW, 16, false); if (!p) { asan_unwind(); throw std::bad_alloc(); }; return p; }
void* sim_newa(size_t n) { void* p = sim_alloc(n, AK_NEWA, 16, false); if (!p) { asan_unwind(); throw std::bad_alloc(); }; return p; }
void* sim_new_nt(size_t n, void*) { return sim_alloc(n, AK_NEW, 16, false); }
void* sim_newa_nt(size_t n, void*) { return sim_alloc(n, AK_NEWA, 16, false); }
void* sim_new_al(size_t n, size_t al) { void* p = sim_alloc(n, AK_NEW, al, false); if (!p) { asan_unwind(); throw std::bad_alloc(); }; return p; }
void* sim_newa_al(size_t n, size_t al) { void* p = sim_alloc(n, AK_NEWA, al, false); if (!p) { asan_unwind(); throw std::bad_alloc(); }; return p; }
void* sim_new_al_nt(size_t n, size_t al, void*) { return sim_alloc(n, AK_NEW, al, false); }
void* sim_newa_al_nt(size_t n, size_t al, void*) { return sim_alloc(n, AK_NEWA, al, false); }
void sim_del(void* p) { sim_release(p, AK_NEW, -1, PC); }
void sim_del_sz(void* p, size_t n) { sim_release(p, AK_NEW, (i64)n, PC); }
void sim_dela(void* p) { sim_release(p, AK_NEWA, -1, PC); }
void sim_dela_sz(void* p, size_t n) { sim_release(p, AK_NEWA, -1, PC); }
void sim_del_nt(void* p, void*) { sim_release(p, AK_NEW, -1, PC); }
void sim_dela_nt(void* p, void*) { sim_release(p, AK_NEWA, -1, PC); }
void sim_del_al(void* p, size_t) { sim_release(p, AK_NEW, -1, PC); }
void sim_del_sz_al(void* p, size_t n, size_t) { sim_release(p, AK_NEW, (i64)n, PC); }
void sim_dela_al(void* p, size_t) { sim_release(p, AK_NEWA, -1, PC); }
void sim_dela_sz_al(void* p, size_t, size_t) { sim_release(p, AK_NEWA, -1, PC); }

void* sim_memcpy(void* d, const void* s, size_t n) { access((void*)s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { access((void*)s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { access(d, n, true, PC); return memset(d, c, n); }
void* sim_memcpy_chk(void* d, const void* s, size_t n, size_t) { return sim_memcpy(d, s, n); }
void* sim_memmove_chk(void* d, const void* s, size_t n, size_t) { return sim_memmove(d, s, n); }
void* sim_memset_chk(void* d, int c, size_t n, size_t) { return sim_memset(d, c, n); }

// synchronisation: decided by the simulated scheduler
static std::map<void*, int>* locks; // owner+1, or -k readers
static int& lk(void* m) { if (!locks) locks = new std::map<void*, int>(); return (*locks)[m]; }
int sim_mutex_lock(void* m) { step(PC); while (lk(m)) { if (!CUR || !TASKS) { rt_viol(V_DEADLOCK, PC, 0, 0, "relock"); _exit(72); } block_on(m); } lk(m) = CUR ? CUR->id + 1 : 1; return 0; }
int sim_mutex_trylock(void* m) { step(PC); if (lk(m)) return EBUSY; lk(m) = CUR ? CUR->id + 1 : 1; return 0; }
int sim_mutex_unlock(void* m) { lk(m) = 0; wake_all(m); step(PC); return 0; }
int sim_spin_lock(void* m) { return sim_mutex_lock(m); }
int sim_spin_trylock(void* m) { return sim_mutex_trylock(m); }
int sim_spin_unlock(void* m) { return sim_mutex_unlock(m); }
int sim_rdlock(void* m) { step(PC); while (lk(m) > 0) block_on(m); lk(m)--; return 0; }
int sim_wrlock(void* m) { step(PC); while (lk(m)) block_on(m); lk(m) = CUR ? CUR->id + 1 : 1; return 0; }
int sim_rwunlock(void* m) { int& v = lk(m); if (v < 0) v++; else v = 0; if (!v) wake_all(m); step(PC); return 0; }
int sim_ok1(void*) { return 0; }
int sim_ok2(void*, void*) { return 0; }
int sim_once(int* o, void (*f)()) { step(PC); for (;;) { if (*o == 2) return 0; if (*o == 0) break; block_on(o); } *o = 1; f(); *o = 2; wake_all(o); return 0; }
int sim_guard_acquire(u8* g) { step(PC); for (;;) { if (g[0]) return 0; if (!g[1]) { g[1] = 1; return 1; } block_on(g); } }
void sim_guard_release(u8* g) { g[0] = 1; g[1] = 0; wake_all(g); step(PC); }
void sim_guard_abort(u8* g) { g[1] = 0; wake_all(g); }
}
// ambient sources: decided by the simulated environment, never by the machine
static u64 amb_; static u64 amb() { return rt_mix(env.seed * 31 + (u64)env.fill * 7 + (u64)env.scribble + ++amb_); }
extern "C" {
int sim_rand() { return (int)(amb() & 0x7fffffff); }
long sim_random() { return (long)(amb() & 0x7fffffff); }
int sim_rand_r(unsigned*) { return sim_rand(); }
double sim_drand48() { return (double)(amb() >> 11) / 9007199254740992.0; }
void sim_srand(unsigned) {}
static i64 sim_ns() { return (i64)1600000000000000000ll + (i64)(env.seed & 0xffffff) * 1000000007ll * (env.scribble + 1) + (i64)(CUR ? CUR->steps : 0) * 10; }
long sim_time(long* t) { long v = (long)(sim_ns() / 1000000000); if (t) *t = v; return v; }
long sim_clock() { return (long)(sim_ns() / 1000); }
int sim_clock_gettime(int, long* ts) { i64 v = sim_ns(); ts[0] = v / 1000000000; ts[1] = v % 1000000000; return 0; }
int sim_gettimeofday(long* tv, void*) { i64 v = sim_ns(); tv[0] = v / 1000000000; tv[1] = v % 1000000000 / 1000; return 0; }
char* sim_getenv(const char*) { static char one[2] = "1"; return env.scribble & 1 ? one : nullptr; }
int sim_getpid() { return 1000 + (int)(env.seed % 20000); }
}
extern "C" u8 rt_shadow_at(void* p) { return (uintptr_t)p - ARENA < ARENA_SIZE ? *sh((uintptr_t)p) : 0; }
