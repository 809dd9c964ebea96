// Simulator runtime: the seam between the library under test and everything it can observe.
// The library is compiled with thread-sanitizer style instrumentation, but the __tsan_* entry
// points, the allocator, memcpy & co. and the synchronisation primitives it calls are the ones
// implemented in rt.cc, so memory, allocation, time (steps) and scheduling belong to the simulator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;

static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SIZE = 1ull << 29;

enum Sh : u8 { SH_NONE = 0, SH_HEAP = 1, SH_FREED = 2, SH_RED = 3, SH_IN = 4, SH_OUT = 5, SH_OUTW = 6, SH_REVOKED = 7 };
enum AK : u8 { AK_MALLOC = 1, AK_NEW = 2, AK_NEWA = 3 };

// violation kinds found by the runtime itself
enum VK : u8 { V_NONE = 0, V_OOB_READ, V_OOB_WRITE, V_RO_WRITE, V_UAF, V_STALE, V_BADFREE, V_MISMATCH, V_LEAK, V_EXC, V_HANG, V_CRASH, V_DEADLOCK, V_MAX };
extern const char* vk_name[V_MAX];

struct Viol { u8 kind; int op; u64 pc; i64 off; u32 size; char what[64]; };

struct OpRes {
    int done;            // 1 once the operation returned
    int rc;
    int prog_before, prog_after;   // stream progress as reported (INT_MIN when not a stream op)
    int info_ok;         // ti_stream_get_info returned the creating entry
    int start;
    int handle_state;    // after NEW: 0 untouched, 1 NULL, 2 other non-null
    int cells;           // promised cells per output
    int written;         // number of promised cells written (all outputs)
    int extra;           // cells written beyond the promise
    int hole;            // a promised cell left unwritten
    u32 allocs, failed;  // allocations attempted / failed by injection
    u32 leak_blocks, leak_bytes;
    u64 steps, touch;    // memory-access steps; digest of accessed locations
    u32 out_off, out_n;  // where in the result buffer; total doubles
    int in_mod;          // inputs/options modified
    u32 first_global_step[4]; // local steps at which library globals were touched
    u32 n_global;
};

static const int MAX_OPS = 1400, MAX_VIOL = 64;
static const u32 OUT_MAX = 1u << 21;
struct Shared {          // result area shared between the driver and one forked execution
    int state;           // 0 running, 1 finished
    int crash_sig; u64 crash_pc, crash_addr; int crash_op;
    int nviol; Viol viol[MAX_VIOL];
    int nops; OpRes ops[MAX_OPS];
    u64 ev_hash;         // digest of the whole event sequence
    u64 steps, switches, switch_hash, allocs, fails, blocks, accesses;
    u32 out_used; double out[OUT_MAX];
};
extern Shared* SHM;
extern u8* g_cov;        // basic-block coverage bitmap (shared over all executions of a worker)
static const u32 COV_SIZE = 1u << 20;

struct Env {
    int fill = 0;        // 0 zero 1 0xA5 2 random bytes 3 plausible doubles 4 NaN 5 small ints
    int reuse = 0;       // 0 quarantine 1 LIFO reuse keep content 2 LIFO reuse refilled
    int scribble = 0;    // stack scribble pattern before each call (0 none)
    int prefill = 0;     // output prefill pattern
    int shift = 0;       // address shift of everything
    int rm = 0;          // rounding mode 0 nearest 1 up 2 down 3 zero
    int urec = 0;        // caller arrays: 0 a fresh address for every call 1 the same buffers again and again
    u64 seed = 1;
};

struct Fault { int mode = 0; int n = 0; u64 mask = 0; }; // 1 nth, 2 from nth on, 3 mask over first 64

void rt_init();                       // map arena etc. once per process
void rt_begin(const Env& e);          // in the forked child
void* rt_user_alloc(size_t n, Sh kind, int align8);
void rt_user_revoke(void* p, size_t n);
void rt_user_release(void* p, size_t n);
void rt_scribble();
bool rt_asan();                       // this executable carries the stack/global red-zone instrumentation
void rt_unpoison_stack();             // forget red zones of frames that are gone (exceptions skip epilogues)
u64 rt_mix(u64 x);
void rt_fill(void* p, size_t n, int pattern, u64 seed);
void rt_viol(int kind, u64 pc, i64 off, u32 size, const char* fmt, ...);

// operations bracket: which op/owner does the code running now belong to
struct Ctx {                          // one per simulated task
    int id = 0, op = -1, owner = -1; bool inlib = false; bool fault_on = false;
    Fault fault; u32 op_allocs = 0, op_failed = 0; u64 op_steps = 0, steps = 0, touch = 0; u64 budget = 0;
    u32 nglob = 0; u32 glob[4] = {0,0,0,0};
    // scheduling
    u64 next_sw = ~0ull; std::vector<std::pair<u64,int>> sw; size_t swi = 0; bool finished = false; void* wait_on = nullptr;
    u64 quantum_left = 0; uintptr_t stack_base = 0;
};
extern Ctx* CUR;
struct Blk { uintptr_t p; size_t n; u8 kind; u8 live; int owner; int op; u32 serial; };
extern std::vector<Blk>* BLKS;
int rt_leaks_of_owner(int owner, u32* bytes);
int rt_leaks_of_op(int op, u32* bytes);
void rt_forgive_owner(int owner);

// cooperative scheduling of real threads (one runs at a time)
struct Sched { std::vector<Ctx*> tasks; };
void sched_wait(void* obj); void sched_wake(void* obj);
void sched_run(std::vector<Ctx*>& tasks, void (*body)(int), u64 quantum);
void sched_point();                   // call-boundary scheduling point
