// Compiled WITHOUT instrumentation.  No STL containers.
#include "rt.h"
#include <new>
#include <chrono>
#include <random>
#include <exception>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>

extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void  __real_abort(); void __real_exit(int);
time_t __real_time(time_t*); int __real_clock_gettime(clockid_t, timespec*);
int __real_gettimeofday(timeval*, void*);
tm* __real_localtime(const time_t*); tm* __real_localtime_r(const time_t*, tm*); tm* __real_gmtime(const time_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_once(pthread_once_t*, void (*)());
int __real_rand(); void __real_srand(unsigned);
extern char __data_start, _end;
}

RtResult* g_res;

// ---------------------------------------------------------------- state
static const uintptr_t ARENA = 0x200000000000ull;   // fixed: addresses repeat exactly
static const size_t    ARENA_SZ = 512ull << 20;
static const uintptr_t SHADOW = 0x210000000000ull;  // one byte per arena byte: 0 free, 1 live, 2 freed
static const uintptr_t STACKS = 0x220000000000ull;
static const size_t    STACK_SZ = 1 << 20;
static const uintptr_t RACE = 0x230000000000ull;
static const size_t    RACE_N = 1 << 18;
static const uintptr_t SYNCT = 0x240000000000ull;
static const size_t    SYNC_N = 1 << 12;

struct Task
{
    int id; volatile int turn; int state; const void* wait; // state 0 runnable 1 blocked 2 done
    uint32_t vc[MAXT];
    int cur_op; const char* cur_name; uint64_t op_steps;
    int fkind; long fa, fb; long fcount, ffired;
    pthread_t th; uintptr_t stk;
    void (*body)(int, void*); void* ctx;
    int arm_depth;
    long stall_n; int64_t stall_m, stall_w;
    struct { void (*f)(void*); void* o; } td[128]; int ntd; // destructors of thread-local objects
};
static struct
{
    bool child; RtCfg cfg; int ntasks; Task tasks[MAXT]; Task maintask;
    uint64_t steps; uint64_t trace, inter, state;
    const RtSwitch* sw; int nsw; int isw; long gap; int unit; bool concurrent;
    uint64_t hrng; int64_t mono, wall;
    volatile int alldone;
    int64_t wseg[512][2]; int nseg;
} G;
static __thread Task* T;
static __thread int t_sut;
static bool g_dead;

static inline uint64_t mixh(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static inline uint64_t hr() { uint64_t x = G.hrng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return G.hrng = x; }
void rt_mix(uint64_t v) { G.trace = mixh(G.trace, v); }

// ---------------------------------------------------------------- ending a run
static void stamp()
{
    RtResult* r = g_res;
    r->steps = G.steps; r->sim_ns += G.steps; r->trace_hash = mixh(G.trace, G.steps); r->inter_hash = G.inter; r->state_hash = G.state;
    Task* t = T ? T : &G.maintask;
    r->cur_task = t->id; r->cur_op = t->cur_op;
    if (t->cur_name) { strncpy(r->cur_name, t->cur_name, sizeof r->cur_name - 1); }
}
[[noreturn]] static void die(int status, int code, const char* kind, const char* msg)
{
    if (!g_dead)
    {
        g_dead = true;
        RtResult* r = g_res;
        r->status = status; r->code = code;
        strncpy(r->kind, kind, sizeof r->kind - 1);
        strncpy(r->msg, msg, sizeof r->msg - 1);
        stamp();
    }
    _exit(0);
}
void rt_fail(const char* kind, const char* fmt, ...)
{
    char b[512]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    t_sut = 0;
    die(ST_VIOLATION, 0, kind, b);
}
void rt_internal(const char* fmt, ...)
{
    char b[512]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (!g_res) { fprintf(stderr, "internal: %s\n", b); _exit(3); }
    die(ST_INTERNAL, 0, "internal", b);
}
void rt_finish() { die(ST_OK, 0, "", ""); }

static void on_signal(int sig, siginfo_t* si, void*)
{
    char b[128];
    if (sig == SIGXCPU || sig == SIGALRM) die(ST_HANG, sig, "hang", sig == SIGXCPU ? "no progress: processor time limit reached" : "no progress: blocked");
    snprintf(b, sizeof b, "signal %d at address %p", sig, si ? si->si_addr : 0);
    die(ST_SIGNAL, sig, "crash", b);
}
static void on_terminate()
{
    const char* what = "std::terminate called";
    die(ST_TERMINATE, 0, "terminate", what);
}

// ---------------------------------------------------------------- scheduler
static void futex_wait(volatile int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(volatile int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void give(Task* t) { __atomic_store_n(&t->turn, 1, __ATOMIC_SEQ_CST); futex_wake(&t->turn); }
static void take(Task* t) { while (__atomic_load_n(&t->turn, __ATOMIC_SEQ_CST) == 0) futex_wait(&t->turn, 0); t->turn = 0; }

static void next_switch()
{
    if (G.isw < G.nsw) { G.gap = G.sw[G.isw].gap; G.unit = G.sw[G.isw].unit; }
    else { G.gap = -1; }
}
static Task* pick(int k, bool exclude_self)
{
    Task* c[MAXT]; int n = 0;
    for (int i = 0; i < G.ntasks; i++) if (G.tasks[i].state == 0 && !(exclude_self && &G.tasks[i] == T)) c[n++] = &G.tasks[i];
    if (n == 0) return nullptr;
    return c[(unsigned) k % n];
}
static void transfer(Task* n)
{
    Task* me = T;
    if (n == me) return;
    int s = t_sut; (void) s;
    G.inter = mixh(G.inter, ((uint64_t) me->id << 56) ^ ((uint64_t) n->id << 48) ^ ((uint64_t) me->cur_op << 32) ^ me->op_steps);
    G.trace = mixh(G.trace, G.inter);
    give(n); take(me);
}
static void preempt()
{
    int p = G.sw[G.isw].pick; G.isw++; next_switch();
    Task* n = pick(p, true);
    if (n) { g_res->switches++; transfer(n); }
}
static void block_on(const void* obj)
{
    Task* me = T;
    me->state = 1; me->wait = obj;
    Task* n = pick(0, false);
    if (!n) rt_fail("deadlock", "every task is blocked (task %d in op %d %s)", me->id, me->cur_op, me->cur_name ? me->cur_name : "");
    g_res->switches++;
    transfer(n);
}
static void wake_waiters(const void* obj)
{
    for (int i = 0; i < G.ntasks; i++) if (G.tasks[i].state == 1 && G.tasks[i].wait == obj) { G.tasks[i].state = 0; G.tasks[i].wait = 0; }
}
static inline void event(bool shared)
{
    G.steps++;
    if (T) { T->op_steps++; if (T->stall_n > 0 && --T->stall_n == 0) { rt_advance(T->stall_m, T->stall_w); g_res->user_cnt[15]++; } }
    if (G.steps > G.cfg.budget) rt_fail("no-termination", "step budget of %llu exceeded", (unsigned long long) G.cfg.budget);
    if (G.gap > 0 && G.concurrent && (G.unit == 0 || shared)) { if (--G.gap == 0) preempt(); }
}

// ---------------------------------------------------------------- happens-before
struct SyncObj { const void* key; uint32_t vc[MAXT]; int locked; int owner; int readers; };
static SyncObj* sync_of(const void* p)
{
    SyncObj* tab = (SyncObj*) SYNCT;
    uint64_t h = ((uintptr_t) p >> 2) * 0x9e3779b97f4a7c15ull >> 40;
    for (size_t i = 0; i < SYNC_N; i++)
    {
        SyncObj* s = &tab[(h + i) & (SYNC_N - 1)];
        if (s->key == p) return s;
        if (!s->key) { s->key = p; return s; }
    }
    rt_internal("sync table full");
}
static void hb_acquire(SyncObj* s) { if (T && G.concurrent) for (int i = 0; i < MAXT; i++) if (s->vc[i] > T->vc[i]) T->vc[i] = s->vc[i]; }
static void hb_release(SyncObj* s, bool join = true)
{
    if (!(T && G.concurrent)) return;
    for (int i = 0; i < MAXT; i++) if (!join || T->vc[i] > s->vc[i]) s->vc[i] = T->vc[i];
    T->vc[T->id]++;
}
struct RaceCell { uintptr_t key; uint32_t w[MAXT], r[MAXT]; uint8_t wm[MAXT], rm[MAXT]; };
static RaceCell* race_cell(uintptr_t g, bool make)
{
    RaceCell* tab = (RaceCell*) RACE;
    uint64_t h = (g * 0x9e3779b97f4a7c15ull) >> 44;
    for (size_t i = 0; i < 64; i++)
    {
        RaceCell* c = &tab[(h + i) & (RACE_N - 1)];
        if (c->key == g) return c;
        if (!c->key) { if (!make) return nullptr; c->key = g; return c; }
    }
    return nullptr; // table crowded: stop tracking this granule
}
static void describe(uintptr_t a, char* out, size_t cap);
static void race_access(uintptr_t a, size_t n, bool write)
{
    Task* me = T; int id = me->id;
    g_res->races_checked++;
    uintptr_t e = a + n;
    for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; g++)
    {
        RaceCell* c = race_cell(g + 1, true);
        if (!c) continue;
        uint8_t m = 0xff;
        uintptr_t lo = g << 3;
        if (a > lo) m &= (uint8_t) (0xff << (a - lo));
        if (e < lo + 8) m &= (uint8_t) (0xff >> (lo + 8 - e));
        for (int t = 0; t < G.ntasks; t++)
        {
            if (t == id) continue;
            bool bad = (c->w[t] > me->vc[t] && (c->wm[t] & m)) || (write && c->r[t] > me->vc[t] && (c->rm[t] & m));
            if (bad)
            {
                char d[200]; describe(a, d, sizeof d);
                rt_fail("data-race", "task %d (op %d %s) %s %zu bytes of %s that task %d (op %d %s) accesses concurrently",
                        id, me->cur_op, me->cur_name ? me->cur_name : "", write ? "writes" : "reads", n, d, t, G.tasks[t].cur_op, G.tasks[t].cur_name ? G.tasks[t].cur_name : "");
            }
        }
        if (write) { if (c->w[id] == me->vc[id]) c->wm[id] |= m; else { c->w[id] = me->vc[id]; c->wm[id] = m; } }
        else       { if (c->r[id] == me->vc[id]) c->rm[id] |= m; else { c->r[id] = me->vc[id]; c->rm[id] = m; } }
    }
}
static void race_forget(uintptr_t a, size_t n)
{
    if (!G.concurrent || !G.cfg.race) return;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++)
    {
        RaceCell* c = race_cell(g + 1, false);
        if (c) { memset(c->w, 0, sizeof c->w); memset(c->r, 0, sizeof c->r); memset(c->wm, 0, MAXT); memset(c->rm, 0, MAXT); }
    }
}

// ---------------------------------------------------------------- simulated heap
struct Hdr { uint32_t magic; uint32_t kind; uint64_t size; uint64_t serial; int32_t task, op; uint64_t rounded; Hdr* next; uint64_t sut; uint64_t pad; };
static const uint32_t M_LIVE = 0x11feb10c, M_FREE = 0xdeadb10c;
static const size_t RZ = 192;
static struct { uintptr_t top; Hdr* bins[2048]; long live; uint64_t live_bytes; long serial; Hdr* all_hint; } H;
static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }
static inline uint8_t* shadow(uintptr_t a) { return (uint8_t*) (SHADOW + (a - ARENA)); }

static void fill_block(uint8_t* p, size_t n)
{
    switch (G.cfg.fill)
    {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, 0xa5, n); break;
    case 3: for (size_t i = 0; i < n; i++) p[i] = "\x00\x00\x00\x00\x00\x00\xf0\x7e"[i & 7]; break; // ~2.5e303
    case 4: for (size_t i = 0; i < n; i++) p[i] = "\x01\x00\xc0\x7f\x00\x00\xf8\x7f"[i & 7]; break; // nan
    case 5: for (size_t i = 0; i < n; i++) { static uint64_t v; if ((i & 7) == 0) v = hr(); p[i] = (uint8_t) (v >> ((i & 7) * 8)); } break;
    case 7: for (size_t i = 0; i < n; i++) p[i] = "\x03\x00\x00\x00\x00\x00\x08\x40"[i & 7]; break; // small, plausible
    default: break; // stale
    }
}
static int alloc_should_fail(size_t n)
{
    Task* t = T;
    if (!t || t->fkind == F_NONE) return 0;
    long k = t->fcount++;
    switch (t->fkind)
    {
    case F_NTH:    if (k >= t->fa && k < t->fa + t->fb) { g_res->f_nth++; t->ffired++; return 1; } break;
    case F_CAP:    if ((long) n > t->fa) { g_res->f_cap++; t->ffired++; return 1; } break;
    case F_OUTAGE: g_res->f_outage++; t->ffired++; return 1;
    }
    return 0;
}
static void* sim_alloc(size_t n, int kind, size_t align = 16)
{
    event(true);
    g_res->allocs++;
    if (alloc_should_fail(n)) { G.trace = mixh(G.trace, n * 31 + 7); return nullptr; }
    if (n > (64ull << 20)) { g_res->f_big++; if (T) T->ffired++; return nullptr; }
    size_t r = (n + 15) & ~15ull; if (r == 0) r = 16;
    Hdr* h = nullptr; size_t bin = r >> 4;
    bool reuse = G.cfg.recycle == 1 || (G.cfg.recycle == 2 && (hr() & 1));
    if (align <= 16 && bin < 2048 && reuse && H.bins[bin]) { h = H.bins[bin]; H.bins[bin] = h->next; g_res->m_reused++; }
    else
    {
        uintptr_t p = H.top + RZ;
        if (G.cfg.recycle == 2) p += (hr() & 7) * 16;
        p = (p + sizeof(Hdr) + align - 1) / align * align;
        if (p + r + RZ > ARENA + ARENA_SZ) { g_res->f_big++; if (T) T->ffired++; return nullptr; }
        H.top = p + r;
        h = (Hdr*) (p - sizeof(Hdr));
        h->rounded = r;
    }
    h->magic = M_LIVE; h->kind = kind; h->size = n; h->serial = ++H.serial; h->next = nullptr;
    h->task = T ? T->id : -1; h->op = T ? T->cur_op : -1; h->sut = 1;
    uint8_t* u = (uint8_t*) (h + 1);
    memset(shadow((uintptr_t) u), 1, n);
    if (n & 15 || n == 0) memset(shadow((uintptr_t) u + n), 0, r - n);
    fill_block(u, n); if (G.cfg.fill) g_res->m_dirty++;
    H.live++; H.live_bytes += n;
    G.trace = mixh(G.trace, n * 2 + 1);
    return u;
}
static void describe(uintptr_t a, char* out, size_t cap)
{
    if (in_arena(a))
    {
        // look backwards for a header
        for (uintptr_t p = a & ~15ull; p > ARENA && a - p < (1 << 20); p -= 16)
        {
            Hdr* h = (Hdr*) (p - sizeof(Hdr));
            if ((uintptr_t) h < ARENA) break;
            if ((h->magic == M_LIVE || h->magic == M_FREE) && h->rounded < ARENA_SZ && (uintptr_t) (h + 1) == p)
            {
                snprintf(out, cap, "byte %ld of a %s block of %llu bytes (block %llu, allocated by task %d in op %d)", (long) (a - p), h->magic == M_LIVE ? "live" : "released",
                         (unsigned long long) h->size, (unsigned long long) h->serial, h->task, h->op);
                return;
            }
        }
        snprintf(out, cap, "heap address +0x%lx outside any block", (unsigned long) (a - ARENA));
    }
    else if (a >= (uintptr_t) &__data_start && a < (uintptr_t) &_end) snprintf(out, cap, "a global variable at %p", (void*) a);
    else if (a - STACKS < (MAXT + 1) * 2 * STACK_SZ) snprintf(out, cap, "a stack variable");
    else snprintf(out, cap, "address %p", (void*) a);
}
static void sim_free(void* p, int kind, size_t sz, bool sized)
{
    uintptr_t a = (uintptr_t) p;
    if (t_sut) event(true);
    Hdr* h = (Hdr*) a - 1;
    if ((a & 15) || a < ARENA + sizeof(Hdr) || (h->magic != M_LIVE && h->magic != M_FREE))
    {
        if ((a & 15) == 0 && a >= ARENA + sizeof(Hdr) && *shadow(a) == 1) rt_fail("memory-error", "the bookkeeping before a block was overwritten");
        char d[200]; describe(a, d, sizeof d);
        rt_fail("memory-error", "release of an address that was never allocated: %s", d);
    }
    if (h->magic == M_FREE) rt_fail("memory-error", "block of %llu bytes (block %llu) released twice", (unsigned long long) h->size, (unsigned long long) h->serial);
    if ((int) h->kind != kind) rt_fail("memory-error", "block allocated with one family and released with another (%d, %d)", (int) h->kind, kind);
    if (sized && sz != h->size) rt_fail("memory-error", "block of %llu bytes released as %zu bytes", (unsigned long long) h->size, sz);
    h->magic = M_FREE;
    H.live--; H.live_bytes -= h->size; g_res->frees++;
    G.trace = mixh(G.trace, h->size * 2);
    memset(shadow(a), 2, h->size);
    race_forget(a, h->size ? h->size : 1);
    if (G.cfg.scribble) { memset(p, 0xDD, h->size); g_res->m_scribbled++; }
    size_t bin = h->rounded >> 4;
    if (G.cfg.recycle && bin < 2048) { h->next = H.bins[bin]; H.bins[bin] = h; }
}
long rt_live_blocks() { return H.live; }
uint64_t rt_live_bytes() { return H.live_bytes; }
long rt_serial() { return H.serial; }
void rt_describe_live(char* out, size_t cap, long above)
{
    size_t n = 0; out[0] = 0; int shown = 0;
    for (uintptr_t p = ARENA; p < H.top && shown < 3; p += 16)
    {
        Hdr* h = (Hdr*) p;
        if (h->magic == M_LIVE && *shadow(p + sizeof(Hdr)) == 1 && (long) h->serial > above)
        {
            n += snprintf(out + n, cap - n, "%s%llu bytes from op %d", shown ? ", " : "", (unsigned long long) h->size, h->op);
            shown++;
        }
    }
}
uint64_t rt_steps() { return G.steps; }

static inline void check_mem(uintptr_t a, size_t n, bool write)
{
    if (n == 0) return;
    const uint8_t* s = shadow(a);
    bool bad = a + n > ARENA + ARENA_SZ;
    if (!bad)
    {
        if (n == 8) { uint64_t v; memcpy(&v, s, 8); bad = v != 0x0101010101010101ull; }
        else for (size_t i = 0; i < n; i++) if (s[i] != 1) { bad = true; s += i; a += i; break; }
    }
    if (bad)
    {
        char d[256]; describe(a, d, sizeof d);
        rt_fail("memory-error", "%s of %zu bytes outside live storage: %s", write ? "write" : "read", n, d);
    }
}
static inline void access_(uintptr_t a, size_t n, bool write)
{
    if (!t_sut) return;
    bool arena = in_arena(a);
    if (!G.concurrent || !T) { event(false); if (arena) check_mem(a, n, write); return; }
    bool glob = a >= (uintptr_t) &__data_start && a < (uintptr_t) &_end;
    event(glob);
    if (arena) check_mem(a, n, write);
    bool other_stack = a - STACKS < (MAXT + 1) * 2 * STACK_SZ && !(a - T->stk < STACK_SZ);
    if (G.cfg.race && n && (arena || glob || other_stack)) race_access(a, n, write);
}

// ---------------------------------------------------------------- instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
void __tsan_read##N(void* a) { access_((uintptr_t) a, N, false); } \
void __tsan_write##N(void* a) { access_((uintptr_t) a, N, true); } \
void __tsan_unaligned_read##N(void* a) { access_((uintptr_t) a, N, false); } \
void __tsan_unaligned_write##N(void* a) { access_((uintptr_t) a, N, true); } \
void __tsan_read_write##N(void* a) { access_((uintptr_t) a, N, false); access_((uintptr_t) a, N, true); } \
void __tsan_unaligned_read_write##N(void* a) { access_((uintptr_t) a, N, false); access_((uintptr_t) a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void*) { access_((uintptr_t) a, 8, true); }
void __tsan_vptr_read(void** a) { access_((uintptr_t) a, 8, false); }
void __tsan_read_range(void* a, unsigned long n) { access_((uintptr_t) a, n, false); }
void __tsan_write_range(void* a, unsigned long n) { access_((uintptr_t) a, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access_((uintptr_t) s, n, false); access_((uintptr_t) d, n, true); } return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access_((uintptr_t) s, n, false); access_((uintptr_t) d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access_((uintptr_t) d, n, true); return memset(d, c, n); }

static inline void at_begin(const void* a, size_t n, bool write) { if (!t_sut) return; event(true); if (in_arena((uintptr_t) a)) check_mem((uintptr_t) a, n, write); G.trace = mixh(G.trace, 77); }
static inline void at_acq(const volatile void* a, int mo) { if (t_sut && G.concurrent && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) hb_acquire(sync_of((const void*) a)); }
static inline void at_rel(const volatile void* a, int mo, bool rmw) { if (t_sut && G.concurrent && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) hb_release(sync_of((const void*) a), rmw); }
#define AT(B, TY) \
TY __tsan_atomic##B##_load(const volatile TY* a, int mo) { at_begin((const void*) a, B / 8, false); at_acq(a, mo); return *a; } \
void __tsan_atomic##B##_store(volatile TY* a, TY v, int mo) { at_begin((const void*) a, B / 8, true); at_rel(a, mo, false); *a = v; } \
TY __tsan_atomic##B##_exchange(volatile TY* a, TY v, int mo) { at_begin((const void*) a, B / 8, true); at_acq(a, mo); at_rel(a, mo, true); TY o = *a; *a = v; return o; } \
TY __tsan_atomic##B##_fetch_add(volatile TY* a, TY v, int mo) { at_begin((const void*) a, B / 8, true); at_acq(a, mo); at_rel(a, mo, true); TY o = *a; *a = o + v; return o; } \
TY __tsan_atomic##B##_fetch_sub(volatile TY* a, TY v, int mo) { at_begin((const void*) a, B / 8, true); at_acq(a, mo); at_rel(a, mo, true); TY o = *a; *a = o - v; return o; } \
TY __tsan_atomic##B##_fetch_and(volatile TY* a, TY v, int mo) { at_begin((const void*) a, B / 8, true); at_acq(a, mo); at_rel(a, mo, true); TY o = *a; *a = o & v; return o; } \
TY __tsan_atomic##B##_fetch_or(volatile TY* a, TY v, int mo) { at_begin((const void*) a, B / 8, true); at_acq(a, mo); at_rel(a, mo, true); TY o = *a; *a = o | v; return o; } \
TY __tsan_atomic##B##_fetch_xor(volatile TY* a, TY v, int mo) { at_begin((const void*) a, B / 8, true); at_acq(a, mo); at_rel(a, mo, true); TY o = *a; *a = o ^ v; return o; } \
TY __tsan_atomic##B##_fetch_nand(volatile TY* a, TY v, int mo) { at_begin((const void*) a, B / 8, true); at_acq(a, mo); at_rel(a, mo, true); TY o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY* a, TY* e, TY v, int mo, int) { at_begin((const void*) a, B / 8, true); at_acq(a, mo); TY o = *a; if (o == *e) { at_rel(a, mo, true); *a = v; return 1; } *e = o; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY* a, TY* e, TY v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo); } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a, TY e, TY v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
AT(128, __int128)
void __tsan_atomic_thread_fence(int) { if (t_sut) event(true); }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- static initialisation guards
int __wrap___cxa_guard_acquire(uint64_t* g)
{
    uint8_t* b = (uint8_t*) g;
    if (!t_sut || !G.concurrent || !T) { if (b[0]) return 0; b[1] = 1; return 1; }
    for (;;)
    {
        event(true);
        if (b[0]) { hb_acquire(sync_of(g)); return 0; }
        if (!b[1]) { b[1] = 1; hb_acquire(sync_of(g)); G.trace = mixh(G.trace, 101); return 1; } // after an initialisation that was given up
        block_on(g);
    }
}
void __wrap___cxa_guard_release(uint64_t* g)
{
    uint8_t* b = (uint8_t*) g;
    if (t_sut && G.concurrent && T) { hb_release(sync_of(g)); }
    b[0] = 1; b[1] = 0;
    if (t_sut && G.concurrent && T) { wake_waiters(g); event(true); }
}
void __wrap___cxa_guard_abort(uint64_t* g)
{
    uint8_t* b = (uint8_t*) g; b[1] = 0;
    if (t_sut && G.concurrent && T) { hb_release(sync_of(g)); wake_waiters(g); event(true); }
}
// ---------------------------------------------------------------- locks
#define MANAGED (t_sut && G.concurrent && T)
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!MANAGED) return __real_pthread_mutex_lock(m);
    event(true);
    SyncObj* s = sync_of(m);
    while (s->locked) { if (s->owner == T->id) rt_fail("deadlock", "a lock is taken twice by one task"); block_on(m); }
    s->locked = 1; s->owner = T->id; hb_acquire(s); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!MANAGED) return __real_pthread_mutex_trylock(m);
    event(true);
    SyncObj* s = sync_of(m);
    if (s->locked) return EBUSY;
    s->locked = 1; s->owner = T->id; hb_acquire(s); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!MANAGED) return __real_pthread_mutex_unlock(m);
    SyncObj* s = sync_of(m);
    hb_release(s); s->locked = 0; wake_waiters(m); event(true); return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!MANAGED) return __real_pthread_rwlock_rdlock(m);
    event(true); SyncObj* s = sync_of(m);
    while (s->locked) block_on(m);
    s->readers++; hb_acquire(s); return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!MANAGED) return __real_pthread_rwlock_wrlock(m);
    event(true); SyncObj* s = sync_of(m);
    while (s->locked || s->readers) block_on(m);
    s->locked = 1; s->owner = T->id; hb_acquire(s); return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!MANAGED) return __real_pthread_rwlock_unlock(m);
    SyncObj* s = sync_of(m);
    hb_release(s); if (s->locked) s->locked = 0; else s->readers--;
    wake_waiters(m); event(true); return 0;
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
    if (!MANAGED) return __real_pthread_once(o, f);
    SyncObj* s = sync_of(o);
    for (;;)
    {
        event(true);
        if (s->readers == 2) { hb_acquire(s); return 0; }
        if (s->readers == 0) break;
        block_on(o);
    }
    s->readers = 1;
    f();
    hb_release(s); s->readers = 2; wake_waiters(o);
    return 0;
}
// ---------------------------------------------------------------- allocation entry points
void* __wrap_malloc(size_t n) { if (!t_sut) return __real_malloc(n); return sim_alloc(n, 1); }
void* __wrap_calloc(size_t a, size_t b)
{
    if (!t_sut) return __real_calloc(a, b);
    if (b && a > SIZE_MAX / b) return nullptr;
    void* p = sim_alloc(a * b, 1); if (p) memset(p, 0, a * b); return p;
}
void __wrap_free(void* p) { if (!p) return; if (in_arena((uintptr_t) p)) sim_free(p, 1, 0, false); else __real_free(p); }
void* __wrap_realloc(void* p, size_t n)
{
    if (p ? !in_arena((uintptr_t) p) : !t_sut) return __real_realloc(p, n);
    if (!p) return sim_alloc(n, 1);
    Hdr* h = (Hdr*) p - 1;
    if (h->magic != M_LIVE) rt_fail("memory-error", "realloc of a released block");
    if (n == 0) { sim_free(p, 1, 0, false); return nullptr; }
    void* q = sim_alloc(n, 1);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    sim_free(p, 1, 0, false);
    return q;
}
void __wrap_abort() { if (G.child) die(ST_ABORT, 0, "abort", "the process aborted"); __real_abort(); __builtin_unreachable(); }
void __wrap_exit(int c) { if (G.child) { die(ST_EXIT, c, "exit", "the process exited"); } __real_exit(c); __builtin_unreachable(); }
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char*)
{
    char b[300]; snprintf(b, sizeof b, "assertion %s at %s:%u", e, f, l);
    if (G.child) die(ST_ABORT, 0, "abort", b);
    fprintf(stderr, "%s\n", b); _exit(3);
}
// ---------------------------------------------------------------- clocks
time_t __wrap_time(time_t* p)
{
    if (!t_sut) return __real_time(p);
    event(true); g_res->clock_reads++;
    int64_t w = rt_wall(); time_t t = (time_t) (w / 1000000000 - (w % 1000000000 < 0));
    if (p) *p = t; return t;
}
int __wrap_clock_gettime(clockid_t c, timespec* ts)
{
    if (!t_sut) return __real_clock_gettime(c, ts);
    event(true); g_res->clock_reads++;
    int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? rt_wall() : rt_mono();
    ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
    return 0;
}
int __wrap_gettimeofday(timeval* tv, void* tz)
{
    if (!t_sut) return __real_gettimeofday(tv, tz);
    timespec ts; __wrap_clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
// clock(): processor time advances more slowly than elapsed time
clock_t __wrap_clock() { if (!t_sut) return 0; event(true); g_res->clock_reads++; return (clock_t) (rt_mono() / 1000 / 50); }
static tm g_tm_static;
static tm* static_tm(const tm& v)
{
    access_((uintptr_t) &g_tm_static, sizeof g_tm_static, true);
    g_tm_static = v;
    event(true);
    return &g_tm_static;
}
tm* __wrap_localtime(const time_t* t) { if (!t_sut) return __real_localtime(t); tm v; __real_localtime_r(t, &v); return static_tm(v); }
tm* __wrap_gmtime(const time_t* t) { if (!t_sut) return __real_gmtime(t); tm v; gmtime_r(t, &v); return static_tm(v); }
tm* __wrap_localtime_r(const time_t* t, tm* r) { if (t_sut) event(true); return __real_localtime_r(t, r); }
// process-wide C generator: hidden shared state
static unsigned g_crand = 1;
int  __wrap_rand() { if (!t_sut) return __real_rand(); access_((uintptr_t) &g_crand, 4, false); g_crand = g_crand * 1103515245u + 12345u; return (int) (g_crand >> 1 & 0x7fffffff); }
void __wrap_srand(unsigned s) { if (!t_sut) { __real_srand(s); return; } g_crand = s; }
}

// libstdc++ clocks and entropy, replaced for the whole executable
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
    timespec ts; __wrap_clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
steady_clock::time_point steady_clock::now() noexcept
{
    timespec ts; __wrap_clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
}}
random_device::result_type random_device::_M_getval() { return (result_type) (hr() >> 16); }
}

void rt_clock(int64_t m, int64_t w) { G.mono = m - (int64_t) G.steps; G.wall = w - (int64_t) G.steps; G.nseg = 1; G.wseg[0][0] = w; }
// the clocks move while nobody runs: the monotonic clock forwards, the wall clock anywhere
void rt_advance(int64_t dm, int64_t dw)
{
    if (G.nseg >= 511) rt_internal("too many clock jumps");
    if (G.nseg) G.wseg[G.nseg - 1][1] = rt_wall();
    G.mono += dm; G.wall += dw; g_res->sim_ns += (uint64_t) dm;
    G.wseg[G.nseg++][0] = rt_wall();
}
void rt_stall(long events, int64_t dm, int64_t dw) { Task* t = T ? T : &G.maintask; t->stall_n = events; t->stall_m = dm; t->stall_w = dw; }
bool rt_stall_end() { Task* t = T ? T : &G.maintask; bool p = t->stall_n > 0; t->stall_n = 0; return !p; }
int rt_wall_segments() { return G.nseg; }
void rt_wall_segment(int i, int64_t* a, int64_t* b) { *a = G.wseg[i][0]; *b = i + 1 < G.nseg ? G.wseg[i][1] : rt_wall(); }
int64_t rt_mono() { return G.mono + (int64_t) G.steps; }
int64_t rt_wall() { return G.wall + (int64_t) G.steps; }

// ---------------------------------------------------------------- operator new / delete
static void* op_new(size_t n, bool nothrow, int kind, size_t al = 16)
{
    void* p = t_sut ? sim_alloc(n, kind, al) : (al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1));
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void op_del(void* p, int kind, size_t sz, bool sized) noexcept
{
    if (!p) return;
    if (in_arena((uintptr_t) p)) sim_free(p, kind, sz, sized); else __real_free(p);
}
void* operator new(size_t n) { return op_new(n, false, 2); }
void* operator new[](size_t n) { return op_new(n, false, 3); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, true, 2); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, true, 3); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, false, 2, (size_t) a); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, false, 3, (size_t) a); }
void operator delete(void* p) noexcept { op_del(p, 2, 0, false); }
void operator delete[](void* p) noexcept { op_del(p, 3, 0, false); }
void operator delete(void* p, size_t n) noexcept { op_del(p, 2, n, true); }
void operator delete[](void* p, size_t n) noexcept { op_del(p, 3, n, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_del(p, 2, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_del(p, 3, 0, false); }
void operator delete(void* p, std::align_val_t) noexcept { op_del(p, 2, 0, false); }
void operator delete[](void* p, std::align_val_t) noexcept { op_del(p, 3, 0, false); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { op_del(p, 2, n, true); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { op_del(p, 3, n, true); }

// ---------------------------------------------------------------- control
void rt_sut_enter() { t_sut++; }
void rt_sut_leave() { t_sut--; }
int  rt_sut_suspend() { int k = t_sut; t_sut = 0; return k; }
void rt_sut_resume(int k) { t_sut = k; }
bool rt_in_sut() { return t_sut > 0; }
int  rt_task() { return T ? T->id : -1; }
void rt_count(int i, uint64_t n) { g_res->user_cnt[i] += n; }

__attribute__((noinline)) static void paint(int pat)
{
    volatile char buf[24576];
    if (pat == 256) { for (size_t i = 0; i < sizeof buf; i++) buf[i] = "\x00\x00\x00\x00\x00\x00\xf0\x7e"[i & 7]; }
    else memset((void*) buf, pat, sizeof buf);
    asm volatile("" : : "r"(buf) : "memory");
}
void rt_op_begin(int op, const char* name)
{
    Task* t = T ? T : &G.maintask;
    t->cur_op = op; t->cur_name = name; t->op_steps = 0;
    t->fkind = F_NONE; t->ffired = 0; t->fcount = 0;
    G.trace = mixh(G.trace, 0x1000 + op);
    if (G.cfg.paint >= 0) { paint(G.cfg.paint); g_res->m_painted++; }
    if (T && G.concurrent) { t_sut++; event(true); t_sut--; }
}
void rt_op_end() { Task* t = T ? T : &G.maintask; t->fkind = F_NONE; }
void rt_arm(int kind, long a, long b) { Task* t = T ? T : &G.maintask; t->fkind = kind; t->fa = a; t->fb = b; t->fcount = 0; t->ffired = 0; }
long rt_disarm() { Task* t = T ? T : &G.maintask; t->fkind = F_NONE; long f = t->ffired; t->ffired = 0; return f; }

void rt_obs(int task, int op, const char* s, size_t n)
{
    RtResult* r = g_res;
    if (r->obs_len + n + 12 > OBS_CAP) rt_internal("observation buffer full");
    int32_t h[3] = { task, op, (int32_t) n };
    memcpy(r->obs + r->obs_len, h, 12); memcpy(r->obs + r->obs_len + 12, s, n);
    r->obs_len += 12 + n;
    uint64_t k = mixh(task * 1000003ull + op, n);
    for (size_t i = 0; i < n; i++) k = (k ^ (uint8_t) s[i]) * 0x100000001b3ull;
    G.state += k;                       // order-free
    G.trace = mixh(G.trace, k);
}

static void sigstack()
{
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_size = 64 << 10; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, 0);
}
extern "C" int __real___cxa_thread_atexit(void (*)(void*), void*, void*);
extern "C" int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void* dso)
{
    if (!T || T->id < 0) return __real___cxa_thread_atexit(f, o, dso);
    if (T->ntd == 128) rt_internal("too many thread-local objects");
    T->td[T->ntd].f = f; T->td[T->ntd].o = o; T->ntd++;
    return 0;
}
static void* task_main(void* p)
{
    Task* t = (Task*) p;
    T = t; sigstack();
    take(t);
    t->body(t->id, t->ctx);
    // the thread ends while the scheduler still decides who runs
    t_sut = 1;
    while (t->ntd) { t->ntd--; t->td[t->ntd].f(t->td[t->ntd].o); }
    t_sut = 0;
    t->state = 2;
    G.trace = mixh(G.trace, 0x2000 + t->id);
    Task* n = pick(0, false);
    if (n) { give(n); }
    else
    {
        for (int i = 0; i < G.ntasks; i++) if (G.tasks[i].state == 1) rt_fail("deadlock", "tasks remain blocked after the others finished");
        __atomic_store_n(&G.alldone, 1, __ATOMIC_SEQ_CST); futex_wake(&G.alldone);
    }
    return nullptr;
}
static void* map_at(uintptr_t a, size_t n)
{
    void* p = mmap((void*) a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*) a) { fprintf(stderr, "cannot map simulator memory at %lx: %s\n", (unsigned long) a, strerror(errno)); _exit(3); }
    return p;
}
void rt_global_init()
{
    map_at(ARENA, ARENA_SZ); map_at(SHADOW, ARENA_SZ); map_at(STACKS, (MAXT + 1) * 2 * STACK_SZ);
    map_at(RACE, RACE_N * sizeof(RaceCell)); map_at(SYNCT, SYNC_N * sizeof(SyncObj));
    H.top = ARENA + 4096;
}
void rt_child_init(const RtCfg& c, RtResult* r)
{
    g_res = r; G.child = true; G.cfg = c; G.hrng = c.hseed * 2862933555777941757ull + 3037000493ull; if (!G.hrng) G.hrng = 1;
    G.trace = 0x1234; G.inter = 0x77; G.state = 0; G.steps = 0;
    G.maintask.id = -1; G.maintask.cur_op = -1;
    G.mono = 5000000000ll; G.wall = 1700000000000000000ll;
    g_dead = false;
    sigstack();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU, SIGALRM, SIGTRAP };
    for (int s : sigs) if (!getenv("SIM_NOSIG")) sigaction(s, &sa, 0);
    rlimit rl = { 40, 44 }; setrlimit(RLIMIT_CPU, &rl);
    rlimit rc = { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
    alarm(240);
    std::set_terminate(on_terminate);
}
void rt_run(int n, void (*body)(int, void*), void* ctx, const RtSwitch* sw, int nsw, int first)
{
    if (n > MAXT) rt_internal("too many tasks");
    G.ntasks = n; G.sw = sw; G.nsw = nsw; G.isw = 0; G.alldone = 0;
    G.concurrent = n > 1; next_switch();
    if (!G.concurrent) G.gap = -1;
    if (G.concurrent) { madvise((void*) RACE, RACE_N * sizeof(RaceCell), MADV_DONTNEED); madvise((void*) SYNCT, SYNC_N * sizeof(SyncObj), MADV_DONTNEED); }
    for (int i = 0; i < n; i++)
    {
        Task* t = &G.tasks[i]; memset(t, 0, sizeof *t);
        t->id = i; t->cur_op = -1; t->body = body; t->ctx = ctx; t->stk = STACKS + (2 * i + 1) * STACK_SZ;
        for (int k = 0; k < MAXT; k++) t->vc[k] = 0;
        t->vc[i] = 1;
        if (G.cfg.paint >= 0) memset((void*) (t->stk + STACK_SZ - (64 << 10)), G.cfg.paint & 0xff, 64 << 10);
        pthread_attr_t at; pthread_attr_init(&at);
        if (pthread_attr_setstack(&at, (void*) t->stk, STACK_SZ)) rt_internal("setstack");
        if (pthread_create(&t->th, &at, task_main, t)) rt_internal("pthread_create");
        pthread_attr_destroy(&at);
    }
    give(&G.tasks[(unsigned) first % n]);
    while (!__atomic_load_n(&G.alldone, __ATOMIC_SEQ_CST)) futex_wait(&G.alldone, 0);
    for (int i = 0; i < n; i++) pthread_join(G.tasks[i].th, 0);
    G.concurrent = false; G.gap = -1; G.ntasks = 0;
}
