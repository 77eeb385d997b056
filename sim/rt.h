// Simulator runtime: simulated heap, deterministic scheduler, clocks, fault
// injection and memory/data-race monitors.  See ../DESIGN.md.
#pragma once
#include <stdint.h>
#include <stddef.h>

enum { MAXT = 4 };

enum RunStatus { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_ABORT = 3, ST_EXIT = 4, ST_SIGNAL = 5,
                 ST_TERMINATE = 6, ST_HANG = 7, ST_INTERNAL = 8 };

enum { OBS_CAP = 1 << 20 };

// Filled by the child, read by the parent (shared memory).
struct RtResult
{
    int      status;
    int      code;                 // exit code or signal
    char     kind[48];
    char     msg[512];
    int      cur_task, cur_op;     // where the run stopped
    char     cur_name[48];
    uint64_t steps;                // simulated steps (instrumented accesses)
    uint64_t sim_ns;               // simulated time covered
    uint64_t allocs, frees;
    uint64_t f_nth, f_cap, f_outage, f_big;  // allocation faults that fired, by kind
    uint64_t m_dirty, m_reused, m_scribbled, m_painted; // memory that held something else before
    uint64_t switches;             // forced preemptions that changed the running task
    uint64_t trace_hash;           // determinism witness
    uint64_t inter_hash;           // interleaving measure
    uint64_t state_hash;           // hash of observations
    uint64_t races_checked;
    uint64_t clock_reads, user_cnt[16];
    uint32_t obs_len;
    char     obs[OBS_CAP];
};

struct RtCfg
{
    int fill;        // heap fill on allocation: 0 zero 1 ff 2 a5 3 big double 4 nan 5 random 6 stale
    int recycle;     // 0 fresh addresses, 1 LIFO reuse, 2 mixed
    int scribble;    // overwrite blocks on free
    int paint;       // stack paint pattern byte (-1: none)
    uint64_t hseed;  // heap randomness
    uint64_t budget; // step budget
    int race;        // data race detector on
};

struct RtSwitch { int unit; int gap; int pick; };   // unit 0: steps, 1: shared-state events

extern RtResult* g_res;

void rt_global_init();                      // in the parent, once
void rt_child_init(const RtCfg&, RtResult*);
// Runs bodies 0..n-1 as simulated tasks; returns when all are done.
void rt_run(int n, void (*body)(int, void*), void* ctx, const RtSwitch* sw, int nsw, int first);
[[noreturn]] void rt_fail(const char* kind, const char* fmt, ...);
[[noreturn]] void rt_finish();
[[noreturn]] void rt_internal(const char* fmt, ...);

void rt_sut_enter();
void rt_sut_leave();
bool rt_in_sut();
int  rt_task();

void rt_op_begin(int op, const char* name);
void rt_op_end();

enum { F_NONE = 0, F_NTH = 1, F_CAP = 2, F_OUTAGE = 3 };
void rt_arm(int kind, long a, long b);      // for the calling task
long rt_disarm();                           // number of allocation requests that were failed since rt_arm

void rt_obs(int task, int op, const char* s, size_t n);
void rt_count(int i, uint64_t n = 1);

long     rt_live_blocks();                  // live blocks allocated by code under test
uint64_t rt_live_bytes();
uint64_t rt_steps();
void     rt_describe_live(char* out, size_t cap, long above_serial);
long     rt_serial();

void    rt_clock(int64_t mono_ns, int64_t wall_ns);   // set simulated clocks
void    rt_advance(int64_t dmono, int64_t dwall);     // both clocks jump now
void    rt_stall(long events, int64_t dmono, int64_t dwall); // the calling task stalls after that many events
bool    rt_stall_end();                         // true if the stall happened
int     rt_wall_segments();                     // the wall clock between jumps
void    rt_wall_segment(int i, int64_t* from, int64_t* to);
int64_t rt_mono();
int64_t rt_wall();
void    rt_mix(uint64_t v);                 // into trace hash

struct Sut { Sut() { rt_sut_enter(); } ~Sut() { rt_sut_leave(); } };
int  rt_sut_suspend();
void rt_sut_resume(int);
struct SutOff { int k; SutOff() : k(rt_sut_suspend()) {} ~SutOff() { rt_sut_resume(k); } };
