// Deterministic simulation runtime (see sim.h). Compiled WITHOUT
// instrumentation and without any standard-library templates, so that no
// inline function of the library under test is shared with the runtime.
#include "sim.h"

#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <initializer_list>
#include <new>
#include <typeinfo>
#include <cxxabi.h>

extern "C" char __libc_single_threaded;

#define NOINLINE __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace
{
// ---------------------------------------------------------------------------
// raw system calls (the libc wrapper "syscall" is interposed below)
// ---------------------------------------------------------------------------
inline long raw_syscall(long n, long a1 = 0, long a2 = 0, long a3 = 0, long a4 = 0, long a5 = 0, long a6 = 0)
{
    long ret;
    register long r10 __asm__("r10") = a4;
    register long r8 __asm__("r8") = a5;
    register long r9 __asm__("r9") = a6;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a1), "S"(a2), "d"(a3), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
inline void futex_wait(int* p, int val)
{
    raw_syscall(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, val, 0, 0, 0);
}
inline void futex_wake(int* p)
{
    raw_syscall(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
uint64_t real_mono_ns()
{
    struct timespec ts;
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return uint64_t(ts.tv_sec) * 1000000000ull + uint64_t(ts.tv_nsec);
}

// ---------------------------------------------------------------------------
// limits
// ---------------------------------------------------------------------------
constexpr int MAXT = 96;
constexpr int MAX_ENTRIES = 1 << 17;
constexpr int MAX_EVENTS = 1 << 16;
constexpr int MAX_SYNC = 1 << 19; // of 20 bits
constexpr uint64_t SOFT_STEPS = 30000;
constexpr uint64_t HARD_STEPS = SOFT_STEPS + 150000;
constexpr uint64_t FAIR_RUN = 400;
constexpr uint64_t FAIR_PENALTY = 128;
constexpr uint64_t MAX_PLAIN = 60000000ull;

constexpr uintptr_t ARENA_BASE = 0x200000000000ull;
constexpr size_t ARENA_SIZE = 256ull << 20;
constexpr uintptr_t STATE_BASE = 0x210000000000ull;  // 1 byte per 8 bytes
constexpr uintptr_t SHADOW_BASE = 0x220000000000ull; // cells per 8 bytes

// ---------------------------------------------------------------------------
// result area shared with the zygote
// ---------------------------------------------------------------------------
struct entry
{
    uint32_t idx;
    uint32_t val;
    uint8_t stream;
};
struct named_counter
{
    char name[48];
    uint64_t n;
};
constexpr int MAX_COUNTERS = 192;
struct result_area
{
    int status; // 0 running/none, 1 ok, 2 violation
    char cls[96];
    char msg[6000];
    uint64_t hash;
    uint64_t steps;
    uint64_t switches;
    uint64_t simtime;
    uint64_t nplain;
    int threads;
    int nontrivial; // the scenario reached the situation the property is about
    uint8_t sites[8192]; // code sites at which a preemption happened (bitmap over hashes), kept across runs
    uint32_t nent;
    uint32_t ent_overflow;
    int ncounters;
    named_counter counters[MAX_COUNTERS]; // faults ("fault:") and probes ("probe:")
    entry ent[MAX_ENTRIES];
};
result_area* R = nullptr;

NOINLINE void bump(const char* prefix, const char* name, uint64_t d = 1)
{
    char buf[48];
    size_t k = 0;
    for(; *prefix && k < 46; ++prefix)
        buf[k++] = *prefix;
    for(; *name && k < 47; ++name)
        buf[k++] = *name;
    buf[k] = 0;
    for(int i = 0; i < R->ncounters; ++i)
    {
        if(!strcmp(R->counters[i].name, buf))
        {
            R->counters[i].n += d;
            return;
        }
    }
    if(R->ncounters < MAX_COUNTERS)
    {
        strcpy(R->counters[R->ncounters].name, buf);
        R->counters[R->ncounters].n = d;
        R->ncounters++;
    }
}

// ---------------------------------------------------------------------------
// PRNG
// ---------------------------------------------------------------------------
uint64_t rng_state[4];
uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void rng_seed(uint64_t s)
{
    for(auto& v : rng_state)
        v = splitmix(s);
}
inline uint64_t rotl(uint64_t x, int k)
{
    return (x << k) | (x >> (64 - k));
}
inline uint64_t rnd()
{
    uint64_t* s = rng_state;
    const uint64_t result = rotl(s[1] * 5, 7) * 9;
    const uint64_t t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return result;
}
inline uint32_t rnd_n(uint32_t n)
{
    return n <= 1 ? 0 : uint32_t((__uint128_t(rnd()) * n) >> 64);
}
inline bool rnd_p(uint32_t num, uint32_t den)
{
    return rnd_n(den) < num;
}

// ---------------------------------------------------------------------------
// choice recording / replay
// ---------------------------------------------------------------------------
bool g_replay = false;
bool g_trace = false;
uint32_t stream_idx[3];
entry* rep_ent[3];
uint32_t rep_n[3];
uint32_t rep_cur[3];

inline void record(int st, uint32_t idx, uint32_t v)
{
    if(v == 0)
        return;
    if(R->nent < MAX_ENTRIES)
    {
        entry& e = R->ent[R->nent++];
        e.stream = uint8_t(st);
        e.idx = idx;
        e.val = v;
    }
    else
    {
        R->ent_overflow = 1;
    }
}
inline uint32_t replay_val(int st, uint32_t idx)
{
    while(rep_cur[st] < rep_n[st] && rep_ent[st][rep_cur[st]].idx < idx)
        rep_cur[st]++;
    if(rep_cur[st] < rep_n[st] && rep_ent[st][rep_cur[st]].idx == idx)
        return rep_ent[st][rep_cur[st]].val;
    return 0;
}

// ---------------------------------------------------------------------------
// engine state
// ---------------------------------------------------------------------------
enum tstate
{
    T_RUN,
    T_BLOCK,
    T_DONE
};
enum wkind
{
    WK_NONE,
    WK_MUTEX,
    WK_COND,
    WK_JOIN,
    WK_SLEEP,
    WK_GATE,
    WK_FUTEX,
    WK_ONCE,
    WK_RW,
    WK_SEM
};
const char* wk_name[] = {"none", "mutex", "condvar", "join", "sleep", "gate", "futex", "once", "rwlock", "semaphore"};

struct vclock
{
    uint32_t c[MAXT];
};
struct tls_dtor
{
    void (*fn)(void*);
    void* obj;
};
struct sthread
{
    int idx;
    tstate st;
    int go;
    wkind wk;
    uintptr_t wobj;
    bool timed;
    uint64_t deadline;
    bool signaled;
    bool timedout;
    bool spurious;
    uint64_t wait_seq;
    uint64_t penalty_until;
    int64_t prio;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    pthread_t simid;
    pthread_t realid;
    bool detached;
    bool joined;
    bool id_free;
    uintptr_t stack_lo, stack_hi;
    vclock vc;
    vclock done_vc;
    int alloc_fail; // countdown, 0 = off
    bool alloc_fired;
    int ndtors;
    tls_dtor dtors[32];
    int depth;
    uintptr_t pcs[512];
};
sthread g_thr[MAXT];
int g_nthr = 0;
int g_cur = 0;
bool g_active = false;
uint64_t g_step = 0, g_now = 0, g_seq = 0, g_switches = 0, g_nplain = 0;
int64_t g_rt_offset = 0;
uint64_t g_tick = 100;
uint64_t g_hash = 0;
uint64_t g_run_len = 0;
uint64_t g_wait_seq = 0;
uint64_t g_plain_countdown = 0;
uint32_t g_fault_mask = 0;
uint64_t g_more_steps = 0;
bool g_race = true;
int64_t g_live_blocks = 0;
int64_t g_live_bytes = 0;
pthread_t g_free_ids[MAXT];
int g_nfree_ids = 0;
int g_nfresh_ids = 0;
__thread sthread* t_self __attribute__((tls_model("initial-exec"))) = nullptr;

inline bool in_sim()
{
    return g_active && t_self != nullptr;
}

// harness cells, gates, history
int64_t g_cells[sim::NUM_CELLS];
int64_t g_gates[sim::NUM_GATES];
vclock g_gate_vc[sim::NUM_GATES];
sim::event* g_events = nullptr;
size_t g_nevents = 0;

// sync object records
struct sync_rec
{
    int owner; // mutex / rw writer: thread idx+1, 0 = free
    int count; // recursion / readers / semaphore value
    bool destroyed;
    vclock vc;
};
sync_rec* g_sync = nullptr;
int g_nsync = 1;

// ---------------------------------------------------------------------------
// failure
// ---------------------------------------------------------------------------
[[noreturn]] void die(int code)
{
    raw_syscall(SYS_exit_group, code);
    __builtin_unreachable();
}
void put_stack(char*& p, char* end, sthread& t)
{
    int shown = 0;
    for(int i = t.depth - 1; i >= 0 && shown < 14; --i, ++shown)
    {
        if(i < 512 && p + 24 < end)
            p += snprintf(p, size_t(end - p), " 0x%lx", (unsigned long)t.pcs[i]);
    }
}
void finish_common()
{
    R->hash = g_hash;
    R->steps = g_step;
    R->switches = g_switches;
    R->simtime = g_now;
    R->nplain = g_nplain;
    R->threads = g_nthr;
}
[[noreturn]] void vfail(const char* cls, const char* fmt, va_list ap)
{
    g_active = false;
    if(R->status == 0)
    {
        R->status = 2;
        snprintf(R->cls, sizeof R->cls, "%s", cls);
        char* p = R->msg;
        char* end = R->msg + sizeof R->msg - 1;
        p += vsnprintf(p, size_t(end - p), fmt, ap);
        if(p > end)
            p = end;
        for(int i = 0; i < g_nthr && p + 120 < end; ++i)
        {
            sthread& t = g_thr[i];
            p += snprintf(p,
                          size_t(end - p),
                          "\n  T%d%s %s",
                          i,
                          i == g_cur ? "*" : "",
                          t.st == T_DONE ? "done" : (t.st == T_RUN ? "runnable" : "blocked"));
            if(t.st == T_BLOCK)
            {
                p += snprintf(p, size_t(end - p), "(%s%s)", wk_name[t.wk], t.timed ? ",timed" : "");
            }
            if(t.st != T_DONE)
            {
                p += snprintf(p, size_t(end - p), " at");
                put_stack(p, end, t);
            }
        }
        finish_common();
    }
    die(42);
}
[[noreturn]] void ifail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void ifail(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfail(cls, fmt, ap);
}

inline void hash_mix(uint64_t v)
{
    g_hash ^= v + 0x9e3779b97f4a7c15ull + (g_hash << 6) + (g_hash >> 2);
    g_hash *= 0x100000001b3ull;
}

// ---------------------------------------------------------------------------
// scheduler
// ---------------------------------------------------------------------------
enum ykind
{
    Y_LOCK,
    Y_UNLOCK,
    Y_COND,
    Y_SIGNAL,
    Y_ATOMIC,
    Y_CREATE,
    Y_JOIN,
    Y_SLEEP,
    Y_CLOCK,
    Y_PLAIN,
    Y_HARNESS,
    Y_EXIT,
    Y_BLOCK
};
const char* y_name[] = {"lock", "unlock", "condwait", "signal", "atomic", "create", "join", "sleep", "clock", "plain",
                        "harness", "exit", "block"};

struct strategy_t
{
    int mode; // 0 random walk, 1 pct, 2 sticky, 3 biased, 4 starve
    uint32_t den;
    uint32_t kindmask;
    int nchange;
    uint64_t change[12];
    int victim;
    uint64_t victim_until;
    uint32_t plain_mean; // 0 = off
    uint32_t jump_den;   // 0 = off
    uint32_t spur_den;   // 0 = off
    uint32_t late_den;
    uint32_t create_den;
    uint32_t idreuse_den;
    uint32_t sys_den;
} strat;
int64_t g_low_prio = -1;

void strategy_init()
{
    // Only the resulting decisions are recorded, never these parameters.
    strat.mode = int(rnd_n(8));
    static const uint32_t dens[] = {2, 3, 6, 12, 24, 60, 150};
    strat.den = dens[rnd_n(7)];
    switch(rnd_n(4))
    {
        case 0:
            strat.kindmask = ~0u;
            break;
        case 1:
            strat.kindmask = ~(1u << Y_ATOMIC);
            break;
        case 2:
            strat.kindmask = (1u << Y_UNLOCK) | (1u << Y_SIGNAL) | (1u << Y_ATOMIC) | (1u << Y_HARNESS) | (1u << Y_PLAIN);
            break;
        default:
            strat.kindmask = ~0u;
            break;
    }
    switch(strat.mode)
    {
        case 0:
        case 5:
            strat.mode = 0;
            break;
        case 1:
        case 6:
        case 7:
            strat.mode = 1;
            break;
        default:
            break;
    }
    static const uint32_t horizons[] = {60, 150, 400, 1000, 2500, 6000};
    uint32_t hz = horizons[rnd_n(6)];
    strat.nchange = int(rnd_n(11));
    for(int i = 0; i < strat.nchange; ++i)
        strat.change[i] = rnd_n(hz);
    strat.victim = int(rnd_n(8));
    strat.victim_until = 200 + rnd_n(6000);
    static const uint32_t plains[] = {0, 0, 0, 30, 150, 700, 3000, 0};
    strat.plain_mean = plains[rnd_n(8)];
    static const uint32_t jumps[] = {0, 0, 40, 150, 600, 2500};
    strat.jump_den = jumps[rnd_n(6)];
    static const uint32_t spurs[] = {0, 0, 60, 250, 1000};
    strat.spur_den = spurs[rnd_n(5)];
    static const uint32_t lates[] = {0, 2, 5};
    strat.late_den = lates[rnd_n(3)];
    static const uint32_t creates[] = {0, 3, 6};
    strat.create_den = creates[rnd_n(3)];
    static const uint32_t idr[] = {0, 2, 1};
    strat.idreuse_den = idr[rnd_n(3)];
    static const uint32_t sysd[] = {0, 200, 1000};
    strat.sys_den = sysd[rnd_n(3)];
}

inline bool expired(const sthread& t)
{
    return t.timed && g_now >= t.deadline;
}
inline bool schedulable(const sthread& t)
{
    return t.st == T_RUN || (t.st == T_BLOCK && expired(t));
}

// candidates in rotation order after `from`, excluding `from` itself
int g_cand[MAXT];
int build_candidates(int from)
{
    int n = 0, npen = 0;
    static int pen[MAXT];
    for(int k = 1; k < g_nthr; ++k)
    {
        int i = from + k;
        if(i >= g_nthr)
            i -= g_nthr;
        sthread& t = g_thr[i];
        if(!schedulable(t))
            continue;
        if(t.penalty_until > g_step)
        {
            pen[npen++] = i;
            continue;
        }
        g_cand[n++] = i;
    }
    if(n == 0)
    {
        for(int k = 0; k < npen; ++k)
            g_cand[n++] = pen[k];
    }
    return n;
}

void activate(int i)
{
    // the thread is about to run: an expired timed wait times out now
    sthread& t = g_thr[i];
    if(t.st == T_BLOCK)
    {
        t.st = T_RUN;
        t.timedout = true;
    }
}

void park(sthread* s)
{
    while(__atomic_load_n(&s->go, __ATOMIC_ACQUIRE) == 0)
        futex_wait(&s->go, 0);
    __atomic_store_n(&s->go, 0, __ATOMIC_RELAXED);
}

void switch_to(int n, bool park_self = true)
{
    sthread* me = t_self;
    activate(n);
    if(n == me->idx)
        return;
    g_switches++;
    g_run_len = 0;
    g_cur = n;
    hash_mix(0x5000 + uint64_t(n));
    if(g_trace)
        printf("%8lu t=%-12lu switch T%d -> T%d\n", (unsigned long)g_step, (unsigned long)g_now, me->idx, n);
    __atomic_store_n(&g_thr[n].go, 1, __ATOMIC_RELEASE);
    futex_wake(&g_thr[n].go);
    if(park_self)
        park(me);
}

uint64_t next_deadline()
{
    uint64_t d = UINT64_MAX;
    for(int i = 0; i < g_nthr; ++i)
        if(g_thr[i].st == T_BLOCK && g_thr[i].timed && g_thr[i].deadline > g_now && g_thr[i].deadline < d)
            d = g_thr[i].deadline;
    return d;
}

// time jumps / spurious wakeups: one draw per scheduling step
enum
{
    FV_NONE,
    FV_1US,
    FV_10US,
    FV_100US,
    FV_1MS,
    FV_10MS,
    FV_100MS,
    FV_DEADLINE,
    FV_BEFORE_DEADLINE,
    FV_SPURIOUS,
    FV_SYSFWD,
    FV_SYSBACK,
    FV_MAX
};
void step_faults()
{
    uint32_t idx = stream_idx[sim::F]++;
    uint32_t v = 0;
    if(g_replay)
    {
        v = replay_val(sim::F, idx);
    }
    else
    {
        if((g_fault_mask & sim::fb_timejump) && strat.jump_den && rnd_n(strat.jump_den) == 0)
        {
            v = 1 + rnd_n(8);
            if(v == FV_DEADLINE || v == FV_BEFORE_DEADLINE)
            {
                if(next_deadline() == UINT64_MAX)
                    v = FV_10US;
            }
        }
        else if((g_fault_mask & sim::fb_spurious) && strat.spur_den && rnd_n(strat.spur_den) == 0)
        {
            v = FV_SPURIOUS;
        }
        else if((g_fault_mask & sim::fb_sysclock) && strat.sys_den && rnd_n(strat.sys_den) == 0)
        {
            v = FV_SYSFWD + rnd_n(2);
        }
    }
    if(v == 0)
        return;
    static const uint64_t jumps[] = {0, 1000, 10000, 100000, 1000000, 10000000, 100000000};
    uint32_t aux = v / FV_MAX; // replayed spurious wakeups carry a victim selector
    v %= FV_MAX;
    if(v == FV_SPURIOUS)
    {
        int w[MAXT], n = 0;
        for(int i = 0; i < g_nthr; ++i)
            if(g_thr[i].st == T_BLOCK && g_thr[i].wk == WK_COND)
                w[n++] = i;
        if(n == 0)
            return; // nobody to wake: not recorded
        if(!g_replay)
            aux = rnd_n(uint32_t(n));
        record(sim::F, idx, v + FV_MAX * aux);
        sthread& t = g_thr[w[aux % uint32_t(n)]];
        t.st = T_RUN;
        t.spurious = true;
        bump("fault:", "spurious_wakeup");
        hash_mix(0x7000 + uint64_t(t.idx));
        return;
    }
    record(sim::F, idx, v);
    uint64_t d = next_deadline();
    if(v <= FV_100MS)
    {
        g_now += jumps[v];
        bump("fault:", "stall_time_jump");
    }
    else if(v == FV_DEADLINE && d != UINT64_MAX)
    {
        g_now = d;
        bump("fault:", "stall_to_deadline");
    }
    else if(v == FV_BEFORE_DEADLINE && d != UINT64_MAX)
    {
        g_now = d - 1;
        bump("fault:", "stall_to_just_before_deadline");
    }
    else if(v == FV_SYSFWD)
    {
        g_rt_offset += 3600ll * 1000000000ll;
        bump("fault:", "system_clock_jump_forward");
    }
    else if(v == FV_SYSBACK)
    {
        g_rt_offset -= 3600ll * 1000000000ll;
        bump("fault:", "system_clock_jump_back");
    }
    hash_mix(0x8000 + v);
}

inline bool g_calm()
{
    return g_step > SOFT_STEPS;
}

// which candidate does the random strategy want? returns 0 = stay / first
uint32_t strategy_pick(int cur, bool can_stay, int n, ykind k)
{
    switch(strat.mode)
    {
        case 1: // PCT
        {
            for(int i = 0; i < strat.nchange; ++i)
                if(strat.change[i] == g_step)
                    g_thr[cur].prio = g_low_prio--;
            int best = -1;
            for(int i = 0; i < n; ++i)
                if(best < 0 || g_thr[g_cand[i]].prio > g_thr[g_cand[best]].prio)
                    best = i;
            if(can_stay)
            {
                if(best < 0 || g_thr[cur].prio >= g_thr[g_cand[best]].prio)
                    return 0;
                return uint32_t(best + 1);
            }
            return uint32_t(best);
        }
        case 4: // starve
        {
            int m[MAXT], c = 0;
            for(int i = 0; i < n; ++i)
                if(!(g_cand[i] == strat.victim && g_step < strat.victim_until))
                    m[c++] = i;
            if(c == 0)
                return can_stay ? 0 : rnd_n(uint32_t(n));
            if(!can_stay)
                return uint32_t(m[rnd_n(uint32_t(c))]);
            bool cur_victim = cur == strat.victim && g_step < strat.victim_until;
            if(cur_victim || rnd_n(strat.den) == 0)
                return uint32_t(m[rnd_n(uint32_t(c))] + 1);
            return 0;
        }
        case 3: // biased towards release points
        {
            if(!can_stay)
                return rnd_n(uint32_t(n));
            bool hot = k == Y_UNLOCK || k == Y_SIGNAL || k == Y_CREATE || k == Y_PLAIN || k == Y_HARNESS;
            if(rnd_n(hot ? 2 : strat.den * 3) == 0)
                return 1 + rnd_n(uint32_t(n));
            return 0;
        }
        case 2: // sticky
        {
            if(!can_stay)
                return rnd_n(uint32_t(n));
            return rnd_n(200) == 0 ? 1 + rnd_n(uint32_t(n)) : 0;
        }
        default: // random walk
        {
            if(!can_stay)
                return rnd_n(uint32_t(n));
            if(((strat.kindmask >> k) & 1u) && rnd_n(strat.den) == 0)
                return 1 + rnd_n(uint32_t(n));
            return 0;
        }
    }
}

void check_caps()
{
    if(UNLIKELY(g_step > HARD_STEPS + g_more_steps))
        ifail("no-progress",
              "scenario not finished after %lu scheduler steps, the last %lu of them fault-free and fairly scheduled",
              (unsigned long)g_step,
              (unsigned long)(HARD_STEPS + g_more_steps - SOFT_STEPS));
}

void yield(ykind k, uint64_t obj)
{
    sthread* me = t_self;
    g_step++;
    g_now += g_tick;
    g_run_len++;
    hash_mix((uint64_t(k) << 32) ^ (uint64_t(me->idx) << 24) ^ obj);
    if(g_trace)
    {
        printf("%8lu t=%-12lu T%d %s #%lu pc", (unsigned long)g_step, (unsigned long)g_now, me->idx, y_name[k], (unsigned long)obj);
        for(int i = me->depth - 1, c = 0; i >= 0 && i < 512 && c < 4; --i, ++c)
            printf(" 0x%lx", (unsigned long)me->pcs[i]);
        printf("\n");
    }
    check_caps();
    if(UNLIKELY(g_calm()))
    {
        if((g_step & 7) == 0)
        {
            int n = build_candidates(me->idx);
            if(n)
                switch_to(g_cand[0]);
        }
        return;
    }
    step_faults();
    if(UNLIKELY(g_run_len > FAIR_RUN))
    {
        int n = build_candidates(me->idx);
        g_run_len = 0;
        if(n)
        {
            me->penalty_until = g_step + FAIR_PENALTY;
            switch_to(g_cand[0]);
        }
        return;
    }
    int n = build_candidates(me->idx);
    if(n == 0)
        return;
    uint32_t idx = stream_idx[sim::S]++;
    uint32_t v = g_replay ? replay_val(sim::S, idx) : strategy_pick(me->idx, true, n, k);
    if(v == 0)
        return;
    v = 1 + (v - 1) % uint32_t(n);
    record(sim::S, idx, v);
    uintptr_t site = me->depth > 0 && me->depth <= 512 ? me->pcs[me->depth - 1] : 0;
    uint32_t sh = uint32_t(((site * 31 + uint64_t(k)) * 0x9e3779b97f4a7c15ull) >> 48);
    R->sites[sh >> 3] = uint8_t(R->sites[sh >> 3] | (1u << (sh & 7)));
    switch_to(g_cand[v - 1]);
}

// the current thread is blocked (or done): run somebody else
void reschedule(bool park_self)
{
    sthread* me = t_self;
    g_step++;
    g_now += g_tick;
    check_caps();
    for(;;)
    {
        int n = build_candidates(me->idx);
        // an already expired own deadline makes ourselves schedulable again
        bool self_ok = schedulable(*me);
        if(n == 0 && self_ok)
        {
            activate(me->idx);
            return;
        }
        if(n == 0)
        {
            uint64_t d = next_deadline();
            if(d == UINT64_MAX)
            {
                ifail("deadlock", "no thread can run and no timer is pending");
            }
            uint64_t late = 0;
            if(!g_calm() && (g_fault_mask & sim::fb_late))
            {
                uint32_t idx = stream_idx[sim::F]++;
                uint32_t v = 0;
                if(g_replay)
                    v = replay_val(sim::F, idx);
                else if(strat.late_den && rnd_n(strat.late_den) == 0)
                    v = 1 + rnd_n(4);
                if(v)
                {
                    static const uint64_t lates[] = {0, 500, 20000, 3000000, 60000000};
                    v = 1 + (v - 1) % 4;
                    record(sim::F, idx, v);
                    late = lates[v];
                    bump("fault:", "late_timer");
                }
            }
            g_now = d + late;
            bump("stat:", "idle_time_advance");
            hash_mix(0x9000);
            continue;
        }
        int pick = 0;
        if(!g_calm())
        {
            uint32_t idx = stream_idx[sim::S]++;
            uint32_t v = g_replay ? replay_val(sim::S, idx) : strategy_pick(me->idx, false, n, Y_BLOCK);
            v %= uint32_t(n);
            record(sim::S, idx, v);
            pick = int(v);
        }
        switch_to(g_cand[pick], park_self);
        return;
    }
}

void block_on(wkind wk, uintptr_t obj, bool timed, uint64_t deadline)
{
    sthread* me = t_self;
    me->st = T_BLOCK;
    me->wk = wk;
    me->wobj = obj;
    me->timed = timed;
    me->deadline = deadline;
    me->signaled = false;
    me->timedout = false;
    me->spurious = false;
    me->wait_seq = ++g_wait_seq;
    hash_mix(0x6000 + uint64_t(wk));
    if(g_trace)
    {
        printf("%8lu t=%-12lu T%d blocks on %s\n", (unsigned long)g_step, (unsigned long)g_now, me->idx, wk_name[wk]);
    }
    reschedule(true);
    me->wk = WK_NONE;
    me->timed = false;
}

void wake_all(wkind wk, uintptr_t obj)
{
    for(int i = 0; i < g_nthr; ++i)
    {
        sthread& t = g_thr[i];
        if(t.st == T_BLOCK && t.wk == wk && t.wobj == obj)
        {
            t.st = T_RUN;
            t.signaled = true;
        }
    }
}

// ---------------------------------------------------------------------------
// vector clocks
// ---------------------------------------------------------------------------
inline void vc_join(vclock& a, const vclock& b)
{
    for(int i = 0; i < g_nthr; ++i)
        if(b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}
inline void vc_copy(vclock& a, const vclock& b)
{
    memcpy(a.c, b.c, sizeof(uint32_t) * size_t(g_nthr));
}
inline void vc_acquire(const vclock& v)
{
    vc_join(t_self->vc, v);
}
inline void vc_release(vclock& v)
{
    vc_join(v, t_self->vc);
    t_self->vc.c[t_self->idx]++;
}

// atomic address -> vclock
struct aslot
{
    uintptr_t addr;
    int vc;
};
constexpr int ASLOTS = 1 << 15;
aslot* g_aslots = nullptr;
vclock* g_avc = nullptr;
int g_navc = 0;
int g_naslots = 0;
constexpr int MAX_AVC = 1 << 14;
vclock g_fence_vc;

vclock& atomic_vc(uintptr_t a)
{
    uint32_t h = uint32_t((a >> 2) ^ ((a >> 24) * 0x9e37)) & (ASLOTS - 1);
    while(g_aslots[h].addr != 0 && g_aslots[h].addr != a)
        h = (h + 1) & (ASLOTS - 1);
    if(g_aslots[h].addr == 0)
    {
        // table nearly full: further atomics share one clock (extra
        // happens-before edges only, never a false report)
        if(g_naslots >= ASLOTS * 3 / 4)
            return g_avc[MAX_AVC - 1];
        g_naslots++;
        g_aslots[h].addr = a;
        g_aslots[h].vc = g_navc < MAX_AVC - 1 ? g_navc++ : MAX_AVC - 1;
    }
    return g_avc[g_aslots[h].vc];
}

// ---------------------------------------------------------------------------
// heap arena
// ---------------------------------------------------------------------------
uintptr_t g_brk = 0;
inline bool in_arena(uintptr_t a)
{
    return a - ARENA_BASE < ARENA_SIZE;
}
inline uint8_t* state_of(uintptr_t a)
{
    return (uint8_t*)(STATE_BASE + ((a - ARENA_BASE) >> 3));
}
constexpr uint8_t ST_FREED = 0xfd;

void arena_init()
{
    if(g_brk)
        return;
    void* p = mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* q = mmap((void*)STATE_BASE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(p != (void*)ARENA_BASE || q != (void*)STATE_BASE)
        die(70);
    g_brk = ARENA_BASE + 64;
}
void* arena_alloc(size_t n, size_t align = 16)
{
    if(UNLIKELY(!g_brk))
        arena_init();
    if(align < 16)
        align = 16;
    uintptr_t p = (g_brk + 16 + align - 1) & ~(uintptr_t(align) - 1);
    uintptr_t e = p + n;
    if(e + 64 > ARENA_BASE + ARENA_SIZE)
    {
        if(in_sim())
            ifail("memory-exhausted", "simulated heap of %zu bytes exhausted", ARENA_SIZE);
        die(71);
    }
    *(size_t*)(p - 16) = n;
    *(size_t*)(p - 8) = 0xa110cull;
    uint8_t* s = state_of(p);
    size_t full = n >> 3;
    memset(s, 8, full);
    if(n & 7)
        s[full] = uint8_t(n & 7);
    g_brk = (e + 16 + 15) & ~uintptr_t(15);
    return (void*)p;
}
void race_access(uintptr_t a, size_t n, bool w, bool atomic, uintptr_t pc, bool is_free);
NOINLINE void arena_free(void* ptr, bool from_delete, uintptr_t pc)
{
    if(!ptr)
        return;
    uintptr_t p = (uintptr_t)ptr;
    if(!in_arena(p))
        return;
    if(*(size_t*)(p - 8) != 0xa110cull)
    {
        if(in_sim())
            ifail(*(size_t*)(p - 8) == 0xf4eeull ? "double-free" : "bad-free", "free of %p (block state %zx)", ptr, *(size_t*)(p - 8));
        return;
    }
    size_t n = *(size_t*)(p - 16);
    *(size_t*)(p - 8) = 0xf4eeull;
    if(from_delete)
    {
        g_live_blocks--;
        g_live_bytes -= int64_t(n);
    }
    if(in_sim() && g_race && from_delete && n)
        race_access(p, n, true, false, pc, true);
    memset(state_of(p), ST_FREED, (n + 7) >> 3);
}

// ---------------------------------------------------------------------------
// race detector (vector-clock happens-before over shadow cells)
// ---------------------------------------------------------------------------
struct cell_t
{
    uint32_t clk;
    uint8_t tid; // idx + 1
    uint8_t mask;
    uint8_t flags; // 1 write, 2 atomic
    uint8_t pad;
    uint32_t pc;
};
constexpr int NCELL = 4;
struct granule
{
    cell_t c[NCELL];
};
struct hslot
{
    uintptr_t g;
    granule gr;
};
constexpr uint32_t HSLOTS = 1 << 17;
hslot* g_hslots = nullptr;

inline granule* shadow_of(uintptr_t g8)
{
    if(LIKELY(in_arena(g8)))
        return (granule*)(SHADOW_BASE) + ((g8 - ARENA_BASE) >> 3);
    // neighbouring granules stay neighbours, so few shadow pages are touched
    uint32_t h = uint32_t((g8 >> 3) ^ ((g8 >> 24) * 0x9e37)) & (HSLOTS - 1);
    int probes = 0;
    while(g_hslots[h].g != 0 && g_hslots[h].g != g8)
    {
        h = (h + 1) & (HSLOTS - 1);
        if(++probes > 64)
            return nullptr;
    }
    g_hslots[h].g = g8;
    return &g_hslots[h].gr;
}

void report_race(const cell_t& c, uintptr_t a, bool w, bool atomic, uintptr_t pc, bool is_free)
{
    const char* a1 = (c.flags & 2) ? ((c.flags & 1) ? "atomic write" : "atomic read") : ((c.flags & 1) ? "write" : "read");
    const char* a2 = is_free ? "free" : atomic ? (w ? "atomic write" : "atomic read") : (w ? "write" : "read");
    ifail("data-race",
          "unsynchronised %s by T%d at pc 0x%x and %s by T%d at pc 0x%lx of address %p",
          a1,
          int(c.tid) - 1,
          c.pc,
          a2,
          t_self->idx,
          (unsigned long)pc,
          (void*)a);
}

inline void race_granule(uintptr_t g8, uint8_t mask, bool w, bool atomic, uintptr_t pc, bool is_free)
{
    granule* g = shadow_of(g8);
    if(!g)
        return;
    sthread* me = t_self;
    uint8_t tid = uint8_t(me->idx + 1);
    uint8_t fl = uint8_t((w ? 1 : 0) | (atomic ? 2 : 0));
    int slot = -1;
    int covered = -1;
    for(int i = 0; i < NCELL; ++i)
    {
        cell_t& c = g->c[i];
        if(c.tid == 0)
        {
            if(slot < 0)
                slot = i;
            continue;
        }
        if(c.tid == tid)
        {
            if(c.mask == mask && c.flags == fl)
                slot = i;
            continue;
        }
        bool hb = c.clk <= me->vc.c[c.tid - 1];
        if(hb)
        {
            // ordered before us: a write fully covering it may replace it
            if(w && (c.mask & ~mask) == 0)
                covered = i;
            continue;
        }
        if((c.mask & mask) && ((c.flags & 1) || w) && !((c.flags & 2) && atomic))
            report_race(c, g8, w, atomic, pc, is_free);
    }
    if(slot < 0)
        slot = covered >= 0 ? covered : int((g_step + g_nplain) % NCELL);
    cell_t& c = g->c[slot];
    c.tid = tid;
    c.mask = mask;
    c.flags = fl;
    c.clk = me->vc.c[me->idx];
    c.pc = uint32_t(pc);
}

void race_access(uintptr_t a, size_t n, bool w, bool atomic, uintptr_t pc, bool is_free)
{
    uintptr_t e = a + n;
    if(n > 4096)
        e = a + 4096;
    for(uintptr_t g = a & ~uintptr_t(7); g < e; g += 8)
    {
        unsigned lo = g < a ? unsigned(a - g) : 0;
        unsigned hi = e - g < 8 ? unsigned(e - g) : 8;
        uint8_t mask = uint8_t((0xffu >> (8 - hi)) & (0xffu << lo));
        race_granule(g, mask, w, atomic, pc, is_free);
    }
}

NOINLINE void bad_access(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    uint8_t s = *state_of(a);
    ifail(s == ST_FREED ? "use-after-free" : "heap-out-of-bounds",
          "%s of %zu bytes at %p, pc 0x%lx",
          w ? "write" : "read",
          n,
          (void*)a,
          (unsigned long)pc);
}
inline void check_live(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    if(!in_arena(a))
        return;
    for(uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8)
    {
        uint8_t s = *state_of(g);
        if(s == 8)
            continue;
        unsigned hi = a + n - g < 8 ? unsigned(a + n - g) : 8;
        if(s == ST_FREED || s == 0 || s < hi)
            bad_access(g < a ? a : g, n, w, pc);
    }
}

void redraw_plain()
{
    uint32_t idx = stream_idx[sim::S]++;
    uint32_t v = 0;
    if(g_replay)
        v = replay_val(sim::S, idx);
    else if(strat.plain_mean)
        v = 1 + rnd_n(strat.plain_mean * 2);
    record(sim::S, idx, v);
    g_plain_countdown = v;
}

inline void mem_access(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    if(!in_sim())
        return;
    g_nplain++;
    if(UNLIKELY(g_nplain > MAX_PLAIN))
        ifail("no-progress", "more than %lu memory accesses in one run", (unsigned long)MAX_PLAIN);
    check_live(a, n, w, pc);
    if(g_race)
        race_access(a, n, w, false, pc, false);
    if(g_plain_countdown)
    {
        sthread* me = t_self;
        if(a - me->stack_lo < me->stack_hi - me->stack_lo)
            return;
        if(--g_plain_countdown == 0)
        {
            bump("stat:", "plain_access_preemption_points");
            yield(Y_PLAIN, 0);
            redraw_plain();
        }
    }
}

// ---------------------------------------------------------------------------
// sync objects stored in the user's memory
// ---------------------------------------------------------------------------
sync_rec& sync_of(void* obj, const char* what)
{
    check_live((uintptr_t)obj, 8, true, 0);
    uint32_t* w = (uint32_t*)obj;
    if((w[0] >> 20) == 0x515)
    {
        uint32_t i = (w[0] & 0xfffff);
        if(i > 0 && int(i) < g_nsync)
        {
            if(g_sync[i].destroyed)
                ifail("use-after-destroy", "%s used after it was destroyed", what);
            return g_sync[i];
        }
    }
    if(g_nsync >= MAX_SYNC - 1)
        ifail("too-many-sync-objects", "more than %d sync objects", MAX_SYNC);
    int i = g_nsync++;
    w[0] = (0x515u << 20) | uint32_t(i);
    sync_rec& r = g_sync[i];
    r.owner = 0;
    r.count = 0;
    r.destroyed = false;
    return r;
}
inline uint64_t sync_id(sync_rec& r)
{
    return uint64_t(&r - g_sync);
}

uint64_t ts_to_ns(const struct timespec* ts)
{
    if(ts->tv_sec < 0)
        return 0;
    if(uint64_t(ts->tv_sec) > 9000000000ull)
        return UINT64_MAX / 2;
    return uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec);
}
constexpr uint64_t MONO_BASE = 1000ull * 1000000000ull;
constexpr uint64_t REAL_BASE = 1700000000ull * 1000000000ull;
uint64_t clock_read(clockid_t c)
{
    if(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
        return uint64_t(int64_t(REAL_BASE + g_now) + g_rt_offset);
    return MONO_BASE + g_now;
}
uint64_t deadline_of(clockid_t c, const struct timespec* ts)
{
    uint64_t t = ts_to_ns(ts);
    uint64_t cur = clock_read(c);
    if(t <= cur)
        return g_now;
    return g_now + (t - cur);
}

int mutex_lock_impl(pthread_mutex_t* m, bool timed, uint64_t deadline, bool try_only)
{
    sync_rec& r = sync_of(m, "mutex");
    yield(Y_LOCK, sync_id(r));
    int kind = m->__data.__kind & 3;
    sthread* me = t_self;
    for(;;)
    {
        if(r.destroyed)
            ifail("use-after-destroy", "mutex used after it was destroyed");
        if(r.owner == 0)
        {
            r.owner = me->idx + 1;
            r.count = 1;
            vc_acquire(r.vc);
            return 0;
        }
        if(r.owner == me->idx + 1)
        {
            if(kind == PTHREAD_MUTEX_RECURSIVE_NP)
            {
                r.count++;
                return 0;
            }
            if(try_only)
                return EBUSY;
            if(kind == PTHREAD_MUTEX_ERRORCHECK_NP)
                return EDEADLK;
            if(!timed)
                ifail("self-deadlock", "T%d locks a mutex it already holds", me->idx);
        }
        if(try_only)
            return EBUSY;
        block_on(WK_MUTEX, (uintptr_t)&r, timed, deadline);
        if(me->timedout && r.owner != 0)
            return ETIMEDOUT;
    }
}
void mutex_release(sync_rec& r)
{
    vc_release(r.vc);
    r.owner = 0;
    r.count = 0;
    wake_all(WK_MUTEX, (uintptr_t)&r);
}
int mutex_unlock_impl(pthread_mutex_t* m)
{
    sync_rec& r = sync_of(m, "mutex");
    sthread* me = t_self;
    if(r.owner != me->idx + 1)
    {
        if((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP)
            return EPERM;
        ifail("unlock-not-owner", "T%d unlocks a mutex it does not hold", me->idx);
    }
    if(--r.count > 0)
        return 0;
    r.count = 1;
    mutex_release(r);
    yield(Y_UNLOCK, sync_id(r));
    return 0;
}

int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t deadline)
{
    sync_rec& rc = sync_of(c, "condition variable");
    yield(Y_COND, sync_id(rc));
    sync_rec& rm = sync_of(m, "mutex");
    sthread* me = t_self;
    if(rm.owner != me->idx + 1)
        ifail("condwait-not-owner", "T%d waits on a condition variable without holding the mutex", me->idx);
    int cnt = rm.count;
    mutex_release(rm);
    rc.count++;
    block_on(WK_COND, (uintptr_t)&rc, timed, deadline);
    rc.count--;
    int rv = 0;
    if(!me->signaled && !me->spurious && me->timedout)
        rv = ETIMEDOUT;
    // re-acquire
    for(;;)
    {
        if(rm.owner == 0)
        {
            rm.owner = me->idx + 1;
            rm.count = cnt;
            vc_acquire(rm.vc);
            break;
        }
        block_on(WK_MUTEX, (uintptr_t)&rm, false, 0);
    }
    return rv;
}
int cond_signal_impl(pthread_cond_t* c, bool all)
{
    sync_rec& rc = sync_of(c, "condition variable");
    yield(Y_SIGNAL, sync_id(rc));
    if(rc.destroyed)
        ifail("use-after-destroy", "condition variable used after it was destroyed");
    if(all)
    {
        wake_all(WK_COND, (uintptr_t)&rc);
    }
    else
    {
        int w[MAXT], n = 0;
        for(int i = 0; i < g_nthr; ++i)
            if(g_thr[i].st == T_BLOCK && g_thr[i].wk == WK_COND && g_thr[i].wobj == (uintptr_t)&rc)
                w[n++] = i;
        if(n > 0)
        {
            uint32_t v = 0;
            if(n > 1 && !g_calm())
            {
                uint32_t idx = stream_idx[sim::S]++;
                v = g_replay ? replay_val(sim::S, idx) % uint32_t(n) : rnd_n(uint32_t(n));
                record(sim::S, idx, v);
            }
            sthread& t = g_thr[w[v]];
            t.st = T_RUN;
            t.signaled = true;
        }
    }
    yield(Y_SIGNAL, sync_id(rc));
    return 0;
}

// ---------------------------------------------------------------------------
// threads
// ---------------------------------------------------------------------------
using create_fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
create_fn real_create = nullptr;

int find_thread(pthread_t id)
{
    for(int i = g_nthr - 1; i >= 0; --i)
        if(g_thr[i].simid == id && !g_thr[i].id_free)
            return i;
    return -1;
}
void release_id(sthread& t)
{
    if(!t.id_free)
    {
        t.id_free = true;
        if(g_nfree_ids < MAXT)
            g_free_ids[g_nfree_ids++] = t.simid;
    }
}
void thread_body_end(sthread* s)
{
    for(int i = s->ndtors - 1; i >= 0; --i)
    {
        s->ndtors = i;
        s->dtors[i].fn(s->dtors[i].obj);
    }
    yield(Y_EXIT, 0);
    vc_copy(s->done_vc, s->vc);
    s->vc.c[s->idx]++;
    s->st = T_DONE;
    wake_all(WK_JOIN, (uintptr_t)s);
    if(s->detached)
        release_id(*s);
    s->depth = 0;
    reschedule(false);
    // never really exit: the process ends with the run
    for(;;)
        raw_syscall(SYS_pause);
}
void* trampoline(void* p)
{
    sthread* s = (sthread*)p;
    t_self = s;
    char here;
    s->stack_hi = (uintptr_t)&here + 4096;
    s->stack_lo = (uintptr_t)&here - (1u << 20);
    park(s);
    s->ret = s->fn(s->arg);
    thread_body_end(s);
    return nullptr;
}

int create_impl(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    yield(Y_CREATE, 0);
    if((g_fault_mask & sim::fb_create) && !g_calm())
    {
        uint32_t idx = stream_idx[sim::F]++;
        uint32_t v = 0;
        if(g_replay)
            v = replay_val(sim::F, idx) ? 1 : 0;
        else if(strat.create_den && rnd_n(strat.create_den) == 0)
            v = 1;
        record(sim::F, idx, v);
        if(v)
        {
            bump("fault:", "pthread_create_EAGAIN");
            return EAGAIN;
        }
    }
    if(g_nthr >= MAXT)
        ifail("too-many-threads", "more than %d threads in one run", MAXT);
    sthread* me = t_self;
    sthread& t = g_thr[g_nthr];
    memset(&t, 0, sizeof t);
    t.idx = g_nthr;
    t.st = T_RUN;
    t.fn = fn;
    t.arg = arg;
    t.prio = int64_t(rnd() >> 2);
    if(attr)
    {
        int ds = 0;
        if(pthread_attr_getdetachstate(attr, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED)
            t.detached = true;
    }
    pthread_t id = 0;
    if((g_fault_mask & sim::fb_idreuse) && g_nfree_ids > 0 && !g_calm())
    {
        uint32_t idx = stream_idx[sim::F]++;
        uint32_t v = 0;
        if(g_replay)
            v = replay_val(sim::F, idx) ? 1 : 0;
        else if(strat.idreuse_den && rnd_n(strat.idreuse_den) == 0)
            v = 1;
        record(sim::F, idx, v);
        if(v)
        {
            id = g_free_ids[--g_nfree_ids];
            bump("fault:", "native_thread_id_reuse");
        }
    }
    if(!id)
        id = 0x500000000000ul + 0x1000ul * (unsigned long)(++g_nfresh_ids);
    t.simid = id;
    vc_copy(t.vc, me->vc);
    int nidx = g_nthr;
    g_nthr++;
    t.vc.c[nidx] = 1;
    me->vc.c[me->idx]++;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1u << 20);
    int rc = real_create(&t.realid, &a, &trampoline, &t);
    if(rc)
        die(73);
    *out = id;
    hash_mix(0xa000 + uint64_t(nidx));
    yield(Y_CREATE, uint64_t(nidx));
    return 0;
}

// ---------------------------------------------------------------------------
// run setup
// ---------------------------------------------------------------------------
sim::scenario* g_scenarios = nullptr;

void* map_zero(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED)
        die(74);
    return p;
}

void term_handler()
{
    char what[512] = "no active exception";
    if(std::exception_ptr e = std::current_exception())
    {
        std::type_info* ti = abi::__cxa_current_exception_type();
        snprintf(what, sizeof what, "exception type %s", ti ? ti->name() : "?");
        try
        {
            std::rethrow_exception(e);
        }
        catch(const std::exception& ex)
        {
            size_t l = strlen(what);
            snprintf(what + l, sizeof what - l, ": %s", ex.what());
        }
        catch(...)
        {
        }
    }
    ifail("terminate", "std::terminate called: %s", what);
}
void sig_handler(int sig)
{
    if(R && R->status == 0)
    {
        const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS"
                                                 : sig == SIGFPE    ? "SIGFPE"
                                                                    : "SIGILL";
        char cls[32];
        snprintf(cls, sizeof cls, "crash-%s", n);
        ifail(cls, "signal %s raised by the code under test", n);
    }
    die(42);
}

void install_handlers()
{
    static char alt[65536];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = sig_handler;
    sa.sa_flags = SA_ONSTACK;
    for(int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL})
        sigaction(s, &sa, nullptr);
}

// executes one run in the calling process; never returns
[[noreturn]] void run_child(sim::scenario* sc, uint64_t seed)
{
    rng_seed(seed);
    strategy_init();
    g_brk = ARENA_BASE + (32ull << 20); // same heap addresses in every run
    g_live_blocks = 0;
    g_live_bytes = 0;
    std::set_terminate(term_handler);
    install_handlers();
    __libc_single_threaded = 0;
    g_nthr = 1;
    sthread& t = g_thr[0];
    memset(&t, 0, sizeof t);
    t.st = T_RUN;
    t.prio = int64_t(rnd() >> 2);
    t.simid = 0x500000000000ul;
    t.vc.c[0] = 1;
    char here;
    t.stack_hi = (uintptr_t)&here + (1u << 16);
    t.stack_lo = (uintptr_t)&here - (8u << 20);
    t_self = &t;
    g_cur = 0;
    g_fault_mask = sim::fb_all_benign;
    g_more_steps = 0;
    g_hash = 0xcbf29ce484222325ull;
    g_active = true;
    {
        uint32_t idx = stream_idx[sim::F]++;
        uint32_t v = g_replay ? replay_val(sim::F, idx) % 4 : rnd_n(4);
        record(sim::F, idx, v);
        static const uint64_t ticks[] = {100, 20, 1000, 1};
        g_tick = ticks[v];
    }
    redraw_plain();
    sc->run();
    g_active = false;
    if(sc->check)
        sc->check();
    finish_common();
    R->status = 1;
    die(0);
}
} // namespace

// ===========================================================================
// public interface
// ===========================================================================
namespace sim
{
auto wl(uint32_t n) -> uint32_t
{
    uint32_t idx = stream_idx[W]++;
    uint32_t v;
    if(g_replay)
        v = n ? replay_val(W, idx) % n : 0;
    else
        v = rnd_n(n);
    record(W, idx, v);
    return v;
}
auto wlp(uint32_t num, uint32_t den) -> bool
{
    uint32_t idx = stream_idx[W]++;
    uint32_t v;
    if(g_replay)
        v = replay_val(W, idx) ? 1 : 0;
    else
        v = rnd_p(num, den) ? 1 : 0;
    record(W, idx, v);
    return v != 0;
}
auto fault_choice(const char* kind, uint32_t num, uint32_t den) -> bool
{
    uint32_t idx = stream_idx[F]++;
    uint32_t v = g_replay ? (replay_val(F, idx) ? 1 : 0) : (rnd_p(num, den) ? 1 : 0);
    record(F, idx, v);
    if(v)
        bump("fault:", kind);
    return v != 0;
}
auto now() -> uint64_t
{
    return g_now;
}
auto self() -> int
{
    return t_self ? t_self->idx : -1;
}
auto seq() -> uint64_t
{
    return ++g_seq;
}
auto step() -> uint64_t
{
    return g_step;
}
void probe(const char* name)
{
    bump("probe:", name);
}
void nontrivial()
{
    R->nontrivial = 1;
}
void count_fault(const char* name)
{
    bump("fault:", name);
}
void fail(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfail(cls, fmt, ap);
}
void note(const char* fmt, ...)
{
    if(!g_trace)
        return;
    va_list ap;
    va_start(ap, fmt);
    printf("%8lu t=%-12lu T%d    -- ", (unsigned long)g_step, (unsigned long)g_now, self());
    vprintf(fmt, ap);
    printf("\n");
    va_end(ap);
}
void ev(int kind, int64_t a, int64_t b, int64_t c)
{
    if(g_nevents >= MAX_EVENTS)
        ifail("history-overflow", "more than %d history events", MAX_EVENTS);
    event& e = g_events[g_nevents++];
    e.seq = ++g_seq;
    e.time = g_now;
    e.thread = self();
    e.kind = kind;
    e.a = a;
    e.b = b;
    e.c = c;
    hash_mix(0xb000 + uint64_t(kind) * 31 + uint64_t(a) * 7 + uint64_t(b));
    if(g_trace)
        printf("%8lu t=%-12lu T%d    -- event %d (%ld,%ld,%ld)\n", (unsigned long)g_step, (unsigned long)g_now, self(), kind,
               long(a), long(b), long(c));
}
auto history_size() -> size_t
{
    return g_nevents;
}
auto history_at(size_t i) -> const event&
{
    return g_events[i];
}
auto cell(int i) -> int64_t
{
    return g_cells[i];
}
void cell_set(int i, int64_t v)
{
    g_cells[i] = v;
}
auto cell_add(int i, int64_t d) -> int64_t
{
    return g_cells[i] += d;
}
void gate_wait(int g, int64_t at_least)
{
    if(!in_sim())
        return;
    yield(Y_HARNESS, uint64_t(g));
    while(g_gates[g] < at_least)
        block_on(WK_GATE, (uintptr_t)&g_gates[g], false, 0);
    vc_acquire(g_gate_vc[g]);
}
void gate_open(int g, int64_t add)
{
    if(!in_sim())
        return;
    g_gates[g] += add;
    vc_release(g_gate_vc[g]);
    wake_all(WK_GATE, (uintptr_t)&g_gates[g]);
    yield(Y_HARNESS, uint64_t(g));
}
auto gate_value(int g) -> int64_t
{
    return g_gates[g];
}
void yield_point()
{
    if(in_sim())
        yield(Y_HARNESS, 0);
}
void block_for(uint64_t ns)
{
    if(in_sim())
    {
        yield(Y_SLEEP, 0);
        block_on(WK_SLEEP, 0, true, g_now + ns);
    }
}
void spend(uint64_t ns)
{
    g_now += ns;
    if(in_sim())
        yield(Y_HARNESS, 0);
}
void arm_alloc_failure(int nth)
{
    t_self->alloc_fail = nth;
    t_self->alloc_fired = false;
}
auto disarm_alloc_failure() -> bool
{
    t_self->alloc_fail = 0;
    return t_self->alloc_fired;
}
void set_fault_mask(uint32_t m)
{
    g_fault_mask = m;
}
void allow_steps(uint64_t n)
{
    g_more_steps = n;
    // and the time to take them
    struct itimerval it = {{0, 0}, {long(10 + n / 200000), 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(unsigned(8 * it.it_value.tv_sec));
}
auto fault_mask() -> uint32_t
{
    return g_fault_mask;
}
auto threads_created() -> int
{
    return g_nthr;
}
auto thread_done(int idx) -> bool
{
    return g_thr[idx].st == T_DONE;
}
auto live_blocks() -> int64_t
{
    return g_live_blocks;
}
static int g_cpus = 3;
void set_cpus(int n)
{
    g_cpus = n;
}
auto live_bytes() -> int64_t
{
    return g_live_bytes;
}
auto calm() -> bool
{
    return g_calm();
}
void set_race_detection(bool on)
{
    g_race = on;
}
void register_scenario(scenario* s)
{
    scenario** p = &g_scenarios;
    while(*p && strcmp((*p)->name, s->name) < 0)
        p = &(*p)->next;
    s->next = *p;
    *p = s;
}
} // namespace sim

// ===========================================================================
// interposed libc / pthread / libstdc++ entry points
// ===========================================================================
#define CALLER ((uintptr_t)__builtin_return_address(0))
extern "C"
{
void* malloc(size_t n)
{
    return arena_alloc(n);
}
void free(void* p)
{
    arena_free(p, false, CALLER);
}
void* calloc(size_t a, size_t b)
{
    // arena memory is never reused, hence still zero
    return arena_alloc(a * b);
}
void* realloc(void* p, size_t n)
{
    void* q = arena_alloc(n);
    if(p && in_arena((uintptr_t)p))
    {
        size_t o = *(size_t*)((uintptr_t)p - 16);
        memcpy(q, p, o < n ? o : n);
        arena_free(p, false, CALLER);
    }
    return q;
}
void* memalign(size_t al, size_t n)
{
    return arena_alloc(n, al);
}
void* aligned_alloc(size_t al, size_t n)
{
    return arena_alloc(n, al);
}
int posix_memalign(void** out, size_t al, size_t n)
{
    *out = arena_alloc(n, al);
    return 0;
}
size_t malloc_usable_size(void* p)
{
    return p ? *(size_t*)((uintptr_t)p - 16) : 0;
}
}

static void* op_new(size_t n, size_t al, bool nothrow)
{
    if(in_sim() && t_self->alloc_fail)
    {
        if(--t_self->alloc_fail == 0)
        {
            t_self->alloc_fired = true;
            bump("fault:", "allocation_failure");
            if(nothrow)
                return nullptr;
            throw std::bad_alloc();
        }
    }
    g_live_blocks++;
    g_live_bytes += int64_t(n);
    return arena_alloc(n, al);
}
void* operator new(size_t n)
{
    return op_new(n, 16, false);
}
void* operator new[](size_t n)
{
    return op_new(n, 16, false);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    return op_new(n, 16, true);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    return op_new(n, 16, true);
}
void* operator new(size_t n, std::align_val_t a)
{
    return op_new(n, size_t(a), false);
}
void* operator new[](size_t n, std::align_val_t a)
{
    return op_new(n, size_t(a), false);
}
void operator delete(void* p) noexcept
{
    arena_free(p, true, CALLER);
}
void operator delete[](void* p) noexcept
{
    arena_free(p, true, CALLER);
}
void operator delete(void* p, size_t) noexcept
{
    arena_free(p, true, CALLER);
}
void operator delete[](void* p, size_t) noexcept
{
    arena_free(p, true, CALLER);
}
void operator delete(void* p, std::align_val_t) noexcept
{
    arena_free(p, true, CALLER);
}
void operator delete[](void* p, std::align_val_t) noexcept
{
    arena_free(p, true, CALLER);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept
{
    arena_free(p, true, CALLER);
}
void operator delete[](void* p, size_t, std::align_val_t) noexcept
{
    arena_free(p, true, CALLER);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    arena_free(p, true, CALLER);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    arena_free(p, true, CALLER);
}

extern "C"
{
// ---- mutex ----------------------------------------------------------------
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    int kind = PTHREAD_MUTEX_TIMED_NP;
    if(a)
        pthread_mutexattr_gettype(a, &kind);
    memset(m, 0, sizeof *m);
    m->__data.__kind = kind;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if(!in_sim())
        return 0;
    sync_rec& r = sync_of(m, "mutex");
    if(r.owner)
        ifail("destroy-locked-mutex", "mutex destroyed while locked");
    r.destroyed = true;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    return in_sim() ? mutex_lock_impl(m, false, 0, false) : 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    return in_sim() ? mutex_lock_impl(m, false, 0, true) : 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    return in_sim() ? mutex_lock_impl(m, true, deadline_of(CLOCK_REALTIME, ts), false) : 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{
    return in_sim() ? mutex_lock_impl(m, true, deadline_of(c, ts), false) : 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    return in_sim() ? mutex_unlock_impl(m) : 0;
}
// ---- condition variables --------------------------------------------------
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    if(!in_sim())
        return 0;
    sync_rec& r = sync_of(c, "condition variable");
    if(r.count > 0)
    {
        for(int i = 0; i < g_nthr; ++i)
            if(g_thr[i].st == T_BLOCK && g_thr[i].wk == WK_COND && g_thr[i].wobj == (uintptr_t)&r)
                ifail("destroy-busy-condvar", "condition variable destroyed while T%d waits on it", i);
    }
    r.destroyed = true;
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    return in_sim() ? cond_wait_impl(c, m, false, 0) : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    return in_sim() ? cond_wait_impl(c, m, true, deadline_of(CLOCK_REALTIME, ts)) : ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
    return in_sim() ? cond_wait_impl(c, m, true, deadline_of(clk, ts)) : ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c)
{
    return in_sim() ? cond_signal_impl(c, false) : 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    return in_sim() ? cond_signal_impl(c, true) : 0;
}
// ---- rwlock ---------------------------------------------------------------
static int rw_lock(pthread_rwlock_t* rw, bool wr, bool try_only, bool timed, uint64_t dl)
{
    sync_rec& r = sync_of(rw, "rwlock");
    yield(Y_LOCK, sync_id(r));
    sthread* me = t_self;
    for(;;)
    {
        if(wr ? (r.owner == 0 && r.count == 0) : r.owner == 0)
        {
            if(wr)
                r.owner = me->idx + 1;
            else
                r.count++;
            vc_acquire(r.vc);
            return 0;
        }
        if(try_only)
            return EBUSY;
        if(r.owner == me->idx + 1)
            return EDEADLK;
        block_on(WK_RW, (uintptr_t)&r, timed, dl);
        if(me->timedout)
            return ETIMEDOUT;
    }
}
int pthread_rwlock_init(pthread_rwlock_t* rw, const pthread_rwlockattr_t*)
{
    memset(rw, 0, sizeof *rw);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*)
{
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* rw)
{
    return in_sim() ? rw_lock(rw, false, false, false, 0) : 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* rw)
{
    return in_sim() ? rw_lock(rw, true, false, false, 0) : 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* rw)
{
    return in_sim() ? rw_lock(rw, false, true, false, 0) : 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* rw)
{
    return in_sim() ? rw_lock(rw, true, true, false, 0) : 0;
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* rw, const struct timespec* ts)
{
    return in_sim() ? rw_lock(rw, false, false, true, deadline_of(CLOCK_REALTIME, ts)) : 0;
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* rw, const struct timespec* ts)
{
    return in_sim() ? rw_lock(rw, true, false, true, deadline_of(CLOCK_REALTIME, ts)) : 0;
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* rw, clockid_t c, const struct timespec* ts)
{
    return in_sim() ? rw_lock(rw, false, false, true, deadline_of(c, ts)) : 0;
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* rw, clockid_t c, const struct timespec* ts)
{
    return in_sim() ? rw_lock(rw, true, false, true, deadline_of(c, ts)) : 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* rw)
{
    if(!in_sim())
        return 0;
    sync_rec& r = sync_of(rw, "rwlock");
    vc_release(r.vc);
    if(r.owner == t_self->idx + 1)
        r.owner = 0;
    else if(r.count > 0)
        r.count--;
    else
        ifail("unlock-not-owner", "T%d unlocks a rwlock nobody holds", t_self->idx);
    wake_all(WK_RW, (uintptr_t)&r);
    yield(Y_UNLOCK, sync_id(r));
    return 0;
}
// ---- semaphores -----------------------------------------------------------
int sem_init(sem_t* s, int, unsigned v)
{
    memset(s, 0, sizeof *s);
    if(in_sim())
        sync_of(s, "semaphore").count = int(v);
    return 0;
}
int sem_destroy(sem_t*)
{
    return 0;
}
static int sem_take(sem_t* s, bool try_only, bool timed, uint64_t dl)
{
    sync_rec& r = sync_of(s, "semaphore");
    yield(Y_LOCK, sync_id(r));
    while(r.count <= 0)
    {
        if(try_only)
        {
            errno = EAGAIN;
            return -1;
        }
        block_on(WK_SEM, (uintptr_t)&r, timed, dl);
        if(t_self->timedout && r.count <= 0)
        {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    r.count--;
    vc_acquire(r.vc);
    return 0;
}
int sem_wait(sem_t* s)
{
    return in_sim() ? sem_take(s, false, false, 0) : 0;
}
int sem_trywait(sem_t* s)
{
    return in_sim() ? sem_take(s, true, false, 0) : 0;
}
int sem_timedwait(sem_t* s, const struct timespec* ts)
{
    return in_sim() ? sem_take(s, false, true, deadline_of(CLOCK_REALTIME, ts)) : 0;
}
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts)
{
    return in_sim() ? sem_take(s, false, true, deadline_of(c, ts)) : 0;
}
int sem_post(sem_t* s)
{
    if(!in_sim())
        return 0;
    sync_rec& r = sync_of(s, "semaphore");
    r.count++;
    vc_release(r.vc);
    wake_all(WK_SEM, (uintptr_t)&r);
    yield(Y_SIGNAL, sync_id(r));
    return 0;
}
// ---- once -----------------------------------------------------------------
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if(!in_sim())
    {
        if(*o == 0)
        {
            *o = 2;
            fn();
        }
        return 0;
    }
    yield(Y_LOCK, 0);
    while(*o == 1)
        block_on(WK_ONCE, (uintptr_t)o, false, 0);
    if(*o == 2)
    {
        vc_acquire(atomic_vc((uintptr_t)o));
        return 0;
    }
    *o = 1;
    try
    {
        fn();
    }
    catch(...)
    {
        *o = 0;
        wake_all(WK_ONCE, (uintptr_t)o);
        throw;
    }
    *o = 2;
    vc_release(atomic_vc((uintptr_t)o));
    wake_all(WK_ONCE, (uintptr_t)o);
    return 0;
}
int __cxa_guard_acquire(int64_t* g)
{
    char* b = (char*)g;
    if(!in_sim())
    {
        return b[0] ? 0 : 1;
    }
    yield(Y_LOCK, 0);
    while(b[0] == 0 && b[1] == 1)
        block_on(WK_ONCE, (uintptr_t)g, false, 0);
    if(b[0])
    {
        vc_acquire(atomic_vc((uintptr_t)g));
        return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(int64_t* g)
{
    char* b = (char*)g;
    b[0] = 1;
    b[1] = 0;
    if(in_sim())
    {
        vc_release(atomic_vc((uintptr_t)g));
        wake_all(WK_ONCE, (uintptr_t)g);
    }
}
void __cxa_guard_abort(int64_t* g)
{
    ((char*)g)[1] = 0;
    if(in_sim())
        wake_all(WK_ONCE, (uintptr_t)g);
}
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*)
{
    if(in_sim() && t_self->ndtors < 32)
    {
        t_self->dtors[t_self->ndtors].fn = fn;
        t_self->dtors[t_self->ndtors].obj = obj;
        t_self->ndtors++;
    }
    return 0;
}
// ---- threads --------------------------------------------------------------
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if(!in_sim())
        die(75);
    return create_impl(out, attr, fn, arg);
}
pthread_t pthread_self(void)
{
    if(in_sim())
        return t_self->simid;
    return (pthread_t)0x500000000000ul;
}
int pthread_equal(pthread_t a, pthread_t b)
{
    return a == b;
}
int pthread_join(pthread_t id, void** ret)
{
    if(!in_sim())
        return 0;
    yield(Y_JOIN, 0);
    int i = find_thread(id);
    if(i < 0)
        return ESRCH;
    sthread& t = g_thr[i];
    if(i == t_self->idx)
        return EDEADLK;
    if(t.detached || t.joined)
        return EINVAL;
    t.joined = true;
    while(t.st != T_DONE)
        block_on(WK_JOIN, (uintptr_t)&t, false, 0);
    vc_acquire(t.done_vc);
    if(ret)
        *ret = t.ret;
    release_id(t);
    return 0;
}
int pthread_detach(pthread_t id)
{
    if(!in_sim())
        return 0;
    int i = find_thread(id);
    if(i < 0)
        return ESRCH;
    g_thr[i].detached = true;
    if(g_thr[i].st == T_DONE)
        release_id(g_thr[i]);
    yield(Y_JOIN, 1);
    return 0;
}
int sched_yield(void)
{
    if(!in_sim())
        return 0;
    g_step++;
    check_caps();
    g_now += g_tick;
    int n = build_candidates(t_self->idx);
    if(n)
        switch_to(g_cand[0]);
    return 0;
}
int get_nprocs(void)
{
    return sim::g_cpus;
}
// ---- time -----------------------------------------------------------------
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if(!in_sim() && !g_active && t_self == nullptr)
    {
        return (int)raw_syscall(SYS_clock_gettime, c, (long)ts);
    }
    if(in_sim())
        yield(Y_CLOCK, 0);
    uint64_t t = clock_read(c);
    ts->tv_sec = time_t(t / 1000000000ull);
    ts->tv_nsec = long(t % 1000000000ull);
    return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if(t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(const struct timespec* ts, struct timespec*)
{
    if(!in_sim())
        return 0;
    sim::block_for(ts_to_ns(ts));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec*)
{
    if(!in_sim())
        return 0;
    if(flags & TIMER_ABSTIME)
    {
        uint64_t d = deadline_of(c, ts);
        sim::block_for(d - g_now);
    }
    else
        sim::block_for(ts_to_ns(ts));
    return 0;
}
int usleep(useconds_t us)
{
    sim::block_for(uint64_t(us) * 1000);
    return 0;
}
unsigned sleep(unsigned s)
{
    sim::block_for(uint64_t(s) * 1000000000ull);
    return 0;
}
// ---- futex through syscall() ----------------------------------------------
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for(auto& v : a)
        v = va_arg(ap, long);
    va_end(ap);
    if(n == SYS_futex && in_sim())
    {
        int op = int(a[1]) & 127;
        int* p = (int*)a[0];
        if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            yield(Y_LOCK, 0);
            if(*p != int(a[2]))
            {
                errno = EAGAIN;
                return -1;
            }
            bool timed = a[3] != 0;
            uint64_t dl = 0;
            if(timed)
            {
                const struct timespec* ts = (const struct timespec*)a[3];
                if(op == FUTEX_WAIT)
                    dl = g_now + ts_to_ns(ts);
                else
                    dl = deadline_of((int(a[1]) & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            block_on(WK_FUTEX, (uintptr_t)p, timed, dl);
            vc_acquire(atomic_vc((uintptr_t)p));
            if(t_self->timedout && !t_self->signaled)
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            vc_release(atomic_vc((uintptr_t)p));
            wake_all(WK_FUTEX, (uintptr_t)p);
            yield(Y_SIGNAL, 0);
            return 1;
        }
    }
    long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if(r < 0 && r > -4096)
    {
        errno = int(-r);
        return -1;
    }
    return r;
}

// ---- compiler instrumentation ---------------------------------------------
void __tsan_init(void)
{
}
void __tsan_func_entry(void* pc)
{
    sthread* s = t_self;
    if(s)
    {
        if(s->depth < 512)
            s->pcs[s->depth] = (uintptr_t)pc;
        s->depth++;
    }
}
void __tsan_func_exit(void)
{
    sthread* s = t_self;
    if(s && s->depth > 0)
        s->depth--;
}
#define TSAN_RW(n)                                    \
    void __tsan_read##n(void* a)                      \
    {                                                 \
        mem_access((uintptr_t)a, n, false, CALLER);   \
    }                                                 \
    void __tsan_write##n(void* a)                     \
    {                                                 \
        mem_access((uintptr_t)a, n, true, CALLER);    \
    }                                                 \
    void __tsan_unaligned_read##n(void* a)            \
    {                                                 \
        mem_access((uintptr_t)a, n, false, CALLER);   \
    }                                                 \
    void __tsan_unaligned_write##n(void* a)           \
    {                                                 \
        mem_access((uintptr_t)a, n, true, CALLER);    \
    }                                                 \
    void __tsan_volatile_read##n(void* a)             \
    {                                                 \
        mem_access((uintptr_t)a, n, false, CALLER);   \
    }                                                 \
    void __tsan_volatile_write##n(void* a)            \
    {                                                 \
        mem_access((uintptr_t)a, n, true, CALLER);    \
    }
TSAN_RW(1)
TSAN_RW(2)
TSAN_RW(4)
TSAN_RW(8)
TSAN_RW(16)
void __tsan_vptr_update(void** a, void* v)
{
    if(*a != v)
        mem_access((uintptr_t)a, 8, true, CALLER);
}
void __tsan_vptr_read(void** a)
{
    mem_access((uintptr_t)a, 8, false, CALLER);
}
void __tsan_read_range(void* a, size_t n)
{
    if(n)
        mem_access((uintptr_t)a, n, false, CALLER);
}
void __tsan_write_range(void* a, size_t n)
{
    if(n)
        mem_access((uintptr_t)a, n, true, CALLER);
}
}

namespace
{
inline bool is_acq(int mo)
{
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
inline bool is_rel(int mo)
{
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
NOINLINE void atomic_pre(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    check_live(a, n, w, pc);
    yield(Y_ATOMIC, w ? 1 : 0);
    check_live(a, n, w, pc);
    if(g_race)
        race_access(a, n, w, true, pc, false);
}
NOINLINE void atomic_post(uintptr_t a, bool rd, bool wr, int mo)
{
    vclock& v = atomic_vc(a);
    if(rd && is_acq(mo))
        vc_acquire(v);
    if(wr && is_rel(mo))
        vc_release(v);
}
} // namespace

#define ATOMICS(bits, T)                                                                     \
    extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int mo)                     \
    {                                                                                        \
        if(!in_sim())                                                                        \
            return *a;                                                                       \
        atomic_pre((uintptr_t)a, sizeof(T), false, CALLER);                                  \
        T v = *a;                                                                            \
        atomic_post((uintptr_t)a, true, false, mo);                                          \
        return v;                                                                            \
    }                                                                                        \
    extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int mo)                  \
    {                                                                                        \
        if(!in_sim())                                                                        \
        {                                                                                    \
            *a = v;                                                                          \
            return;                                                                          \
        }                                                                                    \
        atomic_pre((uintptr_t)a, sizeof(T), true, CALLER);                                   \
        *a = v;                                                                              \
        atomic_post((uintptr_t)a, false, true, mo);                                          \
    }                                                                                        \
    ATOMIC_RMW(bits, T, exchange, v)                                                         \
    ATOMIC_RMW(bits, T, fetch_add, T(old + v))                                               \
    ATOMIC_RMW(bits, T, fetch_sub, T(old - v))                                               \
    ATOMIC_RMW(bits, T, fetch_and, T(old & v))                                               \
    ATOMIC_RMW(bits, T, fetch_or, T(old | v))                                                \
    ATOMIC_RMW(bits, T, fetch_xor, T(old ^ v))                                               \
    ATOMIC_RMW(bits, T, fetch_nand, T(~(old & v)))                                           \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) \
    {                                                                                        \
        if(in_sim())                                                                         \
            atomic_pre((uintptr_t)a, sizeof(T), true, CALLER);                               \
        T old = *a;                                                                          \
        if(old == *e)                                                                        \
        {                                                                                    \
            *a = v;                                                                          \
            if(in_sim())                                                                     \
                atomic_post((uintptr_t)a, true, true, mo);                                   \
            return 1;                                                                        \
        }                                                                                    \
        *e = old;                                                                            \
        if(in_sim())                                                                         \
            atomic_post((uintptr_t)a, true, false, fmo);                                     \
        return 0;                                                                            \
    }                                                                                        \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) \
    {                                                                                        \
        return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo);              \
    }                                                                                        \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) \
    {                                                                                        \
        __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo);                    \
        return e;                                                                            \
    }
#define ATOMIC_RMW(bits, T, name, expr)                                                      \
    extern "C" T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo)                    \
    {                                                                                        \
        if(in_sim())                                                                         \
            atomic_pre((uintptr_t)a, sizeof(T), true, CALLER);                               \
        T old = *a;                                                                          \
        *a = expr;                                                                           \
        if(in_sim())                                                                         \
            atomic_post((uintptr_t)a, true, true, mo);                                       \
        return old;                                                                          \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int)
{
    if(in_sim())
    {
        yield(Y_ATOMIC, 2);
        vc_acquire(g_fence_vc);
        vc_release(g_fence_vc);
    }
}
extern "C" void __tsan_atomic_signal_fence(int)
{
}

// ===========================================================================
// driver
// ===========================================================================
namespace
{
uint64_t mix_seed(uint64_t seed, uint64_t run, const char* name)
{
    uint64_t h = 0xcbf29ce484222325ull;
    for(; *name; ++name)
        h = (h ^ uint8_t(*name)) * 0x100000001b3ull;
    uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ h;
    splitmix(x);
    x ^= run * 0xd1342543de82ef95ull;
    return splitmix(x);
}

void reset_result()
{
    R->status = 0;
    R->cls[0] = 0;
    R->msg[0] = 0;
    R->hash = R->steps = R->switches = R->simtime = R->nplain = 0;
    R->threads = 0;
    R->nontrivial = 0;
    R->nent = 0;
    R->ent_overflow = 0;
    R->ncounters = 0;
}

// returns true if the run ended ok
bool run_one(sim::scenario* sc, uint64_t seed, unsigned watchdog_s)
{
    // the machine may be busy with other things: what counts is processor time. A
    // run that is stuck without using any must be stuck twice
    for(int attempt = 0;; ++attempt)
    {
        reset_result();
        fflush(stdout);
        pid_t pid = fork();
        if(pid < 0)
        {
            perror("fork");
            _exit(76);
        }
        if(pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            struct itimerval it = {{0, 0}, {long(watchdog_s), 0}};
            setitimer(ITIMER_PROF, &it, nullptr);
            alarm(8 * watchdog_s);
            run_child(sc, seed);
        }
        int st = 0;
        while(waitpid(pid, &st, 0) < 0 && errno == EINTR)
        {
        }
        if(R->status != 0)
            return R->status == 1;
        R->status = 2;
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
        {
            snprintf(R->cls, sizeof R->cls, "hang");
            snprintf(R->msg, sizeof R->msg, "run used at least %u s of processor time and did not end", watchdog_s);
        }
        else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
        {
            if(attempt == 0)
                continue;
            snprintf(R->cls, sizeof R->cls, "hang");
            snprintf(R->msg, sizeof R->msg, "run did not end within %u s of real time or more, twice", 8 * watchdog_s);
        }
        else
        {
            snprintf(R->cls, sizeof R->cls, "engine-error");
            snprintf(R->msg, sizeof R->msg, "child ended abnormally: wait status 0x%x", unsigned(st));
        }
        return false;
    }
}

void json_str(FILE* f, const char* s)
{
    fputc('"', f);
    for(; *s; ++s)
    {
        unsigned char c = (unsigned char)*s;
        if(c == '"' || c == '\\')
            fprintf(f, "\\%c", c);
        else if(c == '\n')
            fputs("\\n", f);
        else if(c < 32)
            fprintf(f, "\\u%04x", c);
        else
            fputc(c, f);
    }
    fputc('"', f);
}

void write_entries(FILE* f)
{
    static const char* nm = "WSF";
    for(int st = 0; st < 3; ++st)
        for(uint32_t i = 0; i < R->nent; ++i)
            if(R->ent[i].stream == st)
                fprintf(f, "%c %u %u\n", nm[st], R->ent[i].idx, R->ent[i].val);
}

sim::scenario* find_scenario(const char* n)
{
    for(sim::scenario* s = g_scenarios; s; s = s->next)
        if(!strcmp(s->name, n))
            return s;
    return nullptr;
}

// replay file: lines "scenario NAME", "seed N" (strategy seed is irrelevant in
// replay), then "W|S|F idx val"
bool load_replay(const char* path, char* scen, size_t n)
{
    FILE* f = fopen(path, "r");
    if(!f)
        return false;
    static entry* store[3];
    for(int i = 0; i < 3; ++i)
    {
        store[i] = (entry*)map_zero(sizeof(entry) * MAX_ENTRIES);
        rep_n[i] = 0;
        rep_cur[i] = 0;
        rep_ent[i] = store[i];
    }
    char line[512];
    scen[0] = 0;
    while(fgets(line, sizeof line, f))
    {
        if(line[0] == '#')
            continue;
        if(!strncmp(line, "scenario ", 9))
        {
            line[strcspn(line, "\r\n")] = 0;
            snprintf(scen, n, "%.100s", line + 9);
            continue;
        }
        char c;
        unsigned i, v;
        if(sscanf(line, "%c %u %u", &c, &i, &v) == 3)
        {
            int st = c == 'W' ? 0 : c == 'S' ? 1 : c == 'F' ? 2 : -1;
            if(st >= 0 && rep_n[st] < MAX_ENTRIES)
            {
                entry& e = rep_ent[st][rep_n[st]++];
                e.idx = i;
                e.val = v;
            }
        }
    }
    fclose(f);
    return scen[0] != 0;
}

struct agg_t
{
    uint64_t runs, steps, switches, simtime, nplain, threads;
    uint64_t scen_runs[256];
    int nc;
    named_counter c[MAX_COUNTERS * 2];
    uint64_t c_runs[MAX_COUNTERS * 2];
} agg;

uint64_t* g_seen = nullptr;
constexpr uint64_t SEEN = 1ull << 22;
uint64_t g_distinct = 0;
bool seen_insert(uint64_t h)
{
    if(h == 0)
        h = 1;
    uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 42;
    if(g_distinct > SEEN * 3 / 4)
        return false;
    while(g_seen[i] != 0 && g_seen[i] != h)
        i = (i + 1) & (SEEN - 1);
    if(g_seen[i] == h)
        return false;
    g_seen[i] = h;
    g_distinct++;
    return true;
}
void aggregate(int scen_idx)
{
    agg.runs++;
    agg.steps += R->steps;
    agg.switches += R->switches;
    agg.simtime += R->simtime;
    agg.nplain += R->nplain;
    agg.threads += uint64_t(R->threads);
    agg.scen_runs[scen_idx]++;
    for(int i = 0; i < R->ncounters; ++i)
    {
        int k = 0;
        for(; k < agg.nc; ++k)
            if(!strcmp(agg.c[k].name, R->counters[i].name))
                break;
        if(k == agg.nc)
        {
            if(agg.nc >= MAX_COUNTERS * 2)
                continue;
            strcpy(agg.c[k].name, R->counters[i].name);
            agg.nc++;
        }
        agg.c[k].n += R->counters[i].n;
        agg.c_runs[k]++;
    }
}
const char* arg_of(int argc, char** argv, const char* name, const char* def)
{
    for(int i = 1; i + 1 < argc; ++i)
        if(!strcmp(argv[i], name))
            return argv[i + 1];
    return def;
}
bool has_flag(int argc, char** argv, const char* name)
{
    for(int i = 1; i < argc; ++i)
        if(!strcmp(argv[i], name))
            return true;
    return false;
}
} // namespace

int main(int argc, char** argv)
{
    int pers = personality(0xffffffff);
    if(pers >= 0 && !(pers & ADDR_NO_RANDOMIZE))
    {
        // same code and stack addresses in every process
        if(personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0)
        {
            if(personality(0xffffffff) & ADDR_NO_RANDOMIZE)
                execv("/proc/self/exe", argv);
        }
    }
    arena_init();
    real_create = (create_fn)dlsym(RTLD_NEXT, "pthread_create");
    R = (result_area*)mmap(nullptr, sizeof(result_area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void* sh = mmap((void*)SHADOW_BASE, ARENA_SIZE / 8 * sizeof(granule), PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(sh != (void*)SHADOW_BASE || R == MAP_FAILED || !real_create)
    {
        fprintf(stderr, "engine: setup failed\n");
        return 77;
    }
    g_hslots = (hslot*)map_zero(sizeof(hslot) * HSLOTS);
    g_aslots = (aslot*)map_zero(sizeof(aslot) * ASLOTS);
    g_avc = (vclock*)map_zero(sizeof(vclock) * MAX_AVC);
    g_sync = (sync_rec*)map_zero(sizeof(sync_rec) * MAX_SYNC);
    g_events = (sim::event*)map_zero(sizeof(sim::event) * MAX_EVENTS);
    g_seen = (uint64_t*)map_zero(sizeof(uint64_t) * SEEN);
    madvise(g_seen, sizeof(uint64_t) * SEEN, MADV_DONTFORK);
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);

    const char* replay = arg_of(argc, argv, "--replay", nullptr);
    unsigned watchdog = unsigned(atoi(arg_of(argc, argv, "--watchdog", "5")));
    if(has_flag(argc, argv, "--list"))
    {
        for(sim::scenario* s = g_scenarios; s; s = s->next)
            printf("%s %d\n", s->name, s->weight);
        return 0;
    }
    if(replay)
    {
        char scen[128];
        if(!load_replay(replay, scen, sizeof scen))
        {
            fprintf(stderr, "cannot read replay file %s\n", replay);
            return 2;
        }
        sim::scenario* sc = find_scenario(scen);
        if(!sc)
        {
            fprintf(stderr, "unknown scenario %s\n", scen);
            return 2;
        }
        g_replay = true;
        g_trace = has_flag(argc, argv, "--trace");
        bool ok = run_one(sc, 1, watchdog);
        printf("RESULT %s class=%s hash=%016lx steps=%lu\n", ok ? "ok" : "violation", ok ? "-" : R->cls,
               (unsigned long)R->hash, (unsigned long)R->steps);
        if(!ok)
            printf("MSG %s\n", R->msg);
        const char* norm = arg_of(argc, argv, "--normalized", nullptr);
        if(norm)
        {
            FILE* f = fopen(norm, "w");
            fprintf(f, "scenario %s\n", scen);
            write_entries(f);
            fclose(f);
        }
        return ok ? 0 : 1;
    }

    // batch replay for the minimiser: a list of files on stdin, one per line
    if(has_flag(argc, argv, "--replay-batch"))
    {
        char path[1024];
        while(fgets(path, sizeof path, stdin))
        {
            path[strcspn(path, "\r\n")] = 0;
            char scen[128];
            if(!load_replay(path, scen, sizeof scen))
            {
                printf("RESULT error\n");
                fflush(stdout);
                continue;
            }
            sim::scenario* sc = find_scenario(scen);
            g_replay = true;
            bool ok = sc ? run_one(sc, 1, watchdog) : true;
            printf("RESULT %s %s %016lx %lu\n", ok ? "ok" : "violation", ok ? "-" : R->cls, (unsigned long)R->hash,
                   (unsigned long)R->steps);
            fflush(stdout);
        }
        return 0;
    }

    // ---- exploration ------------------------------------------------------
    uint64_t seed = strtoull(arg_of(argc, argv, "--seed", "1"), nullptr, 10);
    uint64_t first = strtoull(arg_of(argc, argv, "--first", "0"), nullptr, 10);
    uint64_t stride = strtoull(arg_of(argc, argv, "--stride", "1"), nullptr, 10);
    uint64_t max_runs = strtoull(arg_of(argc, argv, "--max-runs", "1000000000"), nullptr, 10);
    double seconds = atof(arg_of(argc, argv, "--seconds", "10"));
    const char* only = arg_of(argc, argv, "--scenario", nullptr);
    const char* outp = arg_of(argc, argv, "--out", nullptr);
    bool hashes = has_flag(argc, argv, "--hashes");
    bool keep_going = has_flag(argc, argv, "--keep-going");
    const char* cpu = arg_of(argc, argv, "--cpu", nullptr);
    if(cpu)
    {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(atoi(cpu), &cs);
        sched_setaffinity(0, sizeof cs, &cs);
    }
    sim::scenario* list[256];
    int wsum = 0, nlist = 0;
    for(sim::scenario* s = g_scenarios; s && nlist < 256; s = s->next)
    {
        if(only && strcmp(only, s->name))
            continue;
        list[nlist++] = s;
        wsum += s->weight;
    }
    if(!nlist)
    {
        fprintf(stderr, "no scenario\n");
        return 2;
    }
    uint64_t t0 = real_mono_ns();
    uint64_t done = 0;
    int violations = 0;
    FILE* out = outp ? fopen(outp, "w") : stdout;
    char sample_buf[8][400];
    int nsamples = 0;
    uint64_t viol_run = 0;
    for(uint64_t run = first; done < max_runs; run += stride, ++done)
    {
        if(double(real_mono_ns() - t0) > seconds * 1e9)
            break;
        // scenario by weighted rotation over the run number
        uint64_t x = run * 0x9e3779b97f4a7c15ull;
        int w = int(splitmix(x) % uint64_t(wsum));
        int si = 0;
        while(w >= list[si]->weight)
            w -= list[si++]->weight;
        sim::scenario* sc = list[si];
        uint64_t rs = mix_seed(seed, run, sc->name);
        bool ok = run_one(sc, rs, watchdog);
        if(R->nontrivial && R->switches > 0)
            seen_insert(R->hash);
        aggregate(si);
        if(hashes)
            fprintf(out, "H %lu %s %016lx %lu %s\n", (unsigned long)run, sc->name, (unsigned long)R->hash,
                    (unsigned long)R->steps, ok ? "ok" : R->cls);
        if(nsamples < 8 && done % 37 == 0)
        {
            snprintf(sample_buf[nsamples++], 400, "scenario=%s run=%lu steps=%lu switches=%lu threads=%d simulated_us=%lu choices=%u hash=%016lx",
                     sc->name, (unsigned long)run, (unsigned long)R->steps, (unsigned long)R->switches, R->threads,
                     (unsigned long)(R->simtime / 1000), R->nent, (unsigned long)R->hash);
        }
        if(!ok)
        {
            violations++;
            viol_run = run;
            if(!keep_going)
            {
                const char* vp = arg_of(argc, argv, "--violation", nullptr);
                if(vp)
                {
                    FILE* f = fopen(vp, "w");
                    fprintf(f, "# class %s\n# run %lu seed %lu hash %016lx overflow %u\n", R->cls, (unsigned long)run, (unsigned long)seed,
                            (unsigned long)R->hash, R->ent_overflow);
                    fprintf(f, "scenario %s\n", sc->name);
                    write_entries(f);
                    fclose(f);
                }
                done++;
                break;
            }
            else
            {
                fprintf(out, "V %lu %s %s | %.300s\n", (unsigned long)run, sc->name, R->cls, R->msg);
            }
        }
    }
    double wall = double(real_mono_ns() - t0) / 1e9;
    if(!hashes)
    {
        fprintf(out, "{\"runs\":%lu,\"steps\":%lu,\"switches\":%lu,\"simtime_ns\":%lu,\"accesses\":%lu,\"threads\":%lu,\"distinct\":%lu,\"wall\":%.3f,\"violations\":%d,",
                (unsigned long)agg.runs, (unsigned long)agg.steps, (unsigned long)agg.switches, (unsigned long)agg.simtime,
                (unsigned long)agg.nplain, (unsigned long)agg.threads, (unsigned long)g_distinct, wall, violations);
        if(violations && !keep_going)
        {
            fprintf(out, "\"violation\":{\"run\":%lu,\"class\":", (unsigned long)viol_run);
            json_str(out, R->cls);
            fprintf(out, ",\"msg\":");
            json_str(out, R->msg);
            fprintf(out, ",\"hash\":\"%016lx\",\"overflow\":%u},", (unsigned long)R->hash, R->ent_overflow);
        }
        fprintf(out, "\"scenarios\":{");
        for(int i = 0; i < nlist; ++i)
            fprintf(out, "%s\"%s\":%lu", i ? "," : "", list[i]->name, (unsigned long)agg.scen_runs[i]);
        fprintf(out, "},\"counters\":{");
        for(int i = 0; i < agg.nc; ++i)
        {
            fprintf(out, "%s", i ? "," : "");
            json_str(out, agg.c[i].name);
            fprintf(out, ":[%lu,%lu]", (unsigned long)agg.c[i].n, (unsigned long)agg.c_runs[i]);
        }
        fprintf(out, "},\"samples\":[");
        for(int i = 0; i < nsamples; ++i)
        {
            fprintf(out, "%s", i ? "," : "");
            json_str(out, sample_buf[i]);
        }
        fprintf(out, "]}\n");
    }
    if(const char* hf = arg_of(argc, argv, "--hashfile", nullptr))
    {
        FILE* f = fopen(hf, "wb");
        if(f)
        {
            fwrite(R->sites, 1, sizeof R->sites, f);
            for(uint64_t i = 0; i < SEEN; ++i)
                if(g_seen[i])
                    fwrite(&g_seen[i], 8, 1, f);
            fclose(f);
        }
    }
    if(out != stdout)
        fclose(out);
    else
        fflush(out);
    return violations && !keep_going ? 1 : 0;
}
