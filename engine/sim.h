// Deterministic simulation runtime: public interface used by the scenarios.
//
// The runtime (sim.cpp) replaces, at link time, every source of
// nondeterminism the library under test can reach: pthread threads, mutexes,
// condition variables, rwlocks, semaphores, once, futexes, sleeping, clocks,
// memory allocation and (through the -fsanitize=thread instrumentation, whose
// runtime we implement ourselves) every atomic operation and plain memory
// access of the library. Exactly one simulated thread runs at a time; which one
// is decided by the seeded scheduler.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim
{
// ---- choice streams -------------------------------------------------------
// Every decision of a run is one draw from one of these streams. 0 is always
// the benign choice (smallest workload, no context switch, no fault).
enum stream
{
    W = 0, // workload
    S = 1, // schedule
    F = 2, // faults and time
};
// uniform draw from [0,n)
auto wl(uint32_t n) -> uint32_t;
// true with probability num/den (recorded as 0/1)
auto wlp(uint32_t num, uint32_t den) -> bool;
// inclusive range
inline auto wlr(uint32_t lo, uint32_t hi) -> uint32_t
{
    return lo + wl(hi - lo + 1);
}
// a fault decision taken by the harness itself (fault stream)
auto fault_choice(const char* kind, uint32_t num, uint32_t den) -> bool;

// ---- observation ----------------------------------------------------------
auto now() -> uint64_t;       // simulated steady clock, ns
auto self() -> int;           // simulated thread index (0 = main)
auto seq() -> uint64_t;       // global event sequence number
auto step() -> uint64_t;      // scheduler steps so far
void probe(const char* name); // "this condition was reached" counter
void nontrivial(); // the run reached the situation the property is about
void count_fault(const char* name);
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // trace line (only kept when tracing)

// ---- history --------------------------------------------------------------
struct event
{
    uint64_t seq;
    uint64_t time;
    int32_t thread;
    int32_t kind;
    int64_t a, b, c;
};
void ev(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0);
auto history_size() -> size_t;
auto history_at(size_t i) -> const event&;

// ---- harness-side shared cells -------------------------------------------
// Uninstrumented integer cells: reading/writing them is neither a scheduling
// point nor a synchronisation edge.
constexpr int NUM_CELLS = 4096;
auto cell(int i) -> int64_t;
void cell_set(int i, int64_t v);
auto cell_add(int i, int64_t d) -> int64_t; // returns the new value

// ---- harness synchronisation (creates happens-before) ---------------------
void gate_wait(int g, int64_t at_least = 1); // block until gate counter >= at_least
void gate_open(int g, int64_t add = 1);
auto gate_value(int g) -> int64_t;
constexpr int NUM_GATES = 256;
void yield_point(); // explicit scheduling point
// harness-level sleep: blocks the calling simulated thread for ns
void block_for(uint64_t ns);
// burn cpu: advances simulated time while the thread stays on the cpu
void spend(uint64_t ns);

// ---- faults ---------------------------------------------------------------
void arm_alloc_failure(int nth); // nth operator new on this thread from now on throws
auto disarm_alloc_failure() -> bool; // returns true if it fired
void set_fault_mask(uint32_t mask);
auto fault_mask() -> uint32_t;
void allow_steps(uint64_t n); // a run may take that many more
enum fault_bits : uint32_t
{
    fb_spurious = 1,
    fb_timejump = 2,
    fb_late = 4,
    fb_create = 8,
    fb_sysclock = 16,
    fb_idreuse = 32,
    fb_all_benign = fb_spurious | fb_timejump | fb_late | fb_idreuse,
};
auto threads_created() -> int;
auto thread_done(int idx) -> bool;
// blocks and bytes currently allocated with operator new
auto live_blocks() -> int64_t;
auto live_bytes() -> int64_t;
auto calm() -> bool;
// how many processors the machine seems to have
void set_cpus(int n);

// ---- engine switches used by the scenarios --------------------------------
void set_race_detection(bool on);

// ---- scenario registry ----------------------------------------------------
using scenario_fn = void (*)();
struct scenario
{
    const char* name;
    int weight;
    scenario_fn run;   // executed under simulation
    scenario_fn check; // executed afterwards over the recorded history (may be null)
    scenario* next;
};
void register_scenario(scenario* s);
struct scenario_reg
{
    scenario s;
    scenario_reg(const char* n, int w, scenario_fn r, scenario_fn c = nullptr) : s{n, w, r, c, nullptr}
    {
        register_scenario(&s);
    }
};
} // namespace sim

#define SCENARIO(name, weight) \
    static void name##_run();  \
    static sim::scenario_reg name##_reg(#name, weight, &name##_run); \
    static void name##_run()

#define REQUIRE(cond, cls, ...)          \
    do                                   \
    {                                    \
        if(!(cond))                      \
        {                                \
            sim::fail(cls, __VA_ARGS__); \
        }                                \
    } while(0)
