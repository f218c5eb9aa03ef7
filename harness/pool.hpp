// Helpers of the thread pool scenarios: pools whose workers can be told apart
// through the public interface, and jobs that report what happens to them.
#pragma once
#include "blocking.hpp"
#include <algorithm>
#include <map>

using level = tpp::priority::category;

enum : int
{
    E_JOB_CALL = E_USER + 20, // a job, b level, c priority: schedule called
    E_JOB_RET,                // a job: schedule returned
    E_JOB_START,              // a job, b tpp id of the executing thread
    E_JOB_END,                // a job
};

constexpr int C_JOBS = C_USER + 8;        // next job number
constexpr int C_ACTIVE = C_USER + 100;    // + sim thread: jobs on its stack
constexpr int C_BLOCKING = C_USER + 200;  // + sim thread: its job is in a blocking call of the library
constexpr int C_JSTART = CELL_STARTED;    // + job: times started
constexpr int C_JEND = CELL_ENDED;        // + job: times ended
constexpr int C_JRET = CELL_DESTROYED;    // + job: schedule returned
constexpr int MAX_JOBS = 200;

struct pool_shape
{
    std::map<level, size_t> map;
    size_t total = 0;

    // always at least one worker of the lowest level: every job is eligible
    static auto any(uint32_t max_normal, bool levels) -> pool_shape
    {
        pool_shape s;
        s.map[level::normal] = sim::wlr(1, max_normal);
        if(levels)
        {
            auto h = sim::wl(3), c = sim::wl(3);
            if(h)
            {
                s.map[level::high] = h;
            }
            if(c)
            {
                s.map[level::critical] = c;
            }
            if(sim::wl(8) == 7)
            {
                s.map[level::high] = 0; // explicitly none
            }
        }
        for(auto& kv : s.map)
        {
            s.total += kv.second;
        }
        return s;
    }
    auto count(level l) const -> size_t
    {
        auto it = map.find(l);
        return it == map.end() ? 0 : it->second;
    }
};

// the threads that appeared between two looks at the registry
struct worker_set
{
    std::vector<tpp::thread::id> before = tpp::get_all_registered_threads();
    std::vector<tpp::thread::id> ids;
    void look()
    {
        for(auto id : tpp::get_all_registered_threads())
        {
            if(std::find(before.begin(), before.end(), id) == before.end())
            {
                ids.push_back(id);
            }
        }
    }
    auto has(int64_t id) const -> bool
    {
        return std::find(ids.begin(), ids.end(), tpp::thread::id(id)) != ids.end();
    }
};

inline auto new_job() -> int
{
    return int(sim::cell_add(C_JOBS, 1)) - 1;
}
inline auto job_total() -> int
{
    return int(sim::cell(C_JOBS));
}

// marks the time a job spends in a blocking call of the library, during which
// its worker may execute other jobs
struct blocking_section
{
    int me = sim::self();
    int64_t old = sim::cell(C_BLOCKING + me);
    blocking_section()
    {
        sim::cell_set(C_BLOCKING + me, 1);
    }
    ~blocking_section()
    {
        sim::cell_set(C_BLOCKING + me, old);
    }
};

// the frame of one job execution
struct job_frame
{
    int job, me;
    int64_t blocking;
    explicit job_frame(int j) : job(j), me(sim::self()), blocking(sim::cell(C_BLOCKING + me))
    {
        sim::ev(E_JOB_START, job, int64_t(tpp::this_thread::get_id()));
        REQUIRE(sim::cell_add(C_JSTART + job, 1) == 1, "job-repeated", "job %d started again", job);
        REQUIRE(sim::cell(C_ACTIVE + me) == 0 || blocking == 1, "jobs-overlap",
                "job %d started on a worker in the middle of another job", job);
        sim::cell_add(C_ACTIVE + me, 1);
        sim::cell_set(C_BLOCKING + me, 0);
    }
    ~job_frame()
    {
        sim::cell_set(C_BLOCKING + me, blocking);
        sim::cell_add(C_ACTIVE + me, -1);
        sim::cell_add(C_JEND + job, 1);
        sim::ev(E_JOB_END, job);
    }
};

// schedules f as a tracked job
template<typename F>
auto schedule_job(tpp::thread_pool& pool, int job, tpp::priority::group g, F f)
{
    sim::ev(E_JOB_CALL, job, int64_t(g.level), int64_t(g.priority));
    auto fut = pool.schedule(g,
                             [t = tok(job), job, f = std::move(f)]() mutable
                             {
                                 job_frame fr(job);
                                 return f();
                             });
    sim::ev(E_JOB_RET, job);
    sim::cell_set(C_JRET + job, 1);
    return fut;
}

inline auto any_level() -> level
{
    static const level l[] = {level::normal, level::high, level::critical};
    return l[sim::wl(3)];
}
// mostly few different ones, sometimes of any magnitude
inline auto any_priority() -> size_t
{
    static const size_t big[] = {127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, size_t(-1) / 2, size_t(-1) / 2 + 1, size_t(-2), size_t(-1)};
    return sim::wl(3) == 2 ? big[sim::wl(15)] : sim::wl(4);
}
inline auto any_group() -> tpp::priority::group
{
    auto l = any_level();
    return {l, any_priority()};
}
