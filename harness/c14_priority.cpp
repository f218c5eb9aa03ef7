// C14: the pool respects priority and keeps reserved workers free
#include "pool.hpp"
#include "large.hpp"

namespace
{
using fut = tpp::job_future<int>;
struct job_model
{
    int id = 0;
    tpp::priority::group g;
    tpp::job_id handle = 0;
};
auto better(const tpp::priority::group& a, const tpp::priority::group& b) -> bool
{
    return a.level > b.level || (a.level == b.level && a.priority > b.priority);
}
constexpr int G_RUN = 1;       // blockers running
constexpr int G_BLOCK = 60;    // + n: releases blocker n
constexpr int C_WLEVEL = C_USER + 400; // + sim thread: level of the worker, learned

// occupies every worker with a job of the worker's own level: first as many
// normal jobs as there are normal workers, then high, then critical ones.
// Returns the number of blockers; blocker i waits for gate G_BLOCK+i.
auto occupy(tpp::thread_pool& pool, const pool_shape& shape, std::vector<fut>& fs) -> int
{
    int n = 0;
    for(auto l : {level::normal, level::high, level::critical})
    {
        for(size_t i = 0; i < shape.count(l); ++i)
        {
            auto j = new_job();
            auto gate = G_BLOCK + n;
            fs.push_back(schedule_job(pool, j, {l, any_priority()},
                                      [j, l, gate]()
                                      {
                                          sim::cell_set(C_WLEVEL + sim::self(), int64_t(l));
                                          sim::gate_open(G_RUN);
                                          sim::gate_wait(gate);
                                          return j;
                                      }));
            ++n;
            sim::gate_wait(G_RUN, n);
        }
    }
    return n;
}
} // namespace

// jobs of a level never use workers reserved for more important ones
SCENARIO(c14_reserved, 4)
{
    // time passes only when nobody can run
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        auto shape = pool_shape::any(2, true);
        tpp::thread_pool pool(shape.map);
        std::vector<fut> fs;
        int running = 0, extra_total = 0;
        for(auto l : {level::normal, level::high, level::critical})
        {
            // more jobs than workers may take them
            auto extra = sim::wlr(0, 2);
            auto can = int(shape.count(l));
            auto offered = can + int(extra);
            for(int i = 0; i < offered; ++i)
            {
                auto j = new_job();
                fs.push_back(schedule_job(pool, j, {l, any_priority()},
                                          [j]()
                                          {
                                              sim::gate_open(G_RUN);
                                              sim::gate_wait(G_BLOCK);
                                              return j;
                                          }));
            }
            running += can;
            extra_total += int(extra);
            // an idle reserved worker starts them at once ...
            sim::gate_wait(G_RUN, running);
            REQUIRE(sim::now() < HOUR, "late-start", "job did not start at once");
            // ... and when all is quiet no other worker took one
            sim::block_for(1000000000ull);
            REQUIRE(sim::gate_value(G_RUN) == running, "reserved-worker", "%d jobs run, only %d workers may take them",
                    int(sim::gate_value(G_RUN)), running);
        }
        if(running > int(shape.count(level::normal)) || extra_total)
        {
            sim::nontrivial();
        }
        sim::gate_open(G_BLOCK);
        pool.wait_all();
        for(size_t i = 0; i < fs.size(); ++i)
        {
            REQUIRE(fs[i].get() == int(i), "wrong-result", "job %d", int(i));
        }
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// a backlog with changed priorities, released one worker at a time: the exact
// order is known
SCENARIO(c14_order, 6)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        auto shape = pool_shape::any(2, true);
        tpp::thread_pool pool(shape.map);
        std::vector<fut> fs;
        auto blockers = occupy(pool, shape, fs);
        auto n = int(sim::wlr(1, 6));
        std::vector<job_model> jobs;
        std::vector<fut> jf;
        auto from_job = sim::wlp(1, 4);
        (void)from_job;
        for(int i = 0; i < n; ++i)
        {
            job_model m;
            m.id = new_job();
            m.g = any_group();
            auto j = m.id;
            jf.push_back(schedule_job(pool, j, m.g,
                                      [j]()
                                      {
                                          sim::cell_set(C_USER + 500 + j, sim::cell(C_WLEVEL + sim::self()));
                                          return j;
                                      }));
            m.handle = jf.back().id;
            jobs.push_back(m);
            // change some priority, up or down, by id or through the future
            auto changes = sim::wl(3);
            for(uint32_t k = 0; k < changes; ++k)
            {
                auto x = sim::wl(uint32_t(jobs.size()) + 2);
                auto g = any_group();
                if(x < jobs.size())
                {
                    if(sim::wlp(1, 2))
                    {
                        pool.change_priority(jobs[x].handle, g);
                    }
                    else
                    {
                        jf[x].change_priority(g);
                    }
                    jobs[x].g = g;
                }
                else if(x == jobs.size())
                {
                    pool.change_priority(fs[0].id, g); // running
                }
                else
                {
                    pool.change_priority(tpp::job_id(99999), g); // unknown
                }
            }
        }
        sim::nontrivial();
        // let one worker after the other go, highest level last or first
        std::vector<int> order;
        for(int b = 0; b < blockers; ++b)
        {
            order.push_back(b);
        }
        for(int b = blockers - 1; b > 0; --b)
        {
            std::swap(order[size_t(b)], order[sim::wl(uint32_t(b + 1))]);
        }
        size_t seen = sim::history_size();
        std::vector<char> done(jobs.size(), 0);
        for(int b : order)
        {
            sim::gate_open(G_BLOCK + b);
            sim::block_for(1000000000ull); // the worker takes all it may take
            for(; seen < sim::history_size(); ++seen)
            {
                auto e = sim::history_at(seen);
                if(e.kind != E_JOB_START)
                {
                    continue;
                }
                size_t x = 0;
                while(x < jobs.size() && jobs[x].id != e.a)
                {
                    ++x;
                }
                REQUIRE(x < jobs.size(), "unknown-job", "job %d", int(e.a));
                auto wl = level(sim::cell(C_WLEVEL + e.thread));
                REQUIRE(jobs[x].g.level >= wl, "reserved-worker", "job of level %d ran on a worker of level %d",
                        int(jobs[x].g.level), int(wl));
                for(size_t y = 0; y < jobs.size(); ++y)
                {
                    REQUIRE(done[y] || y == x || jobs[y].g.level < wl || !better(jobs[y].g, jobs[x].g), "wrong-order",
                            "job %d (level %d priority %d) ran although job %d (level %d priority %d) was pending", jobs[x].id,
                            int(jobs[x].g.level), int(jobs[x].g.priority), jobs[y].id, int(jobs[y].g.level),
                            int(jobs[y].g.priority));
                }
                done[x] = 1;
            }
        }
        for(size_t x = 0; x < jobs.size(); ++x)
        {
            REQUIRE(done[x] && jf[x].get() == jobs[x].id, "job-lost", "job %d did not run", jobs[x].id);
        }
        // too late to have an effect
        pool.change_priority(jobs[0].handle, tpp::priority::critical(9));
        sim::block_for(1000000000ull);
        REQUIRE(pool.get_jobs_count() == 0, "wrong-count", "%d jobs left", int(pool.get_jobs_count()));
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// everything at once: workers choose while jobs are scheduled and changed
SCENARIO(c14_concurrent, 5)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    std::vector<tpp::priority::group> groups;
    bool changes = sim::wlp(1, 3);
    {
        auto shape = pool_shape::any(2, true);
        tpp::thread_pool pool(shape.map);
        std::vector<fut> fs;
        auto blockers = occupy(pool, shape, fs);
        for(int b = 0; b < blockers; ++b)
        {
            groups.push_back({level::critical, 1000});
        }
        auto n = int(sim::wlr(2, 8));
        std::vector<fut> jf;
        int released = 0;
        for(int i = 0; i < n; ++i)
        {
            auto j = new_job();
            auto g = any_group();
            groups.push_back(g);
            jf.push_back(schedule_job(pool, j, g,
                                      [j]()
                                      {
                                          if(j % 3 == 0)
                                          {
                                              sim::yield_point();
                                          }
                                          return j;
                                      }));
            if(released < blockers && sim::wlp(1, 3))
            {
                sim::gate_open(G_BLOCK + released++);
            }
            if(changes && sim::wlp(1, 2))
            {
                pool.change_priority(jf[sim::wl(uint32_t(jf.size()))].id, any_group());
            }
        }
        while(released < blockers)
        {
            sim::gate_open(G_BLOCK + released++);
        }
        pool.wait_all();
        for(size_t x = 0; x < jf.size(); ++x)
        {
            REQUIRE(jf[x].get() == blockers + int(x), "wrong-result", "job %d", int(x));
        }
        sim::nontrivial();
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);

    // judge: a choice was wrong if a better job that the worker may take was
    // pending during the whole time in which the choice was made
    struct run
    {
        uint64_t called = 0, returned = 0, chosen_after = 0, start = 0, end = 0;
        int thread = -1;
    };
    std::vector<run> r(groups.size());
    std::map<int, uint64_t> last_end;
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind < E_JOB_CALL || e.kind > E_JOB_END)
        {
            continue;
        }
        auto& x = r[size_t(e.a)];
        switch(e.kind)
        {
            case E_JOB_CALL:
                x.called = e.seq;
                break;
            case E_JOB_RET:
                x.returned = e.seq;
                break;
            case E_JOB_START:
                REQUIRE(x.start == 0, "job-repeated", "job %d", int(e.a));
                x.start = e.seq;
                x.thread = e.thread;
                x.chosen_after = last_end[e.thread];
                break;
            default:
                x.end = e.seq;
                last_end[e.thread] = e.seq;
                break;
        }
    }
    for(size_t a = 0; a < r.size(); ++a)
    {
        REQUIRE(r[a].start != 0, "job-lost", "job %d did not run", int(a));
        auto wl = level(sim::cell(C_WLEVEL + r[a].thread));
        if(changes || r[a].chosen_after == 0)
        {
            continue;
        }
        REQUIRE(groups[a].level >= wl, "reserved-worker", "job of level %d ran on a worker of level %d", int(groups[a].level), int(wl));
        for(size_t b = 0; b < r.size(); ++b)
        {
            if(b == a || groups[b].level < wl || !better(groups[b], groups[a]))
            {
                continue;
            }
            bool pending = r[b].returned < r[a].chosen_after && r[b].chosen_after > r[a].start;
            REQUIRE(!pending, "wrong-order", "job %d was chosen although the better job %d was pending", int(a), int(b));
        }
    }
}

SCENARIO(c14_large, 1)
{
    large::priorities();
}
