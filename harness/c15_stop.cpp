// C15: stopping jobs and destroying pools never loses, repeats or strands a job
#include "pool.hpp"
#include "slow.hpp"
#include "large.hpp"
#include <optional>

namespace
{
using fut = tpp::job_future<int>;
constexpr int G_RUN = 1;
constexpr int G_BLOCK = 60;
constexpr int C_CALLBACKS = C_USER + 30;

// something owned by a job's callable whose destructor calls back
struct talker
{
    tpp::thread_pool* pool = nullptr;
    uint32_t what = 0;
    tpp::thread::id main = 0;
    talker(tpp::thread_pool* p, uint32_t w, tpp::thread::id m) : pool(p), what(w), main(m)
    {
    }
    talker(talker&& o) noexcept : pool(o.pool), what(o.what), main(o.main)
    {
        o.pool = nullptr;
    }
    talker& operator=(talker&&) = delete;
    ~talker()
    {
        if(!pool)
        {
            return;
        }
        sim::cell_add(C_CALLBACKS, 1);
        switch(what)
        {
            default:
                break;
            case 1:
                pool->get_jobs_count();
                break;
            case 2:
                pool->stop(4711);
                break;
            case 3:
                pool->change_priority(4711, tpp::priority::high(1));
                break;
            case 4:
                tpp::invoke(main, []() { sim::cell_add(C_CALLBACKS + 1, 1); });
                break;
            case 5:
                pool->stop_all();
                break;
        }
    }
};

void judge_result(fut& f, int job, bool must_break, bool must_run)
{
    REQUIRE(f.valid() && f.is_ready(), "stranded-future", "future of job %d is not ready", job);
    auto ran = sim::cell(C_JSTART + job) != 0;
    try
    {
        auto v = f.get();
        REQUIRE(v == job && ran, "wrong-result", "job %d gave %d", job, v);
    }
    catch(const std::future_error& e)
    {
        REQUIRE(e.code() == std::future_errc::broken_promise && !ran, "wrong-result", "job %d ran %d but its future is broken", job, int(ran));
    }
    REQUIRE(!(must_break && ran), "stopped-job-ran", "job %d ran although it was stopped before", job);
    REQUIRE(!(must_run && !ran), "job-lost", "job %d never ran", job);
}

void judge_tokens()
{
    std::vector<int> destroyed(size_t(job_total()), 0);
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind == E_DESTROY && e.a < int64_t(destroyed.size()))
        {
            destroyed[size_t(e.a)]++;
        }
    }
    for(size_t j = 0; j < destroyed.size(); ++j)
    {
        REQUIRE(destroyed[j] == 1, "callable-life", "the callable of job %d was destroyed %d times", int(j), destroyed[j]);
    }
}
void end(const char* what)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "%s: shutdown returned %d", what, left);
    judge_tokens();
}

auto block_workers(tpp::thread_pool& pool, size_t n) -> std::vector<fut>
{
    std::vector<fut> fs;
    for(size_t i = 0; i < n; ++i)
    {
        auto j = new_job();
        fs.push_back(schedule_job(pool, j, tpp::priority::critical(100),
                                  [j]()
                                  {
                                      sim::gate_open(G_RUN);
                                      sim::gate_wait(G_BLOCK);
                                      return j;
                                  }));
    }
    sim::gate_wait(G_RUN, int64_t(n));
    return fs;
}
} // namespace

// known backlog: exactly what is stopped disappears
SCENARIO(c15_backlog, 5)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        auto shape = pool_shape::any(2, true);
        tpp::thread_pool pool(shape.map);
        auto main_id = tpp::this_thread::get_id();
        auto running = block_workers(pool, shape.total);
        auto n = int(sim::wlr(1, 6));
        std::vector<fut> fs;
        std::vector<int> ids;
        std::vector<char> stopped(size_t(n), 0);
        auto talk = sim::wlp(1, 2);
        for(int i = 0; i < n; ++i)
        {
            auto j = new_job();
            ids.push_back(j);
            talker t(talk ? &pool : nullptr, sim::wl(5), main_id);
            fs.push_back(schedule_job(pool, j, any_group(), [j, t = std::move(t)]() { return j; }));
        }
        std::vector<tpp::job_shared_future<int>> shared;
        // a thread waiting for jobs that are going to be stopped or are running
        std::thread waiter;
        auto w = sim::wl(4);
        auto wid = w == 1 ? running[0].id : fs[0].id;
        auto wjob = w == 1 ? 0 : ids[0];
        if(w)
        {
            waiter = std::thread(
                [&pool, w, wid, wjob]()
                {
                    tpp::this_thread::register_this_thread();
                    sim::gate_open(5);
                    if(w == 3)
                    {
                        pool.wait_all();
                    }
                    else
                    {
                        pool.wait(wid);
                    }
                    if(w == 1)
                    {
                        REQUIRE(sim::cell(C_JEND + wjob) == 1, "early-wait", "wait for a running job returned before its end");
                    }
                    tpp::this_thread::unregister_this_thread();
                });
            if(sim::wlp(1, 2))
            {
                sim::gate_wait(5);
            }
        }
        auto ops = sim::wlr(1, 4);
        for(uint32_t k = 0; k < ops; ++k)
        {
            auto x = sim::wl(uint32_t(n));
            switch(sim::wl(6))
            {
                default:
                    pool.stop(fs[x].id);
                    stopped[x] = 1;
                    break;
                case 1:
                    fs[x].stop();
                    stopped[x] = 1;
                    break;
                case 2:
                    pool.stop(running[x % running.size()].id);
                    break;
                case 3:
                    running[x % running.size()].stop();
                    break;
                case 4:
                    if(sim::wlp(1, 2))
                    {
                        pool.stop_all();
                        for(auto& s : stopped)
                        {
                            s = 1;
                        }
                    }
                    break;
                case 5:
                {
                    // a continuation on the stopping thread that uses the pool
                    auto id = fs[x].id;
                    auto j = ids[x];
                    tpp::job_future<int> replacement;
                    auto g = fs[x].then(main_id,
                                        [&pool](tpp::future<int> r) -> int
                                        {
                                            pool.get_jobs_count();
                                            return r.get();
                                        });
                    static_cast<tpp::future<int>&>(replacement) = std::move(g);
                    replacement.id = id;
                    pool.stop(id);
                    stopped[x] = 1;
                    fs[x] = std::move(replacement);
                    (void)j;
                    break;
                }
            }
            for(int i = 0; i < n; ++i)
            {
                if(stopped[size_t(i)])
                {
                    tpp::this_thread::process();
                    REQUIRE(fs[size_t(i)].is_ready(), "stranded-future", "future of stopped job %d is not ready", ids[size_t(i)]);
                }
            }
            // running jobs are still there to be waited for
            REQUIRE(pool.get_jobs_count() >= running.size(), "wrong-count", "%d jobs left but %d are running",
                    int(pool.get_jobs_count()), int(running.size()));
        }
        sim::nontrivial();
        std::thread opener(
            []()
            {
                sim::block_for(5000);
                sim::gate_open(G_BLOCK);
            });
        for(size_t i = 0; i < running.size(); ++i)
        {
            if(sim::wlp(1, 2))
            {
                pool.wait(running[i].id);
                REQUIRE(sim::cell(C_JEND + int(i)) == 1, "early-wait", "wait for running job %d returned before its end", int(i));
            }
        }
        opener.join();
        pool.wait_all();
        for(size_t i = 0; i < running.size(); ++i)
        {
            running[i].wait();
            judge_result(running[i], int(i), false, true);
        }
        for(int i = 0; i < n; ++i)
        {
            fs[size_t(i)].wait();
            judge_result(fs[size_t(i)], ids[size_t(i)], stopped[size_t(i)], !stopped[size_t(i)]);
        }
        if(waiter.joinable())
        {
            waiter.join();
        }
        tpp::this_thread::process();
    }
    end("backlog");
}

// stopping while workers are choosing
SCENARIO(c15_race, 5)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        auto shape = pool_shape::any(2, true);
        auto pool = std::make_unique<tpp::thread_pool>(shape.map);
        auto main_id = tpp::this_thread::get_id();
        auto n = int(sim::wlr(1, 6));
        auto talk = sim::wlp(1, 3);
        std::vector<fut> fs;
        auto stoppers = sim::wl(3);
        auto until = sim::wl(3);
        std::vector<std::thread> raw;
        for(int i = 0; i < n; ++i)
        {
            auto j = new_job();
            talker t(talk ? pool.get() : nullptr, sim::wl(6), main_id);
            fs.push_back(schedule_job(*pool, j, any_group(),
                                      [j, t = std::move(t)]()
                                      {
                                          if(j % 2)
                                          {
                                              blocking_section b;
                                              tpp::this_thread::sleep_for(5us);
                                          }
                                          return j;
                                      }));
        }
        for(uint32_t s = 0; s < stoppers; ++s)
        {
            std::vector<tpp::job_id> which;
            for(int i = 0; i < n; ++i)
            {
                which.push_back(fs[size_t(i)].id);
            }
            auto how = sim::wl(4);
            raw.emplace_back(
                [&pool, which, how]()
                {
                    for(auto id : which)
                    {
                        if(how == 0)
                        {
                            pool->stop(id);
                        }
                        else if(how == 1)
                        {
                            pool->change_priority(id, any_group());
                        }
                        else if(how == 2)
                        {
                            sim::yield_point();
                        }
                        pool->get_jobs_count();
                    }
                    if(how == 2)
                    {
                        pool->stop_all();
                    }
                });
        }
        if(until == 1)
        {
            sim::block_for(3000);
        }
        for(int i = 0; i < n; ++i)
        {
            if(sim::wlp(1, 3))
            {
                fs[size_t(i)].stop();
            }
        }
        for(auto& t : raw)
        {
            t.join();
        }
        sim::nontrivial();
        if(until == 2)
        {
            // every job is finished or stopped: all waits return
            pool->wait_all();
            for(int i = 0; i < n; ++i)
            {
                fs[size_t(i)].wait();
            }
            while(pool->get_jobs_count() != 0)
            {
                tpp::this_thread::wait_for(50us);
            }
        }
        for(auto& f : fs)
        {
            f.wait();
        }
        pool.reset();
        for(int i = 0; i < n; ++i)
        {
            judge_result(fs[size_t(i)], i, false, false);
        }
        tpp::this_thread::process();
    }
    end("race");
}

// the pool goes away or changes its place with jobs pending and running
SCENARIO(c15_destroy, 6)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        auto shape = pool_shape::any(2, true);
        auto main_id = tpp::this_thread::get_id();
        auto pool = std::make_unique<tpp::thread_pool>(shape.map);
        auto n = int(sim::wlr(1, 6));
        std::vector<fut> fs;
        auto talk = sim::wlp(1, 3);
        auto how = sim::wl(5);
        auto waiters = sim::wl(2);
        auto blockers = sim::wlp(1, 2) ? int(sim::wlr(1, uint32_t(shape.total))) : 0;
        for(int i = 0; i < n; ++i)
        {
            auto j = new_job();
            auto what = sim::wl(4);
            // only what does not refer to the pool object itself: it may move
            talker t(talk ? pool.get() : nullptr, 4, main_id);
            fs.push_back(schedule_job(*pool, j, any_group(),
                                      [j, what, i, blockers, t = std::move(t)]()
                                      {
                                          if(i < blockers)
                                          {
                                              sim::gate_open(G_RUN);
                                              sim::gate_wait(G_BLOCK);
                                          }
                                          if(what == 1)
                                          {
                                              blocking_section b;
                                              tpp::this_thread::sleep_for(10us);
                                          }
                                          else if(what == 2)
                                          {
                                              // blocks for good: only the end of the pool ends this
                                              blocking_section b;
                                              tpp::promise<int> p;
                                              auto f = p.get_future();
                                              f.wait_for(30us);
                                          }
                                          return j;
                                      }));
        }
        std::vector<std::thread> raw;
        std::vector<tpp::job_shared_future<int>> copies;
        for(uint32_t k = 0; k < waiters; ++k)
        {
            auto x = sim::wl(uint32_t(n));
            auto sf = fs[x].share();
            copies.push_back(sf);
            raw.emplace_back(
                [sf, x]()
                {
                    tpp::this_thread::register_this_thread();
                    sf.wait();
                    REQUIRE(sf.is_ready(), "stranded-future", "waiting for job %d ended without result", int(x));
                    tpp::this_thread::unregister_this_thread();
                });
        }
        std::thread opener(
            []()
            {
                sim::block_for(3000);
                sim::gate_open(G_BLOCK);
            });
        std::unique_ptr<tpp::thread_pool> second;
        switch(how)
        {
            default:
                break;
            case 1:
            case 2:
                second = std::make_unique<tpp::thread_pool>(std::move(*pool));
                if(sim::wlp(1, 3))
                {
                    // nothing is left to be moved
                    tpp::thread_pool none(std::move(*pool));
                    if(sim::wlp(1, 2))
                    {
                        *pool = std::move(none);
                    }
                    if(sim::wlp(1, 2))
                    {
                        // and what comes back is the same again
                        *pool = std::move(*second);
                        *second = std::move(*pool);
                    }
                }
                pool.reset(); // the place the handles came from is gone
                break;
            case 3:
            {
                // replaces a pool that has jobs of its own
                second = std::make_unique<tpp::thread_pool>(std::map<level, size_t>{{level::normal, 1}});
                auto j = new_job();
                auto f = schedule_job(*second, j, tpp::priority::normal(), [j]() { return j; });
                *second = std::move(*pool);
                pool.reset();
                judge_result(f, j, false, false);
                break;
            }
        }
        sim::nontrivial();
        std::vector<char> stopped(size_t(n), 0);
        if(second)
        {
            // all handles still reach their jobs
            for(int i = 0; i < n; ++i)
            {
                auto& f = fs[size_t(i)];
                switch(sim::wl(4))
                {
                    default:
                        break;
                    case 1:
                        f.stop();
                        break;
                    case 2:
                        f.change_priority(any_group());
                        break;
                    case 3:
                        second->stop(f.id);
                        break;
                }
            }
            if(how == 2)
            {
                second->wait_all();
                for(auto& f : fs)
                {
                    if(f.valid())
                    {
                        f.wait();
                    }
                }
            }
            auto j = new_job();
            auto f = schedule_job(*second, j, tpp::priority::normal(), [j]() { return j; });
            f.wait();
            judge_result(f, j, false, true);
            second.reset();
        }
        else
        {
            pool.reset();
        }
        opener.join();
        // too late, but harmless
        for(int i = 0; i < n; ++i)
        {
            fs[size_t(i)].stop();
            fs[size_t(i)].change_priority(tpp::priority::high(2));
            if(fs[size_t(i)].valid())
            {
                judge_result(fs[size_t(i)], i, false, false);
            }
        }
        for(auto& c : copies)
        {
            c.stop();
            REQUIRE(c.is_ready(), "stranded-future", "shared future not ready after the pool is gone");
        }
        for(auto& t : raw)
        {
            t.join();
        }
        tpp::this_thread::process();
        // finished jobs were not interrupted
        auto total = job_total();
        for(int j = 0; j < total; ++j)
        {
            REQUIRE(sim::cell(C_JSTART + j) == sim::cell(C_JEND + j), "job-interrupted", "job %d did not finish", j);
        }
    }
    end("destroy");
}

// pools that move around under handles that move around: every handle always
// leads to its own job, wherever the pool that has it went
SCENARIO(c15_handles, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        enum : int
        {
            PENDING,
            DROPPED
        };
        struct job
        {
            int pool = 0;
            int state = PENDING;
            tpp::priority::group group{};
            fut one;
            std::vector<tpp::job_shared_future<int>> many;
        };
        struct slot
        {
            std::optional<tpp::thread_pool> pool;
            int id = -1; // which workers it has
        };
        std::map<int, job> jobs;
        std::vector<std::pair<fut, int>> holders;
        std::vector<slot> slots(sim::wlr(1, 3));
        int pools = 0;
        // a pool whose only worker is busy
        auto create = [&](slot& s)
        {
            s.id = pools++;
            s.pool.emplace(std::map<level, size_t>{{level::normal, 1}});
            auto j = new_job();
            auto id = s.id;
            holders.emplace_back(schedule_job(*s.pool, j, tpp::priority::critical(100),
                                              [j, id]()
                                              {
                                                  sim::gate_open(100 + id);
                                                  sim::gate_wait(10 + id);
                                                  return j;
                                              }),
                                 j);
            sim::gate_wait(100 + id);
        };
        // does something that waits for the workers of a pool and gives up its jobs
        auto dropping = [&](int id, auto f)
        {
            if(id < 0)
            {
                f();
                return;
            }
            std::thread opener(
                [id]()
                {
                    sim::block_for(1'000'000'000);
                    sim::gate_open(10 + id);
                });
            f();
            opener.join();
            for(auto& kv : jobs)
            {
                if(kv.second.pool == id)
                {
                    kv.second.state = DROPPED;
                }
            }
        };
        auto find = [&](int id) -> slot*
        {
            for(auto& s : slots)
            {
                if(s.id == id)
                {
                    return &s;
                }
            }
            return nullptr;
        };
        auto look = [&](const char* after)
        {
            std::map<int, size_t> left;
            for(auto& kv : jobs)
            {
                auto& j = kv.second;
                left[j.pool] += j.state == PENDING ? 1 : 0;
                auto ready = [&](auto& f)
                {
                    REQUIRE(f.valid(), "wrong-result", "a handle of job %d became invalid by %s", kv.first, after);
                    REQUIRE(f.is_ready() == (j.state == DROPPED), "wrong-job-stopped", "job %d is %s after %s", kv.first,
                            j.state == DROPPED ? "still there" : "gone", after);
                };
                if(j.many.empty())
                {
                    ready(j.one);
                }
                for(auto& f : j.many)
                {
                    ready(f);
                }
            }
            for(auto& s : slots)
            {
                if(s.id >= 0)
                {
                    auto n = s.pool->get_jobs_count();
                    REQUIRE(n == left[s.id] + 1, "wrong-count", "a pool of %d jobs has %d after %s", int(left[s.id]) + 1, int(n), after);
                }
            }
        };
        create(slots[0]);
        auto steps = int(sim::wlr(5, 25));
        for(int i = 0; i < steps; ++i)
        {
            auto& s = slots[sim::wl(uint32_t(slots.size()))];
            auto& t = slots[sim::wl(uint32_t(slots.size()))];
            auto pick = [&]() -> job*
            {
                if(jobs.empty())
                {
                    return nullptr;
                }
                auto it = jobs.begin();
                std::advance(it, sim::wl(uint32_t(jobs.size())));
                return &it->second;
            };
            switch(sim::wl(12))
            {
                default: // 0, 1
                    if(s.id >= 0 && jobs.size() < 30)
                    {
                        auto j = new_job();
                        auto g = any_group();
                        auto& m = jobs[j];
                        m.pool = s.id;
                        m.group = g;
                        m.one = schedule_job(*s.pool, j, g, [j]() { return j; });
                        look("schedule");
                    }
                    break;
                case 2:
                    if(auto j = pick())
                    {
                        if(j->many.empty())
                        {
                            j->one.stop();
                        }
                        else
                        {
                            j->many[sim::wl(uint32_t(j->many.size()))].stop();
                        }
                        j->state = find(j->pool) ? DROPPED : j->state;
                        look("stop through a handle");
                    }
                    break;
                case 3:
                    if(auto j = pick())
                    {
                        auto g = any_group();
                        if(j->many.empty())
                        {
                            j->one.change_priority(g);
                        }
                        else
                        {
                            j->many[sim::wl(uint32_t(j->many.size()))].change_priority(g);
                        }
                        j->group = g;
                        look("change_priority through a handle");
                    }
                    break;
                case 4:
                    if(auto j = pick())
                    {
                        if(auto p = find(j->pool))
                        {
                            p->pool->stop(j->many.empty() ? j->one.id : j->many[0].id);
                            j->state = DROPPED;
                            look("stop");
                        }
                    }
                    break;
                case 5:
                    if(auto j = pick())
                    {
                        if(auto p = find(j->pool))
                        {
                            auto g = any_group();
                            p->pool->change_priority(j->many.empty() ? j->one.id : j->many.back().id, g);
                            j->group = g;
                            look("change_priority");
                        }
                    }
                    break;
                case 6:
                    if(auto j = pick())
                    {
                        if(j->many.empty())
                        {
                            if(sim::wlp(1, 2))
                            {
                                fut moved(std::move(j->one));
                                j->one = std::move(moved);
                            }
                            else
                            {
                                j->many.push_back(j->one.share());
                            }
                        }
                        else if(sim::wlp(1, 2))
                        {
                            auto copy = j->many[0];
                            j->many.push_back(std::move(copy));
                        }
                        else
                        {
                            tpp::job_shared_future<int> copy;
                            copy = j->many.back();
                            tpp::job_shared_future<int> moved;
                            moved = std::move(copy);
                            j->many.front() = moved;
                        }
                        look("handles moved");
                    }
                    break;
                case 7:
                    if(!s.pool && pools < 6)
                    {
                        create(s);
                        look("a new pool");
                    }
                    break;
                case 8: // move construction
                    if(&s != &t && s.pool)
                    {
                        auto id = t.id;
                        dropping(id, [&]() { t.pool.reset(); });
                        t.pool.emplace(std::move(*s.pool));
                        t.id = s.id;
                        s.id = -1;
                        if(sim::wlp(1, 2))
                        {
                            s.pool.reset();
                        }
                        look("move construction");
                    }
                    break;
                case 9: // move assignment
                    if(&s != &t && s.pool && t.pool)
                    {
                        auto id = t.id;
                        dropping(id, [&]() { *t.pool = std::move(*s.pool); });
                        t.id = s.id;
                        s.id = -1;
                        look("move assignment");
                        sim::nontrivial();
                    }
                    break;
                case 10:
                    if(&s != &t && s.pool && t.pool)
                    {
                        std::swap(*s.pool, *t.pool);
                        std::swap(s.id, t.id);
                        look("swap");
                        sim::nontrivial();
                    }
                    break;
                case 11:
                    if(sim::wlp(1, 3))
                    {
                        auto id = s.id;
                        dropping(id, [&]() { s.pool.reset(); });
                        s.id = -1;
                        look("destruction");
                    }
                    else if(s.id >= 0)
                    {
                        s.pool->stop_all();
                        for(auto& kv : jobs)
                        {
                            if(kv.second.pool == s.id)
                            {
                                kv.second.state = DROPPED;
                            }
                        }
                        look("stop_all");
                    }
                    break;
            }
        }
        for(int id = 0; id < pools; ++id)
        {
            sim::gate_open(10 + id);
        }
        for(auto& s : slots)
        {
            if(s.id >= 0)
            {
                s.pool->wait_all();
            }
        }
        for(auto& h : holders)
        {
            judge_result(h.first, h.second, false, true);
        }
        std::map<int, tpp::priority::group> last; // of each pool
        for(size_t i = 0; i < sim::history_size(); ++i)
        {
            const auto& e = sim::history_at(i);
            auto it = e.kind == E_JOB_START ? jobs.find(int(e.a)) : jobs.end();
            if(it == jobs.end())
            {
                continue;
            }
            auto& g = it->second.group;
            auto at = last.find(it->second.pool);
            if(at != last.end())
            {
                REQUIRE(g.level < at->second.level || (g.level == at->second.level && g.priority <= at->second.priority), "wrong-order",
                        "job %d of level %d and priority %d was executed after one of level %d and priority %d", it->first, int(g.level),
                        int(g.priority), int(at->second.level), int(at->second.priority));
            }
            last[it->second.pool] = g;
        }
        for(auto& kv : jobs)
        {
            auto& j = kv.second;
            auto dropped = j.state == DROPPED;
            if(j.many.empty())
            {
                judge_result(j.one, kv.first, dropped, !dropped);
            }
            for(auto& f : j.many)
            {
                REQUIRE(f.is_ready() && f.has_error() == dropped, "wrong-result", "job %d: ready %d, error %d", kv.first, int(f.is_ready()),
                        int(f.has_error()));
                REQUIRE(dropped || f.get() == kv.first, "wrong-result", "job %d has the result of another one", kv.first);
            }
            if(!j.many.empty())
            {
                REQUIRE((sim::cell(C_JSTART + kv.first) != 0) != dropped, "wrong-result", "job %d was %sexecuted", kv.first,
                        dropped ? "" : "not ");
            }
        }
        // too late, but harmless
        slots.clear();
        for(auto& kv : jobs)
        {
            for(auto& f : kv.second.many)
            {
                f.stop();
                f.change_priority(tpp::priority::high(1));
            }
            if(kv.second.many.empty())
            {
                kv.second.one.stop();
            }
        }
    }
    end("handles");
}

// after a long silence
SCENARIO(c15_slow, 1)
{
    slow_init();
    {
        auto pool = std::make_unique<tpp::thread_pool>(std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, 1}});
        auto a = pool->schedule(
            []()
            {
                sim::gate_open(1);
                gap();
                sim::cell_set(C_USER + 90, int64_t(sim::now()));
                return 1;
            });
        auto b = pool->schedule([]() { return 2; });
        sim::gate_wait(1);
        if(sim::wlp(1, 2))
        {
            b.stop();
            REQUIRE(b.is_ready() && b.has_error(), "stranded-future", "a stopped job has no result");
        }
        pool.reset();
        REQUIRE(sim::cell(C_USER + 90) != 0, "job-abandoned", "the pool was destroyed under a running job");
        prompt(uint64_t(sim::cell(C_USER + 90)), "the pool was destroyed");
        REQUIRE(a.is_ready() && a.get() == 1, "wrong-value", "the running job lost its result");
        REQUIRE(b.is_ready() && b.has_error(), "stranded-future", "a pending job has no result");
    }
    slow_end("c15");
}

SCENARIO(c15_large, 1)
{
    large::stops();
}
