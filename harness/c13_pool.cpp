// C13: pool jobs run exactly once and waits on them are accurate
#include "pool.hpp"
#include "slow.hpp"
#include "large.hpp"

namespace
{
using oops = user_error;
using fut = tpp::job_future<int>;

// what jobs do: 0 nothing, 1 throw, 2 sleep in the library, 3 schedule a child,
// 4 schedule a child and wait for its future, 5 the same through the pool,
// 6 use the pool's other functions, 7 take time, 8 wait for a queue event
auto add(tpp::thread_pool& pool, int depth) -> std::pair<int, fut>
{
    auto j = new_job();
    auto what = sim::wl(9);
    auto g = any_group();
    auto f = schedule_job(pool, j, g,
                          [&pool, j, what, depth]() -> int
                          {
                              switch(what)
                              {
                                  default:
                                      break;
                                  case 1:
                                      throw_user(j);
                                  case 2:
                                  {
                                      blocking_section b;
                                      tpp::this_thread::sleep_for(some_us(30));
                                      break;
                                  }
                                  case 3:
                                      if(depth > 0)
                                      {
                                          add(pool, depth - 1);
                                      }
                                      break;
                                  case 4:
                                  case 5:
                                      if(depth > 0)
                                      {
                                          auto c = add(pool, depth - 1);
                                          blocking_section b;
                                          if(what == 4)
                                          {
                                              try
                                              {
                                                  REQUIRE(c.second.get() == c.first * 3, "wrong-result", "child %d", c.first);
                                              }
                                              catch(const oops& o)
                                              {
                                                  REQUIRE(o.i == c.first, "wrong-result", "child %d", c.first);
                                              }
                                          }
                                          else
                                          {
                                              pool.wait(c.second.id);
                                          }
                                          REQUIRE(sim::cell(C_JEND + c.first) == 1, "early-wait", "waiting for child %d ended too early", c.first);
                                      }
                                      break;
                                  case 6:
                                      pool.change_priority(123456, tpp::priority::high(1));
                                      pool.stop(123456);
                                      {
                                          blocking_section b;
                                          pool.wait(123456);
                                      }
                                      REQUIRE(pool.get_jobs_count() >= 1, "wrong-count", "a running job is not counted");
                                      break;
                                  case 7:
                                      sim::block_for(1000 * (j % 7));
                                      break;
                                  case 8:
                                  {
                                      blocking_section b;
                                      tpp::this_thread::wait_for(some_us(20));
                                      break;
                                  }
                              }
                              return j * 3;
                          });
    return {j, std::move(f)};
}

void settle_result(std::pair<int, fut>& p)
{
    try
    {
        auto v = p.second.get();
        REQUIRE(v == p.first * 3, "wrong-result", "job %d delivered %d", p.first, v);
    }
    catch(const oops& o)
    {
        REQUIRE(o.i == p.first, "wrong-result", "job %d delivered the exception of %d", p.first, o.i);
    }
    REQUIRE(sim::cell(C_JEND + p.first) == 1, "early-ready", "future of job %d ready before its end", p.first);
}

void all_ended_of(const std::vector<char>& before, const char* what)
{
    for(size_t j = 0; j < before.size(); ++j)
    {
        REQUIRE(!before[j] || sim::cell(C_JEND + int(j)) == 1, "early-wait", "%s returned before job %d finished", what, int(j));
    }
}
auto returned_now() -> std::vector<char>
{
    std::vector<char> r;
    auto n = job_total();
    for(int j = 0; j < n; ++j)
    {
        r.push_back(char(sim::cell(C_JRET + j)));
    }
    return r;
}
} // namespace

SCENARIO(c13_jobs, 7)
{
    sim::set_fault_mask(sim::fb_all_benign | sim::fb_sysclock);
    tpp::init();
    worker_set ws;
    {
        auto shape = pool_shape::any(3, true);
        tpp::thread_pool pool(shape.map, small_capacity());
        ws.look();
        REQUIRE(ws.ids.size() == shape.total, "workers", "%zu workers for %zu requested", ws.ids.size(), shape.total);
        auto n = sim::wlr(1, 5);
        auto ext = sim::wl(3);
        std::vector<std::thread> raw;
        for(uint32_t e = 0; e < ext; ++e)
        {
            auto mode = sim::wl(3);
            raw.emplace_back(
                [&pool, mode]()
                {
                    if(mode)
                    {
                        tpp::this_thread::register_this_thread();
                    }
                    auto a = add(pool, 1);
                    if(mode == 1)
                    {
                        settle_result(a);
                    }
                    else if(mode == 2)
                    {
                        pool.wait(a.second.id);
                        REQUIRE(sim::cell(C_JEND + a.first) == 1, "early-wait", "wait returned before job %d finished", a.first);
                    }
                    if(mode)
                    {
                        tpp::this_thread::unregister_this_thread();
                    }
                });
        }
        std::vector<std::pair<int, fut>> mine;
        for(uint32_t i = 0; i < n; ++i)
        {
            mine.push_back(add(pool, 2));
            switch(sim::wl(8))
            {
                default:
                    break;
                case 5:
                    pool.wait(mine.back().second.id);
                    REQUIRE(sim::cell(C_JEND + mine.back().first) == 1, "early-wait", "wait returned before job %d finished",
                            mine.back().first);
                    break;
                case 6:
                {
                    auto before = returned_now();
                    pool.wait_all();
                    all_ended_of(before, "wait_all");
                    break;
                }
                case 7:
                    tpp::this_thread::process();
                    break;
            }
        }
        for(auto& t : raw)
        {
            t.join();
        }
        auto before = returned_now();
        if(sim::wlp(1, 2))
        {
            pool.wait_all();
            all_ended_of(before, "wait_all");
        }
        for(auto& p : mine)
        {
            if(sim::wlp(3, 4))
            {
                settle_result(p);
            }
        }
        // everything finishes on its own, and nothing is counted any more
        while(pool.get_jobs_count() != 0)
        {
            tpp::this_thread::wait_for(100us);
        }
        auto total = job_total();
        for(int j = 0; j < total; ++j)
        {
            REQUIRE(sim::cell(C_JSTART + j) == 1 && sim::cell(C_JEND + j) == 1, "job-lost", "job %d of %d did not run", j, total);
        }
        if(total > 1)
        {
            sim::nontrivial();
        }
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind == E_JOB_START)
        {
            REQUIRE(ws.has(e.b), "foreign-thread", "job %d ran on thread %d which is no worker of its pool", int(e.a), int(e.b));
        }
    }
}

// counting with a known backlog
SCENARIO(c13_count, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        auto shape = pool_shape::any(2, false);
        tpp::thread_pool pool(shape.map);
        auto w = int(shape.total);
        auto n = int(sim::wlr(1, 6));
        std::vector<fut> fs;
        for(int i = 0; i < n; ++i)
        {
            auto j = new_job();
            fs.push_back(schedule_job(pool, j, any_group(),
                                      [j]()
                                      {
                                          sim::gate_open(1);
                                          sim::gate_wait(2, 1 + j);
                                          return j;
                                      }));
            REQUIRE(int(pool.get_jobs_count()) == i + 1, "wrong-count", "%d jobs left of %d unfinished ones",
                    int(pool.get_jobs_count()), i + 1);
        }
        sim::gate_wait(1, std::min(n, w));
        std::vector<char> stopped(size_t(n), 0);
        auto left = n;
        // pending jobs can be stopped
        for(int i = 0; i < n; ++i)
        {
            if(sim::wlp(1, 4))
            {
                bool pending = sim::cell(C_JSTART + i) == 0;
                pool.stop(fs[size_t(i)].id);
                stopped[size_t(i)] = pending;
                left -= pending;
                REQUIRE(int(pool.get_jobs_count()) == left, "wrong-count", "%d jobs left after stopping, expected %d",
                        int(pool.get_jobs_count()), left);
            }
        }
        std::vector<std::thread> waiters;
        auto nw = sim::wl(3);
        for(uint32_t k = 0; k < nw; ++k)
        {
            auto which = sim::wl(uint32_t(n + 1));
            auto id = which < uint32_t(n) ? fs[which].id : tpp::job_id(0);
            waiters.emplace_back(
                [&pool, id, which, st = stopped, n]()
                {
                    tpp::this_thread::register_this_thread();
                    if(id)
                    {
                        pool.wait(id);
                        REQUIRE(st[which] || sim::cell(C_JEND + int(which)) == 1, "early-wait", "job %d", int(which));
                    }
                    else
                    {
                        pool.wait_all();
                        for(int j = 0; j < n; ++j)
                        {
                            REQUIRE(st[size_t(j)] || sim::cell(C_JEND + j) == 1, "early-wait", "wait_all, job %d", j);
                        }
                    }
                    tpp::this_thread::unregister_this_thread();
                });
        }
        sim::nontrivial();
        // let them finish one by one; when all is quiet the number is exact
        for(int i = 0; i < n; ++i)
        {
            sim::gate_open(2);
            left -= stopped[size_t(i)] ? 0 : 0;
            if(sim::wlp(1, 3))
            {
                sim::block_for(1000000000ull);
                int unfinished = 0;
                for(int j = 0; j < n; ++j)
                {
                    unfinished += !stopped[size_t(j)] && sim::cell(C_JEND + j) == 0;
                }
                REQUIRE(int(pool.get_jobs_count()) == unfinished, "wrong-count", "%d jobs left, %d unfinished",
                        int(pool.get_jobs_count()), unfinished);
            }
        }
        for(auto& t : waiters)
        {
            t.join();
        }
        for(int j = 0; j < n; ++j)
        {
            try
            {
                auto v = fs[size_t(j)].get();
                REQUIRE(v == j && !stopped[size_t(j)], "wrong-result", "job %d gave %d", j, v);
            }
            catch(const std::future_error& e)
            {
                REQUIRE(stopped[size_t(j)] && e.code() == std::future_errc::broken_promise, "wrong-result", "job %d failed", j);
            }
        }
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto l = tpp::shutdown();
    REQUIRE(l == 0, "shutdown-failed", "shutdown returned %d", l);
}

// a pool made without saying how many workers it shall have
SCENARIO(c13_default, 1)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    auto cpus = int(sim::wlr(1, 5));
    sim::set_cpus(cpus);
    tpp::init();
    {
        worker_set ws;
        tpp::thread_pool pool;
        ws.look();
        REQUIRE(int(ws.ids.size()) == cpus, "wrong-workers", "%d workers on a machine of %d processors", int(ws.ids.size()), cpus);
        auto n = cpus + int(sim::wl(4));
        std::vector<tpp::job_future<int>> fs;
        for(int i = 0; i < n; ++i)
        {
            auto j = new_job();
            auto body = [j]()
            {
                sim::gate_open(1);
                sim::gate_wait(2);
                return j;
            };
            if(sim::wlp(1, 2))
            {
                fs.push_back(schedule_job(pool, j, any_group(), body));
            }
            else
            {
                fs.push_back(pool.schedule(
                    [j, body]()
                    {
                        job_frame fr(j);
                        return body();
                    }));
            }
        }
        sim::gate_wait(1, cpus);
        sim::block_for(1000000000ull);
        REQUIRE(sim::gate_value(1) == cpus, "wrong-workers", "%d jobs at a time on %d workers", int(sim::gate_value(1)), cpus);
        REQUIRE(int(pool.get_jobs_count()) == n, "wrong-count", "%d of %d jobs", int(pool.get_jobs_count()), n);
        sim::nontrivial();
        sim::gate_open(2);
        if(sim::wlp(1, 2))
        {
            pool.wait_all();
        }
        for(int j = 0; j < n; ++j)
        {
            REQUIRE(fs[size_t(j)].get() == j, "wrong-result", "job %d", j);
        }
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// after a long silence
SCENARIO(c13_slow, 1)
{
    slow_init();
    {
        tpp::thread_pool pool({{tpp::priority::category::normal, 1}});
        gap(); // idle workers
        auto a = pool.schedule([]() { return int(gap() / SECOND); });
        auto b = pool.schedule(
            []()
            {
                sim::cell_set(C_USER + 90, int64_t(sim::now()));
                return 2;
            });
        std::vector<std::thread> raw;
        auto id = b.id;
        raw.emplace_back(
            [&pool, id]()
            {
                tpp::this_thread::register_this_thread();
                if(sim::wlp(1, 2))
                {
                    pool.wait_all();
                }
                else
                {
                    pool.wait(id);
                }
                REQUIRE(sim::cell(C_USER + 90) != 0, "early-wait", "waiting ended before the job");
                prompt(uint64_t(sim::cell(C_USER + 90)), "waiting ended");
                tpp::this_thread::unregister_this_thread();
            });
        REQUIRE(pool.get_jobs_count() <= 2, "wrong-count", "more jobs than scheduled");
        REQUIRE(b.get() == 2, "wrong-value", "value of the job");
        prompt(uint64_t(sim::cell(C_USER + 90)), "the result was there");
        REQUIRE(a.get() >= 3, "wrong-value", "value of the long job");
        for(auto& t : raw)
        {
            t.join();
        }
    }
    slow_end("c13");
}

SCENARIO(c13_large, 1)
{
    large::jobs();
}
