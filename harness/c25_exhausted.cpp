// C25: a pool that runs out of memory or threads loses nothing
#include "pool.hpp"

namespace
{
constexpr int G_RUN = 1;
constexpr int G_BLOCK = 60;
constexpr int C_FAILED = C_USER + 40;   // schedule calls that threw
constexpr int C_CALLBACKS = C_USER + 41;
constexpr int C_OUTCOME = CELL_FREE + 600; // + job: 1 accepted, 2 threw
constexpr int C_ORDER = C_USER + 42;

struct memory_runs_out
{
    bool armed = true;
    explicit memory_runs_out(int n)
    {
        sim::arm_alloc_failure(n);
    }
    auto happened() -> bool
    {
        if(!armed)
        {
            return false;
        }
        armed = false;
        auto f = sim::disarm_alloc_failure();
        if(f)
        {
            sim::nontrivial();
        }
        return f;
    }
    ~memory_runs_out()
    {
        happened();
    }
};

// owned by a callable: its destructor uses the pool
struct talker
{
    tpp::thread_pool* pool;
    explicit talker(tpp::thread_pool* p) : pool(p)
    {
    }
    talker(talker&& o) noexcept : pool(o.pool)
    {
        o.pool = nullptr;
    }
    talker& operator=(talker&&) = delete;
    ~talker()
    {
        if(pool)
        {
            pool->get_jobs_count();
            pool->stop(4711);
            sim::cell_add(C_CALLBACKS, 1);
        }
    }
};

auto some_group() -> tpp::priority::group
{
    return any_group();
}

auto destroyed(int job) -> int
{
    auto n = 0;
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        n += e.kind == E_DESTROY && e.a == job ? 1 : 0;
    }
    return n;
}

// schedules one job while the memory may run out; an invalid future means it threw
auto schedule(tpp::thread_pool& pool, int job, tpp::priority::group g, bool failing, bool talk) -> tpp::job_future<int>
{
    tpp::job_future<int> f;
    auto threw = false, failed = false;
    {
        auto callable = [t = tok(job), job, k = talker(talk ? &pool : nullptr)](const std::string& s)
        {
            job_frame frame(job);
            REQUIRE(s.size() == 40, "wrong-argument", "argument of job %d", job);
            return job;
        };
        std::string text(40, 'x');
        auto n = int(sim::wlr(1, 24));
        std::unique_ptr<memory_runs_out> out;
        if(failing)
        {
            out = std::make_unique<memory_runs_out>(n);
        }
        try
        {
            f = pool.schedule(g, std::move(callable), text);
        }
        catch(const std::bad_alloc&)
        {
            threw = true;
        }
        failed = out && out->happened();
    }
    REQUIRE(!threw || failed, "alloc-failed-late", "bad_alloc without a cause");
    sim::cell_set(C_OUTCOME + job, threw ? 2 : 1);
    if(threw)
    {
        sim::cell_add(C_FAILED, 1);
        REQUIRE(destroyed(job) == 1, "callable-life", "the callable of a job that was not accepted was destroyed %d times", destroyed(job));
        REQUIRE(sim::cell(C_JSTART + job) == 0, "ran-but-failed", "job %d ran although schedule threw", job);
    }
    else
    {
        REQUIRE(f.valid(), "invalid-future", "future of job %d", job);
    }
    return f;
}

void settle(tpp::thread_pool& pool, std::vector<tpp::job_future<int>>& fs, std::vector<int>& jobs)
{
    for(size_t i = 0; i < fs.size(); ++i)
    {
        if(fs[i].valid())
        {
            REQUIRE(fs[i].get() == jobs[i], "wrong-result", "result of job %d", jobs[i]);
        }
    }
    pool.wait_all();
    sim::set_fault_mask(0);
    sim::block_for(50000000ull);
    auto n = pool.get_jobs_count();
    REQUIRE(n == 0, "count", "%zu jobs left after all are done", n);
}

void judge()
{
    auto n = job_total();
    for(int j = 0; j < n; ++j)
    {
        auto ran = sim::cell(C_JEND + j);
        auto how = sim::cell(C_OUTCOME + j);
        REQUIRE(ran == (how == 1 ? 1 : 0), "job-lost", "job %d was %s and ran %d times", j, how == 1 ? "accepted" : "refused", int(ran));
        REQUIRE(destroyed(j) == 1, "callable-life", "the callable of job %d was destroyed %d times", j, destroyed(j));
    }
}
void end(const char* what)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "%s: shutdown returned %d", what, left);
    judge();
}

auto block_workers(tpp::thread_pool& pool, size_t n) -> std::vector<tpp::job_future<void>>
{
    std::vector<tpp::job_future<void>> fs;
    for(size_t i = 0; i < n; ++i)
    {
        fs.push_back(pool.schedule(tpp::priority::critical(100),
                                   []()
                                   {
                                       sim::gate_open(G_RUN);
                                       sim::gate_wait(G_BLOCK);
                                   }));
    }
    sim::gate_wait(G_RUN, int64_t(n));
    return fs;
}
} // namespace

// several threads and jobs schedule while memory runs out
SCENARIO(c25_schedule, 6)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        auto shape = pool_shape::any(2, sim::wlp(1, 2));
        tpp::thread_pool pool(shape.map, small_capacity());
        std::vector<tpp::job_future<int>> fs;
        std::vector<int> jobs;
        std::vector<tpp::job_future<void>> blockers;
        auto blocked = sim::wlp(1, 2);
        if(blocked)
        {
            blockers = block_workers(pool, shape.total);
        }
        auto theirs = int(sim::wl(4));
        std::thread other(
            [&pool, theirs]()
            {
                for(int i = 0; i < theirs; ++i)
                {
                    schedule(pool, new_job(), some_group(), sim::wlp(1, 2), sim::wlp(1, 3));
                }
            });
        auto mine = int(sim::wlr(1, 6));
        for(int i = 0; i < mine; ++i)
        {
            auto j = new_job();
            jobs.push_back(j);
            if(!blocked && sim::wlp(1, 4))
            {
                // out of a running job
                sim::cell_set(C_OUTCOME + j, 1);
                auto inner = new_job();
                fs.push_back(pool.schedule(some_group(),
                                           [t = tok(j), j, inner, &pool]()
                                           {
                                               job_frame frame(j);
                                               schedule(pool, inner, some_group(), true, sim::wlp(1, 3));
                                               return j;
                                           }));
                continue;
            }
            auto before = blocked && theirs == 0 ? pool.get_jobs_count() : 0;
            fs.push_back(schedule(pool, j, some_group(), sim::wlp(2, 3), sim::wlp(1, 3)));
            if(blocked && theirs == 0)
            {
                auto now = pool.get_jobs_count();
                REQUIRE(now == before + (fs.back().valid() ? 1 : 0), "count", "%zu jobs left, %zu before a call that %s", now, before,
                        fs.back().valid() ? "succeeded" : "threw");
            }
        }
        other.join();
        if(blocked)
        {
            sim::gate_open(G_BLOCK, 1);
            for(auto& b : blockers)
            {
                b.get();
            }
        }
        settle(pool, fs, jobs);
    }
    end("schedule");
}

// the priority of a pending job either changes or not
SCENARIO(c25_priority, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        // one worker: the order in which the jobs start is defined
        tpp::thread_pool pool({{level::normal, 1}}, small_capacity());
        auto blockers = block_workers(pool, 1);
        auto count = int(sim::wlr(2, 6));
        std::vector<tpp::job_future<int>> fs;
        std::vector<int> jobs;
        std::vector<size_t> rank; // level * 100 + priority: all different
        for(int i = 0; i < count; ++i)
        {
            auto j = new_job();
            auto l = sim::wl(3);
            rank.push_back(l * 100 + size_t(i) * 10);
            sim::cell_set(C_OUTCOME + j, 1);
            jobs.push_back(j);
            fs.push_back(pool.schedule(tpp::priority::group(level(l), size_t(i) * 10),
                                       [t = tok(j), j]()
                                       {
                                           job_frame frame(j);
                                           sim::cell_set(C_ORDER + j, sim::cell_add(C_ORDER - 1 + 100, 1));
                                           return j;
                                       }));
        }
        auto changes = int(sim::wlr(1, 6));
        for(int k = 0; k < changes; ++k)
        {
            auto i = sim::wl(uint32_t(count));
            auto l = sim::wl(3);
            auto prio = size_t(k) * 10 + 5; // no two are alike
            if(sim::wlp(1, 6))
            {
                prio = rank[i] % 100; // as it is or only another level
            }
            auto threw = false, failed = false;
            {
                memory_runs_out out(int(sim::wlr(1, 6)));
                try
                {
                    if(sim::wlp(1, 2))
                    {
                        pool.change_priority(fs[i].id, tpp::priority::group(level(l), prio));
                    }
                    else
                    {
                        fs[i].change_priority(tpp::priority::group(level(l), prio));
                    }
                }
                catch(const std::bad_alloc&)
                {
                    threw = true;
                }
                failed = out.happened();
            }
            REQUIRE(!threw || failed, "alloc-failed-late", "bad_alloc without a cause");
            if(!threw)
            {
                rank[i] = l * 100 + prio;
            }
            else if(sim::wlp(1, 2))
            {
                pool.change_priority(fs[i].id, tpp::priority::group(level(l), prio));
                rank[i] = l * 100 + prio;
            }
        }
        REQUIRE(pool.get_jobs_count() == size_t(count) + 1, "count", "%zu jobs left of %d", pool.get_jobs_count(), count + 1);
        sim::gate_open(G_BLOCK, 1);
        blockers[0].get();
        settle(pool, fs, jobs);
        for(int a = 0; a < count; ++a)
        {
            for(int b = 0; b < count; ++b)
            {
                REQUIRE(rank[size_t(a)] <= rank[size_t(b)] || sim::cell(C_ORDER + jobs[size_t(a)]) < sim::cell(C_ORDER + jobs[size_t(b)]),
                        "order", "job %d of rank %zu started after job %d of rank %zu", jobs[size_t(a)], rank[size_t(a)], jobs[size_t(b)],
                        rank[size_t(b)]);
            }
        }
    }
    end("priority");
}

// waiting through the pool
SCENARIO(c25_wait, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        auto shape = pool_shape::any(2, false);
        tpp::thread_pool pool(shape.map);
        auto blockers = block_workers(pool, shape.total);
        auto count = int(sim::wlr(1, 4));
        std::vector<tpp::job_future<int>> fs;
        std::vector<int> jobs;
        for(int i = 0; i < count; ++i)
        {
            auto j = new_job();
            jobs.push_back(j);
            fs.push_back(schedule(pool, j, some_group(), false, false));
        }
        std::thread waiter(
            [&]()
            {
                tpp::this_thread::register_this_thread();
                auto tries = sim::wl(4);
                auto all = sim::wlp(1, 2);
                auto which = sim::wl(uint32_t(count));
                for(uint32_t k = 0;; ++k)
                {
                    std::unique_ptr<memory_runs_out> out;
                    auto n = int(sim::wlr(1, 5));
                    try
                    {
                        if(k < tries)
                        {
                            out = std::make_unique<memory_runs_out>(n);
                        }
                        if(all)
                        {
                            pool.wait_all();
                        }
                        else
                        {
                            pool.wait(fs[which].id);
                        }
                        break;
                    }
                    catch(const std::bad_alloc&)
                    {
                        REQUIRE(k < tries, "alloc-failed-late", "bad_alloc without a cause");
                    }
                }
                for(int i = 0; i < count; ++i)
                {
                    REQUIRE((!all && uint32_t(i) != which) || sim::cell(C_JEND + jobs[size_t(i)]) == 1, "wait-early",
                            "the wait returned before job %d was done", jobs[size_t(i)]);
                }
                tpp::this_thread::unregister_this_thread();
            });
        if(sim::wlp(2, 3))
        {
            sim::block_for(1 + sim::wl(5000));
        }
        sim::gate_open(G_BLOCK, 1);
        waiter.join();
        settle(pool, fs, jobs);
    }
    end("wait");
}

// a pool that cannot be made leaves nothing behind
SCENARIO(c25_construct, 4)
{
    auto how = sim::wl(3); // memory, threads, both
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | (how ? sim::fb_create : 0));
    tpp::init();
    {
        auto before = tpp::get_all_registered_threads();
        auto shape = pool_shape::any(3, true);
        auto tries = sim::wlr(1, 3);
        for(uint32_t k = 0; k < tries; ++k)
        {
            std::unique_ptr<tpp::thread_pool> pool;
            auto threw = false, failed = false;
            auto cap = small_capacity();
            {
                auto n = int(sim::wlr(1, 70));
                std::unique_ptr<memory_runs_out> out;
                if(how != 1)
                {
                    out = std::make_unique<memory_runs_out>(n);
                }
                try
                {
                    pool = std::make_unique<tpp::thread_pool>(shape.map, cap);
                }
                catch(const std::bad_alloc&)
                {
                    threw = true;
                }
                catch(const std::system_error& e)
                {
                    REQUIRE(how != 0 && e.code() == std::errc::resource_unavailable_try_again, "wrong-error", "constructor throws %s", e.what());
                    threw = true;
                    sim::nontrivial();
                }
                failed = out && out->happened();
            }
            REQUIRE(how != 0 || !threw || failed, "alloc-failed-late", "failed without a cause");
            auto now = tpp::get_all_registered_threads().size();
            auto expected = before.size() + (threw ? 0 : shape.total);
            REQUIRE(now == expected, "thread-left", "%zu threads registered, expected %zu after the constructor %s", now, expected,
                    threw ? "threw" : "returned");
            if(pool)
            {
                auto j = new_job();
                auto f = schedule(*pool, j, tpp::priority::normal(), false, false);
                REQUIRE(f.get() == j, "wrong-result", "result of job %d", j);
                pool->wait_all();
            }
        }
    }
    end("construct");
}
