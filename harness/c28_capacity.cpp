// C28: after a burst of tasks a thread keeps no more memory than configured
#include "blocking.hpp"
#include "pool.hpp"

namespace
{
constexpr int C_RAN = C_USER + 600;
constexpr int G_HOLD = 10;  // + thread
constexpr int G_HELD = 20;  // + thread
constexpr int G_SINGLE = 3; // executed singles
constexpr int C_SINGLES = C_USER + 590;

struct target
{
    tpp::thread own;
    tpp::thread::id id = 0;
    bool main = false;
    size_t threshold = 0;
    size_t reserved = 0;
    uint32_t burst = 0;
};

auto any_config() -> tpp::tasks_capacity_config
{
    static const size_t reserved[] = {16, 0, 1, 40};
    static const size_t thr[] = {16, 0, 1, 3, 64};
    tpp::tasks_capacity_config c;
    c.default_reserved_tasks = reserved[sim::wl(4)];
    c.capacity_shrink_threashold = thr[sim::wl(5)];
    return c;
}

// sends one task and waits for it
void single(target& t, uint32_t how)
{
    auto n = sim::cell_add(C_SINGLES, 1);
    auto f = []() { sim::gate_open(G_SINGLE); };
    if(how % 2)
    {
        tpp::async(t.id, std::launch::async, f);
    }
    else
    {
        tpp::invoke(t.id, f);
    }
    if(t.main)
    {
        tpp::this_thread::process();
    }
    sim::gate_wait(G_SINGLE, n);
}

// nobody does anything any more
auto bytes() -> int64_t
{
    sim::block_for(1000000000ull);
    return int64_t(sim::live_bytes());
}
} // namespace

SCENARIO(c28_burst, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init_data data;
    auto standard = sim::wlp(1, 8); // as it comes
    if(!standard)
    {
        data.tasks_capacity = any_config();
    }
    auto huge = sim::wlp(1, 4); // every thread has its own setting
    if(huge)
    {
        data.tasks_capacity.capacity_shrink_threashold = 100000;
    }
    tpp::init(data);
    {
        std::vector<target> ts(sim::wlr(1, 2));
        auto main = sim::wlp(1, 4);
        for(size_t i = 0; i < ts.size(); ++i)
        {
            auto& t = ts[i];
            t.threshold = data.tasks_capacity.capacity_shrink_threashold;
            t.reserved = data.tasks_capacity.default_reserved_tasks;
            t.main = main && i == 0;
            if(t.main)
            {
                t.id = tpp::this_thread::get_id();
                // registered before its settings were known
                t.threshold = std::max(t.threshold, tpp::tasks_capacity_config{}.capacity_shrink_threashold);
                t.reserved = std::max(t.reserved, tpp::tasks_capacity_config{}.default_reserved_tasks);
            }
            else
            {
                t.own = tpp::make_thread("burst");
                t.id = t.own.get_id();
            }
            if(huge || sim::wlp(1, 2))
            {
                auto c = any_config();
                REQUIRE(tpp::set_thread_config(t.id, c), "refused", "a thread can not be configured");
                t.threshold = c.capacity_shrink_threashold;
                t.reserved = std::max(t.reserved, c.default_reserved_tasks);
            }
        }
        auto how = sim::wl(2);
        for(auto& t : ts)
        {
            for(int k = 0; k < 3; ++k)
            {
                single(t, how);
            }
        }
        auto rounds = sim::wlr(1, 2);
        auto before = bytes();
        for(uint32_t r = 0; r < rounds; ++r)
        {
            int64_t allowed = 0;
            for(size_t i = 0; i < ts.size(); ++i)
            {
                auto& t = ts[i];
                t.burst = uint32_t(t.threshold) + sim::wlr(150, 250);
                if(t.threshold >= 256)
                {
                    t.burst = 600;
                }
                allowed += int64_t(2 * std::max(t.threshold, t.reserved) * sizeof(tpp::task) + 2048);
                if(!t.main)
                {
                    tpp::invoke(t.id,
                                [i, r]()
                                {
                                    sim::gate_open(G_HELD + int(i));
                                    sim::gate_wait(G_HOLD + int(i), int64_t(r) + 1);
                                });
                    sim::gate_wait(G_HELD + int(i), int64_t(r) + 1);
                }
                auto base = sim::cell(C_RAN + int(i));
                REQUIRE(base == 0, "wrong-count", "a task too many");
                for(uint32_t k = 0; k < t.burst; ++k)
                {
                    auto ok = tpp::invoke(t.id,
                                          [i, k]()
                                          {
                                              REQUIRE(sim::cell(C_RAN + int(i)) == int64_t(k), "wrong-order", "task %u of a burst out of order", k);
                                              sim::cell_add(C_RAN + int(i), 1);
                                          });
                    REQUIRE(ok, "refused", "a task of a burst was refused");
                }
            }
            for(size_t i = 0; i < ts.size(); ++i)
            {
                auto& t = ts[i];
                if(t.main)
                {
                    tpp::this_thread::process();
                }
                else
                {
                    sim::gate_open(G_HOLD + int(i));
                }
                for(int k = 0; k < 4; ++k)
                {
                    single(t, how);
                }
                REQUIRE(sim::cell(C_RAN + int(i)) == int64_t(t.burst), "lost", "%ld of %u tasks of a burst were executed",
                        long(sim::cell(C_RAN + int(i))), t.burst);
                sim::cell_set(C_RAN + int(i), 0);
            }
            auto after = bytes();
            sim::nontrivial();
            REQUIRE(after - before <= allowed, "memory-kept", "%ld bytes more than before the bursts, %ld allowed (threshold %zu, burst of %u)",
                    long(after - before), long(allowed), ts[0].threshold, ts[0].burst);
        }
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// configuring at any time changes nothing about the tasks
SCENARIO(c28_configure, 2)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data data;
    data.tasks_capacity = any_config();
    tpp::init(data);
    {
        auto a = tpp::make_thread("a");
        auto id = a.get_id();
        auto gone = []()
        {
            auto t = tpp::make_thread("gone");
            return t.get_id();
        }();
        auto senders = int(sim::wlr(1, 3));
        auto n = int(sim::wlr(1, 12));
        std::vector<std::thread> raw;
        for(int s = 0; s < senders; ++s)
        {
            raw.emplace_back(
                [s, n, id]()
                {
                    for(int k = 0; k < n; ++k)
                    {
                        auto ok = tpp::invoke(id,
                                              [s, k, id]()
                                              {
                                                  REQUIRE(sim::cell(C_RAN + s) == k, "wrong-order", "task %d of a sender out of order", k);
                                                  sim::cell_add(C_RAN + s, 1);
                                                  if(k % 5 == 4)
                                                  {
                                                      REQUIRE(tpp::set_thread_config(id, {size_t(k), size_t(s)}), "refused", "own thread not configured");
                                                  }
                                              });
                        REQUIRE(ok, "refused", "a task was refused");
                    }
                });
        }
        auto times = int(sim::wlr(1, 6));
        for(int i = 0; i < times; ++i)
        {
            auto c = any_config();
            REQUIRE(tpp::set_thread_config(id, c), "refused", "a thread can not be configured");
            if(sim::wlp(1, 4))
            {
                REQUIRE(!tpp::set_thread_config(gone, c), "accepted", "a thread that is gone was configured");
                REQUIRE(!tpp::set_thread_config(tpp::invalid_id(), c), "accepted", "no thread was configured");
                REQUIRE(tpp::set_thread_config(tpp::this_thread::get_id(), c), "refused", "the own thread can not be configured");
            }
        }
        sim::nontrivial();
        for(auto& t : raw)
        {
            t.join();
        }
        sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
        tpp::async(id, std::launch::async, []() {}).wait();
        for(int s = 0; s < senders; ++s)
        {
            REQUIRE(sim::cell(C_RAN + s) == n, "lost", "%ld of %d tasks were executed", long(sim::cell(C_RAN + s)), n);
        }
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// the workers of a pool, after a backlog that was given up
SCENARIO(c28_pool, 2)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init_data data;
    if(sim::wlp(1, 2))
    {
        data.tasks_capacity.capacity_shrink_threashold = 100000;
    }
    tpp::init(data);
    {
        tpp::tasks_capacity_config config;
        config.default_reserved_tasks = sim::wl(3) * 8;
        config.capacity_shrink_threashold = sim::wl(3) * 8;
        auto workers = sim::wlr(1, 3);
        std::map<level, size_t> map{{level::normal, 1}};
        if(workers > 1)
        {
            map[level::high] = workers - 1;
        }
        tpp::thread_pool pool(map, config);
        auto n = int(sim::wlr(260, 300));
        auto rest = [&]()
        {
            for(int k = 0; k < 4; ++k)
            {
                pool.schedule(tpp::priority::critical(), []() { return 1; }).wait();
                sim::block_for(1000000000ull); // all workers had a look
            }
        };
        rest();
        auto before = bytes();
        for(uint32_t w = 0; w < workers; ++w)
        {
            pool.schedule(w ? tpp::priority::high() : tpp::priority::normal(),
                          []()
                          {
                              sim::gate_open(G_HELD);
                              sim::gate_wait(G_HOLD);
                          });
            sim::gate_wait(G_HELD, int64_t(w) + 1);
        }
        auto backlog = int64_t(0);
        {
            std::vector<tpp::job_future<void>> fs;
            for(int i = 0; i < n; ++i)
            {
                fs.push_back(pool.schedule(tpp::priority::critical(size_t(i % 3)), []() { sim::cell_add(C_RAN, 1); }));
            }
            backlog = int64_t(sim::live_bytes()) - before;
            pool.stop_all();
            for(auto& f : fs)
            {
                REQUIRE(f.is_ready() && f.has_error(), "not-stopped", "a job was not stopped");
            }
        }
        sim::gate_open(G_HOLD);
        rest();
        auto after = bytes();
        sim::nontrivial();
        REQUIRE(sim::cell(C_RAN) == 0, "not-stopped", "a stopped job was executed");
        // what the pool itself keeps to find its jobs, and the queues of the workers
        auto allowed = int64_t(n) * 24 + 2048 + int64_t(workers) * 2 * 16 * int64_t(sizeof(tpp::task));
        REQUIRE(after - before <= allowed, "memory-kept", "%ld bytes more than before a backlog of %d jobs (%ld bytes), %ld allowed", long(after - before), n,
                long(backlog), long(allowed));
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}
