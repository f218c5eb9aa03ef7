// C03: work sent to a blocked (or just blocking) thread always wakes it up
#include "blocking.hpp"
#include "slow.hpp"
#include "large.hpp"

namespace
{
constexpr int C_RAN = C_USER; // number of tasks the target executed
constexpr int C_RET = C_USER + 1;
constexpr int C_KIND = C_USER + 2;

void check_time(const char* what)
{
    // no time faults in these runs: the clock reaches an hour only when nobody
    // could run, i.e. when a wakeup was lost
    REQUIRE(sim::now() < HOUR / 2, "lost-wakeup", "%s only happened after the time limit of the blocking call (%s)", what,
            park_name(uint32_t(sim::cell(C_KIND))));
}

void target_body(uint32_t kind, park_env* env)
{
    tpp::this_thread::register_this_thread();
    while(!tpp::this_thread::notified_for_exit())
    {
        REQUIRE(!park(kind, *env), "wrong-result", "blocking call %s returned a wrong result", park_name(kind));
        check_time("return of the call");
        sim::cell_add(C_RET, 1);
    }
    tpp::this_thread::unregister_this_thread();
}

// tasks arrive one at a time or concurrently; nothing else ever happens
void deliver(bool nested)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | sim::fb_sysclock);
    tpp::init();
    auto kind = sim::wl(PK_NUM);
    // how many blocking calls the target is in at once, each inside a task
    // executed by the one around it
    std::vector<uint32_t> inner(nested ? 1 + sim::wl(4) : 0);
    bool need_pool = kind == PK_POOL_WAIT || kind == PK_POOL_WAIT_ALL;
    for(auto& k : inner)
    {
        k = sim::wl(PK_NUM_NONMUTEX);
        need_pool = need_pool || k == PK_POOL_WAIT || k == PK_POOL_WAIT_ALL;
    }
    sim::cell_set(C_KIND, kind);
    {
        park_env env;
        std::unique_ptr<tpp::thread_pool> pool;
        if(need_pool)
        {
            pool = std::make_unique<tpp::thread_pool>(std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, 1}});
            env.pool = pool.get();
            env.job = pool->schedule([]() { sim::gate_wait(9); }).id;
        }
        if(kind == PK_MUTEX)
        {
            env.tm.lock();
        }
        tpp::thread t(target_body, kind, &env);
        auto id = t.get_id();
        auto senders = sim::wlr(1, 3);
        auto per = sim::wlr(1, 3);
        auto work = [id]()
        {
            return tpp::invoke(id,
                               []()
                               {
                                   check_time("execution of a task");
                                   sim::cell_add(C_RAN, 1);
                                   sim::gate_open(1);
                               });
        };
        bool settle = !inner.empty() && sim::wlp(1, 2);
        for(auto k : inner)
        {
            sim::cell_set(C_KIND, k);
            tpp::invoke(id,
                        [&env, k]()
                        {
                            sim::gate_open(2);
                            while(!tpp::this_thread::notified_for_exit())
                            {
                                REQUIRE(!park(k, env), "wrong-result", "nested %s returned a wrong result", park_name(k));
                            }
                        });
        }
        if(settle)
        {
            sim::gate_wait(2, int64_t(inner.size()));
        }
        std::vector<std::thread> raw;
        for(uint32_t s = 1; s < senders; ++s)
        {
            raw.emplace_back(
                [work, per]()
                {
                    for(uint32_t i = 0; i < per; ++i)
                    {
                        REQUIRE(work(), "task-refused", "send refused");
                    }
                });
        }
        int64_t sent = int64_t(senders - 1) * per;
        if(sim::wlp(1, 2))
        {
            // lock step: each task must run before the next one is sent
            for(auto& r : raw)
            {
                r.join();
            }
            raw.clear();
            sim::gate_wait(1, sent);
            for(uint32_t i = 0; i < per; ++i)
            {
                REQUIRE(work(), "task-refused", "send refused");
                sim::gate_wait(1, ++sent);
            }
        }
        else
        {
            for(uint32_t i = 0; i < per; ++i)
            {
                REQUIRE(work(), "task-refused", "send refused");
                ++sent;
            }
            for(auto& r : raw)
            {
                r.join();
            }
            sim::gate_wait(1, sent);
        }
        sim::nontrivial();
        if(kind == PK_MUTEX)
        {
            env.tm.unlock();
        }
        t.join();
        check_time("exit");
        sim::gate_open(9);
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}
} // namespace

SCENARIO(c03_task_wakes, 6)
{
    deliver(false);
}
SCENARIO(c03_task_wakes_nested, 3)
{
    deliver(true);
}

// a bare notification ends exactly one wait
SCENARIO(c03_notify, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        auto timed = sim::wlp(1, 2);
        auto n = sim::wlr(1, 4);
        tpp::thread t(
            [timed, n]()
            {
                tpp::this_thread::register_this_thread();
                for(uint32_t i = 0; i < n; ++i)
                {
                    if(timed)
                    {
                        REQUIRE(tpp::this_thread::wait_for(1h) == std::cv_status::no_timeout, "lost-wakeup",
                                "wait_for timed out although notified");
                    }
                    else
                    {
                        tpp::this_thread::wait();
                    }
                    REQUIRE(!tpp::this_thread::notified_for_exit(), "woke-for-exit", "exit flag without notification");
                    sim::gate_open(1);
                }
                // all notifications are used up now: a further wait must block
                auto t0 = sim::now();
                REQUIRE(tpp::this_thread::wait_for(5ms) == std::cv_status::timeout, "spurious-return",
                        "a wait returned without an event");
                REQUIRE(sim::now() - t0 >= 5000000, "early-timeout", "timeout before its time");
                sim::gate_open(2);
                sim::gate_wait(3);
                tpp::this_thread::unregister_this_thread();
            });
        auto id = t.get_id();
        bool step = sim::wlp(1, 2);
        std::vector<std::thread> raw;
        for(uint32_t i = 0; i < n; ++i)
        {
            if(step)
            {
                tpp::notify(id);
                sim::gate_wait(1, i + 1);
            }
            else
            {
                raw.emplace_back([id]() { tpp::notify(id); });
            }
        }
        for(auto& r : raw)
        {
            r.join();
        }
        sim::gate_wait(1, n);
        sim::gate_wait(2);
        REQUIRE(sim::now() < HOUR / 2, "lost-wakeup", "notification only noticed after the time limit");
        sim::nontrivial();
        sim::gate_open(3);
        t.join();
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// two threads that only ever wake each other
SCENARIO(c03_ping_pong, 2)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    auto k1 = sim::wl(PK_POOL_WAIT), k2 = sim::wl(PK_POOL_WAIT);
    sim::cell_set(C_KIND, k1);
    {
        park_env e1, e2;
        tpp::thread a(target_body, k1, &e1);
        tpp::thread b(target_body, k2, &e2);
        auto ia = a.get_id(), ib = b.get_id();
        struct ball
        {
            tpp::thread::id me, other;
            int left;
            void operator()() const
            {
                check_time("execution of a task");
                if(left == 0)
                {
                    sim::gate_open(1);
                    return;
                }
                REQUIRE(tpp::invoke(other, ball{other, me, left - 1}), "task-refused", "send refused");
            }
        };
        auto balls = sim::wlr(1, 2);
        for(uint32_t i = 0; i < balls; ++i)
        {
            tpp::invoke(ia, ball{ia, ib, int(sim::wlr(2, 8))});
        }
        sim::gate_wait(1, balls);
        sim::nontrivial();
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// after a long silence
SCENARIO(c03_slow, 1)
{
    slow_init();
    {
        park_env env;
        auto kind = sim::wl(PK_POOL_WAIT);
        auto t = tpp::thread(
            [kind, &env]()
            {
                tpp::this_thread::register_this_thread();
                while(!tpp::this_thread::notified_for_exit())
                {
                    REQUIRE(!park(kind, env), "wrong-result", "blocking call %s returned a wrong result", park_name(kind));
                }
                tpp::this_thread::unregister_this_thread();
            });
        auto id = t.get_id();
        auto n = sim::wlr(1, 2);
        for(uint32_t i = 0; i < n; ++i)
        {
            gap();
            auto t0 = sim::now();
            REQUIRE(tpp::invoke(id, []() { sim::gate_open(1); }), "rejected", "a live thread refused the task");
            sim::gate_wait(1, int64_t(i) + 1);
            prompt(t0, "the task ran");
        }
        auto t0 = sim::now();
        t.join();
        prompt(t0, "the thread ended");
    }
    slow_end("c03");
}

SCENARIO(c03_large, 1)
{
    large::nested();
}
