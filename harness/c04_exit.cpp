// C04: exit notification releases every wait and leaves no task behind
#include "blocking.hpp"
#include "slow.hpp"
#include "large.hpp"

namespace
{
constexpr int C_KIND = C_USER + 2;

void check_time(const char* what)
{
    REQUIRE(sim::now() < HOUR / 2, "exit-not-noticed", "%s only happened after the time limit of the blocking call (%s)",
            what, park_name(uint32_t(sim::cell(C_KIND))));
}

// destroyed with the task; uses the library from there
struct reenter
{
    int what;
    tpp::thread::id to;
    explicit reenter(int w, tpp::thread::id t) : what(w), to(t)
    {
    }
    reenter(reenter&& o) noexcept : what(o.what), to(o.to)
    {
        o.what = -1;
    }
    reenter(const reenter&) = delete;
    ~reenter()
    {
        switch(what)
        {
            case 1:
                tpp::invoke(to, []() {});
                break;
            case 2:
                tpp::this_thread::get_id();
                tpp::this_thread::process();
                break;
            case 3:
                tpp::this_thread::wait_for(10us);
                break;
            case 4:
            {
                tpp::promise<int> p;
                p.get_future().wait_for(10us);
                break;
            }
            case 5:
                tpp::get_pending_task_count(tpp::this_thread::get_id());
                tpp::invoke(tpp::this_thread::get_id(), []() {});
                break;
            case 6:
                tpp::this_thread::sleep_for(5us);
                break;
            default:
                break;
        }
    }
};

struct sent
{
    int id;
    tpp::future<int> f;
    bool has_future = false;
    bool accepted = false;
};

void target_loop(uint32_t kind, park_env* env)
{
    tpp::this_thread::register_this_thread();
    while(!tpp::this_thread::notified_for_exit())
    {
        REQUIRE(!park(kind, *env), "wrong-result", "blocking call %s returned a wrong result", park_name(kind));
        check_time("return of the call");
    }
    // calls entered after the notification return, too
    if(kind != PK_MUTEX)
    {
        REQUIRE(!park(kind, *env), "wrong-result", "%s after exit notification returned a wrong result", park_name(kind));
        check_time("return of a later call");
    }
    tpp::this_thread::unregister_this_thread();
}

auto send_one(tpp::thread::id id, tpp::thread::id main_id, park_env* env) -> sent
{
    sent s;
    s.id = new_task();
    auto re = int(sim::wl(8));
    auto body = [env, re]()
    {
        (void)re;
        switch(sim::wl(6))
        {
            case 1:
                tpp::this_thread::process();
                break;
            case 2:
                tpp::this_thread::wait_for(50us);
                break;
            case 3:
            {
                // block for good inside a task: only exit ends this
                auto k = sim::wl(PK_POOL_WAIT);
                REQUIRE(!park(k, *env), "wrong-result", "nested %s returned a wrong result", park_name(k));
                break;
            }
            default:
                break;
        }
    };
    sim::cell_add(C_OUT, 1);
    switch(sim::wl(4))
    {
        default:
            s.accepted = tpp::invoke(id, tracked(s.id, [body, r = reenter(re, main_id)]() mutable { body(); }));
            break;
        case 1:
        {
            auto n = s.id;
            s.f = tpp::async(id, std::launch::async,
                             tracked(s.id,
                                     [body, n, r = reenter(re, main_id)]() mutable
                                     {
                                         body();
                                         return n;
                                     }));
            s.has_future = true;
            s.accepted = true;
            break;
        }
        case 2:
        {
            // a continuation aimed at the exiting thread
            auto n = s.id;
            tpp::promise<int> p;
            s.f = p.get_future().then(id,
                                      tracked(s.id,
                                              [body, n, r = reenter(re, main_id)](tpp::future<int> f) mutable
                                              {
                                                  REQUIRE(f.is_ready(), "not-ready", "continuation before the result");
                                                  body();
                                                  return n;
                                              }));
            if(sim::wlp(1, 2))
            {
                p.set_value(1);
            }
            s.has_future = true;
            s.accepted = true;
            break;
        }
    }
    sim::ev(E_SUBMIT, s.id, int64_t(id), s.accepted);
    return s;
}

void settle(sent& s)
{
    if(!s.has_future)
    {
        return;
    }
    s.has_future = false;
    // the future must complete: with the value if the task ran, else broken
    bool value = false;
    try
    {
        s.f.wait();
        if(tpp::this_thread::notified_for_exit() && !s.f.is_ready())
        {
            return; // the waiting thread was asked to exit, too
        }
        auto v = s.f.get();
        REQUIRE(v == s.id, "wrong-value", "future %d delivered %d", s.id, v);
        value = true;
    }
    catch(const std::future_error& e)
    {
        REQUIRE(e.code() == std::future_errc::broken_promise, "wrong-error", "future %d: error %d", s.id, e.code().value());
    }
    sim::ev(E_MARK, s.id, value ? 1 : 0);
}

void check_all(int64_t main_native)
{
    (void)main_native;
    auto n = task_count();
    auto r = collect(n);
    std::vector<int> val(size_t(n), -1);
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind == E_MARK)
        {
            val[size_t(e.a)] = int(e.b);
        }
    }
    bool left = false, ran = false;
    for(int i = 0; i < n; ++i)
    {
        const auto& t = r[size_t(i)];
        REQUIRE(t.started <= 1, "task-ran-twice", "task %d started %d times", i, t.started);
        REQUIRE(t.started == t.ended, "task-not-finished", "task %d started but did not end", i);
        REQUIRE(t.destroyed == 1, "callable-lifetime", "callable %d destroyed %d times (started %d)", i, t.destroyed, t.started);
        REQUIRE(t.accepted || t.started == 0, "rejected-task-ran", "task %d rejected but ran", i);
        if(t.started)
        {
            REQUIRE(t.tid == t.target, "wrong-thread", "task %d ran on thread %ld", i, long(t.tid));
        }
        if(val[size_t(i)] >= 0)
        {
            REQUIRE(val[size_t(i)] == t.started, "future-disagrees", "task %d started %d but its future %s", i, t.started,
                    val[size_t(i)] ? "has a value" : "is broken");
        }
        left |= t.accepted && !t.started;
        ran |= t.started;
    }
    sim::nontrivial();
    if(left)
    {
        sim::probe("task_left_at_exit");
    }
    if(ran)
    {
        sim::probe("task_ran");
    }
}

void exit_run(bool use_shutdown)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    auto kind = sim::wl(PK_NUM);
    sim::cell_set(C_KIND, kind);
    bool looping = sim::wlp(1, 4);
    {
        park_env env;
        std::unique_ptr<tpp::thread_pool> pool;
        if(kind == PK_POOL_WAIT || kind == PK_POOL_WAIT_ALL)
        {
            pool = std::make_unique<tpp::thread_pool>(std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, 1}});
            env.pool = pool.get();
            env.job = pool->schedule([]() { sim::gate_wait(9); }).id;
        }
        if(kind == PK_MUTEX)
        {
            env.tm.lock();
        }
        auto main_id = tpp::this_thread::get_id();
        tpp::thread t;
        if(looping)
        {
            t = tpp::make_thread("target");
        }
        else
        {
            const std::string name = "target";
            t = tpp::thread(name, target_loop, kind, &env);
        }
        auto id = t.get_id();
        std::vector<std::thread> raw;
        auto senders = sim::wl(3);
        for(uint32_t s = 0; s < senders; ++s)
        {
            raw.emplace_back(
                [id, main_id, &env, s]()
                {
                    if(s == 1)
                    {
                        tpp::this_thread::register_this_thread();
                    }
                    std::vector<sent> mine;
                    auto m = sim::wlr(1, 4);
                    for(uint32_t i = 0; i < m; ++i)
                    {
                        mine.push_back(send_one(id, main_id, &env));
                    }
                    if(s == 1)
                    {
                        // a third thread waits for the results
                        for(auto& x : mine)
                        {
                            settle(x);
                        }
                        tpp::this_thread::unregister_this_thread();
                    }
                    else
                    {
                        sim::gate_wait(7);
                    }
                });
        }
        std::vector<sent> mine;
        auto m = sim::wl(4);
        for(uint32_t i = 0; i < m; ++i)
        {
            mine.push_back(send_one(id, main_id, &env));
        }
        auto route = use_shutdown ? 5u : sim::wl(5);
        if(kind == PK_MUTEX && route == 3)
        {
            route = 1; // we hold the lock the thread waits for
        }
        if(route == 5)
        {
            // the library tells all threads; this one ends by itself
            if(kind == PK_MUTEX)
            {
                env.tm.unlock();
            }
            sim::gate_open(9);
            if(pool)
            {
                env.pool->wait(env.job);
            }
            for(auto& x : mine)
            {
                x.f = {};
            }
            sim::gate_open(7);
            auto left = tpp::shutdown(std::chrono::seconds(1000));
            REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
            check_time("shutdown");
            for(auto& r : raw)
            {
                r.join();
            }
            t.join();
            pool.reset();
            check_all(0);
            return;
        }
        std::thread helper;
        switch(route)
        {
            default:
                break;
            case 1:
                helper = std::thread([id]() { tpp::notify_for_exit(id); });
                break;
            case 2:
                tpp::invoke(id, [id]() { tpp::notify_for_exit(id); });
                break;
            case 3:
                // waits for results while somebody else stops the thread
                helper = std::thread([id]() { tpp::notify_for_exit(id); });
                for(auto& x : mine)
                {
                    settle(x);
                }
                break;
        }
        if(kind == PK_MUTEX)
        {
            env.tm.unlock();
        }
        if(route == 4)
        {
            tpp::thread other = std::move(t);
            t = std::move(other);
            t = tpp::thread();
        }
        else
        {
            t.join();
        }
        check_time("join");
        REQUIRE(!tpp::invoke(id, []() {}), "accepts-after-exit", "a joined thread still accepts tasks");
        REQUIRE(tpp::get_pending_task_count(id) == 0, "pending-after-exit", "a joined thread has pending tasks");
        for(auto i : tpp::get_all_registered_threads())
        {
            REQUIRE(i != id, "registered-after-exit", "a joined thread is still registered");
        }
        sim::gate_open(7);
        for(auto& x : mine)
        {
            settle(x);
        }
        if(helper.joinable())
        {
            helper.join();
        }
        for(auto& r : raw)
        {
            r.join();
        }
        sim::gate_open(9);
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    check_time("shutdown");
    check_all(0);
}
} // namespace

SCENARIO(c04_exit, 6)
{
    exit_run(false);
}
SCENARIO(c04_shutdown, 3)
{
    exit_run(true);
}

// results of broken promises continue inline while the thread is going away
SCENARIO(c04_abandoned_chain, 2)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        tpp::thread t;
        if(sim::wlp(1, 2))
        {
            t = tpp::make_thread("target");
        }
        else
        {
            t = tpp::thread(
                []()
                {
                    tpp::this_thread::register_this_thread();
                    sim::gate_wait(1);
                    tpp::this_thread::unregister_this_thread();
                });
        }
        auto id = t.get_id();
        auto n = sim::wlr(1, 3);
        std::vector<tpp::future<int>> fs;
        for(uint32_t i = 0; i < n; ++i)
        {
            auto what = int(sim::wl(7));
            auto where = sim::wl(3);
            auto f = tpp::async(id, std::launch::async, []() { return 1; });
            fs.push_back(f.then(where == 0 ? tpp::caller_id() : where == 1 ? id : tpp::main_thread::get_id(),
                                sim::wlp(1, 3) ? std::launch::async : std::launch::deferred,
                                [what](tpp::future<int> g)
                                {
                                    reenter r(what, tpp::main_thread::get_id());
                                    REQUIRE(g.is_ready(), "not-ready", "continuation ran before the result");
                                    try
                                    {
                                        return g.get();
                                    }
                                    catch(const std::future_error&)
                                    {
                                        return 2;
                                    }
                                }));
        }
        sim::gate_open(1);
        t.join();
        for(auto& f : fs)
        {
            int v = 0;
            try
            {
                v = f.get();
            }
            catch(const std::future_error& e)
            {
                REQUIRE(e.code() == std::future_errc::broken_promise, "wrong-error", "error %d", e.code().value());
            }
            REQUIRE(v >= 0 && v <= 2, "wrong-value", "value %d", v);
        }
        sim::nontrivial();
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// a thread that never runs out of tasks ends all the same
namespace
{
constexpr int C_TOLD = C_USER + 3;  // the exit notification has returned
constexpr int C_AFTER = C_USER + 4; // tasks started after that

void endless(tpp::thread::id id, uint32_t width)
{
    if(sim::cell(C_TOLD))
    {
        auto n = sim::cell_add(C_AFTER, 1);
        REQUIRE(n <= 40, "exit-not-noticed", "%ld tasks were started after the exit notification", long(n));
    }
    sim::spend(500);
    if(tpp::invoke(id, [id]() { endless(id, 1); }) && width > 1)
    {
        tpp::invoke(id, [id, width]() { endless(id, width - 1); });
    }
}
} // namespace

SCENARIO(c04_busy, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        park_env env;
        auto kind = sim::wl(PK_NUM + 3);
        tpp::thread t;
        if(kind == PK_POOL_WAIT || kind == PK_POOL_WAIT_ALL || kind == PK_MUTEX)
        {
            kind = PK_NUM;
        }
        sim::cell_set(C_KIND, kind);
        if(kind == PK_NUM + 2)
        {
            t = tpp::make_thread("target");
        }
        else
        {
            t = tpp::thread(
                [kind, &env]()
                {
                    tpp::this_thread::register_this_thread();
                    while(!tpp::this_thread::notified_for_exit())
                    {
                        if(kind == PK_NUM)
                        {
                            tpp::this_thread::process();
                        }
                        else if(kind == PK_NUM + 1)
                        {
                            tpp::this_thread::process_for(1h);
                        }
                        else
                        {
                            REQUIRE(!park(kind, env), "wrong-result", "blocking call %s returned a wrong result", park_name(kind));
                        }
                    }
                    tpp::this_thread::unregister_this_thread();
                });
        }
        auto id = t.get_id();
        auto width = sim::wlr(1, 3);
        tpp::invoke(id, [id, width]() { endless(id, width); });
        if(sim::wlp(2, 3))
        {
            sim::block_for(1000 * sim::wlr(1, 30));
        }
        if(sim::wlp(1, 2))
        {
            tpp::notify_for_exit(id);
            sim::cell_set(C_TOLD, 1);
        }
        sim::nontrivial();
        t.join();
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    REQUIRE(sim::now() < HOUR / 2, "exit-not-noticed", "the thread only ended after an hour");
}

// after a long silence
SCENARIO(c04_slow, 1)
{
    slow_init();
    {
        park_env env;
        auto kind = sim::wl(PK_POOL_WAIT);
        auto t = tpp::thread(
            [kind, &env]()
            {
                tpp::this_thread::register_this_thread();
                while(!tpp::this_thread::notified_for_exit())
                {
                    REQUIRE(!park(kind, env), "wrong-result", "blocking call %s returned a wrong result", park_name(kind));
                }
                tpp::this_thread::unregister_this_thread();
            });
        auto id = t.get_id();
        auto n = sim::wlr(1, 2);
        for(uint32_t i = 0; i < n; ++i)
        {
            gap();
            if(i == 0 && sim::wlp(1, 2))
            {
                tpp::notify_for_exit(id);
            }
        }
        auto t0 = sim::now();
        t.join();
        prompt(t0, "the thread ended");
    }
    slow_end("c04");
}

SCENARIO(c04_large, 1)
{
    large::exits();
}
