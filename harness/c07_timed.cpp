// C07: timed waits on futures report the truth and keep their deadline
#include "blocking.hpp"
#include "slow.hpp"

namespace
{
enum : int
{
    E_WAIT_CALL = E_USER, // a wait, b duration ns, c depth
    E_WAIT_RET,           // a wait, b status 0 ready 1 timeout
    E_SET_CALL,
    E_SET_RET,
    E_NOISE, // a noise task started
};
constexpr int C_WAITS = C_USER;     // wait ids
constexpr int C_STOP = C_USER + 1;  // noise stops
constexpr int C_NOISE = C_USER + 2; // noise tasks started

auto duration() -> uint64_t
{
    static const uint64_t d[] = {100000, 0, 1, 999, 1000, 1500, 10000, 30001, 1000000, 50000000};
    return d[sim::wl(10)];
}

template<typename Fut>
auto timed(Fut& f, uint64_t ns) -> std::future_status
{
    switch(sim::wl(3))
    {
        default:
            return f.wait_for(std::chrono::nanoseconds(ns));
        case 1:
            return until(ns, [&f](auto t) { return f.wait_until(t); });
        case 2:
            if(ns % 1000 == 0)
            {
                return f.wait_for(std::chrono::microseconds(ns / 1000));
            }
            return f.wait_for(std::chrono::nanoseconds(ns));
    }
}

// one observed timed wait; the facts are judged afterwards from the history
template<typename Fut>
auto observed(Fut& f, uint64_t ns, int depth) -> std::future_status
{
    auto w = sim::cell_add(C_WAITS, 1) - 1;
    sim::ev(E_WAIT_CALL, w, int64_t(ns), depth);
    auto st = timed(f, ns);
    REQUIRE(st == std::future_status::ready || st == std::future_status::timeout, "wrong-status", "timed wait returned deferred");
    sim::ev(E_WAIT_RET, w, st == std::future_status::ready ? 0 : 1);
    if(st == std::future_status::ready)
    {
        REQUIRE(f.is_ready(), "ready-lie", "wait returned ready without a result");
    }
    return st;
}

void noise(tpp::thread::id to, uint32_t cost)
{
    if(sim::cell(C_STOP) || sim::cell(C_NOISE) > 400)
    {
        return;
    }
    tpp::invoke(to,
                [to, cost]()
                {
                    auto n = sim::cell_add(C_NOISE, 1);
                    sim::ev(E_NOISE, n);
                    sim::spend(cost);
                    noise(to, cost);
                });
}

void judge()
{
    struct wait
    {
        uint64_t call_t = 0, ret_t = 0, call_s = 0, ret_s = ~uint64_t(0), ns = 0;
        uint64_t first_noise = ~uint64_t(0);
        int status = -1, late = 0;
        int64_t depth = 0;
        int thread = -1;
    };
    std::vector<wait> ws(size_t(sim::cell(C_WAITS)));
    uint64_t set_call_s = ~uint64_t(0), set_ret_s = ~uint64_t(0), set_ret_t = ~uint64_t(0);
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        switch(e.kind)
        {
            case E_WAIT_CALL:
            {
                auto& w = ws[size_t(e.a)];
                w.call_t = e.time;
                w.call_s = e.seq;
                w.ns = uint64_t(e.b);
                w.depth = e.c;
                w.thread = e.thread;
                break;
            }
            case E_WAIT_RET:
            {
                auto& w = ws[size_t(e.a)];
                w.ret_t = e.time;
                w.ret_s = e.seq;
                w.status = int(e.b);
                break;
            }
            case E_SET_CALL:
                set_call_s = e.seq;
                break;
            case E_SET_RET:
                set_ret_s = e.seq;
                set_ret_t = e.time;
                break;
            case E_NOISE:
                for(auto& w : ws)
                {
                    if(w.thread == e.thread && w.call_s != 0 && w.status < 0)
                    {
                        w.first_noise = std::min(w.first_noise, e.time);
                        if(e.time > w.first_noise + w.ns)
                        {
                            ++w.late;
                        }
                    }
                }
                break;
            default:
                break;
        }
    }
    for(size_t i = 0; i < ws.size(); ++i)
    {
        const auto& w = ws[i];
        if(w.status < 0)
        {
            continue;
        }
        if(w.status == 0)
        {
            REQUIRE(set_call_s < w.ret_s, "ready-lie", "wait %zu returned ready before the result was set", i);
        }
        else
        {
            REQUIRE(w.ret_t - w.call_t >= w.ns, "early-timeout", "wait %zu of %lu ns timed out after %lu ns", i, (unsigned long)w.ns,
                    (unsigned long)(w.ret_t - w.call_t));
            REQUIRE(!(set_ret_s < w.call_s), "missed-result", "wait %zu timed out although the result was set before it", i);
            if(set_ret_s < w.ret_s && set_ret_t < w.call_t + w.ns)
            {
                sim::fail("missed-result", "wait %zu (depth %ld) timed out although the result was set %lu ns before its deadline", i,
                          long(w.depth), (unsigned long)(w.call_t + w.ns - set_ret_t));
            }
        }
        // a wait inside a task holds up the outer one, judge the inner ones
        if(w.depth > 0 || sim::cell(C_WAITS) == 1)
        {
            REQUIRE(w.late <= 4, "deadline-ignored", "wait %zu of %lu ns still started %d tasks after its deadline", i, (unsigned long)w.ns,
                    w.late);
        }
    }
}
} // namespace

SCENARIO(c07_timed, 6)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_timejump | sim::fb_late | sim::fb_idreuse | (sim::wlp(1, 2) ? sim::fb_sysclock : 0));
    tpp::init();
    {
        auto p = std::make_unique<tpp::promise<int>>();
        auto fut = p->get_future();
        bool shared = sim::wlp(1, 2);
        tpp::shared_future<int> sf;
        if(shared)
        {
            sf = fut.share();
        }
        auto how = sim::wl(3); // who sets: 0 other thread, 1 a task of the waiter, 2 nobody during the wait
        auto mode = sim::wl(4); // 1 noise, 2 nested wait on the same result, 3 nested wait on another result
        auto me = tpp::this_thread::get_id();
        std::thread setter;
        auto set = [&p]()
        {
            sim::ev(E_SET_CALL);
            p->set_value(77);
            sim::ev(E_SET_RET);
        };
        auto when = sim::wl(3) * sim::wl(60);
        if(mode == 1)
        {
            noise(me, 100 * sim::wlr(1, 60));
        }
        if(mode == 2 || mode == 3)
        {
            bool same = mode == 2;
            auto ns = duration();
            if(same && !shared)
            {
                sf = fut.share();
                shared = true;
            }
            tpp::invoke(me,
                        [same, ns, sf]()
                        {
                            if(same)
                            {
                                observed(sf, ns, 1);
                            }
                            else
                            {
                                tpp::promise<int> q;
                                auto g = q.get_future();
                                REQUIRE(timed(g, ns) == std::future_status::timeout, "ready-lie", "nobody set this");
                            }
                        });
        }
        if(how == 0)
        {
            setter = std::thread(
                [set, when]()
                {
                    if(when)
                    {
                        sim::block_for(when * 1000);
                    }
                    set();
                });
        }
        if(how == 1)
        {
            tpp::invoke(me, set);
        }
        auto n = sim::wlr(1, 2);
        if(mode == 1)
        {
            n = 1;
        }
        auto st = std::future_status::timeout;
        for(uint32_t i = 0; i < n; ++i)
        {
            auto ns = duration();
            st = shared ? observed(sf, ns, 0) : observed(fut, ns, 0);
            if(ns && how != 2)
            {
                sim::nontrivial();
            }
        }
        sim::cell_set(C_STOP, 1);
        if(st == std::future_status::ready)
        {
            sim::probe("returned_ready");
        }
        else
        {
            sim::probe("returned_timeout");
        }
        if(setter.joinable())
        {
            setter.join();
        }
        if(how == 2)
        {
            REQUIRE(st != std::future_status::ready, "ready-lie", "ready without a result");
            set();
        }
        if(how == 1)
        {
            pump_until(
                [&]()
                {
                    return shared ? sf.is_ready() : fut.is_ready();
                });
        }
        // neither outcome consumed the result
        auto v = shared ? sf.get() : fut.get();
        REQUIRE(v == 77, "result-changed", "value %d", v);
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    judge();
}

// result set while the waiter is blocked in an hour long wait: noticed at once
SCENARIO(c07_prompt, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | (sim::wlp(1, 2) ? sim::fb_sysclock : 0));
    tpp::init();
    {
        tpp::promise<void> p;
        auto sf = p.get_future().share();
        auto nested = sim::wl(3);
        auto me = tpp::this_thread::get_id();
        std::vector<std::thread> waiters;
        auto n = sim::wl(3);
        for(uint32_t i = 0; i < n; ++i)
        {
            waiters.emplace_back(
                [sf]()
                {
                    tpp::this_thread::register_this_thread();
                    auto st = sf.wait_for(1h);
                    REQUIRE(st == std::future_status::ready, "missed-result", "wait on another thread returned %d", int(st));
                    REQUIRE(sim::now() < HOUR / 2, "missed-result", "result noticed only at the deadline");
                    tpp::this_thread::unregister_this_thread();
                });
        }
        for(uint32_t i = 0; i < nested; ++i)
        {
            // short waits on the same result from inside the long one
            auto ns = duration();
            tpp::invoke(me,
                        [sf, ns]()
                        {
                            sf.wait_for(std::chrono::nanoseconds(ns));
                        });
        }
        if(sim::wlp(1, 3))
        {
            // executed in place by the setter, which the waiters need not wait for
            sf.then(tpp::caller_id(),
                    [](tpp::shared_future<void>)
                    {
                        sim::block_for(HOUR);
                    });
        }
        std::thread setter(
            [&p]()
            {
                if(sim::wlp(1, 2))
                {
                    sim::block_for(1000 * sim::wlr(1, 200000));
                }
                p.set_value();
            });
        auto st = sim::wlp(1, 2) ? sf.wait_for(1h) : sf.wait_until(tpp::clock::now() + 1h);
        REQUIRE(st == std::future_status::ready, "missed-result", "wait returned %d", int(st));
        REQUIRE(sim::now() < HOUR / 2, "missed-result", "result noticed only at the deadline");
        sim::nontrivial();
        setter.join();
        for(auto& t : waiters)
        {
            t.join();
        }
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// a wait that ends because its thread shall exit does not claim a result
SCENARIO(c07_exit, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | (sim::wlp(1, 2) ? sim::fb_sysclock : 0));
    tpp::init();
    {
        auto p = std::make_unique<tpp::promise<int>>();
        auto sf = p->get_future().share();
        auto n = int(sim::wlr(1, 2));
        auto set = sim::wl(3); // 1 also set around that time, 2 broken around that time
        std::vector<std::thread> waiters;
        for(int i = 0; i < n; ++i)
        {
            waiters.emplace_back(
                [sf, i]()
                {
                    tpp::this_thread::register_this_thread();
                    sim::cell_set(C_USER + 10 + i, int64_t(tpp::this_thread::get_id()));
                    sim::gate_open(30 + i);
                    auto reps = sim::wlr(1, 3);
                    for(uint32_t k = 0; k < reps; ++k)
                    {
                        auto ns = sim::wlp(1, 2) ? HOUR : duration();
                        auto t0 = sim::now();
                        auto st = sim::wlp(1, 2) ? sf.wait_for(std::chrono::nanoseconds(ns))
                                                 : until(ns, [&sf](auto t) { return sf.wait_until(t); });
                        auto t1 = sim::now();
                        if(st == std::future_status::ready)
                        {
                            sim::probe("returned_ready");
                            REQUIRE(sf.is_ready(), "ready-lie", "wait ended by exit returned ready without a result");
                        }
                        else if(st == std::future_status::timeout)
                        {
                            REQUIRE(t1 - t0 >= ns, "early-timeout", "wait of %lu ns ended by exit reports timeout after %lu ns",
                                    (unsigned long)ns, (unsigned long)(t1 - t0));
                        }
                        else
                        {
                            sim::probe("ended_by_exit");
                            REQUIRE(tpp::this_thread::notified_for_exit(), "wrong-status", "deferred without exit");
                        }
                        REQUIRE(sim::now() < HOUR / 2, "exit-ignored", "the wait went on after the exit notification");
                    }
                    tpp::this_thread::unregister_this_thread();
                });
        }
        for(int i = 0; i < n; ++i)
        {
            sim::gate_wait(30 + i);
            auto id = tpp::thread::id(sim::cell(C_USER + 10 + i));
            if(sim::wlp(1, 2))
            {
                sim::block_for(1000 * sim::wlr(1, 60));
            }
            if(sim::wlp(1, 3))
            {
                tpp::invoke(id, []() {});
            }
            tpp::notify_for_exit(id);
        }
        sim::nontrivial();
        if(set == 1)
        {
            p->set_value(77);
        }
        if(set == 2)
        {
            p.reset();
        }
        for(auto& t : waiters)
        {
            t.join();
        }
        if(set == 0)
        {
            REQUIRE(!sf.is_ready(), "ready-lie", "there is no result");
            p->set_value(77);
        }
        if(set != 2)
        {
            REQUIRE(sf.get() == 77, "result-changed", "value");
        }
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// after a long silence
SCENARIO(c07_slow, 1)
{
    slow_init();
    {
        tpp::promise<int> p;
        auto f = p.get_future();
        auto ns = gap_ns();
        auto after = sim::wl(2) ? ns / 2 : ns * 2;
        std::thread setter(
            [&p, after]()
            {
                sim::block_for(after);
                p.set_value(1);
            });
        auto t0 = sim::now();
        auto st = sim::wlp(1, 2) ? f.wait_for(std::chrono::nanoseconds(ns)) : until(ns, [&f](auto t) { return f.wait_until(t); });
        auto t1 = sim::now();
        REQUIRE(st == (after < ns ? std::future_status::ready : std::future_status::timeout), "wrong-status", "status %d", int(st));
        auto due = t0 + std::min(ns, after);
        REQUIRE(t1 >= due && t1 - due < SECOND, "late", "the wait of %lu ns returned after %lu ns", (unsigned long)ns,
                (unsigned long)(t1 - t0));
        setter.join();
        REQUIRE(f.get() == 1, "result-changed", "value");
    }
    slow_end("c07");
}

namespace
{
void own_wait(const tpp::shared_future<int>& sf, uint32_t)
{
    auto st = sim::wlp(1, 2) ? sf.wait_for(1h) : sf.wait_until(tpp::clock::now() + 1h);
    REQUIRE(st == std::future_status::ready && sim::now() < HOUR / 2, "missed-result", "a wait returned %d", int(st));
}
} // namespace

// what a wait waits for is brought about by a task that the waiting thread
// executes inside it
SCENARIO(c07_own, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | sim::fb_sysclock);
    tpp::init();
    {
        auto me = tpp::this_thread::get_id();
        tpp::promise<int> p;
        auto sf = p.get_future().share();
        auto ended = sim::wl(3);
        std::vector<std::thread> others;
        auto n = sim::wl(3);
        for(uint32_t i = 0; i < n; ++i)
        {
            others.emplace_back(
                [sf, ended]()
                {
                    tpp::this_thread::register_this_thread();
                    own_wait(sf, ended);
                    tpp::this_thread::unregister_this_thread();
                });
        }
        // each waits for the same inside the one before, the last sets it
        auto levels = sim::wl(4);
        auto send = [&, me]()
        {
            for(uint32_t i = 0; i < levels; ++i)
            {
                tpp::invoke(me, [sf, ended]() { own_wait(sf, ended); });
            }
            tpp::invoke(me,
                        [&p, ended]()
                        {
                            switch(ended)
                            {
                                default:
                                    p.set_value(7);
                                    break;
                                case 1:
                                    p.set_exception(user_error_ptr(1));
                                    break;
                                case 2:
                                    p = {};
                                    break;
                            }
                        });
        };
        std::thread sender;
        if(sim::wlp(1, 2))
        {
            send();
        }
        else
        {
            sender = std::thread(
                [&]()
                {
                    sim::block_for(1000 * sim::wl(60));
                    send();
                });
        }
        own_wait(sf, ended);
        sim::nontrivial();
        if(sender.joinable())
        {
            sender.join();
        }
        for(auto& t : others)
        {
            t.join();
        }
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}
