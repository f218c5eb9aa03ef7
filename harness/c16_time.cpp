// C16: sleeping and timed processing keep their time
#include "blocking.hpp"
#include "slow.hpp"
#include "large.hpp"

namespace
{
enum : int
{
    E_CALL = E_USER,
    E_RETURN,
    E_NOISE,
    E_SENT, // a send returned
};
constexpr int C_STOP = C_USER;
constexpr int C_NOISE = C_USER + 1;
constexpr int C_RAN = C_USER + 2;
constexpr int C_EXIT = C_USER + 3;

const uint64_t durations[] = {30000, 1, 999, 1000, 1500, 10001, 250000, 5000000, 80000000, 1234567};

// a chain of tasks that keeps its own thread busy
void noise(tpp::thread::id to, uint32_t cost, int limit)
{
    if(sim::cell(C_STOP) || sim::cell(C_NOISE) > limit)
    {
        return;
    }
    tpp::invoke(to,
                [to, cost, limit]()
                {
                    sim::ev(E_NOISE, sim::cell_add(C_NOISE, 1));
                    sim::spend(cost);
                    noise(to, cost, limit);
                });
}

// the same time through different interfaces
auto do_wait(uint32_t form, uint64_t ns) -> std::cv_status
{
    switch(form)
    {
        default:
            return tpp::this_thread::wait_for(std::chrono::nanoseconds(ns));
        case 1:
            return until(ns, [](auto t) { return tpp::this_thread::wait_until(t); });
        case 2:
            // a coarser unit: rounded up by the caller
            return tpp::this_thread::wait_for(std::chrono::microseconds((ns + 999) / 1000));
        case 3:
            return tpp::this_thread::wait_for(std::chrono::milliseconds((ns + 999999) / 1000000));
        case 4:
            // fractions of a unit, none of which is less than the time asked for
            return tpp::this_thread::wait_for(std::chrono::duration<double, std::milli>((double(ns) + 0.5) / 1e6));
    }
}
void do_sleep(uint32_t form, uint64_t ns)
{
    switch(form)
    {
        default:
            tpp::this_thread::sleep_for(std::chrono::nanoseconds(ns));
            break;
        case 1:
            until(ns, [](auto t) { tpp::this_thread::sleep_until(t); });
            break;
        case 2:
            tpp::this_thread::sleep_for(std::chrono::microseconds((ns + 999) / 1000));
            break;
        case 3:
            tpp::this_thread::sleep_for(std::chrono::milliseconds((ns + 999999) / 1000000));
            break;
        case 4:
            tpp::this_thread::sleep_for(std::chrono::duration<double, std::milli>((double(ns) + 0.5) / 1e6));
            break;
    }
}
void end(const char* what)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "%s: shutdown returned %d", what, left);
}
// tasks started after the deadline although the call should be over. The
// deadline counts from the first task seen in the call: the call may have
// started (and computed its end) a little later than the harness noted.
auto late_tasks(uint64_t ns) -> int
{
    int late = 0;
    bool in = false;
    uint64_t first = 0;
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind == E_CALL)
        {
            in = true;
        }
        else if(e.kind == E_RETURN)
        {
            in = false;
        }
        else if(e.kind == E_NOISE && in)
        {
            if(!first)
            {
                first = e.time;
            }
            late += e.time > first + ns;
        }
    }
    return late;
}
} // namespace

// sleeping: never short, never much longer, tasks are served meanwhile
SCENARIO(c16_sleep, 5)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_timejump | sim::fb_late | sim::fb_idreuse | (sim::wlp(1, 2) ? sim::fb_sysclock : 0));
    tpp::init();
    auto ns = durations[sim::wl(10)];
    auto form = sim::wl(5);
    auto noisy = sim::wlp(1, 2);
    auto senders = sim::wl(3);
    auto cost = 100 * sim::wlr(1, 60);
    auto me = tpp::this_thread::get_id();
    std::vector<std::thread> raw;
    uint64_t asked = form == 2 ? (ns + 999) / 1000 * 1000 : form == 3 ? (ns + 999999) / 1000000 * 1000000 : ns;
    if(noisy)
    {
        noise(me, cost, 400);
    }
    for(uint32_t s = 0; s < senders; ++s)
    {
        auto delay = sim::wl(40) * 1000;
        auto bare = sim::wlp(1, 2);
        raw.emplace_back(
            [me, delay, bare]()
            {
                sim::block_for(delay);
                if(bare)
                {
                    tpp::notify(me);
                }
                else
                {
                    tpp::invoke(me, []() { sim::cell_add(C_RAN, 1); });
                }
            });
    }
    sim::ev(E_CALL);
    auto t0 = sim::now();
    do_sleep(form, ns);
    auto t1 = sim::now();
    sim::ev(E_RETURN);
    sim::cell_set(C_STOP, 1);
    for(auto& t : raw)
    {
        t.join();
    }
    REQUIRE(t1 - t0 >= asked, "short-sleep", "sleep of %lu ns ended after %lu ns", (unsigned long)asked, (unsigned long)(t1 - t0));
    if(noisy || senders)
    {
        sim::nontrivial();
    }
    end("sleep");
    auto late = late_tasks(asked);
    REQUIRE(late <= 3, "deadline-ignored", "sleep of %lu ns started %d tasks after its time", (unsigned long)asked, late);
}

// without time faults the end of a sleep and the service during it are exact
SCENARIO(c16_sleep_exact, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | (sim::wlp(1, 2) ? sim::fb_sysclock : 0));
    tpp::init();
    {
        auto form = sim::wl(5);
        auto ns = uint64_t(1000000) * sim::wlr(5, 50);
        auto n = int(sim::wl(5));
        auto with_exit = sim::wlp(1, 4);
        tpp::thread t(
            [form, ns, with_exit]()
            {
                tpp::this_thread::register_this_thread();
                sim::gate_open(1);
                auto t0 = sim::now();
                do_sleep(form, ns);
                auto took = sim::now() - t0;
                if(!tpp::this_thread::notified_for_exit())
                {
                    REQUIRE(took >= ns, "short-sleep", "sleep of %lu ns ended after %lu ns", (unsigned long)ns, (unsigned long)took);
                    REQUIRE(took < ns + 2000000, "long-sleep", "sleep of %lu ns took %lu ns", (unsigned long)ns, (unsigned long)took);
                }
                else
                {
                    REQUIRE(took < ns + 2000000, "long-sleep", "sleep of %lu ns took %lu ns", (unsigned long)ns, (unsigned long)took);
                }
                sim::cell_set(C_STOP, 1);
                sim::gate_open(2);
                sim::gate_wait(3);
                tpp::this_thread::unregister_this_thread();
                (void)with_exit;
            });
        auto id = t.get_id();
        sim::gate_wait(1);
        auto t0 = sim::now();
        for(int i = 0; i < n; ++i)
        {
            if(sim::wlp(1, 2))
            {
                sim::block_for(200000);
            }
            if(sim::wlp(1, 4))
            {
                tpp::notify(id);
                continue;
            }
            auto sent = sim::now();
            REQUIRE(tpp::invoke(id,
                                [sent]()
                                {
                                    REQUIRE(sim::now() - sent < 1000000, "late-task", "a task waited %lu ns in a sleeping thread",
                                            (unsigned long)(sim::now() - sent));
                                    sim::cell_add(C_RAN, 1);
                                    sim::gate_open(4);
                                }),
                    "rejected", "a sleeping thread rejects tasks");
            sim::cell_add(C_USER + 9, 1);
        }
        if(with_exit)
        {
            sim::block_for(100000);
            auto at = sim::now();
            tpp::notify_for_exit(id);
            sim::gate_wait(2);
            REQUIRE(sim::now() - at < 1000000, "exit-ignored", "a sleeping thread took %lu ns to notice the exit notification",
                    (unsigned long)(sim::now() - at));
        }
        else
        {
            sim::gate_wait(4, sim::cell(C_USER + 9));
            REQUIRE(sim::now() - t0 < 4000000, "late-task", "tasks were only executed at the end of the sleep");
            sim::gate_wait(2);
        }
        sim::nontrivial();
        sim::gate_open(3);
        t.join();
    }
    end("sleep exact");
}

// timed waits tell events and time apart
SCENARIO(c16_wait, 6)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_timejump | sim::fb_late | sim::fb_idreuse | (sim::wlp(1, 2) ? sim::fb_sysclock : 0));
    tpp::init();
    auto ns = durations[sim::wl(10)];
    auto form = sim::wl(5);
    auto event = sim::wl(4);
    auto delay = sim::wl(3) * sim::wl(40) * 1000;
    auto me = tpp::this_thread::get_id();
    uint64_t asked = form == 2 ? (ns + 999) / 1000 * 1000 : form == 3 ? (ns + 999999) / 1000000 * 1000000 : ns;
    std::thread sender;
    if(event)
    {
        sender = std::thread(
            [me, event, delay]()
            {
                if(delay)
                {
                    sim::block_for(delay);
                }
                if(event == 1)
                {
                    tpp::invoke(me, []() { sim::cell_add(C_RAN, 1); });
                }
                else if(event == 2)
                {
                    tpp::notify(me);
                }
                else
                {
                    tpp::notify_for_exit(me);
                }
                sim::ev(E_SENT);
            });
    }
    sim::ev(E_CALL);
    auto t0 = sim::now();
    auto st = do_wait(form, ns);
    auto t1 = sim::now();
    sim::ev(E_RETURN);
    if(sender.joinable())
    {
        sender.join();
        sim::nontrivial();
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    uint64_t sent_at = 0;
    bool sent = false, sent_in_time = false;
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind == E_SENT)
        {
            sent = true;
            sent_at = e.time;
            sent_in_time = e.time < t0 + asked;
        }
    }
    if(st == std::cv_status::timeout)
    {
        REQUIRE(t1 - t0 >= asked, "early-timeout", "wait of %lu ns timed out after %lu ns", (unsigned long)asked, (unsigned long)(t1 - t0));
        // (a point in time may be over when the call is made: nothing is waited for then)
        REQUIRE(!sent_in_time || form == 1, "lost-event", "wait of %lu ns timed out although an event was sent %lu ns before its end",
                (unsigned long)asked, (unsigned long)(t0 + asked - sent_at));
    }
    else
    {
        REQUIRE(sent, "false-event", "wait of %lu ns reported an event that did not happen", (unsigned long)asked);
    }
}

// a wait of an hour returns at once when something arrives, and a wait without
// events ends on time
SCENARIO(c16_wait_exact, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | (sim::wlp(1, 2) ? sim::fb_sysclock : 0));
    tpp::init();
    {
        auto form = sim::wl(5);
        auto n = int(sim::wlr(1, 3));
        auto me = tpp::this_thread::get_id();
        std::thread t(
            [me, n]()
            {
                for(int i = 0; i < n; ++i)
                {
                    sim::gate_wait(1, i + 1);
                    sim::block_for(50000 * sim::wl(3));
                    sim::cell_set(C_USER + 20, int64_t(sim::now()));
                    if(sim::wlp(1, 2))
                    {
                        tpp::notify(me);
                    }
                    else
                    {
                        tpp::invoke(me, []() { sim::cell_add(C_RAN, 1); });
                    }
                }
            });
        for(int i = 0; i < n; ++i)
        {
            sim::gate_open(1);
            auto st = do_wait(form, HOUR);
            REQUIRE(st == std::cv_status::no_timeout && sim::now() < HOUR / 2, "lost-event", "an event did not end the wait");
            auto lag = sim::now() - uint64_t(sim::cell(C_USER + 20));
            REQUIRE(lag < 1000000, "late-event", "the wait ended %lu ns after the event", (unsigned long)lag);
        }
        t.join();
        auto ns = durations[sim::wl(10)];
        auto t0 = sim::now();
        auto st = do_wait(form, ns);
        auto took = sim::now() - t0;
        REQUIRE(st == std::cv_status::timeout, "false-event", "wait of %lu ns without events reported one", (unsigned long)ns);
        REQUIRE(took >= ns, "early-timeout", "wait of %lu ns timed out after %lu ns", (unsigned long)ns, (unsigned long)took);
        REQUIRE(took < ns + 2000000, "late-timeout", "wait of %lu ns took %lu ns", (unsigned long)ns, (unsigned long)took);
        sim::nontrivial();
    }
    end("wait exact");
}

// a timed wait with more to do than it has time for
SCENARIO(c16_stream, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | sim::fb_sysclock | (sim::wlp(1, 2) ? sim::fb_timejump | sim::fb_late : 0));
    tpp::init();
    auto me = tpp::this_thread::get_id();
    auto ns = durations[sim::wl(7)];
    auto cost = 200 * sim::wlr(1, 60);
    auto chains = sim::wlr(1, 4);
    // there from the beginning, or all at once
    auto before = sim::wlp(1, 2);
    std::thread sender;
    auto start = [=]()
    {
        for(uint32_t i = 0; i < chains; ++i)
        {
            noise(me, cost, 2000);
        }
    };
    if(before)
    {
        start();
    }
    else
    {
        sender = std::thread(
            [=]()
            {
                sim::block_for(sim::wl(3) * ns / 2);
                start();
            });
    }
    sim::ev(E_CALL);
    auto form = sim::wl(2);
    auto st = do_wait(form, ns);
    sim::ev(E_RETURN);
    if(sender.joinable())
    {
        sender.join();
    }
    sim::cell_set(C_STOP, 1);
    // (a point in time may be over when the call is made: nothing is waited for then)
    REQUIRE(!before || form == 1 || st == std::cv_status::no_timeout, "lost-event", "a wait with tasks to execute timed out");
    tpp::this_thread::process();
    sim::nontrivial();
    end("stream");
    auto late = late_tasks(ns);
    REQUIRE(late <= 2, "deadline-ignored", "a wait of %lu ns started %d tasks after its time", (unsigned long)ns, late);
}

// processing for a limited time
SCENARIO(c16_process, 4)
{
    bool exact = sim::wlp(1, 2);
    sim::set_fault_mask(exact ? uint32_t(sim::fb_spurious | sim::fb_idreuse | sim::fb_sysclock)
                              : uint32_t(sim::fb_spurious | sim::fb_timejump | sim::fb_late | sim::fb_idreuse | sim::fb_sysclock));
    tpp::init();
    auto me = tpp::this_thread::get_id();
    auto mode = sim::wl(3);
    if(mode == 0)
    {
        // an endless stream
        auto ns = durations[sim::wl(7)];
        auto cost = 200 * sim::wlr(1, 60);
        noise(me, cost, 3000);
        if(sim::wlp(1, 2))
        {
            noise(me, cost, 3000);
        }
        sim::ev(E_CALL);
        auto t0 = sim::now();
        tpp::this_thread::process_for(std::chrono::nanoseconds(ns));
        auto took = sim::now() - t0;
        sim::ev(E_RETURN);
        sim::cell_set(C_STOP, 1);
        sim::nontrivial();
        if(exact && sim::cell(C_NOISE) < 3000)
        {
            REQUIRE(took < ns + 4 * cost + 200000, "deadline-ignored", "processing for %lu ns took %lu ns", (unsigned long)ns,
                    (unsigned long)took);
        }
        auto late = late_tasks(ns);
        REQUIRE(late <= 2, "deadline-ignored", "processing for %lu ns started %d tasks after its time", (unsigned long)ns, late);
    }
    else
    {
        auto n = int(sim::wl(6));
        if(mode == 1)
        {
            n = 0;
        }
        for(int i = 0; i < n; ++i)
        {
            tpp::invoke(me, []() { sim::cell_add(C_RAN, 1); });
        }
        auto t0 = sim::now();
        tpp::this_thread::process_for(1h);
        auto took = sim::now() - t0;
        if(exact)
        {
            REQUIRE(sim::cell(C_RAN) == n, "task-left", "%d of %d tasks executed", int(sim::cell(C_RAN)), n);
            REQUIRE(took < 1000000, "idle-processing", "processing %d tasks took %lu ns", n, (unsigned long)took);
            sim::nontrivial();
        }
    }
    tpp::this_thread::process();
    end("process");
}

// after a long silence
SCENARIO(c16_slow, 1)
{
    slow_init();
    {
        auto ns = gap_ns();
        auto d = std::chrono::nanoseconds(ns);
        auto me = tpp::this_thread::get_id();
        auto kind = sim::wl(4);
        bool task = sim::wlp(1, 2);
        std::thread sender;
        if(task)
        {
            sender = std::thread(
                [me, ns]()
                {
                    sim::block_for(ns / 2);
                    tpp::invoke(me, []() { sim::gate_open(1); });
                });
        }
        auto t0 = sim::now();
        auto st = std::cv_status::timeout;
        switch(kind)
        {
            default:
                tpp::this_thread::sleep_for(d);
                break;
            case 1:
                tpp::this_thread::sleep_until(tpp::clock::now() + d);
                break;
            case 2:
                st = tpp::this_thread::wait_for(std::chrono::duration_cast<std::chrono::microseconds>(d));
                break;
            case 3:
                st = tpp::this_thread::wait_until(tpp::clock::now() + d);
                break;
        }
        auto t1 = sim::now();
        bool half = task && kind >= 2;
        REQUIRE((st == std::cv_status::no_timeout) == half, "wrong-status", "status %d", int(st));
        auto due = t0 + (half ? ns / 2 : ns);
        REQUIRE(t1 >= due, "early", "%lu ns too early", (unsigned long)(due - t1));
        prompt(due, "the call returned");
        REQUIRE(!task || sim::gate_value(1) == 1, "not-executed", "the task was not executed");
        if(task)
        {
            sender.join();
        }
    }
    slow_end("c16");
}

SCENARIO(c16_large, 1)
{
    large::sleeping();
}
