// C11: condition variable wakes waiters without loss, reports timeouts honestly
#include "blocking.hpp"
#include "slow.hpp"
#include "large.hpp"

namespace
{
enum : int
{
    E_WAIT_CALL = E_USER, // a wait, b duration ns
    E_WAIT_RET,           // a wait, b status 0 no_timeout 1 timeout
    E_NOT_CALL,           // a 0 all 1 one, b waiting count
    E_NOT_RET,
    E_NOISE,
};
constexpr int C_WAITS = C_USER;
constexpr int C_STOP = C_USER + 1;
constexpr int C_NOISE = C_USER + 2;
constexpr int C_NOTIFIED = C_USER + 3; // waits that returned no_timeout
constexpr int G_ROUND = 20;

// the lock and what it protects: plain memory, so a broken lock is a data race
struct shared_t
{
    std::mutex m;
    tpp::condition_variable cv;
    int inside = 0;  // threads that believe to hold the lock
    int waiting = 0; // threads that began waiting and did not return
    int avail = 0;
};

void enter(shared_t& s)
{
    ++s.inside;
    REQUIRE(s.inside == 1, "lock-broken", "%d threads hold the lock", s.inside);
}
void leave(shared_t& s)
{
    REQUIRE(s.inside == 1, "lock-broken", "%d threads hold the lock", s.inside);
    --s.inside;
}

// one wait with the lock already held by l
auto wait_once(shared_t& s, std::unique_lock<std::mutex>& l, uint64_t ns, uint32_t form) -> std::cv_status
{
    auto st = std::cv_status::no_timeout;
    ++s.waiting;
    leave(s);
    if(form == 0)
    {
        s.cv.wait(l);
    }
    else if(form == 1)
    {
        st = s.cv.wait_for(l, std::chrono::nanoseconds(ns));
    }
    else
    {
        st = until(ns, [&](auto t) { return s.cv.wait_until(l, t); });
    }
    REQUIRE(l.owns_lock(), "lock-not-held", "wait returned without the lock");
    enter(s);
    --s.waiting;
    return st;
}
void end(const char* what)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "%s: shutdown returned %d", what, left);
}
} // namespace

// everybody who waits when notify_all is called under the lock returns
SCENARIO(c11_notify_all, 5)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | (sim::wlp(1, 2) ? sim::fb_sysclock : 0));
    tpp::init();
    {
        shared_t s;
        auto m = int(sim::wlr(1, 3));
        auto rounds = int(sim::wlr(1, 2));
        std::vector<std::thread> raw;
        for(int i = 0; i < m; ++i)
        {
            raw.emplace_back(
                [&s, rounds, i]()
                {
                    tpp::this_thread::register_this_thread();
                    sim::cell_set(C_USER + 10 + i, int64_t(tpp::this_thread::get_id()));
                    sim::gate_open(30 + i);
                    for(int r = 0; r < rounds; ++r)
                    {
                        std::unique_lock<std::mutex> l(s.m);
                        enter(s);
                        auto form = sim::wl(3);
                        auto st = wait_once(s, l, HOUR, form);
                        REQUIRE(st == std::cv_status::no_timeout && sim::now() < HOUR / 2, "lost-notify", "a waiter was not woken");
                        leave(s);
                        l.unlock();
                        sim::gate_open(G_ROUND + r);
                        sim::gate_wait(G_ROUND + 5 + r);
                    }
                    tpp::this_thread::unregister_this_thread();
                });
        }
        auto nest = sim::wl(4);
        for(uint32_t k = 0; k < nest; ++k)
        {
            auto who = int(sim::wl(uint32_t(m)));
            sim::gate_wait(30 + who);
            auto id = tpp::thread::id(sim::cell(C_USER + 10 + who));
            auto kind = sim::wl(4);
            auto ns = 1000 * sim::wlr(1, 50);
            tpp::invoke(id,
                        [&s, kind, ns]()
                        {
                            switch(kind)
                            {
                                default:
                                    break;
                                case 1:
                                {
                                    // the lock is free while the outer call waits
                                    std::unique_lock<std::mutex> l(s.m);
                                    enter(s);
                                    leave(s);
                                    break;
                                }
                                case 2:
                                {
                                    std::unique_lock<std::mutex> l(s.m);
                                    enter(s);
                                    // not counted: this wait may end by time
                                    leave(s);
                                    s.cv.wait_for(l, std::chrono::nanoseconds(ns));
                                    enter(s);
                                    leave(s);
                                    break;
                                }
                                case 3:
                                {
                                    tpp::condition_variable other;
                                    std::mutex om;
                                    std::unique_lock<std::mutex> l(om);
                                    auto t0 = sim::now();
                                    auto st = other.wait_for(l, std::chrono::nanoseconds(ns));
                                    REQUIRE(st == std::cv_status::timeout && sim::now() - t0 >= ns, "early-timeout", "nested wait");
                                    break;
                                }
                            }
                        });
        }
        for(int r = 0; r < rounds; ++r)
        {
            for(;;)
            {
                std::unique_lock<std::mutex> l(s.m);
                enter(s);
                if(s.waiting == m)
                {
                    s.cv.notify_all();
                    leave(s);
                    break;
                }
                leave(s);
                l.unlock();
                sim::block_for(5000);
            }
            sim::gate_wait(G_ROUND + r, m);
            sim::gate_open(G_ROUND + 5 + r);
            sim::nontrivial();
        }
        for(auto& t : raw)
        {
            t.join();
        }
    }
    end("notify_all");
}

// notify_one is never spent on somebody who reports that it did not get it
SCENARIO(c11_notify_one, 6)
{
    sim::set_fault_mask(sim::wlp(1, 2) ? uint32_t(sim::fb_spurious | sim::fb_idreuse)
                                       : uint32_t(sim::fb_spurious | sim::fb_idreuse | sim::fb_timejump | sim::fb_late));
    tpp::init();
    {
        shared_t s;
        auto plain = int(sim::wlr(1, 2));
        auto timed = int(sim::wl(3));
        auto notes = int(sim::wlr(1, 3));
        auto delay = sim::wl(3) * sim::wl(40);
        auto body = [&s](bool is_timed)
        {
            tpp::this_thread::register_this_thread();
            std::unique_lock<std::mutex> l(s.m);
            enter(s);
            static const uint64_t d[] = {20000, 1000, 0, 1, 1500, 40000};
            auto st = wait_once(s, l, is_timed ? d[sim::wl(6)] : HOUR * 1000, is_timed ? sim::wlr(1, 2) : 0);
            if(st == std::cv_status::no_timeout)
            {
                sim::cell_add(C_NOTIFIED, 1);
            }
            else
            {
                sim::probe("timed_waiter_gave_up");
            }
            leave(s);
            l.unlock();
            tpp::this_thread::unregister_this_thread();
            sim::gate_open(is_timed ? 41 : 40);
        };
        std::vector<std::thread> raw;
        bool timed_first = sim::wlp(1, 2);
        for(int i = 0; i < plain + timed; ++i)
        {
            raw.emplace_back(body, timed_first ? i < timed : i >= plain);
        }
        // all plain ones wait (the timed ones may wait or be done)
        for(;;)
        {
            std::unique_lock<std::mutex> l(s.m);
            enter(s);
            auto w = s.waiting;
            leave(s);
            l.unlock();
            if(w >= plain)
            {
                break;
            }
            sim::block_for(3000);
        }
        // make sure it is the plain ones who wait
        if(delay)
        {
            sim::block_for(delay * 1000);
        }
        for(int i = 0; i < notes; ++i)
        {
            std::unique_lock<std::mutex> l(s.m);
            enter(s);
            sim::ev(E_NOT_CALL, 1, s.waiting);
            if(sim::wlp(1, 2))
            {
                leave(s);
                l.unlock();
                s.cv.notify_one();
            }
            else
            {
                s.cv.notify_one();
                leave(s);
            }
        }
        sim::gate_wait(41, timed);
        sim::set_fault_mask(0); // from here time only passes when nobody can run
        // all quiet: nobody but unnotified plain waiters is left
        sim::block_for(1000000000ull);
        auto got = sim::cell(C_NOTIFIED);
        // a notification certainly met a plain waiter that no earlier one can
        // have taken if more threads waited than that
        int64_t certain = 0, prior = 0;
        for(size_t i = 0; i < sim::history_size(); ++i)
        {
            const auto& e = sim::history_at(i);
            if(e.kind == E_NOT_CALL)
            {
                certain += e.b - timed - prior > 0;
                ++prior;
            }
        }
        REQUIRE(got >= certain, "lost-notify", "%ld notifications with plain waiters present, but only %ld waits were notified",
                long(certain), long(got));
        if(timed)
        {
            sim::nontrivial();
        }
        for(;;)
        {
            std::unique_lock<std::mutex> l(s.m);
            enter(s);
            s.cv.notify_all();
            auto w = s.waiting;
            leave(s);
            l.unlock();
            if(sim::gate_value(40) == plain)
            {
                break;
            }
            (void)w;
            sim::block_for(100000);
        }
        for(auto& t : raw)
        {
            t.join();
        }
    }
    end("notify_one");
}

// producers and consumers: one notification per item
SCENARIO(c11_items, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        shared_t s;
        auto consumers = int(sim::wlr(1, 3));
        auto per = int(sim::wlr(1, 3));
        auto producers = int(sim::wlr(1, 2));
        std::vector<std::thread> raw;
        for(int i = 0; i < consumers; ++i)
        {
            raw.emplace_back(
                [&s, per, i]()
                {
                    tpp::this_thread::register_this_thread();
                    sim::cell_set(C_USER + 10 + i, int64_t(tpp::this_thread::get_id()));
                    sim::gate_open(30 + i);
                    for(int k = 0; k < per; ++k)
                    {
                        std::unique_lock<std::mutex> l(s.m);
                        enter(s);
                        auto form = sim::wl(3);
                        while(s.avail == 0)
                        {
                            sim::nontrivial();
                            wait_once(s, l, HOUR, form);
                            REQUIRE(sim::now() < HOUR / 2, "lost-notify", "consumer was not woken for its item");
                        }
                        --s.avail;
                        leave(s);
                    }
                    tpp::this_thread::unregister_this_thread();
                });
        }
        auto total = consumers * per;
        for(int p = 0; p < producers; ++p)
        {
            auto share = total / producers + (p == 0 ? total % producers : 0);
            raw.emplace_back(
                [&s, share]()
                {
                    for(int k = 0; k < share; ++k)
                    {
                        std::unique_lock<std::mutex> l(s.m);
                        enter(s);
                        ++s.avail;
                        bool held = sim::wlp(1, 2);
                        if(held)
                        {
                            s.cv.notify_one();
                        }
                        leave(s);
                        l.unlock();
                        if(!held)
                        {
                            s.cv.notify_one();
                        }
                        if(sim::wlp(1, 4))
                        {
                            sim::block_for(2000);
                        }
                    }
                });
        }
        auto noise = sim::wl(4);
        for(uint32_t k = 0; k < noise; ++k)
        {
            auto who = int(sim::wl(uint32_t(consumers)));
            sim::gate_wait(30 + who);
            auto id = tpp::thread::id(sim::cell(C_USER + 10 + who));
            tpp::invoke(id, []() {});
            if(sim::wlp(1, 2))
            {
                tpp::notify(id);
            }
        }
        for(auto& t : raw)
        {
            t.join();
        }
        REQUIRE(s.avail == 0, "items", "%d items left", s.avail);
    }
    end("items");
}

// any sequence of notifications against waiters that come and go, some of them
// kept busy by a task inside their wait
SCENARIO(c11_mixed, 5)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        shared_t s;
        int unnotified = 0; // waits that no notification was certainly for (protected by the lock)
        auto m = int(sim::wlr(2, 4));
        std::vector<std::thread> raw;
        for(int i = 0; i < m; ++i)
        {
            raw.emplace_back(
                [&s, &unnotified, i]()
                {
                    tpp::this_thread::register_this_thread();
                    sim::cell_set(C_USER + 10 + i, int64_t(tpp::this_thread::get_id()));
                    sim::gate_open(30 + i);
                    auto rounds = sim::wlr(1, 3);
                    for(uint32_t r = 0; r < rounds; ++r)
                    {
                        if(sim::wlp(1, 3))
                        {
                            sim::block_for(1000 * sim::wlr(1, 20));
                        }
                        std::unique_lock<std::mutex> l(s.m);
                        enter(s);
                        ++unnotified;
                        auto st = wait_once(s, l, HOUR, sim::wl(3));
                        REQUIRE(st == std::cv_status::no_timeout && sim::now() < HOUR / 2, "lost-notify", "a waiter was not woken");
                        leave(s);
                    }
                    tpp::this_thread::unregister_this_thread();
                    sim::gate_open(40);
                });
        }
        auto ops = sim::wlr(2, 10);
        for(uint32_t k = 0; k < ops; ++k)
        {
            switch(sim::wl(4))
            {
                default:
                {
                    std::unique_lock<std::mutex> l(s.m);
                    enter(s);
                    if(unnotified > 0)
                    {
                        --unnotified;
                        sim::probe("notify_one_with_waiters");
                    }
                    s.cv.notify_one();
                    leave(s);
                    break;
                }
                case 1:
                {
                    std::unique_lock<std::mutex> l(s.m);
                    enter(s);
                    if(unnotified > 1)
                    {
                        sim::nontrivial();
                    }
                    unnotified = 0;
                    s.cv.notify_all();
                    leave(s);
                    break;
                }
                case 2:
                {
                    auto who = int(sim::wl(uint32_t(m)));
                    sim::gate_wait(30 + who);
                    auto ns = 1000 * sim::wlr(1, 40);
                    tpp::invoke(tpp::thread::id(sim::cell(C_USER + 10 + who)),
                                [ns]()
                                {
                                    sim::block_for(ns);
                                });
                    break;
                }
                case 3:
                    sim::block_for(1000 * sim::wlr(1, 30));
                    break;
            }
        }
        sim::set_fault_mask(0); // from here time only passes when nobody can run
        sim::block_for(50000000ull);
        {
            std::unique_lock<std::mutex> l(s.m);
            enter(s);
            REQUIRE(s.waiting <= unnotified, "lost-notify", "%d threads are left waiting, but only %d were not notified", s.waiting,
                    unnotified);
            leave(s);
        }
        while(sim::gate_value(40) != m)
        {
            std::unique_lock<std::mutex> l(s.m);
            enter(s);
            s.cv.notify_all();
            leave(s);
            l.unlock();
            sim::block_for(100000);
        }
        for(auto& t : raw)
        {
            t.join();
        }
    }
    end("mixed");
}

// notifications without the lock come at any time, also while others are being
// delivered; those that matter still arrive
SCENARIO(c11_storm, 5)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        shared_t s;
        auto m = int(sim::wlr(1, 3));
        auto stormers = int(sim::wlr(1, 2));
        auto last = sim::wl(3); // 0 notify_all, 1 notify_one each, 2 one notify_one per waiter that gets its item
        std::vector<std::thread> raw;
        for(int i = 0; i < m; ++i)
        {
            raw.emplace_back(
                [&s]()
                {
                    tpp::this_thread::register_this_thread();
                    auto form = sim::wl(3);
                    std::unique_lock<std::mutex> l(s.m);
                    enter(s);
                    while(s.avail == 0)
                    {
                        wait_once(s, l, HOUR, form);
                        REQUIRE(sim::now() < HOUR / 2, "lost-notify", "a waiter was not woken");
                        sim::probe("woken");
                    }
                    --s.avail;
                    leave(s);
                    l.unlock();
                    tpp::this_thread::unregister_this_thread();
                });
        }
        for(int i = 0; i < stormers; ++i)
        {
            raw.emplace_back(
                [&s]()
                {
                    auto n = sim::wlr(1, 5);
                    for(uint32_t k = 0; k < n; ++k)
                    {
                        if(sim::wlp(1, 3))
                        {
                            s.cv.notify_one();
                        }
                        else
                        {
                            s.cv.notify_all();
                        }
                        if(sim::wlp(1, 4))
                        {
                            sim::block_for(1000 * sim::wlr(1, 10));
                        }
                    }
                });
        }
        if(sim::wlp(1, 2))
        {
            sim::block_for(1000 * sim::wlr(1, 30));
        }
        for(int i = 0; i < m;)
        {
            std::unique_lock<std::mutex> l(s.m);
            enter(s);
            if(s.waiting)
            {
                sim::nontrivial();
            }
            if(last == 0)
            {
                s.avail += m;
                i += m;
                s.cv.notify_all();
            }
            else
            {
                ++s.avail;
                ++i;
                s.cv.notify_one();
            }
            leave(s);
            l.unlock();
            if(last == 2)
            {
                sim::block_for(1000 * sim::wlr(1, 10));
            }
        }
        for(auto& t : raw)
        {
            t.join();
        }
        REQUIRE(s.avail == 0, "items", "%d items left", s.avail);
    }
    end("storm");
}

// truth and deadline of one timed wait
namespace
{
void noise(tpp::thread::id to, uint32_t cost)
{
    if(sim::cell(C_STOP) || sim::cell(C_NOISE) > 400)
    {
        return;
    }
    tpp::invoke(to,
                [to, cost]()
                {
                    sim::ev(E_NOISE, sim::cell_add(C_NOISE, 1));
                    sim::spend(cost);
                    noise(to, cost);
                });
}
} // namespace

SCENARIO(c11_timed, 5)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_timejump | sim::fb_late | sim::fb_idreuse | (sim::wlp(1, 2) ? sim::fb_sysclock : 0));
    tpp::init();
    static const uint64_t d[] = {30000, 0, 1, 999, 1000, 1500, 10000, 1000000, 50000000};
    auto ns = d[sim::wl(9)];
    auto form = sim::wlr(1, 2);
    auto noisy = sim::wlp(1, 2);
    uint64_t t0, t1;
    std::cv_status st;
    {
        shared_t s;
        std::thread notifier;
        bool all = sim::wlp(1, 2);
        bool notify = sim::wlp(2, 3);
        auto when = sim::wl(3) * sim::wl(50);
        if(noisy)
        {
            noise(tpp::this_thread::get_id(), 100 * sim::wlr(1, 60));
        }
        std::unique_lock<std::mutex> l(s.m);
        enter(s);
        if(notify)
        {
            notifier = std::thread(
                [&s, all, when]()
                {
                    if(when)
                    {
                        sim::block_for(when * 1000);
                    }
                    std::unique_lock<std::mutex> k(s.m);
                    enter(s);
                    sim::ev(E_NOT_CALL, all ? 0 : 1, s.waiting);
                    if(all)
                    {
                        s.cv.notify_all();
                    }
                    else
                    {
                        s.cv.notify_one();
                    }
                    sim::ev(E_NOT_RET, 0, s.waiting);
                    leave(s);
                });
        }
        sim::ev(E_WAIT_CALL);
        t0 = sim::now();
        st = wait_once(s, l, ns, form);
        t1 = sim::now();
        sim::ev(E_WAIT_RET);
        sim::cell_set(C_STOP, 1);
        leave(s);
        l.unlock();
        if(notifier.joinable())
        {
            sim::nontrivial();
            notifier.join();
        }
    }
    end("timed");
    if(st == std::cv_status::timeout)
    {
        REQUIRE(t1 - t0 >= ns, "early-timeout", "wait of %lu ns timed out after %lu ns", (unsigned long)ns, (unsigned long)(t1 - t0));
    }
    uint64_t first = ~uint64_t(0);
    int late = 0;
    bool in = false;
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind == E_WAIT_CALL)
        {
            in = true;
        }
        if(e.kind == E_WAIT_RET)
        {
            in = false;
        }
        if(e.kind == E_NOT_RET && e.b == 1 && e.time < t0 + ns)
        {
            // notified under the lock, while waiting, before the deadline
            sim::probe("notified_in_time");
            REQUIRE(st == std::cv_status::no_timeout, "lost-notify", "notified %lu ns before the deadline but timed out",
                    (unsigned long)(t0 + ns - e.time));
        }
        if(e.kind == E_NOISE && in)
        {
            first = std::min(first, e.time);
            late += e.time > first + ns;
        }
    }
    REQUIRE(late <= 4, "deadline-ignored", "wait of %lu ns still started %d tasks after its deadline", (unsigned long)ns, late);
}

// after a long silence
SCENARIO(c11_slow, 1)
{
    slow_init();
    {
        shared_t s;
        auto m = int(sim::wlr(1, 2));
        bool all = sim::wlp(1, 2);
        std::vector<std::thread> raw;
        for(int i = 0; i < m; ++i)
        {
            raw.emplace_back(
                [&s]()
                {
                    tpp::this_thread::register_this_thread();
                    std::unique_lock<std::mutex> l(s.m);
                    enter(s);
                    auto st = wait_once(s, l, 1000 * HOUR, sim::wl(3));
                    REQUIRE(st == std::cv_status::no_timeout, "wrong-status", "timeout too early");
                    leave(s);
                    l.unlock();
                    sim::gate_open(1);
                    tpp::this_thread::unregister_this_thread();
                });
        }
        for(int i = 0; i < (all ? 1 : m); ++i)
        {
            gap();
            REQUIRE(sim::gate_value(1) == i, "not-notified", "a wait returned without notification");
            auto t0 = sim::now();
            {
                std::unique_lock<std::mutex> l(s.m);
                enter(s);
                all ? s.cv.notify_all() : s.cv.notify_one();
                leave(s);
            }
            sim::gate_wait(1, all ? m : i + 1);
            prompt(t0, "the wait returned");
        }
        for(auto& t : raw)
        {
            t.join();
        }
    }
    slow_end("c11");
}

SCENARIO(c11_large, 1)
{
    large::waiters();
}

// notified by a task that the waiting thread executes inside its wait
SCENARIO(c11_own, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        shared_t s;
        auto me = tpp::this_thread::get_id();
        auto wait = [&s]()
        {
            std::unique_lock<std::mutex> l(s.m);
            enter(s);
            auto st = wait_once(s, l, HOUR, sim::wl(3));
            REQUIRE(st == std::cv_status::no_timeout && sim::now() < HOUR / 2, "lost-notify", "a waiter was not woken");
            leave(s);
        };
        // each waits inside the wait before, the last task wakes them all
        auto levels = int(sim::wl(4));
        auto others = int(sim::wl(3));
        auto expected = 1 + levels + others;
        std::vector<std::thread> raw;
        for(int i = 0; i < others; ++i)
        {
            raw.emplace_back(
                [wait]()
                {
                    tpp::this_thread::register_this_thread();
                    wait();
                    tpp::this_thread::unregister_this_thread();
                });
        }
        for(;;)
        {
            std::unique_lock<std::mutex> l(s.m);
            if(s.waiting == others)
            {
                break;
            }
            l.unlock();
            sim::block_for(10000);
        }
        auto all = sim::wlp(1, 2);
        auto send = [&, me]()
        {
            for(int i = 0; i < levels; ++i)
            {
                tpp::invoke(me, wait);
            }
            tpp::invoke(me,
                        [&s, all, expected]()
                        {
                            std::unique_lock<std::mutex> l(s.m);
                            enter(s);
                            REQUIRE(s.waiting == expected, "lost-notify", "%d of %d wait", s.waiting, expected);
                            for(int i = 0; i < (all ? 1 : expected); ++i)
                            {
                                all ? s.cv.notify_all() : s.cv.notify_one();
                            }
                            leave(s);
                        });
        };
        std::thread sender;
        if(sim::wlp(1, 2))
        {
            send();
        }
        else
        {
            sender = std::thread(
                [&]()
                {
                    sim::block_for(1000 * sim::wl(60));
                    send();
                });
        }
        wait();
        sim::nontrivial();
        if(sender.joinable())
        {
            sender.join();
        }
        for(auto& t : raw)
        {
            t.join();
        }
    }
    end("own");
}
