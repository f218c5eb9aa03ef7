// C12: the mutex is exclusive, never loses a waiter and polices ownership
#include "blocking.hpp"
#include "slow.hpp"
#include "large.hpp"

namespace
{
constexpr int C_HOLDER = C_USER;     // simulated thread holding the mutex + 1
constexpr int C_ROUNDS = C_USER + 1; // critical sections completed
constexpr int C_TASKS = C_USER + 2;
constexpr int C_IDS = C_USER + 10;
constexpr int G_REG = 30;
constexpr int G_DONE = 20;

// what the mutex protects is plain memory: broken exclusion or visibility is a
// data race and a wrong sum
struct guarded
{
    tpp::mutex m;
    int inside = 0;
    long sum = 0;
};

void critical(guarded& g, uint32_t cost)
{
    REQUIRE(sim::cell(C_HOLDER) == 0, "not-exclusive", "thread %d holds the mutex as well", int(sim::cell(C_HOLDER)) - 1);
    sim::cell_set(C_HOLDER, sim::self() + 1);
    ++g.inside;
    REQUIRE(g.inside == 1, "not-exclusive", "%d threads in the critical section", g.inside);
    auto before = g.sum;
    if(cost == 1)
    {
        sim::yield_point();
    }
    else if(cost > 1)
    {
        sim::block_for(cost * 1000);
    }
    g.sum = before + 1;
    --g.inside;
    sim::cell_set(C_HOLDER, 0);
    sim::cell_add(C_ROUNDS, 1);
}

template<typename F>
auto system_error_of(F f) -> bool
{
    try
    {
        f();
    }
    catch(const std::system_error&)
    {
        return true;
    }
    return false;
}

// one acquisition in one of the ways there are; false: try_lock did not get it
auto section(guarded& g, uint32_t how, uint32_t cost) -> bool
{
    switch(how)
    {
        default:
            g.m.lock();
            critical(g, cost);
            g.m.unlock();
            return true;
        case 1:
        {
            std::lock_guard<tpp::mutex> l(g.m);
            critical(g, cost);
            return true;
        }
        case 2:
        {
            if(!g.m.try_lock())
            {
                return false;
            }
            critical(g, cost);
            g.m.unlock();
            return true;
        }
        case 3:
        {
            std::unique_lock<tpp::mutex> l(g.m, std::defer_lock);
            l.lock();
            // policing while held
            REQUIRE(system_error_of([&]() { g.m.lock(); }), "relock", "locking an owned mutex again did not throw");
            REQUIRE(!g.m.try_lock(), "relock", "try_lock of an owned mutex succeeded");
            critical(g, cost);
            return true;
        }
        case 4:
            REQUIRE(system_error_of([&]() { g.m.unlock(); }), "foreign-unlock", "unlock without ownership did not throw");
            g.m.lock();
            critical(g, cost);
            g.m.unlock();
            return true;
    }
}

void tasks_for(tpp::thread::id id, guarded& g, uint32_t n)
{
    for(uint32_t k = 0; k < n; ++k)
    {
        auto kind = sim::wl(4);
        auto t = new_task();
        sim::cell_add(C_OUT, 1);
        sim::cell_add(C_TASKS, 1);
        if(!tpp::invoke(id,
                    tracked(t,
                            [&g, kind]()
                            {
                                switch(kind)
                                {
                                    default:
                                        break;
                                    case 1:
                                        // a task that takes the lock itself: fine unless the
                                        // interrupted code owns it
                                        try
                                        {
                                            g.m.lock();
                                        }
                                        catch(const std::system_error&)
                                        {
                                            return;
                                        }
                                        critical(g, 0);
                                        g.m.unlock();
                                        break;
                                    case 2:
                                        if(g.m.try_lock())
                                        {
                                            critical(g, 1);
                                            g.m.unlock();
                                        }
                                        break;
                                    case 3:
                                        tpp::this_thread::wait_for(20us);
                                        break;
                                }
                            })))
        {
            sim::cell_add(C_OUT, -1);
        }
    }
}
void end(const char* what)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "%s: shutdown returned %d", what, left);
}
} // namespace

// contention: exclusion, visibility, nobody left behind (deadlock detection)
SCENARIO(c12_contend, 6)
{
    sim::set_fault_mask(sim::fb_all_benign | sim::fb_sysclock);
    tpp::init();
    {
        guarded g;
        auto n = int(sim::wlr(2, 4));
        auto rounds = int(sim::wlr(1, 3));
        auto via_pool = sim::wl(4) == 3;
        long missed = 0;
        std::vector<std::thread> raw;
        std::vector<uint32_t> how(size_t(n * rounds)), cost(size_t(n * rounds));
        for(size_t i = 0; i < how.size(); ++i)
        {
            how[i] = sim::wl(5);
            cost[i] = sim::wl(4);
        }
        (void)via_pool;
        for(int i = 0; i < n; ++i)
        {
            raw.emplace_back(
                [&, i]()
                {
                    tpp::this_thread::register_this_thread();
                    sim::cell_set(C_IDS + i, int64_t(tpp::this_thread::get_id()));
                    sim::gate_open(G_REG + i);
                    for(int r = 0; r < rounds; ++r)
                    {
                        auto x = size_t(i * rounds + r);
                        if(!section(g, how[x], cost[x]))
                        {
                            sim::probe("try_lock_busy");
                        }
                    }
                    sim::gate_open(G_DONE);
                    // the tasks sent to us are still to be executed
                    sim::gate_wait(G_DONE + 1);
                    tpp::this_thread::process();
                    tpp::this_thread::unregister_this_thread();
                });
        }
        auto tasks = sim::wl(4);
        for(uint32_t k = 0; k < tasks; ++k)
        {
            auto who = int(sim::wl(uint32_t(n)));
            sim::gate_wait(G_REG + who);
            tasks_for(tpp::thread::id(sim::cell(C_IDS + who)), g, 1);
        }
        if(sim::wlp(1, 2))
        {
            section(g, sim::wl(5), sim::wl(3));
        }
        sim::gate_wait(G_DONE, n);
        sim::gate_open(G_DONE + 1);
        for(auto& t : raw)
        {
            t.join();
        }
        (void)missed;
        REQUIRE(g.sum == sim::cell(C_ROUNDS), "lost-update", "sum %ld after %ld sections", g.sum, long(sim::cell(C_ROUNDS)));
        REQUIRE(sim::cell(C_OUT) == 0, "task-lost", "%ld tasks were not executed", long(sim::cell(C_OUT)));
        // free again
        REQUIRE(g.m.try_lock(), "try-lock-free", "try_lock failed on a free mutex");
        g.m.unlock();
        sim::nontrivial();
    }
    end("contend");
}

// one blocked waiter: gets the free lock and serves its tasks before that
SCENARIO(c12_handover, 5)
{
    // time passes only when nobody can run
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        guarded g;
        auto waiters = int(sim::wlr(1, 3));
        auto served = int(sim::wl(3));
        auto delay = sim::wl(3);
        std::vector<std::thread> raw;
        auto start = [&](int i)
        {
            raw.emplace_back(
                [&g, i]()
                {
                    tpp::this_thread::register_this_thread();
                    sim::cell_set(C_IDS + i, int64_t(tpp::this_thread::get_id()));
                    sim::gate_open(G_REG + i);
                    g.m.lock();
                    critical(g, 0);
                    g.m.unlock();
                    sim::gate_open(G_DONE);
                    while(!tpp::this_thread::notified_for_exit())
                    {
                        tpp::this_thread::wait();
                    }
                    tpp::this_thread::unregister_this_thread();
                });
        };
        g.m.lock();
        for(int i = 0; i < waiters; ++i)
        {
            start(i);
        }
        for(int k = 0; k < served; ++k)
        {
            auto who = int(sim::wl(uint32_t(waiters)));
            sim::gate_wait(G_REG + who);
            auto id = tpp::thread::id(sim::cell(C_IDS + who));
            REQUIRE(tpp::invoke(id, []() { sim::gate_open(45); }), "rejected", "a waiting thread rejects tasks");
            if(sim::wlp(1, 2))
            {
                // executed although the mutex is still held
                sim::gate_wait(45, k + 1);
                sim::nontrivial();
            }
        }
        if(delay)
        {
            sim::block_for(delay * 1000000);
        }
        REQUIRE(sim::cell(C_ROUNDS) == 0, "not-exclusive", "a waiter entered while the mutex was held");
        sim::cell_set(C_HOLDER, 0);
        g.m.unlock();
        sim::gate_wait(G_DONE, waiters);
        sim::nontrivial();
        for(int i = 0; i < waiters; ++i)
        {
            tpp::notify_for_exit(tpp::thread::id(sim::cell(C_IDS + i)));
        }
        for(auto& t : raw)
        {
            t.join();
        }
        REQUIRE(g.sum == waiters, "lost-update", "sum %ld of %d", g.sum, waiters);
    }
    end("handover");
}

// those who wait for the mutex may be busy with a task when it becomes free:
// that must not keep the others from getting it
SCENARIO(c12_busy, 2)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        guarded g;
        auto busy = int(sim::wlr(1, 2));
        auto idle = int(sim::wlr(1, 2));
        auto n = busy + idle;
        auto last = sim::wlp(1, 2); // who comes first
        auto how = sim::wl(3);
        tpp::promise<void> p;
        auto released = p.get_future().share();
        std::vector<std::thread> raw;
        g.m.lock();
        for(int k = 0; k < n; ++k)
        {
            auto i = last ? n - 1 - k : k;
            raw.emplace_back(
                [&g, i]()
                {
                    tpp::this_thread::register_this_thread();
                    sim::cell_set(C_IDS + i, int64_t(tpp::this_thread::get_id()));
                    sim::gate_open(G_REG + i);
                    g.m.lock();
                    critical(g, 0);
                    g.m.unlock();
                    sim::gate_open(G_DONE + i);
                    while(!tpp::this_thread::notified_for_exit())
                    {
                        tpp::this_thread::wait();
                    }
                    tpp::this_thread::unregister_this_thread();
                });
            sim::gate_wait(G_REG + i);
            if(sim::wlp(2, 3))
            {
                sim::block_for(1000000); // it waits
            }
        }
        for(int i = 0; i < busy; ++i)
        {
            tpp::invoke(tpp::thread::id(sim::cell(C_IDS + i)),
                        [released, how]()
                        {
                            sim::gate_open(45);
                            switch(how)
                            {
                                case 0:
                                    sim::gate_wait(46);
                                    break;
                                case 1:
                                    released.wait();
                                    break;
                                default:
                                    tpp::this_thread::sleep_for(10h);
                                    break;
                            }
                        });
        }
        sim::gate_wait(45, busy);
        g.m.unlock();
        auto t0 = sim::now();
        for(int i = busy; i < n; ++i)
        {
            sim::gate_wait(G_DONE + i);
        }
        REQUIRE(sim::now() - t0 < 3600ull * 1000000000ull, "late", "the free mutex was obtained after %lu ns", (unsigned long)(sim::now() - t0));
        sim::nontrivial();
        sim::gate_open(46);
        p.set_value();
        for(int i = 0; i < busy; ++i)
        {
            sim::gate_wait(G_DONE + i);
        }
        for(int i = 0; i < n; ++i)
        {
            tpp::notify_for_exit(tpp::thread::id(sim::cell(C_IDS + i)));
        }
        for(auto& t : raw)
        {
            t.join();
        }
        REQUIRE(g.sum == n, "lost-update", "sum %ld of %d", g.sum, n);
    }
    end("busy");
}

// ownership errors change nothing
SCENARIO(c12_police, 3)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        guarded g;
        auto n = int(sim::wlr(1, 2));
        std::vector<std::thread> raw;
        REQUIRE(system_error_of([&]() { g.m.unlock(); }), "foreign-unlock", "unlock of a free mutex did not throw");
        REQUIRE(g.m.try_lock(), "try-lock-free", "try_lock failed on a free mutex");
        auto in_task = sim::wlp(1, 3);
        for(int i = 0; i < n; ++i)
        {
            raw.emplace_back(
                [&g]()
                {
                    tpp::this_thread::register_this_thread();
                    REQUIRE(!g.m.try_lock(), "not-exclusive", "try_lock succeeded on a held mutex");
                    REQUIRE(system_error_of([&]() { g.m.unlock(); }), "foreign-unlock", "unlock by a stranger did not throw");
                    REQUIRE(!g.m.try_lock(), "not-exclusive", "a failed unlock released the mutex");
                    sim::gate_open(20);
                    g.m.lock();
                    REQUIRE(sim::cell(C_USER + 5) == 1, "not-exclusive", "locked before the owner released it");
                    critical(g, 1);
                    g.m.unlock();
                    tpp::this_thread::unregister_this_thread();
                });
        }
        if(sim::wlp(1, 2))
        {
            raw.emplace_back(
                []()
                {
                    // the same rules while asked to exit
                    tpp::mutex own;
                    tpp::this_thread::register_this_thread();
                    own.lock();
                    tpp::notify_for_exit(tpp::this_thread::get_id());
                    REQUIRE(system_error_of([&]() { own.lock(); }), "relock", "locking an owned mutex again did not throw");
                    REQUIRE(!own.try_lock(), "relock", "try_lock of an owned mutex succeeded");
                    own.unlock();
                    REQUIRE(system_error_of([&]() { own.unlock(); }), "foreign-unlock", "second unlock did not throw");
                    REQUIRE(own.try_lock(), "try-lock-free", "try_lock failed on a free mutex");
                    own.unlock();
                    tpp::this_thread::unregister_this_thread();
                });
        }
        for(int k = 0; k < 2; ++k)
        {
            if(in_task)
            {
                // a task executed by the owner counts as the owner
                tpp::invoke(tpp::this_thread::get_id(),
                            [&g]()
                            {
                                REQUIRE(system_error_of([&]() { g.m.lock(); }), "relock", "relock in a task did not throw");
                            });
                tpp::this_thread::process();
            }
            REQUIRE(system_error_of([&]() { g.m.lock(); }), "relock", "locking an owned mutex again did not throw");
            REQUIRE(!g.m.try_lock(), "relock", "try_lock of an owned mutex succeeded");
            sim::yield_point();
        }
        sim::gate_wait(20, n);
        sim::cell_set(C_USER + 5, 1);
        g.m.unlock();
        REQUIRE(system_error_of([&]() { g.m.unlock(); }), "foreign-unlock", "second unlock did not throw");
        for(auto& t : raw)
        {
            t.join();
        }
        sim::nontrivial();
        REQUIRE(g.m.try_lock(), "try-lock-free", "try_lock failed on a free mutex");
        g.m.unlock();
    }
    end("police");
}

// exit notification does not break the exclusion
SCENARIO(c12_exit, 4)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        guarded g;
        auto n = int(sim::wlr(1, 3));
        auto when = sim::wl(3);
        std::vector<std::thread> raw;
        bool held = sim::wlp(2, 3);
        if(held)
        {
            g.m.lock();
            sim::cell_set(C_HOLDER, sim::self() + 1);
        }
        for(int i = 0; i < n; ++i)
        {
            raw.emplace_back(
                [&g, i]()
                {
                    tpp::this_thread::register_this_thread();
                    sim::cell_set(C_IDS + i, int64_t(tpp::this_thread::get_id()));
                    sim::gate_open(G_REG + i);
                    for(int r = 0; r < 2; ++r)
                    {
                        g.m.lock();
                        critical(g, sim::wl(3));
                        g.m.unlock();
                    }
                    tpp::this_thread::unregister_this_thread();
                    sim::gate_open(G_DONE);
                });
        }
        for(int i = 0; i < n; ++i)
        {
            if(sim::wlp(3, 4))
            {
                sim::gate_wait(G_REG + i);
                if(when == 1)
                {
                    sim::block_for(2000);
                }
                tpp::notify_for_exit(tpp::thread::id(sim::cell(C_IDS + i)));
                sim::nontrivial();
            }
        }
        if(held)
        {
            if(when == 2)
            {
                sim::block_for(20000);
            }
            REQUIRE(sim::cell(C_ROUNDS) == 0, "not-exclusive", "lock returned without the mutex");
            sim::cell_set(C_HOLDER, 0);
            g.m.unlock();
        }
        for(auto& t : raw)
        {
            t.join();
        }
        REQUIRE(g.sum == 2 * n, "lost-update", "sum %ld of %d", g.sum, 2 * n);
    }
    end("exit");
}

// after a long silence
SCENARIO(c12_slow, 1)
{
    slow_init();
    {
        tpp::mutex m;
        m.lock();
        auto n = int(sim::wlr(1, 2));
        std::vector<std::thread> raw;
        for(int i = 0; i < n; ++i)
        {
            raw.emplace_back(
                [&m]()
                {
                    tpp::this_thread::register_this_thread();
                    m.lock();
                    sim::gate_open(1);
                    sim::gate_wait(2);
                    m.unlock();
                    tpp::this_thread::unregister_this_thread();
                });
        }
        gap();
        REQUIRE(sim::gate_value(1) == 0, "not-exclusive", "locked while somebody else holds it");
        auto t0 = sim::now();
        m.unlock();
        sim::gate_wait(1, 1);
        prompt(t0, "the lock was obtained");
        gap();
        REQUIRE(sim::gate_value(1) == 1, "not-exclusive", "locked while somebody else holds it");
        t0 = sim::now();
        sim::gate_open(2);
        sim::gate_wait(1, n);
        prompt(t0, "the lock was obtained");
        for(auto& t : raw)
        {
            t.join();
        }
    }
    slow_end("c12");
}

SCENARIO(c12_large, 1)
{
    large::contenders();
}
