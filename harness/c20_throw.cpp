// C20: an exception from a task leaves its thread fully usable
#include "blocking.hpp"
#include "large.hpp"

namespace
{
constexpr int C_LAST = C_USER;        // number of the last throwing task on the victim
constexpr int C_SEQ = C_USER + 20;    // + sender: last number executed
constexpr int C_RAN = C_USER + 1;     // tasks executed
constexpr int C_CAUGHT = C_USER + 2;  // exceptions that arrived
constexpr int C_THROWN = C_USER + 3;  // exceptions thrown
constexpr int C_LEVEL = C_USER + 4;   // nesting level of the victim
constexpr int C_WOKEN = C_USER + 5;   // waiters that returned from their wait
constexpr int C_ANORMAL = C_USER + 6; // the victim returned from its wait normally
constexpr int C_ATHREW = C_USER + 7;
constexpr int C_PASSES = C_USER + 8;

using oops = user_error;

// the exception that arrives is the one of the task executed last
void caught(const oops& x, const char* where)
{
    REQUIRE(sim::cell(C_LAST) == x.i, "wrong-exception", "%s: exception of task %d arrived, task %d threw last", where, x.i,
            int(sim::cell(C_LAST)));
    sim::cell_add(C_CAUGHT, 1);
    REQUIRE(sim::cell(C_CAUGHT) == sim::cell(C_THROWN), "exception-lost", "%s: %d exceptions thrown, %d arrived", where,
            int(sim::cell(C_THROWN)), int(sim::cell(C_CAUGHT)));
    auto d = int(tpp::this_thread::get_depth());
    REQUIRE(d == int(sim::cell(C_LEVEL)), "wrong-depth", "%s: depth %d at nesting level %d after an exception", where, d,
            int(sim::cell(C_LEVEL)));
    sim::nontrivial();
}

struct level_up
{
    level_up()
    {
        sim::cell_add(C_LEVEL, 1);
    }
    ~level_up()
    {
        sim::cell_add(C_LEVEL, -1);
    }
};

// sends to its thread and asks about it when it goes away with its task
struct farewell
{
    tpp::thread::id id;
    farewell(tpp::thread::id i) : id(i)
    {
    }
    farewell(farewell&& o) noexcept : id(o.id)
    {
        o.id = tpp::invalid_id();
    }
    farewell& operator=(farewell&&) = delete;
    ~farewell()
    {
        if(id != tpp::invalid_id())
        {
            (void)tpp::invoke(id, []() {});
            (void)tpp::get_pending_task_count(id);
        }
    }
};

// sends numbered tasks to id, some of which throw, some of which block inside
void sender(int s, tpp::thread::id id, int n, bool extra = false)
{
    for(int i = 1; i <= n; ++i)
    {
        auto kind = sim::wl(4);
        auto ok = tpp::invoke(id,
                              [t = tok(s * 100 + i), s, i, kind, bye = farewell(extra && sim::wlp(1, 3) ? id : tpp::invalid_id())]()
                              {
                                  level_up l;
                                  REQUIRE(sim::cell(C_SEQ + s) == i - 1, "order", "task %d of sender %d after task %d", i, s,
                                          int(sim::cell(C_SEQ + s)));
                                  sim::cell_set(C_SEQ + s, i);
                                  auto d = int(tpp::this_thread::get_depth());
                                  REQUIRE(d == int(sim::cell(C_LEVEL)), "wrong-depth", "depth %d at nesting level %d", d,
                                          int(sim::cell(C_LEVEL)));
                                  sim::gate_open(2);
                                  if(kind == 1 && d < 4)
                                  {
                                      // an exception may pass through this one, too
                                      tpp::this_thread::wait_for(some_us(20));
                                  }
                                  else if(kind == 2 && d < 4)
                                  {
                                      try
                                      {
                                          tpp::this_thread::process();
                                      }
                                      catch(const oops& x)
                                      {
                                          caught(x, "nested process");
                                      }
                                  }
                                  else if(kind == 3)
                                  {
                                      sim::cell_set(C_LAST, s * 100 + i);
                                      sim::cell_add(C_THROWN, 1);
                                      throw_user(s * 100 + i);
                                  }
                              });
        REQUIRE(ok, "send-rejected", "send to a registered thread");
        if(sim::wlp(1, 3))
        {
            sim::yield_point();
        }
    }
}
void end(const char* what)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "%s: shutdown returned %d", what, left);
}
} // namespace

// a thread that blocks in every way there is while throwing tasks arrive
SCENARIO(c20_blocking, 6)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        tpp::thread_pool pool({{tpp::priority::category::normal, 1}});
        park_env e;
        e.pool = &pool;
        e.tm.lock();
        auto job = pool.schedule([]() { sim::gate_wait(3); });
        e.job = job.id;
        auto kind = sim::wl(PK_NUM + 2);
        std::thread t(
            [&e, kind]()
            {
                tpp::this_thread::register_this_thread();
                sim::cell_set(C_USER + 10, int64_t(tpp::this_thread::get_id()));
                sim::gate_open(1);
                while(!tpp::this_thread::notified_for_exit())
                {
                    auto k = kind < PK_NUM ? kind : sim::wl(PK_NUM_NONMUTEX);
                    try
                    {
                        if(kind == PK_NUM + 1)
                        {
                            // a lock held during the wait
                            std::unique_lock<std::mutex> l(e.m);
                            try
                            {
                                if(sim::wl(2))
                                {
                                    e.cv.wait_for(l, 50us);
                                }
                                else
                                {
                                    e.cv.wait(l);
                                }
                            }
                            catch(const oops& x)
                            {
                                REQUIRE(l.owns_lock(), "lock-not-held", "the lock is not held after an exception left the wait");
                                caught(x, "cv");
                            }
                            REQUIRE(l.owns_lock(), "lock-not-held", "the lock is not held after the wait");
                        }
                        else
                        {
                            REQUIRE(!park(k, e), "bad-result", "%s returned what it must not", park_name(k));
                        }
                    }
                    catch(const oops& x)
                    {
                        caught(x, park_name(k));
                    }
                    REQUIRE(tpp::this_thread::get_depth() == 0, "wrong-depth", "depth %u outside of all tasks",
                            tpp::this_thread::get_depth());
                }
                tpp::this_thread::unregister_this_thread();
            });
        sim::gate_wait(1);
        auto id = tpp::thread::id(sim::cell(C_USER + 10));
        auto n1 = int(sim::wlr(1, 5)), n2 = int(sim::wl(4));
        std::thread other([id, n2]() { sender(1, id, n2, true); });
        sender(0, id, n1, true);
        other.join();
        sim::gate_wait(2, n1 + n2);
        sim::block_for(1000000000ull);
        REQUIRE(sim::cell(C_CAUGHT) == sim::cell(C_THROWN), "exception-lost", "%d exceptions thrown, %d arrived",
                int(sim::cell(C_THROWN)), int(sim::cell(C_CAUGHT)));
        if(kind != PK_NUM + 1) // the short waits keep it busy
        {
            auto n = int(tpp::get_pending_task_count(id));
            REQUIRE(n == 0, "wrong-count", "%d tasks counted for an idle thread", n);
        }
        tpp::notify_for_exit(id);
        e.tm.unlock();
        sim::gate_open(3);
        t.join();
    }
    auto r = collect(400);
    for(int i = 0; i < 400; ++i)
    {
        REQUIRE(r[size_t(i)].destroyed <= 1, "task-destroyed-twice", "task %d", i);
    }
    end("blocking");
}

// processing calls stop at the exception, the rest is still there
SCENARIO(c20_process, 3)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        std::thread t(
            []()
            {
                tpp::this_thread::register_this_thread();
                auto id = tpp::this_thread::get_id();
                auto n = int(sim::wlr(1, 10));
                sender(0, id, n);
                auto passes = 0;
                while(sim::cell(C_SEQ) < n)
                {
                    REQUIRE(++passes < 200, "no-progress-in-queue", "%d of %d tasks executed", int(sim::cell(C_SEQ)), n);
                    auto before = sim::cell(C_SEQ);
                    try
                    {
                        switch(sim::wl(6))
                        {
                            case 0:
                                tpp::this_thread::process();
                                break;
                            case 1:
                                tpp::this_thread::process_for(100us);
                                break;
                            case 2:
                                tpp::this_thread::wait();
                                break;
                            case 3:
                                tpp::this_thread::wait_for(10us);
                                break;
                            case 4:
                                tpp::this_thread::sleep_for(10us);
                                break;
                            default:
                            {
                                // executed in place: no queued task is touched
                                auto c0 = tpp::get_pending_task_count(id);
                                try
                                {
                                    tpp::dispatch(id, []() { throw_user(-7); });
                                    REQUIRE(false, "exception-lost", "dispatch swallowed an exception");
                                }
                                catch(const oops& x)
                                {
                                    REQUIRE(x.i == -7, "wrong-exception", "dispatch");
                                }
                                auto c1 = tpp::get_pending_task_count(id);
                                REQUIRE(c0 == c1 && sim::cell(C_SEQ) == before, "wrong-count", "count %zu before and %zu after", c0, c1);
                            }
                        }
                    }
                    catch(const oops& x)
                    {
                        caught(x, "process");
                    }
                    auto c = tpp::get_pending_task_count(id);
                    auto left = size_t(n - sim::cell(C_SEQ));
                    REQUIRE(c == left, "wrong-count", "%zu pending after an exception, %zu left", c, left);
                }
                tpp::this_thread::unregister_this_thread();
            });
        t.join();
    }
    end("process");
}

// a wait abandoned by an exception must not swallow a notification
SCENARIO(c20_notify, 5)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        std::mutex m;
        tpp::condition_variable cv;
        auto waiters = int(sim::wlr(1, 3));
        auto timed = sim::wlp(1, 2);
        auto nested = sim::wlp(1, 3);
        std::vector<std::thread> raw;
        std::vector<tpp::thread::id> ids;
        auto wait = [&m, &cv, timed]()
        {
            std::unique_lock<std::mutex> l(m);
            try
            {
                if(timed)
                {
                    cv.wait_for(l, 1h);
                }
                else
                {
                    cv.wait(l);
                }
            }
            catch(...)
            {
                REQUIRE(l.owns_lock(), "lock-not-held", "the lock is not held after an exception left the wait");
                throw;
            }
        };
        // thread 0 is the one that gets the throwing task
        auto add = [&](int i)
        {
            raw.emplace_back(
                [i, wait]()
                {
                    sim::gate_wait(20 + i);
                    tpp::this_thread::register_this_thread();
                    sim::gate_open(40 + i);
                    try
                    {
                        wait();
                        if(!tpp::this_thread::notified_for_exit())
                        {
                            sim::cell_add(i == 0 ? C_ANORMAL : C_WOKEN, 1);
                        }
                    }
                    catch(const oops& x)
                    {
                        REQUIRE(i == 0 && x.i == 5, "wrong-exception", "thread %d caught exception %d", i, x.i);
                        sim::cell_add(C_ATHREW, 1);
                    }
                    // stays available until the end, so that a notification
                    // sent to it would have no effect
                    while(!tpp::this_thread::notified_for_exit())
                    {
                        try
                        {
                            tpp::this_thread::wait();
                        }
                        catch(const oops&)
                        {
                        }
                    }
                    tpp::this_thread::unregister_this_thread();
                });
            ids.push_back(tpp::register_thread(raw.back().get_id()));
        };
        for(int i = 0; i <= waiters; ++i)
        {
            add(i);
        }
        // they begin to wait in a random order
        std::vector<int> order;
        for(int i = 0; i <= waiters; ++i)
        {
            order.insert(order.begin() + sim::wl(uint32_t(order.size()) + 1), i);
        }
        for(auto i : order)
        {
            sim::gate_open(20 + i);
            sim::gate_wait(40 + i);
            sim::block_for(1000000000ull); // it waits now
        }
        auto k = int(sim::wlr(1, uint32_t(waiters) + 1));
        auto throw_in = [&]()
        {
            tpp::invoke(ids[0],
                        [wait, nested]()
                        {
                            if(nested)
                            {
                                // the task itself waits on the same condition
                                tpp::invoke(tpp::this_thread::get_id(), []() { throw_user(5); });
                                wait();
                                // it was notified before
                                return;
                            }
                            throw_user(5);
                        });
        };
        auto first = sim::wl(3);
        std::thread notifier;
        if(first == 2)
        {
            throw_in();
            sim::block_for(1000000000ull);
        }
        notifier = std::thread(
            [&]()
            {
                for(int i = 0; i < k; ++i)
                {
                    if(sim::wlp(1, 2))
                    {
                        std::lock_guard<std::mutex> l(m);
                        cv.notify_one();
                    }
                    else
                    {
                        cv.notify_one();
                    }
                }
            });
        if(first == 1)
        {
            throw_in();
        }
        notifier.join();
        if(first == 0)
        {
            throw_in();
        }
        sim::block_for(1000000000ull);
        auto woken = int(sim::cell(C_WOKEN)), a = int(sim::cell(C_ANORMAL)), threw = int(sim::cell(C_ATHREW));
        REQUIRE(a + threw <= 1, "exception-lost", "the thread returned and threw");
        if(threw)
        {
            sim::nontrivial();
        }
        if(!nested)
        {
            auto needed = std::min(k, waiters + a);
            REQUIRE(woken + a >= needed, "notification-swallowed",
                    "%d notifications for %d waiters (and one that %s): only %d returned", k, waiters,
                    threw ? "left by an exception" : a ? "was notified" : "still waits", woken + a);
        }
        else
        {
            // the inner and the outer wait of that thread can share one
            auto needed = std::min(k - 1, waiters);
            REQUIRE(woken + a >= needed, "notification-swallowed", "%d notifications for %d waiters: only %d returned", k,
                    waiters, woken + a);
        }
        for(auto id : ids)
        {
            tpp::notify_for_exit(id);
        }
        for(auto& r : raw)
        {
            r.join();
        }
    }
    end("notify");
}

// a lock attempt left by an exception: not owned, and usable by all others
SCENARIO(c20_mutex, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        tpp::mutex m;
        struct
        {
            int inside = 0;
        } s;
        auto n = int(sim::wlr(2, 3));
        auto rounds = int(sim::wlr(1, 3));
        std::vector<std::thread> raw;
        std::vector<tpp::thread::id> ids;
        for(int i = 0; i < n; ++i)
        {
            raw.emplace_back(
                [&m, &s, i, rounds]()
                {
                    sim::gate_wait(20 + i);
                    tpp::this_thread::register_this_thread();
                    for(int r = 0; r < rounds; ++r)
                    {
                        for(;;)
                        {
                            try
                            {
                                m.lock();
                                break;
                            }
                            catch(const oops& x)
                            {
                                sim::nontrivial();
                                // not the owner
                                try
                                {
                                    m.unlock();
                                    REQUIRE(false, "owner-after-exception", "the lock is owned after lock() threw");
                                }
                                catch(const std::system_error&)
                                {
                                }
                            }
                        }
                        REQUIRE(++s.inside == 1, "lock-broken", "%d threads inside", s.inside);
                        if(sim::wlp(1, 2))
                        {
                            try
                            {
                                tpp::this_thread::wait_for(some_us(10));
                            }
                            catch(const oops&)
                            {
                            }
                        }
                        REQUIRE(--s.inside == 0, "lock-broken", "others inside");
                        m.unlock();
                    }
                    sim::gate_open(3);
                    while(!tpp::this_thread::notified_for_exit())
                    {
                        try
                        {
                            tpp::this_thread::wait();
                        }
                        catch(const oops&)
                        {
                        }
                    }
                    tpp::this_thread::unregister_this_thread();
                });
            ids.push_back(tpp::register_thread(raw.back().get_id()));
        }
        for(int i = 0; i < n; ++i)
        {
            sim::gate_open(20 + i);
        }
        auto throws = sim::wlr(1, 4);
        for(uint32_t i = 0; i < throws; ++i)
        {
            auto v = sim::wl(uint32_t(n));
            tpp::invoke(ids[v], []() { throw_user(1); });
            if(sim::wlp(1, 2))
            {
                sim::block_for(2000);
            }
        }
        sim::gate_wait(3, n);
        for(auto id : ids)
        {
            tpp::notify_for_exit(id);
        }
        for(auto& r : raw)
        {
            r.join();
        }
    }
    end("mutex");
}

// futures and jobs: the interrupted wait can be repeated
SCENARIO(c20_future, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        tpp::promise<int> p;
        auto f = p.get_future();
        auto sf = tpp::shared_future<int>();
        auto form = sim::wl(6);
        tpp::thread_pool pool({{tpp::priority::category::normal, 1}});
        auto job = pool.schedule(
            []()
            {
                sim::gate_wait(3);
                return 11;
            });
        if(form == 1)
        {
            sf = f.share();
        }
        std::thread t(
            [&]()
            {
                sim::gate_wait(1);
                tpp::this_thread::register_this_thread();
                auto tries = 0;
                for(;;)
                {
                    REQUIRE(++tries < 20, "endless", "%d attempts", tries);
                    try
                    {
                        auto v = 0;
                        switch(form)
                        {
                            case 0:
                                v = f.get();
                                break;
                            case 1:
                                v = sf.get();
                                break;
                            case 2:
                                v = job.get();
                                break;
                            case 3:
                                pool.wait_all();
                                v = job.is_ready() ? 11 : -1;
                                break;
                            case 4:
                                REQUIRE(f.wait_for(1h) == std::future_status::ready, "bad-result", "wait_for of a future");
                                v = f.get();
                                break;
                            default:
                                pool.wait(job.id);
                                v = job.is_ready() ? 11 : -1;
                                break;
                        }
                        REQUIRE(v == 11, "bad-result", "form %u delivered %d", form, v);
                        break;
                    }
                    catch(const oops& x)
                    {
                        sim::nontrivial();
                        REQUIRE(form > 1 || f.valid() || sf.valid(), "future-lost", "the future is not valid after an exception");
                    }
                }
                sim::cell_add(C_WOKEN, 1);
                tpp::this_thread::unregister_this_thread();
            });
        auto id = tpp::register_thread(t.get_id());
        sim::gate_open(1);
        auto throws = sim::wlr(1, 3);
        auto at = sim::wl(throws + 1);
        for(uint32_t i = 0; i <= throws; ++i)
        {
            if(i == at)
            {
                p.set_value(11);
                sim::gate_open(3);
            }
            else
            {
                tpp::invoke(id, []() { throw_user(2); });
            }
            if(sim::wlp(1, 2))
            {
                sim::block_for(1000);
            }
        }
        t.join();
        REQUIRE(sim::cell(C_WOKEN) == 1, "never", "the waiting thread did not finish");
    }
    end("future");
}

SCENARIO(c20_large, 1)
{
    large::throwing();
}
