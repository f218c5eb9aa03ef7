// C21: async runs its function once and its future always completes
#include "blocking.hpp"
#include "crier.hpp"
#include "slow.hpp"
#include "large.hpp"
#include <algorithm>

namespace
{
constexpr int C_RUNS = CELL_STARTED;     // + call: times its function ran
constexpr int C_ON = CELL_ENDED;         // + call: simulated thread it ran on
constexpr int C_TID = CELL_DESTROYED;    // + call: library id it ran under
constexpr int C_DEAD = CELL_FREE + 100;  // + call: callables destroyed
constexpr int C_CALLS = C_USER;
constexpr int C_ALIEN = C_USER + 1;
constexpr int MAX_CALLS = 60;

using payload_error = user_error;

// what async returned for one call, of any result type
struct pending
{
    int call = 0;
    int expect = 0;
    bool throws = false;
    uint32_t kind = 0;
    tpp::future<int> fi;
    tpp::future<void> fv;
    tpp::future<std::unique_ptr<int>> fp;
    tpp::future<std::string> fs;

    auto valid() const -> bool
    {
        return fi.valid() || fv.valid() || fp.valid() || fs.valid();
    }
    auto ready() const -> bool
    {
        return kind == 0 ? fi.is_ready() : kind == 1 ? fv.is_ready() : kind == 2 ? fp.is_ready() : fs.is_ready();
    }
    // 1 the expected value or exception, 0 broken promise
    auto settle() -> int
    {
        try
        {
            auto v = 0;
            switch(kind)
            {
                case 0:
                    v = fi.get();
                    break;
                case 1:
                    fv.get();
                    v = expect;
                    break;
                case 2:
                {
                    auto p = fp.get();
                    REQUIRE(p != nullptr, "wrong-value", "call %d: empty pointer", call);
                    v = *p;
                    break;
                }
                default:
                {
                    auto s = fs.get();
                    v = int(s.size());
                    break;
                }
            }
            REQUIRE(!throws, "exception-lost", "call %d delivered a value although its function threw", call);
            REQUIRE(v == expect, "wrong-value", "call %d delivered %d instead of %d", call, v, expect);
            return 1;
        }
        catch(const payload_error& x)
        {
            REQUIRE(throws && x.i == expect, "wrong-exception", "call %d delivered exception %d", call, x.i);
            return 1;
        }
        catch(const std::future_error& x)
        {
            REQUIRE(x.code() == std::future_errc::broken_promise, "wrong-exception", "call %d: %s", call, x.what());
            return 0;
        }
    }
};

// an argument or captured object whose every life is accounted for
struct arg
{
    int call;
    std::vector<int> v;
    arg(int c, int n) : call(c), v(size_t(n), n)
    {
    }
};

void ran(int call)
{
    REQUIRE(sim::cell_add(C_RUNS + call, 1) == 1, "ran-twice", "function of call %d ran again", call);
    sim::cell_set(C_ON + call, sim::self() + 1);
    sim::cell_set(C_TID + call, int64_t(tpp::this_thread::get_id()));
}

// starts one call; launcher(f, args...) performs the async
template<typename L>
auto start(L&& launcher) -> pending
{
    pending p;
    p.call = int(sim::cell_add(C_CALLS, 1)) - 1;
    REQUIRE(p.call < MAX_CALLS, "harness", "too many calls");
    p.kind = sim::wl(4);
    p.throws = sim::wlp(1, 5);
    p.expect = int(sim::wlr(1, 9));
    auto call = p.call, e = p.expect;
    auto throws = p.throws;
    auto finish = [call, e, throws]()
    {
        ran(call);
        if(sim::wlp(1, 4))
        {
            sim::yield_point();
        }
        if(throws)
        {
            throw_user(e);
        }
    };
    auto tk = tok(call);
    switch(p.kind)
    {
        case 0:
        {
            // an lvalue argument is copied at once, the original is free
            auto a = std::make_unique<arg>(call, e);
            p.fi = launcher(
                [t = std::move(tk), finish](const arg& x, int y)
                {
                    finish();
                    REQUIRE(x.v.size() == size_t(y), "wrong-argument", "the argument was not copied");
                    return x.v.at(0);
                },
                *a, e);
            a->v.clear();
            a.reset();
            break;
        }
        case 1:
        {
            p.fv = launcher(
                [t = std::move(tk), finish, e](std::unique_ptr<int> x)
                {
                    REQUIRE(x && *x == e, "wrong-argument", "moved argument");
                    finish();
                },
                std::make_unique<int>(e));
            break;
        }
        case 2:
        {
            p.fp = launcher(
                [t = std::move(tk), finish](std::unique_ptr<int>&& x)
                {
                    finish();
                    return std::move(x);
                },
                std::make_unique<int>(e));
            break;
        }
        default:
        {
            std::string s(size_t(e), 'x');
            const std::string c(100, 'y');
            p.fs = launcher(
                [t = std::move(tk), finish](std::string& a, const std::string& b, std::string d)
                {
                    finish();
                    REQUIRE(b.size() == 100 && d.size() == 3, "wrong-argument", "string argument");
                    a.reserve(a.size() + 10);
                    return a;
                },
                s, c, std::string("abc"));
            REQUIRE(s.size() == size_t(e), "argument-changed", "the caller's argument was changed");
            s.clear();
            break;
        }
    }
    REQUIRE(p.valid(), "invalid-future", "async returned an invalid future");
    return p;
}

auto any_policy() -> std::launch
{
    switch(sim::wl(3))
    {
        case 0:
            return std::launch::async;
        case 1:
            return std::launch::deferred;
        default:
            return std::launch::async | std::launch::deferred;
    }
}
// async towards a given thread, with the policy or without one
auto start_on(tpp::thread::id id, std::launch policy, bool with_policy) -> pending
{
    return start(
        [&](auto&& f, auto&&... a)
        {
            if(with_policy)
            {
                return tpp::async(id, policy, std::forward<decltype(f)>(f), std::forward<decltype(a)>(a)...);
            }
            return tpp::async(id, std::forward<decltype(f)>(f), std::forward<decltype(a)>(a)...);
        });
}
auto start_free(std::launch policy, bool with_policy) -> pending
{
    return start(
        [&](auto&& f, auto&&... a)
        {
            if(with_policy)
            {
                return tpp::async(policy, std::forward<decltype(f)>(f), std::forward<decltype(a)>(a)...);
            }
            return tpp::async(std::forward<decltype(f)>(f), std::forward<decltype(a)>(a)...);
        });
}
auto runs(const pending& p) -> int
{
    return int(sim::cell(C_RUNS + p.call));
}
// every callable was destroyed exactly once
void all_destroyed(const char* what)
{
    auto n = int(sim::cell(C_CALLS));
    auto r = collect(MAX_CALLS);
    for(int i = 0; i < n; ++i)
    {
        REQUIRE(r[size_t(i)].destroyed == 1, "callable-leaked", "%s: callable of call %d was destroyed %d times", what, i, r[size_t(i)].destroyed);
    }
}
void end(const char* what)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "%s: shutdown returned %d", what, left);
}
} // namespace

// on other threads, on the caller's own, on threads that are gone
SCENARIO(c21_thread, 6)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        auto a = looper::any();
        auto gone_id = tpp::invalid_id();
        {
            auto t = tpp::make_thread();
            gone_id = t.get_id();
        }
        auto me = tpp::this_thread::get_id();
        auto calls = sim::wlr(1, 6);
        std::vector<pending> out;
        for(uint32_t i = 0; i < calls; ++i)
        {
            auto policy = any_policy();
            auto with = sim::wlp(2, 3);
            auto queued = with && policy == std::launch::async;
            auto before = sim::cell(C_CALLS);
            switch(sim::wl(5))
            {
                case 0:
                case 1:
                {
                    out.push_back(start_on(a.id, policy, with));
                    break;
                }
                case 2:
                {
                    // own thread, given by its id or as "the caller"
                    auto p = start_on(sim::wlp(1, 2) ? me : tpp::caller_id(), policy, with);
                    if(queued)
                    {
                        REQUIRE(runs(p) == 0 && !p.ready(), "not-queued", "an async call to oneself ran in place");
                        tpp::this_thread::process();
                    }
                    REQUIRE(runs(p) == 1 && p.ready(), queued ? "not-processed" : "not-inline", "a call to oneself did not run");
                    REQUIRE(sim::cell(C_ON + p.call) == 1, "wrong-thread", "a call to oneself ran elsewhere");
                    REQUIRE(p.settle() == 1, "broken", "a call to oneself");
                    break;
                }
                case 3:
                {
                    auto p = start_on(sim::wlp(1, 2) ? gone_id : tpp::thread::id(987654), policy, with);
                    REQUIRE(p.ready(), "still-pending", "a call to a thread that does not exist is pending");
                    REQUIRE(p.settle() == 0, "not-broken", "a call to a thread that does not exist");
                    REQUIRE(runs(p) == 0, "ran-nowhere", "a call to a thread that does not exist ran");
                    break;
                }
                default:
                {
                    // from a task of the other thread to itself and back here
                    tpp::async(a.id, std::launch::async,
                               [me, policy, with, queued]()
                               {
                                   auto p = start_on(tpp::this_thread::get_id(), policy, with);
                                   REQUIRE(queued ? runs(p) == 0 : runs(p) == 1, queued ? "not-queued" : "not-inline", "call from a task to its own thread");
                                   auto q = start_on(me, policy, with);
                                   if(!tpp::this_thread::notified_for_exit())
                                   {
                                       REQUIRE(p.settle() == 1, "broken", "call to oneself");
                                       REQUIRE(q.settle() == 1, "broken", "call to the waiting thread");
                                       REQUIRE(sim::cell(C_ON + q.call) == 1, "wrong-thread", "ran on %d", int(sim::cell(C_ON + q.call)));
                                   }
                               })
                        .get();
                    break;
                }
            }
            (void)before;
            if(sim::wlp(1, 4))
            {
                tpp::this_thread::process();
            }
        }
        for(auto& p : out)
        {
            auto r = p.settle();
            REQUIRE(r == 1, "broken", "call %d to a running thread reports a broken promise", p.call);
            REQUIRE(runs(p) == 1, "not-run", "call %d delivered without running", p.call);
            REQUIRE(sim::cell(C_TID + p.call) == int64_t(a.id), "wrong-thread", "call %d ran on thread %d instead of %d", p.call,
                    int(sim::cell(C_TID + p.call)), int(a.id));
            sim::nontrivial();
        }
    }
    end("thread");
    all_destroyed("thread");
}

// the target exits at any moment, the library shuts down
SCENARIO(c21_exit, 5)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        auto shut = sim::wlp(1, 2); // the whole library, or only the target
        auto make = [](uint32_t how)
        {
            return looper::make(how, how == 0 ? 0 : sim::wl(NUM_STYLES));
        };
        auto a = std::make_unique<looper>(make(shut ? 2 + sim::wl(2) : sim::wl(4)));
        auto id = a->id;
        auto senders = int(sim::wlr(1, 2));
        auto calls = int(sim::wlr(1, 4));
        std::vector<std::thread> raw;
        auto outs = std::make_unique<std::vector<pending>[]>(size_t(senders));
        for(int s = 0; s < senders; ++s)
        {
            raw.emplace_back(
                [&outs, s, id, calls]()
                {
                    for(int i = 0; i < calls; ++i)
                    {
                        auto free = sim::wlp(1, 4);
                        outs[size_t(s)].push_back(free ? start_free(any_policy(), true) : start_on(id, any_policy(), sim::wlp(1, 2)));
                        if(sim::wlp(1, 3))
                        {
                            sim::yield_point();
                        }
                    }
                });
        }
        if(sim::wlp(1, 2))
        {
            sim::block_for(1 + sim::wl(20000));
        }
        if(!shut)
        {
            a.reset(); // notified and joined
        }
        else
        {
            tpp::notify_for_exit(id);
        }
        for(auto& r : raw)
        {
            r.join();
        }
        a.reset();
        end("exit");
        sim::set_fault_mask(0);
        sim::block_for(1000000000ull);
        // nobody is left who could run anything: all futures are complete
        for(int s = 0; s < senders; ++s)
        {
            for(auto& p : outs[size_t(s)])
            {
                REQUIRE(p.ready(), "still-pending", "call %d is pending although its thread is gone", p.call);
                auto r = p.settle();
                REQUIRE(runs(p) == r, r ? "not-run" : "ran-and-broken", "call %d: ran %d times, %s", p.call, runs(p),
                        r ? "delivered" : "reports a broken promise");
                if(!r)
                {
                    sim::nontrivial();
                }
            }
        }
    }
    all_destroyed("exit");
}

// without a thread: a fresh one that disappears
SCENARIO(c21_fresh, 4)
{
    sim::set_fault_mask(sim::fb_all_benign | sim::fb_create);
    tpp::init();
    {
        auto before = tpp::get_all_registered_threads();
        auto calls = sim::wlr(1, 4);
        std::vector<pending> out;
        auto failed = 0;
        for(uint32_t i = 0; i < calls; ++i)
        {
            auto c0 = tpp::get_all_registered_threads().size();
            try
            {
                out.push_back(start_free(any_policy(), sim::wlp(2, 3)));
            }
            catch(const std::system_error&)
            {
                // no thread could be created: as if nothing happened
                ++failed;
                sim::probe("no_thread");
                auto call = int(sim::cell(C_CALLS)) - 1;
                REQUIRE(sim::cell(C_RUNS + call) == 0, "ran-nowhere", "ran although async failed");
                (void)c0;
            }
            if(sim::wlp(1, 3))
            {
                tpp::this_thread::process();
            }
        }
        std::vector<int64_t> where;
        for(auto& p : out)
        {
            if(sim::wlp(1, 5))
            {
                continue; // the future may be dropped
            }
            REQUIRE(p.settle() == 1, "broken", "call %d on a fresh thread reports a broken promise", p.call);
            REQUIRE(runs(p) == 1, "not-run", "call %d delivered without running", p.call);
            sim::nontrivial();
        }
        sim::set_fault_mask(0);
        sim::block_for(1000000000ull);
        for(auto& p : out)
        {
            REQUIRE(runs(p) == 1, "not-run", "call %d never ran", p.call);
            auto on = sim::cell(C_ON + p.call);
            REQUIRE(on != 1, "wrong-thread", "call %d ran on its caller", p.call);
            REQUIRE(std::find(where.begin(), where.end(), on) == where.end(), "thread-shared", "two calls on one thread");
            where.push_back(on);
            auto tid = tpp::thread::id(sim::cell(C_TID + p.call));
            REQUIRE(tid != tpp::invalid_id(), "not-registered", "call %d ran on an unregistered thread", p.call);
            REQUIRE(std::find(before.begin(), before.end(), tid) == before.end(), "not-fresh", "call %d ran on an existing thread", p.call);
        }
        auto after = tpp::get_all_registered_threads();
        REQUIRE(after.size() == before.size(), "thread-left", "%zu threads registered, %zu before", after.size(), before.size());
    }
    end("fresh");
    all_destroyed("fresh");
}

// others send tasks to the fresh threads as well
SCENARIO(c21_crowd, 2)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        std::vector<pending> out;
        {
            crier c;
            auto calls = sim::wlr(1, 4);
            for(uint32_t i = 0; i < calls; ++i)
            {
                out.push_back(start_free(any_policy(), true));
            }
            for(auto& p : out)
            {
                REQUIRE(p.settle() == 1, "broken", "call %d on a fresh thread reports a broken promise", p.call);
                REQUIRE(runs(p) == 1, "not-run", "call %d delivered without running", p.call);
            }
            if(sim::cell(crier::C_EXECUTED))
            {
                sim::nontrivial();
            }
        }
        sim::set_fault_mask(0);
        sim::block_for(1000000000ull);
        tpp::this_thread::process();
        auto after = tpp::get_all_registered_threads();
        REQUIRE(after.size() == 1, "thread-left", "%zu threads registered", after.size());
    }
    end("crowd");
    all_destroyed("crowd");
}

// after a long silence
SCENARIO(c21_slow, 1)
{
    slow_init();
    {
        auto t = tpp::make_thread("busy");
        auto fresh = sim::wlp(1, 2);
        tpp::future<int> f;
        auto work = []()
        {
            gap();
            sim::cell_set(C_USER + 90, int64_t(sim::now()));
            return 3;
        };
        if(fresh)
        {
            f = sim::wlp(1, 2) ? tpp::async(work) : tpp::async(std::launch::async, work);
        }
        else
        {
            gap();
            tpp::invoke(t.get_id(), []() { gap(); });
            f = tpp::async(t.get_id(), work);
        }
        REQUIRE(f.get() == 3, "wrong-value", "value");
        prompt(uint64_t(sim::cell(C_USER + 90)), "the result was there");
        while(tpp::get_all_registered_threads().size() > 2)
        {
            tpp::this_thread::wait_for(100us);
        }
        prompt(uint64_t(sim::cell(C_USER + 90)), "its thread was gone");
    }
    slow_end("c21");
}

SCENARIO(c21_large, 1)
{
    large::asyncs();
}

// in place, however deep
SCENARIO(c21_deep, 1)
{
    large::at_every_depth(
        [](tpp::thread::id me, uint32_t depth)
        {
            bool ran = false;
            auto f = tpp::async(me, sim::wlp(1, 2) ? std::launch::deferred : std::launch::async | std::launch::deferred,
                                [&ran]()
                                {
                                    ran = true;
                                    return 3;
                                });
            REQUIRE(ran && f.is_ready() && f.get() == 3, "not-inline", "an async for the own thread was not executed at depth %u", depth);
        });
}
