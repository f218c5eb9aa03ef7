// C22: allocation failure in a send or wait loses nothing already accepted
#include "blocking.hpp"

namespace
{
constexpr int C_RUNS = CELL_STARTED;   // + call: times it ran
constexpr int C_LASTOF = C_USER + 20;  // + sender: number of its last task that ran
constexpr int C_CALLS = C_USER;
constexpr int C_ACC = C_USER + 1;      // queued tasks accepted
constexpr int C_DONE = C_USER + 2;     // queued tasks done
constexpr int MAX_CALLS = 60;

// the allocation number n of this scope fails
struct memory_runs_out
{
    bool armed = true;
    explicit memory_runs_out(int n)
    {
        sim::arm_alloc_failure(n);
    }
    auto happened() -> bool
    {
        if(!armed)
        {
            return false;
        }
        armed = false;
        auto f = sim::disarm_alloc_failure();
        if(f)
        {
            sim::nontrivial();
        }
        return f;
    }
    ~memory_runs_out()
    {
        happened();
    }
};
auto nth() -> int
{
    return int(sim::wlr(1, 12));
}

auto new_call() -> int
{
    auto c = int(sim::cell_add(C_CALLS, 1)) - 1;
    REQUIRE(c < MAX_CALLS, "harness", "too many calls");
    return c;
}
void run_call(int call)
{
    REQUIRE(sim::cell_add(C_RUNS + call, 1) == 1, "ran-twice", "call %d ran again", call);
}
auto runs(int call) -> int
{
    return int(sim::cell(C_RUNS + call));
}
// the owning tokens of all calls died exactly once
void tokens(const char* what)
{
    auto n = int(sim::cell(C_CALLS));
    auto r = collect(MAX_CALLS);
    for(int i = 0; i < n; ++i)
    {
        REQUIRE(r[size_t(i)].destroyed == 1, "callable-leaked", "%s: callable of call %d destroyed %d times", what, i, r[size_t(i)].destroyed);
    }
}
// of a call that failed nothing is left but its destroyed callable
void undone(int call, const char* what)
{
    auto r = collect(MAX_CALLS);
    REQUIRE(r[size_t(call)].destroyed == 1, "callable-leaked", "%s: callable of a failed call destroyed %d times", what,
            r[size_t(call)].destroyed);
    REQUIRE(runs(call) == 0, "ran-but-failed", "%s: a call that failed ran", what);
}

struct big
{
    std::vector<int> v = std::vector<int>(20, 7);
};

// queues a numbered task; returns whether it was accepted
auto queue(int sender, int number, tpp::thread::id id, bool failing) -> bool
{
    auto call = new_call();
    std::string text(40, 'x');
    big b;
    auto form = sim::wl(4);
    auto task = [t = tok(call), call, sender, number](const std::string& s, const big& x)
    {
        REQUIRE(s.size() == 40 && x.v.size() == 20, "wrong-argument", "argument of call %d", call);
        run_call(call);
        REQUIRE(sim::cell(C_LASTOF + sender) < number, "order", "task %d of sender %d after task %d", number, sender,
                int(sim::cell(C_LASTOF + sender)));
        sim::cell_set(C_LASTOF + sender, number);
        sim::cell_add(C_DONE, 1);
    };
    auto ok = false;
    {
        auto n = nth();
        std::unique_ptr<memory_runs_out> out;
        try
        {
            if(failing)
            {
                out = std::make_unique<memory_runs_out>(n);
            }
            switch(form)
            {
                case 0:
                    ok = tpp::invoke(id, std::move(task), text, b);
                    break;
                case 1:
                    ok = tpp::invoke(id, std::move(task), std::move(text), std::move(b));
                    break;
                case 2:
                    ok = tpp::dispatch(id, std::move(task), text, b);
                    break;
                default:
                {
                    // a callable that is copied
                    auto copyable = [p = std::make_shared<decltype(task)>(std::move(task)), b, text]()
                    {
                        (*p)(text, b);
                    };
                    ok = tpp::invoke(id, copyable);
                    break;
                }
            }
            REQUIRE(ok, "send-rejected", "send to a registered thread");
        }
        catch(const std::bad_alloc&)
        {
            REQUIRE(out && out->happened(), "alloc-failed-late", "bad_alloc without a cause");
            REQUIRE(!ok, "harness", "accepted and failed");
        }
    }
    if(ok)
    {
        sim::cell_add(C_ACC, 1);
    }
    return ok;
}
void settle_queue()
{
    pump_until([]() { return sim::cell(C_ACC) == sim::cell(C_DONE); });
}
void end(const char* what)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "%s: shutdown returned %d", what, left);
}
} // namespace

SCENARIO(c22_invoke, 4)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        auto a = looper::any();
        auto per = int(sim::wlr(1, 6));
        auto n2 = int(sim::wl(5));
        std::thread other(
            [id = a.id, n2]()
            {
                for(int i = 1; i <= n2; ++i)
                {
                    queue(1, i, id, sim::wlp(1, 3));
                }
            });
        for(int i = 1; i <= per; ++i)
        {
            queue(0, i, sim::wlp(1, 5) ? a.id : a.id, sim::wlp(2, 3));
        }
        other.join();
        settle_queue();
        // and it is as usable as before
        auto f = tpp::async(a.id, []() { return 5; });
        REQUIRE(f.get() == 5, "unusable", "async after the failures");
    }
    end("invoke");
    auto n = int(sim::cell(C_CALLS));
    auto ran = 0;
    for(int i = 0; i < n; ++i)
    {
        ran += runs(i);
    }
    REQUIRE(ran == int(sim::cell(C_ACC)), "task-lost", "%d accepted, %d ran", int(sim::cell(C_ACC)), ran);
    tokens("invoke");
}

SCENARIO(c22_async, 4)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        auto a = looper::any();
        auto gone = tpp::thread::id(987654);
        auto count = sim::wlr(1, 4);
        for(uint32_t i = 0; i < count; ++i)
        {
            queue(0, int(i) + 1, a.id, false); // must survive everything that follows
            auto call = new_call();
            auto where = sim::wl(4);
            auto policy = sim::wlp(1, 2) ? std::launch::async : std::launch::async | std::launch::deferred;
            auto failed = false, threw = false;
            auto f = tpp::future<std::string>();
            {
                auto task = [t = tok(call), call](std::string s)
                {
                    run_call(call);
                    return s;
                };
                std::string text(50, 'z');
                memory_runs_out out(nth());
                try
                {
                    switch(where)
                    {
                        case 0:
                            f = tpp::async(a.id, policy, std::move(task), text);
                            break;
                        case 1:
                            f = tpp::async(tpp::this_thread::get_id(), policy, std::move(task), text);
                            break;
                        case 2:
                            f = tpp::async(gone, policy, std::move(task), text);
                            break;
                        default:
                            f = tpp::async(policy, std::move(task), text);
                            break;
                    }
                }
                catch(const std::bad_alloc&)
                {
                    threw = true;
                }
                failed = out.happened();
            }
            REQUIRE(!threw || failed, "alloc-failed-late", "bad_alloc without a cause");
            if(threw)
            {
                if(where == 3)
                {
                    sim::set_fault_mask(0);
                    sim::block_for(50000000ull); // its thread may be about to end
                    sim::set_fault_mask(sim::fb_all_benign);
                }
                undone(call, "async");
                continue;
            }
            REQUIRE(f.valid(), "invalid-future", "async returned an invalid future");
            if(where == 1)
            {
                tpp::this_thread::process();
            }
            try
            {
                auto s = f.get();
                REQUIRE(s.size() == 50 && runs(call) == 1, "wrong-value", "async delivered %zu characters, ran %d times", s.size(), runs(call));
                REQUIRE(where != 2, "ran-nowhere", "delivered by no thread");
            }
            catch(const std::bad_alloc&)
            {
                REQUIRE(failed, "alloc-failed-late", "the future reports bad_alloc without a cause");
            }
            catch(const std::future_error& x)
            {
                REQUIRE(where == 2 && runs(call) == 0, "broken", "call reports: %s", x.what());
            }
        }
        settle_queue();
        sim::set_fault_mask(0);
        sim::block_for(50000000ull);
        auto n = tpp::get_all_registered_threads().size();
        REQUIRE(n == 2, "thread-left", "%zu threads registered", n);
    }
    end("async");
    tokens("async");
}

SCENARIO(c22_then, 4)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        auto a = looper::any();
        auto count = sim::wlr(1, 3);
        for(uint32_t i = 0; i < count; ++i)
        {
            tpp::promise<int> p;
            auto f = p.get_future();
            auto shared = sim::wlp(1, 3);
            auto sf = tpp::shared_future<int>();
            if(shared)
            {
                sf = f.share();
            }
            // one attached before, which must not be lost
            auto first = tpp::future<int>();
            auto first_call = -1;
            auto id = sim::wlp(1, 2) ? a.id : tpp::this_thread::get_id();
            if(shared && sim::wlp(1, 2))
            {
                first_call = new_call();
                first = sf.then(id,
                                [t = tok(first_call), first_call](auto s)
                                {
                                    run_call(first_call);
                                    return s.get() + 1;
                                });
            }
            auto at_once = sim::wlp(1, 2);
            auto fresh = sim::wlp(1, 3); // a continuation without a thread
            if(at_once)
            {
                p.set_value(4);
            }
            auto call = new_call();
            auto threw = false, failed = false;
            tpp::future<int> g;
            {
                big b;
                auto cont = [t = tok(call), call, b](auto s)
                {
                    run_call(call);
                    return s.get() + int(b.v.size());
                };
                auto n = nth();
                memory_runs_out out(n);
                try
                {
                    if(fresh)
                    {
                        g = shared ? sf.then(std::move(cont)) : f.then(std::launch::async, std::move(cont));
                    }
                    else
                    {
                        g = shared ? sf.then(id, std::move(cont)) : f.then(id, std::move(cont));
                    }
                }
                catch(const std::bad_alloc&)
                {
                    threw = true;
                }
                failed = out.happened();
            }
            REQUIRE(!threw || failed, "alloc-failed-late", "bad_alloc without a cause");
            if(threw)
            {
                if(fresh)
                {
                    sim::set_fault_mask(0);
                    sim::block_for(50000000ull); // its thread may be about to end
                    sim::set_fault_mask(sim::fb_all_benign);
                }
                undone(call, "then");
                REQUIRE(shared ? sf.valid() : f.valid(), "future-lost", "the future is gone although then() failed");
            }
            if(!at_once)
            {
                p.set_value(4);
            }
            if(threw)
            {
                REQUIRE((shared ? sf.get() : f.get()) == 4, "wrong-value", "value after then() failed");
            }
            else
            {
                try
                {
                    auto v = g.get();
                    REQUIRE(v == 24, "wrong-value", "continuation delivered %d", v);
                    REQUIRE(runs(call) == 1, "wrong-value", "continuation ran %d times", runs(call));
                }
                catch(const std::bad_alloc&)
                {
                    REQUIRE(failed, "alloc-failed-late", "the future reports bad_alloc without a cause");
                }
            }
            if(first_call >= 0)
            {
                REQUIRE(first.get() == 5 && runs(first_call) == 1, "continuation-lost", "the continuation attached before");
            }
        }
        sim::set_fault_mask(0);
        sim::block_for(50000000ull);
        auto n = tpp::get_all_registered_threads().size();
        REQUIRE(n == 2, "thread-left", "%zu threads registered", n);
    }
    end("then");
    tokens("then");
}

// futures without a value
SCENARIO(c22_then_void, 2)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        auto a = looper::make(0, 0);
        tpp::promise<void> p;
        auto f = p.get_future();
        auto shared = sim::wlp(1, 2), fresh = sim::wlp(1, 2), at_once = sim::wlp(1, 2);
        auto sf = tpp::shared_future<void>();
        if(shared)
        {
            sf = f.share();
        }
        if(at_once)
        {
            p.set_value();
        }
        auto call = new_call();
        auto threw = false, failed = false;
        tpp::future<void> g;
        {
            big b;
            auto cont = [t = tok(call), call, b](auto s)
            {
                run_call(call);
                s.get();
            };
            memory_runs_out out(nth());
            try
            {
                if(fresh)
                {
                    g = shared ? sf.then(std::move(cont)) : f.then(std::launch::async, std::move(cont));
                }
                else
                {
                    g = shared ? sf.then(a.id, std::move(cont)) : f.then(a.id, std::move(cont));
                }
            }
            catch(const std::bad_alloc&)
            {
                threw = true;
            }
            failed = out.happened();
        }
        REQUIRE(!threw || failed, "alloc-failed-late", "bad_alloc without a cause");
        sim::set_fault_mask(0);
        if(threw)
        {
            sim::block_for(50000000ull);
            undone(call, "then");
            REQUIRE(shared ? sf.valid() : f.valid(), "future-lost", "the future is gone although then() failed");
        }
        if(!at_once)
        {
            p.set_value();
        }
        if(threw)
        {
            shared ? sf.get() : f.get();
        }
        else
        {
            g.get();
            REQUIRE(runs(call) == 1, "wrong-value", "continuation ran %d times", runs(call));
        }
        sim::block_for(50000000ull);
        auto n = tpp::get_all_registered_threads().size();
        REQUIRE(n == 2, "thread-left", "%zu threads registered", n);
    }
    end("then");
    tokens("then");
}

SCENARIO(c22_wait, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        tpp::promise<int> p;
        auto sf = p.get_future().share();
        std::mutex m;
        tpp::condition_variable cv;
        tpp::mutex tm;
        struct
        {
            bool flag = false;
            int inside = 0;
        } st;
        auto waiters = int(sim::wlr(1, 3));
        std::vector<std::thread> raw;
        auto form = sim::wl(6);
        if(form == 5)
        {
            tm.lock();
        }
        for(int i = 0; i < waiters; ++i)
        {
            raw.emplace_back(
                [&, i]()
                {
                    tpp::this_thread::register_this_thread();
                    auto tries = sim::wl(4);
                    for(uint32_t k = 0;; ++k)
                    {
                        std::unique_lock<std::mutex> l(m, std::defer_lock);
                        try
                        {
                            auto n = nth() % 4 + 1;
                            std::unique_ptr<memory_runs_out> out;
                            if(k < tries)
                            {
                                out = std::make_unique<memory_runs_out>(n);
                            }
                            switch(form)
                            {
                                case 0:
                                    sf.wait();
                                    break;
                                case 1:
                                    REQUIRE(sf.wait_for(1h) == std::future_status::ready, "bad-result", "wait_for");
                                    break;
                                case 2:
                                    REQUIRE(sf.get() == 3, "bad-result", "get");
                                    break;
                                case 3:
                                    l.lock();
                                    while(!st.flag)
                                    {
                                        cv.wait(l);
                                    }
                                    break;
                                case 5:
                                    tm.lock();
                                    REQUIRE(st.inside++ == 0 && st.flag, "not-exclusive", "two threads hold the mutex");
                                    st.inside--;
                                    out.reset();
                                    tm.unlock();
                                    break;
                                default:
                                    l.lock();
                                    while(!st.flag)
                                    {
                                        auto s = cv.wait_for(l, 1h);
                                        REQUIRE(s == std::cv_status::no_timeout, "bad-result", "timeout");
                                    }
                                    break;
                            }
                            break;
                        }
                        catch(const std::bad_alloc&)
                        {
                            REQUIRE(k < tries, "alloc-failed-late", "bad_alloc without a cause");
                            REQUIRE(form < 3 || form == 5 || l.owns_lock(), "lock-not-held", "the wait failed and the lock is not held");
                            sim::probe("wait_failed");
                        }
                    }
                    sim::gate_open(2);
                    tpp::this_thread::unregister_this_thread();
                });
        }
        if(sim::wlp(2, 3))
        {
            sim::block_for(1 + sim::wl(5000));
        }
        if(form < 3)
        {
            p.set_value(3);
        }
        else if(form == 5)
        {
            st.flag = true;
            tm.unlock();
        }
        else
        {
            {
                std::lock_guard<std::mutex> l(m);
                st.flag = true;
            }
            if(sim::wlp(1, 2))
            {
                cv.notify_all();
            }
            else
            {
                for(int i = 0; i < waiters; ++i)
                {
                    cv.notify_one();
                }
            }
        }
        sim::gate_wait(2, waiters);
        for(auto& r : raw)
        {
            r.join();
        }
    }
    end("wait");
}

// a thread that cannot be started or registered leaves nothing behind
SCENARIO(c22_thread, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        auto count = sim::wlr(1, 4);
        for(uint32_t i = 0; i < count; ++i)
        {
            auto before = tpp::get_all_registered_threads().size();
            auto call = new_call();
            auto form = sim::wl(5);
            auto threw = false, failed = false;
            tpp::thread t;
            tpp::shared_thread st;
            std::thread raw;
            auto name = sim::wlp(1, 2) ? std::string(30, 'n') : std::string();
            {
                auto work = [k = tok(call), call](const std::string& s)
                {
                    REQUIRE(s.size() == 40, "wrong-argument", "argument of call %d", call);
                    run_call(call);
                };
                std::string text(40, 'y');
                auto n = nth();
                if(form == 4)
                {
                    raw = std::thread(
                        [i, name, before]()
                        {
                            sim::gate_wait(10 + int(i));
                            tpp::this_thread::register_this_thread(name);
                            REQUIRE(tpp::this_thread::get_id() != tpp::invalid_id() && tpp::get_all_registered_threads().size() == before + 1,
                                    "unusable", "registering again");
                            auto c = new_call();
                            REQUIRE(tpp::invoke(tpp::this_thread::get_id(), [k = tok(c), c]() { run_call(c); }), "send-rejected", "own task");
                            tpp::this_thread::process();
                            REQUIRE(runs(c) == 1, "task-lost", "task of the thread registered again");
                            tpp::this_thread::unregister_this_thread();
                        });
                }
                memory_runs_out out(n);
                try
                {
                    switch(form)
                    {
                        case 0:
                            t = tpp::thread(std::as_const(name), std::move(work), text);
                            break;
                        case 1:
                            t = tpp::thread(std::move(work), text);
                            break;
                        case 2:
                            t = tpp::make_thread(name);
                            break;
                        case 3:
                            st = tpp::make_shared_thread(name);
                            break;
                        default:
                            tpp::register_thread(raw.get_id(), name);
                            break;
                    }
                }
                catch(const std::bad_alloc&)
                {
                    threw = true;
                }
                failed = out.happened();
            }
            REQUIRE(!threw || failed, "alloc-failed-late", "bad_alloc without a cause");
            if(threw)
            {
                auto now = tpp::get_all_registered_threads().size();
                REQUIRE(now == before, "thread-left", "%zu threads registered, %zu before", now, before);
                REQUIRE(!t.joinable() && t.get_id() == tpp::invalid_id(), "thread-left", "a thread object without its thread");
                undone(call, "thread");
            }
            if(form == 4)
            {
                // the thread may register as if nothing had happened
                sim::gate_open(10 + int(i));
                raw.join();
                REQUIRE(tpp::get_all_registered_threads().size() == before, "thread-left", "after unregistering");
            }
            else if(!threw)
            {
                auto& r = form == 3 ? *st : t;
                REQUIRE(r.joinable() && r.get_id() != tpp::invalid_id(), "unusable", "thread object");
                if(form > 1)
                {
                    auto f = tpp::async(r.get_id(), []() { return 5; });
                    REQUIRE(f.get() == 5, "unusable", "async after the failures");
                }
                r.join();
                REQUIRE(form > 1 || runs(call) == 1, "not-run", "the thread's function ran %d times", runs(call));
            }
        }
    }
    end("thread");
    tokens("thread");
}
