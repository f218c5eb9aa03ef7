// C06: a promise is fulfilled once and every future sees that result
#include "blocking.hpp"
#include "slow.hpp"
#include "large.hpp"

namespace
{
constexpr int C_LIVE = C_USER;       // live payload objects
constexpr int C_WINNER = C_USER + 1; // successful set operations
constexpr int C_WHO = C_USER + 2;    // index of the winner + 1

enum : int
{
    E_SET_CALL = E_USER, // a setter
    E_SET_RET,           // a setter, b success
    E_GOT,               // a value (setter index), b 0 value 1 error 2 broken
};

struct counted
{
    counted()
    {
        sim::cell_add(C_LIVE, 1);
    }
    counted(const counted&)
    {
        sim::cell_add(C_LIVE, 1);
    }
    counted(counted&&) noexcept
    {
        sim::cell_add(C_LIVE, 1);
    }
    counted& operator=(const counted&) = default;
    counted& operator=(counted&&) = default;
    ~counted()
    {
        sim::cell_add(C_LIVE, -1);
    }
};
struct heavy
{
    counted c;
    std::vector<int> v;
};
struct moveonly
{
    counted c;
    std::unique_ptr<int> v;
};

template<typename T>
struct payload;
template<>
struct payload<int>
{
    static void set(tpp::promise<int>& p, int i)
    {
        p.set_value(i);
    }
    static int read(const int& v)
    {
        return v;
    }
};
template<>
struct payload<heavy>
{
    static void set(tpp::promise<heavy>& p, int i)
    {
        heavy h;
        h.v.assign(3, i);
        if(sim::wlp(1, 2))
        {
            p.set_value(h);
        }
        else
        {
            p.set_value(std::move(h));
        }
    }
    static int read(const heavy& h)
    {
        REQUIRE(h.v.size() == 3 && h.v[0] == h.v[1] && h.v[1] == h.v[2], "torn-value", "value is damaged");
        return h.v[0];
    }
};
template<>
struct payload<moveonly>
{
    static void set(tpp::promise<moveonly>& p, int i)
    {
        moveonly m;
        m.v = std::make_unique<int>(i);
        p.set_value(std::move(m));
    }
    static int read(const moveonly& m)
    {
        REQUIRE(m.v != nullptr, "torn-value", "value is gone");
        return *m.v;
    }
};
template<>
struct payload<void>
{
    static void set(tpp::promise<void>& p, int)
    {
        p.set_value();
    }
};

using my_error = user_error;

template<typename T, typename Fut>
auto get_value(Fut& f) -> int
{
    if constexpr(std::is_void<T>::value)
    {
        f.get();
        return -1;
    }
    else
    {
        return payload<T>::read(f.get());
    }
}

// gets the result and checks it against the winner
template<typename T, typename Fut>
void get_and_check(Fut& f, const int* data, int nsetters)
{
    int who = -2;
    int64_t how = 0;
    try
    {
        who = get_value<T>(f);
    }
    catch(const my_error& e)
    {
        who = e.i;
        how = 1;
    }
    catch(const std::future_error& e)
    {
        REQUIRE(e.code() == std::future_errc::broken_promise, "wrong-error", "get threw future_error %d", e.code().value());
        how = 2;
    }
    sim::ev(E_GOT, who, how);
    if(who >= 0)
    {
        REQUIRE(who < nsetters, "wrong-value", "get returned %d", who);
        // everything the setter wrote before is visible
        REQUIRE(data[who] == who + 1000, "not-visible", "write made before the result was set is not visible");
    }
}

template<typename T>
void race()
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | sim::fb_sysclock);
    tpp::init();
    {
        auto p = std::make_unique<tpp::promise<T>>();
        auto fut = p->get_future();
        auto nset = int(sim::wlr(1, 3));
        auto nread = int(sim::wlr(1, 3));
        bool unique = nread == 1 && sim::wlp(1, 2);
        int data[4] = {0, 0, 0, 0};
        std::vector<std::thread> raw;
        tpp::shared_future<T> sf;
        if(!unique)
        {
            sf = fut.share();
            REQUIRE(!fut.valid(), "valid-after-share", "future still valid after share");
        }
        auto reader = [&data, nset, shared = !unique](auto f)
        {
            tpp::this_thread::register_this_thread();
            auto m = sim::wl(3);
            for(uint32_t i = 0; i < m; ++i)
            {
                switch(sim::wl(5))
                {
                    default:
                        f.wait();
                        REQUIRE(f.is_ready(), "early-wait", "wait returned without a result");
                        break;
                    case 1:
                    {
                        bool r = f.is_ready();
                        auto st = f.wait_for(0us);
                        REQUIRE(!r || st == std::future_status::ready, "ready-lost", "ready future became not ready");
                        break;
                    }
                    case 2:
                    {
                        auto st = f.wait_for(1h);
                        REQUIRE(st == std::future_status::ready && sim::now() < HOUR / 2, "lost-result", "timed wait missed the result");
                        break;
                    }
                    case 3:
                        f.has_error();
                        break;
                    case 4:
                    {
                        auto st = f.wait_until(tpp::clock::now() + 1h);
                        REQUIRE(st == std::future_status::ready && sim::now() < HOUR / 2, "lost-result", "timed wait missed the result");
                        break;
                    }
                }
            }
            get_and_check<T>(f, data, nset);
            REQUIRE(f.valid() == shared, "valid-after-get", "a %s future is %svalid after get", shared ? "shared" : "unique",
                    shared ? "not " : "");
            if(f.valid())
            {
                bool e = f.has_error();
                get_and_check<T>(f, data, nset); // shared: the same again
                REQUIRE(f.has_error() == e, "result-changed", "has_error changed");
            }
            REQUIRE(sim::now() < HOUR / 2, "lost-result", "waiting took an hour");
            tpp::this_thread::unregister_this_thread();
        };
        for(int i = 0; i < nread; ++i)
        {
            if(unique)
            {
                raw.emplace_back(reader, std::move(fut));
            }
            else
            {
                raw.emplace_back(reader, sf);
            }
        }
        sf = {};
        auto setter = [&p, &data](int i, uint32_t what)
        {
            data[i] = i + 1000;
            sim::ev(E_SET_CALL, i);
            bool ok = true;
            try
            {
                switch(what)
                {
                    default:
                        payload<T>::set(*p, i);
                        break;
                    case 2:
                        p->set_exception(user_error_ptr(i));
                        break;
                    case 3:
                        p->abandon();
                        break;
                }
            }
            catch(const std::future_error& e)
            {
                REQUIRE(e.code() == std::future_errc::promise_already_satisfied, "wrong-error", "set threw future_error %d", e.code().value());
                ok = false;
            }
            if(ok)
            {
                sim::cell_add(C_WINNER, 1);
                sim::cell_set(C_WHO, i * 4 + (what <= 1 ? 0 : what - 1));
            }
            sim::ev(E_SET_RET, i, ok);
        };
        std::vector<std::thread> sets;
        auto first = sim::wl(4);
        for(int i = 1; i < nset; ++i)
        {
            sets.emplace_back(setter, i, sim::wl(4));
        }
        if(sim::wlp(1, 3))
        {
            sim::block_for(1000 * sim::wlr(1, 60));
        }
        setter(0, first);
        for(auto& t : sets)
        {
            t.join();
        }
        REQUIRE(sim::cell(C_WINNER) == 1, "fulfilled-twice", "%ld set operations succeeded", long(sim::cell(C_WINNER)));
        auto late = sim::wl(3);
        try
        {
            if(late == 1)
            {
                payload<T>::set(*p, 0);
                sim::fail("fulfilled-twice", "late set succeeded");
            }
            if(late == 2)
            {
                p->set_exception(user_error_ptr(3));
                sim::fail("fulfilled-twice", "late set succeeded");
            }
        }
        catch(const std::future_error& e)
        {
            REQUIRE(e.code() == std::future_errc::promise_already_satisfied, "wrong-error", "set threw future_error %d", e.code().value());
        }
        if(sim::wlp(1, 2))
        {
            p.reset();
        }
        for(auto& t : raw)
        {
            t.join();
        }
        if(nset > 1)
        {
            sim::nontrivial();
        }
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    auto who = sim::cell(C_WHO) / 4, how = sim::cell(C_WHO) % 4;
    uint64_t win_call = 0;
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind == E_SET_CALL && e.a == who)
        {
            win_call = e.seq;
        }
        if(e.kind == E_GOT)
        {
            REQUIRE(win_call != 0, "early-result", "get returned before the result was set");
            REQUIRE(e.b == how, "wrong-result", "get delivered kind %ld, set was %ld", long(e.b), long(how));
            if(!(std::is_void<T>::value && how == 0) && how != 2)
            {
                REQUIRE(e.a == who, "wrong-result", "get delivered the result of setter %ld, the winner was %ld", long(e.a), long(who));
            }
        }
    }
    REQUIRE(sim::cell(C_LIVE) == 0, "payload-lifetime", "%ld payload objects left", long(sim::cell(C_LIVE)));
}
} // namespace

SCENARIO(c06_race, 6)
{
    switch(sim::wl(4))
    {
        default:
            race<int>();
            break;
        case 1:
            race<heavy>();
            break;
        case 2:
            race<moveonly>();
            break;
        case 3:
            race<void>();
            break;
    }
}

// ---- abandonment -----------------------------------------------------------
namespace
{
template<typename F>
auto error_of(F&& f) -> int
{
    try
    {
        f();
    }
    catch(const my_error&)
    {
        return 100;
    }
    catch(const std::future_error& e)
    {
        return e.code().value();
    }
    return 0;
}
const int BROKEN = int(std::future_errc::broken_promise);
const int NOSTATE = int(std::future_errc::no_state);
const int RETRIEVED = int(std::future_errc::future_already_retrieved);
const int SATISFIED = int(std::future_errc::promise_already_satisfied);

template<typename T>
void abandon_run()
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        auto p = std::make_unique<tpp::promise<T>>();
        auto sf = p->get_future().share();
        REQUIRE(error_of([&]() { p->get_future(); }) == RETRIEVED, "retrieved-twice", "future could be retrieved twice");
        auto waiters = sim::wl(3);
        std::vector<std::thread> raw;
        for(uint32_t i = 0; i < waiters; ++i)
        {
            raw.emplace_back(
                [sf]() mutable
                {
                    tpp::this_thread::register_this_thread();
                    REQUIRE(error_of([&]() { sf.get(); }) == BROKEN, "not-broken", "get did not report a broken promise");
                    REQUIRE(sim::gate_value(3) >= 1, "early-broken", "promise reported broken while still owned");
                    sim::nontrivial();
                    tpp::this_thread::unregister_this_thread();
                });
        }
        // moving the promise around does not abandon it
        auto moves = sim::wl(3);
        for(uint32_t i = 0; i < moves; ++i)
        {
            auto q = std::make_unique<tpp::promise<T>>(std::move(*p));
            REQUIRE(!sf.is_ready(), "early-broken", "moving a promise made its future ready");
            if(sim::wlp(1, 2))
            {
                REQUIRE(error_of([&]() { payload<T>::set(*p, 1); }) == NOSTATE, "moved-from-set", "moved-from promise accepted a value");
                REQUIRE(error_of([&]() { p->get_future(); }) == NOSTATE, "moved-from-get", "moved-from promise gave a future");
            }
            if(sim::wlp(1, 2))
            {
                p = std::move(q); // destroys the moved-from one
            }
            else
            {
                tpp::promise<T> other;
                other = std::move(*q);
                p = std::make_unique<tpp::promise<T>>(std::move(other));
            }
            REQUIRE(!sf.is_ready(), "early-broken", "moving a promise made its future ready");
        }
        if(sim::wlp(1, 3))
        {
            sim::block_for(1000 * sim::wlr(1, 60));
        }
        REQUIRE(!sf.is_ready(), "early-broken", "future ready without a result");
        sim::gate_open(3);
        auto how = sim::wl(5);
        switch(how)
        {
            default:
                p.reset();
                break;
            case 1:
            {
                // overwritten by a fresh promise that stays alive
                *p = tpp::promise<T>();
                break;
            }
            case 2:
            {
                tpp::promise<T> other;
                auto of = other.get_future();
                *p = std::move(other);
                REQUIRE(!of.is_ready(), "early-broken", "the promise moved in is broken");
                payload<T>::set(*p, 7);
                REQUIRE(of.is_ready() && !of.has_error(), "lost-result", "the promise moved in does not reach its future");
                break;
            }
            case 3:
                p->abandon();
                REQUIRE(error_of([&]() { p->abandon(); }) == SATISFIED, "fulfilled-twice", "abandoned twice");
                break;
            case 4:
            {
                // the last owner is a task nobody accepts
                REQUIRE(!tpp::invoke(tpp::thread::id(1) << 40, [q = std::move(*p)]() mutable { payload<T>::set(q, 1); }), "accepted",
                        "an unknown thread accepted a task");
                break;
            }
        }
        REQUIRE(sf.is_ready(), "not-broken", "future stays pending although its promise is gone (way %u)", how);
        REQUIRE(sf.has_error(), "not-broken", "abandoned future has a value");
        REQUIRE(error_of([&]() { sf.get(); }) == BROKEN, "not-broken", "get did not report a broken promise");
        for(auto& t : raw)
        {
            t.join();
        }
        if(!waiters)
        {
            sim::nontrivial();
        }
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    REQUIRE(sim::cell(C_LIVE) == 0, "payload-lifetime", "%ld payload objects left", long(sim::cell(C_LIVE)));
}
} // namespace

SCENARIO(c06_abandon, 4)
{
    switch(sim::wl(4))
    {
        default:
            abandon_run<int>();
            break;
        case 1:
            abandon_run<heavy>();
            break;
        case 2:
            abandon_run<moveonly>();
            break;
        case 3:
            abandon_run<void>();
            break;
    }
}

// ---- a result handed over through a chain of owners ------------------------
SCENARIO(c06_handover, 2)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | sim::fb_sysclock);
    tpp::init();
    {
        // a default constructed or used up future names no result
        tpp::future<heavy> none;
        REQUIRE(!none.valid(), "valid-empty", "default future valid");
        REQUIRE(error_of([&]() { none.wait(); }) == NOSTATE, "no-state", "wait on an empty future");
        REQUIRE(error_of([&]() { none.get(); }) == NOSTATE, "no-state", "get on an empty future");
        REQUIRE(error_of([&]() { none.is_ready(); }) == NOSTATE, "no-state", "is_ready on an empty future");
        REQUIRE(error_of([&]() { none.wait_for(1us); }) == NOSTATE, "no-state", "wait_for on an empty future");
        REQUIRE(error_of([&]() { none.then(tpp::this_thread::get_id(), [](tpp::future<heavy>) {}); }) == NOSTATE, "no-state",
                "then on an empty future");
        tpp::promise<heavy> p;
        auto f = p.get_future();
        // the promise travels to another thread, the future to a third
        auto a = looper::make(sim::wl(2), 0);
        auto b = looper::make(sim::wl(2), 0);
        auto done = std::make_shared<tpp::promise<void>>();
        auto df = done->get_future();
        tpp::invoke(b.id,
                    [f = std::move(f), done]() mutable
                    {
                        tpp::future<heavy> g;
                        g = std::move(f);
                        REQUIRE(!f.valid() && g.valid(), "valid-moved", "moving a future");
                        auto h = g.get();
                        REQUIRE(!g.valid(), "valid-after-get", "future valid after get");
                        REQUIRE(payload<heavy>::read(h) == 42, "wrong-value", "wrong value");
                        REQUIRE(error_of([&]() { g.get(); }) == NOSTATE, "no-state", "second get");
                        sim::nontrivial();
                        done->set_value();
                    });
        tpp::invoke(a.id,
                    [p = std::move(p)]() mutable
                    {
                        auto q = std::move(p);
                        payload<heavy>::set(q, 42);
                    });
        df.get();
        auto rf = tpp::make_ready_future(heavy{});
        REQUIRE(rf.is_ready() && !rf.has_error(), "ready-future", "make_ready_future is not ready");
        auto vf = tpp::make_ready_future();
        REQUIRE(vf.is_ready() && !vf.has_error() && error_of([&]() { vf.get(); }) == 0 && !vf.valid(), "ready-future",
                "make_ready_future of nothing does not deliver");
        auto vs = tpp::make_ready_future().share();
        REQUIRE(error_of([&]() { vs.get(); }) == 0 && vs.valid() && error_of([&]() { vs.get(); }) == 0, "ready-future",
                "a shared future without value cannot be read again");
        auto ef = tpp::make_exceptional_future<int>(my_error(1));
        REQUIRE(ef.is_ready() && ef.has_error() && error_of([&]() { ef.get(); }) == 100, "exceptional-future",
                "make_exceptional_future does not deliver its error");
        auto ep = tpp::make_exceptional_future<void>(user_error_ptr(1));
        REQUIRE(ep.is_ready() && ep.has_error() && error_of([&]() { ep.get(); }) == 100, "exceptional-future",
                "make_exceptional_future<void> does not deliver its error");
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    REQUIRE(sim::cell(C_LIVE) == 0, "payload-lifetime", "%ld payload objects left", long(sim::cell(C_LIVE)));
}

// after a long silence
SCENARIO(c06_slow, 1)
{
    slow_init();
    {
        tpp::promise<int> p;
        auto sf = p.get_future().share();
        auto how = sim::wl(2);
        std::vector<std::thread> raw;
        for(int i = 0; i < 2; ++i)
        {
            raw.emplace_back(
                [sf, how]()
                {
                    tpp::this_thread::register_this_thread();
                    if(how)
                    {
                        sf.wait();
                    }
                    REQUIRE(sf.get() == 5, "wrong-value", "get after a long time");
                    tpp::this_thread::unregister_this_thread();
                    sim::gate_open(1);
                });
        }
        gap();
        auto t0 = sim::now();
        REQUIRE(sim::gate_value(1) == 0, "early-get", "get returned before the result was set");
        p.set_value(5);
        sim::gate_wait(1, 2);
        prompt(t0, "get returned");
        for(auto& t : raw)
        {
            t.join();
        }
    }
    slow_end("c06");
}

SCENARIO(c06_large, 1)
{
    large::readers();
}

namespace
{
void own_wait(const tpp::shared_future<int>& sf, uint32_t ended)
{
    if(sim::wlp(1, 2))
    {
        sf.wait();
        REQUIRE(sf.is_ready(), "early-result", "a wait returned before the result was set");
    }
    int got = 0;
    auto e = error_of([&]() { got = sf.get(); });
    REQUIRE(e == (ended == 0 ? 0 : ended == 1 ? 100 : BROKEN) && got == (ended ? 0 : 7), "wrong-result", "get gave %d and error %d", got, e);
}
} // namespace

// what a wait waits for is brought about by a task that the waiting thread
// executes inside it
SCENARIO(c06_own, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | sim::fb_sysclock);
    tpp::init();
    {
        auto me = tpp::this_thread::get_id();
        tpp::promise<int> p;
        auto sf = p.get_future().share();
        auto ended = sim::wl(3);
        std::vector<std::thread> others;
        auto n = sim::wl(3);
        for(uint32_t i = 0; i < n; ++i)
        {
            others.emplace_back(
                [sf, ended]()
                {
                    tpp::this_thread::register_this_thread();
                    own_wait(sf, ended);
                    tpp::this_thread::unregister_this_thread();
                });
        }
        // each waits for the same inside the one before, the last sets it
        auto levels = sim::wl(4);
        auto send = [&, me]()
        {
            for(uint32_t i = 0; i < levels; ++i)
            {
                tpp::invoke(me, [sf, ended]() { own_wait(sf, ended); });
            }
            tpp::invoke(me,
                        [&p, ended]()
                        {
                            switch(ended)
                            {
                                default:
                                    p.set_value(7);
                                    break;
                                case 1:
                                    p.set_exception(user_error_ptr(1));
                                    break;
                                case 2:
                                    p = {};
                                    break;
                            }
                        });
        };
        std::thread sender;
        if(sim::wlp(1, 2))
        {
            send();
        }
        else
        {
            sender = std::thread(
                [&]()
                {
                    sim::block_for(1000 * sim::wl(60));
                    send();
                });
        }
        own_wait(sf, ended);
        sim::nontrivial();
        if(sender.joinable())
        {
            sender.join();
        }
        for(auto& t : others)
        {
            t.join();
        }
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}
