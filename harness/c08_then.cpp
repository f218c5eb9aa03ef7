// C08: continuations run exactly once, after the result, on the chosen thread
#include "blocking.hpp"
#include "crier.hpp"
#include "slow.hpp"
#include "large.hpp"

namespace
{
enum : int
{
    E_SET_CALL = E_USER, // a tpp id of the completing thread
    E_SET_RET,
    E_ATT_CALL, // a continuation, b tpp id of the attaching thread
    E_ATT_RET,  // a continuation
    E_RES,      // a continuation, b 0 value, 1 own error, 2 broken
};
constexpr int C_INLINE = C_USER;       // + simulated thread: depth of set/attach calls
constexpr int C_OUTCOME = C_USER + 64; // 0 value 1 exception 2 broken

using my_error = user_error;

struct inside
{
    int c = C_INLINE + sim::self();
    inside()
    {
        sim::cell_add(c, 1);
    }
    ~inside()
    {
        sim::cell_add(c, -1);
    }
};

enum target_kind : uint32_t
{
    T_LOOPER,
    T_MAIN,
    T_SELF,   // id of the attaching thread
    T_CALLER, // caller_id()
    T_NONE,   // own thread
    T_GONE,   // not registered
    T_NUM
};
enum
{
    P_DEFAULT,
    P_ASYNC,
    P_DEFERRED,
    P_BOTH,
    P_NUM
};

struct plan
{
    int id = 0;
    uint32_t target = 0;
    uint32_t policy = 0;
    bool throws = false;
    tpp::thread::id requested = 0;
    tpp::future<int> result;
};

template<typename Fut>
void check_input(Fut& f)
{
    REQUIRE(f.valid() && f.is_ready(), "not-ready", "continuation started before its future was ready");
    int64_t how = 0;
    try
    {
        auto v = [&]() -> int
        {
            if constexpr(std::is_void<decltype(f.get())>::value)
            {
                f.get();
                return 5;
            }
            else
            {
                return f.get();
            }
        }();
        REQUIRE(v == 5, "wrong-value", "continuation saw value %d", v);
    }
    catch(const my_error& e)
    {
        how = 1;
        REQUIRE(e.i == 99, "wrong-error", "continuation saw another error");
    }
    catch(const std::future_error& e)
    {
        how = 2;
        REQUIRE(e.code() == std::future_errc::broken_promise, "wrong-error", "continuation saw future_error %d", e.code().value());
    }
    REQUIRE(how == sim::cell(C_OUTCOME), "wrong-result", "continuation saw outcome %ld", long(how));
}

// attaches one continuation from the calling thread
template<typename Fut>
void attach(Fut& f, plan& pl, tpp::thread::id loop_id, tpp::thread::id main_id)
{
    auto self = tpp::this_thread::get_id();
    switch(pl.target)
    {
        default:
            pl.requested = loop_id;
            break;
        case T_MAIN:
            pl.requested = main_id;
            break;
        case T_SELF:
            pl.requested = self;
            break;
        case T_CALLER:
        case T_NONE:
            pl.requested = 0;
            break;
        case T_GONE:
            pl.requested = tpp::thread::id(1) << 40;
            break;
    }
    auto id = pl.id;
    bool throws = pl.throws;
    bool own = pl.target == T_NONE;
    bool async = pl.policy == P_ASYNC;
    auto fn = tracked(id,
                      [id, throws, own, async](Fut g) -> int
                      {
                          if(own || async)
                          {
                              REQUIRE(sim::cell(C_INLINE + sim::self()) == 0, "not-queued",
                                      "continuation %d ran inside the call that completed or attached it", id);
                          }
                          check_input(g);
                          if(throws)
                          {
                              throw_user(id);
                          }
                          return id;
                      });
    sim::cell_add(C_OUT, 1);
    sim::ev(E_ATT_CALL, id, int64_t(self));
    {
        inside in;
        static const std::launch pol[] = {std::launch::async, std::launch::async, std::launch::deferred,
                                          std::launch::async | std::launch::deferred};
        if(own)
        {
            pl.result = pl.policy == P_DEFAULT ? f.then(std::move(fn)) : f.then(pol[pl.policy], std::move(fn));
        }
        else
        {
            pl.result = pl.policy == P_DEFAULT ? f.then(pl.requested, std::move(fn)) : f.then(pl.requested, pol[pl.policy], std::move(fn));
        }
    }
    sim::ev(E_ATT_RET, id);
}

template<typename P>
void complete(P& p)
{
    sim::ev(E_SET_CALL, int64_t(tpp::this_thread::get_id()));
    {
        inside in;
        switch(sim::cell(C_OUTCOME))
        {
            default:
                if constexpr(std::is_same<P, std::unique_ptr<tpp::promise<void>>>::value)
                {
                    p->set_value();
                }
                else
                {
                    p->set_value(5);
                }
                break;
            case 1:
                p->set_exception(user_error_ptr(99));
                break;
            case 2:
                p.reset();
                break;
        }
    }
    sim::ev(E_SET_RET);
}

void collect_result(plan& pl)
{
    int64_t how = 0;
    try
    {
        auto v = pl.result.get();
        REQUIRE(v == pl.id, "wrong-value", "result future %d delivered %d", pl.id, v);
    }
    catch(const my_error& e)
    {
        how = 1;
        REQUIRE(e.i == pl.id, "wrong-error", "result future %d delivered the error of %d", pl.id, e.i);
    }
    catch(const std::future_error& e)
    {
        how = 2;
        REQUIRE(e.code() == std::future_errc::broken_promise, "wrong-error", "result future: future_error %d", e.code().value());
    }
    sim::ev(E_RES, pl.id, how);
}

template<typename T>
auto copy_of(tpp::shared_future<T>& f) -> tpp::shared_future<T>
{
    return f;
}
template<typename T>
auto copy_of(tpp::future<T>& f) -> tpp::future<T>
{
    return std::move(f);
}
template<typename T, bool Shared>
void run()
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | sim::fb_sysclock);
    tpp::init();
    auto main_id = tpp::this_thread::get_id();
    sim::cell_set(C_OUTCOME, sim::wl(3));
    int n = Shared ? int(sim::wlr(1, 4)) : 1;
    std::vector<plan> plans(static_cast<size_t>(n));
    tpp::thread::id loop_id = 0;
    {
        auto loop = looper::make(sim::wl(2), sim::wl(3));
        loop_id = loop.id;
        auto p = std::make_unique<tpp::promise<T>>();
        auto fut = p->get_future();
        using F = std::conditional_t<Shared, tpp::shared_future<T>, tpp::future<T>>;
        F src = std::move(fut);
        std::vector<std::thread> raw;
        auto setter = sim::wl(4); // main, unregistered thread, looper, registered thread
        auto set_early = sim::wlp(1, 3);
        auto do_set = [&]()
        {
            switch(setter)
            {
                default:
                    complete(p);
                    break;
                case 1:
                    raw.emplace_back([&p]() { complete(p); });
                    break;
                case 2:
                    REQUIRE(tpp::invoke(loop_id, [&p]() { complete(p); }), "refused", "send refused");
                    break;
                case 3:
                    raw.emplace_back(
                        [&p]()
                        {
                            tpp::this_thread::register_this_thread();
                            complete(p);
                            sim::gate_wait(5); // keeps its id usable
                            auto me = tpp::this_thread::get_id();
                            (void)me;
                            tpp::this_thread::process();
                            tpp::this_thread::unregister_this_thread();
                        });
                    break;
            }
        };
        if(set_early)
        {
            do_set();
        }
        for(int i = 0; i < n; ++i)
        {
            auto& pl = plans[size_t(i)];
            pl.id = new_task();
            pl.target = sim::wl(T_NUM);
            pl.policy = sim::wl(P_NUM);
            pl.throws = sim::wlp(1, 4);
            auto where = sim::wl(3); // main, looper, registered thread
            if(where == 2 && pl.target == T_SELF)
            {
                where = 1; // that thread would be gone
            }
            switch(where)
            {
                default:
                    attach(src, pl, loop_id, main_id);
                    break;
                case 1:
                {
                    auto s = copy_of(src);
                    tpp::async(loop_id, std::launch::async,
                               [&pl, s = std::move(s), loop_id, main_id]() mutable
                               {
                                   attach(s, pl, loop_id, main_id);
                               })
                        .get();
                }
                    break;
                case 2:
                    raw.emplace_back(
                        [s = F(copy_of(src)), &pl, loop_id, main_id]() mutable
                        {
                            tpp::this_thread::register_this_thread();
                            attach(s, pl, loop_id, main_id);
                            tpp::this_thread::unregister_this_thread();
                            sim::gate_open(6);
                        });
                    if(sim::wlp(1, 2))
                    {
                        raw.back().join();
                        raw.pop_back();
                    }
                    break;
            }
        }
        if(!set_early)
        {
            do_set();
        }
        sim::gate_open(5);
        for(auto& t : raw)
        {
            t.join();
        }
        for(auto& pl : plans)
        {
            REQUIRE(pl.result.valid(), "no-result-future", "then returned an invalid future");
            collect_result(pl);
        }
        REQUIRE(sim::now() < HOUR / 2, "late", "results took an hour");
        // a queued continuation without result future use must be done, too
        tpp::async(loop_id, std::launch::async, []() {}).get();
    }
    auto left = tpp::shutdown(std::chrono::seconds(1000));
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    REQUIRE(sim::now() < 500ull * 1000000000ull, "thread-left", "a continuation's own thread did not go away");

    // ---- judge ----
    struct facts
    {
        uint64_t att_call = 0, att_ret = 0, start = 0, end = 0;
        int starts = 0, destroyed = 0;
        int64_t att_id = 0, tid = 0, res = -1;
        int att_thread = -1, thread = -1;
    };
    std::vector<facts> fs(plans.size());
    uint64_t set_call = 0, set_ret = 0;
    int64_t set_id = 0;
    int set_thread = -1;
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        switch(e.kind)
        {
            case E_SET_CALL:
                set_call = e.seq;
                set_id = e.a;
                set_thread = e.thread;
                break;
            case E_SET_RET:
                set_ret = e.seq;
                break;
            case E_ATT_CALL:
                fs[size_t(e.a)].att_call = e.seq;
                fs[size_t(e.a)].att_id = e.b;
                fs[size_t(e.a)].att_thread = e.thread;
                break;
            case E_ATT_RET:
                fs[size_t(e.a)].att_ret = e.seq;
                break;
            case E_START:
                fs[size_t(e.a)].start = e.seq;
                fs[size_t(e.a)].starts++;
                fs[size_t(e.a)].tid = e.b;
                fs[size_t(e.a)].thread = e.thread;
                break;
            case E_END:
                fs[size_t(e.a)].end = e.seq;
                break;
            case E_DESTROY:
                fs[size_t(e.a)].destroyed++;
                break;
            case E_RES:
                fs[size_t(e.a)].res = e.b;
                break;
            default:
                break;
        }
    }
    for(size_t i = 0; i < plans.size(); ++i)
    {
        const auto& f = fs[i];
        const auto& pl = plans[i];
        REQUIRE(f.starts <= 1, "ran-twice", "continuation %zu ran %d times", i, f.starts);
        REQUIRE(f.destroyed == 1, "callable-lifetime", "continuation %zu destroyed %d times", i, f.destroyed);
        bool may_drop = pl.target == T_GONE || (pl.target == T_CALLER && pl.policy == P_ASYNC);
        if(!f.starts)
        {
            REQUIRE(may_drop, "lost-continuation", "continuation %zu (target %u, policy %u) never ran", i, pl.target, pl.policy);
            REQUIRE(f.res == 2, "wrong-result", "continuation %zu never ran, its future has result %ld", i, long(f.res));
            continue;
        }
        REQUIRE(pl.target != T_GONE, "ran-nowhere", "continuation %zu for an unknown thread ran", i);
        REQUIRE(f.res == (pl.throws ? 1 : 0), "wrong-result", "continuation %zu ran, its future has result %ld", i, long(f.res));
        REQUIRE(f.start > set_call, "before-result", "continuation %zu ran before the result was set", i);
        REQUIRE(f.start > f.att_call, "before-attach", "continuation %zu ran before it was attached", i);
        switch(pl.target)
        {
            case T_CALLER:
                REQUIRE(f.thread == set_thread || f.thread == f.att_thread, "wrong-thread", "continuation %zu ran on a third thread", i);
                break;
            case T_NONE:
                REQUIRE(f.thread != set_thread && f.thread != f.att_thread && f.tid != 0 && f.tid != int64_t(main_id) &&
                            f.tid != int64_t(loop_id),
                        "wrong-thread", "continuation %zu did not get its own thread", i);
                break;
            default:
                REQUIRE(f.tid == int64_t(pl.requested), "wrong-thread", "continuation %zu ran on %ld instead of %lu", i, long(f.tid),
                        (unsigned long)pl.requested);
                break;
        }
        // a deferred-capable policy runs it in place when the thread is right
        if(pl.policy != P_ASYNC && pl.target != T_NONE)
        {
            bool before = f.att_ret < set_call, after = set_ret < f.att_call;
            if(before && (pl.target == T_CALLER || set_id == int64_t(pl.requested)))
            {
                sim::probe("inline_at_completion");
                REQUIRE(f.thread == set_thread && f.end < set_ret, "not-immediate", "continuation %zu did not run in the completing call", i);
            }
            if(after && (pl.target == T_CALLER || f.att_id == int64_t(pl.requested)))
            {
                sim::probe("inline_at_attach");
                REQUIRE(f.thread == f.att_thread && f.end < f.att_ret, "not-immediate", "continuation %zu did not run in the attaching call", i);
            }
            if(!before && !after)
            {
                sim::nontrivial();
            }
        }
        else
        {
            sim::nontrivial();
        }
    }
}

} // namespace

SCENARIO(c08_then, 8)
{
    switch(sim::wl(4))
    {
        default:
            run<int, true>();
            break;
        case 1:
            run<int, false>();
            break;
        case 2:
            run<void, true>();
            break;
        case 3:
            run<void, false>();
            break;
    }
}

// chains over several threads; values, errors and conversions travel along
SCENARIO(c08_chain, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        auto a = looper::make(sim::wl(2), sim::wl(3));
        auto b = looper::make(sim::wl(2), sim::wl(3));
        tpp::promise<int> p;
        auto f = p.get_future();
        auto len = sim::wlr(1, 4);
        bool early = sim::wlp(1, 2);
        bool fail = sim::wlp(1, 3);
        std::thread t;
        auto set = [&p, fail]()
        {
            if(fail)
            {
                p.set_exception(user_error_ptr(1));
            }
            else
            {
                p.set_value(0);
            }
        };
        if(early)
        {
            t = std::thread(set);
        }
        auto pick = [&]() -> tpp::thread::id
        {
            switch(sim::wl(3))
            {
                default:
                    return a.id;
                case 1:
                    return b.id;
                case 2:
                    return tpp::this_thread::get_id();
            }
        };
        for(uint32_t i = 0; i < len; ++i)
        {
            auto id = pick();
            if(sim::wlp(1, 3))
            {
                // over a void result
                auto keep = std::make_shared<int>(0);
                f = f.then(id, [keep](tpp::future<int> x) { *keep = x.get(); })
                        .then(pick(),
                              [keep](tpp::future<void> x)
                              {
                                  x.get();
                                  return *keep + 1;
                              });
            }
            else if(sim::wlp(1, 3))
            {
                f = f.then([](tpp::future<int> x) { return x.get() + 1; });
            }
            else
            {
                f = f.then(id, [](tpp::future<int> x) { return x.get() + 1; });
            }
        }
        if(!early)
        {
            t = std::thread(set);
        }
        try
        {
            auto v = f.get();
            REQUIRE(!fail && v == int(len), "wrong-value", "chain of %u delivered %d", len, v);
        }
        catch(const my_error&)
        {
            REQUIRE(fail, "wrong-error", "chain failed without a reason");
        }
        sim::nontrivial();
        t.join();
    }
    auto left = tpp::shutdown(std::chrono::seconds(1000));
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    REQUIRE(sim::now() < 500ull * 1000000000ull, "thread-left", "a continuation's own thread did not go away");
}

// after a long silence
namespace
{
template<typename Src>
void slow_then(Src src, tpp::promise<int>& p)
{
    auto t = tpp::make_thread("target");
    auto kind = sim::wl(4);
    auto cont = [](auto g) { return g.get() + 1; };
    tpp::future<int> f;
    switch(kind)
    {
        default:
            f = src.then(cont);
            break;
        case 1:
            f = src.then(std::launch::async, cont);
            break;
        case 2:
            f = src.then(t.get_id(), cont);
            break;
        case 3:
            f = src.then(tpp::caller_id(), std::launch::async, cont);
            break;
    }
    std::thread setter(
        [&p]()
        {
            tpp::this_thread::register_this_thread();
            gap();
            sim::cell_set(C_USER + 90, int64_t(sim::now()));
            p.set_value(1);
            while(tpp::get_pending_task_count(tpp::this_thread::get_id()))
            {
                tpp::this_thread::process(); // it may be the one to continue
            }
            tpp::this_thread::unregister_this_thread();
        });
    int v = 0;
    try
    {
        v = f.get();
    }
    catch(const std::future_error& e)
    {
        REQUIRE(e.code() == std::future_errc::broken_promise, "wrong-error", "error %d", e.code().value());
    }
    REQUIRE(v == 2, "continuation-lost", "the continuation of a result that came late gave %d", v);
    prompt(uint64_t(sim::cell(C_USER + 90)), "the continuation ran");
    setter.join();
    while(tpp::get_all_registered_threads().size() > 2)
    {
        tpp::this_thread::wait_for(100us);
    }
    prompt(uint64_t(sim::cell(C_USER + 90)), "its thread was gone");
}
} // namespace
// others send tasks to the threads continuations got for themselves
SCENARIO(c08_crowd, 1)
{
    constexpr int C_RAN = CELL_FREE + 800;
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        crier c;
        auto n = sim::wlr(1, 4);
        std::vector<tpp::promise<int>> ps(n);
        tpp::promise<void> last;
        std::vector<tpp::future<int>> out;
        for(uint32_t i = 0; i < n; ++i)
        {
            if(sim::wlp(1, 2))
            {
                out.push_back(ps[i].get_future().then([i](tpp::future<int> f) { sim::cell_add(C_RAN + int(i), 1); return f.get() + 100; }));
            }
            else
            {
                auto f = ps[i].get_future().share();
                out.push_back(f.then([i](tpp::shared_future<int> f) { sim::cell_add(C_RAN + int(i), 1); return f.get() + 100; }));
            }
        }
        auto shared = sim::wlp(1, 2);
        auto body = [](auto f) { f.get(); return 7; };
        out.push_back(shared ? last.get_future().share().then(body) : last.get_future().then(body));
        sim::block_for(sim::wl(3) * 100000);
        for(uint32_t i = 0; i < n; ++i)
        {
            ps[i].set_value(int(i));
        }
        last.set_value();
        if(sim::cell(crier::C_EXECUTED))
        {
            sim::nontrivial();
        }
        for(uint32_t i = 0; i < n; ++i)
        {
            int v = -1;
            try
            {
                v = out[i].get();
            }
            catch(const std::future_error&)
            {
            }
            REQUIRE(v == int(i) + 100, "continuation-lost", "continuation %u ran %ld times and gave %d", i, long(sim::cell(C_RAN + int(i))), v);
            REQUIRE(sim::cell(C_RAN + int(i)) == 1, "continuation-count", "continuation %u ran %ld times", i, long(sim::cell(C_RAN + int(i))));
        }
        int v = -1;
        try
        {
            v = out.back().get();
        }
        catch(const std::future_error&)
        {
        }
        REQUIRE(v == 7, "continuation-lost", "gave %d", v);
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

SCENARIO(c08_slow, 1)
{
    slow_init();
    {
        tpp::promise<int> p;
        if(sim::wlp(1, 2))
        {
            slow_then(p.get_future(), p);
        }
        else
        {
            slow_then(p.get_future().share(), p);
        }
    }
    slow_end("c08");
}

SCENARIO(c08_large, 1)
{
    large::continuations();
}

// in place, however deep
SCENARIO(c08_deep, 1)
{
    large::at_every_depth(
        [](tpp::thread::id me, uint32_t depth)
        {
            bool ran = false;
            auto cont = [&ran](tpp::future<int> g)
            {
                ran = true;
                return g.get() + 1;
            };
            auto policy = sim::wlp(1, 2) ? std::launch::deferred : std::launch::async | std::launch::deferred;
            tpp::promise<int> p;
            // completed by this thread before or afterwards
            auto early = sim::wlp(1, 2);
            if(early)
            {
                p.set_value(1);
            }
            auto f = p.get_future().then(me, policy, cont);
            if(!early)
            {
                p.set_value(1);
            }
            REQUIRE(ran && f.is_ready() && f.get() == 2, "not-inline", "a continuation was not executed at depth %u", depth);
        });
}
