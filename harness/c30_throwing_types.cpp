// C30: values, arguments and callables of the user may throw when they are
// copied or moved
#include "common.hpp"

namespace
{
constexpr int C_LIVE = CELL_FREE;       // values alive
constexpr int C_FIRED = CELL_FREE + 10;  // + op: times a copy or move threw
constexpr int C_EXEC = CELL_FREE + 110;  // + op: times its body was executed
constexpr int C_CAME = CELL_FREE + 210;  // + op: times its exception came out of a task

// throws at the fuse-th copy or move, counted along the chain of objects
struct val
{
    int op;
    int v;
    int fuse; // 0: never
    val(int o, int x, int f = 0) : op(o), v(x), fuse(f)
    {
        sim::cell_add(C_LIVE, 1);
    }
    val(const val& o) : op(o.op), v(o.v), fuse(burn(o))
    {
        sim::cell_add(C_LIVE, 1);
    }
    val(val&& o) noexcept(false) : op(o.op), v(o.v), fuse(burn(o))
    {
        o.v = -1;
        sim::cell_add(C_LIVE, 1);
    }
    auto operator=(const val& o) -> val&
    {
        fuse = burn(o);
        op = o.op;
        v = o.v;
        return *this;
    }
    auto operator=(val&& o) noexcept(false) -> val&
    {
        fuse = burn(o);
        op = o.op;
        v = o.v;
        o.v = -1;
        return *this;
    }
    ~val()
    {
        sim::cell_add(C_LIVE, -1);
    }
    static auto burn(const val& o) -> int
    {
        if(o.fuse == 1)
        {
            sim::cell_add(C_FIRED + o.op, 1);
            sim::nontrivial();
            throw_user(o.op);
        }
        return o.fuse ? o.fuse - 1 : 0;
    }
};

auto fired(int op) -> bool
{
    return sim::cell(C_FIRED + op) != 0;
}
// what came out of a call that executes tasks
template<typename F>
void catching(F f)
{
    try
    {
        f();
    }
    catch(const user_error& e)
    {
        sim::cell_add(C_CAME + e.i, 1);
    }
}

// by value or by reference: the first needs one more copy where it is executed
struct by_value
{
    val mine;
    int fuse; // of the result
    auto operator()(val a) -> val
    {
        REQUIRE(mine.v == 100 + mine.op, "wrong-value", "callable of %d has %d", mine.op, mine.v);
        REQUIRE(a.v == 200 + a.op, "wrong-value", "argument of %d is %d", a.op, a.v);
        sim::cell_add(C_EXEC + a.op, 1);
        return val(a.op, 300 + a.op, fuse);
    }
};
struct by_reference
{
    val mine;
    int fuse;
    auto operator()(const val& a) -> val
    {
        REQUIRE(mine.v == 100 + mine.op, "wrong-value", "callable of %d has %d", mine.op, mine.v);
        REQUIRE(a.v == 200 + a.op, "wrong-value", "argument of %d is %d", a.op, a.v);
        sim::cell_add(C_EXEC + a.op, 1);
        // a result that is moved once more
        val r(a.op, 300 + a.op, fuse);
        return fuse % 2 ? val(std::move(r)) : r;
    }
};

// one send in one of the ways there are; returns whether it was accepted
template<typename Call, typename Send>
auto give(int op, Send send) -> bool
{
    auto which = sim::wl(4); // of the three things that are copied, or none
    auto fuse = int(sim::wlr(1, sim::wlp(1, 2) ? 3 : 9));
    Call f{val(op, 100 + op, 0), which == 2 ? fuse : 0};
    f.mine.fuse = which == 0 ? fuse : 0;
    val a(op, 200 + op, which == 1 ? fuse : 0);
    auto form = sim::wl(4);
    bool ok = true;
    try
    {
        switch(form)
        {
            default:
                send(f, a);
                break;
            case 1:
                send(std::move(f), a);
                break;
            case 2:
                send(f, std::move(a));
                break;
            case 3:
                send(std::move(f), std::move(a));
                break;
        }
    }
    catch(const user_error& e)
    {
        REQUIRE(e.i == op, "wrong-exception", "of %d in call %d", e.i, op);
        ok = false;
    }
    REQUIRE(ok || fired(op), "wrong-exception", "call %d refused without a cause", op);
    return ok;
}

struct outcome
{
    bool accepted = false;
    bool has_future = false;
    tpp::future<val> f{};
};
struct helper
{
    std::thread t;
    tpp::thread::id id{};
    static auto make() -> helper
    {
        helper h;
        h.t = std::thread(
            []()
            {
                tpp::this_thread::register_this_thread();
                sim::cell_set(CELL_FREE + 1, int64_t(tpp::this_thread::get_id()));
                sim::gate_open(1);
                while(!tpp::this_thread::notified_for_exit())
                {
                    catching([]() { tpp::this_thread::wait(); });
                }
                tpp::this_thread::unregister_this_thread();
            });
        sim::gate_wait(1);
        h.id = tpp::thread::id(sim::cell(CELL_FREE + 1));
        return h;
    }
    void end()
    {
        tpp::notify_for_exit(id);
        t.join();
    }
};
template<typename T>
void await(const tpp::future<T>& f)
{
    while(!f.is_ready())
    {
        catching([]() { tpp::this_thread::wait_for(100us); });
    }
}
void drain()
{
    auto me = tpp::this_thread::get_id();
    while(tpp::get_pending_task_count(me))
    {
        catching([]() { tpp::this_thread::process(); });
    }
}
// the result of one op through its future
void judge(int op, tpp::future<val>& f)
{
    await(f);
    auto good = false;
    try
    {
        auto v = f.get();
        good = true;
        REQUIRE(v.v == 300 + op, "wrong-value", "result of %d is %d", op, v.v);
    }
    catch(const user_error& e)
    {
        REQUIRE(e.i == op && fired(op), "wrong-exception", "of %d in the future of %d", e.i, op);
    }
    REQUIRE(!f.valid(), "still-valid", "future of %d after get", op);
    REQUIRE(good != fired(op), "exception-lost", "%d delivered a value although a copy threw", op);
    auto n = sim::cell(C_EXEC + op);
    REQUIRE(n == 1 || (n == 0 && !good), "wrong-number", "%d executed %ld times", op, long(n));
}
void end(const char* what)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "%s: shutdown returned %d", what, left);
    REQUIRE(sim::cell(C_LIVE) == 0, "leak", "%s: %ld values left", what, long(sim::cell(C_LIVE)));
}
// only what is still to be executed or read may be alive
void nothing_left(int64_t expected, const char* what)
{
    auto n = sim::cell(C_LIVE);
    REQUIRE(n == expected, "leak", "%s: %ld values alive, expected %ld", what, long(n), long(expected));
}
} // namespace

// tasks, async calls and jobs
SCENARIO(c30_send, 6)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        auto me = tpp::this_thread::get_id();
        auto h = helper::make();
        auto pool = std::make_unique<tpp::thread_pool>(std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, sim::wlr(1, 2)}});
        auto ops = int(sim::wlr(2, 8));
        std::vector<outcome> os(static_cast<size_t>(ops));
        // held: nothing is executed meanwhile, so that what a refused call leaves can be counted
        auto held = sim::wlp(1, 3);
        if(held)
        {
            tpp::invoke(h.id, []() { sim::gate_open(2); sim::gate_wait(3); });
            sim::gate_wait(2);
        }
        for(int op = 0; op < ops; ++op)
        {
            auto& o = os[size_t(op)];
            auto to = held || sim::wlp(2, 3) ? h.id : me;
            auto kind = sim::wl(held ? 3 : 6);
            auto value = sim::wlp(1, 2);
            auto before = tpp::get_pending_task_count(to);
            auto alive = sim::cell(C_LIVE);
            auto jobs = pool->get_jobs_count();
            auto send = [&](auto&& f, auto&& a)
            {
                using F = decltype(f);
                using A = decltype(a);
                switch(kind)
                {
                    default:
                        REQUIRE(tpp::invoke(to, std::forward<F>(f), std::forward<A>(a)), "rejected", "call %d", op);
                        break;
                    case 1:
                        o.f = tpp::async(to, std::launch::async, std::forward<F>(f), std::forward<A>(a));
                        o.has_future = true;
                        break;
                    case 2:
                        REQUIRE(tpp::dispatch(to, std::forward<F>(f), std::forward<A>(a)), "rejected", "call %d", op);
                        break;
                    case 3:
                        o.f = tpp::async(to, std::forward<F>(f), std::forward<A>(a));
                        o.has_future = true;
                        break;
                    case 4:
                    {
                        tpp::future<val> j = pool->schedule(std::forward<F>(f), std::forward<A>(a));
                        o.f = std::move(j);
                        o.has_future = true;
                        break;
                    }
                    case 5:
                        o.f = tpp::async(std::forward<F>(f), std::forward<A>(a));
                        o.has_future = true;
                        break;
                }
            };
            o.accepted = value ? give<by_value>(op, send) : give<by_reference>(op, send);
            if(!o.accepted)
            {
                sim::probe("refused");
                // executed in place, it was started before that: nothing was sent in any case
                REQUIRE(sim::cell(C_EXEC + op) == 0 || (kind == 2 && to == me), "executed", "call %d, which was refused", op);
                if(held)
                {
                    auto now = tpp::get_pending_task_count(to);
                    REQUIRE(now == before, "wrong-count", "%zu tasks pending, %zu before the refused call", now, before);
                    nothing_left(alive, "refused call");
                }
                if(kind == 4)
                {
                    auto now = pool->get_jobs_count();
                    REQUIRE(now <= jobs, "wrong-count", "%zu jobs, %zu before the refused one", now, jobs);
                }
            }
            if(sim::wlp(1, 4))
            {
                catching([]() { tpp::this_thread::process(); });
            }
        }
        if(held)
        {
            sim::gate_open(3);
        }
        drain();
        for(int op = 0; op < ops; ++op)
        {
            if(os[size_t(op)].accepted && os[size_t(op)].has_future)
            {
                judge(op, os[size_t(op)].f);
            }
        }
        // everything sent before is over when this is
        auto last = tpp::async(h.id, std::launch::async, []() { return 1; });
        await(last);
        drain();
        pool.reset();
        h.end();
        for(int op = 0; op < ops; ++op)
        {
            auto& o = os[size_t(op)];
            auto n = sim::cell(C_EXEC + op), came = sim::cell(C_CAME + op);
            if(o.accepted && !o.has_future)
            {
                // the result may be what throws
                REQUIRE(n == 1 || came == 1, "task-lost", "%d executed %ld times, threw %ld times", op, long(n), long(came));
                REQUIRE(came == (fired(op) ? 1 : 0), "exception-lost", "of %d came %ld times", op, long(came));
            }
            else
            {
                REQUIRE(came == 0, "wrong-exception", "of %d came out of a task %ld times", op, long(came));
            }
            REQUIRE(n <= 1, "executed-twice", "%d", op);
        }
    }
    end("send");
}

// promises and continuations
SCENARIO(c30_result, 5)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        auto h = helper::make();
        auto ops = int(sim::wlr(1, 4));
        for(int op = 0; op < ops; ++op)
        {
            tpp::promise<val> p;
            auto f = p.get_future();
            auto fuse = sim::wl(4) ? int(sim::wlr(1, 4)) : 0;
            auto set = [&p, op](int with, bool moved) -> bool
            {
                val v(op, 300 + op, with);
                try
                {
                    if(moved)
                    {
                        p.set_value(std::move(v));
                    }
                    else
                    {
                        p.set_value(v);
                    }
                    return true;
                }
                catch(const user_error& e)
                {
                    REQUIRE(e.i == op && fired(op), "wrong-exception", "of %d in set_value", e.i);
                    REQUIRE(v.v == 300 + op, "value-lost", "the value of a failed set_value");
                    return false;
                }
            };
            auto way = sim::wl(4);
            sim::cell_set(C_FIRED + op, 0);
            if(way == 0)
            {
                // the reader waits while it is tried
                auto reader = tpp::async(h.id, [&f]() { f.wait(); return 1; });
                if(!set(fuse, sim::wlp(1, 2)))
                {
                    REQUIRE(!f.is_ready(), "ready", "after a set_value that threw");
                    sim::cell_set(C_FIRED + op, 0);
                    REQUIRE(set(0, sim::wlp(1, 2)), "refused", "second attempt");
                }
                await(reader);
                try
                {
                    auto v = f.get();
                    REQUIRE(v.v == 300 + op && !fired(op), "wrong-value", "%d", v.v);
                }
                catch(const user_error& e)
                {
                    REQUIRE(e.i == op && fired(op), "wrong-exception", "of %d from get", e.i);
                }
                REQUIRE(!f.valid(), "still-valid", "future after get");
            }
            else if(way == 1)
            {
                // nobody copies what is shared
                auto s = f.share();
                auto ok = set(fuse, sim::wlp(1, 2)) || set(0, sim::wlp(1, 2));
                REQUIRE(ok, "refused", "second attempt");
                sim::cell_set(C_FIRED + op, 0);
                auto reader = tpp::async(h.id, [s, op]() { REQUIRE(s.get().v == 300 + op, "wrong-value", "of the shared future"); return 1; });
                REQUIRE(s.get().v == 300 + op, "wrong-value", "of the shared future");
                await(reader);
                REQUIRE(!fired(op), "copied", "the value of a shared future");
            }
            else
            {
                // a continuation that cannot be attached leaves the future as it was
                auto shared = way == 3;
                auto s = shared ? f.share() : tpp::shared_future<val>();
                auto late = sim::wlp(1, 2);
                if(!late)
                {
                    REQUIRE(set(0, true), "refused", "set_value");
                }
                auto where = sim::wl(3);
                struct cont
                {
                    val mine;
                    int op;
                    int fuse;
                    auto operator()(tpp::future<val> g) -> val
                    {
                        return done(g.get().v);
                    }
                    auto operator()(tpp::shared_future<val> g) -> val
                    {
                        return done(g.get().v);
                    }
                    auto done(int v) -> val
                    {
                        REQUIRE(mine.v == 100 + op, "wrong-value", "continuation has %d", mine.v);
                        REQUIRE(v == 300 + op, "wrong-value", "input of the continuation is %d", v);
                        sim::cell_add(C_EXEC + op, 1);
                        return val(op, 300 + op, fuse);
                    }
                };
                auto threads = tpp::get_all_registered_threads().size();
                auto attach = [&](int of_callable, int of_result) -> tpp::future<val>
                {
                    cont c{val(op, 100 + op), op, of_result};
                    c.mine.fuse = of_callable;
                    auto moved = sim::wlp(1, 2);
                    auto on = [&](auto& x)
                    {
                        if(where == 2)
                        {
                            return moved ? x.then(std::move(c)) : x.then(c);
                        }
                        auto id = where ? h.id : tpp::this_thread::get_id();
                        return moved ? x.then(id, std::move(c)) : x.then(id, c);
                    };
                    return shared ? on(s) : on(f);
                };
                tpp::future<val> r;
                auto first = sim::wlp(1, 2);
                try
                {
                    r = attach(first ? int(sim::wlr(1, 8)) : 0, first ? 0 : fuse);
                }
                catch(const user_error& e)
                {
                    REQUIRE(e.i == op && fired(op), "wrong-exception", "of %d from then", e.i);
                    REQUIRE(shared ? s.valid() : f.valid(), "invalid", "future after a failed then");
                    REQUIRE(sim::cell(C_EXEC + op) == 0, "executed", "a continuation that was refused");
                    sim::cell_set(C_FIRED + op, 0);
                    r = attach(0, 0);
                    sim::probe("attached_again");
                }
                REQUIRE(shared || !f.valid(), "still-valid", "future after then");
                if(late)
                {
                    REQUIRE(set(0, true), "refused", "set_value");
                }
                drain();
                judge(op, r);
                sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
                sim::block_for(1000000000ull);
                auto now = tpp::get_all_registered_threads().size();
                REQUIRE(now == threads, "thread-left", "%zu threads registered, %zu before", now, threads);
            }
            sim::cell_set(C_EXEC + op, 0);
        }
        h.end();
        drain();
    }
    end("result");
}

// threads that cannot be started
SCENARIO(c30_thread, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        auto ops = int(sim::wlr(1, 4));
        for(int op = 0; op < ops; ++op)
        {
            auto threads = tpp::get_all_registered_threads().size();
            auto alive = sim::cell(C_LIVE);
            auto named = sim::wlp(1, 2);
            const std::string name = "t";
            bool ok;
            {
                tpp::thread t;
                ok = give<by_reference>(op,
                                        [&](auto&& f, auto&& a)
                                        {
                                            using F = decltype(f);
                                            using A = decltype(a);
                                            f.fuse = 0; // thrown there, it would end the program
                                            if(named)
                                            {
                                                t = tpp::thread(name, std::forward<F>(f), std::forward<A>(a));
                                            }
                                            else
                                            {
                                                t = tpp::thread(std::forward<F>(f), std::forward<A>(a));
                                            }
                                        });
                REQUIRE(t.joinable() == ok, "joinable", "thread %d", op);
                REQUIRE(ok == (t.get_id() != tpp::invalid_id()), "wrong-id", "thread %d", op);
            }
            REQUIRE(sim::cell(C_EXEC + op) == (ok ? 1 : 0), "wrong-number", "thread %d ran %ld times", op, long(sim::cell(C_EXEC + op)));
            auto now = tpp::get_all_registered_threads().size();
            REQUIRE(now == threads, "thread-left", "%zu threads registered, %zu before", now, threads);
            nothing_left(alive, "thread");
        }
    }
    end("thread");
}
