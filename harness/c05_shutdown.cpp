// C05: shutdown accounts for every registered thread
#include "common.hpp"
#include "large.hpp"

namespace
{
constexpr int G_STUCK = 1;  // stuck threads continue
constexpr int G_READY = 3;  // a thread is known to be registered
constexpr int64_t LIMIT = 1000; // seconds

auto registered(tpp::thread::id id) -> bool
{
    for(auto i : tpp::get_all_registered_threads())
    {
        if(i == id)
        {
            return true;
        }
    }
    return false;
}

void self_loop()
{
    tpp::this_thread::register_this_thread();
    auto style = sim::wl(NUM_STYLES);
    while(!tpp::this_thread::notified_for_exit())
    {
        loop_once(style);
    }
    tpp::this_thread::unregister_this_thread();
}
void quick()
{
    tpp::this_thread::register_this_thread();
    if(sim::wlp(1, 3))
    {
        tpp::this_thread::process();
    }
    tpp::this_thread::unregister_this_thread();
}
void stuck()
{
    tpp::this_thread::register_this_thread();
    sim::gate_open(G_READY);
    sim::gate_wait(G_STUCK);
    tpp::this_thread::unregister_this_thread();
}
void poll_exit()
{
    // never blocks in the library
    tpp::this_thread::register_this_thread();
    while(!tpp::this_thread::notified_for_exit())
    {
        sim::block_for(20000);
    }
    tpp::this_thread::unregister_this_thread();
}

struct population
{
    std::vector<tpp::thread> ths;
    std::vector<std::thread> raw;
    std::vector<tpp::future<int>> futs;
    int stuck = 0;

    void add(bool with_stuck)
    {
        switch(sim::wl(with_stuck ? 11 : 9))
        {
            default:
                ths.emplace_back(tpp::make_thread("w"));
                break;
            case 1:
                ths.emplace_back(self_loop);
                break;
            case 2:
                ths.emplace_back(quick);
                break;
            case 3:
                // does not know about the library at all
                ths.emplace_back([]() { sim::yield_point(); });
                break;
            case 4:
                raw.emplace_back(self_loop_ready);
                sim::gate_wait(G_READY, ++ready);
                break;
            case 5:
                raw.emplace_back(
                    []()
                    {
                        sim::gate_wait(200);
                        self_loop();
                    });
                tpp::register_thread(raw.back().get_id());
                sim::gate_open(200);
                break;
            case 6:
                futs.emplace_back(tpp::async([]() { return 5; }));
                break;
            case 7:
                futs.emplace_back(tpp::make_ready_future(1).then(
                    [](tpp::future<int> f)
                    {
                        return f.get() + 4;
                    }));
                break;
            case 8:
                ths.emplace_back(poll_exit);
                break;
            case 9:
                raw.emplace_back(::stuck);
                ++stuck;
                sim::gate_wait(G_READY, ++ready);
                break;
            case 10:
                ths.emplace_back(::stuck);
                ++stuck;
                ++ready;
                break;
        }
    }
    static void self_loop_ready()
    {
        tpp::this_thread::register_this_thread("self");
        sim::gate_open(G_READY);
        self_loop();
    }
    int64_t ready = 0;
};

void use_once()
{
    // the library works: a task runs on another thread and answers
    auto t = tpp::make_thread();
    auto f = tpp::async(t.get_id(), []() { return 7; });
    REQUIRE(f.get() == 7, "unusable", "wrong result");
    t.join();
}
} // namespace

SCENARIO(c05_shutdown, 6)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    auto rounds = sim::wlr(1, 2);
    REQUIRE(tpp::shutdown() < 0, "unmatched-shutdown", "shutdown before init did not fail");
    for(uint32_t round = 0; round < rounds; ++round)
    {
        population p;
        p.ready = sim::gate_value(G_READY);
        auto inits = sim::wlp(1, 8) ? large::many(3, 300) : sim::wlr(1, 3);
        for(uint32_t i = 0; i < inits; ++i)
        {
            tpp::init();
        }
        auto me = tpp::this_thread::get_id();
        REQUIRE(me != tpp::invalid_id() && tpp::main_thread::get_id() == me, "main-id", "main thread id wrong after init");
        REQUIRE(registered(me), "not-listed", "main thread is not listed");
        // stuck threads only in the last round: their gate opens once
        bool with_stuck = round + 1 == rounds && sim::wlp(1, 2);
        auto n = sim::wlr(1, 4);
        for(uint32_t i = 0; i < n; ++i)
        {
            p.add(with_stuck);
        }
        bool wait_results = sim::wlp(1, 2);
        if(wait_results)
        {
            for(auto& f : p.futs)
            {
                REQUIRE(f.get() == 5, "wrong-value", "async delivered a wrong value");
            }
        }
        for(uint32_t i = 1; i < inits; ++i)
        {
            auto before = tpp::get_all_registered_threads();
            auto r = tpp::shutdown(std::chrono::seconds(LIMIT));
            REQUIRE(r < 0, "inner-shutdown", "inner shutdown returned %d", r);
            REQUIRE(registered(me) && !tpp::this_thread::notified_for_exit(), "inner-shutdown",
                    "inner shutdown touched the main thread");
            if(i < 4)
            {
                REQUIRE(tpp::invoke(me, []() {}), "inner-shutdown", "inner shutdown left the main thread deaf");
                use_once();
            }
        }
        if(sim::wlp(1, 3))
        {
            sim::block_for(1000 * sim::wlr(1, 100));
        }
        if(with_stuck)
        {
            sim::gate_wait(G_READY, p.ready);
        }
        if(sim::wlp(1, 2))
        {
            // they have something to do when it comes
            auto many = sim::wlr(1, 3);
            for(auto id : tpp::get_all_registered_threads())
            {
                for(uint32_t i = 0; i < many; ++i)
                {
                    tpp::invoke(id, []() { sim::yield_point(); });
                }
            }
        }
        auto t0 = sim::now();
        auto r = tpp::shutdown(std::chrono::seconds(LIMIT));
        auto dt = sim::now() - t0;
        sim::nontrivial();
        REQUIRE(!tpp::this_thread::is_registered(), "still-registered", "the thread that shut down is still registered");
        if(p.stuck == 0)
        {
            REQUIRE(r == 0, "wrong-count", "shutdown returned %d although all threads ended", r);
            REQUIRE(dt < uint64_t(LIMIT) * 500000000ull, "late-shutdown", "shutdown noticed the last thread only after the time limit");
            REQUIRE(tpp::get_all_registered_threads().empty(), "still-listed", "threads listed after a complete shutdown");
        }
        else
        {
            sim::probe("shutdown_timed_out");
            REQUIRE(r == p.stuck, "wrong-count", "shutdown returned %d, %d threads never unregistered", r, p.stuck);
            REQUIRE(dt >= uint64_t(LIMIT) * 1000000000ull, "early-timeout", "shutdown gave up after %lu ns", (unsigned long)dt);
            REQUIRE(int(tpp::get_all_registered_threads().size()) == p.stuck, "still-listed", "wrong list after an incomplete shutdown");
        }
        REQUIRE(tpp::shutdown() < 0, "unmatched-shutdown", "second shutdown did not fail");
        if(with_stuck)
        {
            sim::gate_open(G_STUCK);
        }
        for(auto& t : p.ths)
        {
            t.join();
        }
        for(auto& t : p.raw)
        {
            t.join();
        }
        REQUIRE(tpp::get_all_registered_threads().empty(), "still-listed", "threads listed after all of them ended");
        if(!wait_results)
        {
            for(auto& f : p.futs)
            {
                // ended by the shutdown at the latest
                REQUIRE(f.is_ready(), "future-pending", "future of an ended thread stays pending");
            }
        }
    }
    tpp::init();
    use_once();
    auto r = tpp::shutdown();
    REQUIRE(r == 0, "wrong-count", "final shutdown returned %d", r);
}

// a thread that is (or is not) joined before shutdown: nothing may remain
SCENARIO(c05_short_lived, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | sim::fb_create);
    tpp::init();
    int failed = 0;
    auto n = sim::wlr(1, 5);
    std::vector<tpp::thread> keep;
    for(uint32_t i = 0; i < n; ++i)
    {
        try
        {
            switch(sim::wl(6))
            {
                default:
                    keep.emplace_back(quick);
                    break;
                case 1:
                {
                    tpp::thread t(quick);
                    t.join();
                    REQUIRE(!registered(t.get_id()), "registered-after-join", "a joined thread is still listed");
                    break;
                }
                case 2:
                {
                    tpp::thread t([]() {});
                    t.join();
                    REQUIRE(!registered(t.get_id()), "registered-after-join", "a joined thread is still listed");
                    break;
                }
                case 3:
                {
                    tpp::thread t(quick);
                    t.detach();
                    break;
                }
                case 4:
                {
                    auto f = tpp::async([]() { return 1; });
                    REQUIRE(f.get() == 1, "wrong-value", "async");
                    break;
                }
                case 5:
                {
                    auto t = tpp::make_thread();
                    auto id = t.get_id();
                    REQUIRE(registered(id), "not-listed", "a fresh thread is not listed");
                    t = tpp::thread();
                    REQUIRE(!registered(id), "registered-after-join", "a joined thread is still listed");
                    break;
                }
            }
        }
        catch(const std::system_error&)
        {
            sim::probe("thread_creation_failed");
            ++failed;
        }
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    if(sim::wlp(1, 2))
    {
        keep.clear();
    }
    sim::nontrivial();
    auto t0 = sim::now();
    auto r = tpp::shutdown(std::chrono::seconds(LIMIT));
    REQUIRE(r == 0, "wrong-count", "shutdown returned %d although every thread unregistered itself or ended", r);
    REQUIRE(sim::now() - t0 < uint64_t(LIMIT) * 500000000ull, "late-shutdown", "shutdown noticed the last thread only after the time limit");
}

// ---- the list of registered threads, observed concurrently ----------------
namespace
{
enum : int
{
    E_REG_CALL = E_USER,
    E_REG_RET,   // a id, b slot
    E_UNREG_CALL, // a id
    E_UNREG_RET,  // a id
    E_LIST_CALL,  // a query
    E_LIST_HAS,   // a query, b id
    E_LIST_RET,   // a query
};
void query()
{
    auto q = sim::cell_add(C_USER, 1);
    sim::ev(E_LIST_CALL, q);
    auto l = tpp::get_all_registered_threads();
    for(size_t i = 0; i < l.size(); ++i)
    {
        for(size_t j = 0; j < i; ++j)
        {
            REQUIRE(l[i] != l[j], "listed-twice", "id %lu listed twice", (unsigned long)l[i]);
        }
    }
    sim::ev(E_LIST_RET, q);
    for(auto id : l)
    {
        sim::ev(E_LIST_HAS, q, int64_t(id));
    }
}
} // namespace

SCENARIO(c05_list, 3)
{
    tpp::init();
    auto main_id = tpp::this_thread::get_id();
    {
        std::vector<std::thread> raw;
        auto n = sim::wlr(1, 3);
        for(uint32_t i = 0; i < n; ++i)
        {
            raw.emplace_back(
                [i]()
                {
                    auto m = sim::wlr(1, 3);
                    for(uint32_t k = 0; k < m; ++k)
                    {
                        sim::ev(E_REG_CALL, 0, i);
                        tpp::this_thread::register_this_thread();
                        auto id = int64_t(tpp::this_thread::get_id());
                        sim::ev(E_REG_RET, id, i);
                        if(sim::wlp(1, 3))
                        {
                            query();
                        }
                        sim::ev(E_UNREG_CALL, id);
                        tpp::this_thread::unregister_this_thread();
                        sim::ev(E_UNREG_RET, id);
                    }
                });
        }
        auto q = sim::wlr(1, 5);
        for(uint32_t i = 0; i < q; ++i)
        {
            query();
        }
        for(auto& r : raw)
        {
            r.join();
        }
    }
    query();
    auto r = tpp::shutdown();
    REQUIRE(r == 0, "wrong-count", "shutdown returned %d", r);
    // analysis
    constexpr uint64_t INF = ~uint64_t(0);
    struct period
    {
        int64_t id;
        uint64_t reg_call = 0, reg_ret = INF, un_call = INF, un_ret = INF;
    };
    std::vector<period> ps;
    std::vector<uint64_t> pending_call(8, 0);
    struct list
    {
        uint64_t call = 0, ret = 0;
        std::vector<int64_t> ids;
    };
    std::vector<list> ls(size_t(sim::cell(C_USER)) + 1);
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        switch(e.kind)
        {
            case E_REG_CALL:
                pending_call[size_t(e.b)] = e.seq;
                break;
            case E_REG_RET:
                ps.push_back({e.a, pending_call[size_t(e.b)], e.seq, INF, INF});
                break;
            case E_UNREG_CALL:
            case E_UNREG_RET:
                for(auto& p : ps)
                {
                    if(p.id == e.a)
                    {
                        (e.kind == E_UNREG_CALL ? p.un_call : p.un_ret) = e.seq;
                    }
                }
                break;
            case E_LIST_CALL:
                ls[size_t(e.a)].call = e.seq;
                break;
            case E_LIST_RET:
                ls[size_t(e.a)].ret = e.seq;
                break;
            case E_LIST_HAS:
                ls[size_t(e.a)].ids.push_back(e.b);
                break;
            default:
                break;
        }
    }
    for(size_t a = 0; a < ps.size(); ++a)
    {
        for(size_t b = 0; b < a; ++b)
        {
            REQUIRE(ps[a].id != ps[b].id, "id-reused", "registration id %ld used for two periods", long(ps[a].id));
        }
    }
    for(size_t q = 1; q < ls.size(); ++q)
    {
        const auto& l = ls[q];
        bool has_main = false;
        for(auto id : l.ids)
        {
            has_main |= id == int64_t(main_id);
            bool ok = id == int64_t(main_id);
            for(const auto& p : ps)
            {
                ok |= p.id == id && p.reg_call < l.ret && p.un_ret > l.call;
            }
            REQUIRE(ok, "listed-not-registered", "id %ld listed but not registered then", long(id));
        }
        REQUIRE(has_main, "not-listed", "main thread missing from the list");
        for(const auto& p : ps)
        {
            if(p.reg_ret < l.call && p.un_call > l.ret)
            {
                sim::nontrivial();
                bool found = false;
                for(auto id : l.ids)
                {
                    found |= id == p.id;
                }
                REQUIRE(found, "not-listed", "registered id %ld missing from the list", long(p.id));
            }
        }
    }
}

// several threads shut down at once, also more of them than initialised: one
// of these calls is the final one, all others change nothing
SCENARIO(c05_concurrent, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    auto rounds = sim::wlr(1, 2);
    for(uint32_t round = 0; round < rounds; ++round)
    {
        auto users = int(sim::wlr(1, 3));
        auto surplus = int(sim::wl(3));
        bool self = sim::wlp(1, 2); // the users initialise themselves
        constexpr int C_FINAL = C_USER, C_INNER = C_USER + 1;
        sim::cell_set(C_FINAL, 0);
        sim::cell_set(C_INNER, 0);
        tpp::init();
        if(!self)
        {
            for(int i = 0; i < users; ++i)
            {
                tpp::init();
            }
        }
        auto me = tpp::this_thread::get_id();
        auto gate = 10 + int(round);
        std::vector<std::thread> raw;
        for(int i = 0; i < users + surplus + 1; ++i)
        {
            raw.emplace_back(
                [self, users, i, gate]()
                {
                    if(self && i < users)
                    {
                        tpp::init();
                        sim::gate_open(gate);
                    }
                    sim::gate_wait(gate, self ? users : 0);
                    auto r = tpp::shutdown(std::chrono::seconds(LIMIT));
                    REQUIRE(r <= 0, "wrong-count", "shutdown returned %d although all threads ended", r);
                    sim::cell_add(r == 0 ? C_FINAL : C_INNER, 1);
                });
        }
        // (the thread registered by the first init)
        while(!tpp::this_thread::notified_for_exit())
        {
            tpp::this_thread::wait();
        }
        REQUIRE(tpp::this_thread::get_id() == me, "main-id", "the id of the main thread changed");
        tpp::this_thread::unregister_this_thread();
        for(auto& t : raw)
        {
            t.join();
        }
        sim::nontrivial();
        REQUIRE(sim::cell(C_FINAL) == 1 && sim::cell(C_INNER) == users + surplus, "shutdown-results",
                "%ld shutdowns succeeded and %ld failed, %d of %d were matched", long(sim::cell(C_FINAL)), long(sim::cell(C_INNER)),
                users + 1, users + 1 + surplus);
        REQUIRE(tpp::shutdown() < 0, "unmatched-shutdown", "shutdown after the last one did not fail");
        REQUIRE(tpp::get_all_registered_threads().empty(), "still-listed", "threads listed after a complete shutdown");
    }
    tpp::init();
    REQUIRE(tpp::this_thread::is_registered(), "unusable", "init did not register its thread");
    use_once();
    auto r = tpp::shutdown();
    REQUIRE(r == 0, "wrong-count", "final shutdown returned %d", r);
}

SCENARIO(c05_large, 1)
{
    large::threads();
}
