// C29: threads that have nothing to do stay asleep
#include "blocking.hpp"
#include "pool.hpp"

namespace
{
constexpr int C_DONE = C_USER + 600;
constexpr int C_WOKEN = C_USER + 700;
constexpr int G_PARKED = 30;
constexpr int G_HOLD = 31;
const std::string name = "parked";
constexpr uint64_t SECOND = 1000000000ull;

// nothing happens for a while, and nobody may notice that time passes
void quiet(uint64_t ns, int threads, const char* what)
{
    sim::set_fault_mask(0);
    sim::block_for(SECOND);
    auto before = sim::step();
    sim::block_for(ns);
    auto used = sim::step() - before;
    // a look every now and then is no harm
    REQUIRE(used <= 10 + uint64_t(threads) * (4 + ns / SECOND), "busy", "%lu steps of %d threads in %lu s without any event %s", (unsigned long)used, threads,
            (unsigned long)(ns / SECOND), what);
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
}

// things that must not keep anybody awake
void stir(const std::vector<tpp::thread::id>& ids, park_env& env, tpp::thread_pool& pool)
{
    auto n = sim::wl(8);
    for(uint32_t i = 0; i < n; ++i)
    {
        auto id = ids[sim::wl(uint32_t(ids.size()))];
        switch(sim::wl(10))
        {
            default:
                tpp::invoke(id, []() { sim::cell_add(C_DONE, 1); });
                break;
            case 1:
                tpp::notify(id);
                break;
            case 2:
                tpp::notify(id);
                tpp::invoke(id, []() { tpp::this_thread::wait_for(3us); });
                break;
            case 3:
                tpp::invoke(id, []() { tpp::this_thread::process(); });
                break;
            case 4:
                tpp::invoke(id,
                            []()
                            {
                                tpp::promise<int> p;
                                auto f = p.get_future();
                                f.wait_for(10us);
                            });
                break;
            case 5:
                env.cv.notify_all();
                break;
            case 6:
                env.cv.notify_one();
                break;
            case 7:
                pool.schedule(any_group(), []() { return 1; });
                break;
            case 8:
                tpp::invoke(id, [id]() { tpp::notify(id); });
                break;
            case 9:
            {
                tpp::promise<int> p;
                auto f = p.get_future().then(id, [](auto x) { return x.get(); });
                p.set_value(1);
                if(sim::wlp(1, 2))
                {
                    f.wait();
                }
                break;
            }
        }
        if(sim::wlp(1, 3))
        {
            tpp::this_thread::wait_for(some_us(50));
        }
    }
}
} // namespace

SCENARIO(c29_idle, 6)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        park_env env;
        std::vector<uint32_t> kinds(sim::wlr(1, 3));
        tpp::thread_pool held({{level::normal, 1}});
        auto job = held.schedule(
            []()
            {
                sim::gate_wait(G_HOLD);
                return 1;
            });
        env.pool = &held;
        env.job = job.id;
        env.tm.lock();
        std::vector<tpp::thread> ts;
        std::vector<tpp::thread::id> ids;
        auto shape = pool_shape::any(2, true);
        tpp::thread_pool pool(shape.map);
        auto idle = tpp::make_thread("idle");
        ids.push_back(idle.get_id());
        for(auto& k : kinds)
        {
            k = sim::wl(PK_NUM);
            ts.push_back(tpp::thread(name,
                                     [k, &env]()
                                     {
                                         tpp::this_thread::register_this_thread();
                                         sim::gate_open(G_PARKED);
                                         while(!tpp::this_thread::notified_for_exit())
                                         {
                                             park(k, env);
                                         }
                                         tpp::this_thread::unregister_this_thread();
                                     }));
            ids.push_back(ts.back().get_id());
        }
        sim::gate_wait(G_PARKED, int64_t(kinds.size()));
        auto threads = int(kinds.size() + shape.total) + 3;
        auto rounds = sim::wlr(1, 2);
        for(uint32_t r = 0; r < rounds; ++r)
        {
            stir(ids, env, pool);
            quiet(1000 * SECOND, threads, park_name(kinds[0]));
            // but awake when needed
            for(auto id : ids)
            {
                tpp::invoke(id, []() { sim::cell_add(C_WOKEN, 1); });
            }
            sim::block_for(SECOND);
            REQUIRE(sim::cell(C_WOKEN) == int64_t(ids.size()) * (r + 1), "not-woken", "%ld of %d tasks were executed", long(sim::cell(C_WOKEN)),
                    int(ids.size() * (r + 1)));
            if(sim::wlp(1, 2))
            {
                quiet(300 * SECOND, threads, "after the tasks");
            }
        }
        sim::nontrivial();
        for(auto& t : ts)
        {
            tpp::notify_for_exit(t.get_id());
        }
        env.tm.unlock();
        sim::gate_open(G_HOLD);
        for(auto& t : ts)
        {
            t.join();
        }
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// callers that wait for threads to end, or for threads that never will
SCENARIO(c29_joining, 2)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        auto busy = tpp::make_thread("busy");
        auto id = busy.get_id();
        tpp::invoke(id,
                    []()
                    {
                        sim::gate_open(G_PARKED);
                        sim::gate_wait(G_HOLD);
                    });
        sim::gate_wait(G_PARKED);
        auto how = sim::wl(3);
        std::thread watcher(
            [how]()
            {
                sim::block_for(SECOND);
                auto before = sim::step();
                sim::block_for(1000 * SECOND);
                auto used = sim::step() - before;
                REQUIRE(used <= 2000, "busy", "%lu steps of nothing but waiting for the end of a thread (%u)", (unsigned long)used, how);
                sim::gate_open(G_HOLD);
            });
        sim::set_fault_mask(0);
        sim::nontrivial();
        switch(how)
        {
            default:
                busy.join();
                break;
            case 1:
            {
                auto f = tpp::async(id, []() { return 4; });
                f.get();
                break;
            }
            case 2:
            {
                auto left = tpp::shutdown(std::chrono::seconds(5000));
                REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
                break;
            }
        }
        sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
        watcher.join();
        if(how == 2)
        {
            return;
        }
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// many waiting at the same place
SCENARIO(c29_crowd, 2)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        park_env env;
        static const uint32_t places[] = {PK_MUTEX, PK_CV_WAIT, PK_CV_WAIT_FOR, PK_FUT_WAIT, PK_SHARED_GET, PK_FUT_WAIT_FOR};
        auto kind = places[sim::wl(6)];
        auto n = int(sim::wlr(2, 8));
        env.tm.lock();
        std::vector<tpp::thread> ts;
        for(int i = 0; i < n; ++i)
        {
            ts.push_back(tpp::thread(name,
                                     [kind, &env]()
                                     {
                                         tpp::this_thread::register_this_thread();
                                         sim::gate_open(G_PARKED);
                                         park(kind, env);
                                         tpp::this_thread::unregister_this_thread();
                                     }));
        }
        sim::gate_wait(G_PARKED, n);
        quiet(1000 * SECOND, n + 1, park_name(kind));
        // one goes, the others go on sleeping
        auto out = sim::wl(uint32_t(n));
        if(kind == PK_CV_WAIT && sim::wlp(1, 2))
        {
            env.cv.notify_one();
        }
        else
        {
            tpp::notify_for_exit(ts[out].get_id());
        }
        quiet(1000 * SECOND, n + 1, park_name(kind));
        sim::nontrivial();
        env.tm.unlock();
        for(auto& t : ts)
        {
            tpp::notify_for_exit(t.get_id());
        }
        for(auto& t : ts)
        {
            t.join();
        }
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}
