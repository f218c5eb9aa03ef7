// C27: work that is done leaves nothing behind
#include "blocking.hpp"
#include "pool.hpp"

namespace
{
constexpr int CYCLES = 10;
constexpr int LONG_CYCLES = 32;

using oops = user_error;

void fulfil(tpp::promise<int>& p)
{
    p.set_value(1);
}

// what stays while the work is repeated
struct stage
{
    tpp::condition_variable cv;
    std::mutex m;
    tpp::mutex tm;
    tpp::promise<int> never_p;
    tpp::shared_future<int> never = never_p.get_future().share();
    tpp::shared_future<int> done = tpp::make_ready_future(7).share();
    tpp::thread a = tpp::make_thread("a");
    tpp::thread_pool pool{std::map<level, size_t>{{level::normal, 1}, {level::high, 1}}};
};

constexpr uint32_t BODIES = 17;
void cycle(stage& s, uint32_t body, uint32_t n, uint32_t variant)
{
    auto me = tpp::this_thread::get_id();
    auto id = s.a.get_id();
    switch(body)
    {
        default:
            for(uint32_t i = 0; i < n; ++i)
            {
                tpp::invoke(variant % 2 ? me : id, [v = std::vector<int>(5, 1)]() {});
                tpp::notify(id);
            }
            tpp::this_thread::process();
            tpp::async(id, []() { return 1; }).get();
            break;
        case 1:
            for(uint32_t i = 0; i < n; ++i)
            {
                auto f = variant % 2 ? tpp::async([]() { return 1; }) : tpp::async(std::launch::async, []() { return 1; });
                if(variant & 2)
                {
                    f.get();
                }
            }
            break;
        case 2:
        {
            // continuations, also of futures that are dropped
            tpp::promise<int> p;
            auto f = p.get_future().share();
            std::vector<tpp::future<int>> out;
            for(uint32_t i = 0; i < n; ++i)
            {
                out.push_back(f.then(i % 2 ? id : me, [f](auto g) { return g.get() + 1; }));
                if(variant & 2)
                {
                    out.back() = out.back().then(id, [](auto g) { return g.get() + 1; });
                }
            }
            if(variant % 2)
            {
                fulfil(p);
                for(auto& x : out)
                {
                    x.get();
                }
            }
            break;
        }
        case 3:
        {
            std::vector<tpp::promise<int>> ps(n);
            std::vector<tpp::shared_future<int>> fs;
            for(auto& p : ps)
            {
                fs.push_back(p.get_future().share());
            }
            auto all = tpp::when_all(fs.begin(), fs.end());
            auto any = tpp::when_any(fs.begin(), fs.end());
            if(variant % 2)
            {
                for(auto& p : ps)
                {
                    tpp::invoke(id, [p = std::move(p)]() mutable { fulfil(p); });
                }
                any.get();
                all.get();
            }
            break;
        }
        case 4:
            // waits that end by their timeout
            for(uint32_t i = 0; i < n; ++i)
            {
                if(variant % 2)
                {
                    s.never.wait_for(us(1000 * (i + 1)));
                }
                else
                {
                    tpp::invoke(id, [f = s.never, i]() { f.wait_for(us(1000 * (i + 1))); });
                }
            }
            break;
        case 5:
            for(uint32_t i = 0; i < n; ++i)
            {
                std::unique_lock<std::mutex> l(s.m);
                if(variant % 2)
                {
                    tpp::invoke(id, [&s]() { s.cv.notify_one(); });
                }
                s.cv.wait_for(l, us(1000 * sim::wlr(1, 20)));
            }
            break;
        case 6:
            for(uint32_t i = 0; i < n; ++i)
            {
                tpp::invoke(id,
                            [&s]()
                            {
                                std::lock_guard<tpp::mutex> l(s.tm);
                                sim::block_for(2000);
                            });
                std::lock_guard<tpp::mutex> l(s.tm);
            }
            break;
        case 7:
        {
            std::vector<tpp::job_future<int>> fs;
            for(uint32_t i = 0; i < n; ++i)
            {
                fs.push_back(s.pool.schedule(tpp::priority::group(level(i % 2), i), []() { return 1; }));
                if(variant & 1)
                {
                    fs.back().change_priority(tpp::priority::high(9));
                }
                if(variant & 2)
                {
                    fs.back().stop();
                }
            }
            if(variant & 4)
            {
                s.pool.stop_all();
            }
            s.pool.wait_all();
            break;
        }
        case 8:
            for(uint32_t i = 0; i < n; ++i)
            {
                auto t = tpp::make_thread(variant & 1 ? "t" : "");
                tpp::invoke(t.get_id(), []() {});
                if(variant & 2)
                {
                    tpp::notify_for_exit(t.get_id());
                }
                t.join();
            }
            break;
        case 9:
            for(uint32_t i = 0; i < n; ++i)
            {
                std::thread(
                    [me, variant]()
                    {
                        tpp::this_thread::register_this_thread();
                        tpp::invoke(tpp::this_thread::get_id(), []() {});
                        tpp::invoke(me, []() {});
                        if(variant & 1)
                        {
                            tpp::this_thread::process();
                        }
                        tpp::this_thread::unregister_this_thread();
                        if(variant & 2)
                        {
                            tpp::this_thread::register_this_thread("again");
                            tpp::this_thread::unregister_this_thread();
                        }
                    })
                    .join();
            }
            tpp::this_thread::process();
            break;
        case 10:
            // waits left by an exception
            for(uint32_t i = 0; i < n; ++i)
            {
                tpp::invoke(me, []() { throw_user(0); });
                try
                {
                    std::unique_lock<std::mutex> l(s.m);
                    switch(variant)
                    {
                        default:
                            s.never.wait();
                            break;
                        case 1:
                            s.never.wait_for(1h);
                            break;
                        case 2:
                            s.cv.wait(l);
                            break;
                        case 3:
                            s.cv.wait_for(l, 1h);
                            break;
                        case 4:
                            tpp::this_thread::process();
                            break;
                        case 5:
                            tpp::this_thread::sleep_for(1h);
                            break;
                    }
                }
                catch(const oops&)
                {
                }
            }
            break;
        case 11:
            // threads that are told to exit while they wait
            for(uint32_t i = 0; i < n; ++i)
            {
                tpp::thread t(
                    [&s, variant]()
                    {
                        tpp::this_thread::register_this_thread();
                        std::unique_lock<std::mutex> l(s.m);
                        switch(variant)
                        {
                            default:
                                s.never.wait();
                                break;
                            case 1:
                                s.never.wait_for(1h);
                                break;
                            case 2:
                                s.cv.wait(l);
                                break;
                            case 3:
                                s.cv.wait_for(l, 1h);
                                break;
                        }
                        tpp::this_thread::unregister_this_thread();
                    });
                if(sim::wlp(1, 2))
                {
                    sim::block_for(20000);
                }
                t.join();
            }
            break;
        case 12:
            for(uint32_t i = 0; i < n; ++i)
            {
                tpp::thread_pool p({{level::normal, 2}});
                auto f = p.schedule([]() { return 1; });
                auto g = p.schedule([]() { return 1; });
                if(variant & 1)
                {
                    auto q = std::move(p);
                    f.get();
                }
                if(variant & 2)
                {
                    g.stop();
                }
            }
            break;
        case 13:
            // promises and their errors
            for(uint32_t i = 0; i < n; ++i)
            {
                auto f = variant & 1 ? tpp::async(id, []() -> int { throw_user(0); }) : tpp::promise<int>().get_future();
                try
                {
                    f.get();
                }
                catch(...)
                {
                }
                s.done.then(id, [](auto g) { return g.get(); });
            }
            break;
        case 14:
            // sends to nobody
            for(uint32_t i = 0; i < n; ++i)
            {
                tpp::invoke(tpp::thread::id(1) << 40, [v = std::vector<int>(5, 1)]() {});
                auto f = tpp::async(tpp::thread::id(1) << 40, []() { return 1; });
                s.done.then(tpp::thread::id(1) << 40, [](auto g) { return g.get(); });
                tpp::notify(tpp::thread::id(1) << 40);
                tpp::get_pending_task_count(tpp::thread::id(1) << 40);
            }
            break;
        case 15:
            // tasks left to a thread that ends
            for(uint32_t i = 0; i < n; ++i)
            {
                auto t = tpp::make_thread();
                auto f = tpp::async(t.get_id(), []() { return 1; });
                auto g = f.then(t.get_id(), [](auto x) { return x.get(); });
                if(variant & 1)
                {
                    tpp::invoke(t.get_id(), [x = t.get_id()]() { tpp::invoke(x, []() {}); });
                }
            }
            break;
        case 16:
            tpp::init();
            tpp::shutdown();
            for(uint32_t i = 0; i < n; ++i)
            {
                tpp::set_thread_config(id, {});
                tpp::get_all_registered_threads();
            }
            break;
    }
    // everything that was started comes to its end
    tpp::this_thread::process();
    tpp::async(id, []() {}).get();
    s.pool.wait_all();
    sim::block_for(100000000ull);
    tpp::this_thread::process();
    sim::block_for(100000000ull);
}

void session(uint32_t body, uint32_t n, uint32_t variant, int cycles)
{
    tpp::init();
    {
        stage s;
        int64_t at[CYCLES + 1] = {};
        for(int c = 0; c < cycles; ++c)
        {
            cycle(s, body, n, variant);
            at[c] = sim::live_blocks();
        }
        if(cycles == CYCLES)
        {
            auto grown = at[CYCLES - 1] - at[1];
            REQUIRE(grown < CYCLES - 3, "grows", "body %u variant %u: %ld more blocks in use after %d more cycles", body, variant, long(grown),
                    CYCLES - 2);
            auto threads = tpp::get_all_registered_threads().size();
            REQUIRE(threads == 4, "thread-left", "%zu threads registered", threads);
            sim::note("growth %ld", long(grown));
        }
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}
} // namespace

SCENARIO(c27_cycles, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    session(sim::wl(BODIES), sim::wlr(1, 3), sim::wl(8), CYCLES);
    sim::nontrivial();
}

// the same for what grows inside its blocks: more cycles, and queues large enough from the start
SCENARIO(c27_bytes, 2)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    auto body = sim::wl(BODIES), variant = sim::wl(8);
    // some kinds start threads, of which a run can have a limited number
    auto starts = body == 1 || body == 8 || body == 9 || body == 11 || body == 12 || body == 15;
    auto n = starts ? 1 : sim::wlr(2, 3);
    tpp::init_data data;
    data.tasks_capacity.default_reserved_tasks = 64;
    tpp::init(data);
    {
        stage s;
        int64_t at[LONG_CYCLES] = {};
        for(auto& x : at)
        {
            cycle(s, body, n, variant);
            x = sim::live_bytes();
        }
        auto grown = at[LONG_CYCLES - 1] - at[LONG_CYCLES / 4];
        if(grown >= 300)
        {
            // a buffer may be kept at the largest size it ever needed, and that may have come late
            for(int c = 0; c < LONG_CYCLES * 3 / 2; ++c)
            {
                cycle(s, body, n, variant);
            }
            auto more = sim::live_bytes() - at[LONG_CYCLES - 1];
            REQUIRE(more < 300, "grows", "body %u variant %u: %ld more bytes in use after %d more cycles, and %ld after %d more", body, variant,
                    long(grown), LONG_CYCLES - LONG_CYCLES / 4, long(more), LONG_CYCLES * 3 / 2);
        }
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    sim::nontrivial();
}

SCENARIO(c27_sessions, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    auto body = sim::wl(BODIES), n = sim::wlr(1, 3), variant = sim::wl(8);
    // something may be kept for later use, but not more every time
    int64_t at[4] = {};
    for(auto& x : at)
    {
        session(body, n, variant, 1);
        x = sim::live_blocks();
    }
    REQUIRE(!(at[0] < at[1] && at[1] < at[2] && at[2] < at[3]), "leak", "body %u variant %u: %ld, %ld, %ld and %ld blocks in use after each session",
            body, variant, long(at[0]), long(at[1]), long(at[2]), long(at[3]));
    sim::nontrivial();
}
