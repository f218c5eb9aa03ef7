// The same promises with many of everything: numbers far beyond what the other
// scenarios use, drawn so that small ones remain frequent.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <limits>
#include <map>
#include <numeric>

namespace large
{
using level = tpp::priority::category;
constexpr int C_RAN = CELL_STARTED;        // + item: times executed
constexpr int C_DEAD = CELL_DESTROYED;     // + item: times its callable was destroyed
constexpr int C_COUNT = CELL_FREE + 700;   // free counters

// lo..hi, each doubling equally likely
inline auto many(uint32_t lo, uint32_t hi) -> uint32_t
{
    uint32_t doublings = 0;
    while((lo << (doublings + 1)) < hi)
    {
        ++doublings;
    }
    auto from = lo << sim::wl(doublings + 1);
    return std::min(sim::wlr(from, 2 * from), hi);
}

// what a callable owns
struct item
{
    int i;
    explicit item(int n) : i(n)
    {
    }
    item(item&& o) noexcept : i(o.i)
    {
        o.i = -1;
    }
    item(const item&) = delete;
    ~item()
    {
        if(i >= 0)
        {
            sim::cell_add(C_DEAD + i, 1);
        }
    }
    void run() const
    {
        REQUIRE(sim::cell_add(C_RAN + i, 1) == 1, "ran-twice", "%d was executed again", i);
        REQUIRE(sim::cell(C_DEAD + i) == 0, "dead", "%d was executed after its end", i);
    }
};

inline void begin(uint32_t faults = sim::fb_spurious | sim::fb_idreuse)
{
    sim::set_fault_mask(faults);
    tpp::init();
}
inline void end()
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    auto left = tpp::shutdown(std::chrono::seconds(1000));
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    sim::nontrivial();
}
inline auto loop() -> looper
{
    return sim::wlp(1, 2) ? looper::make(0, 0) : looper::make(1, 2 * sim::wl(2));
}
template<typename F>
void all_items(uint32_t n, const char* what, F times)
{
    for(int i = 0; i < int(n); ++i)
    {
        REQUIRE(sim::cell(C_RAN + i) == times(i), "lost", "%s %d of %u was executed %ld times", what, i, n, long(sim::cell(C_RAN + i)));
        REQUIRE(sim::cell(C_DEAD + i) == 1, "callable-life", "%s %d of %u was destroyed %ld times", what, i, n, long(sim::cell(C_DEAD + i)));
    }
}
// runs f(k) on registered threads
template<typename F>
void on_threads(std::vector<std::thread>& ts, uint32_t n, F f)
{
    for(uint32_t k = 0; k < n; ++k)
    {
        ts.emplace_back(
            [f, k]() mutable
            {
                tpp::this_thread::register_this_thread();
                f(k);
                tpp::this_thread::unregister_this_thread();
            });
    }
}
template<typename F>
auto broken(F f) -> bool
{
    try
    {
        f();
        return false;
    }
    catch(const std::future_error& e)
    {
        return e.code() == std::future_errc::broken_promise;
    }
}

// more tasks than many a counter can hold
inline void flood(uint32_t n)
{
    sim::allow_steps(3000000);
    {
        auto l = looper::make(0, 0);
        auto id = l.id;
        tpp::invoke(id, []() { sim::gate_wait(1); });
        for(uint32_t i = 0; i < n; ++i)
        {
            tpp::invoke(id,
                        [i]()
                        {
                            auto k = sim::cell_add(C_USER + 20, 1) - 1;
                            REQUIRE(k == int64_t(i), "wrong-order", "task %u was the one started after %ld others", i, long(k));
                        });
        }
        auto count = tpp::get_pending_task_count(id);
        REQUIRE(count == n + 1, "wrong-count", "%zu tasks pending of %u", count, n + 1);
        sim::gate_open(1);
        tpp::async(id, std::launch::async, []() {}).get();
        REQUIRE(sim::cell(C_USER + 20) == int64_t(n), "task-lost", "%ld of %u tasks were executed", long(sim::cell(C_USER + 20)), n);
    }
    sim::nontrivial();
}

// tasks from several threads to one
inline void delivery()
{
    begin(sim::fb_all_benign);
    if(sim::wlp(1, 100))
    {
        flood(65530 + sim::wl(12));
        return end();
    }
    auto n = many(40, 900);
    {
        auto l = loop();
        auto id = l.id;
        auto held = sim::wlp(1, 2);
        if(held)
        {
            tpp::invoke(id, []() { sim::gate_wait(1); });
        }
        std::vector<std::thread> ts;
        auto senders = sim::wlr(1, 3);
        on_threads(ts, senders,
                   [id, n, senders](uint32_t k)
                   {
                       for(auto i = k; i < n; i += senders)
                       {
                           REQUIRE(tpp::invoke(id, [x = item(int(i)), id]() { x.run(); REQUIRE(tpp::this_thread::get_id() == id, "wrong-thread", "a task"); }),
                                   "rejected", "task %u", i);
                       }
                   });
        for(auto& t : ts)
        {
            t.join();
        }
        if(held)
        {
            auto count = tpp::get_pending_task_count(id);
            REQUIRE(count == n + 1, "wrong-count", "%zu tasks pending of %u", count, n + 1);
            sim::gate_open(1);
        }
        tpp::async(id, std::launch::async, []() {}).get();
        all_items(n, "task", [](int) { return 1; });
    }
    end();
}

// a thread that exits with a long queue
inline void exits()
{
    begin();
    auto n = many(20, 600);
    {
        auto l = looper::make(0, 0);
        tpp::invoke(l.id, []() { sim::gate_wait(1); });
        std::vector<tpp::future<int>> fs;
        for(uint32_t i = 0; i < n; ++i)
        {
            if(i % 4 == 1)
            {
                fs.push_back(tpp::async(l.id, [x = item(int(i))]() { x.run(); return 1; }));
            }
            else
            {
                REQUIRE(tpp::invoke(l.id, [x = item(int(i))]() { x.run(); }), "rejected", "task %u", i);
            }
        }
        tpp::notify_for_exit(l.id);
        sim::gate_open(1);
        if(sim::wlp(1, 2))
        {
            l.stop();
        }
        for(auto& f : fs)
        {
            REQUIRE(broken([&]() { f.get(); }), "not-broken", "future of a task that was dropped");
        }
        l.stop();
        all_items(n, "task", [](int) { return 0; });
    }
    end();
}

// many threads at the final shutdown
inline void threads()
{
    begin();
    auto n = many(4, 60);
    auto stay = sim::wl(4) == 3 ? sim::wlr(1, 3) : 0;
    {
        std::vector<tpp::thread> ts;
        std::vector<std::thread> raw;
        for(uint32_t i = 0; i < n; ++i)
        {
            ts.push_back(tpp::make_thread(i % 2 ? "t" : ""));
        }
        for(uint32_t i = 0; i < stay; ++i)
        {
            raw.emplace_back(
                []()
                {
                    tpp::this_thread::register_this_thread();
                    sim::gate_open(2);
                    sim::gate_wait(1);
                    tpp::this_thread::unregister_this_thread();
                });
        }
        sim::gate_wait(2, stay);
        auto all = tpp::get_all_registered_threads();
        REQUIRE(all.size() == n + stay + 1, "wrong-list", "%zu threads listed of %u", all.size(), n + stay + 1);
        for(auto& t : ts)
        {
            REQUIRE(std::find(all.begin(), all.end(), t.get_id()) != all.end(), "wrong-list", "a thread is missing");
        }
        auto left = tpp::shutdown(std::chrono::seconds(5));
        REQUIRE(left == int(stay), "shutdown-failed", "shutdown returned %d, %u threads stay", left, stay);
        sim::gate_open(1);
        for(auto& t : raw)
        {
            t.join();
        }
        auto now = tpp::get_all_registered_threads().size();
        REQUIRE(now == 0, "wrong-list", "%zu threads listed after the shutdown", now);
    }
    sim::nontrivial();
}

// many readers of one result
inline void readers()
{
    begin(sim::fb_all_benign);
    auto n = many(4, 60);
    {
        tpp::promise<std::string> p;
        auto f = p.get_future().share();
        int plain = 0;
        std::vector<std::thread> ts;
        auto timed = sim::wlp(1, 2);
        on_threads(ts, n,
                   [f, &plain, timed](uint32_t)
                   {
                       if(timed)
                       {
                           while(f.wait_for(1h) != std::future_status::ready)
                           {
                           }
                       }
                       REQUIRE(f.get() == "the result", "wrong-value", "what a reader got");
                       REQUIRE(plain == 7, "wrong-value", "what was written before");
                   });
        sim::block_for(sim::wl(2) * 20000000ull);
        plain = 7;
        p.set_value("the result");
        for(auto& t : ts)
        {
            t.join();
        }
    }
    end();
}

// many continuations of one result, and a long chain
inline void continuations()
{
    begin(sim::fb_all_benign);
    auto n = many(8, 300);
    {
        auto l = loop();
        auto me = tpp::this_thread::get_id();
        auto id = l.id;
        tpp::promise<int> p;
        auto f = p.get_future().share();
        std::vector<tpp::future<int>> out;
        auto set_at = sim::wl(n + 1);
        std::thread setter;
        for(uint32_t i = 0; i < n; ++i)
        {
            if(i == set_at)
            {
                setter = std::thread([&p]() { p.set_value(5); });
            }
            auto where = i % 3 ? id : me;
            out.push_back(f.then(where, i % 5 ? std::launch::async | std::launch::deferred : std::launch::async,
                                 [x = item(int(i)), i, where](tpp::shared_future<int> r)
                                 {
                                     x.run();
                                     REQUIRE(tpp::this_thread::get_id() == where, "wrong-thread", "continuation %u", i);
                                     REQUIRE(r.is_ready(), "not-ready", "continuation %u", i);
                                     return r.get() + int(i);
                                 }));
        }
        if(!setter.joinable())
        {
            p.set_value(5);
        }
        auto last = sim::wlp(1, 2) ? n - 1 : 0;
        for(uint32_t i = 0; i < n; ++i)
        {
            auto k = (last + i) % n;
            REQUIRE(out[k].get() == 5 + int(k), "wrong-value", "result of continuation %u", k);
        }
        if(setter.joinable())
        {
            setter.join();
        }
        // a continuation goes after its result arrived
        tpp::async(id, std::launch::async, []() {}).get();
        all_items(n, "continuation", [](int) { return 1; });
        // a chain
        auto m = many(4, 200);
        tpp::promise<int> q;
        auto c = q.get_future();
        for(uint32_t i = 0; i < m; ++i)
        {
            c = c.then(i % 3 == 0 ? me : id, i % 2 ? std::launch::async : std::launch::deferred, [](tpp::future<int> r) { return r.get() + 1; });
        }
        q.set_value(1);
        auto v = c.get();
        REQUIRE(v == int(m) + 1, "wrong-value", "the chain of %u gave %d", m, v);
    }
    end();
}

// a range of many inputs, completed in any order by several threads
template<typename Check>
void combine(Check check)
{
    begin(sim::fb_all_benign);
    {
        auto n = many(5, 300);
        std::vector<tpp::promise<int>> ps(n);
        std::vector<tpp::future<int>> fs;
        for(auto& p : ps)
        {
            fs.push_back(p.get_future());
        }
        std::vector<uint32_t> order(n);
        std::iota(order.begin(), order.end(), 0u);
        for(uint32_t i = n - 1; i > 0; --i)
        {
            std::swap(order[i], order[sim::wl(i + 1)]);
        }
        auto set = [](tpp::promise<int>& p, uint32_t i)
        {
            if(i % 7 == 3)
            {
                p.set_exception(std::make_exception_ptr(std::runtime_error(std::to_string(i))));
            }
            else
            {
                p.set_value(int(i));
            }
        };
        uint32_t k = 0;
        auto early = sim::wlp(1, 2) ? 0 : sim::wl(n + 1);
        for(; k < early; ++k)
        {
            set(ps[order[k]], order[k]);
        }
        auto value = [](tpp::future<int>& f, uint32_t i)
        {
            REQUIRE(f.valid(), "invalid-future", "input %u", i);
            try
            {
                auto v = f.get();
                REQUIRE(i % 7 != 3 && v == int(i), "wrong-value", "input %u gave %d", i, v);
            }
            catch(const std::runtime_error& e)
            {
                REQUIRE(i % 7 == 3 && e.what() == std::to_string(i), "wrong-error", "input %u gave %s", i, e.what());
            }
        };
        std::vector<std::thread> ts;
        auto complete = [&]()
        {
            auto workers = sim::wlr(1, 3);
            for(uint32_t w = 0; w < workers; ++w)
            {
                ts.emplace_back(
                    [&ps, &order, set, k, w, workers, n]()
                    {
                        for(auto i = k + w; i < n; i += workers)
                        {
                            set(ps[order[i]], order[i]);
                        }
                    });
            }
        };
        check(fs, complete, value, early);
        for(auto& t : ts)
        {
            t.join();
        }
    }
    end();
}
inline void all()
{
    combine(
        [](auto& fs, auto complete, auto value, uint32_t early)
        {
            auto n = uint32_t(fs.size());
            auto f = tpp::when_all(fs.begin(), fs.end());
            tpp::this_thread::process();
            REQUIRE(f.is_ready() == (early == n), "wrong-ready", "when_all with %u of %u inputs ready", early, n);
            complete();
            auto r = f.get();
            REQUIRE(r.size() == n, "wrong-size", "%zu results of %u", r.size(), n);
            for(uint32_t i = 0; i < n; ++i)
            {
                REQUIRE(r[i].valid() && r[i].is_ready(), "not-ready", "result %u of %u", i, n);
                value(r[i], i);
            }
        });
}
inline void any()
{
    combine(
        [](auto& fs, auto complete, auto value, uint32_t early)
        {
            auto n = uint32_t(fs.size());
            auto f = tpp::when_any(fs.begin(), fs.end());
            tpp::this_thread::process();
            REQUIRE(f.is_ready() == (early > 0), "wrong-ready", "when_any with %u of %u inputs ready", early, n);
            complete();
            auto r = f.get();
            REQUIRE(r.futures.size() == n && r.index < n, "wrong-size", "index %zu of %zu results of %u", r.index, r.futures.size(), n);
            REQUIRE(r.futures[r.index].is_ready(), "not-ready", "the result that is named");
            for(uint32_t i = 0; i < n; ++i)
            {
                value(r.futures[i], i);
            }
        });
}

// many threads wait for one condition variable
inline void waiters()
{
    begin();
    auto n = many(4, 60);
    {
        tpp::condition_variable cv;
        std::mutex m;
        std::vector<std::thread> ts;
        auto timed = sim::wlp(1, 3);
        on_threads(ts, n,
                   [&cv, &m, timed](uint32_t)
                   {
                       std::unique_lock<std::mutex> l(m);
                       sim::gate_open(1);
                       if(timed)
                       {
                           REQUIRE(cv.wait_for(l, 1h) == std::cv_status::no_timeout, "timeout", "a notified waiter");
                       }
                       else
                       {
                           cv.wait(l);
                       }
                       REQUIRE(l.owns_lock(), "lock", "not held");
                       sim::cell_add(C_COUNT, 1);
                   });
        sim::gate_wait(1, n);
        auto k = sim::wl(n + 1);
        for(uint32_t i = 0; i < k; ++i)
        {
            std::lock_guard<std::mutex> l(m);
            cv.notify_one();
        }
        sim::block_for(60000000000ull);
        REQUIRE(sim::cell(C_COUNT) >= int64_t(k), "lost-notification", "%ld of %u waiters returned after %u notifications", long(sim::cell(C_COUNT)), n, k);
        {
            std::lock_guard<std::mutex> l(m);
            cv.notify_all();
        }
        sim::block_for(60000000000ull);
        REQUIRE(sim::cell(C_COUNT) == int64_t(n), "lost-notification", "%ld of %u waiters returned after all were notified", long(sim::cell(C_COUNT)), n);
        for(auto& t : ts)
        {
            t.join();
        }
    }
    end();
}

// many threads compete for one mutex
inline void contenders()
{
    begin();
    auto n = many(4, 40);
    {
        tpp::mutex m;
        int plain = 0;
        auto rounds = sim::wlr(1, n > 20 ? 1 : 4);
        std::vector<std::thread> ts;
        on_threads(ts, n,
                   [&m, &plain, rounds](uint32_t)
                   {
                       for(uint32_t r = 0; r < rounds; ++r)
                       {
                           std::lock_guard<tpp::mutex> l(m);
                           REQUIRE(sim::cell_add(C_COUNT, 1) == 1, "not-exclusive", "held twice");
                           ++plain;
                           sim::cell_add(C_COUNT, -1);
                       }
                   });
        for(auto& t : ts)
        {
            t.join();
        }
        REQUIRE(plain == int(n * rounds), "lost-update", "%d of %u", plain, n * rounds);
        REQUIRE(m.try_lock(), "not-free", "after all are done");
        m.unlock();
    }
    end();
}

// more jobs than 16 bits can number, and what becomes of the handles of the first
inline void job_flood(bool stop)
{
    sim::allow_steps(8000000);
    auto n = 65530 + sim::wl(12);
    {
        tpp::thread_pool pool({{level::normal, 1}});
        pool.schedule([]() { sim::gate_open(2); sim::gate_wait(1); });
        sim::gate_wait(2);
        std::vector<tpp::job_future<void>> old;
        for(uint32_t i = 0; i < n; ++i)
        {
            auto f = pool.schedule([]() { sim::cell_add(C_COUNT, 1); });
            if(i < 20)
            {
                old.push_back(std::move(f));
            }
        }
        auto count = pool.get_jobs_count();
        REQUIRE(count == n + 1, "wrong-count", "%zu jobs left of %u", count, n + 1);
        if(stop)
        {
            pool.stop_all();
            count = pool.get_jobs_count();
            REQUIRE(count == 1, "wrong-count", "%zu jobs left after all were stopped", count);
            n = 0;
        }
        else
        {
            sim::gate_open(1);
            pool.wait_all();
            pool.schedule([]() { sim::gate_open(2); sim::gate_wait(3); });
            sim::gate_wait(2, 2);
        }
        // the old ones are over and have nothing to do with these
        for(uint32_t i = 0; i < 20; ++i)
        {
            pool.schedule([]() { sim::cell_add(C_COUNT, 1); });
        }
        for(auto& f : old)
        {
            f.stop();
        }
        count = pool.get_jobs_count();
        REQUIRE(count == 21, "wrong-count", "%zu jobs left of 21 after the handles of others were used", count);
        sim::gate_open(1);
        sim::gate_open(3);
        pool.wait_all();
        REQUIRE(sim::cell(C_COUNT) == int64_t(n) + 20, "lost", "%ld jobs executed of %u", long(sim::cell(C_COUNT)), n + 20);
    }
    sim::nontrivial();
}

inline void jobs()
{
    begin(sim::fb_all_benign);
    if(sim::wlp(1, 500))
    {
        job_flood(false);
        return end();
    }
    auto n = many(10, 500);
    {
        auto workers = many(1, 24);
        // every job tells every worker
        if(n * workers > 2000)
        {
            workers = 2;
        }
        tpp::thread_pool pool({{level::normal, workers}});
        std::vector<std::thread> ts;
        auto held = sim::wlp(1, 2);
        if(held)
        {
            for(uint32_t k = 0; k < workers; ++k)
            {
                pool.schedule([]() { sim::gate_open(2); sim::gate_wait(1); });
            }
            sim::gate_wait(2, workers);
        }
        auto senders = sim::wlr(1, 2);
        on_threads(ts, senders,
                   [&pool, n, senders](uint32_t k)
                   {
                       for(auto i = k; i < n; i += senders)
                       {
                           pool.schedule(tpp::priority::normal(i % 5), [x = item(int(i))]() { x.run(); });
                       }
                   });
        for(auto& t : ts)
        {
            t.join();
        }
        if(held)
        {
            auto count = pool.get_jobs_count();
            REQUIRE(count == n + workers, "wrong-count", "%zu jobs left of %u", count, n + workers);
            sim::gate_open(1);
        }
        pool.wait_all();
        for(int i = 0; i < int(n); ++i)
        {
            REQUIRE(sim::cell(C_RAN + i) == 1, "lost", "job %d of %u was executed %ld times", i, n, long(sim::cell(C_RAN + i)));
        }
        sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
        sim::block_for(60000000000ull);
        auto count = pool.get_jobs_count();
        REQUIRE(count == 0, "wrong-count", "%zu jobs left after all finished", count);
    }
    all_items(n, "job", [](int) { return 1; });
    end();
}

// the order of a long backlog, with priorities from the whole range
inline void priorities()
{
    begin();
    auto n = many(6, 300);
    std::vector<tpp::priority::group> groups(n);
    auto some = []() -> tpp::priority::group
    {
        static const size_t edge[] = {0,
                                      1,
                                      2,
                                      127,
                                      128,
                                      255,
                                      256,
                                      65535,
                                      65536,
                                      0x7fffffff,
                                      0x80000000u,
                                      0xffffffffu,
                                      0x100000000ull,
                                      0x100000001ull,
                                      std::numeric_limits<size_t>::max() / 2,
                                      std::numeric_limits<size_t>::max() / 2 + 1,
                                      std::numeric_limits<size_t>::max()};
        static const level l[] = {level::normal, level::high, level::critical};
        return {l[sim::wl(3)], sim::wlp(1, 2) ? edge[sim::wl(17)] : sim::wl(1000)};
    };
    {
        tpp::thread_pool pool({{level::normal, 1}});
        pool.schedule([]() { sim::gate_open(2); sim::gate_wait(1); });
        sim::gate_wait(2);
        std::vector<tpp::job_future<void>> fs;
        for(uint32_t i = 0; i < n; ++i)
        {
            groups[i] = some();
            fs.push_back(pool.schedule(groups[i],
                                       [x = item(int(i)), i]()
                                       {
                                           x.run();
                                           sim::cell_set(CELL_ENDED + int(sim::cell_add(C_COUNT, 1)) - 1, i);
                                       }));
            if(sim::wlp(1, 4))
            {
                auto k = sim::wl(i + 1);
                groups[k] = some();
                fs[k].change_priority(groups[k]);
            }
        }
        sim::gate_open(1);
        pool.wait_all();
    }
    for(uint32_t i = 0; i + 1 < n; ++i)
    {
        auto& a = groups[size_t(sim::cell(CELL_ENDED + int(i)))];
        auto& b = groups[size_t(sim::cell(CELL_ENDED + int(i) + 1))];
        REQUIRE(a.level > b.level || (a.level == b.level && a.priority >= b.priority), "wrong-order",
                "job of level %zu priority %zu before one of level %zu priority %zu", size_t(a.level), a.priority, size_t(b.level), b.priority);
    }
    all_items(n, "job", [](int) { return 1; });
    end();
}

// a long backlog that is not wanted any more
inline void stops()
{
    begin();
    if(sim::wlp(1, 300))
    {
        job_flood(true);
        return end();
    }
    auto n = many(10, 500);
    std::vector<bool> stopped(n);
    {
        auto pool = std::make_unique<tpp::thread_pool>(std::map<level, size_t>{{level::normal, 1}});
        auto first = pool->schedule([]() { sim::gate_open(2); sim::gate_wait(1); });
        sim::gate_wait(2);
        std::vector<tpp::job_future<int>> fs;
        for(uint32_t i = 0; i < n; ++i)
        {
            fs.push_back(pool->schedule(tpp::priority::normal(i % 3), [x = item(int(i))]() { x.run(); return 1; }));
        }
        auto way = sim::wl(3);
        for(uint32_t i = 0; i < n; ++i)
        {
            stopped[i] = way > 0 || sim::wlp(1, 2);
            if(stopped[i] && way == 0)
            {
                if(i % 2)
                {
                    fs[i].stop();
                }
                else
                {
                    pool->stop(fs[i].id);
                }
            }
        }
        if(way == 1)
        {
            pool->stop_all();
        }
        std::thread gone;
        if(way == 2)
        {
            gone = std::thread([&pool]() { pool.reset(); });
            sim::block_for(1000000000ull);
        }
        else
        {
            auto count = pool->get_jobs_count();
            auto should = size_t(std::count(stopped.begin(), stopped.end(), false)) + 1;
            REQUIRE(count == should, "wrong-count", "%zu jobs left, %zu were not stopped", count, should);
        }
        sim::gate_open(1);
        for(uint32_t i = 0; i < n; ++i)
        {
            if(stopped[i])
            {
                REQUIRE(broken([&]() { fs[i].get(); }), "not-broken", "future of job %u, which was stopped", i);
            }
            else
            {
                REQUIRE(fs[i].get() == 1, "wrong-value", "future of job %u", i);
            }
        }
        first.get();
        if(gone.joinable())
        {
            gone.join();
        }
        pool.reset();
    }
    all_items(n, "job", [&](int i) { return stopped[size_t(i)] ? 0 : 1; });
    end();
}

// a sleep during which much is to be done
inline void sleeping()
{
    begin();
    {
        auto n = many(20, 600);
        auto me = tpp::this_thread::get_id();
        auto before = sim::wl(n + 1);
        auto send = [me](uint32_t from, uint32_t to)
        {
            for(auto i = from; i < to; ++i)
            {
                tpp::invoke(me, [x = item(int(i))]() { x.run(); });
            }
        };
        send(0, before);
        std::thread t([send, before, n]() { send(before, n); });
        auto t0 = sim::now();
        auto until = sim::wlp(1, 2);
        if(until)
        {
            tpp::this_thread::sleep_until(tpp::clock::now() + 1h);
        }
        else
        {
            tpp::this_thread::sleep_for(1h);
        }
        auto took = sim::now() - t0;
        REQUIRE(took >= 3600ull * 1000000000ull, "early", "slept %lu ns", (unsigned long)took);
        REQUIRE(took < 3601ull * 1000000000ull, "late", "slept %lu ns", (unsigned long)took);
        t.join();
        all_items(n, "task", [](int) { return 1; });
    }
    end();
}

// long queues and deep nesting are counted
inline void counts()
{
    begin();
    {
        auto n = many(20, 600);
        auto me = tpp::this_thread::get_id();
        auto deep = sim::wlp(1, 4) ? many(60, 400) : many(2, 60);
        struct nest
        {
            tpp::thread::id me;
            uint32_t n;
            void operator()(uint32_t depth, uint32_t deepest) const
            {
                auto d = tpp::this_thread::get_depth();
                REQUIRE(d == depth, "wrong-depth", "%u at level %u", d, depth);
                // those that wait, and one for every level
                auto c = tpp::get_pending_task_count(me);
                REQUIRE(c == n + depth, "wrong-count", "%zu at level %u with %u waiting", c, depth, n);
                if(depth < deepest)
                {
                    // comes behind the waiting ones, which are started as well
                    tpp::this_thread::wait_for(1us);
                }
                d = tpp::this_thread::get_depth();
                REQUIRE(d == depth, "wrong-depth", "%u at level %u afterwards", d, depth);
            }
        };
        // tasks 0..deep-1 nest, the others only wait
        auto total = std::max(n, deep);
        for(uint32_t i = 0; i < total; ++i)
        {
            auto c = tpp::get_pending_task_count(me);
            REQUIRE(c == i, "wrong-count", "%zu of %u", c, i);
            tpp::invoke(me,
                        [x = item(int(i)), me, i, total, deep]()
                        {
                            x.run();
                            if(i < deep)
                            {
                                nest{me, total - i - 1}(i + 1, 0);
                                // starts the next one
                                tpp::this_thread::wait_for(1us);
                                auto d = tpp::this_thread::get_depth();
                                REQUIRE(d == i + 1, "wrong-depth", "%u at level %u afterwards", d, i + 1);
                            }
                        });
        }
        tpp::this_thread::process();
        auto c = tpp::get_pending_task_count(me);
        REQUIRE(c == 0, "wrong-count", "%zu in the end", c);
        all_items(total, "task", [](int) { return 1; });
    }
    end();
}

// the same inside every one of many tasks that each run inside the one before
template<typename F>
inline void at_every_depth(F f)
{
    begin();
    {
        auto me = tpp::this_thread::get_id();
        auto n = sim::wlp(1, 4) ? many(60, 300) : many(2, 60);
        for(uint32_t i = 0; i < n; ++i)
        {
            tpp::invoke(me,
                        [x = item(int(i)), me, f, i]()
                        {
                            x.run();
                            f(me, i + 1);
                            tpp::this_thread::wait_for(1us);
                        });
        }
        tpp::this_thread::process();
        all_items(n, "task", [](int) { return 1; });
    }
    end();
}

// one thread registers again and again
inline void periods()
{
    begin();
    {
        auto n = many(10, 400);
        std::vector<tpp::thread::id> ids;
        // more periods than 16 bits can number, nothing but registered
        uint32_t bare = 0;
        if(sim::wlp(1, 150))
        {
            sim::allow_steps(5000000);
            bare = 65530 + sim::wl(12);
            n += bare;
        }
        std::thread t(
            [&ids, bare, n]()
            {
                for(uint32_t i = 0; i < bare; ++i)
                {
                    tpp::this_thread::register_this_thread();
                    ids.push_back(tpp::this_thread::get_id());
                    REQUIRE(ids.back() != tpp::invalid_id(), "invalid-id", "period %u", i);
                    tpp::this_thread::unregister_this_thread();
                }
                for(uint32_t i = bare; i < n; ++i)
                {
                    auto name = i % 3 ? "p" + std::to_string(i) : std::string();
                    tpp::this_thread::register_this_thread(name);
                    auto id = tpp::this_thread::get_id();
                    REQUIRE(id != tpp::invalid_id(), "invalid-id", "period %u", i);
                    REQUIRE(!tpp::this_thread::notified_for_exit(), "carried-over", "exit in period %u", i);
                    auto info = tpp::get_pending_task_count_detailed(id);
                    REQUIRE(info.count == 0, "carried-over", "tasks in period %u", i);
                    REQUIRE(info.thread_name == (i % 3 ? name : std::to_string(id)), "wrong-name", "%s in period %u", info.thread_name.c_str(), i);
                    if(!ids.empty())
                    {
                        auto old = ids[sim::wl(uint32_t(ids.size()))];
                        REQUIRE(!tpp::invoke(old, []() { REQUIRE(false, "wrong-thread", "a task for a period that is over"); }), "accepted", "by an old id");
                    }
                    if(i % 2)
                    {
                        tpp::invoke(id, []() { REQUIRE(false, "carried-over", "a task of a former period"); });
                        tpp::notify_for_exit(id);
                    }
                    ids.push_back(id);
                    tpp::this_thread::unregister_this_thread();
                }
            });
        t.join();
        ids.push_back(tpp::this_thread::get_id());
        std::sort(ids.begin(), ids.end());
        REQUIRE(std::adjacent_find(ids.begin(), ids.end()) == ids.end(), "same-id", "two periods");
    }
    end();
}

// many tasks that throw
inline void throwing()
{
    begin();
    {
        auto n = many(20, 600);
        auto me = tpp::this_thread::get_id();
        auto every = sim::wlr(1, 4);
        for(uint32_t i = 0; i < n; ++i)
        {
            tpp::invoke(me,
                        [x = item(int(i)), i, every]()
                        {
                            x.run();
                            if(i % every == 0)
                            {
                                throw std::runtime_error(std::to_string(i));
                            }
                        });
        }
        auto style = sim::wl(3);
        uint32_t next = 0;
        while(tpp::get_pending_task_count(me) != 0)
        {
            try
            {
                switch(style)
                {
                    default:
                        tpp::this_thread::process();
                        break;
                    case 1:
                        tpp::this_thread::wait();
                        break;
                    case 2:
                        tpp::this_thread::sleep_for(1us);
                        break;
                }
            }
            catch(const std::runtime_error& e)
            {
                REQUIRE(e.what() == std::to_string(next), "wrong-error", "%s instead of %u", e.what(), next);
                REQUIRE(tpp::this_thread::get_depth() == 0, "wrong-depth", "after exception %u", next);
                next += every;
            }
        }
        REQUIRE(next >= n, "lost-error", "exception %u never arrived", next);
        all_items(n, "task", [](int) { return 1; });
    }
    end();
}

inline void asyncs()
{
    begin(sim::fb_all_benign);
    {
        auto n = many(8, 400);
        auto fresh = many(2, 50);
        auto l = loop();
        std::vector<tpp::future<int>> a, b;
        for(uint32_t i = 0; i < n; ++i)
        {
            a.push_back(tpp::async(l.id, [x = item(int(i))](int v) { x.run(); return v; }, int(i)));
        }
        for(uint32_t i = 0; i < fresh; ++i)
        {
            b.push_back(tpp::async([x = item(int(n + i))](int v) { x.run(); return v; }, int(i)));
        }
        for(uint32_t i = 0; i < n; ++i)
        {
            REQUIRE(a[i].get() == int(i), "wrong-value", "async %u", i);
        }
        for(uint32_t i = 0; i < fresh; ++i)
        {
            REQUIRE(b[i].get() == int(i), "wrong-value", "async %u on a fresh thread", i);
        }
        sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
        sim::block_for(60000000000ull);
        auto left = tpp::get_all_registered_threads().size();
        REQUIRE(left == 2, "thread-left", "%zu threads registered", left);
        all_items(n + fresh, "async", [](int) { return 1; });
    }
    end();
}

// waits inside waits: every level waits for a result that only comes later
inline void nested()
{
    begin(sim::fb_all_benign);
    {
        auto n = many(3, 50);
        auto me = tpp::this_thread::get_id();
        std::vector<tpp::promise<int>> ps(n + 1);
        std::vector<tpp::shared_future<int>> fs;
        for(auto& p : ps)
        {
            fs.push_back(p.get_future().share());
        }
        std::thread t(
            [&]()
            {
                for(uint32_t i = 0; i < n; ++i)
                {
                    // sent while all levels before are blocked
                    if(i)
                    {
                        sim::gate_wait(3, i);
                        sim::block_for(sim::wl(2) * 1000000ull);
                    }
                    auto f = fs[i + 1];
                    tpp::invoke(me,
                                [f, x = item(int(i))]()
                                {
                                    x.run();
                                    sim::gate_open(3);
                                    f.wait();
                                });
                }
                sim::gate_wait(3, n);
                sim::block_for(1000000ull);
                for(uint32_t i = 0; i <= n; ++i)
                {
                    ps[n - i].set_value(int(n - i));
                }
            });
        REQUIRE(fs[0].get() == 0, "wrong-value", "the outermost wait");
        t.join();
        all_items(n, "task", [](int) { return 1; });
    }
    end();
}
} // namespace large
