// Every way a thread can block in the library, as one call that on its own
// never finishes (or only after an hour): the thread stays there until exit.
#pragma once
#include "common.hpp"

constexpr uint64_t HOUR = 3600ull * 1000000000ull;

enum park_kind : uint32_t
{
    PK_WAIT,
    PK_WAIT_FOR,
    PK_WAIT_UNTIL,
    PK_SLEEP_FOR,
    PK_SLEEP_UNTIL,
    PK_FUT_WAIT,
    PK_FUT_GET,
    PK_FUT_VOID_GET,
    PK_SHARED_GET,
    PK_FUT_WAIT_FOR,
    PK_FUT_WAIT_UNTIL,
    PK_CV_WAIT,
    PK_CV_WAIT_FOR,
    PK_CV_WAIT_UNTIL,
    PK_POOL_WAIT,
    PK_POOL_WAIT_ALL,
    PK_WHEN_ALL,
    PK_WHEN_ANY,
    PK_NUM_NONMUTEX,
    PK_MUTEX = PK_NUM_NONMUTEX,
    PK_NUM
};

inline auto park_name(uint32_t k) -> const char*
{
    static const char* n[] = {"wait", "wait_for", "wait_until", "sleep_for", "sleep_until", "future.wait", "future.get",
                              "future<void>.get", "shared_future.get", "future.wait_for", "future.wait_until", "cv.wait",
                              "cv.wait_for", "cv.wait_until", "pool.wait", "pool.wait_all", "when_all", "when_any",
                              "mutex.lock"};
    return n[k];
}

struct park_env
{
    tpp::promise<int> p;
    tpp::promise<void> pv;
    tpp::shared_future<int> sf;
    tpp::future<int> f2;
    tpp::future<void> fv;
    tpp::condition_variable cv;
    std::mutex m;
    tpp::mutex tm;
    tpp::thread_pool* pool = nullptr;
    tpp::job_id job = 0;
    park_env() : sf(p.get_future().share()), fv(pv.get_future())
    {
    }
};

// returns true if the library reported something it must not report here
// (a timeout although the hour is not over, or a value nobody set)
inline auto park(uint32_t kind, park_env& e) -> bool
{
    auto t0 = sim::now();
    bool bad = false;
    auto broken = [&](auto&& fn)
    {
        try
        {
            fn();
            bad = true; // nobody ever fulfils these
        }
        catch(const user_error&)
        {
            throw; // of a task executed meanwhile
        }
        catch(const std::future_error& x)
        {
            bad = x.code() != std::future_errc::broken_promise;
        }
    };
    switch(kind)
    {
        case PK_WAIT:
            tpp::this_thread::wait();
            break;
        case PK_WAIT_FOR:
            bad = tpp::this_thread::wait_for(1h) == std::cv_status::timeout && sim::now() - t0 < HOUR;
            break;
        case PK_WAIT_UNTIL:
            bad = tpp::this_thread::wait_until(tpp::clock::now() + 1h) == std::cv_status::timeout && sim::now() - t0 < HOUR;
            break;
        case PK_SLEEP_FOR:
            tpp::this_thread::sleep_for(1h);
            break;
        case PK_SLEEP_UNTIL:
            tpp::this_thread::sleep_until(tpp::clock::now() + 1h);
            break;
        case PK_FUT_WAIT:
            e.sf.wait();
            break;
        case PK_FUT_GET:
        {
            tpp::promise<int> p;
            auto f = p.get_future();
            broken([&]() { f.get(); });
            break;
        }
        case PK_FUT_VOID_GET:
        {
            tpp::promise<void> p;
            auto f = p.get_future();
            broken([&]() { f.get(); });
            break;
        }
        case PK_SHARED_GET:
            broken([&]() { e.sf.get(); });
            break;
        case PK_FUT_WAIT_FOR:
        {
            auto st = e.sf.wait_for(1h);
            bad = st == std::future_status::ready || (st == std::future_status::timeout && sim::now() - t0 < HOUR);
            break;
        }
        case PK_FUT_WAIT_UNTIL:
        {
            auto st = e.fv.wait_until(tpp::clock::now() + 1h);
            bad = st == std::future_status::ready || (st == std::future_status::timeout && sim::now() - t0 < HOUR);
            break;
        }
        case PK_CV_WAIT:
        {
            std::unique_lock<std::mutex> l(e.m);
            e.cv.wait(l);
            bad = !l.owns_lock();
            break;
        }
        case PK_CV_WAIT_FOR:
        {
            std::unique_lock<std::mutex> l(e.m);
            bad = e.cv.wait_for(l, 1h) == std::cv_status::timeout && sim::now() - t0 < HOUR;
            bad = bad || !l.owns_lock();
            break;
        }
        case PK_CV_WAIT_UNTIL:
        {
            std::unique_lock<std::mutex> l(e.m);
            bad = e.cv.wait_until(l, tpp::clock::now() + 1h) == std::cv_status::timeout && sim::now() - t0 < HOUR;
            bad = bad || !l.owns_lock();
            break;
        }
        case PK_POOL_WAIT:
            e.pool->wait(e.job);
            break;
        case PK_POOL_WAIT_ALL:
            e.pool->wait_all();
            break;
        case PK_WHEN_ALL:
        {
            tpp::promise<int> p;
            auto all = tpp::when_all(p.get_future(), e.sf);
            all.wait();
            bad = all.is_ready();
            break;
        }
        case PK_WHEN_ANY:
        {
            tpp::promise<int> p;
            auto any = tpp::when_any(p.get_future(), e.sf);
            any.wait_for(1h);
            bad = any.is_ready();
            break;
        }
        case PK_MUTEX:
            e.tm.lock();
            e.tm.unlock();
            break;
        default:
            break;
    }
    return bad;
}
