// C17: any legal program is free of crashes, data races and memory errors.
// Random programs over the whole interface; what they must not run into is
// watched by the simulator itself (races, memory errors, deadlocks, aborts).
#include "pool.hpp"

namespace
{
constexpr int C_BUDGET = C_USER + 300;  // operations left in this run
constexpr int C_TOKS = C_USER + 301;    // owning tokens created
constexpr int C_LIVE = C_USER + 302;    // owning tokens alive
constexpr int C_CLOSED = C_USER + 303;  // 1: the pool is not used any more
constexpr int C_KINDS = C_USER + 304;   // operations performed
constexpr int C_POOLUSE = C_USER + 305; // calls on the pool begun
constexpr int MAX_TOKS = 900;
constexpr int C_TOKDEAD = 0; // + token: times destroyed

struct world;
void operate(world& w, int depth);
void tear_down_operation(world& w, int depth);
constexpr int C_TEAR = C_USER + 306; // operations left during the tear down

// captured by every callable: its destructor may use the library itself
struct guest
{
    world* w = nullptr;
    int id = -1;
    bool active = false;
    int depth = 0;

    guest(world& world_, int d) : w(&world_), id(int(sim::cell_add(C_TOKS, 1)) - 1), active(sim::wlp(1, 4)), depth(d)
    {
        REQUIRE(id < MAX_TOKS, "harness", "too many tokens");
        sim::cell_add(C_LIVE, 1);
    }
    guest(guest&& o) noexcept : w(o.w), id(o.id), active(o.active), depth(o.depth)
    {
        o.id = -1;
    }
    guest(const guest&) = delete;
    guest& operator=(const guest&) = delete;
    guest& operator=(guest&&) = delete;
    ~guest()
    {
        if(id < 0)
        {
            return;
        }
        REQUIRE(sim::cell_add(C_TOKDEAD + id, 1) == 1, "destroyed-twice", "object %d destroyed twice", id);
        if(active)
        {
            sim::probe("destructor_calls_library");
            operate(*w, depth + 1);
            tear_down_operation(*w, depth + 1);
        }
        sim::cell_add(C_LIVE, -1);
    }
};

// everything the threads of a program share; slots are only taken and put
// under the lock, which is never held during a call of the library
struct world
{
    std::mutex m;
    std::vector<tpp::future<int>> futures;
    std::vector<tpp::shared_future<int>> shared;
    std::vector<tpp::promise<int>> promises;
    std::vector<tpp::job_future<int>> jobs;
    std::vector<tpp::thread::id> ids;
    tpp::thread::id catcher = tpp::invalid_id(); // a thread whose loop catches what its tasks throw

    tpp::condition_variable cv;
    std::mutex cvm;
    tpp::mutex lock;
    tpp::thread_pool* pool = nullptr;

    template<typename V>
    auto take(V& v, typename V::value_type& out) -> bool
    {
        std::lock_guard<std::mutex> l(m);
        if(v.empty())
        {
            return false;
        }
        auto i = sim::wl(uint32_t(v.size()));
        out = std::move(v[i]);
        v.erase(v.begin() + i);
        return true;
    }
    template<typename V>
    void put(V& v, typename V::value_type x)
    {
        std::lock_guard<std::mutex> l(m);
        v.push_back(std::move(x));
    }
    auto copy_shared(tpp::shared_future<int>& out) -> bool
    {
        std::lock_guard<std::mutex> l(m);
        if(shared.empty())
        {
            return false;
        }
        out = shared[sim::wl(uint32_t(shared.size()))];
        return true;
    }
    auto any_id() -> tpp::thread::id
    {
        std::lock_guard<std::mutex> l(m);
        auto i = sim::wl(uint32_t(ids.size()) + 2);
        if(i < ids.size())
        {
            return ids[i];
        }
        return i == ids.size() ? tpp::caller_id() : tpp::thread::id(777777);
    }
};

auto any_policy() -> std::launch
{
    auto k = sim::wl(3);
    return k == 0 ? std::launch::async : k == 1 ? std::launch::deferred : std::launch::async | std::launch::deferred;
}

// a pool call; not made once the pool is about to go away
struct pool_use
{
    bool ok;
    pool_use(world& w) : ok(sim::cell(C_CLOSED) == 0 && w.pool != nullptr)
    {
        if(ok)
        {
            sim::cell_add(C_POOLUSE, 1);
        }
    }
    ~pool_use()
    {
        if(ok)
        {
            sim::gate_open(200);
        }
    }
};

auto body(world& w, int depth)
{
    return [g = guest(w, depth), &w, depth]() mutable
    {
        auto n = sim::wl(3);
        for(uint32_t i = 0; i < n; ++i)
        {
            operate(w, depth + 1);
        }
        if(sim::wlp(1, 10))
        {
            throw std::runtime_error("user");
        }
        return int(n);
    };
}

// one random operation of the calling thread
void operate_unsafe(world& w, int depth)
{
    switch(sim::wl(32))
    {
        case 0:
        case 1:
        {
            auto f = body(w, depth);
            tpp::invoke(w.any_id(),
                        [f = std::move(f)]() mutable
                        {
                            try
                            {
                                f();
                            }
                            catch(const std::runtime_error&)
                            {
                            }
                        });
            break;
        }
        case 2:
        {
            auto f = body(w, depth);
            tpp::dispatch(w.any_id(),
                          [f = std::move(f)]() mutable
                          {
                              try
                              {
                                  f();
                              }
                              catch(const std::runtime_error&)
                              {
                              }
                          });
            break;
        }
        case 3:
        case 4:
            w.put(w.futures, tpp::async(w.any_id(), any_policy(), body(w, depth)));
            break;
        case 5:
            w.put(w.futures, tpp::async(any_policy(), body(w, depth)));
            break;
        case 6:
        {
            tpp::promise<int> p;
            w.put(w.futures, p.get_future());
            w.put(w.promises, std::move(p));
            break;
        }
        case 7:
        {
            tpp::promise<int> p;
            if(w.take(w.promises, p))
            {
                p.set_value(3);
            }
            break;
        }
        case 8:
        {
            tpp::promise<int> p;
            if(w.take(w.promises, p))
            {
                if(sim::wlp(1, 2))
                {
                    p.set_exception(std::make_exception_ptr(std::runtime_error("user")));
                }
            }
            break; // or abandoned
        }
        case 9:
        case 10:
        {
            tpp::future<int> f;
            if(w.take(w.futures, f))
            {
                auto c = [b = body(w, depth)](tpp::future<int> x) mutable
                {
                    if(sim::wlp(1, 2))
                    {
                        b();
                    }
                    return x.get();
                };
                w.put(w.futures, sim::wlp(1, 8) ? f.then(any_policy(), std::move(c)) : f.then(w.any_id(), any_policy(), std::move(c)));
            }
            break;
        }
        case 11:
        {
            tpp::future<int> f;
            if(w.take(w.futures, f))
            {
                w.put(w.shared, f.share());
            }
            break;
        }
        case 12:
        {
            tpp::shared_future<int> f;
            if(w.copy_shared(f))
            {
                w.put(w.futures, f.then(w.any_id(), any_policy(),
                                        [b = body(w, depth)](tpp::shared_future<int> x) mutable
                                        {
                                            b();
                                            return x.get();
                                        }));
            }
            break;
        }
        case 13:
        {
            tpp::shared_future<int> f;
            if(w.copy_shared(f))
            {
                if(f.wait_for(some_us(20)) == std::future_status::ready)
                {
                    f.get();
                }
            }
            break;
        }
        case 14:
        {
            tpp::future<int> f;
            if(w.take(w.futures, f))
            {
                if(f.wait_for(some_us(20)) == std::future_status::ready)
                {
                    f.get();
                }
                else if(sim::wlp(1, 2))
                {
                    w.put(w.futures, std::move(f));
                }
            }
            break;
        }
        case 15:
        {
            // all of two, of which the result is dropped or looked at
            tpp::future<int> f, g;
            if(w.take(w.futures, f))
            {
                if(w.take(w.futures, g))
                {
                    auto all = tpp::when_all(std::move(f), std::move(g));
                    w.put(w.futures, all.then(w.any_id(),
                                              [b = body(w, depth)](auto x) mutable
                                              {
                                                  auto r = x.get();
                                                  return int(std::get<0>(r).is_ready());
                                              }));
                }
                else
                {
                    w.put(w.futures, std::move(f));
                }
            }
            break;
        }
        case 16:
        {
            std::vector<tpp::future<int>> v;
            for(uint32_t i = sim::wlr(1, 3); i > 0; --i)
            {
                tpp::future<int> f;
                if(w.take(w.futures, f))
                {
                    v.push_back(std::move(f));
                }
            }
            if(sim::wlp(1, 2))
            {
                auto any = tpp::when_any(v.begin(), v.end());
                w.put(w.futures, any.then(w.any_id(), [b = body(w, depth)](auto x) mutable { return int(x.get().index); }));
            }
            else
            {
                auto all = tpp::when_all(v.begin(), v.end());
                w.put(w.futures, all.then(w.any_id(), [b = body(w, depth)](auto x) mutable { return int(x.get().size()); }));
            }
            break;
        }
        case 17:
        {
            if(tpp::this_thread::is_registered())
            {
                std::unique_lock<std::mutex> l(w.cvm);
                w.cv.wait_for(l, some_us(20));
            }
            break;
        }
        case 18:
            sim::wlp(1, 2) ? w.cv.notify_one() : w.cv.notify_all();
            break;
        case 19:
        {
            // a lock attempt of a thread that already owns it is reported
            if(tpp::this_thread::is_registered() && !tpp::this_thread::notified_for_exit())
            {
                // (no tasks while it is held: they might wait for the others)
                std::lock_guard<tpp::mutex> l(w.lock);
                sim::spend(1000);
                sim::yield_point();
                try
                {
                    w.lock.lock();
                    REQUIRE(false, "relocked", "a lock was acquired twice by its owner");
                }
                catch(const std::system_error&)
                {
                    sim::probe("relock_reported");
                }
            }
            break;
        }
        case 20:
            if(tpp::this_thread::is_registered() && w.lock.try_lock())
            {
                w.lock.unlock();
            }
            break;
        case 21:
        case 22:
        case 23:
        {
            pool_use u(w);
            if(u.ok)
            {
                w.put(w.jobs, w.pool->schedule(any_group(), body(w, depth)));
            }
            break;
        }
        case 24:
        {
            pool_use u(w);
            tpp::job_future<int> j;
            if(u.ok && w.take(w.jobs, j))
            {
                switch(sim::wl(5))
                {
                    case 0:
                        j.stop();
                        break;
                    case 1:
                        j.change_priority(any_group());
                        break;
                    case 2:
                        j.wait_for(some_us(20));
                        break;
                    case 3:
                        w.pool->stop(j.id);
                        break;
                    default:
                        break;
                }
                if(sim::wlp(1, 2))
                {
                    w.put(w.jobs, std::move(j));
                }
                else if(sim::wlp(1, 2))
                {
                    w.put(w.futures, std::move(static_cast<tpp::future<int>&>(j)));
                }
            }
            break;
        }
        case 25:
        {
            pool_use u(w);
            if(u.ok)
            {
                if(sim::wlp(1, 4))
                {
                    w.pool->stop_all();
                }
                w.pool->get_jobs_count();
            }
            break;
        }
        case 26:
            tpp::get_pending_task_count_detailed(w.any_id());
            tpp::get_all_registered_threads();
            break;
        case 27:
            sim::wlp(1, 2) ? tpp::notify(w.any_id()) : void(tpp::set_thread_config(w.any_id(), small_capacity()));
            break;
        case 28:
        {
            auto t = tpp::make_thread("short");
            tpp::invoke(t.get_id(), [b = body(w, depth)]() mutable { try { b(); } catch(const std::runtime_error&) {} });
            break;
        }
        case 29:
            // the exception leaves whatever call the thread is in
            if(w.catcher != tpp::invalid_id())
            {
                tpp::invoke(w.catcher, body(w, depth));
            }
            break;
        case 30:
            if(!tpp::this_thread::is_registered())
            {
                // these are refused
                switch(sim::wl(9))
                {
                    case 0:
                        tpp::this_thread::process();
                        break;
                    case 1:
                        tpp::this_thread::wait();
                        break;
                    case 2:
                        tpp::this_thread::wait_for(some_us(20));
                        break;
                    case 3:
                        tpp::this_thread::process_for(some_us(20));
                        break;
                    case 4:
                        tpp::this_thread::sleep_for(some_us(20));
                        break;
                    case 5:
                        tpp::this_thread::get_depth();
                        break;
                    case 6:
                        tpp::this_thread::unregister_this_thread();
                        break;
                    case 7:
                        tpp::this_thread::notified_for_exit();
                        break;
                    default:
                        tpp::set_thread_config(tpp::this_thread::get_id(), {});
                        break;
                }
            }
            break;
        default:
            if(tpp::this_thread::is_registered())
            {
                switch(sim::wl(4))
                {
                    case 0:
                        tpp::this_thread::process();
                        break;
                    case 1:
                        tpp::this_thread::wait_for(some_us(20));
                        break;
                    case 2:
                        tpp::this_thread::process_for(some_us(20));
                        break;
                    default:
                        tpp::this_thread::sleep_for(some_us(20));
                        break;
                }
            }
            break;
    }
}

void operate(world& w, int depth)
{
    if(depth > 5 || sim::cell(C_BUDGET) <= 0)
    {
        return;
    }
    sim::cell_add(C_BUDGET, -1);
    sim::cell_add(C_KINDS, 1);
    struct over
    {
        ~over()
        {
            sim::gate_open(201);
        }
    } o;
    try
    {
        operate_unsafe(w, depth);
    }
    catch(const std::runtime_error& x)
    {
        // what user code threw arrives through futures
        if(std::string(x.what()) != "user")
        {
            throw;
        }
    }
    catch(const std::future_error& x)
    {
        REQUIRE(x.code() == std::future_errc::broken_promise, "unexpected-error", "%s", x.what());
    }
}

// what destructors do while everything is taken down: no threads are created
// and nobody is waited for
void tear_down_operation(world& w, int depth)
{
    if(sim::cell(C_CLOSED) == 0 || depth > 5 || sim::cell_add(C_TEAR, -1) < 0)
    {
        return;
    }
    sim::probe("tear_down_operation");
    switch(sim::wl(6))
    {
        case 0:
            tpp::invoke(w.any_id(), [g = guest(w, depth)]() {});
            break;
        case 1:
            w.put(w.futures, tpp::async(w.any_id(), std::launch::async,
                                        [g = guest(w, depth)]()
                                        {
                                            return 1;
                                        }));
            break;
        case 2:
        {
            tpp::promise<int> p;
            if(w.take(w.promises, p) && sim::wlp(1, 2))
            {
                p.set_value(1);
            }
            break;
        }
        case 3:
        {
            tpp::future<int> f;
            if(w.take(w.futures, f))
            {
                w.put(w.futures, f.then(w.any_id(),
                                        [g = guest(w, depth)](auto x)
                                        {
                                            return x.get();
                                        }));
            }
            break;
        }
        case 4:
            w.cv.notify_all();
            tpp::notify(w.any_id());
            break;
        default:
            tpp::get_pending_task_count(w.any_id());
            tpp::get_all_registered_threads();
            break;
    }
}

void all_destroyed()
{
    auto n = int(sim::cell(C_TOKS));
    for(int i = 0; i < n; ++i)
    {
        REQUIRE(sim::cell(C_TOKDEAD + i) == 1, "object-leaked", "captured object %d was destroyed %d times", i, int(sim::cell(C_TOKDEAD + i)));
    }
}
void program(bool with_pool, bool abrupt)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    if(sim::wlp(1, 3))
    {
        d.log_error = [](const std::string&) {};
        d.log_info = [](const std::string&) {};
    }
    tpp::init(d);
    sim::cell_set(C_BUDGET, sim::wlr(5, 120));
    sim::cell_set(C_TEAR, 20);
    auto w = std::make_unique<world>();
    std::unique_ptr<tpp::thread_pool> pool;
    {
        if(with_pool)
        {
            auto shape = pool_shape::any(2, true);
            pool = std::make_unique<tpp::thread_pool>(shape.map);
            w->pool = pool.get();
        }
        w->ids.push_back(tpp::this_thread::get_id());
        std::vector<looper> loops;
        auto nl = sim::wlr(1, 2);
        for(uint32_t i = 0; i < nl; ++i)
        {
            loops.push_back(looper::any());
            std::lock_guard<std::mutex> l(w->m);
            w->ids.push_back(loops.back().id);
        }
        tpp::thread catcher;
        if(sim::wlp(1, 2))
        {
            catcher = tpp::thread(
                [style = sim::wl(NUM_STYLES)]()
                {
                    tpp::this_thread::register_this_thread();
                    while(!tpp::this_thread::notified_for_exit())
                    {
                        try
                        {
                            loop_once(style);
                        }
                        catch(const std::runtime_error& x)
                        {
                            REQUIRE(std::string(x.what()) == "user", "unexpected-error", "%s", x.what());
                            sim::probe("task_threw");
                        }
                    }
                    tpp::this_thread::unregister_this_thread();
                });
            w->catcher = catcher.get_id();
            w->ids.push_back(catcher.get_id());
        }
        std::vector<std::thread> raw;
        auto nr = sim::wlr(1, 3);
        for(uint32_t i = 0; i < nr; ++i)
        {
            raw.emplace_back(
                [&ws = *w]()
                {
                    auto reg = sim::wlp(2, 3);
                    auto n = sim::wlr(1, 12);
                    for(uint32_t k = 0; k < n; ++k)
                    {
                        if(reg && k % 5 == 0)
                        {
                            tpp::this_thread::register_this_thread();
                            ws.put(ws.ids, tpp::this_thread::get_id());
                        }
                        operate(ws, 0);
                        if(reg && k % 5 == 4)
                        {
                            tpp::this_thread::unregister_this_thread();
                        }
                    }
                    if(reg && tpp::this_thread::is_registered())
                    {
                        tpp::this_thread::unregister_this_thread();
                    }
                });
        }
        auto n = sim::wlr(1, 15);
        for(uint32_t k = 0; k < n; ++k)
        {
            operate(*w, 0);
        }
        if(abrupt)
        {
            // no more operations, the rest is torn down as it is
            sim::cell_set(C_BUDGET, 0);
        }
        for(auto& r : raw)
        {
            r.join();
        }
        if(!abrupt)
        {
            // let everything run to its end
            for(int k = 0; k < 20; ++k)
            {
                tpp::this_thread::process();
                tpp::this_thread::wait_for(100us);
            }
        }
        // threads are not created any more while the library shuts down
        sim::cell_set(C_BUDGET, 0);
        sim::cell_set(C_CLOSED, 1);
        sim::gate_wait(201, sim::cell(C_KINDS));
        sim::gate_wait(200, sim::cell(C_POOLUSE));
        if(sim::cell(C_KINDS) > 10)
        {
            sim::nontrivial();
        }
        if(sim::wlp(1, 2))
        {
            pool.reset();
        }
        else
        {
            loops.clear();
        }
        pool.reset();
        if(abrupt && sim::wlp(1, 2))
        {
            sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
            auto left = tpp::shutdown();
            REQUIRE(left == 0 || left == -1, "shutdown-failed", "shutdown returned %d", left);
        }
    }
    sim::cell_set(C_BUDGET, 0);
    if(tpp::this_thread::is_registered())
    {
        sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
        auto left = tpp::shutdown();
        REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    }
    sim::set_fault_mask(0);
    sim::block_for(1000000000ull); // detached threads are gone
    {
        // the futures and promises still in their slots
        auto slots = std::move(w);
        // (whose callables may put new ones there)
        for(bool more = true; more;)
        {
            decltype(slots->futures) f;
            decltype(slots->shared) s;
            decltype(slots->jobs) j;
            decltype(slots->promises) p;
            std::lock_guard<std::mutex> l(slots->m);
            f.swap(slots->futures);
            s.swap(slots->shared);
            j.swap(slots->jobs);
            p.swap(slots->promises);
            more = !f.empty() || !s.empty() || !j.empty() || !p.empty();
        }
    }
    all_destroyed();
}
} // namespace

SCENARIO(c17_tasks, 5)
{
    program(false, false);
}
SCENARIO(c17_pool, 5)
{
    program(true, false);
}
SCENARIO(c17_abrupt, 4)
{
    program(sim::wlp(1, 2), true);
}
