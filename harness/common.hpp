// Shared helpers of the simulation scenarios. Everything here talks to the
// library under test through its public headers only.
#pragma once
#include "../engine/sim.h"
#include <threadpp/condition_variable.hpp>
#include <threadpp/future.hpp>
#include <threadpp/mutex.hpp>
#include <threadpp/thread.h>
#include <threadpp/thread_pool.h>
#include <threadpp/when_all_any.hpp>

#include <cstdio>
#include <future>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>

using namespace std::chrono_literals;

// ---- history event kinds --------------------------------------------------
enum : int
{
    E_SUBMIT = 1, // a task id, b target, c accepted
    E_START,      // a task id, b tpp thread id
    E_END,        // a task id
    E_DESTROY,    // a task id: the callable (its owning token) was destroyed
    E_MARK,       // free use
    E_USER = 100
};

// A move-only ownership token stored inside callables: its destruction is the
// observable end of the callable's life.
struct tok
{
    int id;
    explicit tok(int i) : id(i)
    {
    }
    tok(tok&& o) noexcept : id(o.id)
    {
        o.id = -1;
    }
    tok& operator=(tok&&) = delete;
    tok(const tok&) = delete;
    tok& operator=(const tok&) = delete;
    ~tok()
    {
        if(id >= 0)
        {
            sim::ev(E_DESTROY, id);
        }
    }
};

// Per-task bookkeeping kept in harness cells (never part of the library's
// synchronisation): how often started / finished / destroyed.
constexpr int CELL_STARTED = 0;
constexpr int CELL_ENDED = 1000;
constexpr int CELL_DESTROYED = 2000;
constexpr int CELL_FREE = 3000;

struct totals
{
    int started = 0, ended = 0, destroyed = 0, submitted = 0, accepted = 0;
    uint64_t s_submit = 0, s_start = 0, s_end = 0, s_destroy = 0;
    uint64_t t_start = 0, t_end = 0;
    int start_thread = -1;
    int destroy_thread = -1;
    int64_t tid = 0, target = 0;
};

inline auto collect(int max_id) -> std::vector<totals>
{
    std::vector<totals> r(static_cast<size_t>(max_id));
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind < E_SUBMIT || e.kind > E_DESTROY || e.a < 0 || e.a >= max_id)
        {
            continue;
        }
        auto& t = r[static_cast<size_t>(e.a)];
        switch(e.kind)
        {
            case E_SUBMIT:
                t.submitted++;
                t.accepted += e.c ? 1 : 0;
                t.target = e.b;
                t.s_submit = e.seq;
                break;
            case E_START:
                t.started++;
                t.tid = e.b;
                t.start_thread = e.thread;
                t.s_start = e.seq;
                t.t_start = e.time;
                break;
            case E_END:
                t.ended++;
                t.s_end = e.seq;
                t.t_end = e.time;
                break;
            case E_DESTROY:
                t.destroyed++;
                t.s_destroy = e.seq;
                t.destroy_thread = e.thread;
                break;
            default:
                break;
        }
    }
    return r;
}

// init/shutdown of the library around a scenario body
inline void lib_init(tpp::init_data d = {})
{
    tpp::init(d);
}

inline auto small_capacity() -> tpp::tasks_capacity_config
{
    static const size_t sizes[] = {16, 0, 1, 2, 4};
    static const size_t thr[] = {256, 0, 1, 3, 16};
    tpp::tasks_capacity_config c;
    c.default_reserved_tasks = sizes[sim::wl(5)];
    c.capacity_shrink_threashold = thr[sim::wl(5)];
    return c;
}

inline auto shutdown_ok(int seconds = 30) -> int
{
    return tpp::shutdown(std::chrono::seconds(seconds));
}

// joins/destroys a thread object and reports how long it took in sim time
inline auto us(uint64_t ns) -> std::chrono::microseconds
{
    return std::chrono::microseconds(ns / 1000);
}

// ---- task bookkeeping -----------------------------------------------------
constexpr int C_NEXT = CELL_FREE;        // next task id
constexpr int C_OUT = CELL_FREE + 1;     // submitted, not yet finished/rejected
constexpr int C_USER = CELL_FREE + 16;   // first cell free for a scenario
constexpr int MAX_TASKS = 900;

inline auto task_count() -> int
{
    return int(sim::cell(C_NEXT));
}
inline auto new_task() -> int
{
    return int(sim::cell_add(C_NEXT, 1)) - 1;
}
inline auto can_submit() -> bool
{
    return task_count() < MAX_TASKS;
}

// wraps f into a callable with a life-time token and start/end events
template<typename F>
auto tracked(int id, F f)
{
    return [t = tok(id), id, f = std::move(f)](auto&&... a) mutable
    {
        sim::ev(E_START, id, int64_t(tpp::this_thread::get_id()));
        struct done
        {
            int id;
            ~done()
            {
                sim::ev(E_END, id);
                sim::cell_add(C_OUT, -1);
            }
        } d{id};
        return f(std::forward<decltype(a)>(a)...);
    };
}

// ---- points in time ---------------------------------------------------------
// a clock of the user, with another epoch
struct user_clock
{
    using duration = std::chrono::nanoseconds;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<user_clock>;
    static constexpr bool is_steady = true;
    static auto now() -> time_point
    {
        return time_point(std::chrono::duration_cast<duration>(std::chrono::steady_clock::now().time_since_epoch()) - std::chrono::hours(5000));
    }
};
// calls f with the point in time ns from now, on one clock or another
template<typename F>
auto until(uint64_t ns, F&& f)
{
    switch(sim::wl(3))
    {
        default:
            return f(tpp::clock::now() + std::chrono::nanoseconds(ns));
        case 1:
            return f(user_clock::now() + std::chrono::nanoseconds(ns));
        case 2:
            if(sim::fault_mask() & sim::fb_sysclock)
            {
                return f(std::chrono::steady_clock::now() + std::chrono::nanoseconds(ns)); // that one may be set to anything meanwhile
            }
            return f(std::chrono::system_clock::now() + std::chrono::nanoseconds(ns));
    }
}

// ---- exceptions of the user -------------------------------------------------
// of all kinds: standard ones, ones the library itself could have thrown, and
// ones that have nothing to do with std::exception
struct user_error
{
    int i;
    explicit user_error(int n) : i(n)
    {
    }
};
template<typename B>
struct user_error_as
    : B
    , user_error
{
    template<typename... A>
    explicit user_error_as(int n, A&&... a) : B(std::forward<A>(a)...), user_error(n)
    {
    }
};
[[noreturn]] inline void throw_user(int i)
{
    switch(sim::wl(6))
    {
        default:
            throw user_error_as<std::runtime_error>(i, "mine");
        case 1:
            throw user_error(i);
        case 2:
            throw user_error_as<std::future_error>(i, std::future_errc::broken_promise);
        case 3:
            throw user_error_as<std::bad_alloc>(i);
        case 4:
            throw user_error_as<std::system_error>(i, std::make_error_code(std::errc::resource_unavailable_try_again));
        case 5:
            throw user_error_as<std::exception>(i);
    }
}
inline auto user_error_ptr(int i) -> std::exception_ptr
{
    try
    {
        throw_user(i);
    }
    catch(...)
    {
        return std::current_exception();
    }
}

// ---- pseudo random durations ----------------------------------------------
inline auto some_us(uint32_t max) -> std::chrono::microseconds
{
    return std::chrono::microseconds(1 + sim::wl(max));
}

// one iteration of a processing loop, in one of the ways a thread can wait for
// and execute its tasks. Always returns when the thread is notified for exit.
constexpr uint32_t NUM_STYLES = 12;
inline void loop_once(uint32_t style)
{
    switch(style)
    {
        default:
            tpp::this_thread::wait();
            break;
        case 1:
            tpp::this_thread::wait_for(some_us(3000));
            break;
        case 2:
            tpp::this_thread::process();
            tpp::this_thread::wait();
            break;
        case 3:
            tpp::this_thread::process_for(some_us(300));
            tpp::this_thread::wait();
            break;
        case 4:
            tpp::this_thread::sleep_for(some_us(3000));
            break;
        case 5:
        {
            tpp::promise<int> p;
            auto f = p.get_future();
            f.wait_for(some_us(3000));
            break;
        }
        case 6:
        {
            tpp::condition_variable cv;
            std::mutex m;
            std::unique_lock<std::mutex> lock(m);
            cv.wait_for(lock, some_us(3000));
            break;
        }
        case 7:
            tpp::this_thread::wait_until(tpp::clock::now() + some_us(3000));
            break;
        case 8:
            tpp::this_thread::sleep_until(tpp::clock::now() + some_us(3000));
            break;
        case 9:
        {
            // blocks for good: only ends by exit notification
            tpp::promise<void> p;
            auto f = p.get_future();
            f.wait();
            break;
        }
        case 10:
        {
            tpp::condition_variable cv;
            std::mutex m;
            std::unique_lock<std::mutex> lock(m);
            cv.wait(lock);
            break;
        }
        case 11:
        {
            tpp::promise<int> p;
            auto f = p.get_future().share();
            f.wait_until(tpp::clock::now() + some_us(3000));
            break;
        }
    }
}

// A thread that keeps processing its tasks until notified for exit, created in
// one of the ways the library supports.
struct looper
{
    tpp::thread th;
    std::thread raw;
    tpp::thread::id id = 0;

    looper() = default;
    looper(looper&&) = default;
    looper& operator=(looper&&) = default;

    // how: 0 make_thread, 1 tpp::thread with own loop, 2 std::thread registered
    // by its creator, 3 std::thread registering itself
    static auto make(uint32_t how, uint32_t style, const std::string& name = "loop") -> looper
    {
        looper l;
        auto body = [style]()
        {
            tpp::this_thread::register_this_thread();
            while(!tpp::this_thread::notified_for_exit())
            {
                loop_once(style);
            }
            tpp::this_thread::unregister_this_thread();
        };
        switch(how)
        {
            default:
                l.th = tpp::make_thread(name);
                l.id = l.th.get_id();
                break;
            case 1:
                l.th = tpp::thread(name, body);
                l.id = l.th.get_id();
                break;
            case 2:
                l.raw = std::thread(
                    [body]()
                    {
                        sim::gate_wait(255);
                        body();
                    });
                l.id = tpp::register_thread(l.raw.get_id(), name);
                sim::gate_open(255);
                break;
            case 3:
            {
                auto p = std::make_shared<std::promise<tpp::thread::id>>();
                auto f = p->get_future();
                l.raw = std::thread(
                    [p, style]()
                    {
                        tpp::this_thread::register_this_thread("self");
                        p->set_value(tpp::this_thread::get_id());
                        while(!tpp::this_thread::notified_for_exit())
                        {
                            loop_once(style);
                        }
                        tpp::this_thread::unregister_this_thread();
                    });
                l.id = f.get();
                break;
            }
        }
        return l;
    }
    static auto any() -> looper
    {
        auto how = sim::wl(4);
        return make(how, how == 0 ? 0 : sim::wl(NUM_STYLES));
    }
    void stop()
    {
        if(th.joinable())
        {
            th.join();
        }
        if(raw.joinable())
        {
            tpp::notify_for_exit(id);
            raw.join();
        }
    }
    ~looper()
    {
        stop();
    }
};

// main thread helper: process own tasks until cond holds
template<typename C>
void pump_until(C cond)
{
    while(!cond())
    {
        tpp::this_thread::process();
        if(cond())
        {
            break;
        }
        tpp::this_thread::wait_for(200us);
    }
}
inline void drain_all()
{
    pump_until(
        []()
        {
            return sim::cell(C_OUT) == 0;
        });
}
