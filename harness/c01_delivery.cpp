// C01: every accepted task runs exactly once, on the thread it was sent to
#include "common.hpp"
#include "slow.hpp"
#include "large.hpp"

namespace
{
using ids_t = std::vector<tpp::thread::id>;

void submit(tpp::thread::id target, int depth, const ids_t& targets);

void nested(int depth, const ids_t& targets)
{
    if(depth <= 0)
    {
        return;
    }
    auto n = sim::wl(3);
    for(uint32_t i = 0; i < n; ++i)
    {
        submit(targets[sim::wl(uint32_t(targets.size()))], depth - 1, targets);
    }
    switch(sim::wl(7))
    {
        case 1:
            tpp::this_thread::process();
            break;
        case 2:
            tpp::this_thread::wait_for(std::chrono::microseconds(sim::wl(400)));
            break;
        case 3:
            tpp::this_thread::process_for(std::chrono::microseconds(sim::wl(400)));
            break;
        case 4:
            tpp::this_thread::sleep_for(std::chrono::microseconds(sim::wl(100)));
            break;
        default:
            break;
    }
}

// argument object whose value must arrive unchanged; moved-from is detectable
struct arg
{
    std::unique_ptr<int> v;
    explicit arg(int i) : v(new int(i))
    {
    }
    arg(arg&&) = default;
    arg(const arg& o) : v(new int(*o.v))
    {
    }
};

void submit(tpp::thread::id target, int depth, const ids_t& targets)
{
    if(!can_submit())
    {
        return;
    }
    int id = new_task();
    bool ok;
    bool self = tpp::this_thread::get_id() == target;
    auto before = sim::history_size();
    sim::cell_add(C_OUT, 1);
    bool disp = false;
    switch(sim::wl(6))
    {
        default:
            ok = tpp::invoke(target, tracked(id, [depth, targets]() { nested(depth, targets); }));
            break;
        case 1:
            disp = true;
            ok = tpp::dispatch(target, tracked(id, [depth, targets]() { nested(depth, targets); }));
            break;
        case 2:
        {
            // arguments by move, lvalue copy and value
            arg a(id), b(id + 1);
            auto fn = tracked(id,
                              [depth, targets, id](arg&& x, const arg& y, int z, const std::string& s)
                              {
                                  REQUIRE(x.v && *x.v == id && y.v && *y.v == id + 1 && z == id + 2 &&
                                              s == std::to_string(id),
                                          "wrong-arguments", "task %d got other arguments than those passed", id);
                                  arg keep(std::move(x));
                                  nested(depth, targets);
                              });
            ok = tpp::invoke(target, std::move(fn), std::move(a), b, id + 2, std::to_string(id));
            REQUIRE(b.v && *b.v == id + 1, "argument-changed", "lvalue argument of task %d was changed", id);
            break;
        }
        case 3:
        {
            // an lvalue callable: the caller's object must stay intact
            auto payload = std::make_shared<int>(id);
            auto t = std::make_shared<tok>(id);
            auto fn = [payload, t, id, depth, targets]()
            {
                sim::ev(E_START, id, int64_t(tpp::this_thread::get_id()));
                REQUIRE(*payload == id, "wrong-arguments", "captured state of task %d damaged", id);
                nested(depth, targets);
                sim::ev(E_END, id);
                sim::cell_add(C_OUT, -1);
            };
            t.reset();
            disp = sim::wlp(1, 2);
            ok = disp ? tpp::dispatch(target, fn) : tpp::invoke(target, fn);
            break;
        }
        case 4:
        {
            // a pre-built task object
            auto shared = std::make_shared<tok>(id);
            tpp::task fn = [shared, id, depth, targets]()
            {
                sim::ev(E_START, id, int64_t(tpp::this_thread::get_id()));
                nested(depth, targets);
                sim::ev(E_END, id);
                sim::cell_add(C_OUT, -1);
            };
            shared.reset();
            ok = tpp::invoke(target, std::move(fn));
            break;
        }
    }
    if(disp && self)
    {
        bool ran = false;
        for(size_t i = before; i < sim::history_size(); ++i)
        {
            const auto& e = sim::history_at(i);
            ran |= e.kind == E_END && e.a == id;
        }
        REQUIRE(ran && ok, "dispatch-to-self-not-run", "dispatch %d to the calling thread returned before running it", id);
        sim::probe("dispatch_to_self");
    }
    sim::ev(E_SUBMIT, id, int64_t(target), ok ? 1 : 0);
    if(!ok)
    {
        sim::cell_add(C_OUT, -1);
    }
}

void check_all(bool drained, bool none_rejected = false)
{
    auto n = task_count();
    auto r = collect(n);
    bool remote = false;
    for(int i = 0; i < n; ++i)
    {
        const auto& t = r[size_t(i)];
        REQUIRE(t.started <= 1, "task-ran-twice", "task %d started %d times", i, t.started);
        REQUIRE(t.ended == t.started, "task-not-finished", "task %d started %d ended %d", i, t.started, t.ended);
        if(t.started)
        {
            REQUIRE(t.tid == t.target, "wrong-thread", "task %d for thread %ld ran on %ld", i, long(t.target), long(t.tid));
            remote = true;
        }
        if(none_rejected)
        {
            REQUIRE(t.accepted, "task-refused", "task %d for a registered thread was refused", i);
        }
        if(t.accepted && drained)
        {
            REQUIRE(t.started == 1, "task-lost", "accepted task %d never ran", i);
        }
        if(!t.accepted)
        {
            REQUIRE(t.started == 0, "rejected-task-ran", "task %d was rejected but ran", i);
        }
        REQUIRE(t.destroyed == 1, "callable-lifetime", "callable %d destroyed %d times", i, t.destroyed);
        if(t.started)
        {
            REQUIRE(t.s_destroy > t.s_end, "callable-destroyed-early", "callable %d destroyed while running", i);
        }
    }
    if(remote)
    {
        sim::nontrivial();
    }
}

void run(bool bogus)
{
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        std::vector<looper> loops;
        ids_t ids;
        auto n = sim::wlr(1, 3);
        for(uint32_t i = 0; i < n; ++i)
        {
            loops.emplace_back(looper::any());
            ids.push_back(loops.back().id);
            if(sim::wlp(1, 5))
            {
                REQUIRE(tpp::set_thread_config(ids.back(), small_capacity()), "task-refused", "configuration refused");
            }
        }
        ids.push_back(tpp::main_thread::get_id());
        if(bogus)
        {
            // ids that name nobody: never used, invalid, already gone
            auto gone = looper::any();
            ids.push_back(gone.id);
            gone.stop();
            ids.push_back(tpp::invalid_id());
            ids.push_back(987654);
        }
        auto producers = sim::wl(3);
        std::vector<std::thread> raw;
        for(uint32_t p = 0; p < producers; ++p)
        {
            raw.emplace_back(
                [ids, p, bogus]()
                {
                    if(p == 1)
                    {
                        tpp::this_thread::register_this_thread();
                    }
                    auto m = sim::wlr(1, 6);
                    for(uint32_t i = 0; i < m; ++i)
                    {
                        auto to = ids[sim::wl(uint32_t(ids.size()))];
                        if(bogus && p != 1 && to == tpp::invalid_id())
                        {
                            continue; // an unregistered thread dispatching to "nobody" addresses itself
                        }
                        submit(to, int(sim::wl(3)), ids);
                    }
                    if(p == 1)
                    {
                        tpp::this_thread::unregister_this_thread();
                    }
                });
        }
        auto m = sim::wlr(1, 8);
        for(uint32_t i = 0; i < m; ++i)
        {
            submit(ids[sim::wl(uint32_t(ids.size()))], int(sim::wl(3)), ids);
            if(sim::wlp(1, 6))
            {
                tpp::this_thread::process();
            }
        }
        for(auto& t : raw)
        {
            t.join();
        }
        // drain: everything accepted must run while the targets keep processing
        drain_all();
    }
    auto left = shutdown_ok();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    check_all(true, !bogus);
}
} // namespace

// several producers submit to several looping threads and to each other
SCENARIO(c01_delivery, 4)
{
    run(false);
}
// the same with targets that do not exist (any more)
SCENARIO(c01_rejected, 2)
{
    run(true);
}
// bursts larger than the queue capacity towards one thread, which is also
// processing from inside its tasks
SCENARIO(c01_burst, 2)
{
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        auto l = looper::any();
        ids_t ids{l.id};
        auto producers = sim::wlr(1, 3);
        std::vector<std::thread> raw;
        for(uint32_t p = 0; p < producers; ++p)
        {
            raw.emplace_back(
                [ids]()
                {
                    auto m = sim::wlr(1, 12);
                    for(uint32_t i = 0; i < m; ++i)
                    {
                        submit(ids[0], int(sim::wl(2)), ids);
                    }
                });
        }
        for(auto& t : raw)
        {
            t.join();
        }
        drain_all();
    }
    auto left = shutdown_ok();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    check_all(true, true);
}

// after a long silence
SCENARIO(c01_slow, 1)
{
    slow_init();
    {
        park_env env;
        auto kind = sim::wl(PK_POOL_WAIT);
        auto t = tpp::thread(
            [kind, &env]()
            {
                tpp::this_thread::register_this_thread();
                while(!tpp::this_thread::notified_for_exit())
                {
                    REQUIRE(!park(kind, env), "wrong-result", "blocking call %s returned a wrong result", park_name(kind));
                }
                tpp::this_thread::unregister_this_thread();
            });
        auto id = t.get_id();
        auto n = sim::wlr(1, 2);
        for(uint32_t i = 0; i < n; ++i)
        {
            gap();
            auto t0 = sim::now();
            REQUIRE(tpp::invoke(id, []() { sim::gate_open(1); }), "rejected", "a live thread refused the task");
            sim::gate_wait(1, int64_t(i) + 1);
            prompt(t0, "the task ran");
        }
        auto t0 = sim::now();
        t.join();
        prompt(t0, "the thread ended");
    }
    slow_end("c01");
}

SCENARIO(c01_large, 1)
{
    large::delivery();
}

// a thread's own dispatch is executed at once, however deep
SCENARIO(c01_deep, 1)
{
    large::at_every_depth(
        [](tpp::thread::id me, uint32_t depth)
        {
            bool ran = false;
            auto ok = tpp::dispatch(me, [&ran]() { ran = true; });
            REQUIRE(ok && ran, "not-inline", "a dispatch to the own thread was not executed at depth %u", depth);
        });
}
