// C02: tasks of one thread start in the order in which they were sent
#include "common.hpp"
#include "large.hpp"

namespace
{
using ids_t = std::vector<tpp::thread::id>;
enum : int
{
    E_CALL = E_USER + 1 // a task id, b target: the send was called
};

void send(const ids_t& ids, size_t which, int depth);

void inside(const ids_t& ids, int depth)
{
    if(depth <= 0)
    {
        return;
    }
    auto n = sim::wl(3);
    for(uint32_t i = 0; i < n; ++i)
    {
        send(ids, sim::wl(uint32_t(ids.size())), depth - 1);
    }
    switch(sim::wl(9))
    {
        case 1:
            tpp::this_thread::process();
            break;
        case 2:
            tpp::this_thread::wait_for(std::chrono::microseconds(sim::wl(300)));
            break;
        case 3:
            tpp::this_thread::process_for(std::chrono::microseconds(sim::wl(300)));
            break;
        case 4:
            tpp::this_thread::sleep_for(std::chrono::microseconds(sim::wl(60)));
            break;
        case 5:
        {
            tpp::promise<int> p;
            p.get_future().wait_for(std::chrono::microseconds(sim::wl(60)));
            break;
        }
        case 6:
        {
            tpp::condition_variable cv;
            std::mutex m;
            std::unique_lock<std::mutex> l(m);
            cv.wait_for(l, std::chrono::microseconds(sim::wl(60)));
            break;
        }
        case 7:
            tpp::set_thread_config(tpp::this_thread::get_id(), small_capacity());
            tpp::this_thread::process();
            break;
        default:
            break;
    }
}

void send(const ids_t& ids, size_t which, int depth)
{
    if(!can_submit())
    {
        return;
    }
    auto target = ids[which];
    int id = new_task();
    sim::cell_add(C_OUT, 1);
    sim::ev(E_CALL, id, int64_t(target));
    bool ok = true;
    auto fn = tracked(id, [ids, depth]() { inside(ids, depth); });
    switch(sim::wl(4))
    {
        default:
            ok = tpp::invoke(target, std::move(fn));
            break;
        case 1:
            if(tpp::this_thread::get_id() == target)
            {
                ok = tpp::invoke(target, std::move(fn));
            }
            else
            {
                ok = tpp::dispatch(target, std::move(fn));
            }
            break;
        case 2:
            // a queued asynchronous call is a send, too
            tpp::async(target, std::launch::async, std::move(fn));
            break;
    }
    REQUIRE(ok, "task-refused", "send %d refused", id);
    sim::ev(E_SUBMIT, id, int64_t(target), 1);
}

void check_order()
{
    // per target: in start order, no earlier-started task may have been called
    // after this one's send had returned
    auto n = task_count();
    std::vector<uint64_t> call(size_t(n), 0), ret(size_t(n), 0);
    std::vector<int64_t> target(size_t(n), 0);
    struct last
    {
        int64_t target;
        uint64_t maxcall;
        int task;
        int started;
    };
    std::vector<last> per;
    bool contended = false;
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind == E_CALL)
        {
            call[size_t(e.a)] = e.seq;
            target[size_t(e.a)] = e.b;
        }
        else if(e.kind == E_SUBMIT)
        {
            ret[size_t(e.a)] = e.seq;
        }
    }
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind != E_START)
        {
            continue;
        }
        auto id = size_t(e.a);
        REQUIRE(e.b == target[id], "wrong-thread", "task %d ran on the wrong thread", int(id));
        last* l = nullptr;
        for(auto& x : per)
        {
            if(x.target == target[id])
            {
                l = &x;
            }
        }
        if(!l)
        {
            per.push_back({target[id], 0, -1, 0});
            l = &per.back();
        }
        REQUIRE(!(l->task >= 0 && ret[id] != 0 && ret[id] < l->maxcall), "out-of-order",
                "task %d was sent before the send of task %d was called, but started after it", int(id), l->task);
        if(call[id] > l->maxcall)
        {
            l->maxcall = call[id];
            l->task = int(id);
        }
        if(++l->started > 1)
        {
            contended = true;
        }
    }
    auto r = collect(n);
    for(int i = 0; i < n; ++i)
    {
        REQUIRE(r[size_t(i)].started == 1, "task-lost", "task %d started %d times", i, r[size_t(i)].started);
    }
    if(contended)
    {
        sim::nontrivial();
    }
}

void run(uint32_t max_sends, bool with_main)
{
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        std::vector<looper> loops;
        ids_t ids;
        auto n = sim::wlr(1, 2);
        for(uint32_t i = 0; i < n; ++i)
        {
            loops.emplace_back(looper::any());
            ids.push_back(loops.back().id);
        }
        if(with_main && sim::wlp(1, 2))
        {
            ids.push_back(tpp::main_thread::get_id());
        }
        auto producers = sim::wlr(1, 3);
        std::vector<std::thread> raw;
        for(uint32_t p = 1; p < producers; ++p)
        {
            raw.emplace_back(
                [ids, max_sends]()
                {
                    auto m = sim::wlr(1, max_sends);
                    for(uint32_t i = 0; i < m; ++i)
                    {
                        send(ids, sim::wl(uint32_t(ids.size())), int(sim::wl(3)));
                    }
                });
        }
        auto m = sim::wlr(1, max_sends);
        for(uint32_t i = 0; i < m; ++i)
        {
            send(ids, sim::wl(uint32_t(ids.size())), int(sim::wl(3)));
            if(sim::wlp(1, 8))
            {
                tpp::set_thread_config(ids[sim::wl(uint32_t(ids.size()))], small_capacity());
            }
            if(sim::wlp(1, 6))
            {
                tpp::this_thread::process();
            }
        }
        for(auto& t : raw)
        {
            t.join();
        }
        drain_all();
    }
    auto left = shutdown_ok();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    check_order();
}
} // namespace

SCENARIO(c02_fifo, 6)
{
    run(8, true);
}
SCENARIO(c02_burst, 2)
{
    run(40, true);
}
// more tasks than the default shrink threshold
SCENARIO(c02_big_burst, 1)
{
    tpp::init();
    if(sim::wlp(1, 100))
    {
        large::flood(65530 + sim::wl(12));
        shutdown_ok();
        return;
    }
    {
        auto l = looper::any();
        ids_t ids{l.id};
        auto rounds = sim::wlr(1, 2);
        for(uint32_t r = 0; r < rounds; ++r)
        {
            auto m = sim::wlr(200, 300);
            // keep the target busy so that the queue really grows
            tpp::invoke(l.id, []() { sim::gate_wait(1, 1); });
            for(uint32_t i = 0; i < m; ++i)
            {
                send(ids, 0, i % 64 == 0 ? 1 : 0);
            }
            sim::gate_open(1);
            drain_all();
        }
    }
    shutdown_ok();
    check_order();
}
