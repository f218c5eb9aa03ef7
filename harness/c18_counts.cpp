// C18: pending counts and processing depth describe the real backlog
#include "blocking.hpp"
#include "large.hpp"

namespace
{
constexpr int C_ACCEPTED = C_USER;     // tasks accepted for the observed thread
constexpr int C_FINISHED = C_USER + 1; // tasks of it that are over
constexpr int C_DEPTH = C_USER + 2;    // its nesting level
constexpr int C_BUDGET = C_USER + 3;
constexpr int C_BEGUN = C_USER + 4;
constexpr int C_TARGET = C_USER + 5;

using oops = user_error;

auto expected() -> int64_t
{
    return sim::cell(C_ACCEPTED) - sim::cell(C_FINISHED);
}
// on the observed thread itself, with nobody else sending: exact
void exact(const char* where)
{
    auto id = tpp::this_thread::get_id();
    auto depth = tpp::this_thread::get_depth();
    REQUIRE(int64_t(depth) == sim::cell(C_DEPTH), "wrong-depth", "%s: depth %u at nesting level %d", where, depth, int(sim::cell(C_DEPTH)));
    auto n = tpp::get_pending_task_count(id);
    REQUIRE(int64_t(n) == expected(), "wrong-count", "%s: %zu pending, %d accepted and not finished", where, n, int(expected()));
    auto d = tpp::get_pending_task_count_detailed(id);
    REQUIRE(d.count == n, "wrong-count", "%s: detailed count %zu, count %zu", where, d.count, n);
}

void program(int level);

struct level_up
{
    level_up()
    {
        sim::cell_add(C_DEPTH, 1);
    }
    ~level_up()
    {
        sim::cell_add(C_DEPTH, -1);
    }
};

void send(int level)
{
    if(sim::cell_add(C_BUDGET, -1) < 0)
    {
        return;
    }
    auto throws = sim::wlp(1, 5);
    if(tpp::invoke(tpp::this_thread::get_id(),
                   [level, throws]()
                   {
                       {
                           level_up l;
                           exact("start of a task");
                           program(level + 1);
                           exact("end of a task");
                       }
                       // from the return of this on it is finished
                       sim::cell_add(C_FINISHED, 1);
                       if(throws)
                       {
                           throw_user(0);
                       }
                   }))
    {
        sim::cell_add(C_ACCEPTED, 1);
    }
}

// what a task (or the thread itself) does: sends and processes in any nesting
void program(int level)
{
    auto steps = sim::wl(4);
    for(uint32_t i = 0; i < steps; ++i)
    {
        auto n = sim::wl(4);
        for(uint32_t k = 0; k < n; ++k)
        {
            send(level);
            exact("after a send");
        }
        try
        {
            switch(level < 6 ? sim::wl(6) : 0)
            {
                default:
                    break;
                case 1:
                    tpp::this_thread::process();
                    break;
                case 2:
                    tpp::this_thread::wait_for(5us);
                    break;
                case 3:
                    tpp::this_thread::process_for(50us);
                    break;
                case 4:
                    tpp::this_thread::sleep_for(10us);
                    break;
                case 5:
                {
                    // inline execution is no task of its own
                    tpp::dispatch(tpp::this_thread::get_id(), []() { exact("inside a dispatch"); });
                    break;
                }
            }
        }
        catch(const oops&)
        {
            sim::probe("task_threw");
        }
        exact("after processing");
    }
}
} // namespace

SCENARIO(c18_self, 5)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    sim::cell_set(C_BUDGET, 24);
    std::thread t(
        []()
        {
            tpp::this_thread::register_this_thread("counted");
            auto id = tpp::this_thread::get_id();
            REQUIRE(tpp::get_pending_task_count_detailed(id).thread_name == "counted", "wrong-name", "name of the thread");
            exact("begin");
            program(0);
            for(;;)
            {
                try
                {
                    tpp::this_thread::process();
                    break;
                }
                catch(const oops&)
                {
                    exact("after an exception");
                }
            }
            exact("all done");
            REQUIRE(expected() == 0, "task-left", "%d tasks left", int(expected()));
            tpp::this_thread::unregister_this_thread();
            REQUIRE(tpp::get_pending_task_count(id) == 0, "wrong-count", "count of an unregistered thread");
            REQUIRE(tpp::this_thread::get_depth() == 0, "wrong-depth", "depth of an unregistered thread");
        });
    t.join();
    REQUIRE(tpp::get_pending_task_count(0) == 0 && tpp::get_pending_task_count(987654) == 0, "wrong-count", "count of an unknown thread");
    if(sim::cell(C_FINISHED) > 1)
    {
        sim::nontrivial();
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// observed from outside while tasks are sent and executed
SCENARIO(c18_observed, 5)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        constexpr int MAX_NEST = 4;
        std::thread t(
            []()
            {
                tpp::this_thread::register_this_thread();
                sim::cell_set(C_TARGET, int64_t(tpp::this_thread::get_id()));
                sim::gate_open(1);
                while(!tpp::this_thread::notified_for_exit())
                {
                    try
                    {
                        tpp::this_thread::wait();
                    }
                    catch(const oops&)
                    {
                    }
                }
                tpp::this_thread::unregister_this_thread();
            });
        sim::gate_wait(1);
        auto id = tpp::thread::id(sim::cell(C_TARGET));
        auto senders = sim::wlr(1, 2);
        auto per = sim::wlr(1, 5);
        std::vector<std::thread> raw;
        for(uint32_t s = 0; s < senders; ++s)
        {
            raw.emplace_back(
                [id, per]()
                {
                    for(uint32_t i = 0; i < per; ++i)
                    {
                        auto kind = sim::wl(4);
                        sim::cell_add(C_BEGUN, 1);
                        tpp::invoke(id,
                                    [kind]()
                                    {
                                        if(kind == 1 && tpp::this_thread::get_depth() < MAX_NEST)
                                        {
                                            try
                                            {
                                                tpp::this_thread::wait_for(3us);
                                            }
                                            catch(const oops&)
                                            {
                                                sim::probe("nested_task_threw");
                                            }
                                        }
                                        sim::cell_add(C_FINISHED, 1);
                                        sim::gate_open(2);
                                        if(kind == 2)
                                        {
                                            throw_user(0);
                                        }
                                    });
                        sim::cell_add(C_ACCEPTED, 1);
                        if(kind == 3)
                        {
                            sim::yield_point();
                        }
                    }
                });
        }
        auto queries = sim::wlr(1, 6);
        for(uint32_t q = 0; q < queries; ++q)
        {
            auto acc0 = sim::cell(C_ACCEPTED);
            auto fin0 = sim::cell(C_FINISHED);
            auto n = int64_t(tpp::get_pending_task_count(id));
            auto fin1 = sim::cell(C_FINISHED);
            auto begun1 = sim::cell(C_BEGUN);
            // accepted before and not finished after: all of these are counted
            REQUIRE(n >= acc0 - fin1, "under-report", "%d counted, at least %d were pending all the time", int(n), int(acc0 - fin1));
            // a task counts until its call has completely returned
            REQUIRE(n <= begun1 - fin0 + MAX_NEST + 1, "over-report", "%d counted, at most %d can be pending", int(n),
                    int(begun1 - fin0 + MAX_NEST + 1));
            if(n > 0)
            {
                sim::nontrivial();
            }
            if(sim::wlp(1, 3))
            {
                sim::yield_point();
            }
        }
        for(auto& r : raw)
        {
            r.join();
        }
        sim::gate_wait(2, int64_t(senders * per));
        // quiet: nothing is pending any more
        sim::set_fault_mask(0);
        sim::block_for(1000000000ull);
        auto n = tpp::get_pending_task_count(id);
        REQUIRE(n == 0, "over-report", "%zu tasks counted for an idle thread", n);
        tpp::notify_for_exit(id);
        t.join();
        REQUIRE(tpp::get_pending_task_count(id) == 0, "wrong-count", "count of an unregistered thread");
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// a thread held inside nested tasks with a known backlog
SCENARIO(c18_backlog, 3)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        auto th = looper::make(sim::wl(4), 0);
        auto id = th.id;
        auto nest = int(sim::wlr(1, 4));
        auto backlog = int(sim::wl(20));
        // each but the innermost of them waits inside for the next
        for(int i = 0; i < nest; ++i)
        {
            tpp::invoke(id,
                        [i, nest]()
                        {
                            REQUIRE(int(tpp::this_thread::get_depth()) == i + 1, "wrong-depth", "depth %u at nesting level %d",
                                    tpp::this_thread::get_depth(), i + 1);
                            sim::gate_open(1);
                            if(i + 1 < nest)
                            {
                                tpp::this_thread::wait();
                                REQUIRE(int(tpp::this_thread::get_depth()) == i + 1, "wrong-depth",
                                        "depth %u after a nested task at nesting level %d", tpp::this_thread::get_depth(), i + 1);
                            }
                            else
                            {
                                sim::gate_wait(2);
                            }
                        });
        }
        sim::gate_wait(1, nest);
        std::vector<std::thread> raw;
        auto split = sim::wl(uint32_t(backlog) + 1);
        raw.emplace_back(
            [id, split]()
            {
                for(uint32_t i = 0; i < split; ++i)
                {
                    tpp::invoke(id, []() { sim::gate_open(3); });
                }
            });
        for(int i = int(split); i < backlog; ++i)
        {
            tpp::invoke(id, []() { sim::gate_open(3); });
        }
        raw[0].join();
        auto n = int(tpp::get_pending_task_count(id));
        REQUIRE(n == nest + backlog, "wrong-count", "%d counted with %d tasks executing and %d queued", n, nest, backlog);
        sim::gate_open(2);
        sim::gate_wait(3, backlog);
        sim::block_for(1000000000ull);
        n = int(tpp::get_pending_task_count(id));
        REQUIRE(n == 0, "wrong-count", "%d counted for an idle thread", n);
        sim::nontrivial();
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

SCENARIO(c18_large, 1)
{
    large::counts();
}
