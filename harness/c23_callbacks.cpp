// C23: thread names and the callbacks given to init
#include "common.hpp"
#include <map>

namespace
{
constexpr int MAXN = 64;                   // names in use
constexpr int C_NAMED = C_USER;            // per name: set_thread_name calls
constexpr int C_STARTED = C_USER + 100;    // per name: on_thread_start calls
constexpr int C_TASKS = C_USER + 200;      // per name: tasks started
constexpr int C_WHO = C_USER + 300;        // per name: simulated thread + 1
constexpr int C_DEEP = C_USER + 400;       // per simulated thread: inside a callback
constexpr int C_NAME_NEXT = C_USER + 500;  // next name
constexpr int C_OPEN = C_USER + 501;       // callbacks may be called
constexpr int C_LOGS = C_USER + 502;
constexpr int C_LOGGER = C_USER + 503;     // thread the log is sent to
constexpr int C_FOREIGN = C_USER + 504;    // calls of callbacks never in force
constexpr int C_TOKENS = C_USER + 505;     // callbacks alive
constexpr int C_REPORTS = C_USER + 507;    // there is an error log
constexpr int C_MISUSE = C_USER + 520;     // per simulated thread: errors logged
constexpr int C_MAX = C_USER + 506;

auto name_of(int i) -> std::string
{
    // of all lengths
    if(i % 4 == 3)
    {
        return std::string(1, char('A' + i / 4));
    }
    return "name" + std::to_string(i) + std::string(i % 3 == 1 ? 12 : i % 3 == 2 ? 250 : 0, '-');
}
auto index_of(const std::string& s) -> int
{
    if(s.size() == 1 && s[0] >= 'A' && s[0] < 'A' + MAXN / 4)
    {
        return (s[0] - 'A') * 4 + 3;
    }
    return s.rfind("name", 0) == 0 ? std::atoi(s.c_str() + 4) : -1;
}

// a callback is not called for what it does itself
struct inside
{
    int cell = C_DEEP + sim::self();
    bool first = sim::cell_add(cell, 1) == 1;
    ~inside()
    {
        sim::cell_add(cell, -1);
    }
};

// what the callbacks own: using the library when it goes away
struct owned
{
    bool calls;
    explicit owned(bool c) : calls(c)
    {
        sim::cell_add(C_TOKENS, 1);
    }
    owned(const owned& o) : calls(o.calls)
    {
        sim::cell_add(C_TOKENS, 1);
    }
    owned& operator=(const owned&) = delete;
    ~owned()
    {
        inside in;
        if(calls && in.first)
        {
            (void)tpp::get_all_registered_threads();
            (void)tpp::this_thread::get_id();
        }
        sim::cell_add(C_TOKENS, -1);
    }
};

void check_open()
{
    REQUIRE(sim::cell(C_OPEN) != 0, "called-after-shutdown", "a callback was called for a call made after the final shutdown");
}

void use_library(uint32_t how)
{
    switch(how)
    {
        default:
            break;
        case 1:
            (void)tpp::get_all_registered_threads();
            break;
        case 2:
            (void)tpp::get_pending_task_count(tpp::this_thread::get_id());
            break;
        case 3:
            (void)tpp::invoke(tpp::main_thread::get_id(), []() {});
            break;
        case 4:
            tpp::notify(tpp::this_thread::get_id());
            break;
        case 5:
        {
            tpp::promise<int> p;
            auto f = p.get_future().then([](tpp::future<int> x) { return x.get(); });
            p.set_value(1);
            break;
        }
    }
}

void log_line(const std::string& text)
{
    check_open();
    REQUIRE(!text.empty(), "empty-log", "an empty line was logged");
    inside in;
    if(!in.first)
    {
        return;
    }
    sim::cell_add(C_LOGS, 1);
    auto logger = tpp::thread::id(sim::cell(C_LOGGER));
    if(logger)
    {
        // the usual log sink: a thread of its own
        (void)tpp::invoke(logger, [text]() { sim::yield_point(); });
    }
    use_library(sim::wl(5));
}

void run_named(int i)
{
    sim::cell_add(C_TASKS + i, 1);
    REQUIRE(sim::cell(C_WHO + i) == sim::self() + 1, "wrong-thread", "a task for thread %d ran elsewhere", i);
    REQUIRE(sim::cell(C_STARTED + i) == 1, "task-before-start", "a task ran before the start callback of its thread had been called");
}

auto callbacks() -> tpp::init_data
{
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    owned o(sim::wlp(1, 3));
    if(!sim::wlp(1, 4))
    {
        d.log_info = [o](const std::string& s) { log_line(s); };
    }
    if(!sim::wlp(1, 4))
    {
        d.log_error = [o](const std::string& s)
        {
            sim::cell_add(C_MISUSE + sim::self(), 1);
            log_line(s);
        };
        sim::cell_set(C_REPORTS, 1);
    }
    d.set_thread_name = [o](const std::string& s)
    {
        check_open();
        auto i = index_of(s);
        if(i < 0)
        {
            return; // not one of ours (pool workers)
        }
        REQUIRE(s == name_of(i), "wrong-name", "thread %d was named %s", i, s.c_str());
        REQUIRE(sim::cell_add(C_NAMED + i, 1) == 1, "named-twice", "thread %d was named twice", i);
        REQUIRE(sim::cell(C_STARTED + i) == 0, "start-before-name", "thread %d was started before it was named", i);
        sim::cell_set(C_WHO + i, sim::self() + 1);
    };
    d.on_thread_start = [o](const std::string& s)
    {
        check_open();
        auto i = index_of(s);
        if(i < 0)
        {
            return;
        }
        REQUIRE(s == name_of(i), "wrong-name", "the start of thread %d was reported as %s", i, s.c_str());
        REQUIRE(sim::cell_add(C_STARTED + i, 1) == 1, "started-twice", "the start of thread %d was reported twice", i);
        REQUIRE(sim::cell(C_NAMED + i) == 1 && sim::cell(C_WHO + i) == sim::self() + 1, "start-before-name",
                "the start of thread %d was reported before its name or on another thread", i);
        REQUIRE(sim::cell(C_TASKS + i) == 0, "task-before-start", "thread %d executed a task before its start", i);
        REQUIRE(tpp::this_thread::is_registered(), "start-unregistered", "thread %d was not registered at its start", i);
        auto me = tpp::this_thread::get_id();
        REQUIRE(tpp::get_pending_task_count_detailed(me).thread_name == s, "wrong-name", "thread %d has another name", i);
        inside in;
        use_library(sim::wl(6));
        if(sim::wlp(1, 2))
        {
            REQUIRE(tpp::invoke(me, [i]() { run_named(i); }), "rejected", "a registered thread refused a task");
        }
    };
    return d;
}
auto foreign() -> tpp::init_data
{
    tpp::init_data d;
    auto cb = [](const std::string&) { sim::cell_add(C_FOREIGN, 1); };
    d.log_info = cb;
    d.log_error = cb;
    d.set_thread_name = cb;
    d.on_thread_start = cb;
    return d;
}

auto new_name() -> int
{
    auto i = int(sim::cell_add(C_NAME_NEXT, 1)) - 1;
    return i < MAXN ? i : -1;
}

void make_and_use(int depth)
{
    auto i = new_name();
    if(i < 0)
    {
        return;
    }
    tpp::thread t;
    tpp::shared_thread st;
    tpp::thread::id id;
    if(sim::wlp(1, 2))
    {
        t = tpp::make_thread(name_of(i));
        id = t.get_id();
    }
    else
    {
        st = tpp::make_shared_thread(name_of(i));
        id = st->get_id();
    }
    auto n = sim::wl(4);
    uint32_t sent = 0;
    for(uint32_t k = 0; k < n; ++k)
    {
        sent += tpp::invoke(id, [i]() { run_named(i); });
    }
    auto info = tpp::get_pending_task_count_detailed(id);
    REQUIRE(info.thread_name == name_of(i), "wrong-name", "thread %d is called %s", i, info.thread_name.c_str());
    if(depth > 0 && sim::wlp(1, 3))
    {
        make_and_use(depth - 1);
    }
    if(sim::wlp(1, 2) && tpp::this_thread::is_registered())
    {
        auto f = tpp::async(id, []() { return 3; });
        REQUIRE(f.get() == 3, "wrong-result", "wrong result");
    }
    // joined on the way out
    if(st)
    {
        st.reset();
    }
    else
    {
        t.join();
    }
    REQUIRE(sim::cell(C_NAMED + i) == 1 && sim::cell(C_STARTED + i) == 1, "not-announced",
            "thread %d was named %ld times and its start reported %ld times", i, long(sim::cell(C_NAMED + i)),
            long(sim::cell(C_STARTED + i)));
    REQUIRE(tpp::get_pending_task_count_detailed(id).thread_name.empty(), "wrong-name", "an ended thread still has a name");
    sim::nontrivial();
}

void unnamed()
{
    // nothing to announce, but known by its number
    auto t = tpp::make_thread();
    auto info = tpp::get_pending_task_count_detailed(t.get_id());
    REQUIRE(info.thread_name == std::to_string(t.get_id()), "wrong-name", "an unnamed thread is called %s", info.thread_name.c_str());
}

void self_named()
{
    static const uint32_t lengths[] = {4, 0, 1, 2, 15, 16, 17, 300};
    auto given = std::string(lengths[sim::wl(8)], 'm');
    std::thread t(
        [given]()
        {
            tpp::this_thread::register_this_thread(given);
            auto id = tpp::this_thread::get_id();
            auto info = tpp::get_pending_task_count_detailed(id);
            REQUIRE(info.thread_name == (given.empty() ? std::to_string(id) : given), "wrong-name",
                    "a thread that registered itself is called %s", info.thread_name.c_str());
            // registering again is no new name
            tpp::this_thread::register_this_thread("other");
            REQUIRE(tpp::get_pending_task_count_detailed(id).thread_name == info.thread_name, "wrong-name",
                    "registering again changed the name");
            tpp::this_thread::unregister_this_thread();
        });
    t.join();
}

void pool_user()
{
    tpp::thread_pool pool({{tpp::priority::category::normal, 1}, {tpp::priority::category::high, 1}});
    auto f = pool.schedule([]() { return 4; });
    REQUIRE(f.get() == 4, "wrong-result", "wrong result");
}

void stranger()
{
    // not registered: every one of these calls has something to log
    (void)tpp::this_thread::get_id();
    (void)tpp::this_thread::notified_for_exit();
    (void)tpp::invoke(tpp::invalid_id(), []() {});
    tpp::this_thread::process();
    tpp::this_thread::process_for(1us);
    tpp::this_thread::wait();
    (void)tpp::this_thread::wait_for(1us);
    (void)tpp::this_thread::wait_until(tpp::clock::now() + 1us);
    (void)tpp::this_thread::get_depth();
    tpp::this_thread::sleep_for(1us);
    (void)tpp::get_pending_task_count(tpp::invalid_id());
    (void)tpp::set_thread_config(tpp::invalid_id(), {});
    tpp::this_thread::unregister_this_thread();
}

void period()
{
    sim::cell_set(C_OPEN, 1);
    sim::cell_set(C_REPORTS, 0);
    tpp::init(callbacks());
    auto me = tpp::this_thread::get_id();
    REQUIRE(tpp::main_thread::get_id() == me, "wrong-main", "init did not make its caller the main thread");
    REQUIRE(tpp::get_pending_task_count_detailed(me).thread_name.empty() == false, "wrong-name", "the main thread has no name");
    bool inner = sim::wlp(1, 2);
    if(inner)
    {
        // not the first init: its callbacks are not used
        tpp::init(foreign());
    }
    {
        tpp::thread logger;
        if(!sim::wlp(1, 3))
        {
            logger = tpp::make_thread();
            sim::cell_set(C_LOGGER, int64_t(logger.get_id()));
        }
        std::vector<std::thread> users;
        auto n = sim::wlr(1, 3);
        for(uint32_t u = 0; u < n; ++u)
        {
            users.emplace_back(
                []()
                {
                    auto ops = sim::wlr(1, 2);
                    bool reg = sim::wlp(1, 2);
                    if(reg)
                    {
                        tpp::this_thread::register_this_thread();
                    }
                    for(uint32_t k = 0; k < ops; ++k)
                    {
                        switch(sim::wl(6))
                        {
                            default:
                                make_and_use(1);
                                break;
                            case 1:
                                unnamed();
                                break;
                            case 2:
                                self_named();
                                break;
                            case 3:
                                if(reg)
                                {
                                    pool_user();
                                }
                                break;
                            case 4:
                                if(!reg)
                                {
                                    auto before = sim::cell(C_MISUSE + sim::self());
                                    stranger();
                                    REQUIRE(!sim::cell(C_REPORTS) || sim::cell(C_MISUSE + sim::self()) > before, "not-reported",
                                            "misuse by an unregistered thread was not logged");
                                }
                                break;
                            case 5:
                                tpp::init(foreign());
                                REQUIRE(tpp::shutdown() < 0, "inner-shutdown", "an inner shutdown succeeded");
                                break;
                        }
                    }
                    if(reg)
                    {
                        tpp::this_thread::unregister_this_thread();
                    }
                });
        }
        if(sim::wlp(1, 2))
        {
            make_and_use(0);
        }
        for(auto& u : users)
        {
            u.join();
        }
        tpp::this_thread::process();
        if(sim::wlp(1, 2))
        {
            // still running when shutdown begins
            if(inner)
            {
                REQUIRE(tpp::shutdown() < 0, "inner-shutdown", "an inner shutdown succeeded");
            }
            sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
            auto r = tpp::shutdown(std::chrono::seconds(30));
            REQUIRE(r == 0, "shutdown", "shutdown returned %d", r);
            inner = false;
            sim::cell_set(C_OPEN, 0);
        }
    }
    if(sim::cell(C_OPEN))
    {
        sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
        if(inner)
        {
            REQUIRE(tpp::shutdown() < 0, "inner-shutdown", "an inner shutdown succeeded");
        }
        auto r = tpp::shutdown(std::chrono::seconds(30));
        REQUIRE(r == 0, "shutdown", "shutdown returned %d", r);
    }
    sim::cell_set(C_OPEN, 0);
    sim::cell_set(C_LOGGER, 0);
    stranger();
    REQUIRE(tpp::shutdown() < 0, "unmatched-shutdown", "an unmatched shutdown succeeded");
    REQUIRE(sim::cell(C_FOREIGN) == 0, "foreign-callback", "callbacks of an inner init were called");
    REQUIRE(sim::cell(C_TOKENS) == 0, "callbacks-kept", "%ld callbacks were kept after the shutdown", long(sim::cell(C_TOKENS)));
    REQUIRE(!tpp::this_thread::is_registered(), "still-registered", "the main thread is still registered");
}
} // namespace

SCENARIO(c23_callbacks, 8)
{
    auto rounds = sim::wlr(1, 2);
    for(uint32_t r = 0; r < rounds; ++r)
    {
        period();
    }
}

// threads that were there before init
SCENARIO(c23_early, 2)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    std::vector<std::thread> early;
    auto n = sim::wlr(1, 3);
    for(uint32_t i = 0; i < n; ++i)
    {
        early.emplace_back(
            []()
            {
                if(sim::wlp(1, 2))
                {
                    tpp::this_thread::register_this_thread("early");
                }
                auto ops = sim::wlr(1, 3);
                for(uint32_t k = 0; k < ops; ++k)
                {
                    auto m = tpp::main_thread::get_id();
                    if(m != tpp::invalid_id())
                    {
                        sim::nontrivial();
                        auto seen = sim::cell(C_MAX);
                        REQUIRE(seen == 0 || seen == int64_t(m), "wrong-main", "the main thread changed");
                        sim::cell_set(C_MAX, int64_t(m));
                    }
                    if(sim::wlp(1, 2) && !tpp::this_thread::is_registered())
                    {
                        stranger();
                    }
                    tpp::make_thread("w").join();
                }
                if(tpp::this_thread::is_registered())
                {
                    tpp::this_thread::unregister_this_thread();
                }
            });
    }
    sim::cell_set(C_OPEN, 1);
    tpp::init(callbacks());
    auto me = tpp::this_thread::get_id();
    REQUIRE(tpp::main_thread::get_id() == me, "wrong-main", "init did not make its caller the main thread");
    for(auto& t : early)
    {
        t.join();
    }
    REQUIRE(sim::cell(C_MAX) == 0 || sim::cell(C_MAX) == int64_t(me), "wrong-main", "another thread was named the main thread");
    auto r = tpp::shutdown(std::chrono::seconds(30));
    REQUIRE(r == 0, "shutdown", "shutdown returned %d", r);
    REQUIRE(sim::cell(C_TOKENS) == 0, "callbacks-kept", "%ld callbacks were kept after the shutdown", long(sim::cell(C_TOKENS)));
}

// a shutdown that gives up on some threads ends the period as well
SCENARIO(c23_timeout, 2)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    auto rounds = int(sim::wlr(1, 2));
    for(int r = 0; r < rounds; ++r)
    {
        sim::cell_set(C_OPEN, 1);
        sim::cell_set(C_REPORTS, 0);
        tpp::init(callbacks());
        auto inner = sim::wlp(1, 3);
        if(inner)
        {
            tpp::init(foreign());
        }
        std::vector<tpp::thread> stuck(sim::wlr(1, 3));
        for(size_t i = 0; i < stuck.size(); ++i)
        {
            auto name = new_name();
            stuck[i] = name < 0 ? tpp::make_thread() : tpp::make_thread(name_of(name));
            tpp::invoke(stuck[i].get_id(),
                        [r]()
                        {
                            sim::gate_open(20 + r);
                            sim::gate_wait(10 + r);
                        });
        }
        sim::gate_wait(20 + r, int64_t(stuck.size()));
        if(sim::wlp(1, 2))
        {
            make_and_use(0);
        }
        if(inner)
        {
            REQUIRE(tpp::shutdown() < 0, "inner-shutdown", "an inner shutdown succeeded");
        }
        auto left = tpp::shutdown(std::chrono::seconds(sim::wlr(1, 3)));
        REQUIRE(left == int(stuck.size()), "shutdown", "shutdown returned %d for %d stuck threads", left, int(stuck.size()));
        sim::cell_set(C_OPEN, 0);
        REQUIRE(sim::cell(C_TOKENS) == 0, "callbacks-kept", "%ld callbacks were kept after a shutdown that timed out", long(sim::cell(C_TOKENS)));
        stranger();
        {
            auto t = tpp::make_thread("after");
        }
        sim::nontrivial();
        if(sim::wlp(1, 2))
        {
            sim::gate_open(10 + r);
            stuck.clear();
        }
        else
        {
            // the next period begins before they are gone
            sim::cell_set(C_OPEN, 1);
            sim::cell_set(C_REPORTS, 0);
            tpp::init(callbacks());
            make_and_use(0);
            sim::gate_open(10 + r);
            stuck.clear();
            left = tpp::shutdown(std::chrono::seconds(30));
            REQUIRE(left == 0, "shutdown", "shutdown returned %d", left);
            sim::cell_set(C_OPEN, 0);
            REQUIRE(sim::cell(C_TOKENS) == 0, "callbacks-kept", "%ld callbacks were kept after the shutdown", long(sim::cell(C_TOKENS)));
        }
        REQUIRE(sim::cell(C_FOREIGN) == 0, "foreign-callback", "callbacks of an inner init were called");
        REQUIRE(tpp::get_all_registered_threads().empty(), "still-registered", "threads are left");
    }
}

// many threads at a time
SCENARIO(c23_crowd, 1)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    sim::cell_set(C_OPEN, 1);
    sim::cell_set(C_REPORTS, 0);
    tpp::init(callbacks());
    {
        std::vector<tpp::thread> ts(sim::wlr(1, 4) * sim::wlr(1, 15));
        std::vector<std::string> names;
        for(auto& t : ts)
        {
            auto i = new_name();
            auto named = i >= 0 && !sim::wlp(1, 8);
            t = named ? tpp::make_thread(name_of(i)) : tpp::make_thread();
            names.push_back(named ? name_of(i) : std::to_string(t.get_id()));
        }
        for(size_t k = 0; k < ts.size(); ++k)
        {
            auto name = tpp::get_pending_task_count_detailed(ts[k].get_id()).thread_name;
            REQUIRE(name == names[k], "wrong-name", "one of %zu threads is called %s, not %s", ts.size(), name.c_str(),
                    names[k].c_str());
        }
        sim::nontrivial();
    }
    auto left = tpp::shutdown(std::chrono::seconds(30));
    REQUIRE(left == 0, "shutdown", "shutdown returned %d", left);
    sim::cell_set(C_OPEN, 0);
}
