// C19: thread identities are unique and registration is idempotent
#include "blocking.hpp"
#include "large.hpp"
#include <algorithm>

namespace
{
constexpr int C_NIDS = C_USER;         // number of ids seen so far
constexpr int C_STALE = C_USER + 1;    // tasks of an earlier period executed in a later one
constexpr int C_IDS = C_USER + 100;    // ids of all periods
constexpr int C_PERIOD = C_USER + 20;  // + thread: current period
constexpr int C_CURRENT = C_USER + 40; // + thread: id of the current period
constexpr int C_EXECUTED = C_USER + 60; // + thread: tasks executed

// a new registration period: its id was never seen
void fresh_id(tpp::thread::id id)
{
    REQUIRE(id != tpp::invalid_id(), "invalid-id", "a registration returned the invalid id");
    auto n = int(sim::cell(C_NIDS));
    for(int i = 0; i < n; ++i)
    {
        REQUIRE(sim::cell(C_IDS + i) != int64_t(id), "id-reused", "id %d was given out before", int(id));
    }
    sim::cell_set(C_IDS + n, int64_t(id));
    sim::cell_add(C_NIDS, 1);
}
auto listed(tpp::thread::id id) -> int
{
    auto all = tpp::get_all_registered_threads();
    return int(std::count(all.begin(), all.end(), id));
}
// nobody is reachable under this id
void gone(tpp::thread::id id, const char* where)
{
    REQUIRE(!tpp::invoke(id, []() { sim::cell_add(C_STALE, 1); }), "gone-accepts", "%s: an id that is gone accepted a task", where);
    REQUIRE(tpp::get_pending_task_count(id) == 0, "gone-counts", "%s: an id that is gone has tasks", where);
    REQUIRE(listed(id) == 0, "gone-listed", "%s: an id that is gone is listed", where);
    tpp::notify_for_exit(id);
    tpp::notify(id);
}
struct name_pool
{
    static auto of(uint32_t period, uint32_t who) -> std::string
    {
        return "name" + std::to_string(period) + "by" + std::to_string(who);
    }
};
void end(const char* what)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "%s: shutdown returned %d", what, left);
}
} // namespace

// registration periods of plain threads, registered by both sides at once
SCENARIO(c19_periods, 5)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data d;
    d.tasks_capacity = small_capacity();
    tpp::init(d);
    {
        fresh_id(tpp::this_thread::get_id());
        REQUIRE(tpp::main_thread::get_id() == tpp::this_thread::get_id(), "main-id", "id of the main thread");
        auto lives = sim::wlr(1, 3); // one after another, so that native ids get reused
        for(uint32_t life = 0; life < lives; ++life)
        {
            auto n = int(sim::wlr(1, 2));
            auto periods = int(sim::wlr(1, 3));
            std::vector<std::thread> raw;
            auto base = 20 + int(life) * 70;
            // gates of a thread: base+10*i+{0 go, 1 registered, 2 check, 3 leave}
            for(int i = 0; i < n; ++i)
            {
                sim::cell_set(C_PERIOD + i, 0);
                raw.emplace_back(
                    [i, periods, base]()
                    {
                        auto g = base + 10 * i;
                        for(int p = 1; p <= periods; ++p)
                        {
                            sim::gate_wait(g, p);
                            REQUIRE(!tpp::this_thread::is_registered(), "still-registered", "registered before the period");
                            REQUIRE(tpp::this_thread::get_id() == tpp::invalid_id(), "still-registered", "id before the period");
                            // registers itself one or more times
                            auto times = sim::wlr(1, 3);
                            auto id = tpp::invalid_id();
                            for(uint32_t k = 0; k < times; ++k)
                            {
                                if(sim::wlp(1, 2))
                                {
                                    tpp::this_thread::register_this_thread();
                                }
                                else
                                {
                                    tpp::this_thread::register_this_thread(name_pool::of(uint32_t(p), 1));
                                }
                                auto got = tpp::this_thread::get_id();
                                REQUIRE(k == 0 || got == id, "id-changed", "registering again changed the id from %d to %d", int(id), int(got));
                                id = got;
                                REQUIRE(tpp::register_thread(std::this_thread::get_id()) == id, "id-changed",
                                        "registering by native id gives another id");
                            }
                            REQUIRE(tpp::this_thread::is_registered(), "not-registered", "not registered");
                            REQUIRE(!tpp::this_thread::notified_for_exit(), "exit-carried-over", "notified for exit in a fresh period");
                            REQUIRE(tpp::this_thread::get_depth() == 0, "depth-carried-over", "depth in a fresh period");
                            sim::cell_set(C_CURRENT + i, int64_t(id));
                            sim::gate_open(g + 1);
                            auto style = sim::wl(3);
                            while(!tpp::this_thread::notified_for_exit())
                            {
                                loop_once(style);
                            }
                            REQUIRE(tpp::this_thread::get_id() == id, "id-changed", "the id changed within the period");
                            tpp::this_thread::unregister_this_thread();
                            gone(id, "after unregistering");
                            if(sim::wlp(1, 3))
                            {
                                tpp::this_thread::unregister_this_thread(); // no effect
                            }
                            sim::gate_open(g + 2);
                        }
                    });
            }
            for(int p = 1; p <= periods; ++p)
            {
                for(int i = 0; i < n; ++i)
                {
                    auto g = base + 10 * i;
                    auto nid = raw[size_t(i)].get_id();
                    auto before = sim::wl(2), after = sim::wl(2);
                    auto id = tpp::invalid_id();
                    auto me = sim::wlp(1, 2) ? std::string() : name_pool::of(uint32_t(p), 2);
                    if(before)
                    {
                        id = tpp::register_thread(nid, me);
                        auto again = tpp::register_thread(nid, me);
                        REQUIRE(again == id, "id-changed", "registering again changed the id from %d to %d", int(id), int(again));
                    }
                    sim::gate_open(g);
                    auto late = tpp::invalid_id();
                    if(after)
                    {
                        late = tpp::register_thread(nid, me); // at the same time as the thread itself
                    }
                    sim::gate_wait(g + 1, p);
                    auto own = tpp::thread::id(sim::cell(C_CURRENT + i));
                    REQUIRE(!before || id == own, "ids-differ", "registered as %d by its creator and %d by itself", int(id), int(own));
                    REQUIRE(!after || late == own, "ids-differ", "registered as %d by its creator and %d by itself", int(late), int(own));
                    id = own;
                    fresh_id(id);
                    REQUIRE(listed(id) == 1, "not-listed", "listed %d times", listed(id));
                    auto info = tpp::get_pending_task_count_detailed(id);
                    REQUIRE(info.thread_name == name_pool::of(uint32_t(p), 1) || info.thread_name == name_pool::of(uint32_t(p), 2) ||
                                info.thread_name == std::to_string(id),
                            "name-carried-over", "named '%s' in period %d", info.thread_name.c_str(), p);
                    // tasks reach this very thread in this very period
                    sim::cell_set(C_PERIOD + i, p);
                    auto tasks = sim::wl(4);
                    for(uint32_t k = 0; k < tasks; ++k)
                    {
                        auto ok = tpp::invoke(id,
                                              [id, i, p]()
                                              {
                                                  REQUIRE(tpp::this_thread::get_id() == id, "wrong-thread", "task for id %d runs on id %d",
                                                          int(id), int(tpp::this_thread::get_id()));
                                                  REQUIRE(sim::cell(C_PERIOD + i) == p, "task-carried-over",
                                                          "task of period %d runs in another one", p);
                                              });
                        REQUIRE(ok, "send-rejected", "send to a registered thread");
                    }
                }
                for(int i = 0; i < n; ++i)
                {
                    auto id = tpp::thread::id(sim::cell(C_CURRENT + i));
                    tpp::notify_for_exit(id);
                    if(sim::wlp(1, 3))
                    {
                        tpp::invoke(id, []() {}); // may come too late
                        tpp::notify_for_exit(id);
                    }
                }
                for(int i = 0; i < n; ++i)
                {
                    sim::gate_wait(base + 10 * i + 2, p);
                    gone(tpp::thread::id(sim::cell(C_CURRENT + i)), "seen by another thread");
                }
                sim::nontrivial();
            }
            for(auto& r : raw)
            {
                r.join();
            }
        }
        REQUIRE(sim::cell(C_STALE) == 0, "task-carried-over", "a task sent to an id that was gone was executed");
    }
    auto old = tpp::this_thread::get_id();
    end("periods");
    REQUIRE(!tpp::this_thread::is_registered() && tpp::this_thread::get_id() == tpp::invalid_id(), "still-registered",
            "main thread after shutdown");
    if(sim::wlp(1, 2))
    {
        // a second life of the library
        tpp::init(d);
        fresh_id(tpp::this_thread::get_id());
        REQUIRE(tpp::main_thread::get_id() == tpp::this_thread::get_id(), "main-id", "id of the main thread");
        gone(old, "id of the first main thread");
        REQUIRE(!tpp::this_thread::notified_for_exit(), "exit-carried-over", "main thread notified for exit");
        end("second life");
    }
}

// thread objects: moved, swapped, assigned and destroyed
SCENARIO(c19_objects, 4)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        constexpr int N = 4;
        struct model
        {
            tpp::thread::id id = 0;
            int key = -1; // which thread
        };
        std::vector<tpp::thread> obj(N);
        std::vector<model> mod(N);
        auto next_key = 0;
        auto check = [&](int i, const char* where)
        {
            auto& o = obj[size_t(i)];
            auto& m = mod[size_t(i)];
            REQUIRE(o.joinable() == (m.key >= 0), "object-state", "%s: joinable() is %d", where, int(o.joinable()));
            if(m.key < 0)
            {
                REQUIRE(o.get_id() == tpp::invalid_id(), "stale-id", "%s: an object without a thread has id %d", where, int(o.get_id()));
                return;
            }
            REQUIRE(o.get_id() == m.id, "wrong-id", "%s: id %d instead of %d", where, int(o.get_id()), int(m.id));
            REQUIRE(listed(m.id) == 1, "not-listed", "%s: id of a thread object is listed %d times", where, listed(m.id));
            // a task for this id runs on this thread
            auto key = m.key;
            auto before = sim::gate_value(30);
            auto ok = tpp::invoke(o.get_id(),
                                  [key, id = m.id]()
                                  {
                                      REQUIRE(tpp::this_thread::get_id() == id, "wrong-thread", "id inside is %d instead of %d",
                                              int(tpp::this_thread::get_id()), int(id));
                                      REQUIRE(sim::cell(C_USER + 200 + sim::self()) == key, "wrong-thread",
                                              "task for thread %d runs on thread %d", key, int(sim::cell(C_USER + 200 + sim::self())));
                                      sim::gate_open(30);
                                  });
            REQUIRE(ok, "send-rejected", "%s: send to the id of a thread object", where);
            sim::gate_wait(30, before + 1);
            sim::nontrivial();
        };
        auto ended = [&](const model& m, const char* where)
        {
            if(m.key >= 0)
            {
                gone(m.id, where);
            }
        };
        auto start = [&](int i)
        {
            auto old = mod[size_t(i)];
            auto key = next_key++;
            auto body = [key]()
            {
                sim::cell_set(C_USER + 200 + sim::self(), key);
                tpp::this_thread::register_this_thread();
                while(!tpp::this_thread::notified_for_exit())
                {
                    tpp::this_thread::wait();
                }
                if(sim::wlp(1, 2))
                {
                    tpp::this_thread::unregister_this_thread();
                }
            };
            const std::string name = "object";
            obj[size_t(i)] = sim::wlp(1, 2) ? tpp::thread(name, body) : tpp::thread(body);
            ended(old, "assigned over");
            mod[size_t(i)] = {obj[size_t(i)].get_id(), key};
            fresh_id(mod[size_t(i)].id);
        };
        auto steps = sim::wlr(2, 8);
        start(0);
        for(uint32_t s = 0; s < steps; ++s)
        {
            auto i = int(sim::wl(N)), j = int(sim::wl(N));
            switch(sim::wl(7))
            {
                case 0:
                    start(i);
                    break;
                case 1:
                    if(i != j)
                    {
                        // what was there before ends, and the source is empty
                        auto old = mod[size_t(i)];
                        obj[size_t(i)] = std::move(obj[size_t(j)]);
                        ended(old, "assigned over");
                        mod[size_t(i)] = mod[size_t(j)];
                        mod[size_t(j)] = {};
                        if(old.key >= 0)
                        {
                            obj[size_t(j)] = tpp::thread(); // an ended thread may leave its id
                        }
                    }
                    break;
                case 2:
                    obj[size_t(i)].swap(obj[size_t(j)]);
                    std::swap(mod[size_t(i)], mod[size_t(j)]);
                    break;
                case 3:
                    if(i != j)
                    {
                        std::swap(obj[size_t(i)], obj[size_t(j)]);
                        std::swap(mod[size_t(i)], mod[size_t(j)]);
                    }
                    break;
                case 4:
                {
                    tpp::thread tmp(std::move(obj[size_t(i)]));
                    auto id = obj[size_t(i)].get_id();
                    REQUIRE(id == tpp::invalid_id(), "stale-id", "the source of a move still has id %d", int(id));
                    REQUIRE(tmp.get_id() == mod[size_t(i)].id, "wrong-id", "moved object has id %d", int(tmp.get_id()));
                    if(sim::wlp(1, 2))
                    {
                        obj[size_t(i)] = std::move(tmp);
                    }
                    else
                    {
                        auto old = mod[size_t(i)];
                        mod[size_t(i)] = {};
                        {
                            tpp::thread dying(std::move(tmp));
                        }
                        ended(old, "destroyed");
                    }
                    break;
                }
                case 5:
                {
                    // all of them move
                    std::vector<tpp::thread> other;
                    for(auto& o : obj)
                    {
                        other.push_back(std::move(o));
                    }
                    obj = std::move(other);
                    break;
                }
                default:
                    if(mod[size_t(i)].key >= 0)
                    {
                        auto old = mod[size_t(i)];
                        obj[size_t(i)].join();
                        ended(old, "joined");
                        obj[size_t(i)] = tpp::thread();
                        mod[size_t(i)] = {};
                        obj[size_t(i)] = tpp::thread();
                    }
                    break;
            }
            check(int(sim::wl(N)), "check");
        }
        for(int i = 0; i < N; ++i)
        {
            check(i, "final check");
        }
    }
    end("objects");
}

// many threads register at the same time
SCENARIO(c19_concurrent, 3)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    {
        auto n = int(sim::wlr(2, 5));
        auto rounds = int(sim::wlr(1, 3));
        std::vector<std::thread> raw;
        for(int i = 0; i < n; ++i)
        {
            raw.emplace_back(
                [rounds]()
                {
                    for(int r = 0; r < rounds; ++r)
                    {
                        tpp::this_thread::register_this_thread();
                        auto id = tpp::this_thread::get_id();
                        fresh_id(id);
                        REQUIRE(listed(id) == 1, "not-listed", "own id not listed");
                        REQUIRE(tpp::invoke(id, [id]() { REQUIRE(tpp::this_thread::get_id() == id, "wrong-thread", "own task elsewhere"); }),
                                "send-rejected", "send to oneself");
                        if(sim::wlp(1, 2))
                        {
                            tpp::this_thread::process();
                        }
                        REQUIRE(tpp::this_thread::get_id() == id, "id-changed", "own id changed");
                        tpp::this_thread::unregister_this_thread();
                        gone(id, "own id");
                    }
                });
        }
        for(auto& r : raw)
        {
            r.join();
        }
        REQUIRE(tpp::get_all_registered_threads().size() == 1, "gone-listed", "threads left in the list");
        sim::nontrivial();
    }
    end("concurrent");
}

SCENARIO(c19_large, 1)
{
    large::periods();
}
