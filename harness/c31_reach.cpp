// C31: code of the user is never executed under a lock of the library. Whatever
// the library calls may wait until another thread has used the same objects.
#include "common.hpp"

namespace
{
constexpr int C_BUSY = CELL_FREE;       // the agent is in use
constexpr int C_REACHED = CELL_FREE + 1; // times it did something
constexpr int C_OP = CELL_FREE + 2;
constexpr int C_POOL = CELL_FREE + 3;   // the pool may be used
constexpr int C_LIVE = CELL_FREE + 4;
constexpr int C_SENT = CELL_FREE + 5;   // tasks of the agent on their way
constexpr int C_HINT = CELL_FREE + 6;   // the result it may be about
constexpr int C_OWN = CELL_FREE + 7;    // results the agent has not set yet
constexpr int C_WHERE = CELL_FREE + 20; // + place: reached from there
constexpr int G_CALL = 10, G_REPLY = 11, G_REG = 12;

enum place : int
{
    at_body,
    at_destructor,
    at_copy,
    at_continuation,
    at_callback,
    at_job,
};

// Makes the other thread do something with what this one may be using, and
// waits for it.
void reach(place from, int result = -1)
{
    if(sim::cell_add(C_BUSY, 1) != 1)
    {
        sim::cell_add(C_BUSY, -1);
        return;
    }
    sim::cell_add(C_WHERE + from, 1);
    auto n = sim::cell_add(C_REACHED, 1);
    sim::cell_set(C_HINT, result);
    sim::cell_set(C_OP, result >= 0 && sim::wlp(1, 2) ? 4 + sim::wl(4) : sim::wl(11));
    sim::gate_open(G_CALL);
    sim::gate_wait(G_REPLY, n);
    sim::nontrivial();
    sim::cell_add(C_BUSY, -1);
}

struct value
{
    int v;
    explicit value(int x) : v(x)
    {
        sim::cell_add(C_LIVE, 1);
    }
    value(const value& o) : v(o.v)
    {
        sim::cell_add(C_LIVE, 1);
        reach(at_copy);
    }
    value(value&& o) : v(o.v)
    {
        o.v = -1;
        sim::cell_add(C_LIVE, 1);
        reach(at_copy);
    }
    auto operator=(const value&) -> value& = delete;
    ~value()
    {
        sim::cell_add(C_LIVE, -1);
        reach(at_destructor);
    }
};
// part of a callable: its destruction is code of the user as well
struct owner
{
    bool mine = true;
    owner()
    {
        sim::cell_add(C_LIVE, 1);
    }
    owner(owner&& o) noexcept : mine(o.mine)
    {
        o.mine = false;
    }
    owner(const owner&) = delete;
    ~owner()
    {
        if(mine)
        {
            sim::cell_add(C_LIVE, -1);
            reach(at_destructor);
        }
    }
};

struct world
{
    tpp::thread a;
    tpp::thread::id ids[2];
    std::unique_ptr<tpp::thread_pool> pool;
    std::vector<tpp::shared_future<value>> fs;
    std::vector<tpp::job_id> jobs;
    std::vector<tpp::promise<value>> own; // of the agent
};

// everything another thread may do with the same objects, none of which blocks
void use(world& w, std::vector<tpp::shared_future<value>>& fs, int op)
{
    auto id = w.ids[sim::wl(2)];
    auto hint = sim::cell(C_HINT);
    auto& f = fs[hint >= 0 ? size_t(hint) : size_t(sim::wl(uint32_t(fs.size())))];
    auto send = [&]()
    {
        sim::cell_add(C_SENT, 1);
        if(!tpp::invoke(id, []() { sim::cell_add(C_SENT, -1); }))
        {
            sim::cell_add(C_SENT, -1);
        }
    };
    switch(op)
    {
        default:
            tpp::get_pending_task_count_detailed(id);
            break;
        case 1:
            send();
            break;
        case 2:
            tpp::get_all_registered_threads();
            break;
        case 3:
            tpp::notify(id);
            break;
        case 4:
            if(f.is_ready() && !f.has_error())
            {
                REQUIRE(f.get().v >= 0, "wrong-value", "%d", f.get().v);
            }
            break;
        case 5:
            f.wait_for(1us);
            break;
        case 6:
            f.then(w.ids[0], std::launch::async, [](tpp::shared_future<value>) {});
            break;
        case 7:
        {
            auto left = sim::cell(C_OWN);
            if(left > 0)
            {
                sim::cell_set(C_OWN, left - 1);
                if(sim::wlp(1, 2))
                {
                    w.own[size_t(left - 1)].set_value(value(77));
                }
                else
                {
                    w.own[size_t(left - 1)].set_exception(user_error_ptr(2));
                }
            }
            break;
        }
        case 10:
            if(sim::cell(C_POOL))
            {
                w.pool->get_jobs_count();
                w.pool->stop(123456);
            }
            break;
        case 8:
            if(sim::cell(C_POOL))
            {
                w.pool->schedule([]() {});
            }
            break;
        case 9:
        {
            std::thread t(
                []()
                {
                    tpp::this_thread::register_this_thread();
                    tpp::this_thread::process();
                    tpp::this_thread::unregister_this_thread();
                });
            t.join();
            break;
        }
    }
}

// waits until the other thread has nothing to do
void occupy()
{
    while(sim::cell_add(C_BUSY, 1) != 1)
    {
        sim::cell_add(C_BUSY, -1);
        sim::block_for(1000);
    }
    sim::gate_wait(G_REPLY, int(sim::cell(C_REACHED)));
}

auto callable(place from)
{
    return [o = owner(), from]() { reach(from); };
}
} // namespace

SCENARIO(c31_reach, 1)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init_data d;
    auto noisy = sim::wlp(1, 2);
    if(noisy)
    {
        d.log_error = [](const std::string&) { reach(at_callback); };
        d.set_thread_name = [](const std::string&) { reach(at_callback); };
        d.on_thread_start = [](const std::string&) { reach(at_callback); };
    }
    sim::cell_set(C_BUSY, 1); // not yet
    tpp::init(d);
    {
        world w;
        auto me = tpp::this_thread::get_id();
        w.a = tpp::make_thread("a");
        w.ids[0] = w.a.get_id();
        w.ids[1] = me;
        w.pool = std::make_unique<tpp::thread_pool>(std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, 1}});
        sim::cell_set(C_POOL, 1);
        auto results = sim::wlr(2, 4);
        std::vector<tpp::promise<value>> ps(results);
        std::vector<bool> set(results);
        for(auto& p : ps)
        {
            w.fs.push_back(p.get_future().share());
        }
        w.own.resize(sim::wl(3));
        for(auto& p : w.own)
        {
            w.fs.push_back(p.get_future().share());
        }
        sim::cell_set(C_OWN, long(w.own.size()));
        auto fs = w.fs;
        std::thread agent(
            [&w, &fs]()
            {
                tpp::this_thread::register_this_thread();
                sim::gate_open(G_REG);
                for(int n = 1;; ++n)
                {
                    sim::gate_wait(G_CALL, n);
                    if(sim::cell(C_OP) < 0)
                    {
                        break;
                    }
                    use(w, fs, int(sim::cell(C_OP)));
                    sim::gate_open(G_REPLY);
                }
                tpp::this_thread::unregister_this_thread();
            });
        sim::gate_wait(G_REG);
        sim::cell_add(C_BUSY, -1);
        auto ops = sim::wlr(3, 10);
        std::vector<tpp::future<void>> waits;
        std::vector<std::thread> raw;
        for(uint32_t op = 0; op < ops; ++op)
        {
            auto k = sim::wl(results);
            auto id = sim::wlp(2, 3) ? w.ids[0] : me;
            switch(sim::wl(15))
            {
                default:
                    tpp::invoke(id, callable(at_body));
                    break;
                case 1:
                    tpp::dispatch(id, callable(at_body));
                    break;
                case 2:
                    waits.push_back(tpp::async(id, callable(at_body)));
                    break;
                case 3:
                    waits.push_back(tpp::async(callable(at_body)));
                    break;
                case 4:
                    w.jobs.push_back(w.pool->schedule(callable(at_job)).id);
                    break;
                case 5:
                    if(!w.jobs.empty())
                    {
                        w.pool->stop(w.jobs[sim::wl(uint32_t(w.jobs.size()))]);
                    }
                    break;
                case 6:
                    w.pool->stop_all();
                    break;
                case 7:
                    if(!set[k])
                    {
                        set[k] = true;
                        auto how = sim::wl(3);
                        value v{int(k)};
                        if(how == 0)
                        {
                            ps[k].set_value(v);
                        }
                        else if(how == 1)
                        {
                            ps[k].set_value(std::move(v));
                        }
                        else
                        {
                            ps[k].set_exception(user_error_ptr(1));
                        }
                    }
                    break;
                case 8:
                    // of one that may be there already
                    k = sim::wl(uint32_t(fs.size()));
                    waits.push_back(fs[k].then(sim::wlp(1, 2) ? me : id, sim::wlp(1, 3) ? std::launch::async : std::launch::deferred,
                                               [o = std::make_shared<owner>(), k](tpp::shared_future<value>)
                                               { reach(at_continuation, int(k)); }));
                    break;
                case 9:
                {
                    auto last = int(fs.size()) - 1;
                    if(sim::wlp(1, 2))
                    {
                        waits.push_back(
                            tpp::when_all(fs.begin(), fs.end())
                                .then(sim::wlp(1, 2) ? me : id, sim::wlp(1, 3) ? std::launch::async : std::launch::deferred,
                                      [o = std::make_shared<owner>(), last](auto) { reach(at_continuation, last); }));
                    }
                    else
                    {
                        waits.push_back(
                            tpp::when_any(fs.begin(), fs.end())
                                .then(sim::wlp(1, 2) ? me : id, sim::wlp(1, 3) ? std::launch::async : std::launch::deferred,
                                      [o = std::make_shared<owner>(), last](auto) { reach(at_continuation, last); }));
                    }
                    break;
                }
                case 10:
                {
                    // one that ends with tasks left
                    auto t = tpp::make_thread(sim::wlp(1, 2) ? "b" : "");
                    for(uint32_t i = sim::wl(4); i > 0; --i)
                    {
                        tpp::invoke(t.get_id(), callable(at_body));
                    }
                    if(sim::wlp(1, 2))
                    {
                        tpp::notify_for_exit(t.get_id());
                    }
                    break;
                }
                case 11:
                    raw.emplace_back(
                        []()
                        {
                            tpp::this_thread::register_this_thread();
                            tpp::invoke(tpp::this_thread::get_id(), callable(at_body));
                            tpp::invoke(tpp::this_thread::get_id(), callable(at_body));
                            if(sim::wlp(1, 2))
                            {
                                tpp::this_thread::wait();
                            }
                            tpp::this_thread::unregister_this_thread();
                        });
                    break;
                case 12:
                    // refused, and logged
                    tpp::invoke(sim::wlp(1, 2) ? tpp::invalid_id() : tpp::thread::id(987654), callable(at_body));
                    break;
                case 14:
                    tpp::invoke(me,
                                [o = owner()]()
                                {
                                    reach(at_body);
                                    throw_user(3);
                                });
                    try
                    {
                        tpp::this_thread::process();
                    }
                    catch(const user_error&)
                    {
                    }
                    break;
                case 13:
                    if(sim::wlp(1, 2))
                    {
                        tpp::this_thread::process();
                    }
                    else
                    {
                        tpp::this_thread::wait_for(20us);
                    }
                    break;
            }
        }
        // abandoned or not, all are over then
        ps.clear();
        occupy();
        sim::cell_set(C_OWN, 0);
        sim::cell_add(C_BUSY, -1);
        w.own.clear();
        if(sim::wlp(1, 2))
        {
            occupy();
            sim::cell_set(C_POOL, 0);
            sim::cell_add(C_BUSY, -1);
            w.pool.reset();
        }
        else
        {
            w.pool->wait_all();
        }
        for(auto& f : waits)
        {
            f.wait();
        }
        for(auto& t : raw)
        {
            t.join();
        }
        tpp::this_thread::process();
        waits.clear();
        // settle, then no more of it
        occupy();
        sim::cell_set(C_OP, -1);
        sim::gate_open(G_CALL);
        agent.join();
        tpp::this_thread::process();
        sim::cell_set(C_POOL, 0);
        w.pool.reset();
        tpp::async(w.ids[0], std::launch::async, []() {}).wait();
        w.a.join();
        tpp::this_thread::process();
        REQUIRE(sim::cell(C_SENT) == 0, "task-lost", "%ld tasks of the other thread were not executed", long(sim::cell(C_SENT)));
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    REQUIRE(sim::cell(C_LIVE) == 0, "leak", "%ld objects left", long(sim::cell(C_LIVE)));
}
