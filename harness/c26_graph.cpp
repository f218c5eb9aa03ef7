// C26: graphs of futures deliver what their stages computed
#include "blocking.hpp"
#include <algorithm>

namespace
{
constexpr int MAX_N = 16;
constexpr int MAX_P = 3;
constexpr int C_RUN = CELL_STARTED;         // + node: times its stage ran
constexpr int C_RK = CELL_STARTED + 100;    // + node: kind of what it computed
constexpr int C_RV = CELL_STARTED + 200;    // + node: value of it
constexpr int C_INK = CELL_STARTED + 300;   // + node * MAX_P + input: kind it saw
constexpr int C_INV = CELL_STARTED + 400;   // + node * MAX_P + input: value it saw
constexpr int C_PICK = CELL_STARTED + 500;  // + node: input it was given by when_any, + 1
constexpr int C_OUTER = CELL_STARTED + 600; // + node: the combination itself was broken
constexpr int C_WHERE = CELL_STARTED + 700; // + node: thread the stage ran on
constexpr int C_GONE = C_USER;              // + looper: told to exit; 8 the pool
constexpr int C_STOPPED = C_USER + 20;      // + node: its job was stopped

using my_error = user_error;
struct val
{
    std::vector<int> v;
};
auto make(int x) -> val
{
    val r;
    r.v.assign(2, x);
    return r;
}
auto num(const val& x) -> int
{
    REQUIRE(x.v.size() == 2 && x.v[0] == x.v[1], "torn-value", "value is damaged");
    return x.v[0];
}

enum : int
{
    K_NONE,
    K_VALUE,
    K_ERROR,
    K_BROKEN,
};
struct outcome
{
    int kind = K_NONE;
    int v = 0;
    auto operator!=(const outcome& o) const -> bool
    {
        return kind != o.kind || v != o.v;
    }
};

template<typename Fut>
auto look(Fut& f, const char* what, int i) -> outcome
{
    REQUIRE(f.valid(), "invalid-future", "%s of node %d is not valid", what, i);
    try
    {
        return {K_VALUE, num(f.get())};
    }
    catch(const my_error& e)
    {
        return {K_ERROR, e.i};
    }
    catch(const std::future_error& e)
    {
        REQUIRE(e.code() == std::future_errc::broken_promise, "wrong-error", "%s of node %d: future_error %d", what, i, e.code().value());
        return {K_BROKEN, 0};
    }
}

enum kind_t : uint32_t
{
    N_SOURCE,
    N_ASYNC,
    N_JOB,
    N_THEN,
    N_ALL,
    N_ANY,
};
// what a stage makes of its inputs
enum mode_t : uint32_t
{
    M_RECOVER,
    M_FORWARD,
    M_THROW,
};
auto compute(int i, uint32_t mode, const std::vector<outcome>& in) -> outcome
{
    if(mode == M_THROW)
    {
        return {K_ERROR, i};
    }
    auto h = i + 1;
    for(const auto& o : in)
    {
        if(mode == M_FORWARD && o.kind != K_VALUE)
        {
            return o;
        }
        h = (h * 31 + o.kind * 7 + o.v) % 10007;
    }
    return {K_VALUE, h};
}

// runs inside the stage of node i
auto stage(int i, uint32_t mode, const std::vector<outcome>& in) -> val
{
    REQUIRE(sim::cell_add(C_RUN + i, 1) == 1, "ran-twice", "the stage of node %d ran again", i);
    for(size_t k = 0; k < in.size(); ++k)
    {
        sim::cell_set(C_INK + i * MAX_P + int(k), in[k].kind);
        sim::cell_set(C_INV + i * MAX_P + int(k), in[k].v);
    }
    sim::cell_set(C_WHERE + i, int64_t(tpp::this_thread::get_id()));
    auto r = compute(i, mode, in);
    sim::cell_set(C_RV + i, r.v);
    sim::cell_set(C_RK + i, r.kind);
    switch(r.kind)
    {
        default:
            return make(r.v);
        case K_ERROR:
            throw_user(r.v);
        case K_BROKEN:
            throw std::future_error(std::future_errc::broken_promise);
    }
}
template<typename Fut>
auto ready(Fut& f, int i) -> outcome
{
    REQUIRE(f.valid() && f.is_ready(), "not-ready", "the stage of node %d was given a future that is not ready", i);
    return look(f, "an input", i);
}

enum : int
{
    ON_MAIN = -1,
    ON_FRESH = -2,
    ON_GONE = -3,
    ON_RAW = -4,
    ON_POOL = 8,
};

struct node
{
    uint32_t kind = N_SOURCE;
    uint32_t mode = M_RECOVER;
    int target = ON_MAIN; // looper or one of the above
    int comb = ON_MAIN;   // where it was combined
    std::vector<int> parents;
    tpp::future<val> uf;
    tpp::shared_future<val> sf;
    std::unique_ptr<tpp::promise<val>> p;
    tpp::job_future_storage job;
    bool consumed = false;
    outcome last; // as seen by the main thread

    auto shared() -> tpp::shared_future<val>&
    {
        if(uf.valid())
        {
            sf = uf.share();
        }
        return sf;
    }
};

struct world
{
    std::vector<looper> loops;
    std::vector<tpp::thread::id> ids; // of the loopers, also after their end
    tpp::thread::id main = tpp::this_thread::get_id();
    std::vector<node> nodes;
    std::unique_ptr<tpp::thread_pool> pool;
    std::vector<int> open; // sources not completed yet
    std::vector<std::thread> raw;

    auto any_parent() -> int
    {
        for(int k = 0; k < 8; ++k)
        {
            auto i = int(sim::wl(uint32_t(nodes.size())));
            if(!nodes[size_t(i)].consumed)
            {
                return i;
            }
        }
        return -1;
    }
    auto alive(int l) -> bool
    {
        return sim::cell(C_GONE + l) == 0;
    }
    auto target_id(int t) -> tpp::thread::id
    {
        return t == ON_MAIN ? main : t == ON_GONE ? tpp::thread::id(1) << 40 : ids[size_t(t)];
    }

    // puts a stage behind some combined or single future
    template<typename Fut, typename F>
    void attach(node& n, Fut&& f, F fn)
    {
        static const std::launch pol[] = {std::launch::async | std::launch::deferred, std::launch::async, std::launch::deferred};
        auto policy = sim::wl(4);
        if(n.target == ON_FRESH)
        {
            n.uf = policy == 3 ? f.then(std::move(fn)) : f.then(pol[policy], std::move(fn));
        }
        else
        {
            n.uf = policy == 3 ? f.then(target_id(n.target), std::move(fn)) : f.then(target_id(n.target), pol[policy], std::move(fn));
        }
    }

    // a stage on the result of when_all or when_any
    template<typename Fut>
    void attach_all(node& n, int i, Fut&& f)
    {
        attach(n, f,
               [t = tok(i), i, mode = n.mode](auto g)
               {
                   std::vector<outcome> in;
                   REQUIRE(g.valid() && g.is_ready(), "not-ready", "combination of node %d", i);
                   try
                   {
                       auto res = g.get();
                       each(res, [&](auto& x) { in.push_back(ready(x, i)); });
                   }
                   catch(const std::future_error&)
                   {
                       sim::cell_set(C_OUTER + i, 1);
                       in.assign(1, outcome{K_BROKEN, 0});
                   }
                   return stage(i, mode, in);
               });
    }
    template<typename Fut>
    void attach_any(node& n, int i, Fut&& f)
    {
        attach(n, f,
               [t = tok(i), i, mode = n.mode](auto g)
               {
                   std::vector<outcome> in;
                   REQUIRE(g.valid() && g.is_ready(), "not-ready", "combination of node %d", i);
                   try
                   {
                       auto res = g.get();
                       size_t k = 0;
                       each(res.futures,
                            [&](auto& x)
                            {
                                REQUIRE(x.valid(), "invalid-future", "input %zu of node %d", k, i);
                                if(k++ == res.index)
                                {
                                    in.push_back(ready(x, i));
                                }
                            });
                       REQUIRE(in.size() == 1, "wrong-index", "when_any names input %zu", res.index);
                       sim::cell_set(C_PICK + i, int64_t(res.index) + 1);
                   }
                   catch(const std::future_error&)
                   {
                       sim::cell_set(C_OUTER + i, 1);
                       in.assign(1, outcome{K_BROKEN, 0});
                   }
                   return stage(i, mode, in);
               });
    }
    template<typename F>
    static void each(std::vector<tpp::shared_future<val>>& v, F f)
    {
        for(auto& x : v)
        {
            f(x);
        }
    }
    template<typename... T, typename F>
    static void each(std::tuple<T...>& v, F f)
    {
        std::apply([&](auto&... x) { (f(x), ...); }, v);
    }

    void build(int i)
    {
        auto& n = nodes[size_t(i)];
        switch(n.kind)
        {
            case N_SOURCE:
                n.p = std::make_unique<tpp::promise<val>>();
                n.uf = n.p->get_future();
                break;
            case N_ASYNC:
            {
                auto fn = [t = tok(i), i, mode = n.mode]() { return stage(i, mode, {}); };
                if(n.target == ON_FRESH)
                {
                    n.uf = sim::wlp(1, 2) ? tpp::async(std::move(fn)) : tpp::async(std::launch::async, std::move(fn));
                }
                else
                {
                    n.uf = sim::wlp(1, 2) ? tpp::async(target_id(n.target), std::move(fn))
                                          : tpp::async(target_id(n.target), std::launch::async, std::move(fn));
                }
                break;
            }
            case N_JOB:
            {
                auto f = pool->schedule(tpp::priority::group(tpp::priority::category(sim::wl(3)), sim::wl(3)),
                                        [t = tok(i), i, mode = n.mode]() { return stage(i, mode, {}); });
                n.job = static_cast<tpp::job_future_storage&>(f);
                n.uf = std::move(f);
                break;
            }
            case N_THEN:
            {
                auto& par = nodes[size_t(n.parents[0])];
                auto fn = [t = tok(i), i, mode = n.mode](auto f) { return stage(i, mode, {ready(f, i)}); };
                if(par.uf.valid())
                {
                    par.consumed = true;
                    attach(n, par.uf, std::move(fn));
                }
                else
                {
                    attach(n, par.sf, std::move(fn));
                }
                break;
            }
            default:
            {
                auto range = n.parents.size() != 2 || sim::wlp(1, 2);
                if(range)
                {
                    std::vector<tpp::shared_future<val>> v;
                    for(auto k : n.parents)
                    {
                        v.push_back(nodes[size_t(k)].shared());
                    }
                    if(n.kind == N_ALL)
                    {
                        attach_all(n, i, tpp::when_all(v.begin(), v.end()));
                    }
                    else
                    {
                        attach_any(n, i, tpp::when_any(v.begin(), v.end()));
                    }
                    break;
                }
                auto& a = nodes[size_t(n.parents[0])];
                auto& b = nodes[size_t(n.parents[1])];
                if(a.uf.valid() && &a != &b)
                {
                    a.consumed = n.kind == N_ALL;
                    auto f = std::move(a.uf);
                    if(n.kind == N_ANY)
                    {
                        // the main thread has to be able to read it
                        a.sf = f.share();
                        attach_any(n, i, tpp::when_any(a.sf, b.shared()));
                        break;
                    }
                    attach_all(n, i, tpp::when_all(std::move(f), b.shared()));
                    break;
                }
                if(n.kind == N_ALL)
                {
                    attach_all(n, i, tpp::when_all(a.shared(), b.shared()));
                }
                else
                {
                    attach_any(n, i, tpp::when_any(a.shared(), b.shared()));
                }
                break;
            }
        }
        if(sim::wlp(1, 2) && n.kind != N_SOURCE)
        {
            n.shared();
        }
    }

    void complete(node* n, int i)
    {
        auto k = 1 + int(sim::wl(3));
        sim::cell_add(C_RUN + i, 1);
        sim::cell_set(C_RK + i, k);
        sim::cell_set(C_RV + i, k == K_BROKEN ? 0 : i);
        switch(k)
        {
            default:
                n->p->set_value(make(i));
                break;
            case K_ERROR:
                n->p->set_exception(user_error_ptr(i));
                break;
            case K_BROKEN:
                n->p.reset();
                break;
        }
    }
    void complete_one()
    {
        if(open.empty())
        {
            return;
        }
        auto k = sim::wl(uint32_t(open.size()));
        auto i = open[k];
        open.erase(open.begin() + k);
        auto* n = &nodes[size_t(i)]; // they do not move
        auto l = int(sim::wl(uint32_t(loops.size())));
        switch(sim::wl(4))
        {
            default:
                complete(n, i);
                break;
            case 1:
                raw.emplace_back([this, n, i]() { complete(n, i); });
                break;
            case 2:
                tpp::invoke(main, [this, n, i]() { complete(n, i); });
                break;
            case 3:
                if(!alive(l) || !tpp::invoke(loops[size_t(l)].id, [this, n, i, g = std::make_shared<finish>(n, i, this)]() { g->done = true, complete(n, i); }))
                {
                    complete(n, i);
                }
                break;
        }
    }
    // a task that was dropped by a thread that exits still completes its source
    struct finish
    {
        node* n;
        int i;
        world* w;
        bool done = false;
        finish(node* a, int b, world* c) : n(a), i(b), w(c)
        {
        }
        finish(const finish&) = delete;
        ~finish()
        {
            if(!done && sim::cell(C_RUN + i) == 0)
            {
                w->complete(n, i);
            }
        }
    };

    void disturb()
    {
        switch(sim::wl(8))
        {
            default:
                break;
            case 0:
            case 1:
                complete_one();
                break;
            case 2:
                tpp::this_thread::process();
                break;
            case 3:
            {
                auto l = int(sim::wl(uint32_t(loops.size())));
                if(sim::wlp(1, 3) && alive(l))
                {
                    sim::cell_set(C_GONE + l, 1);
                    if(sim::wlp(1, 2))
                    {
                        tpp::notify_for_exit(loops[size_t(l)].id);
                    }
                    else
                    {
                        loops[size_t(l)].stop();
                    }
                }
                break;
            }
            case 4:
                if(pool && sim::wlp(1, 4))
                {
                    sim::cell_set(C_GONE + ON_POOL, 1);
                    pool.reset();
                }
                break;
            case 5:
            {
                auto i = sim::wl(uint32_t(nodes.size()));
                if(nodes[i].kind == N_JOB && sim::wlp(1, 2))
                {
                    sim::cell_set(C_STOPPED + int(i), 1);
                    nodes[i].job.stop();
                }
                break;
            }
        }
    }

    // may the stage of node i have been dropped
    auto excused(int i) -> bool
    {
        auto& n = nodes[size_t(i)];
        return n.target == ON_GONE || (n.target >= 0 && !alive(n.target)) || sim::cell(C_STOPPED + i) != 0;
    }
    auto computed(int i) -> outcome
    {
        return {int(sim::cell(C_RK + i)), int(sim::cell(C_RV + i))};
    }

    void judge()
    {
        for(int i = 0; i < int(nodes.size()); ++i)
        {
            auto& n = nodes[size_t(i)];
            auto ran = sim::cell(C_RUN + i) == 1;
            auto is = ran ? computed(i) : outcome{K_BROKEN, 0};
            REQUIRE(ran || excused(i), "stage-lost", "the stage of node %d never ran", i);
            REQUIRE(n.consumed || !(n.last != is), "wrong-result", "node %d computed %d:%d and delivered %d:%d", i, is.kind, is.v, n.last.kind,
                    n.last.v);
            if(!ran || n.kind == N_SOURCE)
            {
                continue;
            }
            auto where = tpp::thread::id(sim::cell(C_WHERE + i));
            if(n.target == ON_FRESH)
            {
                REQUIRE(where != main && std::find(ids.begin(), ids.end(), where) == ids.end(), "wrong-thread", "node %d", i);
            }
            else if(n.target != ON_POOL)
            {
                REQUIRE(where == target_id(n.target), "wrong-thread", "node %d ran on thread %lu", i, (unsigned long)where);
            }
            // what it saw is what its inputs delivered
            auto par = n.parents;
            if(sim::cell(C_OUTER + i))
            {
                REQUIRE(n.comb >= 0 && !alive(n.comb), "combination-lost", "the combination for node %d broke", i);
                continue;
            }
            if(n.kind == N_ANY)
            {
                par.assign(1, n.parents[size_t(sim::cell(C_PICK + i)) - 1]);
            }
            std::vector<outcome> in;
            for(size_t k = 0; k < par.size(); ++k)
            {
                outcome saw{int(sim::cell(C_INK + i * MAX_P + int(k))), int(sim::cell(C_INV + i * MAX_P + int(k)))};
                auto q = par[k];
                auto was = sim::cell(C_RUN + q) == 1 ? computed(q) : outcome{K_BROKEN, 0};
                REQUIRE(!(saw != was), "wrong-input", "node %d saw %d:%d of node %d, which gave %d:%d", i, saw.kind, saw.v, q, was.kind, was.v);
                in.push_back(saw);
            }
            auto should = compute(i, n.mode, in);
            REQUIRE(!(should != is), "wrong-result", "node %d", i);
        }
    }
};

void graph(bool exits)
{
    sim::set_fault_mask(sim::fb_all_benign);
    tpp::init();
    auto w = std::make_unique<world>();
    auto nl = sim::wlr(1, 2);
    for(uint32_t k = 0; k < nl; ++k)
    {
        w->loops.push_back(sim::wlp(1, 2) ? looper::make(0, 0) : looper::make(1, sim::wl(3)));
        w->ids.push_back(w->loops.back().id);
    }
    if(sim::wlp(1, 2))
    {
        w->pool = std::make_unique<tpp::thread_pool>(std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, sim::wlr(1, 2)}});
    }
    auto count = int(sim::wlr(3, MAX_N));
    w->nodes.reserve(size_t(count));
    for(int i = 0; i < count; ++i)
    {
        w->nodes.emplace_back();
        auto& n = w->nodes.back();
        n.mode = sim::wlp(2, 3) ? M_RECOVER : sim::wlr(1, 2);
        n.kind = i == 0 ? N_SOURCE : sim::wlp(1, 4) ? sim::wl(3) : 3 + sim::wl(3);
        auto t = sim::wl(8);
        n.target = t < 3 ? ON_MAIN : t == 3 ? ON_FRESH : t == 4 && exits ? ON_GONE : int(sim::wl(nl));
        auto first = -1;
        if(n.kind >= N_THEN)
        {
            // the node itself is already in the list
            auto np = n.kind == N_THEN ? 1u : sim::wlr(1, 3);
            for(uint32_t k = 0; k < np; ++k)
            {
                first = w->any_parent();
                if(first >= 0 && first != i)
                {
                    n.parents.push_back(first);
                }
            }
            if(n.parents.empty())
            {
                n.kind = N_SOURCE;
            }
        }
        if(n.kind == N_JOB && !w->pool)
        {
            n.kind = N_ASYNC;
        }
        if(n.kind == N_JOB)
        {
            n.target = ON_POOL;
        }
        if(n.kind == N_SOURCE)
        {
            w->open.push_back(i);
        }
        auto by = int(sim::wl(nl + 2)) - 2;
        if(by >= 0 && w->alive(by))
        {
            n.comb = by;
            tpp::async(w->loops[size_t(by)].id, std::launch::async, [&w, i]() { w->build(i); }).get();
        }
        else if(sim::wlp(1, 5))
        {
            // a combination made by a thread that is not registered belongs to no thread
            n.comb = ON_RAW;
            std::thread([&w, i]() { w->build(i); }).join();
        }
        else
        {
            w->build(i);
        }
        if(exits)
        {
            w->disturb();
        }
        else if(sim::wlp(1, 3))
        {
            w->complete_one();
        }
    }
    while(!w->open.empty())
    {
        w->complete_one();
    }
    auto from = sim::wl(uint32_t(count));
    for(int k = 0; k < count; ++k)
    {
        auto i = (int(from) + k) % count;
        auto& n = w->nodes[size_t(i)];
        if(!n.consumed)
        {
            n.last = n.uf.valid() ? look(n.uf, "the result", i) : look(n.sf, "the result", i);
        }
    }
    sim::nontrivial();
    for(auto& t : w->raw)
    {
        t.join();
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    if(sim::wlp(1, 2))
    {
        w->loops.clear();
        w->pool.reset();
    }
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    w->judge();
    w->loops.clear();
    auto kinds = std::vector<uint32_t>();
    for(auto& n : w->nodes)
    {
        kinds.push_back(n.kind);
    }
    w.reset();
    auto r = collect(MAX_N);
    for(int i = 0; i < count; ++i)
    {
        REQUIRE(r[size_t(i)].destroyed == (kinds[size_t(i)] == N_SOURCE ? 0 : 1), "callable-life", "the stage of node %d was destroyed %d times", i,
                r[size_t(i)].destroyed);
    }
}
} // namespace

SCENARIO(c26_graph, 4)
{
    graph(false);
}
SCENARIO(c26_exits, 5)
{
    graph(true);
}
