// C24: promise and future handles own exactly what they were given
#include "blocking.hpp"

namespace
{
constexpr int C_LIVE = C_USER;      // live payload objects
constexpr int C_OBS = C_USER + 10;  // what observer i saw: kind * 100000 + value + 1
constexpr int C_CONT = C_USER + 40; // how often continuation s ran

using my_error = user_error;

// no default constructor, counts its instances
struct value
{
    int v;
    explicit value(int i) : v(i)
    {
        sim::cell_add(C_LIVE, 1);
    }
    value(const value& o) : v(o.v)
    {
        sim::cell_add(C_LIVE, 1);
    }
    value(value&& o) noexcept : v(o.v)
    {
        o.v = -1;
        sim::cell_add(C_LIVE, 1);
    }
    value& operator=(const value&) = default;
    value& operator=(value&&) = default;
    ~value()
    {
        sim::cell_add(C_LIVE, -1);
    }
};

template<typename T>
struct kit;
template<>
struct kit<value>
{
    static auto make(int i) -> value
    {
        return value(i);
    }
    static auto read(const value& v) -> int
    {
        return v.v;
    }
    static void set(tpp::promise<value>& p, int i)
    {
        if(sim::wlp(1, 2))
        {
            p.set_value(value(i));
        }
        else
        {
            const value v(i);
            p.set_value(v);
        }
    }
    template<typename Fut>
    static auto get(Fut& f) -> int
    {
        return f.get().v;
    }
};
template<>
struct kit<std::unique_ptr<int>>
{
    using type = std::unique_ptr<int>;
    static auto make(int i) -> type
    {
        return std::make_unique<int>(i);
    }
    static void set(tpp::promise<type>& p, int i)
    {
        p.set_value(make(i));
    }
    template<typename Fut>
    static auto get(Fut& f) -> int
    {
        return *f.get();
    }
};
template<>
struct kit<void>
{
    static void make(int)
    {
    }
    static void set(tpp::promise<void>& p, int)
    {
        p.set_value();
    }
    template<typename Fut>
    static auto get(Fut& f) -> int
    {
        f.get();
        return 0;
    }
};

enum outcome_kind
{
    PENDING,
    VALUE,
    ERROR,
    BROKEN
};

struct outcome
{
    int kind = PENDING;
    int v = 0;
    auto operator==(const outcome& o) const -> bool
    {
        return kind == o.kind && v == o.v;
    }
};

template<typename Fut, typename T>
auto outcome_of(Fut& f) -> outcome
{
    try
    {
        auto v = kit<T>::get(f);
        return {VALUE, v};
    }
    catch(const my_error& e)
    {
        return {ERROR, e.i};
    }
    catch(const std::future_error& e)
    {
        return {e.code() == std::future_errc::broken_promise ? BROKEN : 100 + e.code().value(), 0};
    }
}

template<typename F>
auto error_of(F&& f) -> int
{
    try
    {
        f();
    }
    catch(const std::future_error& e)
    {
        return e.code().value();
    }
    return 0;
}
const int NOSTATE = int(std::future_errc::no_state);
const int RETRIEVED = int(std::future_errc::future_already_retrieved);
const int SATISFIED = int(std::future_errc::promise_already_satisfied);

// what a result should be
struct model
{
    outcome o;
    bool retrieved = false;
    int parent = -1; // result of a continuation of that one
    int mode = 0;    // what the continuation does: 0 passes on, 1 throws, 2 swallows
    bool soft = false; // the continuation is queued
};

constexpr int NP = 3, NF = 4, NS = 4;

template<typename T>
struct world
{
    std::vector<model> st;
    tpp::promise<T> p[NP];
    int pm[NP];
    tpp::future<T> f[NF];
    int fm[NF];
    tpp::shared_future<T> s[NS];
    int sm[NS];
    std::vector<std::thread> observers;
    std::vector<int> observed;
    std::vector<tpp::shared_future<T>> kept;
    tpp::thread::id home[2]{};

    world()
    {
        for(auto& m : pm)
        {
            m = add({});
        }
        for(auto& m : fm)
        {
            m = -1;
        }
        for(auto& m : sm)
        {
            m = -1;
        }
    }

    auto add(model m) -> int
    {
        if(m.parent >= 0)
        {
            auto& par = st[size_t(m.parent)];
            m.o = follow(par.o, m.mode);
        }
        st.push_back(m);
        return int(st.size()) - 1;
    }
    static auto follow(outcome o, int mode) -> outcome
    {
        if(o.kind == PENDING)
        {
            return o;
        }
        if(mode == 1)
        {
            return {ERROR, 7};
        }
        if(o.kind == VALUE)
        {
            return {VALUE, std::is_same<T, void>::value ? 0 : o.v + 1};
        }
        if(mode == 2)
        {
            return {VALUE, std::is_same<T, void>::value ? 0 : -5};
        }
        return o;
    }
    void resolve(int i, outcome o)
    {
        st[size_t(i)].o = o;
        for(int k = i + 1; k < int(st.size()); ++k)
        {
            if(st[size_t(k)].parent == i)
            {
                resolve(k, follow(o, st[size_t(k)].mode));
            }
        }
    }
    // the promise in this place goes away
    void lose(int i)
    {
        if(pm[i] >= 0 && st[size_t(pm[i])].o.kind == PENDING)
        {
            resolve(pm[i], {BROKEN, 0});
        }
        pm[i] = -1;
    }
    // queued continuations may still have to run for it
    auto queued(int i) const -> bool
    {
        return st[size_t(i)].soft || (st[size_t(i)].parent >= 0 && queued(st[size_t(i)].parent));
    }

    template<typename Fut>
    void look(const Fut& h, int m)
    {
        REQUIRE(h.valid() == (m >= 0), "wrong-valid", "valid() is %d", int(h.valid()));
        if(m < 0)
        {
            REQUIRE(error_of([&]() { h.is_ready(); }) == NOSTATE, "no-error", "is_ready without a state");
            REQUIRE(error_of([&]() { h.has_error(); }) == NOSTATE, "no-error", "has_error without a state");
            REQUIRE(error_of([&]() { h.wait(); }) == NOSTATE, "no-error", "wait without a state");
            REQUIRE(error_of([&]() { h.wait_for(1ms); }) == NOSTATE, "no-error", "wait_for without a state");
            REQUIRE(error_of([&]() { h.wait_until(tpp::clock::now() + 1ms); }) == NOSTATE, "no-error", "wait_until without a state");
            return;
        }
        const auto& o = st[size_t(m)].o;
        if(o.kind != PENDING && queued(m))
        {
            h.wait();
        }
        REQUIRE(h.is_ready() == (o.kind != PENDING), "wrong-ready", "is_ready() is %d for a result of kind %d", int(h.is_ready()), o.kind);
        REQUIRE(h.has_error() == (o.kind == ERROR || o.kind == BROKEN), "wrong-error", "has_error() is %d for a result of kind %d",
                int(h.has_error()), o.kind);
        if(o.kind != PENDING)
        {
            h.wait();
            REQUIRE(h.wait_for(1ms) == std::future_status::ready, "wrong-ready", "wait_for on a ready result");
        }
        else
        {
            auto ns = sim::wl(2) * 100;
            REQUIRE(h.wait_for(std::chrono::nanoseconds(ns)) == std::future_status::timeout, "wrong-ready", "wait_for without a result");
        }
    }

    template<typename Handle>
    auto attach(Handle& h, int m, bool fresh_thread) -> tpp::future<T>
    {
        auto mode = int(sim::wl(3));
        auto soft = sim::wlp(1, 3);
        auto id = int(st.size());
        auto cont = [mode, id](auto g) -> T
        {
            sim::cell_add(C_CONT + id, 1);
            REQUIRE(g.valid() && g.is_ready(), "not-ready", "continuation %d without a result", id);
            if(mode == 1)
            {
                throw_user(7);
            }
            int v = 0;
            try
            {
                v = kit<T>::get(g) + 1;
            }
            catch(...)
            {
                if(mode != 2)
                {
                    throw;
                }
                v = -5;
            }
            return kit<T>::make(v);
        };
        tpp::future<T> r;
        if(m < 0)
        {
            auto before = tpp::get_all_registered_threads().size();
            REQUIRE(error_of(
                        [&]()
                        {
                            if(fresh_thread)
                            {
                                r = h.then(cont);
                            }
                            else
                            {
                                r = h.then(tpp::caller_id(), cont);
                            }
                        }) == NOSTATE,
                    "no-error", "then without a state");
            REQUIRE(!r.valid(), "wrong-valid", "a refused then gave a future");
            if(fresh_thread && observers.empty())
            {
                // the thread made for it goes away again
                while(tpp::get_all_registered_threads().size() > before)
                {
                    tpp::this_thread::wait_for(10us);
                }
            }
            return r;
        }
        if(fresh_thread)
        {
            soft = true;
            r = h.then(cont);
        }
        else if(soft)
        {
            r = h.then(home[sim::wl(2)], std::launch::async, cont);
        }
        else
        {
            r = h.then(tpp::caller_id(), cont);
        }
        model c;
        c.parent = m;
        c.mode = mode;
        c.soft = soft;
        REQUIRE(add(c) == id, "harness", "model");
        return r;
    }

    void step()
    {
        auto i = int(sim::wl(NP)), j = int(sim::wl(NP));
        auto a = int(sim::wl(NF)), b = int(sim::wl(NF));
        auto x = int(sim::wl(NS)), y = int(sim::wl(NS));
        switch(sim::wl(20))
        {
            default:
            {
                // a future of the promise
                auto want = pm[i] < 0 ? NOSTATE : st[size_t(pm[i])].retrieved ? RETRIEVED : 0;
                auto got = error_of([&]() { f[a] = p[i].get_future(); });
                REQUIRE(got == want, "wrong-error", "get_future gave error %d, not %d", got, want);
                if(!want)
                {
                    st[size_t(pm[i])].retrieved = true;
                    fm[a] = pm[i];
                }
                break;
            }
            case 1:
            case 2:
            case 3:
            {
                auto how = sim::wl(4);
                auto want = pm[i] < 0 ? NOSTATE : st[size_t(pm[i])].o.kind != PENDING ? SATISFIED : 0;
                auto v = int(sim::wl(1000));
                auto got = error_of(
                    [&]()
                    {
                        if(how < 2)
                        {
                            kit<T>::set(p[i], v);
                        }
                        else if(how == 2)
                        {
                            p[i].set_exception(user_error_ptr(v));
                        }
                        else
                        {
                            p[i].abandon();
                        }
                    });
                REQUIRE(got == want, "wrong-error", "setting (way %u) gave error %d, not %d", how, got, want);
                if(!want)
                {
                    resolve(pm[i], how < 2 ? outcome{VALUE, std::is_same<T, void>::value ? 0 : v}
                                           : how == 2 ? outcome{ERROR, v} : outcome{BROKEN, 0});
                }
                break;
            }
            case 4:
                // replaced by a new one
                p[i] = tpp::promise<T>();
                lose(i);
                pm[i] = add({});
                break;
            case 5:
                p[i] = std::move(p[j]);
                if(i != j)
                {
                    lose(i);
                    pm[i] = pm[j];
                    pm[j] = -1;
                }
                break;
            case 6:
            {
                tpp::promise<T> q(std::move(p[i]));
                REQUIRE(error_of([&]() { p[i].get_future(); }) == NOSTATE, "moved-from", "get_future");
                REQUIRE(error_of([&]() { p[i].abandon(); }) == NOSTATE, "moved-from", "abandon");
                if(sim::wlp(2, 3))
                {
                    p[i] = std::move(q);
                }
                else
                {
                    lose(i);
                }
                break;
            }
            case 7:
                if(a != b)
                {
                    f[a] = std::move(f[b]);
                    fm[a] = fm[b];
                    fm[b] = -1;
                    look(f[b], -1);
                }
                break;
            case 8:
            {
                tpp::future<T> g(std::move(f[a]));
                look(f[a], -1);
                look(g, fm[a]);
                if(sim::wlp(2, 3))
                {
                    f[a] = std::move(g);
                }
                else
                {
                    fm[a] = -1;
                }
                break;
            }
            case 9:
                s[x] = f[a].share();
                sm[x] = fm[a];
                fm[a] = -1;
                look(f[a], -1);
                break;
            case 10:
            {
                tpp::shared_future<T> t(std::move(f[a]));
                s[x] = t;
                sm[x] = fm[a];
                fm[a] = -1;
                look(t, sm[x]);
                break;
            }
            case 11:
                s[x] = s[y];
                sm[x] = sm[y];
                break;
            case 12:
                if(x != y)
                {
                    s[x] = std::move(s[y]);
                    sm[x] = sm[y];
                    sm[y] = -1;
                    look(s[y], -1);
                }
                break;
            case 13:
                look(f[a], fm[a]);
                look(s[x], sm[x]);
                break;
            case 14:
            case 15:
                if(fm[a] < 0)
                {
                    REQUIRE(error_of([&]() { f[a].get(); }) == NOSTATE, "no-error", "get without a state");
                }
                else if(st[size_t(fm[a])].o.kind != PENDING)
                {
                    auto o = outcome_of<tpp::future<T>, T>(f[a]);
                    REQUIRE(o == st[size_t(fm[a])].o, "wrong-result", "get gave %d/%d, not %d/%d", o.kind, o.v, st[size_t(fm[a])].o.kind,
                            st[size_t(fm[a])].o.v);
                    sim::probe("got");
                    fm[a] = -1;
                    look(f[a], -1);
                }
                break;
            case 16:
                if(sm[x] < 0)
                {
                    REQUIRE(error_of([&]() { s[x].get(); }) == NOSTATE, "no-error", "get without a state");
                }
                else if(st[size_t(sm[x])].o.kind != PENDING)
                {
                    auto o = outcome_of<tpp::shared_future<T>, T>(s[x]);
                    REQUIRE(o == st[size_t(sm[x])].o, "wrong-result", "shared get gave %d/%d, not %d/%d", o.kind, o.v,
                            st[size_t(sm[x])].o.kind, st[size_t(sm[x])].o.v);
                    sim::probe("got_shared");
                    look(s[x], sm[x]);
                }
                break;
            case 17:
                if(st.size() < 20)
                {
                    auto m = fm[a];
                    auto r = attach(f[a], m, sim::wlp(1, 6));
                    fm[a] = -1;
                    look(f[a], -1);
                    if(m >= 0)
                    {
                        sim::probe("continued");
                        f[b] = std::move(r);
                        fm[b] = int(st.size()) - 1;
                    }
                }
                break;
            case 18:
                if(st.size() < 20)
                {
                    auto m = sm[x];
                    auto r = attach(s[x], m, sim::wlp(1, 6));
                    look(s[x], m);
                    if(m >= 0)
                    {
                        sim::probe("continued_shared");
                        f[b] = std::move(r);
                        fm[b] = int(st.size()) - 1;
                    }
                }
                break;
            case 19:
                if(sm[x] >= 0 && observers.size() < 3)
                {
                    auto n = int(observers.size());
                    observed.push_back(sm[x]);
                    kept.push_back(s[x]);
                    observers.emplace_back(
                        [h = s[x], n]()
                        {
                            tpp::this_thread::register_this_thread();
                            auto g = h;
                            auto o = outcome_of<tpp::shared_future<T>, T>(g);
                            sim::cell_set(C_OBS + n, int64_t(o.kind) * 100000 + o.v + 1000);
                            tpp::this_thread::unregister_this_thread();
                        });
                }
                break;
        }
    }

    void finish()
    {
        for(int i = 0; i < NP; ++i)
        {
            if(sim::wlp(1, 2))
            {
                p[i] = tpp::promise<T>();
                lose(i);
                pm[i] = add({});
            }
            else
            {
                tpp::promise<T> q(std::move(p[i]));
                lose(i);
            }
        }
        for(int i = 0; i < NF; ++i)
        {
            // nothing is pending any more, except for the fresh promises' own
            if(fm[i] >= 0)
            {
                look(f[i], fm[i]);
            }
        }
        for(int i = 0; i < NS; ++i)
        {
            if(sm[i] >= 0)
            {
                look(s[i], sm[i]);
            }
        }
        for(size_t n = 0; n < observers.size(); ++n)
        {
            kept[n].wait(); // its continuation may be queued for this thread
            observers[n].join();
            const auto& o = st[size_t(observed[n])].o;
            REQUIRE(sim::cell(C_OBS + int(n)) == int64_t(o.kind) * 100000 + o.v + 1000, "wrong-result",
                    "an observer saw %ld, not kind %d value %d", long(sim::cell(C_OBS + int(n))), o.kind, o.v);
            sim::nontrivial();
        }
    }
};

// the handles are handed from thread to thread through tasks
template<typename T>
void travel(std::unique_ptr<world<T>> w, int hops, std::shared_ptr<tpp::promise<void>> done)
{
    auto n = sim::wlr(2, 10);
    for(uint32_t i = 0; i < n; ++i)
    {
        w->step();
    }
    if(hops > 0)
    {
        sim::nontrivial();
        auto to = w->home[hops % 2];
        REQUIRE(tpp::invoke(to, [w = std::move(w), hops, done]() mutable { travel(std::move(w), hops - 1, done); }), "rejected",
                "a live thread refused the task");
        return;
    }
    w->finish();
    w.reset();
    done->set_value();
}

template<typename T>
void handles_run()
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse | sim::fb_sysclock);
    tpp::init();
    {
        auto t = tpp::make_thread("other");
        auto w = std::make_unique<world<T>>();
        w->home[0] = tpp::this_thread::get_id();
        w->home[1] = t.get_id();
        auto done = std::make_shared<tpp::promise<void>>();
        auto end = done->get_future();
        travel(std::move(w), int(sim::wl(4)), done);
        end.get();
        // continuations nobody looked at may still be queued
        while(tpp::get_pending_task_count(tpp::this_thread::get_id()) || tpp::get_pending_task_count(t.get_id()))
        {
            tpp::this_thread::wait_for(10us);
        }
        while(tpp::get_all_registered_threads().size() > 2)
        {
            tpp::this_thread::wait_for(10us);
        }
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    for(int i = 0; i < 30; ++i)
    {
        REQUIRE(sim::cell(C_CONT + i) <= 1, "ran-twice", "continuation %d ran %ld times", i, long(sim::cell(C_CONT + i)));
    }
    REQUIRE(sim::cell(C_LIVE) == 0, "leak", "%ld values are left", long(sim::cell(C_LIVE)));
}
} // namespace

SCENARIO(c24_values, 4)
{
    handles_run<value>();
}
SCENARIO(c24_void, 3)
{
    handles_run<void>();
}
SCENARIO(c24_moveonly, 3)
{
    handles_run<std::unique_ptr<int>>();
}
