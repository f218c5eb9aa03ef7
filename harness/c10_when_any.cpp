// C10: when_any fires once, names a ready input and loses none of the others
#include "when.hpp"
#include "slow.hpp"
#include "large.hpp"

namespace
{
constexpr int C_FIRED = C_USER;

void judge()
{
    bool set[MAX_IN] = {};
    bool any = false;
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind == E_IN_SET)
        {
            set[e.a] = true;
            any = true;
        }
        if(e.kind == E_COMBINED)
        {
            REQUIRE(any, "early", "when_any was ready before any input");
            REQUIRE(e.a >= 0 && e.a < MAX_IN && set[e.a], "wrong-index", "when_any named input %ld which was not set then", long(e.a));
        }
    }
    REQUIRE(sim::cell(C_FIRED) == 1, "fired-twice", "when_any fired %ld times", long(sim::cell(C_FIRED)));
}

template<typename Fut>
void range_form(bool in_continuation)
{
    auto n = int(sim::wlr(1, 4));
    auto where = sim::wl(3);
    choose_outcomes();
    {
        auto loop = looper::make(sim::wl(2), sim::wl(3));
        completer comp;
        comp.loop = loop.id;
        comp.may_inline = !in_continuation;
        std::vector<source<int>> src(static_cast<size_t>(n));
        std::vector<Fut> ins;
        std::vector<char> done(size_t(n), 0);
        for(int i = 0; i < n; ++i)
        {
            src[size_t(i)].index = i;
            ins.emplace_back(src[size_t(i)].p->get_future());
            if(sim::wlp(1, 6))
            {
                src[size_t(i)].complete();
                done[size_t(i)] = 1;
            }
        }
        for(int i = 0; i < n; ++i)
        {
            if(!done[size_t(i)] && sim::wlp(1, 3))
            {
                done[size_t(i)] = 1;
                auto* s = &src[size_t(i)];
                comp.raw.emplace_back([s]() { s->complete(); });
            }
        }
        auto any = combine_on(where, loop.id, [&ins]() { return tpp::when_any(ins.begin(), ins.end()); });
        REQUIRE(any.valid(), "invalid", "when_any returned an invalid future");
        bool some = false;
        std::vector<int> order;
        for(int i = 0; i < n; ++i)
        {
            some |= done[size_t(i)] != 0;
            if(!done[size_t(i)])
            {
                order.push_back(i);
            }
        }
        if(order.size() > 1)
        {
            std::swap(order.front(), order[sim::wl(uint32_t(order.size()))]);
        }
        if(!some)
        {
            tpp::this_thread::process();
            REQUIRE(!any.is_ready(), "early", "when_any ready although no input is");
        }
        // hold some inputs back until the first result was seen
        size_t hold = order.empty() ? 0 : sim::wl(uint32_t(some ? order.size() + 1 : order.size()));
        if(in_continuation)
        {
            hold = 0; // the continuation waits for the rest itself
        }
        auto main_id = tpp::this_thread::get_id();
        auto on = where == ON_LOOPER ? loop.id : main_id;
        tpp::future<int> cont;
        auto use = [n](auto res, bool rest)
        {
            sim::cell_add(C_FIRED, 1);
            sim::ev(E_COMBINED, int64_t(res.index));
            REQUIRE(int(res.futures.size()) == n, "wrong-size", "when_any of %d inputs delivered %zu", n, res.futures.size());
            REQUIRE(res.index < size_t(n), "wrong-index", "index %zu of %d", res.index, n);
            REQUIRE(res.futures[res.index].valid() && res.futures[res.index].is_ready(), "wrong-index", "the named input is not ready");
            for(int i = 0; i < n; ++i)
            {
                REQUIRE(res.futures[size_t(i)].valid(), "input-lost", "input %d is not valid in the result", i);
            }
            if(rest)
            {
                for(int i = 0; i < n; ++i)
                {
                    take(res.futures[size_t(i)], i);
                }
            }
            return res;
        };
        for(size_t k = 0; k + hold < order.size(); ++k)
        {
            comp.later(&src[size_t(order[k])]);
        }
        if(in_continuation)
        {
            static const std::launch pol[] = {std::launch::deferred, std::launch::async};
            cont = any.then(on, pol[sim::wl(2)],
                            [use](auto f)
                            {
                                use(f.get(), true);
                                return 3;
                            });
        }
        if(in_continuation)
        {
            REQUIRE(cont.get() == 3, "wrong-value", "continuation");
            sim::nontrivial();
        }
        else
        {
            if(sim::wlp(1, 3) && where != ON_MAIN)
            {
                auto st = any.wait_for(1h);
                REQUIRE(st == std::future_status::ready && sim::now() < HOUR / 2, "not-ready", "when_any never became ready");
            }
            auto res = use(any.get(), false);
            take(res.futures[res.index], int(res.index));
            if(hold)
            {
                sim::nontrivial();
                for(int i = 0; i < n; ++i)
                {
                    for(size_t k = order.size() - hold; k < order.size(); ++k)
                    {
                        if(order[k] == i)
                        {
                            REQUIRE(!res.futures[size_t(i)].is_ready(), "wrong-state", "input %d is ready although nobody set it", i);
                        }
                    }
                }
            }
            for(size_t k = order.size() - hold; k < order.size(); ++k)
            {
                comp.later(&src[size_t(order[k])]);
            }
            for(int i = 0; i < n; ++i)
            {
                if(size_t(i) != res.index)
                {
                    take(res.futures[size_t(i)], i);
                }
            }
        }
        comp.join();
        sim::gate_wait(G_IN_DONE, n);
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    judge();
}

template<typename R>
void use_tuple(R& res)
{
    sim::cell_add(C_FIRED, 1);
    sim::ev(E_COMBINED, int64_t(res.index));
    REQUIRE(res.index < 4, "wrong-index", "index %zu", res.index);
    bool ready = false;
    tpp::visit_at(res.futures, res.index, [&](auto& f) { ready = f.valid() && f.is_ready(); });
    REQUIRE(ready, "wrong-index", "the named input is not ready");
    REQUIRE(std::get<0>(res.futures).valid() && std::get<1>(res.futures).valid() && std::get<2>(res.futures).valid() &&
                std::get<3>(res.futures).valid(),
            "input-lost", "an input is not valid in the result");
}
template<typename R>
void take_tuple(R& res)
{
    take(std::get<0>(res.futures), 0);
    take(std::get<1>(res.futures), 1);
    take(std::get<2>(res.futures), 2);
    take(std::get<3>(res.futures), 3);
}

void variadic_form(bool in_continuation)
{
    auto where = sim::wl(3);
    choose_outcomes();
    {
        auto loop = looper::make(sim::wl(2), sim::wl(3));
        completer comp;
        comp.loop = loop.id;
        comp.may_inline = !in_continuation;
        source<int> a;
        source<heavy> b;
        source<void> c;
        source<int> d;
        b.index = 1;
        c.index = 2;
        d.index = 3;
        auto fa = a.p->get_future();
        auto fb = b.p->get_future().share();
        auto fc = c.p->get_future();
        auto fd = d.p->get_future();
        uint32_t when = sim::wl(4); // 0 after, 1 a ready before, 2 d ready before, 3 c meanwhile
        if(when == 1)
        {
            a.complete();
        }
        if(when == 2)
        {
            d.complete();
        }
        if(when == 3)
        {
            comp.raw.emplace_back([&c]() { c.complete(); });
        }
        auto any = combine_on(where, loop.id, [&]() { return tpp::when_any(std::move(fa), fb, std::move(fc), std::move(fd)); });
        auto on = where == ON_LOOPER ? loop.id : tpp::this_thread::get_id();
        REQUIRE(fb.valid(), "input-lost", "a shared input is no longer valid");
        tpp::future<int> cont;
        bool hold_b = !in_continuation && sim::wlp(1, 2);
        if(!hold_b)
        {
            comp.later(&b);
        }
        if(when != 3)
        {
            comp.later(&c);
        }
        if(when != 2)
        {
            comp.later(&d);
        }
        if(when != 1)
        {
            comp.later(&a);
        }
        if(in_continuation)
        {
            cont = any.then(on, sim::wlp(1, 2) ? std::launch::async : std::launch::deferred,
                            [](auto f)
                            {
                                auto res = f.get();
                                use_tuple(res);
                                take_tuple(res);
                                return 3;
                            });
        }
        if(in_continuation)
        {
            REQUIRE(cont.get() == 3, "wrong-value", "continuation");
        }
        else
        {
            auto res = any.get();
            use_tuple(res);
            if(hold_b)
            {
                REQUIRE(!std::get<1>(res.futures).is_ready(), "wrong-state", "input is ready although nobody set it");
                comp.later(&b);
            }
            take_tuple(res);
        }
        sim::nontrivial();
        comp.join();
        sim::gate_wait(G_IN_DONE, 4);
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    judge();
}
void start()
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    if(sim::wlp(1, 20))
    {
        auto f = tpp::when_any();
        REQUIRE(f.is_ready() && f.get().index == size_t(-1), "not-ready", "when_any() is not ready without index");
        std::vector<tpp::future<int>> none;
        auto g = tpp::when_any(none.begin(), none.end());
        REQUIRE(g.is_ready(), "not-ready", "when_any of nothing is not ready");
        auto r = g.get();
        REQUIRE(r.index == size_t(-1) && r.futures.empty(), "wrong-index", "when_any of nothing names an input");
    }
}
} // namespace

SCENARIO(c10_range, 5)
{
    start();
    if(sim::wlp(1, 2))
    {
        range_form<tpp::future<int>>(false);
    }
    else
    {
        range_form<tpp::shared_future<int>>(false);
    }
}
SCENARIO(c10_variadic, 4)
{
    start();
    variadic_form(false);
}
SCENARIO(c10_continuation, 5)
{
    start();
    switch(sim::wl(3))
    {
        default:
            range_form<tpp::future<int>>(true);
            break;
        case 1:
            range_form<tpp::shared_future<int>>(true);
            break;
        case 2:
            variadic_form(true);
            break;
    }
}

// after a long silence
SCENARIO(c10_slow, 1)
{
    slow_init();
    {
        tpp::promise<int> p[3];
        std::vector<tpp::shared_future<int>> fs;
        for(auto& q : p)
        {
            fs.push_back(q.get_future().share());
        }
        auto first = int(sim::wl(3));
        std::thread setter(
            [&p, first]()
            {
                for(int i = 0; i < 3; ++i)
                {
                    gap();
                    sim::cell_set(C_USER + 90 + i, int64_t(sim::now()));
                    p[(first + i) % 3].set_value((first + i) % 3);
                }
            });
        auto r = tpp::when_any(fs.begin(), fs.end()).get();
        REQUIRE(int(r.index) == first, "wrong-index", "index %zu, not %d", r.index, first);
        prompt(uint64_t(sim::cell(C_USER + 90)), "when_any was ready");
        for(int i = 0; i < 3; ++i)
        {
            auto k = (first + i) % 3;
            REQUIRE(r.futures[size_t(k)].get() == k, "wrong-value", "input %d", k);
            prompt(uint64_t(sim::cell(C_USER + 90 + i)), "the input was ready");
        }
        setter.join();
    }
    slow_end("c10");
}

SCENARIO(c10_large, 1)
{
    large::any();
}
