// C09: when_all is ready exactly when every input is, with all results in order
#include "when.hpp"
#include "slow.hpp"
#include "large.hpp"

namespace
{
// the combined future must not be ready while an input is not
void judge(int n)
{
    int seen = 0;
    uint64_t combined = 0;
    for(size_t i = 0; i < sim::history_size(); ++i)
    {
        const auto& e = sim::history_at(i);
        if(e.kind == E_IN_SET)
        {
            ++seen;
        }
        if(e.kind == E_COMBINED && !combined)
        {
            combined = e.seq;
            REQUIRE(seen == n, "early", "when_all was ready when only %d of %d inputs were set", seen, n);
        }
    }
}

template<typename Fut>
void range_form()
{
    constexpr bool shared = std::is_same<Fut, tpp::shared_future<int>>::value;
    auto n = int(sim::wl(5));
    auto where = sim::wl(3);
    choose_outcomes();
    {
        auto loop = looper::make(sim::wl(2), sim::wl(3));
        completer comp;
        comp.loop = loop.id;
        std::vector<source<int>> src(static_cast<size_t>(n));
        std::vector<Fut> ins;
        std::vector<char> done(size_t(n), 0);
        for(int i = 0; i < n; ++i)
        {
            src[size_t(i)].index = i;
            ins.emplace_back(src[size_t(i)].p->get_future());
            if(sim::wlp(1, 4))
            {
                src[size_t(i)].complete(); // ready from the start
                done[size_t(i)] = 1;
            }
        }
        // some complete while the combination is made
        for(int i = 0; i < n; ++i)
        {
            if(!done[size_t(i)] && sim::wlp(1, 3))
            {
                done[size_t(i)] = 1;
                auto* s = &src[size_t(i)];
                comp.raw.emplace_back([s]() { s->complete(); });
            }
        }
        auto all = combine_on(where, loop.id, [&ins]() { return tpp::when_all(ins.begin(), ins.end()); });
        REQUIRE(all.valid(), "invalid", "when_all returned an invalid future");
        if(n == 0)
        {
            REQUIRE(all.is_ready(), "not-ready", "when_all of nothing is not ready");
        }
        bool mid = sim::wlp(1, 2);
        std::vector<int> order;
        for(int i = 0; i < n; ++i)
        {
            if(!done[size_t(i)])
            {
                order.push_back(i);
            }
        }
        if(order.size() > 1 && sim::wlp(1, 2))
        {
            std::swap(order.front(), order[sim::wl(uint32_t(order.size()))]);
        }
        for(size_t k = 0; k < order.size(); ++k)
        {
            if(mid && k + 1 == order.size())
            {
                // one input is still missing
                tpp::this_thread::process();
                REQUIRE(!all.is_ready(), "early", "when_all ready although input %d is not", order[k]);
            }
            comp.later(&src[size_t(order[k])]);
        }
        auto how = sim::wl(3);
        if(how == 1)
        {
            all.wait();
            REQUIRE(all.is_ready(), "not-ready", "wait returned early");
        }
        if(how == 2 && where != ON_MAIN)
        {
            auto st = all.wait_for(1h);
            REQUIRE(st == std::future_status::ready && sim::now() < HOUR / 2, "not-ready", "when_all never became ready");
        }
        auto res = all.get();
        sim::ev(E_COMBINED);
        REQUIRE(int(res.size()) == n, "wrong-size", "when_all of %d inputs delivered %zu", n, res.size());
        for(int i = 0; i < n; ++i)
        {
            REQUIRE(res[size_t(i)].valid() && res[size_t(i)].is_ready(), "not-ready", "input %d is not ready in the result", i);
        }
        for(int i = 0; i < n; ++i)
        {
            take(res[size_t(i)], i);
            if(shared)
            {
                take(ins[size_t(i)], i); // the original handle still works
            }
        }
        if(n > 1)
        {
            sim::nontrivial();
        }
        comp.join();
        sim::gate_wait(G_IN_DONE, n);
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    judge(n);
}

void variadic_form()
{
    auto where = sim::wl(3);
    choose_outcomes();
    constexpr int n = 4;
    {
        auto loop = looper::make(sim::wl(2), sim::wl(3));
        completer comp;
        comp.loop = loop.id;
        source<int> a;
        source<heavy> b;
        source<void> c;
        source<int> d;
        b.index = 1;
        c.index = 2;
        d.index = 3;
        auto fa = a.p->get_future();
        auto fb = b.p->get_future().share();
        auto fc = c.p->get_future();
        auto fd = d.p->get_future();
        uint32_t early = sim::wl(16);
        if(early & 1)
        {
            a.complete();
        }
        if(early & 2)
        {
            b.complete();
        }
        bool par_c = sim::wlp(1, 3);
        if(par_c)
        {
            comp.raw.emplace_back([&c]() { c.complete(); });
        }
        auto all = combine_on(where, loop.id, [&]() { return tpp::when_all(std::move(fa), fb, std::move(fc), std::move(fd)); });
        REQUIRE(fb.valid(), "input-lost", "a shared input is no longer valid");
        REQUIRE(!all.is_ready(), "early", "when_all ready although an input is not");
        if(!(early & 1))
        {
            comp.later(&a);
        }
        if(!(early & 2))
        {
            comp.later(&b);
        }
        if(!par_c)
        {
            comp.later(&c);
        }
        comp.later(&d);
        bool attach = sim::wlp(1, 3);
        if(attach)
        {
            // a continuation sees the complete result
            auto f = all.then(tpp::this_thread::get_id(), sim::wlp(1, 2) ? std::launch::async : std::launch::deferred,
                              [](auto all2)
                              {
                                  sim::ev(E_COMBINED);
                                  auto res = all2.get();
                                  take(std::get<0>(res), 0);
                                  take(std::get<1>(res), 1);
                                  take(std::get<2>(res), 2);
                                  take(std::get<3>(res), 3);
                                  return 1;
                              });
            REQUIRE(f.get() == 1, "wrong-value", "continuation");
        }
        else
        {
            auto res = all.get();
            sim::ev(E_COMBINED);
            REQUIRE(std::get<0>(res).is_ready() && std::get<1>(res).is_ready() && std::get<2>(res).is_ready() && std::get<3>(res).is_ready(),
                    "not-ready", "an input is not ready in the result");
            take(std::get<0>(res), 0);
            take(std::get<1>(res), 1);
            take(std::get<2>(res), 2);
            take(std::get<3>(res), 3);
        }
        sim::nontrivial();
        comp.join();
        sim::gate_wait(G_IN_DONE, n);
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
    judge(n);
}
} // namespace

SCENARIO(c09_range, 5)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    if(sim::wlp(1, 2))
    {
        range_form<tpp::future<int>>();
    }
    else
    {
        range_form<tpp::shared_future<int>>();
    }
}

SCENARIO(c09_variadic, 4)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    if(sim::wlp(1, 20))
    {
        auto f = tpp::when_all();
        REQUIRE(f.is_ready(), "not-ready", "when_all() is not ready");
        f.get();
    }
    variadic_form();
}

// results of results: when_all over asyncs and over another when_all
SCENARIO(c09_nested, 2)
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
    {
        auto a = looper::make(sim::wl(2), sim::wl(3));
        auto b = looper::make(sim::wl(2), sim::wl(3));
        std::vector<tpp::future<int>> v;
        auto n = int(sim::wlr(1, 4));
        for(int i = 0; i < n; ++i)
        {
            v.push_back(tpp::async(sim::wlp(1, 2) ? a.id : b.id, [i]() { return i; }));
        }
        auto inner = tpp::when_all(v.begin(), v.end());
        auto other = tpp::async(b.id, []() { return 50; });
        auto outer = tpp::when_all(std::move(inner), std::move(other));
        auto r = outer.get();
        auto vec = std::get<0>(r).get();
        REQUIRE(int(vec.size()) == n, "wrong-size", "inner size");
        for(int i = 0; i < n; ++i)
        {
            REQUIRE(vec[size_t(i)].get() == i, "wrong-value", "inner value");
        }
        REQUIRE(std::get<1>(r).get() == 50, "wrong-value", "outer value");
        sim::nontrivial();
    }
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse); // its time limit is not the subject here
    auto left = tpp::shutdown();
    REQUIRE(left == 0, "shutdown-failed", "shutdown returned %d", left);
}

// after a long silence
SCENARIO(c09_slow, 1)
{
    slow_init();
    {
        tpp::promise<int> p[3];
        std::vector<tpp::shared_future<int>> fs;
        for(auto& q : p)
        {
            fs.push_back(q.get_future().share());
        }
        auto first = int(sim::wl(3));
        std::thread setter(
            [&p, first]()
            {
                for(int i = 0; i < 3; ++i)
                {
                    gap();
                    sim::cell_set(C_USER + 90 + i, int64_t(sim::now()));
                    p[(first + i) % 3].set_value((first + i) % 3);
                }
            });
        auto r = sim::wlp(1, 2) ? tpp::when_all(fs.begin(), fs.end()).get() : std::vector<tpp::shared_future<int>>();
        if(r.empty())
        {
            auto t = tpp::when_all(fs[0], fs[1], fs[2]).get();
            r = {std::get<0>(t), std::get<1>(t), std::get<2>(t)};
        }
        REQUIRE(sim::cell(C_USER + 92) != 0, "early", "ready before all inputs");
        prompt(uint64_t(sim::cell(C_USER + 92)), "when_all was ready");
        for(int i = 0; i < 3; ++i)
        {
            REQUIRE(r[size_t(i)].is_ready() && r[size_t(i)].get() == i, "wrong-value", "input %d", i);
        }
        setter.join();
    }
    slow_end("c09");
}

SCENARIO(c09_large, 1)
{
    large::all();
}
