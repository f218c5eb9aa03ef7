// Shared by the when_all / when_any scenarios: a set of input futures, each
// completed with its own value or error by some thread at some time.
#pragma once
#include "blocking.hpp"

enum : int
{
    E_IN_SET = E_USER, // a input: about to be completed
    E_IN_DONE,         // a input: completed
    E_COMBINED,        // the combined future was seen ready
};
constexpr int C_OUTCOME = C_USER + 32; // + input: 0 value 1 error 2 broken
constexpr int MAX_IN = 6;
constexpr int G_IN_DONE = 11; // inputs completely done: their source may go

using my_error = user_error;

struct heavy
{
    std::vector<int> v;
};

inline auto value_of(const int& v) -> int
{
    return v;
}
inline auto value_of(const heavy& h) -> int
{
    REQUIRE(h.v.size() == 2 && h.v[0] == h.v[1], "torn-value", "value is damaged");
    return h.v[0];
}
template<typename T>
void give(tpp::promise<T>& p, int i)
{
    if constexpr(std::is_void<T>::value)
    {
        p.set_value();
    }
    else if constexpr(std::is_same<T, heavy>::value)
    {
        heavy h;
        h.v.assign(2, i + 100);
        p.set_value(std::move(h));
    }
    else
    {
        p.set_value(i + 100);
    }
}

// an input that is completed later
template<typename T>
struct source
{
    int index = 0;
    std::unique_ptr<tpp::promise<T>> p = std::make_unique<tpp::promise<T>>();
    void complete()
    {
        sim::ev(E_IN_SET, index);
        auto i = index;
        switch(sim::cell(C_OUTCOME + index))
        {
            default:
                give(*p, index);
                break;
            case 1:
                p->set_exception(user_error_ptr(index));
                break;
            case 2:
                p.reset();
                break;
        }
        sim::ev(E_IN_DONE, i);
        sim::gate_open(G_IN_DONE);
    }
};

// takes and checks the result of input i
template<typename Fut>
void take(Fut& f, int i)
{
    REQUIRE(f.valid(), "invalid-input", "input future %d is not valid in the result", i);
    int64_t how = 0;
    try
    {
        if constexpr(std::is_void<decltype(f.get())>::value)
        {
            f.get();
        }
        else
        {
            auto v = value_of(f.get());
            REQUIRE(v == i + 100, "wrong-value", "input %d delivered the value of input %d", i, v - 100);
        }
    }
    catch(const my_error& e)
    {
        how = 1;
        REQUIRE(e.i == i, "wrong-error", "input %d delivered the error of input %d", i, e.i);
    }
    catch(const std::future_error& e)
    {
        how = 2;
        REQUIRE(e.code() == std::future_errc::broken_promise, "wrong-error", "future_error %d", e.code().value());
    }
    REQUIRE(how == sim::cell(C_OUTCOME + i), "wrong-result", "input %d delivered outcome %ld", i, long(how));
}

inline void choose_outcomes()
{
    for(int i = 0; i < MAX_IN; ++i)
    {
        sim::cell_set(C_OUTCOME + i, sim::wlp(2, 3) ? 0 : sim::wlr(1, 2));
    }
}

// runs the completions of the inputs on various threads
struct completer
{
    std::vector<std::thread> raw;
    tpp::thread::id loop = 0;
    bool may_inline = true; // complete some inputs in the calling thread
    template<typename S>
    void later(S* s)
    {
        auto how = sim::wl(4);
        if(how == 2 && !may_inline)
        {
            how = 0;
        }
        switch(how)
        {
            default:
                raw.emplace_back(
                    [s]()
                    {
                        if(sim::wlp(1, 3))
                        {
                            sim::block_for(1000 * sim::wlr(1, 50));
                        }
                        s->complete();
                    });
                break;
            case 1:
                REQUIRE(tpp::invoke(loop, [s]() { s->complete(); }), "refused", "send refused");
                break;
            case 2:
                s->complete();
                break;
            case 3:
                tpp::invoke(tpp::this_thread::get_id(), [s]() { s->complete(); });
                break;
        }
    }
    void join()
    {
        for(auto& t : raw)
        {
            t.join();
        }
        raw.clear();
    }
};

// where the combination is made: runs fn() -> combined future there
enum where_kind : uint32_t
{
    ON_MAIN,
    ON_LOOPER,
    ON_UNREGISTERED,
};
template<typename F>
auto combine_on(uint32_t where, tpp::thread::id loop, F fn) -> decltype(fn())
{
    using R = decltype(fn());
    switch(where)
    {
        default:
            return fn();
        case ON_LOOPER:
        {
            auto out = std::make_shared<R>();
            tpp::async(loop, std::launch::async, [out, fn = std::move(fn)]() mutable { *out = fn(); }).get();
            return std::move(*out);
        }
        case ON_UNREGISTERED:
        {
            R out;
            std::thread([&]() { out = fn(); }).join();
            return out;
        }
    }
}
