// A thread that has something to say to every registered thread: it notifies
// them, sends tasks to them or configures them, whoever they belong to.
#pragma once
#include "common.hpp"

struct crier
{
    static constexpr int C_STOP = CELL_FREE + 900;
    static constexpr int C_SENT = CELL_FREE + 901;
    static constexpr int C_EXECUTED = CELL_FREE + 902;
    std::thread t;

    crier()
    {
        sim::cell_set(C_STOP, 0);
        t = std::thread(
            []()
            {
                tpp::this_thread::register_this_thread();
                auto rounds = sim::wlr(1, 6);
                for(uint32_t r = 0; r < rounds && !sim::cell(C_STOP); ++r)
                {
                    for(auto id : tpp::get_all_registered_threads())
                    {
                        switch(sim::wl(5))
                        {
                            case 0:
                                break;
                            case 1:
                                tpp::notify(id);
                                break;
                            case 2:
                                tpp::set_thread_config(id, {});
                                break;
                            default:
                                tpp::invoke(id, []() { sim::cell_add(C_EXECUTED, 1); });
                                break;
                        }
                        sim::cell_add(C_SENT, 1);
                    }
                    sim::block_for(sim::wlp(1, 2) ? 1000 : 1000000);
                }
                tpp::this_thread::unregister_this_thread();
            });
    }
    ~crier()
    {
        sim::cell_set(C_STOP, 1);
        t.join();
    }
};
