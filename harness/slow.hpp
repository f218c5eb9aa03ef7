// Long silences: whatever waits may have to wait for hours. Nothing in these
// scenarios wakes up by itself, so a long simulated time costs nothing.
#pragma once
#include "blocking.hpp"

constexpr uint64_t SECOND = 1000000000ull;

inline auto gap_ns() -> uint64_t
{
    static const uint64_t g[] = {11, 3, 31, 61, 301, 601, 3601, 7201, 90001};
    return g[sim::wl(9)] * SECOND;
}

// nothing happens for a long time
inline auto gap() -> uint64_t
{
    auto ns = gap_ns();
    sim::block_for(ns);
    return ns;
}

inline void slow_init()
{
    sim::set_fault_mask(sim::fb_spurious | sim::fb_idreuse);
    tpp::init();
}

inline void slow_end(const char* what)
{
    auto t0 = sim::now();
    auto left = tpp::shutdown(std::chrono::seconds(1000));
    REQUIRE(left == 0 && sim::now() - t0 < 10 * SECOND, "shutdown-failed", "%s: shutdown returned %d after %lu ns", what, left,
            (unsigned long)(sim::now() - t0));
    sim::nontrivial();
}

// it happened after t0 and promptly
inline void prompt(uint64_t t0, const char* what)
{
    REQUIRE(sim::now() - t0 < SECOND, "late", "%s %lu ns after the event", what, (unsigned long)(sim::now() - t0));
}
