// Shared helpers for scenarios.
#pragma once
#include "simrt.h"
#include <atomic>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

// Calls f(op) for the operations of one client, in plan order.
inline void each_op(const sim::Plan& p, int thr, const std::function<void(const sim::Op&)>& f) {
    for (auto& o : p.ops) if (o.thr == thr) f(o);
}
inline int max_client(const sim::Plan& p) {
    int m = -1;
    for (auto& o : p.ops) if (o.thr > m) m = o.thr;
    return m;
}
// Spawns one simulated thread per client and joins them all.
inline void run_clients(const sim::Plan& p, const std::function<void(int, const sim::Op&)>& f) {
    int n = max_client(p) + 1;
    for (int c = 0; c < n; ++c)
        sim::spawn([&p, &f, c] { each_op(p, c, [&](const sim::Op& o) { f(c, o); }); });
    sim::join_all();
}
void sim_sleep_ms(int ms);     // simulated sleep of a client
