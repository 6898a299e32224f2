// Waiting programs (C01, C06): balanced numbers of elements, every unit moves a fixed number of them and waits as long as it takes.
#pragma once
#include "chan_prog.hpp"
using namespace mc;
// each unit moves a fixed number of elements, waiting as long as it takes
enum { U_PUSH, U_PUSHMV, U_TRY, U_TRYTHENPUSH, U_BULK2, U_PEEK2, U_DBF2, U_SPACE2 };
static const char* un[] = {"push", "push(&&)", "try_push until it works", "try_push else push", "bulk(2) until done", "segments until 2 done", "view until 2 done", "wait for 1 by occupancy, then move"};
static int units(int u) { return u >= U_BULK2 && u <= U_DBF2 ? 2 : 1; }

template <class P> static void prod(P& g, int u) {
    switch (u) {
        case U_PUSH: g.p_push(false); break; case U_PUSHMV: g.p_push(true); break;
        case U_TRY: while (!g.p_try(false)) std::this_thread::yield(); break;
        case U_TRYTHENPUSH: if (!g.p_try(true)) g.p_push(false); break;
        case U_BULK2: for (size_t k = 0; k < 2;) { size_t n = g.p_write(2 - k); k += n; if (!n) std::this_thread::yield(); } break;
        case U_PEEK2: for (size_t k = 0; k < 2;) { size_t n = g.p_peek(2 - k); k += n; if (!n) std::this_thread::yield(); } break;
        case U_DBF2: for (size_t k = 0; k < 2;) { size_t n = g.p_dbf(2 - k); k += n; if (!n) std::this_thread::yield(); } break;
        case U_SPACE2: while (g.ch.space() == 0) std::this_thread::yield(); g.p_push(false); break;
    }
}
template <class P> static void cons(P& g, int u) {
    switch (u) {
        case U_PUSH: case U_PUSHMV: g.c_pop(); break;
        case U_TRY: while (!g.c_try()) std::this_thread::yield(); break;
        case U_TRYTHENPUSH: if (!g.c_try()) g.c_pop(); break;
        case U_BULK2: for (size_t k = 0; k < 2;) { size_t n = g.c_read(2 - k); k += n; if (!n) std::this_thread::yield(); } break;
        case U_PEEK2: for (size_t k = 0; k < 2;) { size_t n = g.c_peek(2 - k); k += n; if (!n) std::this_thread::yield(); } break;
        case U_DBF2: for (size_t k = 0; k < 2;) { size_t n = g.c_dbf(2 - k); k += n; if (!n) std::this_thread::yield(); } break;
        case U_SPACE2: while (g.ch.size() == 0) std::this_thread::yield(); g.c_pop(); break;
    }
}
static void build(std::vector<int>& out, int first, const std::vector<int>& al, int total) {
    out = {first}; int n = units(first);
    while (n < total) { std::vector<int> ok; for (int u : al) if (n + units(u) <= total) ok.push_back(u); int u = ok[choose((int)ok.size())]; out.push_back(u); n += units(u); }
}
template <class E, size_t N> static void waiting(const char* en, Store st, bool full, int bound, int stale, int total, std::vector<int> al, bool states) {
    for (int p : al) for (int c : al) {
        if (units(p) > total || units(c) > total) continue;
        char nm[240]; snprintf(nm, sizeof nm, "%s cap%zu %s %s b%d, %d elements: %s.. | %s..", stname[st], N, en, full ? "full" : "bounded", bound, total, un[p], un[c]);
        scenario(nm, [=] {
            Opts o; o.threads = true; o.full = full; o.bound = bound; o.stale = stale; o.free_switch = true; o.max_steps = 4000;
            note("%s", nm); sample("%s", nm);
            explore(o, [=] {
                ProgCfg cfg; cfg.cap = N; cfg.strict = false;
                if (states) { cfg.rot = choose((int)N + 1); cfg.fill = choose((int)N + 1); }
                std::vector<int> pp, cc; build(pp, p, al, total); build(cc, c, al, total);
                with_channel<E, N>(st, [&](auto& ch) {
                    Prog<E, std::decay_t<decltype(ch)>> g(ch, cfg); g.prepare();
                    std::string s = "producer:"; for (int u : pp) s += std::string(" ") + un[u] + ";"; s += " consumer:"; for (int u : cc) s += std::string(" ") + un[u] + ";"; note("%s %s", nm, s.c_str());
                    std::thread a([&] { for (int u : pp) prod(g, u); });
                    std::thread b([&] { for (int u : cc) cons(g, u); });
                    a.join(); b.join();
                    MC_CHECK(ch.size() == (size_t)cfg.fill, "balance", "%d written and %d read, but occupancy went from %d to %zu", total, total, cfg.fill, ch.size());
                    outcome(hmix(steps(), stale_used()));
                    g.finish();
                });
            });
        });
    }
}
