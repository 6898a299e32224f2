// F02: every block is served by exactly one running worker, again and again, within its batch limit.
#include "flow.hpp"
using namespace mc;

struct Ctx { int n = 0, batch = 0, mode = 0; std::vector<int> who; std::vector<std::vector<int>> since; std::string what;
    // since[o][b]: consecutive successful steps of b since o was last called
};
static Error step(void* c, ScriptBlock& b) {
    NoRace nr; Ctx& x = *(Ctx*)c;
    int& w = x.who[b.idx];
    if (w < 0) w = self();
    MC_CHECK(w == self(), "two-workers", "%s: block b%d was served by worker T%d and by T%d", x.what.c_str(), b.idx, w, self());
    for (int o = 0; o < x.n; ++o) {
        if (o == b.idx) { for (int k = 0; k < x.n; ++k) x.since[o][k] = 0; continue; }
    }
    for (int o = 0; o < x.n; ++o) if (o != b.idx && x.who[o] == w) {
        int k = ++x.since[o][b.idx];
        MC_CHECK(k <= x.batch, "unfair", "%s: block b%d was called %d times in a row before its neighbour b%d on the same worker got its turn (limit %d)", x.what.c_str(), b.idx, k, o, x.batch);
    }
    if (x.mode == 0) return Error::OK;
    if (x.mode == 1) return (b.idx & 1) ? Error::NotEnoughSamples : Error::OK;
    if (x.mode == 2) return (b.idx & 1) ? Error::OK : Error::BadData;
    return b.obs.calls % 3 ? Error::OK : Error::NotEnoughSpace;
}
// The first turn of a neighbour may come after b's first burst; `since` only starts once a block's owner is known.
template <size_t N> static void run_one(const cler::FlowGraphConfig& cfg, int mode, long want) {
    auto x = std::make_unique<Ctx>(); x->n = (int)N; x->batch = (int)cfg.max_calls_per_tick; x->mode = mode; x->who.assign(N, -1); x->since.assign(N, std::vector<int>(N, 0));
    char b[64]; snprintf(b, sizeof b, "%zu blocks, mode %d, ", N, mode); x->what = b + cfgstr(cfg); note("%s", x->what.c_str());
    PolicyLog pl; g_plog = &pl;
    {
        NGraph<RecPolicy, N> g(x.get(), step);
        g.fg->run(cfg);
        while (g.min_calls() < want) yield();
        g.fg->stop();
        NoRace nr;
        MC_CHECK(live_threads() == 0 && unjoined_threads() == 0, "threads-left", "%s: threads left after stop()", x->what.c_str());
        int workers = total_threads();
        MC_CHECK(workers >= 1 && workers <= (int)N, "worker-count", "%s: %d threads for %zu blocks", x->what.c_str(), workers, N);
        uint64_t h = N; for (int w : x->who) h = hmix(h, w); outcome(hmix(h, steps()));
    }
    g_plog = nullptr;
}
template <size_t N> static void fam(std::vector<size_t> ws, int bound, std::vector<size_t> batches, int modes, long want) {
    for (size_t w : ws) for (int pool = 0; pool < 2; ++pool) {
        if (!pool && w != ws[0]) continue;
        char nm[120]; snprintf(nm, sizeof nm, "%s %zu blocks %zu workers b%d", pool ? "pool" : "thread-per-block", N, w, bound);
        if (!pool && N > 20) continue;
        scenario(nm, [=] {
            sample("%s", nm);
            Opts o; o.threads = true; o.bound = bound; o.stale = bound ? 1 : 0; o.spin_limit = 8; o.slice = 40; o.max_steps = 20000;
            explore(o, [=] {
                size_t batch = batches[choose((int)batches.size())]; int mode = choose(modes), ad = choose(2);
                auto cfg = fcfg(pool, w, batch, ad, false, w & 1); cfg.adaptive_sleep_fail_threshold = 1; cfg.adaptive_sleep_max_us = 20;
                run_one<N>(cfg, mode, want);
            });
        });
    }
}
static void setup() {
    bool T = thorough();
#ifdef NDEBUG
    // asserts compiled out: a worker count the scheduler cannot use must still serve every block
    fam<1>({0, 1}, 0, {1, 4}, 4, 4); fam<2>({0, 1}, 0, {1, 4}, 4, 4); fam<3>({0, 1}, 0, {1, 4}, 4, 4); fam<5>({0, 1, 2}, 0, {2}, 4, 4); fam<9>({0, 1, 9}, 0, {2}, 4, 4); fam<12>({0, 1, 8, 9, 11}, 0, {2}, 4, 4);
    fam<3>({0, 1}, 1, {2}, 2, 3);
#else
    std::vector<size_t> all; for (size_t w = 2; w <= 21; ++w) all.push_back(w); all.push_back(64); all.push_back(255); all.push_back(256); all.push_back((size_t)-1);
    fam<1>(all, 0, {1, 4}, 4, 6); fam<2>(all, 0, {1, 4}, 4, 6); fam<3>(all, 0, {1, 4}, 4, 6); fam<4>(all, 0, {1, 3}, 4, 6); fam<5>(all, 0, {2}, 4, 6); fam<6>(all, 0, {2}, 4, 6); fam<7>(all, 0, {2}, 4, 6);
    fam<8>(all, 0, {2}, 4, 6); fam<9>(all, 0, {2}, 4, 6); fam<10>(all, 0, {2}, 4, 6); fam<11>(all, 0, {2}, 4, 6); fam<12>(all, 0, {2}, 4, 6); fam<16>(all, 0, {2}, 2, 4); fam<17>(all, 0, {2}, 2, 4); fam<20>(all, 0, {1}, 2, 4); fam<22>(all, 0, {3}, 2, 4);
    fam<2>({2}, 2, {1, 2}, 4, 3); fam<3>({2}, T ? 3 : 2, {1, 2}, 4, 3); fam<4>({2, 3}, 1, {1, 3}, 4, 3); fam<5>({2, 3, 4}, 1, {2}, 4, 3); fam<9>({2, 4, 8}, 1, {2}, 1, 3);
    if (T) { fam<4>({2, 3}, 2, {1, 3}, 4, 3); fam<5>({2, 3, 4}, 2, {2}, 4, 3); fam<12>({2, 5, 7, 8}, 1, {2}, 4, 3); fam<7>({2, 3, 5}, 2, {1}, 2, 3); }
#endif
}
MC_MAIN(setup)
