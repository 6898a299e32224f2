// F05: every pattern of non-fatal errors is retried, loses and duplicates nothing, and does not hold up the other blocks.
#include "flow_blocks.hpp"
static const Error SOFT[] = {Error::OK, Error::Unknown, Error::NotEnoughSamples, Error::NotEnoughSpace, Error::NotEnoughSpaceOrSamples, Error::ProcedureError, Error::BadData};

// ---- part 1: error patterns in a stream
struct Pat { std::string who; std::vector<int> codes; bool repeat; };
static std::vector<Pat>* g_pats;
static Error inject(const char* who, long call) {
    NoRace n;
    for (auto& p : *g_pats) if (p.who == who) {
        size_t i = (size_t)(call - 1);
        if (p.repeat) { i %= p.codes.size(); } else if (i >= p.codes.size()) return Error::OK;
        return SOFT[p.codes[i]];
    }
    return Error::OK;
}
template <class Policy, class E> static void stream(int t, std::vector<std::string> victims, std::vector<cler::FlowGraphConfig> cfgs, int style, size_t cap, uint64_t K, int len, int ncodes, int bound, int nvict) {
    for (size_t c = 0; c < cfgs.size(); ++c) for (size_t v = 0; v < victims.size(); ++v) for (int c0 = 0; c0 < ncodes; ++c0) {
        char nm[240]; snprintf(nm, sizeof nm, "%s %s: %s fails %s.. (pattern of %d, %d victims) cap%zu b%d %s", tn[t], sn[style], victims[v].c_str(), c0 ? ename(SOFT[c0]) : "never first", len, nvict, cap, bound, cfgstr(cfgs[c]).c_str());
        scenario(nm, [=] {
            Opts o; o.threads = true; o.bound = bound; o.stale = bound ? 1 : 0; o.spin_limit = 6; o.slice = 40; o.max_steps = 12000;
            sample("%s", nm);
            explore(o, [=] {
                std::vector<Pat> pats; g_pats = &pats; std::string d;
                for (int k = 0; k < nvict; ++k) {
                    Pat p; p.who = victims[(v + k) % victims.size()]; p.repeat = choose(2);
                    for (int i = 0; i < len; ++i) p.codes.push_back(i || k ? choose(ncodes) : c0);
                    bool work = false; for (int x : p.codes) if (!x) work = true;
                    if (p.repeat && !work) p.codes.push_back(0);            // repeats forever, but works now and then
                    d += " " + p.who + (p.repeat ? " forever[" : " first["); for (int x : p.codes) d += std::string(x ? ename(SOFT[x]) : "OK") + ","; d += "]";
                    pats.push_back(p);
                }
                note("%s:%s", nm, d.c_str());
                PolicyLog pl; g_plog = &pl; g_inject = inject;
                topo<Policy, E>(t, style, cap, K, {cfgs[c]});
                MC_CHECK(live_threads() == 0 && unjoined_threads() == 0, "threads-left", "threads left");
                outcome(hmix(std::hash<std::string>()(d), steps()));
                g_plog = nullptr; g_inject = nullptr;
            });
        });
    }
}
// ---- part 2: blocks that fail for ever next to blocks that work
struct Ctx { int n = 0, code = 0, victim = 0; bool all = false; std::vector<int> who; std::vector<long> since; std::string what; };
static Error step(void* c, ScriptBlock& b) {
    NoRace nr; Ctx& x = *(Ctx*)c;
    x.who[b.idx] = self();
    bool bad = x.all ? b.idx != x.victim : b.idx == x.victim;
    // a failing block gives way after each failure: no second failing call before its worker's other blocks were called
    for (int o = 0; o < x.n; ++o) if (o != b.idx && x.who[o] == self()) {
        long& s = x.since[o * x.n + b.idx]; s++;
        MC_CHECK(!bad || s <= 1, "held-up", "%s: block b%d failed %ld times in a row while b%d on the same worker waited", x.what.c_str(), b.idx, s, o);
    }
    for (int k = 0; k < x.n; ++k) x.since[b.idx * x.n + k] = 0;
    return bad ? SOFT[x.code] : Error::OK;
}
template <size_t N> static void neigh(std::vector<cler::FlowGraphConfig> cfgs, int bound) {
    for (auto cfg : cfgs) {
        char nm[160]; snprintf(nm, sizeof nm, "%zu blocks, failing ones beside working ones, %s b%d", N, cfgstr(cfg).c_str(), bound);
        scenario(nm, [=] {
            Opts o; o.threads = true; o.bound = bound; o.stale = bound ? 1 : 0; o.spin_limit = 6; o.slice = 40; o.max_steps = 12000;
            sample("%s", nm);
            explore(o, [=] {
                Ctx x; x.n = (int)N; x.victim = choose((int)N); x.all = choose(2); x.code = 1 + choose(6); x.who.assign(N, -1); x.since.assign(N * N, 0);
                char b[200]; snprintf(b, sizeof b, "%s: %s b%d, always %s", nm, x.all ? "all fail but" : "only failing is", x.victim, ename(SOFT[x.code])); x.what = b; note("%s", b);
                PolicyLog pl; g_plog = &pl;
                {
                    NGraph<RecPolicy, N> g(&x, step);
                    g.fg->run(cfg);
                    while (g.min_calls() < 6) yield();
                    MC_CHECK(!g.fg->is_stopped(), "terminated", "%s: non-fatal errors stopped the flowgraph", b);
                    g.fg->stop();
                    outcome(hmix(x.code, steps()));
                }
                g_plog = nullptr;
            });
        });
    }
}
static void setup() {
    bool T = thorough();
    using S = El<8>; using M = El<16>;
    auto tpb1 = fcfg(false, 4, 1), tpb4 = fcfg(false, 4, 4, true, true), p2 = fcfg(true, 2, 2), p2a = fcfg(true, 2, 3, true, true);
    tpb4.adaptive_sleep_fail_threshold = 0; p2a.adaptive_sleep_fail_threshold = 1;
    stream<RecPolicy, S>(CHAIN3, {"src", "pass", "sink"}, {tpb1, tpb4, p2, p2a}, BY_N, 1, 3, 3, 7, 0, 1);
    stream<RecPolicy, S>(CHAIN3, {"src", "pass", "sink"}, {tpb4, p2}, BY_ONE, 1, 2, 2, 7, 0, 2);
    stream<RecPolicy, S>(CHAIN3, {"src", "pass", "sink"}, {tpb1, p2a}, BY_ONE, 1, 2, 1, 7, 1, 1);
    stream<RecPolicy, M>(CHAIN2, {"src", "sink"}, {tpb4}, BY_SEG, 2, 3, 2, 7, 1, 1);
    stream<RecPolicy, S>(FANIN, {"srcA", "join", "sink"}, {tpb4, p2, p2a}, BY_SEG, 1, 2, 2, 7, 0, 1);
    stream<RecPolicy, S>(FANOUT, {"fan", "sinkB"}, {tpb1, p2}, BY_BLOCKING, 1, 2, 2, 7, 0, 1);
    neigh<3>({tpb1, tpb4, p2, p2a}, 1); neigh<5>({p2, p2a, fcfg(true, 3, 4)}, 0); neigh<2>({tpb4}, 2);
    if (T) {
        stream<RecPolicy, S>(CHAIN3, {"src", "pass", "sink"}, {tpb1, tpb4, p2, p2a}, BY_N, 1, 3, 4, 7, 0, 1); stream<RecPolicy, S>(CHAIN3, {"src", "pass", "sink"}, {tpb1, p2, p2a}, BY_N, 2, 3, 2, 7, 1, 1);
        stream<cler::DesktopTaskPolicy, S>(CHAIN3, {"src", "pass", "sink"}, {tpb4, p2a}, BY_ONE, 1, 2, 2, 7, 1, 1); stream<RecPolicy, S>(DIAMOND, {"src", "fan", "passA", "join", "sink"}, {tpb4, p2, p2a}, BY_ONE, 1, 2, 2, 7, 0, 2); neigh<5>({p2, p2a, fcfg(true, 3, 4)}, 1);
    }
}
MC_MAIN(setup)
