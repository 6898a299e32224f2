// F01: streams arrive complete, unmodified and in order through every topology, scheduler and schedule.
#include "flow_blocks.hpp"

template <class Policy, class E> static void fam(int t, std::vector<int> styles, std::vector<cler::FlowGraphConfig> cfgs, size_t cap, uint64_t K, int bound, bool twice) {
    for (int st : styles) for (size_t c = 0; c < cfgs.size(); ++c) {
        char nm[200]; snprintf(nm, sizeof nm, "%s %s cap%zu K%lu el%zu b%d %s%s %s", tn[t], sn[st], cap, (unsigned long)K, sizeof(E), bound, cfgstr(cfgs[c]).c_str(), twice ? " stop+rerun" : "", sizeof(Policy) && std::is_same_v<Policy, RecPolicy> ? "rec" : "desktop");
        scenario(nm, [=] {
            Opts o; o.threads = true; o.bound = bound; o.stale = bound ? 1 : 0; o.spin_limit = 6; o.slice = 40; o.max_steps = 12000;
            note("%s", nm); sample("%s", nm);
            explore(o, [=] {
                std::vector<cler::FlowGraphConfig> cs; 
                if (twice) { cs.push_back(cfgs[choose((int)cfgs.size())]); }
                cs.push_back(cfgs[c]);
                PolicyLog pl; g_plog = &pl;
                topo<Policy, E>(t, st, cap, K, cs);
                MC_CHECK(live_threads() == 0 && unjoined_threads() == 0, "threads-left", "threads left");
                outcome(hmix(steps(), stale_used()));
                g_plog = nullptr;
            });
        });
    }
}
static void setup() {
    { cler::Channel<El<2048>> warm(1); }
    bool T = thorough();
    using S = El<8>; using M = El<16>; using L = El<2048>;
    auto tpb1 = fcfg(false, 4, 1), tpb4 = fcfg(false, 4, 4, true, true), p2 = fcfg(true, 2, 2), p2a = fcfg(true, 2, 1, true, true, true), p3 = fcfg(true, 3, 4, false, true), pbig = fcfg(true, 8, 2, true);
    tpb4.adaptive_sleep_fail_threshold = p2a.adaptive_sleep_fail_threshold = 0; pbig.adaptive_sleep_fail_threshold = 1;
    std::vector<int> all = {BY_ONE, BY_N, BY_SEG, BY_BLOCKING}, v = {BY_VIEW};
    fam<RecPolicy, S>(CHAIN2, all, {tpb1, tpb4, pbig}, 1, 3, 2, false);
    fam<RecPolicy, S>(CHAIN2, {BY_ONE}, {tpb1}, 1, 2, 3, false);
    fam<RecPolicy, M>(CHAIN2, {BY_N, BY_SEG}, {tpb1}, 2, 4, 2, false);
    fam<RecPolicy, M>(CHAIN3, all, {tpb1, tpb4, p2, p2a}, 2, 3, 1, false);
    fam<RecPolicy, M>(CHAIN3, all, {tpb1, tpb4, p2, p2a}, 2, 2, 2, false);
    fam<RecPolicy, S>(FANOUT, all, {tpb4, p2, p2a, p3}, 1, 2, 1, false);
    fam<RecPolicy, S>(FANOUT, {BY_ONE, BY_N}, {p2, p2a, p3}, 1, 2, 2, false);
    fam<RecPolicy, S>(FANIN, all, {tpb1, p2, p2a, p3}, 1, 2, 1, false);
    fam<RecPolicy, S>(FANIN, {BY_SEG, BY_BLOCKING}, {p2, p2a, p3}, 1, 2, 2, false);
    fam<RecPolicy, S>(CHAIN4, {BY_ONE, BY_SEG}, {tpb4, p2, p2a, p3}, 1, 3, 1, false);
    fam<RecPolicy, S>(DIAMOND, {BY_ONE, BY_N}, {tpb1, p2, p3}, 1, 2, 1, false);
    fam<RecPolicy, L>(CHAIN2, v, {tpb1, tpb4}, 1, 3, 2, false);
    fam<RecPolicy, L>(CHAIN3, v, {tpb1, p2}, 2, 3, 1, false);
    fam<RecPolicy, M>(CHAIN3, {BY_N}, {tpb1, p2, p2a}, 1, 3, 1, true);
    fam<cler::DesktopTaskPolicy, S>(CHAIN2, {BY_ONE, BY_N}, {tpb1, tpb4}, 1, 3, 2, true);
    fam<cler::DesktopTaskPolicy, M>(CHAIN3, {BY_SEG}, {tpb4, p2a}, 1, 3, 1, false);
    if (T) {
        fam<RecPolicy, M>(CHAIN2, all, {tpb1, tpb4, pbig}, 2, 4, 4, false); fam<RecPolicy, S>(CHAIN3, all, {tpb1, tpb4, p2, p2a}, 1, 3, 3, false); fam<RecPolicy, M>(FANOUT, all, {p2, p2a, p3}, 2, 3, 3, false);
        fam<RecPolicy, M>(FANIN, all, {p2, p2a, p3}, 2, 3, 3, false); fam<RecPolicy, M>(CHAIN4, all, {tpb1, p2, p3}, 1, 3, 3, false); fam<RecPolicy, M>(DIAMOND, all, {tpb4, p2, p2a, p3}, 2, 3, 2, true);
    }
}
MC_MAIN(setup)
