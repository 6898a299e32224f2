// F04: a fatal error of any block at any step ends the whole flowgraph and fires the callback once; non-fatal errors never do.
#include "flow.hpp"
using namespace mc;

static const Error FATAL[] = {Error::TERMINATE_FLOWGRAPH, Error::TERM_InvalidChannelIndex, Error::TERM_ProcedureError, Error::TERM_IOError, Error::TERM_EOFReached};
static const Error SOFT[] = {Error::Unknown, Error::NotEnoughSamples, Error::NotEnoughSpace, Error::NotEnoughSpaceOrSamples, Error::ProcedureError, Error::BadData};

struct Ctx {
    std::vector<int> at;                  // at[i]: block i fails fatally at this call of the run (0 = never)
    std::vector<Error> code; std::vector<long> base; std::vector<char> dead;
    int mode = 0, cb = 0, fatals = 0; bool has_cb = true; void* fg = nullptr; bool (*stopped)(void*) = nullptr; std::string what;
    int cb_thread = -1; bool in_cb = false;
};
static Error step(void* c, ScriptBlock& b) {
    NoRace nr; Ctx& x = *(Ctx*)c;
    MC_CHECK(!x.dead[b.idx], "called-after-fatal", "%s: block b%d was called again after it reported a fatal error", x.what.c_str(), b.idx);
    long k = b.obs.calls - x.base[b.idx];
    if (x.at[b.idx] && k == x.at[b.idx]) { x.dead[b.idx] = 1; x.fatals++; return x.code[b.idx]; }
    if (x.mode == 0) return Error::OK;
    return (k + b.idx) % 2 ? SOFT[(k / 2 + b.idx) % 6] : Error::OK;
}
static void on_term(void* c) {
    Ctx& x = *(Ctx*)c;
    bool st = x.stopped(x.fg);
    NoRace nr; x.cb++; x.cb_thread = self();
    MC_CHECK(x.cb <= x.fatals, "callback-count", "%s: the termination callback ran %d times for %d fatal errors", x.what.c_str(), x.cb, x.fatals);
    MC_CHECK(st, "callback-before-stop", "%s: is_stopped() is false inside the termination callback", x.what.c_str());
}
static void on_term_wrong(void*) { fail("stale-callback", "a callback that was replaced has been called"); }

template <size_t N, class Policy> static void fam(std::vector<cler::FlowGraphConfig> cfgs, int bound, int maxat, int two, int codes, int runs) {
    for (size_t ci = 0; ci < cfgs.size(); ++ci) for (int fb = 0; fb < (int)N; ++fb) {
        if (fb && cfgs[ci].scheduler == cler::SchedulerType::FixedThreadPool && cfgs[ci].max_calls_per_tick > 1000) continue;   // the block before it never yields its turn
        char nm[160]; snprintf(nm, sizeof nm, "%zu blocks, %s, b%d fails, b%d, at<=%d two=%d codes=%d runs=%d", N, cfgstr(cfgs[ci]).c_str(), fb, bound, maxat, two, codes, runs);
        scenario(nm, [=] {
            sample("%s", nm); auto cfg = cfgs[ci];
            Opts o; o.threads = true; o.bound = bound; o.stale = bound ? 1 : 0; o.spin_limit = 6; o.slice = 30; o.max_steps = 8000;
            explore(o, [=] {
                PolicyLog pl; g_plog = &pl;
                Ctx x; x.at.assign(N, 0); x.code.assign(N, Error::TERMINATE_FLOWGRAPH); x.base.assign(N, 0); x.dead.assign(N, 0);
                x.mode = choose(2); int cbmode = choose(3);   // registered, none, replaced
                {
                    NGraph<Policy, N> g(&x, step);
                    x.fg = g.fg.get(); x.stopped = [](void* p) { return ((decltype(g.fg.get()))p)->is_stopped(); };
                    if (cbmode == 2) g.fg->set_on_err_terminate_cb(on_term_wrong, nullptr);
                    if (cbmode != 1) g.fg->set_on_err_terminate_cb(on_term, &x);
                    uint64_t h = ci;
                    for (int r = 0; r < runs; ++r) {
                        bool nofatal = r && choose(2);
                        for (size_t i = 0; i < N; ++i) { x.base[i] = g.blocks[i]->obs.calls; x.dead[i] = 0; x.at[i] = 0; }
                        x.cb = x.fatals = 0;
                        int at = 1 + choose(maxat); int cd = choose(codes);
                        if (!nofatal) { x.at[fb] = at; x.code[fb] = FATAL[cd]; }
                        if (two && !nofatal) { int o2 = (fb + 1) % N; x.at[o2] = 1 + choose(maxat); x.code[o2] = FATAL[(cd + 1) % 5]; }
                        char b[160]; snprintf(b, sizeof b, "%zu blocks, %s, mode %d, callback %d, run %d: b%d reports %s at call %d%s", N, cfgstr(cfg).c_str(), x.mode, cbmode, r, fb, nofatal ? "nothing fatal" : ename(x.code[fb]), at, two ? " (and a neighbour too)" : "");
                        x.what = b; note("%s", b);
                        g.fg->run(cfg);
                        if (nofatal) {
                            for (;;) { bool all = true; { NoRace n; for (size_t i = 0; i < N; ++i) if (g.blocks[i]->obs.calls - x.base[i] < 5) all = false; } if (all) break; yield(); }
                            MC_CHECK(!g.fg->is_stopped(), "soft-error-stopped", "%s: only non-fatal errors occurred but the flowgraph is stopped", b);
                            g.fg->stop();
                            NoRace n; MC_CHECK(x.cb == 0, "callback-count", "%s: termination callback without a fatal error", b);
                            continue;
                        }
                        while (live_threads() != 0) yield();          // all workers end by themselves
                        MC_CHECK(g.fg->is_stopped() || stale_used() > 0, "not-stopped", "%s: is_stopped() is false after a fatal error", b);
                        {
                            NoRace n;
                            MC_CHECK(x.fatals >= 1, "vacuous", "%s: no fatal error happened", b);
                            MC_CHECK(cbmode == 1 || x.cb == x.fatals, "callback-count", "%s: %d fatal errors, %d callback calls", b, x.fatals, x.cb);
                            for (size_t i = 0; i < N; ++i) h = hmix(h, g.blocks[i]->obs.calls);
                        }
                        g.fg->stop();
                        MC_CHECK(g.fg->is_stopped(), "not-stopped", "%s: is_stopped() is false after stop()", b);
                    }
                    { NoRace n; outcome(hmix(h, steps())); }
                }
                g_plog = nullptr;
            });
        });
    }
}
static void setup() {
    bool T = thorough();
    // classification of every code, present and future ones included, is by the documented boundary
    scenario("classification", [] {
        for (Error e : FATAL) { count_eval(); MC_CHECK(cler::is_fatal(e), "class", "%s is not classified as fatal", ename(e)); }
        for (Error e : SOFT) { count_eval(); MC_CHECK(!cler::is_fatal(e), "class", "%s is classified as fatal", ename(e)); }
        count_eval(); MC_CHECK(!cler::is_fatal(Error::OK), "class", "OK is classified as fatal");
        for (Error e : FATAL) outcome((int)e); for (Error e : SOFT) outcome((int)e);
    });
    auto tpb = fcfg(false, 4, 1), tpb4 = fcfg(false, 4, 4, true, true), pool = fcfg(true, 2, 1, true, true), pool4 = fcfg(true, 2, 4), pool3 = fcfg(true, 3, 2);
    tpb4.adaptive_sleep_fail_threshold = pool.adaptive_sleep_fail_threshold = 0;
    auto tpbH = fcfg(false, 4, 1, true), poolH = fcfg(true, 2, 1); tpbH.max_calls_per_tick = poolH.max_calls_per_tick = (size_t)-1;   // bursts which only a stop can end
    fam<3, RecPolicy>({tpbH}, 0, 3, 0, 1, 1); fam<3, RecPolicy>({poolH}, 1, 2, 0, 1, 1);
    fam<3, RecPolicy>({tpb, tpb4, pool, pool4}, 1, 3, 0, 1, 1);
    fam<4, RecPolicy>({tpb, tpb4, pool, pool4, pool3}, 0, 4, 0, 5, 2);
    fam<3, RecPolicy>({tpb4, pool, pool4}, 1, 2, 1, 1, 1);
    fam<1, RecPolicy>({tpb, tpb4}, 2, 2, 0, 5, 1);
    fam<2, cler::DesktopTaskPolicy>({tpb, tpb4}, 1, 2, 0, 1, 2);
    fam<3, RecPolicy>({tpb, pool4}, T ? 3 : 2, 2, 0, 1, 1);
    fam<3, RecPolicy>({tpb, tpb4, pool, pool4}, 1, 2, 0, 5, 2); fam<3, RecPolicy>({tpb4, pool}, 2, 2, 1, 1, 1);
    if (T) { fam<3, RecPolicy>({tpb, tpb4, pool, pool4}, 2, 3, 1, 1, 1); fam<5, RecPolicy>({tpb, pool, pool4, pool3}, 1, 3, 1, 5, 1); fam<3, RecPolicy>({tpb, tpb4, pool, pool4}, 2, 3, 0, 5, 2); }
}
MC_MAIN(setup)
