// F03: every history of run / stop / self-termination / failed start / destruction ends with everything joined, and a stopped graph runs again.
#include "flow.hpp"
#include <system_error>
#include <cerrno>
using namespace mc;

struct Ctx { int fatal = -1; Error code = Error::TERMINATE_FLOWGRAPH; bool allowed = false; int cb = 0, fatals = 0; int mode = 0; std::string hist; };
static Ctx* X_;
static Error step(void* c, ScriptBlock& b) {
    NoRace nr; Ctx& x = *(Ctx*)c;
    MC_CHECK(x.allowed, "ran-after-stop", "history%s: block b%d was executed while the flowgraph is stopped", x.hist.c_str(), b.idx);
    if (x.fatal == b.idx) { x.fatals++; return x.code; }
    if (x.mode == 1) return (b.obs.calls + b.idx) % 2 ? Error::NotEnoughSamples : Error::OK;
    return Error::OK;
}
static int create_fail = 0;    // fail the k-th creation from now
static int create_hook() { if (create_fail > 0 && --create_fail == 0) return EAGAIN; return 0; }

template <size_t N, class Policy> struct Hist {
    Ctx x; std::unique_ptr<NGraph<Policy, N>> g; bool running = false, selfterm = false, partial = false, huge = false; bool ever = false;
    std::vector<cler::FlowGraphConfig> cfgs;
    void say(const char* s) { x.hist += " "; x.hist += s; note("%zu blocks:%s", N, x.hist.c_str()); }
    void quiet(const char* after) {
        NoRace nr;
        MC_CHECK(live_threads() == 0, "still-running", "history%s: after %s %d worker threads are still running", x.hist.c_str(), after, live_threads());
        MC_CHECK(unjoined_threads() == 0, "not-joined", "history%s: after %s %d threads were never joined", x.hist.c_str(), after, unjoined_threads());
        for (auto& b : g->blocks) { long s; { s = b->plain_steps; } MC_CHECK(s == b->obs.calls, "lost-step", "block b%d: %ld steps, %ld calls", b->idx, s, b->obs.calls); }
        x.allowed = false;
    }
    void readable() { long s = 0; for (auto& b : g->blocks) s += b->plain_steps; (void)s; }   // race-checked: what the workers wrote is visible after the join
    void run(int c, bool wait, int failk) {
        char b[96]; snprintf(b, sizeof b, "run(%s)%s", cfgstr(cfgs[c]).c_str(), failk ? "[thread creation fails]" : ""); say(b);
        x.fatal = -1; x.allowed = true; x.mode = c & 1; selfterm = false;
        std::vector<long> c0; for (auto& k : g->blocks) { NoRace n; c0.push_back(k->obs.calls); }
        create_fail = failk; bool threw = false;
        try { g->fg->run(cfgs[c]); } catch (const std::system_error&) { threw = true; }
        create_fail = 0; running = true; ever = true; partial = failk; huge = cfgs[c].max_calls_per_tick > 1000;
        if (failk) { MC_CHECK(threw, "start-failure-hidden", "history%s: a thread could not be created but run() reported nothing", x.hist.c_str()); return; }
        MC_CHECK(!threw, "start-failed", "history%s: run() failed", x.hist.c_str());
        MC_CHECK(!g->fg->is_stopped(), "reported-stopped", "history%s: is_stopped() is true right after run()", x.hist.c_str());
        if (wait) {
            for (;;) { bool all = true; { NoRace n; for (size_t i = 0; i < N; ++i) if (g->blocks[i]->obs.calls < c0[i] + 2) all = false; } if (all) break; yield(); }
            MC_CHECK(!g->fg->is_stopped(), "reported-stopped", "history%s: is_stopped() is true while the flowgraph runs", x.hist.c_str());
        }
    }
    void stop() {
        say("stop()");
        g->fg->stop(); running = false;
        MC_CHECK(g->fg->is_stopped(), "reported-running", "history%s: is_stopped() is false after stop()", x.hist.c_str());
        quiet("stop()"); readable();
    }
    void term(int blk) {
        char b[64]; snprintf(b, sizeof b, "b%d-fails-fatally", blk); say(b);
        { NoRace n; x.fatal = blk; }
        while (!g->fg->is_stopped()) yield();
        running = false; selfterm = true;
    }
    void destroy() {
        say("destroy"); 
        g->fg.reset(); quiet("destruction"); readable();
        say("end");
    }
};
template <size_t N, class Policy> static void fam(const char* pn, std::vector<cler::FlowGraphConfig> cfgs, int len, int bound, int fails) {
    // first op fixed per scenario so that the work spreads over the worker processes
    for (int first = 0; first < (int)cfgs.size() * (1 + (fails ? 1 : 0)) + 1; ++first) {
        char nm[120]; snprintf(nm, sizeof nm, "%s %zu blocks first=%d len=%d b%d%s", pn, N, first, len, bound, fails ? " with start failures" : "");
        scenario(nm, [=] {
            sample("%s", nm);
            Opts o; o.threads = true; o.bound = bound; o.stale = bound ? 1 : 0; o.spin_limit = 6; o.slice = 30; o.max_steps = 6000;
            explore(o, [=] {
                PolicyLog pl; g_plog = &pl; create_fail = 0; set_create_hook(create_hook);
                Hist<N, Policy> h; h.cfgs = cfgs; X_ = &h.x;
                h.g = std::make_unique<NGraph<Policy, N>>(&h.x, step);
                auto do_run = [&](int k) { int c = k % (int)cfgs.size(); int fk = k >= (int)cfgs.size() ? 1 + choose(cfgs[c].scheduler == cler::SchedulerType::ThreadPerBlock ? (int)N : (int)cfgs[c].num_workers < (int)N ? (int)cfgs[c].num_workers : (int)N) : 0; h.run(c, cfgs[c].max_calls_per_tick > 1000 ? 0 : choose(2), fk); };
                int nrun = (int)cfgs.size() * (1 + (fails ? 1 : 0));
                for (int i = 0; i < len; ++i) {
                    if (i == 0) { if (first < nrun) do_run(first); else h.stop(); continue; }
                    if (h.running) {
                        int k = choose(3);
                        if (k == 0) h.stop();
                        else if (k == 1) { int b = choose((int)N); if (h.partial) break; if (h.huge && b == 1) break; h.term(b); }
                        else break;
                    } else {
                        int k = choose(nrun + 2);
                        if (k < nrun) do_run(k); else if (k == nrun) h.stop(); else break;
                    }
                }
                h.destroy();
                outcome(hmix(std::hash<std::string>()(h.x.hist), steps()));
                g_plog = nullptr;
            });
        });
    }
}
static void setup() {
    bool T = thorough();
    auto tpb = fcfg(false, 4, 1), pool = fcfg(true, 2, 2), poolst = fcfg(true, 2, 1, true, true), tpbst = fcfg(false, 4, 2, true, true);
    poolst.adaptive_sleep_fail_threshold = tpbst.adaptive_sleep_fail_threshold = 0;
    fam<2, RecPolicy>("rec", {tpb, tpbst}, 4, 1, 0);
    fam<3, RecPolicy>("rec", {tpb, pool, poolst, tpbst}, 3, 1, 0);
    fam<3, RecPolicy>("rec", {tpb, pool}, 3, 1, 1);
    fam<3, RecPolicy>("rec", {tpb, pool, poolst, tpbst}, 5, 0, 1);
    fam<1, RecPolicy>("rec", {tpb, tpbst}, 3, 2, 0);
    fam<2, cler::DesktopTaskPolicy>("desktop", {tpb}, 3, 1, 1);
    auto tpbhuge = fcfg(false, 4, 1000000000), poolhuge = fcfg(true, 2, (size_t)-1);
    fam<3, RecPolicy>("huge batch", {tpbhuge, poolst, poolhuge}, 3, 1, 0);
    fam<3, RecPolicy>("rec", {tpb, pool, poolst, tpbst}, 4, 1, 1); fam<2, RecPolicy>("rec", {tpb}, 2, 2, 1); fam<3, RecPolicy>("rec", {pool}, 2, 2, 0);
    if (T) { fam<3, RecPolicy>("rec", {tpb, pool, poolst, tpbst}, 5, 1, 1); fam<2, RecPolicy>("rec", {tpb, tpbst}, 3, 2, 1); fam<3, RecPolicy>("rec", {pool, poolst}, 3, 2, 0); fam<4, cler::DesktopTaskPolicy>("desktop", {tpb, pool}, 4, 1, 1); }
}
MC_MAIN(setup)
