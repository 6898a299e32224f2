// F08: run_for() lasts at least the requested time, not much longer, and ends with everything stopped.
#include "flow.hpp"
#include <ratio>
using namespace mc;
using namespace std::chrono;

struct Ctx { uint64_t t0 = 0, want = 0; uint64_t work = 0; int64_t jump = 0; int jump_at = 0; int fatal = -1; int mode = 0; bool started = false, fatal_seen = false, over = false; bool (*stopped)(void*) = nullptr; void* fg = nullptr; std::string what; long calls = 0; };
static Ctx* C_;
static Error step(void* c, ScriptBlock& b) {
    Ctx& x = *(Ctx*)c;
    bool st = x.stopped(x.fg);
    NoRace nr;
    MC_CHECK(!x.over, "ran-after-return", "%s: block b%d is executed after run_for() returned", x.what.c_str(), b.idx);
    if (st && !x.fatal_seen) MC_CHECK(now_ns() - x.t0 >= x.want, "stopped-early", "%s: the flowgraph is stopped after %lu ns of %lu", x.what.c_str(), (unsigned long)(now_ns() - x.t0), (unsigned long)x.want);
    x.calls++;
    if (x.jump && x.calls == x.jump_at) step_wall_clock(x.jump);
    advance_ns(x.work);
    if (x.fatal == b.idx) { x.fatal_seen = true; return Error::TERM_EOFReached; }
    if (x.mode == 1) return b.obs.calls % 2 ? Error::NotEnoughSamples : Error::OK;
    if (x.mode == 2) return Error::Unknown;
    return Error::OK;
}
static void on_sleep(uint64_t ns) { Ctx& x = *C_; if (x.jump && x.jump_at == 0 && ns > 30000000) step_wall_clock(x.jump); }

template <class Policy, size_t N, class D> static void one(const cler::FlowGraphConfig& cfg, D d, uint64_t want_ns, Ctx& x, const char* dn, uint64_t slack) {
    char b[240]; snprintf(b, sizeof b, "run_for(%s), %zu blocks, %s, step %lu ns, mode %d%s, wall clock %+ld s at %d", dn, N, cfgstr(cfg).c_str(), (unsigned long)x.work, x.mode, x.fatal >= 0 ? ", fatal error" : "", (long)(x.jump / 1000000000), x.jump_at); x.what = b; note("%s", b);
    C_ = &x; x.want = want_ns; set_sleep_hook(on_sleep);
    uint64_t el;
    {
        NGraph<Policy, N> g(&x, step);
        x.fg = g.fg.get(); x.stopped = [](void* p) { return ((decltype(g.fg.get()))p)->is_stopped(); };
        for (int r = 0; r < 2; ++r) {
            { NoRace n; x.over = false; x.fatal_seen = false; x.t0 = now_ns(); }
            g.fg->run_for(d, cfg);
            { NoRace n; el = now_ns() - x.t0; x.over = true; }
            MC_CHECK(el >= want_ns, "too-short", "%s: returned after %lu ns, requested %lu ns", b, (unsigned long)el, (unsigned long)want_ns);
            MC_CHECK(el <= want_ns + slack, "too-long", "%s: returned after %lu ns, requested %lu ns", b, (unsigned long)el, (unsigned long)want_ns);
            MC_CHECK(g.fg->is_stopped(), "not-stopped", "%s: is_stopped() is false after run_for()", b);
            MC_CHECK(live_threads() == 0 && unjoined_threads() == 0, "threads-left", "%s: %d worker threads still alive after run_for()", b, live_threads());
            if (x.fatal >= 0) break;
            if (x.jump_at) x.jump_at += x.calls; 
        }
    }
    outcome(hmix(el, steps()));
}
template <class Policy, size_t N> static void fam(std::vector<cler::FlowGraphConfig> cfgs, int bound, int dlo, int dhi, uint64_t relax, int nj) {
    for (int di = dlo; di < dhi; ++di) for (size_t c = 0; c < cfgs.size(); ++c) {
        char nm[160]; snprintf(nm, sizeof nm, "%s %zu blocks, %s, duration %d, b%d relax %lu", std::is_same_v<Policy, RecPolicy> ? "rec" : "desktop", N, cfgstr(cfgs[c]).c_str(), di, bound, (unsigned long)relax);
        scenario(nm, [=] {
            Opts o; o.threads = true; o.bound = bound; o.stale = bound ? 1 : 0; o.spin_limit = 6; o.slice = 40; o.max_steps = 30000;
            sample("%s", nm);
            explore(o, [=] {
                Ctx x; PolicyLog pl; pl.relax_ns = relax; g_plog = &pl;
                x.mode = choose(3); x.work = choose(2) ? 200000 : 0; if (relax == 0) x.work = choose(2) ? 300 : 0;
                int j = choose(nj); x.jump = j == 0 ? 0 : j & 1 ? 7200000000000ll : -7200000000000ll; x.jump_at = j > 2 ? 0 : 3;
                if (j == 0 && choose(2)) x.fatal = 0;
                uint64_t slack = 400000000;      // poll step, scheduling of the other threads' sleeps, joining
                auto& cfg = cfgs[c];
                switch (di) {
                    case 0: one<Policy, N>(cfg, nanoseconds(0), 0, x, "0", slack); break;
                    case 1: one<Policy, N>(cfg, nanoseconds(1), 1, x, "1 ns", slack); break;
                    case 2: one<Policy, N>(cfg, microseconds(1), 1000, x, "1 us", slack); break;
                    case 3: one<Policy, N>(cfg, duration<double, std::micro>(77.5), 77500, x, "77.5 us (double)", slack); break;
                    case 4: one<Policy, N>(cfg, microseconds(-5), 0, x, "-5 us", slack); break;
                    case 5: one<Policy, N>(cfg, milliseconds(30), 30000000, x, "30 ms", slack); break;
                    case 6: one<Policy, N>(cfg, milliseconds(99), 99000000, x, "99 ms", slack); break;
                    case 7: one<Policy, N>(cfg, milliseconds(100), 100000000, x, "100 ms", slack); break;
                    case 8: one<Policy, N>(cfg, microseconds(100001), 100001000, x, "100.001 ms", slack); break;
                    case 9: one<Policy, N>(cfg, nanoseconds(100000999), 100000999, x, "100.000999 ms", slack); break;
                    case 10: one<Policy, N>(cfg, milliseconds(150), 150000000, x, "150 ms", slack); break;
                    case 11: one<Policy, N>(cfg, duration<float>(0.25f), 250000000, x, "0.25 s (float)", slack); break;
                    case 12: one<Policy, N>(cfg, seconds(1), 1000000000, x, "1 s", slack); break;
                    case 13: one<Policy, N>(cfg, duration<int, std::ratio<1, 3>>(4), 1333333333, x, "4/3 s", slack); break;
                    case 14: one<Policy, N>(cfg, hours(1), 3600000000000, x, "1 h", slack); break;
                    case 15: one<Policy, N>(cfg, hours(24 * 30), 2592000000000000, x, "30 days", slack); break;
                    case 16: one<Policy, N>(cfg, duration<double>(5000.5), 5000500000000, x, "5000.5 s (double)", slack); break;
                }
                g_plog = nullptr;
            });
        });
    }
}
static void setup() {
    bool T = thorough();
    auto tpb = fcfg(false, 4, 1, false, true), tpb4 = fcfg(false, 4, 4, true), p2 = fcfg(true, 2, 2), p2a = fcfg(true, 2, 4, true, true);
    tpb4.adaptive_sleep_fail_threshold = p2a.adaptive_sleep_fail_threshold = 0;
    fam<RecPolicy, 3>({tpb, tpb4, p2, p2a}, 0, 0, 17, 5000000, 5);
    fam<RecPolicy, 3>({tpb4, p2}, 1, 0, 17, 10000000, 1);
    fam<RecPolicy, 1>({tpb}, T ? 3 : 2, 0, 8, 20000000, 3);
    fam<cler::DesktopTaskPolicy, 2>({tpb, tpb4}, 0, 0, 5, 0, 3);
    fam<RecPolicy, 2>({tpb}, 1, 5, 14, 20000000, 5);
    if (T) { fam<RecPolicy, 3>({tpb, tpb4, p2, p2a}, 1, 0, 17, 5000000, 5); fam<RecPolicy, 5>({p2, p2a, tpb4}, 1, 4, 17, 10000000, 3); fam<cler::DesktopTaskPolicy, 3>({tpb, p2a}, 1, 0, 4, 0, 1); }
}
MC_MAIN(setup)
