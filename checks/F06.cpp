// F06: statistics equal what happened in the latest run, for every scheduler, result pattern, ending and clock behaviour.
#include "flow.hpp"
#include <cmath>
#include <cstring>
using namespace mc;

static const Error RES[] = {Error::OK, Error::NotEnoughSamples, Error::BadData, Error::NotEnoughSpace, Error::Unknown, Error::NotEnoughSpaceOrSamples, Error::ProcedureError};
struct Row { long ok, err; uint64_t t_first, t_last; };
struct Ctx {
    int pat[3] = {0, 0, 0}; int fatal_blk = -1, fatal_at = 0; uint64_t dur = 0; int jump_blk = -1; int64_t jump = 0; std::vector<Row> row; std::string what;
};
static Error step(void* c, ScriptBlock& b) {
    NoRace nr; Ctx& x = *(Ctx*)c; Row& r = x.row[b.idx];
    uint64_t now = now_ns(); long k = r.ok + r.err + 1; if (k == 1) r.t_first = now;
    if (x.jump && x.jump_blk == b.idx && k == 2) step_wall_clock(x.jump);
    if (x.dur) advance_ns(x.dur * (b.idx + 1));
    Error e = RES[x.pat[(k - 1 + b.idx) % 3]];
    if (x.fatal_blk == b.idx && k >= x.fatal_at) e = Error::TERM_IOError;
    if (e == Error::OK) r.ok++; else r.err++;
    r.t_last = now_ns();
    return e;
}
struct Snap { size_t ok, err; double dead, run, fin; std::string name; };
static Snap snap(const cler::BlockExecutionStats& s) { return {s.successful_procedures, s.failed_procedures, s.total_dead_time_s, s.total_runtime_s, s.final_adaptive_sleep_us, s.name.c_str()}; }
static bool same(const Snap& a, const Snap& b) { return a.ok == b.ok && a.err == b.err && a.dead == b.dead && a.run == b.run && a.fin == b.fin && a.name == b.name; }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 + 1e-9 * std::fabs(b); }

template <size_t N> static void fam(std::vector<cler::FlowGraphConfig> cfgs, int runs, int bound, int npat, int njump, bool fatal) {
    for (size_t c0 = 0; c0 < cfgs.size(); ++c0) for (int p0 = 0; p0 < npat; ++p0) {
        char nm[200]; snprintf(nm, sizeof nm, "%zu blocks runs=%d b%d pattern %d.. jumps=%d fatal=%d starting with %s", N, runs, bound, p0, njump, fatal, cfgstr(cfgs[c0]).c_str());
        scenario(nm, [=] {
            Opts o; o.threads = true; o.bound = bound; o.stale = bound ? 1 : 0; o.spin_limit = 6; o.slice = 40; o.max_steps = 8000;
            sample("%s", nm);
            explore(o, [=] {
                PolicyLog pl; g_plog = &pl; Ctx x; x.row.assign(N, Row{});
                x.pat[0] = p0; x.pat[1] = choose(npat); x.pat[2] = choose(npat);
                x.dur = choose(2) ? 1500 : 0;
                int j = njump ? choose(njump) : 0; x.jump = j == 0 ? 0 : j == 1 ? -3600000000000ll : 3600000000000ll; x.jump_blk = 0;
                uint64_t h = 0;
                {
                    NGraph<RecPolicy, N> g(&x, step);
                    std::string hist; bool ever = false;
                    for (int r = 0; r < runs; ++r) {
                        size_t c = r ? (size_t)choose((int)cfgs.size()) : c0; auto cfg = cfgs[c];
                        bool f = fatal && choose(2); x.fatal_blk = f ? choose((int)N) : -1; x.fatal_at = 3;
                        x.row.assign(N, Row{}); std::vector<Snap> before; for (size_t i = 0; i < N; ++i) before.push_back(snap(g.fg->stats()[i]));
                        hist += " run(" + cfgstr(cfg) + ")" + (f ? " ended by " + std::string(blkname(x.fatal_blk)) : " stopped"); x.what = hist; note("%s: pattern %d%d%d dur=%lu jump=%ld:%s", nm, x.pat[0], x.pat[1], x.pat[2], (unsigned long)x.dur, (long)x.jump, hist.c_str());
                        uint64_t t0 = now_ns();
                        g.fg->run(cfg);
                        if (choose(2)) for (;;) { bool all = true; { NoRace n; for (auto& q : x.row) if (q.ok + q.err < 4) all = false; } if (all || (f && g.fg->is_stopped())) break; yield(); }
                        g.fg->stop();
                        uint64_t t1 = now_ns();
                        for (size_t i = 0; i < N; ++i) {
                            auto& st = g.fg->stats()[i]; Snap s = snap(st); Row& q = x.row[i];
                            h = hmix(h, q.ok * 1000 + q.err);
                            if (!cfg.collect_detailed_stats) {
                                MC_CHECK(same(s, before[i]), "recorded-when-off", "%s: statistics of b%zu changed although detailed statistics are off", hist.c_str(), i);
                                if (!ever) MC_CHECK(s.ok == 0 && s.err == 0 && s.dead == 0 && s.run == 0, "recorded-when-off", "%s: statistics of b%zu not empty", hist.c_str(), i);
                                continue;
                            }
                            MC_CHECK(s.ok == (size_t)q.ok, "success-count", "%s: b%zu succeeded %ld times, statistics say %zu", hist.c_str(), i, q.ok, s.ok);
                            MC_CHECK(s.err == (size_t)q.err, "failure-count", "%s: b%zu failed %ld times, statistics say %zu", hist.c_str(), i, q.err, s.err);
                            MC_CHECK(s.name == blkname((int)i), "name", "%s: statistics of b%zu carry the name '%s'", hist.c_str(), i, s.name.c_str());
                            double lo = q.t_last > q.t_first ? (q.t_last - q.t_first) * 1e-9 : 0, hi = (t1 - t0) * 1e-9;
                            MC_CHECK(s.run >= lo - 1e-9 && s.run <= hi + 1e-9, "runtime", "%s: b%zu runtime %.9f s, its steps span %.9f s, the run took %.9f s", hist.c_str(), i, s.run, lo, hi);
                            MC_CHECK(s.dead >= 0 && s.dead <= s.run + 1e-9, "idle-time", "%s: b%zu idle time %.9f s of runtime %.9f s", hist.c_str(), i, s.dead, s.run);
                            MC_CHECK(s.fin >= 0 && s.fin <= (cfg.adaptive_sleep ? cfg.adaptive_sleep_max_us : 0), "final-sleep", "%s: b%zu final sleep %.3f us", hist.c_str(), i, s.fin);
                            double ae = s.ok ? s.run * 1e6 / s.ok : 0, cu = s.run > 0 ? (s.run - s.dead) / s.run * 100 : 0, ad = s.err ? s.dead / s.err : 0;
                            MC_CHECK(near(st.get_avg_execution_time_us(), ae), "derived", "%s: b%zu average execution time %.9f, expected %.9f", hist.c_str(), i, st.get_avg_execution_time_us(), ae);
                            MC_CHECK(near(st.get_cpu_utilization_percent(), cu), "derived", "%s: b%zu utilisation %.9f, expected %.9f", hist.c_str(), i, st.get_cpu_utilization_percent(), cu);
                            MC_CHECK(near(st.get_avg_dead_time_per_fail(), ad), "derived", "%s: b%zu idle time per failure %.9f, expected %.9f", hist.c_str(), i, st.get_avg_dead_time_per_fail(), ad);
                        }
                        ever |= cfg.collect_detailed_stats;
                    }
                }
                outcome(hmix(h, steps())); g_plog = nullptr;
            });
        });
    }
}
static void setup() {
    bool T = thorough();
    auto tpb = fcfg(false, 4, 1, false, true), tpb4 = fcfg(false, 4, 4, true, true), p2 = fcfg(true, 2, 2, false, true), p2a = fcfg(true, 2, 1, true, true), p3 = fcfg(true, 3, 4, false, true), off = fcfg(false, 4, 4), poff = fcfg(true, 2, 2, true);
    tpb4.adaptive_sleep_fail_threshold = p2a.adaptive_sleep_fail_threshold = poff.adaptive_sleep_fail_threshold = 0; tpb4.adaptive_sleep_max_us = 50;
    fam<3>({tpb, tpb4, p2, p2a, p3}, 1, 0, 7, 3, true);
    fam<3>({tpb4, p2, p2a, off, poff}, 3, 0, 2, 0, true);
    fam<3>({tpb, tpb4, p2, p2a}, 1, 1, 3, 0, true);
    fam<3>({tpb, p2}, 1, 2, 2, 0, true);
    fam<2>({tpb4, p2a}, 1, 1, 2, 3, false);
    fam<1>({tpb, tpb4}, 2, 1, 3, 0, true);
    fam<5>({p2, p2a, p3}, 1, 0, 3, 0, true);
    if (T) { fam<3>({tpb, tpb4, p2, p2a, off, poff}, 3, 0, 3, 0, true); fam<3>({tpb, tpb4, p2, p2a}, 1, 2, 3, 2, true); fam<3>({tpb4, p2, off}, 2, 1, 2, 2, true); fam<7>({p2, p2a, p3}, 2, 0, 2, 3, true); }
}
MC_MAIN(setup)
