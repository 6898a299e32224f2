// F07: adaptive sleeping stays within its configured bounds, for every sequence of step results.
#include "flow.hpp"
#include <cmath>
using namespace mc;

static const Error RES[] = {Error::OK, Error::NotEnoughSamples, Error::BadData, Error::NotEnoughSpace, Error::NotEnoughSpaceOrSamples, Error::Unknown};
struct Mon {
    int n = 0; cler::FlowGraphConfig cfg; std::vector<std::vector<int>> script; std::string what;
    struct B { long calls = 0, fails = 0, dry = 0; bool slept = false, ok_since = false; double lo = 0, hi = 0; long sleeps_in_row = 0; };
    std::vector<B> b; int cur[32]; long total_sleeps = 0; uint64_t h = 0;
    void reset() { b.assign(n, B()); for (int& c : cur) c = -1; }
    Error step(int i) {
        B& x = b[i]; cur[self()] = i;
        // a long enough row of fruitless executions must have slept
        if (cfg.adaptive_sleep && x.dry > (long)cfg.adaptive_sleep_fail_threshold + 1)
            MC_CHECK(x.sleeps_in_row > 0, "never-sleeps", "%s: b%d was fruitless %ld times in a row (threshold %zu) and never slept", what.c_str(), i, x.dry, cfg.adaptive_sleep_fail_threshold);
        int r = (size_t)x.calls < script[i].size() ? script[i][x.calls] : 0;
        x.calls++;
        if (r == 0) { x.fails = x.dry = 0; x.ok_since = true; x.sleeps_in_row = 0; }
        else { x.fails++; if (r == 2 || r == 5) x.dry = 0; else x.dry++; }
        return RES[r];
    }
    void sleep(size_t us) {
        total_sleeps++; h = hmix(h, us);
        MC_CHECK(cfg.adaptive_sleep, "sleep-when-off", "%s: adaptive sleep is off but a back-off sleep of %zu us was made", what.c_str(), us);
        int i = cur[self()];
        MC_CHECK(i >= 0, "sleep-no-block", "%s: back-off sleep before any block ran", what.c_str());
        B& x = b[i];
        MC_CHECK(x.fails > (long)cfg.adaptive_sleep_fail_threshold, "sleep-too-early", "%s: b%d slept after %ld consecutive fruitless executions, threshold %zu (call %ld)", what.c_str(), i, x.fails, cfg.adaptive_sleep_fail_threshold, x.calls);
        double mx = cfg.adaptive_sleep_max_us, m = cfg.adaptive_sleep_multiplier;
        MC_CHECK((double)us <= mx, "sleep-too-long", "%s: b%d slept %zu us, configured maximum %.3f us", what.c_str(), i, us, mx);
        double lo = us, hi = us + 1.0;
        if (x.slept && !x.ok_since) {
            double l = std::min(x.lo * m * 0.9, mx), u = std::min(x.hi * m * 1.1, mx);
            MC_CHECK(us >= (size_t)l && us <= (size_t)u, "growth", "%s: b%d slept %zu us after %.2f..%.2f us, factor %.2f (maximum %.2f)", what.c_str(), i, us, x.lo, x.hi, m, mx);
            lo = std::max(lo, l); hi = std::min(hi, u); if (hi < lo) hi = lo;
        } else if (x.slept && x.ok_since) {
            double u = std::max(x.hi * m * 0.88, 1.0);
            MC_CHECK(us <= (size_t)u, "no-shrink", "%s: b%d slept %zu us although it succeeded since its last sleep of %.2f..%.2f us (factor %.2f)", what.c_str(), i, us, x.lo, x.hi, m);
            lo = us; hi = std::min(us + 1.0, u);
        }
        x.slept = true; x.ok_since = false; x.lo = lo; x.hi = hi; x.sleeps_in_row++;
    }
};
static Mon* M_;
struct SleepPolicy : cler::DesktopTaskPolicy {
    static void sleep_us(size_t us) { { NoRace n; if (M_) M_->sleep(us); } cler::DesktopTaskPolicy::sleep_us(us); }
    static void relax() { cler::DesktopTaskPolicy::sleep_us(1); }
};
static Error step(void*, ScriptBlock& b) { NoRace n; return M_->step(b.idx); }

template <size_t N> static void one(Mon& m, int runs, const std::vector<cler::FlowGraphConfig>& cfgs) {
    M_ = &m; m.n = (int)N;
    NGraph<SleepPolicy, N> g(nullptr, step);
    for (int r = 0; r < runs; ++r) {
        m.reset(); m.cfg = cfgs[r];
        g.fg->run(m.cfg);
        for (;;) { bool all = true; { NoRace n; for (int i = 0; i < m.n; ++i) if (m.b[i].calls < (long)m.script[i].size()) all = false; } if (all) break; yield(); }
        g.fg->stop();
    }
    M_ = nullptr;
    outcome(m.h);
}
static const double MULT[] = {1.5, 2.0, 1.1, 7.0}, MAXUS[] = {5000, 3, 0.5, 40, 0, 1};
// every result sequence of length L
template <size_t N> static void words(bool pool, size_t batch, size_t thr, int L, int sym, int bound, int nm_, int nx, bool on, int runs = 1) {
    char nm[160]; snprintf(nm, sizeof nm, "words of %d over %d, %zu blocks %s batch=%zu threshold=%zu b%d %s runs=%d", L, sym, N, pool ? "pool" : "tpb", batch, thr, bound, on ? "on" : "off", runs);
    for (int s0 = 0; s0 < sym; ++s0) scenario(std::string(nm) + " first=" + std::to_string(s0), [=] {
        Opts o; o.threads = true; o.bound = bound; o.stale = bound ? 1 : 0; o.spin_limit = 6; o.slice = 40; o.max_steps = 8000;
        std::string base = nm; sample("%s", nm);
        explore(o, [=] {
            Mon m; auto c = fcfg(pool, 2, batch, on); c.adaptive_sleep_fail_threshold = thr; c.adaptive_sleep_multiplier = MULT[choose(nm_)]; c.adaptive_sleep_max_us = MAXUS[choose(nx)];
            std::vector<int> w = {s0}; for (int i = 1; i < L; ++i) w.push_back(choose(sym));
            std::string ws; for (int x : w) ws += "OnbsxU"[x];
            for (size_t i = 0; i < N; ++i) { auto v = w; if (i) { size_t k = i % v.size(); std::rotate(v.begin(), v.begin() + k, v.end()); } m.script.push_back(v); }
            char b[256]; snprintf(b, sizeof b, "%s mult=%.2f max=%.1f word=%s", base.c_str(), c.adaptive_sleep_multiplier, c.adaptive_sleep_max_us, ws.c_str()); m.what = b; note("%s", b);
            std::vector<cler::FlowGraphConfig> cs(runs, c);
            if (runs > 1) { cs[1].scheduler = choose(2) ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock; int v = choose(4); if (v == 1) cs[1].adaptive_sleep_max_us = 2; if (v == 2) cs[1].adaptive_sleep = false; if (v == 3) cs[1].adaptive_sleep_fail_threshold = thr + 2; }
            one<N>(m, runs, cs);
        });
    });
}
// long rows: a failures, b successes, c failures
template <size_t N> static void rows(bool pool, size_t batch, size_t thr, int amax, int bmax, int cmax) {
    for (int mi = 0; mi < 4; ++mi) {
        char nm[160]; snprintf(nm, sizeof nm, "rows up to %d/%d/%d, %zu blocks %s batch=%zu threshold=%zu mult=%.1f", amax, bmax, cmax, N, pool ? "pool" : "tpb", batch, thr, MULT[mi]);
        scenario(nm, [=] {
            Opts o; o.threads = true; o.bound = 0; o.stale = 0; o.spin_limit = 6; o.slice = 40; o.max_steps = 20000;
            sample("%s", nm);
            explore(o, [=] {
                Mon m; auto c = fcfg(pool, 2, batch, true); c.adaptive_sleep_fail_threshold = thr; c.adaptive_sleep_multiplier = MULT[mi]; c.adaptive_sleep_max_us = MAXUS[choose(6)];
                int a = choose(amax + 1), b = choose(bmax + 1), d = choose(cmax + 1);
                for (size_t i = 0; i < N; ++i) { std::vector<int> v; for (int k = 0; k < a + (int)i; ++k) v.push_back(1 + (k % 3 == 2 ? 2 : 0)); for (int k = 0; k < b; ++k) v.push_back(0); for (int k = 0; k < d; ++k) v.push_back(k % 2 ? 4 : 1); v.push_back(0); m.script.push_back(v); }
                char t[256]; snprintf(t, sizeof t, "%s max=%.1f: %d fruitless, %d good, %d fruitless", nm, c.adaptive_sleep_max_us, a, b, d); m.what = t; note("%s", t);
                one<N>(m, 1, {c});
            });
        });
    }
}
static void setup() {
    bool T = thorough();
    for (size_t batch : {1, 2, 4}) for (size_t thr : {0, 1, 2}) for (int pool = 0; pool < 2; ++pool) {
        words<3>(pool, batch, thr, T ? 9 : 7, 2, 0, 2, 3, true);
        words<3>(pool, batch, thr, T ? 6 : 5, 4, 0, 1, 2, true);
        words<3>(pool, batch, thr, 4, 2, 1, 1, 1, true);
        rows<3>(pool, batch, thr, T ? 24 : 14, 3, T ? 24 : 14);
    }
    for (int pool = 0; pool < 2; ++pool) { words<3>(pool, 2, 0, 5, 3, 0, 1, 1, false); words<3>(pool, 1, 2, 5, 2, 0, 1, 1, true, 2); words<3>(pool, 2, 0, 7, 2, 0, 1, 1, true, 2); words<3>(pool, 2, 10, 4, 2, 0, 1, 1, true); rows<3>(pool, 4, 10, 24, 2, 14); }
    rows<22>(true, 2, 0, 16, 0, 2); rows<12>(true, 2, 0, 10, 2, 6); rows<11>(false, 2, 1, 10, 2, 6); words<1>(false, 4, 3, 9, 2, 0, 2, 3, true); words<2>(false, 2, 1, 4, 3, 1, 1, 1, true);
    if (T) { words<3>(true, 3, 1, 5, 2, 2, 1, 1, true); words<3>(false, 2, 1, 5, 2, 2, 1, 1, true); words<5>(true, 2, 2, 8, 2, 0, 4, 6, true); words<3>(true, 1, 1, 6, 2, 0, 1, 2, true, 3); }
}
MC_MAIN(setup)
