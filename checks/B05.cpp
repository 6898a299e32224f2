// B05: the throttle under a virtual clock: every combination of call times, sleep overruns, wall-clock steps and channel
// occupancy up to the bounds; the number of samples passed is compared to rate * elapsed virtual time.
#include "chunk.hpp"
#include <thread>
#include "utils/throttle.hpp"

static struct { double I; int over_left; uint64_t slept; bool inside; uint64_t before; std::string* hist; std::function<void()> see; } E_;
static const double OVER[] = {0, 0.5, 3.2};
static void hook(uint64_t ns) {
    E_.slept += ns; if (E_.inside && E_.see) E_.see();
    if (E_.inside && E_.over_left > 0) { int k = choose(3); if (k) { E_.over_left--; advance_ns((uint64_t)(OVER[k] * E_.I)); char b[40]; snprintf(b, 40, " overslept:%g", OVER[k]); *E_.hist += b; } }
    E_.before = now_ns() + ns;
}
struct Run {
    std::string nm; double rate, I; uint64_t t0; std::vector<double> t; std::string hist;
    std::unique_ptr<ThrottleBlock<int>> blk; std::unique_ptr<In<int>> in; std::unique_ptr<Out<int>> out; uint64_t h = 0; bool stepped = false;
    Run(double r, size_t cap, size_t ocap, size_t total) : rate(r), I(1e9 / r) {
        char b[100]; snprintf(b, 100, "throttle %g/s in %zu out %zu", r, cap, ocap); nm = b;
        t0 = now_ns(); blk = std::make_unique<ThrottleBlock<int>>("t", (size_t)r, cap); std::vector<int> d; for (size_t i = 0; i < total; ++i) d.push_back((int)i + 7);
        in = std::make_unique<In<int>>(&blk->in, d); out = std::make_unique<Out<int>>(ocap); E_ = {I, 0, 0, false, 0, &hist, nullptr};
    }
    void call() {
        size_t had = in->occ(), room = out->ch->space(), c0 = in->consumed(), p0 = out->produced(); E_.slept = 0;
        // samples are stamped at the first sleep that finds them passed on, else at the end of the call
        E_.see = [this] { while (t.size() < out->produced()) t.push_back((double)(E_.before - t0)); };
        E_.before = now_ns(); E_.inside = true;
        blk->procedure(out->ch);
        E_.inside = false; count_trans(); E_.before = now_ns(); E_.see();
        size_t c = in->consumed() - c0, p = out->produced() - p0;
        MC_CHECK(c == p, "lost", "%s: %zu samples taken, %zu passed on;%s", nm.c_str(), c, p, hist.c_str());
        MC_CHECK(p > 0 || had == 0 || room == 0, "no-progress", "%s: a sample waits and there is room, but nothing is passed;%s", nm.c_str(), hist.c_str());
        MC_CHECK((double)E_.slept <= (p + 1) * (I + 1) + 1000, "stall", "%s: slept %.6f intervals for %zu samples;%s", nm.c_str(), E_.slept / I, p, hist.c_str());
        size_t n = t.size();
        if (p) {
            double e = t.back() + 2000;       // the clock advances a little while the call runs
            MC_CHECK((double)n <= 1 + rate * e * 1e-9 + 1e-6, "rate", "%s: %zu samples passed after %.3f intervals;%s", nm.c_str(), n, t.back() / I, hist.c_str());
            for (size_t i = n > 64 ? n - 64 : 0; i + 1 < n; ++i) MC_CHECK((double)(n - i) <= 2 + rate * (e - t[i]) * 1e-9 + 1e-6, "burst", "%s: %zu samples within %.3f intervals;%s", nm.c_str(), n - i, (t.back() - t[i]) / I, hist.c_str());
        }
        h = hmix(h, hmix(in->occ(), hmix(out->occ(), (uint64_t)((now_ns() - t0) / (I / 10) + 0.5)))); state(h);
    }
    void wait(double iv) { if (iv) { advance_ns((uint64_t)(iv * I)); char b[32]; snprintf(b, 32, " wait:%g", iv); hist += b; } }
    void finish() {
        hist += " finish"; note("%s%s", nm.c_str(), hist.c_str());
        for (int i = 0; i < 5000 && in->consumed() < in->data.size(); ++i) { in->go(in->most()); out->go(out->most()); call(); }
        out->go(out->most());
        MC_CHECK(out->got == in->data, "stream", "%s: %zu of %zu samples came out, or not in order;%s", nm.c_str(), out->got.size(), in->data.size(), hist.c_str());
        outcome(h);
    }
};
static Opts seq() { Opts o; o.bound = 0; o.threads = 2; o.iterate = false; o.max_steps = 2000000; return o; }
static void times(double rate, int depth, int overs) {
    scenario("call times at " + std::to_string((long)rate) + "/s", [=] {
        sample("throttle at %g/s, %d calls at chosen times with up to %d overlong sleeps", rate, depth, overs); set_sleep_hook(hook);
        explore(seq(), [&] {
            set_sleep_hook(hook); static const double W[] = {0, 0.3, 1, 1.7, 12.5}; Run r(rate, 64, 64, 40); r.in->go(40); E_.over_left = overs;
            for (int d = 0; d < depth; ++d) { r.wait(W[choose(5)]); note("%s%s", r.nm.c_str(), r.hist.c_str()); r.call(); r.hist += " |"; }
            E_.over_left = 0; r.finish();
        });
    });
}
static void chans(double rate, size_t ci, size_t co, int depth) {
    scenario("channels at " + std::to_string((long)rate) + "/s in " + std::to_string(ci) + " out " + std::to_string(co), [=] {
        sample("throttle at %g/s, channels %zu and %zu, %d calls", rate, ci, co, depth);
        explore(seq(), [&] {
            set_sleep_hook(hook); static const double W[] = {0, 1.7}; Run r(rate, ci, co, 14); std::vector<size_t> c;
            for (int d = 0; d < depth; ++d) {
                int m = pick_amount(r.in->most(), c, true); size_t k = c[choose(m)]; r.in->go(k); if (k) r.hist += " in:" + std::to_string(k);
                m = pick_amount(r.out->most(), c, true); k = c[choose(m)]; r.out->go(k); if (k) r.hist += " out:" + std::to_string(k);
                r.wait(W[choose(2)]); r.hist += " |"; note("%s%s", r.nm.c_str(), r.hist.c_str()); r.call();
            }
            r.finish();
        });
    });
}
static void steps_(double rate, int depth) {
    scenario("wall-clock steps at " + std::to_string((long)rate) + "/s", [=] {
        sample("throttle at %g/s, %d calls, the wall clock stepped before each", rate, depth);
        explore(seq(), [&] {
            set_sleep_hook(hook); static const int64_t ST[] = {0, 3600000000000ll, -3600000000000ll, -1500}; Run r(rate, 64, 64, 30); r.in->go(30);
            for (int d = 0; d < depth; ++d) { int k = choose(4); step_wall_clock(ST[k] == -1500 ? (int64_t)(-3.5 * r.I) : ST[k]); if (k) r.hist += k == 1 ? " clock+1h" : k == 2 ? " clock-1h" : " clock-3.5 intervals"; r.wait(choose(2) ? 2.3 : 0); r.hist += " |"; note("%s%s", r.nm.c_str(), r.hist.c_str()); r.call(); }
            r.finish();
        });
    });
}
static void longrun(double rate, size_t n) {
    scenario("long run at " + std::to_string((long)rate) + "/s", [=] {
        sample("throttle at %g/s, %zu samples without a pause or with one overrun", rate, n);
        explore(seq(), [&] {
            set_sleep_hook(hook); Run r(rate, 8, 8, n); int k = choose(3); size_t i = 0;
            while (r.in->consumed() < n) { r.in->go(r.in->most()); r.out->go(r.out->most()); if (k && i == n / 3) r.wait(k == 1 ? 0.5 : 40); r.call(); ++i; if (i > 2 * n + 10) break; }
            r.finish();
            double el = (double)(now_ns() - r.t0) / r.I; MC_CHECK(el <= n * 1.01 + n * 3000 / r.I + 80, "too-slow", "%s: %zu samples took %.1f intervals", r.nm.c_str(), n, el);
        });
    });
}
static void setup() {
    bool T = thorough(); int D = T ? 1 : 0;
    for (double r : {3., 48000., 1e6}) times(r, 5 + D, 2);
    for (size_t ci : {1, 2, 3}) for (size_t co : {1, 2, 3}) chans(100, ci, co, 4 + D);
    chans(1e6, 2, 2, 5 + D);
    for (double r : {2., 1000., 7e5}) steps_(r, 5 + D);
    for (double r : {1., 3., 7., 44100., 1e6, 2.4e6, 3e6, 7e6}) longrun(r, r > 2e6 ? 12000 : 4000);
}
MC_MAIN(setup)
