// B03: tone and chirp generators, every schedule of drain amounts against the closed form of the sample sequence.
#include "chunk.hpp"
#include "sources/source_cw.hpp"
#include "sources/source_chirp.hpp"

template <class T> T real_or(std::complex<double> v) { if constexpr (std::is_same_v<T, float>) return (float)v.real(); else return cf(v); }
typedef std::function<std::complex<double>(size_t)> Form;       // closed form of sample n (unit amplitude)
typedef std::function<double(size_t)> Tol;

template <class T> struct Gen {
    std::string nm; float amp; Form want; Tol tol;
    std::shared_ptr<void> blk; std::function<Res(cler::ChannelBase<T>*)> run;
    size_t bad_from = 0;
    void check(const std::vector<T>& got, size_t from, const std::string& hist) {
        for (size_t i = from; i < got.size(); ++i) {
            T w = real_or<T>((double)amp * want(i));
            MC_CHECK(std::abs(got[i] - w) <= std::abs(amp) * tol(i), "value", "%s: sample %zu differs from the configured sequence by %.3g of the amplitude;%s", nm.c_str(), i, std::abs(got[i] - w) / std::abs(amp), hist.c_str());
            if constexpr (!std::is_same_v<T, float>) MC_CHECK(std::abs(std::abs(got[i]) - std::abs(amp)) <= 1e-3 * std::abs(amp), "amplitude", "%s: sample %zu has magnitude %g instead of %g;%s", nm.c_str(), i, std::abs(got[i]), amp, hist.c_str());
        }
    }
    // schedule: before every call the environment drains some of the output; the last calls drain everything
    void once(size_t cap, int depth, size_t total, size_t skip) {
        Out<T> out(cap); Sched s; s.ports.push_back(&out); std::vector<T> all; size_t checked = 0;
        s.call = [&] {
            size_t room = out.ch->space(), before = out.produced();
            Res r = run(out.ch);
            size_t did = out.produced() - before;
            MC_CHECK(room || !did, "overrun", "%s: produced %zu samples without room;%s", nm.c_str(), did, s.hist.c_str());
            MC_CHECK(!room || did, "no-progress", "%s: room for %zu samples, none produced;%s", nm.c_str(), room, s.hist.c_str());
            MC_CHECK(did == 0 || r.is_ok(), "status", "%s: samples were produced but the call reports an error;%s", nm.c_str(), s.hist.c_str());
        };
        if (skip) { char b[40]; snprintf(b, 40, " %zu samples first;", skip); s.hist += b; while (out.got.size() < skip) { s.call(); out.go(std::min(out.most(), skip - out.got.size())); } }
        for (int d = 0; d < depth; ++d) s.step(cap <= 6);
        s.hist += " finish"; note("%s%s", nm.c_str(), s.hist.c_str());
        while (out.got.size() < total + skip) { out.go(out.most()); s.call(); }
        check(out.got, checked, s.hist);
        outcome(s.h);
    }
};
static std::string S(const char* f, double a, double b, double c = 0, double d = 0, double e = 0) { char s[200]; snprintf(s, sizeof s, f, a, b, c, d, e); return s; }
template <class T> static Gen<T> cw(float amp, float f, size_t sps) {
    Gen<T> g; g.nm = S(sizeof(T) == 4 ? "tone<float> %g Hz at %g, amplitude %g" : "tone<complex> %g Hz at %g, amplitude %g", f, (double)sps, amp); g.amp = amp;
    double w = std::fmod((double)f / (double)sps, 1.0); g.want = [=](size_t n) { return std::polar(1.0, 2 * M_PI * std::fmod(w * (double)n, 1.0)); }; g.tol = [](size_t n) { return 1e-4 + n * 3e-7; };
    auto b = std::make_shared<SourceCWBlock<T>>("cw", amp, f, sps); g.blk = b; auto* p = b.get(); g.run = [=](cler::ChannelBase<T>* o) { return p->procedure(o); }; return g;
}
template <class T> static Gen<T> chirp(float amp, float f0, float f1, size_t sps, double dur) {
    Gen<T> g; g.nm = S(sizeof(T) == 4 ? "chirp<float> %g to %g Hz at %g in %g s, amplitude %g" : "chirp<complex> %g to %g Hz at %g in %g s, amplitude %g", f0, f1, (double)sps, dur, amp); g.amp = amp;
    size_t N = std::max<size_t>(1, (size_t)std::llround(dur * sps)); double dt = 1.0 / sps, k = ((double)f1 - f0) / (double)(float)dur;
    // the phase grows by the current frequency each sample, the frequency by a constant
    g.want = [=](size_t i) { double n = (double)(i % N); double cyc = f0 * dt * n + k * dt * dt * n * (n - 1) / 2; return std::polar(1.0, 2 * M_PI * std::fmod(cyc, 1.0)); }; g.tol = [=](size_t i) { return 1e-3 + (i % N) * 1e-9; };
    auto b = std::make_shared<SourceChirpBlock<T>>("chirp", amp, f0, f1, sps, (float)dur); g.blk = b; auto* p = b.get(); g.run = [=](cler::ChannelBase<T>* o) { return p->procedure(o); }; return g;
}
template <class T> static void scen(std::function<Gen<T>()> make, std::vector<size_t> caps, int depth, size_t total, std::vector<size_t> skips = {0}) {
    std::string base = make().nm;
    for (size_t cap : caps) scenario(base + ", out " + std::to_string(cap), [=] {
        sample("%s into a channel of %zu", base.c_str(), cap);
        Opts o; o.iterate = false;
        explore(o, [&] { auto g = make(); g.once(cap, depth, total, skips[choose((int)skips.size())]); });
    });
}
// every duration of a whole number of samples restarts exactly there
static void durations(size_t sps, int from, int to, int unit) {
    scenario("chirp durations at " + std::to_string(sps) + " from " + std::to_string(from) + "/" + std::to_string(unit), [=] {
        sample("chirp of every duration i/%d s, i = %d..%d, at %zu samples/s", unit, from, to, sps);
        Opts o; o.iterate = false;
        explore(o, [&] {
            int i = from + choose(to - from); double N = (double)i * sps / unit; if (N != std::floor(N)) { outcome(i); return; }
            size_t n = (size_t)N; note("duration %d/%d s at %zu", i, unit, sps);
            // the frequency falls from 0.3 to 0.1 cycles per sample, so a restart is a visible jump back to phase 0
            auto g = chirp<cf>(1.f, 0.3f * sps, 0.1f * sps, sps, (double)i / unit); cler::Channel<cf> out(512); std::vector<cf> got(512); size_t at = 0; count_trans();
            while (at < 2 * n + 8) { g.run(&out); size_t k = out.readN(got.data(), got.size()); for (size_t j = 0; j < k; ++j, ++at) if (at % n < 3 || at % n + 3 > n || n < 64) MC_CHECK(std::abs(got[j] - cf(g.want(at))) < 2e-3, "restart", "chirp of %d/%d s at %zu samples/s (%zu samples): sample %zu does not follow the %zu-sample period", i, unit, sps, n, at, n); }
            outcome(hmix(i, sps)); state(hmix(n, sps));
        });
    });
}
template <class T> static void longrun(std::function<Gen<T>()> make, size_t total) {
    scenario(make().nm + ", long run", [=] {
        Opts o; o.iterate = false;
        explore(o, [&] {
            auto g = make(); int m = choose(2); cler::Channel<T> out(m ? 1100 : 4096); std::vector<T> got(4096); size_t n = 0; sample("%s, %zu samples", g.nm.c_str(), total); count_trans();
            while (n < total) { MC_CHECK(g.run(&out).is_ok(), "no-progress", "%s: an empty output, but no samples", g.nm.c_str()); size_t k = out.readN(got.data(), m ? 333 : 4096);
                for (size_t i = 0; i < k; ++i, ++n) { T w = real_or<T>((double)g.amp * g.want(n)); MC_CHECK(std::abs(got[i] - w) <= g.amp * g.tol(n), "value", "%s: sample %zu differs from the configured sequence by %.3g", g.nm.c_str(), n, std::abs(got[i] - w)); if constexpr (!std::is_same_v<T, float>) MC_CHECK(std::abs(std::abs(got[i]) - g.amp) < 1e-3 * g.amp, "amplitude", "%s: sample %zu has magnitude %g", g.nm.c_str(), n, std::abs(got[i])); }
                state(hmix(n, m)); }
            outcome(m);
        });
    });
}
static void setup() {
    bool T = thorough(); int D = T ? 1 : 0;
    for (auto [f, sps] : {std::pair<float, size_t>{1, 10}, {2.5f, 7}, {-3, 11}, {0, 5}, {5, 10}, {12, 10}, {440, 44100}, {1e5f, 2400000}}) {
        scen<float>([=] { return cw<float>(1.f, f, sps); }, {1, 2, 3, 4, 6}, 4 + D, 60); scen<cf>([=] { return cw<cf>(2.5f, f, sps); }, {1, 3, 5}, 4 + D, 60);
        scen<float>([=] { return cw<float>(0.25f, f, sps); }, {0x400, 0x401, 3000}, 4 + D, 9000, {0, 1000}); scen<cf>([=] { return cw<cf>(1.f, f, sps); }, {0x200, 700}, 4 + D, 3000, {0, 500});
    }
    for (auto [f0, f1, sps, dur] : {std::tuple<float, float, size_t, double>{0, 400, 1000, 1}, {100, 50, 1000, 0.3}, {-200, 200, 1000, 0.777}, {20, 80, 1000, 0.001}, {10, 10, 1000, 0.002}, {5, 45, 100, 0.53}, {1000, 3000, 8000, 0.512}, {1e5f, 2e5f, 1000000, 0.0013}}) {
        scen<cf>([=] { return chirp<cf>(1.f, f0, f1, sps, dur); }, {0x200, 513, 1000}, 4 + D, 3000, {0, 511}); scen<float>([=] { return chirp<float>(3.f, f0, f1, sps, dur); }, {0x400, 1500}, 4 + D, 5000, {0, 1023});
    }
    for (int a = 1; a < 400; a += 100) { durations(100, a, a + 100, 100); durations(1000, a, a + 100, 1000); }
    durations(8000, 1, 200, 1000); durations(44100, 1, 60, 100); durations(48000, 1, 100, 1000); if (T) { durations(1000, 400, 4000, 1000); durations(250000, 1, 300, 1000); durations(1000000, 1, 100, 10000); }
    size_t L = T ? 5000000 : 1000000;
    for (auto [f, sps] : {std::pair<float, size_t>{1, 1000}, {123.4f, 1000}, {-77, 1000}, {3e5f, 1000000}}) { longrun<cf>([=] { return cw<cf>(1.f, f, sps); }, L); longrun<float>([=] { return cw<float>(2.f, f, sps); }, L); }
    for (auto [f0, f1, sps, dur] : {std::tuple<float, float, size_t, double>{20, 80, 1000, 10}, {0, 4000, 8000, 20}, {1e5f, 1.001e5f, 1000000, 0.8}, {-2e5f, 2e5f, 1000000, 0.4}}) { longrun<cf>([=] { return chirp<cf>(1.f, f0, f1, sps, dur); }, L); longrun<float>([=] { return chirp<float>(1.f, f0, f1, sps, dur); }, L); }
}
MC_MAIN(setup)
