// B02: filters and resamplers, every chunking schedule against one uninterrupted pass of the same liquid-dsp algorithm.
#include "chunk.hpp"
#include "filters/kaiser_lpf.hpp"
#include "fm/fm_demod.hpp"
#include "channelizers/polyphase_channelizer.hpp"
#include "resamplers/multistage_resampler.hpp"

#include <dlfcn.h>
#include <map>
// Designing a resampler takes 50 ms: finished ones are reset and handed out again (the reference uses a newly designed one).
template <class H> struct Pool {
    std::map<std::pair<float, float>, std::vector<H>> free_; std::map<H, std::pair<float, float>> key;
    H get(const char* create, int (*reset)(H), float r, float as) {
        auto& f = free_[{r, as}];
        if (!f.empty()) { H h = f.back(); f.pop_back(); reset(h); return h; }
        H h = ((H (*)(float, float))dlsym(RTLD_NEXT, create))(r, as); if (h) key[h] = {r, as}; return h;
    }
    int put(H h) { free_[key.at(h)].push_back(h); return 0; }
};
static Pool<msresamp_rrrf> pool_r; static Pool<msresamp_crcf> pool_c;
extern "C" msresamp_rrrf msresamp_rrrf_create(float r, float as) { return pool_r.get("msresamp_rrrf_create", msresamp_rrrf_reset, r, as); }
extern "C" int msresamp_rrrf_destroy(msresamp_rrrf q) { return pool_r.put(q); }
extern "C" msresamp_crcf msresamp_crcf_create(float r, float as) { return pool_c.get("msresamp_crcf_create", msresamp_crcf_reset, r, as); }
extern "C" int msresamp_crcf_destroy(msresamp_crcf q) { return pool_c.put(q); }

template <class T> T sig(size_t k);
template <> float sig<float>(size_t k) { return (float)(std::sin(0.07 * k + 0.0001 * k * k) + ((k * 7919) % 13) * 0.05); }
template <> cf sig<cf>(size_t k) { double a = 0.11 * k + 0.00007 * k * k; return cf((float)std::cos(a), (float)std::sin(a)) * (float)(1 + ((k * 104729) % 7) * 0.03); }
template <class T> std::vector<T> sigs(size_t n) { std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(sig<T>(i)); return v; }
static liquid_float_complex* L(cf* p) { return reinterpret_cast<liquid_float_complex*>(p); }

template <class TI, class TO> struct Case {
    std::string nm; size_t total, prefill; std::vector<std::vector<TO>> ref;    // per output
    std::function<void(Case&)> make;                                              // builds blk/in/out/run
    std::shared_ptr<void> blk; std::unique_ptr<In<TI>> in; std::vector<std::unique_ptr<Out<TO>>> out; std::function<Res()> run; size_t ratio = 0;   // ratio: inputs per output sample (0 = free)
    Sched s;
    void check_prefix(size_t k, size_t from) {
        auto& o = *out[k];
        MC_CHECK(o.got.size() <= ref[k].size(), "too-long", "%s: %zu samples came out, the reference has %zu;%s", nm.c_str(), o.got.size(), ref[k].size(), s.hist.c_str());
        for (size_t i = from; i < o.got.size(); ++i) MC_CHECK(std::abs(o.got[i] - ref[k][i]) <= 1e-4 * (1 + std::abs(ref[k][i])), "value", "%s: output sample %zu differs from the uninterrupted pass;%s", nm.c_str(), i, s.hist.c_str());
    }
    void once(int depth, int fills) {
        make(*this); in->data = sigs<TI>(total);
        s.ports.push_back(in.get()); for (auto& o : out) s.ports.push_back(o.get());
        s.call = [this] {
            size_t ic = in->consumed(); std::vector<size_t> oc; size_t room = ~(size_t)0; for (auto& o : out) { oc.push_back(o->produced()); room = std::min(room, o->ch->space()); }
            size_t had = in->occ();
            run();
            size_t did = in->consumed() - ic;
            if (ratio) {
                for (size_t k = 0; k < out.size(); ++k) MC_CHECK((out[k]->produced() - oc[k]) * ratio == did, "in-vs-out", "%s: %zu samples consumed, %zu written to output %zu;%s", nm.c_str(), did, out[k]->produced() - oc[k], k, s.hist.c_str());
                MC_CHECK(did > 0 || had < ratio || room == 0, "no-progress", "%s: %zu samples and %zu room, but no progress;%s", nm.c_str(), had, room, s.hist.c_str());
            }
        };
        // optionally start with outputs that are (nearly) full: let the block run without draining, then take out a few
        int f = fills ? choose(fills) : 0; s.hist = f ? " outputs full;" : "";
        if (f) {
            for (int i = 0; i < 100000; ++i) { size_t b = in->consumed(); in->go(in->most()); s.call(); if (in->consumed() == b) break; }
            if (f == 2) for (auto& o : out) { o->go(1); }
            if (f == 3 && out.size() > 1) { out[1]->go(2); s.hist = " outputs full, second drained by 2;"; }
            if (f == 4) { for (auto& o : out) o->go(o->most() - 1); s.hist = " outputs drained to 1;"; }
        }
        std::vector<size_t> done(out.size(), 0);
        for (int d = 0; d < depth; ++d) s.step(false);
        s.hist += " finish"; note("%s%s", nm.c_str(), s.hist.c_str());
        int idle = 0;
        for (int i = 0; i < 100000 && idle < 4; ++i) { size_t b = in->consumed(), g = 0; for (auto* p : s.ports) p->go(p->most()); for (auto& o : out) g += o->produced(); s.call(); size_t g2 = 0; for (auto& o : out) g2 += o->produced(); idle = in->consumed() == b && g2 == g && in->most() == 0 ? idle + 1 : (in->consumed() == b && g2 == g ? idle + 1 : 0); }
        for (auto& o : out) o->go(o->most());
        size_t left = total - in->consumed();
        MC_CHECK(left < std::max<size_t>(ratio, 1), "stalled", "%s: %zu of %zu input samples are never consumed although the outputs are drained;%s", nm.c_str(), left, total, s.hist.c_str());
        for (size_t k = 0; k < out.size(); ++k) { check_prefix(k, 0); MC_CHECK(out[k]->got.size() == ref[k].size(), "length", "%s: %zu samples came out of output %zu, the uninterrupted pass gives %zu;%s", nm.c_str(), out[k]->got.size(), k, ref[k].size(), s.hist.c_str()); }
        outcome(s.h);
    }
};
template <class TI, class TO> static void scen(std::string nm, size_t total, size_t ratio, int depth, int fills, std::function<std::vector<std::vector<TO>>()> ref, std::function<void(Case<TI, TO>&)> make) {
    scenario(nm, [=] {
        sample("%s", nm.c_str());
        auto R = ref(); Opts o; o.iterate = false;
        explore(o, [&] { Case<TI, TO> c; c.nm = nm; c.total = total; c.ref = R; c.make = make; c.ratio = ratio; c.once(depth, fills); });
    });
}
static std::string S(const char* f, double a, double b, double c = 0, double d = 0) { char s[160]; snprintf(s, sizeof s, f, a, b, c, d); return s; }
template <class T> static void lpf(double fs, double fc, double tb, double att, size_t ib, size_t ob, size_t total, int depth) {
    scen<T, T>(S(sizeof(T) == 4 ? "lpf<float> %g/%g in %g out %g" : "lpf<complex> %g/%g in %g out %g", fc, fs, (double)ib, (double)ob), total, 1, depth, 3,
        [=] {
            unsigned n = (unsigned)std::ceil(att / (22.0f * (float)(tb / fs))); if (n % 2 == 0) n++;
            std::vector<T> x = sigs<T>(total), y(total);
            if constexpr (sizeof(T) == 4) { auto q = firfilt_rrrf_create_kaiser(n, (float)(fc / fs), (float)att, 0.f); for (size_t i = 0; i < total; ++i) { firfilt_rrrf_push(q, x[i]); firfilt_rrrf_execute(q, &y[i]); } firfilt_rrrf_destroy(q); }
            else { auto q = firfilt_crcf_create_kaiser(n, (float)(fc / fs), (float)att, 0.f); for (size_t i = 0; i < total; ++i) { firfilt_crcf_push(q, *L(&x[i])); firfilt_crcf_execute(q, L(&y[i])); } firfilt_crcf_destroy(q); }
            return std::vector<std::vector<T>>{y};
        },
        [=](Case<T, T>& c) { auto b = std::make_shared<KaiserLPFBlock<T>>("l", fs, fc, tb, att, ib); c.blk = b; c.in = std::make_unique<In<T>>(&b->in, std::vector<T>()); c.out.push_back(std::make_unique<Out<T>>(ob)); auto* o = c.out[0]->ch; auto* p = b.get(); c.run = [=] { return p->procedure(o); }; });
}
static void fm(double fs, double dev, size_t ib, size_t ob, size_t total, int depth) {
    scen<cf, float>(S("fm %g/%g in %g out %g", dev, fs, (double)ib, (double)ob), total, 1, depth, 3,
        [=] { auto q = freqdem_create((float)(dev / fs)); auto x = sigs<cf>(total); std::vector<float> y(total); for (size_t i = 0; i < total; ++i) freqdem_demodulate(q, *L(&x[i]), &y[i]); freqdem_destroy(q); return std::vector<std::vector<float>>{y}; },
        [=](Case<cf, float>& c) { auto b = std::make_shared<FMDemodBlock>("f", fs, dev, ib); c.blk = b; c.in = std::make_unique<In<cf>>(&b->in, std::vector<cf>()); c.out.push_back(std::make_unique<Out<float>>(ob)); auto* o = c.out[0]->ch; auto* p = b.get(); c.run = [=] { return p->procedure(o); }; });
}
static void chan(size_t N, float att, size_t semi, size_t ib, size_t ob, size_t total, int depth) {
    scen<cf, cf>(S("channelizer %g channels in %g out %g", (double)N, (double)ib, (double)ob), total, N, depth, 5,
        [=] { auto q = firpfbch_crcf_create_kaiser(LIQUID_ANALYZER, N, semi, att); auto x = sigs<cf>(total); std::vector<std::vector<cf>> y(N); std::vector<cf> t(N); for (size_t i = 0; i + N <= total; i += N) { firpfbch_crcf_analyzer_execute(q, L(&x[i]), L(t.data())); for (size_t k = 0; k < N; ++k) y[k].push_back(t[k]); } firpfbch_crcf_destroy(q); return y; },
        [=](Case<cf, cf>& c) { auto b = std::make_shared<PolyphaseChannelizerBlock>("p", N, att, semi, ib); c.blk = b; c.in = std::make_unique<In<cf>>(&b->in, std::vector<cf>()); for (size_t k = 0; k < N; ++k) c.out.push_back(std::make_unique<Out<cf>>(ob + (k == 1 ? 100 : 0), k == 0 ? "o0" : k == 1 ? "o1" : "o2"));
            std::vector<cler::ChannelBase<cf>*> o; for (auto& x : c.out) o.push_back(x->ch); auto* p = b.get();
            c.run = [=]() -> Res { switch (N) { case 1: return p->procedure(o[0]); case 2: return p->procedure(o[0], o[1]); case 3: return p->procedure(o[0], o[1], o[2]); case 4: return p->procedure(o[0], o[1], o[2], o[3]); default: return p->procedure(o[0], o[1], o[2], o[3], o[4]); } }; });
}
template <class T> static void resamp(float ratio, float att, size_t ib, size_t ob, size_t total, int depth) {
    scen<T, T>(S(sizeof(T) == 4 ? "resampler<float> %g att %g in %g out %g" : "resampler<complex> %g att %g in %g out %g", ratio, att, (double)ib, (double)ob), total, 0, depth, 3,
        [=] {
            auto x = sigs<T>(total); std::vector<T> y((size_t)(total * ratio) * 2 + 1000); unsigned tot = 0;
            if constexpr (sizeof(T) == 4) { auto q = msresamp_rrrf_create(ratio, att); for (size_t i = 0; i < total; ++i) { unsigned n = 0; msresamp_rrrf_execute(q, &x[i], 1, &y[tot], &n); tot += n; } msresamp_rrrf_destroy(q); }
            else { auto q = msresamp_crcf_create(ratio, att); for (size_t i = 0; i < total; ++i) { unsigned n = 0; msresamp_crcf_execute(q, L(&x[i]), 1, L(&y[tot]), &n); tot += n; } msresamp_crcf_destroy(q); }
            y.resize(tot); return std::vector<std::vector<T>>{y};
        },
        [=](Case<T, T>& c) { auto b = std::make_shared<MultiStageResamplerBlock<T>>("r", ratio, att, ib); c.blk = b; c.in = std::make_unique<In<T>>(&b->in, std::vector<T>()); c.out.push_back(std::make_unique<Out<T>>(ob)); auto* o = c.out[0]->ch; auto* p = b.get(); c.run = [=] { return p->procedure(o); }; });
}
static void setup() {
    bool T = thorough(); int D = T ? 1 : 0;
    lpf<float>(1000, 100, 100, 60, 1024, 1024, 4000, 3 + D); lpf<float>(1000, 200, 300, 60, 0, 1500, 4500, 2 + D); lpf<cf>(1e6, 1e5, 5e4, 60, 512, 512, 2000, 3 + D); lpf<cf>(48000, 10000, 3000, 40, 600, 1000, 3000, 2 + D);
    fm(2e6, 75e3, 512, 1024, 3000, 3 + D); fm(48e3, 5e3, 0, 1300, 3000, 2 + D); fm(240e3, 75e3, 700, 1024, 4000, 2 + D);
    chan(1, 60, 3, 512, 512, 1500, 3); chan(2, 60, 3, 512, 512, 2001, 2); chan(3, 80, 4, 513, 512, 2500, 1 + D); chan(4, 60, 2, 0, 512, 5003, 1); chan(5, 60, 3, 515, 600, 4002, 1);
    for (float r : {0.1f, 0.3f, 0.5f, 0.77f, 0.99f, 1.0f, 1.01f, 1.3f, 2.0f, 3.7f, 8.5f}) for (size_t ob : {1, 2, 3, 5, 16}) resamp<float>(r, 60, 1024, ob, 90, ob < 3 ? 3 + D : 2 + D);
    for (float r : {0.21f, 0.5f, 1.7f, 4.0f}) for (size_t ob : {1, 4, 512}) resamp<cf>(r, 60, 512, ob, ob > 100 ? 2000 : 90, 2 + D);
    resamp<float>(300.f, 60, 1025, 400000, 9000, 1); resamp<cf>(170.f, 60, 513, 200000, 3000, 1);
    resamp<float>(0.3f, 80, 0, 1024, 5000, 2 + D); resamp<float>(2.5f, 40, 1500, 1000, 3000, 3 + D);
}
MC_MAIN(setup)
