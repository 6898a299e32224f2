// G01: plot blocks - what a window shows is exactly what arrived, whatever the interleaving of drawing and processing.
#include "mc.hpp"
#include "cler.hpp"
#include "imgui.h"
#include "implot.h"
#include "plots/plot_timeseries.hpp"
#include "plots/plot_cspectrum.hpp"
#include "plots/plot_cspectrogram.hpp"
#include <thread>
#include <memory>
#include <string>
#include <vector>
#include <cmath>
using namespace mc;
typedef std::complex<float> cf;
static const double PI2 = 6.283185307179586476925;

static void fresh() { new (&mock::curves) std::vector<mock::Curve>(); new (&mock::g) mock::State(); }      // nothing of an earlier execution's heap survives
static void frame(bool press = false) { mock::curves.clear(); mock::g.press = press; }
// ---------------------------------------------------------------- time series
static float val(size_t i, size_t k) { return (float)(k % 100003) + 0.25f * (float)i; }
struct TS {
    std::unique_ptr<PlotTimeSeriesBlock> b; size_t n, sps, want; std::vector<size_t> fed; size_t eaten = 0; std::string what; std::vector<float> buf;
    size_t last_end = 0;
    TS(size_t inputs, size_t sps_, size_t samples) : n(inputs), sps(sps_), want(samples), fed(inputs, 0) {
        std::vector<std::string> L; for (size_t i = 0; i < n; ++i) L.push_back("s" + std::to_string(i));
        b = std::make_unique<PlotTimeSeriesBlock>("ts", L, sps, (float)(((double)samples + 0.5) / (double)sps));
        what = std::to_string(n) + " signal(s), " + std::to_string(samples) + " samples shown"; buf.resize(8192);
    }
    size_t room(size_t i) { return b->in[i].space(); }
    void feed(size_t i, size_t k) { for (size_t j = 0; j < k; ++j) buf[j] = val(i, fed[i] + j); size_t d = b->in[i].writeN(buf.data(), k); MC_CHECK(d == k, "harness", "feed"); fed[i] += k; }
    size_t ready() { size_t m = SIZE_MAX; for (size_t i = 0; i < n; ++i) m = std::min(m, (size_t)b->in[i].size()); return m; }
    // the curves shown: contiguous samples with their own times, all signals alike; returns (first, count)
    std::pair<size_t, size_t> shown() {
        if (mock::curves.empty()) return {0, 0};
        MC_CHECK(mock::curves.size() == n, "curves", "%s: %zu curves are drawn", what.c_str(), mock::curves.size());
        size_t cnt = mock::curves[0].x.size(); MC_CHECK(cnt > 0, "curves", "%s: an empty curve is drawn", what.c_str());
        size_t first = (size_t)std::llround((double)mock::curves[0].x[0] * (double)sps);
        for (size_t d = 0, g = first; d <= 1 + g / 4000000; ++d) { if (mock::curves[0].y[0] == val(0, g + d)) { first = g + d; break; } if (g >= d && mock::curves[0].y[0] == val(0, g - d)) { first = g - d; break; } }     // the time is a float: it may not tell neighbours apart
        for (size_t i = 0; i < n; ++i) {
            auto& c = mock::curves[i];
            MC_CHECK(c.label == "s" + std::to_string(i), "label", "%s: curve %zu carries the label %s", what.c_str(), i, c.label.c_str());
            MC_CHECK(c.x.size() == cnt, "curves", "%s: curve %zu has %zu points, curve 0 has %zu", what.c_str(), i, c.x.size(), cnt);
            for (size_t k = 0; k < cnt; ++k) {
                double t = (double)(first + k) / (double)sps;
                MC_CHECK(std::fabs((double)c.x[k] - t) <= t * 2.5e-7, "time", "%s: point %zu of %zu is drawn at %.9g s, the sample %zu has the time %.9g s", what.c_str(), k, cnt, (double)c.x[k], first + k, t);
                MC_CHECK(c.y[k] == val(i, first + k), "torn", "%s: signal %zu shows %.9g at the time of sample %zu, which was %.9g (point %zu of %zu)", what.c_str(), i, (double)c.y[k], first + k, (double)val(i, first + k), k, cnt);
            }
        }
        MC_CHECK(first + cnt >= last_end, "back", "%s: the plot went back from sample %zu to %zu", what.c_str(), last_end, first + cnt); last_end = first + cnt;
        return {first, cnt};
    }
};
#ifndef THR
static void ts_seq(size_t inputs, size_t sps, size_t samples, int len) {
    std::string N = "time series " + std::to_string(inputs) + "x" + std::to_string(samples) + " at " + std::to_string(sps);
    scenario(N, [=] {
        Opts o; o.bound = 0; sample("%s", N.c_str());
        explore(o, [=] {
            TS t(inputs, sps, samples); std::string hist; bool paused = false; uint64_t h = 0; frame();
            for (int step = 0; step < len; ++step) {
                for (size_t i = 0; i < inputs; ++i) {
                    size_t m = t.room(i); std::vector<size_t> c; for (size_t v : {(size_t)0, (size_t)1, m / 2, m}) if (v <= m && (c.empty() || c.back() != v)) c.push_back(v);
                    if (i) { size_t lead = t.fed[0] - t.fed[i]; c.clear(); for (size_t v : {lead, lead > 3 ? lead - 3 : lead + 1}) if (v <= m) c.push_back(v); if (c.empty()) c.push_back(0); }
                    size_t k = c[choose((int)c.size())]; t.feed(i, k); hist += " +" + std::to_string(k); h = hmix(h, k);
                }
                int act = choose(3);          // process, draw, both with the pause button
                note("%s:%s act%d%s", N.c_str(), hist.c_str(), act, paused ? " (paused)" : ""); hist += act == 0 ? " run" : act == 1 ? " run,draw" : " press,run,draw";
                auto draw = [&](bool press) {
                    frame(press); t.b->render(); auto s = t.shown();
                    if (!t.eaten) { MC_CHECK(s.second == 0, "ghost", "%s: something is drawn before any sample arrived", N.c_str()); return; }
                    MC_CHECK(s.first + s.second == t.eaten, "newest", "%s:%s: the plot ends at sample %zu, %zu have been taken", N.c_str(), hist.c_str(), s.first + s.second, t.eaten);
                    MC_CHECK(s.second >= std::min(t.eaten, samples), "history", "%s:%s: %zu points are shown of %zu samples (%zu asked for)", N.c_str(), hist.c_str(), s.second, t.eaten, samples);
                    if (press) paused = !paused;
                };
                if (act == 2) draw(true);
                size_t r = t.ready(), before = t.eaten; std::vector<size_t> sz; for (size_t i = 0; i < inputs; ++i) sz.push_back(t.b->in[i].size());
                auto res = t.b->procedure(); count_trans();
                size_t took = sz[0] - t.b->in[0].size();
                for (size_t i = 0; i < inputs; ++i) MC_CHECK(sz[i] - t.b->in[i].size() == took, "uneven", "%s:%s: %zu samples taken from signal 0, %zu from signal %zu", N.c_str(), hist.c_str(), took, sz[i] - t.b->in[i].size(), i);
                if (paused) MC_CHECK(took == 0, "paused", "%s:%s: %zu samples were taken while paused", N.c_str(), hist.c_str(), took);
                else { MC_CHECK(r == 0 || took > 0, "stuck", "%s:%s: %zu samples wait and none is taken", N.c_str(), hist.c_str(), r); MC_CHECK(took <= r, "overrun", "%s: took %zu of %zu", N.c_str(), took, r); MC_CHECK(r == 0 ? res.is_err() : res.is_ok(), "result", "%s:%s: %zu samples wait, the result is %s", N.c_str(), hist.c_str(), r, res.is_ok() ? "ok" : "an error"); }
                t.eaten = before + took; if (act) draw(false);
                h = hmix(h, t.eaten); state(hmix(h, step)); count_eval();
            }
            outcome(hmix(t.eaten, paused));
        });
    });
}
static void ts_long(size_t sps, size_t samples, size_t total) {       // far into the recording: the times still belong to the samples
    scenario("time series after " + std::to_string(total) + " samples at " + std::to_string(sps), [=] {
        TS t(1, sps, samples); size_t since = 0; uint64_t draws = 0;
        while (t.eaten < total && !out_of_time()) {
            size_t k = std::min(t.room(0), total - t.eaten); t.feed(0, k); size_t s = t.b->in[0].size(); (void)t.b->procedure(); t.eaten += s - t.b->in[0].size(); since += k; count_trans();
            if (since > total / 40) { since = 0; note("%zu samples", t.eaten); frame(); t.b->render(); auto w = t.shown(); MC_CHECK(w.second >= std::min(t.eaten, samples), "history", "%zu points of %zu", w.second, t.eaten); count_eval(w.second); draws++; }
        }
        outcome(draws); state(total);
    });
}
#endif
// ---------------------------------------------------------------- spectra
static double win(SpectralWindow w, double x) {
    auto c = [&](double k) { return std::cos(PI2 * k * x); };
    switch (w) {
        case SpectralWindow::BlackmanHarris: return 0.35875 - 0.48829 * c(1) + 0.14128 * c(2) - 0.01168 * c(3);
        case SpectralWindow::Hamming: return 0.54 - 0.46 * c(1);
        case SpectralWindow::Hann: return 0.5 - 0.5 * c(1);
        case SpectralWindow::Rectangular: return 1;
        case SpectralWindow::FlatTop: return 1 - 1.93 * c(1) + 1.29 * c(2) - 0.388 * c(3) + 0.0322 * c(4);
        case SpectralWindow::Kaiser: { auto I0 = [](double v) { double s = 1, t = 1; for (int k = 1; k < 60; ++k) { t *= (v / 2 / k) * (v / 2 / k); s += t; } return s; }; double u = 2 * x - 1, a = 1 - u * u; return I0(8.6 * std::sqrt(a < 0 ? 0 : a)) / I0(8.6); }
    }
    return 0;
}
// power in dB per frequency from -sps/2, normalised so that a complex tone of amplitude 1 reads 0 dB
static std::vector<double> spectrum(const std::vector<cf>& s, SpectralWindow w) {
    size_t N = s.size(); std::vector<double> out(N), wn(N); double g = 0;
    for (size_t n = 0; n < N; ++n) { wn[n] = win(w, (double)n / (double)(N - 1)); g += wn[n]; }
    std::vector<double> C(N), S(N); for (size_t n = 0; n < N; ++n) { C[n] = std::cos(PI2 * (double)n / (double)N); S[n] = -std::sin(PI2 * (double)n / (double)N); }
    for (size_t j = 0; j < N; ++j) {
        size_t f = (j + N - N / 2) % N; double re = 0, im = 0;
        for (size_t n = 0, q = 0; n < N; ++n, q = (q + f) % N) { double a = s[n].real() * wn[n], b = s[n].imag() * wn[n]; re += a * C[q] - b * S[q]; im += a * S[q] + b * C[q]; }
        out[j] = 10 * std::log10((re * re + im * im) / (g * g) + 1e-20);
    }
    return out;
}
static void same_spectrum(const char* key, const float* got, const std::vector<double>& ref, const std::string& what) {
    double top = 0; for (double r : ref) top = std::max(top, std::pow(10, r / 20));
    for (size_t j = 0; j < ref.size(); ++j) {
        double a = std::pow(10, (double)got[j] / 20), e = std::pow(10, ref[j] / 20);
        MC_CHECK(std::isfinite(got[j]) && std::fabs(a - e) <= 3e-5 * top + 1e-9 + 1e-3 * e, key, "%s: bin %zu of %zu shows %.3f dB, the samples have %.3f dB", what.c_str(), j, ref.size(), (double)got[j], ref[j]);
    }
}
static cf sig(size_t i, size_t k, size_t N, int kind) {      // distinct for every stretch of samples
    double f = kind == 0 ? 1.0 + (double)i : kind == 1 ? 0.37 * (double)N : -1.5, amp = 1.0 / (double)(1 + k / N % 7) / (double)(1 + i);
    return cf((float)(amp * std::cos(PI2 * f * (double)k / (double)N)), (float)(amp * std::sin(PI2 * f * (double)k / (double)N)));
}
template <class B> struct SP {
    std::unique_ptr<B> b; size_t n, N, sps; SpectralWindow w; int kind; std::vector<size_t> fed; size_t eaten = 0; std::vector<cf> buf; std::string what;
    template <class... A> SP(size_t inputs, size_t sps_, size_t fft, SpectralWindow w_, int kd, A... a) : n(inputs), N(fft), sps(sps_), w(w_), kind(kd), fed(inputs, 0), buf(16384) {
        std::vector<std::string> L; for (size_t i = 0; i < n; ++i) L.push_back("s" + std::to_string(i));
        if constexpr (sizeof...(A) > 0) b = std::make_unique<B>("sp", L, sps, N, a..., w); else b = std::make_unique<B>("sp", L, sps, N, w);
        what = std::to_string(n) + " signal(s), " + std::to_string(N) + " bins, window " + std::to_string((int)w) + ", signal kind " + std::to_string(kind);
    }
    void feed(size_t i, size_t k) { for (size_t j = 0; j < k; ++j) buf[j] = sig(i, fed[i] + j, N, kind); size_t d = b->in[i].writeN(buf.data(), k); MC_CHECK(d == k, "harness", "feed"); fed[i] += k; }
    size_t ready() { size_t m = SIZE_MAX; for (size_t i = 0; i < n; ++i) m = std::min(m, (size_t)b->in[i].size()); return m; }
    std::vector<cf> stretch(size_t i, size_t first) { std::vector<cf> v; for (size_t k = 0; k < N; ++k) v.push_back(sig(i, first + k, N, kind)); return v; }
};
#ifndef THR
static void spec_seq(size_t inputs, size_t N, SpectralWindow w, int kind, int len) {
    char nm[120]; snprintf(nm, sizeof nm, "spectrum %zux%zu window %d kind %d", inputs, N, (int)w, kind); std::string NM = nm;
    scenario(NM, [=] {
        Opts o; o.bound = 0; sample("%s", NM.c_str());
        explore(o, [=] {
            SP<PlotCSpectrumBlock> t(inputs, 48000, N, w, kind); std::vector<std::vector<double>> avg; std::string hist; bool paused = false; uint64_t h = 0; frame();
            mock::g.set_slider = true; float alpha = 1;
            for (int step = 0; step < len; ++step) {
                size_t room = t.b->in[0].space(); std::vector<size_t> c; for (size_t v : {(size_t)1, N - 1, N, room}) if (v <= room && (c.empty() || v > c.back())) c.push_back(v);
                size_t k = c.empty() ? 0 : c[choose((int)c.size())]; for (size_t i = 0; i < inputs; ++i) { size_t kk = k; if (i && choose(2)) kk = k > 2 ? k - 2 : k; size_t behind = t.fed[0] - t.fed[i]; if (i) kk = std::min(behind, kk + 1); if (kk > t.b->in[i].space()) kk = t.b->in[i].space(); t.feed(i, kk); }
                size_t r = t.ready(), s0 = t.b->in[0].size(); auto res = t.b->procedure(); count_trans(); size_t took = s0 - t.b->in[0].size(); t.eaten += took;
                if (paused) MC_CHECK(took == 0, "paused", "%s: samples are taken while paused", NM.c_str()); else { MC_CHECK((r > 0) == (took > 0), "stuck", "%s: %zu samples wait, %zu are taken", NM.c_str(), r, took); MC_CHECK(res.is_ok() == (r > 0), "result", "%s: wrong result", NM.c_str()); }
                int act = choose(3); float al[3] = {1.0f, 0.5f, 1.0f}; alpha = al[act]; mock::g.slider = alpha; bool press = act == 2;
                hist += " +" + std::to_string(k) + (press ? " press" : alpha == 0.5f ? " half" : ""); note("%s:%s", NM.c_str(), hist.c_str());
                frame(press); t.b->render(); MC_CHECK(mock::g.depth == 0, "window", "%s: Begin and End do not match", NM.c_str());
                if (t.eaten < N) { MC_CHECK(mock::curves.empty(), "ghost", "%s:%s: a spectrum is drawn from %zu samples", NM.c_str(), hist.c_str(), t.eaten); frame(); continue; }
                if (press) paused = !paused;
                MC_CHECK(mock::curves.size() == inputs, "curves", "%s:%s: %zu curves for %zu samples", NM.c_str(), hist.c_str(), mock::curves.size(), t.eaten);
                bool init = avg.empty(); if (init) avg.resize(inputs);
                for (size_t i = 0; i < inputs; ++i) {
                    auto& cu = mock::curves[i]; MC_CHECK(cu.label == "s" + std::to_string(i) && cu.x.size() == N, "curves", "%s: curve %zu: label %s, %zu points", NM.c_str(), i, cu.label.c_str(), cu.x.size());
                    for (size_t j = 0; j < N; ++j) { double f = 48000.0 * ((double)j / (double)N - 0.5); MC_CHECK(std::fabs(cu.x[j] - f) < 0.01, "axis", "%s: bin %zu is drawn at %.3f Hz instead of %.3f", NM.c_str(), j, (double)cu.x[j], f); }
                    auto ref = spectrum(t.stretch(i, t.eaten - N), w);
                    if (alpha == 1.0f || init) { same_spectrum("spectrum", cu.y.data(), ref, NM + ":" + hist); avg[i].assign(cu.y.begin(), cu.y.end()); }
                    else for (size_t j = 0; j < N; ++j) if (ref[j] > -60 && avg[i][j] > -200) { double e = 0.5 * ref[j] + 0.5 * avg[i][j]; MC_CHECK(std::fabs(cu.y[j] - e) < 0.3 || std::fabs(std::pow(10, cu.y[j] / 20) - std::pow(10, e / 20)) < 1e-4, "average", "%s:%s: bin %zu shows %.3f dB, half way between %.3f and %.3f expected", NM.c_str(), hist.c_str(), j, (double)cu.y[j], avg[i][j], ref[j]); avg[i][j] = cu.y[j]; }
                    else avg[i][j] = cu.y[j];
                }
                h = hmix(h, t.eaten * 8 + act); state(h); count_eval();
            }
            outcome(hmix(t.eaten, paused));
        });
    });
}
static void gram_seq(size_t inputs, size_t N, size_t tall, SpectralWindow w, int kind, int len) {
    char nm[120]; snprintf(nm, sizeof nm, "spectrogram %zux%zux%zu window %d kind %d", inputs, N, tall, (int)w, kind); std::string NM = nm;
    scenario(NM, [=] {
        Opts o; o.bound = 0; sample("%s", NM.c_str());
        explore(o, [=] {
            SP<PlotCSpectrogramBlock> t(inputs, 48000, N, w, kind, tall); std::string hist; bool paused = false; size_t rows = 0; uint64_t h = 0; frame();
            for (int step = 0; step < len; ++step) {
                size_t room = t.b->in[0].space(); std::vector<size_t> c; for (size_t v : {(size_t)1, N - 1, N, N + 1, room}) if (v <= room && (c.empty() || v > c.back())) c.push_back(v);
                size_t k = c.empty() ? 0 : c[choose((int)c.size())]; t.feed(0, k); for (size_t i = 1; i < inputs; ++i) { size_t behind = t.fed[0] - t.fed[i]; size_t kk = choose(2) ? behind : behind / 2; t.feed(i, std::min(kk, (size_t)t.b->in[i].space())); }
                int calls = 1 + choose(2), act = choose(2); hist += " +" + std::to_string(k) + " x" + std::to_string(calls) + (act ? " press" : ""); note("%s:%s", NM.c_str(), hist.c_str());
                for (int q = 0; q < calls; ++q) {
                    size_t r = t.ready(), s0 = t.b->in[0].size(); std::vector<size_t> sz; for (size_t i = 0; i < inputs; ++i) sz.push_back(t.b->in[i].size());
                    auto res = t.b->procedure(); count_trans(); size_t took = s0 - t.b->in[0].size();
                    for (size_t i = 0; i < inputs; ++i) MC_CHECK(sz[i] - t.b->in[i].size() == took, "uneven", "%s: uneven consumption", NM.c_str());
                    if (paused) MC_CHECK(took == 0, "paused", "%s:%s: samples are taken while paused", NM.c_str(), hist.c_str());
                    else { MC_CHECK((r >= N) == (took > 0) && took % N == 0, "stuck", "%s:%s: %zu samples wait, %zu are taken", NM.c_str(), hist.c_str(), r, took); MC_CHECK(res.is_ok() == (r >= N), "result", "%s: wrong result", NM.c_str()); }
                    t.eaten += took; rows += took / N;
                }
                frame(act); t.b->render(); if (act) paused = !paused; MC_CHECK(mock::g.depth == 0, "window", "%s: Begin and End do not match", NM.c_str());
                MC_CHECK(mock::curves.size() == inputs, "curves", "%s: %zu maps", NM.c_str(), mock::curves.size());
                for (size_t i = 0; i < inputs; ++i) {
                    auto& m = mock::curves[i]; MC_CHECK(m.heat && m.rows == (int)tall && m.cols == (int)N, "shape", "%s: a map of %d x %d", NM.c_str(), m.rows, m.cols);
                    for (size_t r = 0; r < tall; ++r) {
                        if (r >= rows) { for (size_t j = 0; j < N; ++j) MC_CHECK(m.y[r * N + j] < -140, "ghost", "%s:%s: row %zu is not empty after %zu frames", NM.c_str(), hist.c_str(), r, rows); continue; }
                        same_spectrum("row", &m.y[r * N], spectrum(t.stretch(i, (rows - 1 - r) * N), w), NM + ":" + hist + " row " + std::to_string(r));
                    }
                }
                h = hmix(h, t.eaten * 4 + paused); state(h); count_eval();
            }
            outcome(hmix(t.eaten, paused));
        });
    });
}
static void setup() {
    bool T = thorough(); int L = T ? 5 : 4;
    for (size_t s : {(size_t)100, (size_t)1024, (size_t)1500, (size_t)2000, (size_t)2047, (size_t)2048, (size_t)3000}) { ts_seq(1, 200, s, s == 1500 || s == 2047 ? L : L - 1); ts_seq(2, 1000, s, s == 2000 ? L - 1 : L - 2); }
    ts_seq(3, 7, 1100, T ? 3 : 2);
    ts_long(1000, 2000, T ? 200000000 : 20000000); ts_long(2000000, 2000, T ? 100000000 : 17000000);
    for (int w = 0; w < 6; ++w) for (size_t N : {(size_t)4, (size_t)8, (size_t)6, (size_t)64}) for (int k = 0; k < 3; ++k) { spec_seq(1, N, (SpectralWindow)w, k, T ? 4 : 3); if (w < 2) spec_seq(2, N, (SpectralWindow)w, k, 2); }
    for (size_t N : {(size_t)500, (size_t)682, (size_t)1000}) { spec_seq(1, N, SpectralWindow::Hann, 1, 2); spec_seq(2, N, SpectralWindow::Rectangular, 0, 2); }
    for (int w = 0; w < 6; ++w) for (size_t N : {(size_t)4, (size_t)6, (size_t)64}) { gram_seq(1, N, 1, (SpectralWindow)w, w % 3, 3); gram_seq(1, N, 3, (SpectralWindow)w, (w + 1) % 3, T ? 4 : 3); if (w < 2) gram_seq(2, N, 2, (SpectralWindow)w, 0, T ? 3 : 2); }
}
#else
// ---------------------------------------------------------------- drawing beside processing
static void ts_thr(size_t inputs, size_t samples, std::vector<size_t> pre, std::vector<size_t> runs, int draws, bool press, int bound) {
    std::string N = "time series x" + std::to_string(inputs) + " of " + std::to_string(samples) + ", drawn " + std::to_string(draws) + "x beside"; for (auto r : runs) N += " +" + std::to_string(r); if (press) N += ", pause";
    scenario(N, [=] {
        Opts o; o.threads = true; o.bound = bound; o.stale = 1; o.free_switch = true; sample("%s", N.c_str());
        explore(o, [=] {
            fresh(); note("%s", N.c_str());
            TS t(inputs, 1000, samples); frame();
            for (size_t p : pre) { for (size_t i = 0; i < inputs; ++i) t.feed(i, std::min(p, t.room(i))); (void)t.b->procedure(); }
            for (size_t i = 0; i < inputs; ++i) t.feed(i, std::min(runs[0], t.room(i)));
            uint64_t h = 0;
            std::thread R([&] { for (int d = 0; d < draws; ++d) { frame(press && d == 0); t.b->render(); auto s = t.shown(); h = hmix(h, s.first + s.second); } });
            for (size_t k = 0; k < runs.size(); ++k) { if (k) for (size_t i = 0; i < inputs; ++i) t.feed(i, std::min(runs[k], t.room(i))); (void)t.b->procedure(); }
            R.join();
            if (press) { frame(true); t.b->render(); } while (t.ready()) (void)t.b->procedure();
            frame(); t.b->render(); auto s = t.shown(); MC_CHECK(s.first + s.second == t.fed[0], "newest", "%s: after everything was processed the plot ends at %zu of %zu", N.c_str(), s.first + s.second, t.fed[0]);
            outcome(h);
        });
    });
}
static void spec_thr(size_t inputs, size_t N, std::vector<size_t> runs, int draws, int bound) {
    std::string NM = "spectrum x" + std::to_string(inputs) + " of " + std::to_string(N) + ", drawn " + std::to_string(draws) + "x beside"; for (auto r : runs) NM += " +" + std::to_string(r);
    scenario(NM, [=] {
        Opts o; o.threads = true; o.bound = bound; o.stale = 1; o.free_switch = true; sample("%s", NM.c_str());
        explore(o, [=] {
            fresh(); note("%s", NM.c_str()); mock::g.set_slider = true; mock::g.slider = 1; frame();
            SP<PlotCSpectrumBlock> t(inputs, 48000, N, SpectralWindow::Rectangular, 0);
            std::vector<size_t> ends; size_t e = 0;                        // after each run the newest sample is one of these
            auto fill = [&](size_t k) { size_t q = k; for (size_t i = 0; i < inputs; ++i) q = std::min(q, (size_t)t.b->in[i].space()); for (size_t i = 0; i < inputs; ++i) t.feed(i, q); };
            fill(SIZE_MAX); (void)t.b->procedure(); while (t.ready()) (void)t.b->procedure(); e = t.fed[0]; fill(runs[0]);
            uint64_t h = 0; std::vector<std::vector<mock::Curve>> seen(draws);
            std::thread R([&] { for (int d = 0; d < draws; ++d) { frame(); t.b->render(); seen[d] = std::move(mock::curves); } });
            ends.push_back(e);
            for (size_t k = 0; k < runs.size(); ++k) { if (k) fill(runs[k]); (void)t.b->procedure(); ends.push_back(t.fed[0] - t.b->in[0].size()); }
            R.join();
            size_t at = 0;
            for (int d = 0; d < draws; ++d) {
                if (seen[d].empty() && at == 0) continue;               // no moment without a writer so far
                MC_CHECK(seen[d].size() == inputs, "curves", "%s: %zu curves", NM.c_str(), seen[d].size());
                bool ok = false;
                for (size_t q = at ? at - 1 : 0; q < ends.size() && !ok; ++q) {
                    bool all = true; for (size_t i = 0; i < inputs && all; ++i) { auto ref = spectrum(t.stretch(i, ends[q] - N), SpectralWindow::Rectangular); double top = 0; for (double r : ref) top = std::max(top, std::pow(10, r / 20)); for (size_t j = 0; j < N; ++j) if (!(std::fabs(std::pow(10, (double)seen[d][i].y[j] / 20) - std::pow(10, ref[j] / 20)) <= 1e-3 * top)) all = false; }
                    if (all) { ok = true; at = q + 1; h = hmix(h, q); }
                }
                MC_CHECK(ok, "torn", "%s: drawing %d shows a spectrum that no %zu consecutive samples ending at a processed point have (or the inputs belong to different moments)", NM.c_str(), d, N);
            }
            outcome(h);
        });
    });
}
static void gram_thr(size_t inputs, size_t N, size_t tall, int frames, int draws, int bound) {
    std::string NM = "spectrogram x" + std::to_string(inputs) + " of " + std::to_string(N) + "x" + std::to_string(tall) + ", drawn " + std::to_string(draws) + "x beside " + std::to_string(frames) + " frames";
    scenario(NM, [=] {
        Opts o; o.threads = true; o.bound = bound; o.stale = 1; o.free_switch = true; sample("%s", NM.c_str());
        explore(o, [=] {
            fresh(); note("%s", NM.c_str()); frame();
            SP<PlotCSpectrogramBlock> t(inputs, 48000, N, SpectralWindow::Rectangular, 0, tall);
            for (size_t i = 0; i < inputs; ++i) t.feed(i, N * (frames + 1)); (void)t.b->procedure();
            std::vector<std::vector<mock::Curve>> seen(draws);
            std::thread R([&] { for (int d = 0; d < draws; ++d) { frame(); t.b->render(); seen[d] = std::move(mock::curves); } });
            for (int k = 0; k < frames; ++k) (void)t.b->procedure();
            R.join(); uint64_t h = 0; size_t at = 1;
            for (int d = 0; d < draws; ++d) {
                MC_CHECK(seen[d].size() == inputs, "curves", "%s: %zu maps", NM.c_str(), seen[d].size());
                std::string why;
                bool ok = false;
                for (size_t q = at; q <= (size_t)frames + 1 && !ok; ++q) {
                    bool all = true;
                    for (size_t i = 0; i < inputs && all; ++i) for (size_t r = 0; r < tall && all; ++r) for (size_t j = 0; j < N && all; ++j) {
                        float g = seen[d][i].y[r * N + j]; if (r >= q) { all = g < -140; continue; }
                        auto ref = spectrum(t.stretch(i, (q - 1 - r) * N), SpectralWindow::Rectangular); all = std::fabs(std::pow(10, (double)g / 20) - std::pow(10, ref[j] / 20)) < 1e-3;
                    }
                    if (all) { ok = true; at = q; h = hmix(h, q); }
                }
                MC_CHECK(ok, "torn", "%s: drawing %d is no complete history of frames", NM.c_str(), d);
            }
            outcome(h);
        });
    });
}
static void setup() {
    { TS warm(1, 10, 10); frame(); warm.feed(0, 5); (void)warm.b->procedure(); warm.b->render(); SP<PlotCSpectrumBlock> s(1, 10, 8, SpectralWindow::Rectangular, 0); s.feed(0, 9); (void)s.b->procedure(); s.b->render(); SP<PlotCSpectrogramBlock> g(1, 10, 8, SpectralWindow::Rectangular, 0, (size_t)2); g.feed(0, 9); (void)g.b->procedure(); g.b->render(); }
    bool T = thorough(); int B = T ? 3 : 2;
    ts_thr(1, 1500, {}, {3, 2}, 2, false, B); ts_thr(1, 1500, {1400}, {200, 300}, 2, false, B); ts_thr(2, 1500, {1500}, {100, 100}, 2, false, B); ts_thr(2, 2000, {2000}, {5000}, 2, false, B);
    ts_thr(1, 1500, {1400}, {200, 300, 100}, 2, true, B); ts_thr(1, 1100, {2000}, {2000, 2000}, 1, false, B); ts_thr(3, 1100, {5}, {7, 1}, 1, false, 1);
    spec_thr(1, 8, {3, 2}, 2, B); spec_thr(2, 8, {5, 5}, 2, B); spec_thr(2, 6, {5000}, 2, B); spec_thr(1, 64, {70, 1}, 1, B);
    gram_thr(1, 8, 2, 2, 2, B); gram_thr(2, 8, 3, 3, 2, B); gram_thr(2, 6, 1, 2, 2, B);
}
#endif
MC_MAIN(setup)
