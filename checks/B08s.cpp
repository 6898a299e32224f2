// B08 (SoapySDR): source and sink on a scripted device: every sequence of stream outcomes up to the depth combined with every
// drain / feed schedule, and every failing device call during construction and destruction.
#include "mc.hpp"
#ifdef RX                            // the two headers cannot be included together (both define get_soapy_format)
#include "sources/source_soapysdr.hpp"
#else
#include "sinks/sink_soapysdr.hpp"
#endif
#include <vector>
#include <string>
#include <memory>
#include <cstring>
using namespace mc;
using Res = cler::Result<cler::Empty, cler::Error>;

struct Boom : std::runtime_error { Boom() : std::runtime_error("device call failed") {} };
static const int HANG = 300;
struct Dev : SoapySDR::Device {
    std::string log, err, failed, refuse = "-"; int calls = 0, fail_at = -1, made = 0, streams = 0, active = 0, act_ret = 0; bool null_dev = false, null_stream = false; size_t mtu = 4, esz = 8; std::string fmt;
    double rate = 0, freq = 0, gain = -1, bw = 0; std::string ant; bool agc = true; int dirs = -1;
    std::vector<int> script; size_t at = 0; std::vector<uint8_t> rx, tx; size_t serial = 0, asked = 0; int errs = 0, idle = 0; size_t skipped_max = 0;
    void call(const char* n, bool can_throw = true) { log += std::string(" ") + n; if (!made && err.empty()) err = std::string(n) + " on a released device"; if ((calls++ == fail_at || refuse == n) && can_throw) { failed = n; throw Boom(); } }
    std::string getDriverKey() const override { return "mock"; } std::string getHardwareKey() const override { return "mock"; }
    SoapySDR::RangeList getSampleRateRange(const int, const size_t) const override { ((Dev*)this)->call("rates"); return {SoapySDR::Range(1e5, 2e5), SoapySDR::Range(1e6, 2e6)}; }
    SoapySDR::RangeList getFrequencyRange(const int, const size_t) const override { ((Dev*)this)->call("freqs"); return {SoapySDR::Range(1e6, 6e9)}; }
    SoapySDR::Range getGainRange(const int, const size_t) const override { ((Dev*)this)->call("gains"); return SoapySDR::Range(0, 60); }
    SoapySDR::RangeList getBandwidthRange(const int, const size_t) const override { ((Dev*)this)->call("bws"); return {SoapySDR::Range(1e5, 2e6)}; }
    void setSampleRate(const int d, const size_t, const double r) override { call("setrate"); dirs = d; rate = r; }
    double getSampleRate(const int, const size_t) const override { return rate; }
    void setFrequency(const int, const size_t, const double f, const SoapySDR::Kwargs&) override { call("setfreq"); freq = f; }
    double getFrequency(const int, const size_t) const override { return freq; }
    void setGain(const int, const size_t, const double g) override { call("setgain"); gain = g; }
    double getGain(const int, const size_t) const override { return gain; }
    bool hasGainMode(const int, const size_t) const override { return true; }
    void setGainMode(const int, const size_t, const bool a) override { call("setagc"); agc = a; }
    void setBandwidth(const int, const size_t, const double b) override { call("setbw"); bw = b; }
    double getBandwidth(const int, const size_t) const override { return bw; }
    std::vector<std::string> listAntennas(const int, const size_t) const override { ((Dev*)this)->call("antennas"); return {"A", "B"}; }
    void setAntenna(const int, const size_t, const std::string& a) override { call("setant"); if (a != "A" && a != "B") throw std::runtime_error("no such antenna"); ant = a; }
    std::vector<std::string> listGains(const int, const size_t) const override { return {"LNA", "VGA"}; } SoapySDR::Range getGainRange(const int, const size_t, const std::string& n) const override { return n == "LNA" ? SoapySDR::Range(0, 40) : SoapySDR::Range(0, 20); }
    bool dcmode = false; std::complex<double> dc, iq; bool hasDCOffsetMode(const int, const size_t) const override { return true; } void setDCOffsetMode(const int, const size_t, const bool a) override { call("setdc"); dcmode = a; }
    bool hasDCOffset(const int, const size_t) const override { return true; } void setDCOffset(const int, const size_t, const std::complex<double>& v) override { call("setdc"); dc = v; } bool hasIQBalance(const int, const size_t) const override { return true; } void setIQBalance(const int, const size_t, const std::complex<double>& v) override { call("setiq"); iq = v; }
    std::string getAntenna(const int, const size_t) const override { return ant; }
    SoapySDR::Stream* setupStream(const int, const std::string& f, const std::vector<size_t>& ch, const SoapySDR::Kwargs&) override { call("setup"); fmt = f; if (ch.size() != 1 && err.empty()) err = "wrong channel list"; if (null_stream) { failed = "setup"; return nullptr; } if (streams++ && err.empty()) err = "two streams"; return (SoapySDR::Stream*)this; }
    void closeStream(SoapySDR::Stream* s) override { call("closestream", false); if ((s != (SoapySDR::Stream*)this || !streams) && err.empty()) err = "closing a stream that is not open"; if (active && err.empty()) err = "closing an active stream"; streams = 0; }
    size_t getStreamMTU(SoapySDR::Stream*) const override { ((Dev*)this)->call("mtu"); return mtu; }
    int activateStream(SoapySDR::Stream* s, const int, const long long, const size_t) override { call("activate"); if (s != (SoapySDR::Stream*)this && err.empty()) err = "wrong stream"; if (act_ret) { failed = "activate"; return act_ret; } if (active++ && err.empty()) err = "activated twice"; return 0; }
    int deactivateStream(SoapySDR::Stream*, const int, const long long) override { call("deactivate", false); if (!active && err.empty()) err = "deactivating an inactive stream"; active = 0; return 0; }
    int next() { return at < script.size() ? script[at++] : SOAPY_SDR_TIMEOUT; }
    // outcome 1 = one element, 2 = half, 3 = everything asked for, 0 = nothing, <0 = error code
    size_t amount(int e, size_t n) { return e == 1 ? 1 : e == 2 ? (n + 1) / 2 : e == 3 ? n : 0; }
    void busy(int e) { if (e == 0) { if (++idle > HANG) fail("hang", "a call to the block does not return while the device accepts nothing"); } else idle = 0; }
    static uint8_t byte(size_t serial, size_t k) { return (uint8_t)(serial * 37 + k * 11 + (serial >> 5)); }
    int readStream(SoapySDR::Stream*, void* const* b, const size_t n, int&, long long&, const long to) override {
        if (!active && err.empty()) err = "reading an inactive stream"; asked = n; MC_CHECK(n > 0 && n <= mtu, "mtu", "%zu samples requested with an MTU of %zu", n, mtu); MC_CHECK(to >= 0 && to <= 2000000, "blocks", "waiting for %ld us", to);
        int e = next(); busy(e); if (e < 0) { errs += e != SOAPY_SDR_TIMEOUT && e != SOAPY_SDR_OVERFLOW; return e; } size_t m = amount(e, n); uint8_t* p = (uint8_t*)b[0];
        for (size_t i = 0; i < n * esz; ++i) p[i] = 0xA5;                        // the device may use the whole requested area
        for (size_t i = 0; i < m; ++i, ++serial) for (size_t k = 0; k < esz; ++k) rx.push_back(p[i * esz + k] = byte(serial, k)); return (int)m;
    }
    int writeStream(SoapySDR::Stream*, const void* const* b, const size_t n, int&, const long long, const long to) override {
        if (!active && err.empty()) err = "writing an inactive stream"; MC_CHECK(n > 0 && n <= mtu, "mtu", "%zu samples offered with an MTU of %zu", n, mtu); MC_CHECK(to >= 0 && to <= 2000000, "blocks", "waiting for %ld us", to); asked = n;
        int e = at < script.size() ? script[at++] : 3; if (hold_zero && at >= script.size()) e = 0; busy(e); if (e == SOAPY_SDR_UNDERFLOW) skipped_max += n; if (e < 0) { errs += e != SOAPY_SDR_TIMEOUT && e != SOAPY_SDR_UNDERFLOW; return e; } size_t m = amount(e, n); tx.insert(tx.end(), (const uint8_t*)b[0], (const uint8_t*)b[0] + m * esz); return (int)m;
    }
    bool hold_zero = false;
};
static Dev* V;
SoapySDR::Device* SoapySDR::Device::make(const std::string& a) { V->log += " make(" + a + ")"; if (V->calls++ == V->fail_at) { V->failed = "make"; throw Boom(); } if (V->null_dev) { V->failed = "make"; return nullptr; } V->made++; return V; }
SoapySDR::Device* SoapySDR::Device::make(const SoapySDR::Kwargs&) { return make(std::string("kw")); }
void SoapySDR::Device::unmake(SoapySDR::Device* d) { V->log += " unmake"; if ((d != V || V->made != 1) && V->err.empty()) V->err = "releasing a device that is not held"; if ((V->streams) && V->err.empty()) V->err = "releasing a device with an open stream"; V->made--; }
static void protocol_ok(const char* w) { MC_CHECK(V->err.empty(), "protocol", "%s: %s;%s", w, V->err.c_str(), V->log.c_str()); MC_CHECK(!V->made && !V->streams && !V->active, "protocol", "%s: the %s stays %s;%s", w, V->made ? "device" : "stream", V->made ? "held" : "open", V->log.c_str()); }
template <class T> static std::vector<uint8_t> bytes(const T& t) { return std::vector<uint8_t>((const uint8_t*)&t, (const uint8_t*)&t + sizeof(T)); }
static std::string ename(int e) { return e == 1 ? "one" : e == 2 ? "half" : e == 3 ? "all" : e == 0 ? "zero" : SoapySDR::errToStr(e); }

#ifdef RX
template <class T> static void source(const char* tn, size_t mtu, size_t prefill_gap, int len, std::vector<int> alphabet) {
    std::string N = std::string("soapy source of ") + tn + ", MTU " + std::to_string(mtu) + ", output " + std::to_string(prefill_gap) + " short of full, script of " + std::to_string(len);
    scenario(N, [=] {
        sample("%s", N.c_str()); Opts o; o.iterate = false;
        explore(o, [&] {
            Dev d; V = &d; d.mtu = mtu; d.esz = sizeof(T); std::string hist; uint64_t h = 1; size_t got = 0;
            for (int i = 0; i < len; ++i) { d.script.push_back(alphabet[choose((int)alphabet.size())]); hist += " " + ename(d.script.back()); } hist += ";"; note("%s:%s", N.c_str(), hist.c_str());
            { auto b = std::make_unique<SourceSoapySDRBlock<T>>("rx", "driver=mock", 1e8, 1.5e6, 20.0); size_t cn = 8192 / sizeof(T); cler::Channel<T> out(cn); size_t cap = out.space(), pre = 0; T z{}; while (out.space() > prefill_gap) { out.push(z); ++pre; }
            auto drain = [&](size_t n) { while (n-- && out.size()) { T t; out.pop(t); if (pre) { --pre; continue; } auto v = bytes(t); MC_CHECK((got + 1) * sizeof(T) <= d.rx.size() && !memcmp(v.data(), &d.rx[got * sizeof(T)], sizeof(T)), "value", "%s: sample %zu differs from what the device delivered;%s", N.c_str(), got, hist.c_str()); ++got; } };
            bool fatal = false;
            for (int k = 0; k < len + 2 && !fatal; ++k) {
                int op = choose(3); if (op == 1) { drain(1); hist += " drain1"; } else if (op == 2) { drain(cap); hist += " drain"; }
                size_t room = out.space(), a0 = d.at, s0 = d.rx.size(), o0 = out.size(); int e0 = d.errs; Res r = b->procedure(&out); count_trans(); bool f = !r.is_ok() && cler::is_fatal(r.unwrap_err()); fatal |= f; hist += " |"; note("%s:%s", N.c_str(), hist.c_str());
                MC_CHECK(f == (d.errs > e0), f ? "spurious-error" : "unreported", "%s: %s;%s", N.c_str(), f ? "fatal error without a device error" : "a device error is not reported as fatal", hist.c_str());
                MC_CHECK((out.size() - o0) * sizeof(T) == d.rx.size() - s0, "lost", "%s: %zu bytes delivered, %zu samples appear;%s", N.c_str(), d.rx.size() - s0, out.size() - o0, hist.c_str());
                MC_CHECK(room || d.at == a0, "lost", "%s: the device is read although the output is full;%s", N.c_str(), hist.c_str()); MC_CHECK(!room || d.at > a0 || a0 == d.script.size(), "no-progress", "%s: there is room but the device is not read;%s", N.c_str(), hist.c_str());
                h = hmix(h, hmix(out.size(), d.at)); state(h);
            }
            drain(cap); MC_CHECK(got * sizeof(T) == d.rx.size(), "lost", "%s: %zu of %zu delivered samples are forwarded;%s", N.c_str(), got, d.rx.size() / sizeof(T), hist.c_str());
            }
            protocol_ok(N.c_str()); outcome(hmix(h, got));
        });
    });
}
#else
template <class T> static void sink(const char* tn, size_t mtu, int len, std::vector<int> alphabet, std::vector<size_t> feeds, size_t start) {
    std::string N = std::string("soapy sink of ") + tn + ", MTU " + std::to_string(mtu) + ", input moved by " + std::to_string(start) + ", script of " + std::to_string(len);
    scenario(N, [=] {
        sample("%s", N.c_str()); Opts o; o.iterate = false;
        explore(o, [&] {
            Dev d; V = &d; d.mtu = mtu; d.esz = sizeof(T); std::string hist; uint64_t h = 1; size_t fed = 0; std::vector<uint8_t> want;
            for (int i = 0; i < len; ++i) { d.script.push_back(alphabet[choose((int)alphabet.size())]); hist += " " + ename(d.script.back()); } d.hold_zero = choose(2); hist += d.hold_zero ? ", then nothing is accepted;" : ";"; note("%s:%s", N.c_str(), hist.c_str());
            { auto b = std::make_unique<SinkSoapySDRBlock<T>>("tx", "driver=mock", 1e8, 1.5e6, 20.0);
            auto feed = [&](size_t n) { while (n-- && b->in.space()) { T t; uint8_t* p = (uint8_t*)&t; for (size_t k = 0; k < sizeof(T); ++k) { p[k] = Dev::byte(fed + 3, k); want.push_back(p[k]); } b->in.push(t); ++fed; } };
            if (start) { T z{}; for (size_t i = 0; i < start; ++i) b->in.push(z); for (size_t i = 0; i < start; ++i) b->in.pop(z); }
            bool fatal = false; 
            auto call = [&] {
                size_t had = b->in.size(), a0 = d.at; int e0 = d.errs; Res r = b->procedure(); count_trans(); bool f = !r.is_ok() && cler::is_fatal(r.unwrap_err()); fatal |= f;
                MC_CHECK(f == (d.errs > e0), f ? "spurious-error" : "unreported", "%s: %s;%s", N.c_str(), f ? "fatal error without a device error" : "a device error is not reported as fatal", hist.c_str());
                size_t sent = d.tx.size() / sizeof(T), left = b->in.size();
                // an underflow may cost the samples that were being written, nothing else may cost any
                MC_CHECK(sent + left <= fed && sent + left + d.skipped_max >= fed, "lost", "%s: %zu samples in, %zu accepted by the device, %zu still queued;%s", N.c_str(), fed, sent, left, hist.c_str());
                MC_CHECK(!had || d.at > a0 || a0 >= d.script.size(), "no-progress", "%s: samples wait but none is offered;%s", N.c_str(), hist.c_str());
                if (!d.skipped_max) MC_CHECK(!memcmp(d.tx.data(), want.data(), d.tx.size()), "value", "%s: the device receives other samples than were queued;%s", N.c_str(), hist.c_str());
                else { size_t w = 0; for (size_t i = 0; i < sent; ++i) { while (w < fed && memcmp(&want[w * sizeof(T)], &d.tx[i * sizeof(T)], sizeof(T))) ++w; MC_CHECK(w < fed, "order", "%s: accepted sample %zu is repeated or out of order;%s", N.c_str(), i, hist.c_str()); ++w; } }
                h = hmix(h, hmix(sent, left)); state(h);
            };
            for (size_t k = 0; k < (size_t)len && !fatal; ++k) { size_t c = feeds[choose((int)feeds.size())]; feed(c); hist += " in" + std::to_string(c) + " |"; note("%s:%s", N.c_str(), hist.c_str()); call(); }
            if (!fatal && !d.hold_zero) { d.idle = 0; for (int i = 0; i < len + 2 && b->in.size() && !fatal; ++i) call(); if (!fatal) MC_CHECK(b->in.size() == 0, "no-progress", "%s: %zu samples are never sent;%s", N.c_str(), b->in.size(), hist.c_str()); }
            }
            protocol_ok(N.c_str()); outcome(hmix(h, d.tx.size()));
        });
    });
}
#endif
template <class B> static void faults(const char* w, int dir) {
    std::string N = w;
    scenario(N + ": settings and every failing device call", [=] {
        sample("%s", N.c_str()); Opts o; o.iterate = false;
        explore(o, [&] {
            Dev d; V = &d; int mode = choose(4); if (mode == 0) d.fail_at = choose(26) - 1; else if (mode == 1) d.null_dev = true; else if (mode == 2) d.null_stream = true; else d.act_ret = SOAPY_SDR_STREAM_ERROR;
            double rates[] = {1.5e6, 1e6, 2e6, 1e5, 2e5, 9.99e5, 2.0001e6, 5e5}, freqs[] = {1e8, 1e6, 6e9, 9.9e5, 6.1e9}, gains[] = {20, 0, 60, -.5, 60.5}; int ri = 0, fi = 0, gi = 0; if (mode == 0 && d.fail_at < 0) { ri = choose(8); fi = choose(5); gi = choose(5); }
            bool good = ri < 5 && fi < 3 && gi < 3, ok = true, ctor = true; note("%s: rate %g, frequency %g, gain %g, mode %d, failing call %d", w, rates[ri], freqs[fi], gains[gi], mode, d.fail_at);
            try { auto b = std::make_unique<B>("x", "driver=mock", freqs[fi], rates[ri], gains[gi]); ctor = false;
                MC_CHECK(d.made && d.streams && d.active && d.dirs == dir, "protocol", "%s: not streaming after construction;%s", w, d.log.c_str()); MC_CHECK(d.rate == rates[ri] && d.freq == freqs[fi] && d.gain == gains[gi] && !d.agc, "setting", "%s: a setting does not reach the device;%s", w, d.log.c_str());
                MC_CHECK(b->get_frequency() == freqs[fi] && b->get_gain() == gains[gi] && b->get_sample_rate() == rates[ri], "setting", "%s: a getter differs from what was set", w);
                auto upd = [&](const char* what, auto set, auto get, double& dv, double nv) { double was = dv; bool threw = false; try { set(nv); } catch (const Boom&) { threw = true; } MC_CHECK(dv == (threw && d.failed != "bws" && d.failed != "setbw" ? was : nv), "setting", "%s: %s is %g in the device", w, what, dv); if (!threw || d.failed.rfind("set", 0) != 0 || d.failed == "setbw") { if (!threw) MC_CHECK(get() == nv, "setting", "%s: %s reads %g", w, what, get()); } else MC_CHECK(get() == was, "setting", "%s: %s reads %g although the device refused", w, what, get()); };
                upd("frequency", [&](double x) { b->set_frequency(x); }, [&] { return b->get_frequency(); }, d.freq, 2.5e8); upd("gain", [&](double x) { b->set_gain(x); }, [&] { return b->get_gain(); }, d.gain, 33); upd("sample rate", [&](double x) { b->set_sample_rate(x); }, [&] { return b->get_sample_rate(); }, d.rate, 1.25e6);
            } catch (const Boom&) { ok = false; } catch (const std::exception& e) { ok = false; MC_CHECK(!good || mode || !d.failed.empty(), "spurious-error", "%s: construction fails: %s", w, e.what()); }
            if (ctor && !d.failed.empty()) MC_CHECK(!ok, "unreported", "%s: failing %s is not reported", w, d.failed.c_str()); if (!good) MC_CHECK(!ok, "unreported", "%s: rate %g, frequency %g, gain %g outside the device's range is accepted", w, rates[ri], freqs[fi], gains[gi]);
            protocol_ok(w); count_trans(); outcome(hmix(mode * 100 + d.fail_at, ok)); state(hmix(std::hash<std::string>()(d.log), ok));
        });
    });
}
// every history of settings, with one of the device calls failing: the device and the getters show the last value that was accepted
template <class B> static void settings(const char* w, int len) {
    std::string N = w;
    scenario(N + ": histories of settings", [=] {
        sample("%s", N.c_str()); Opts o; o.iterate = false;
        explore(o, [&] {
            Dev d; V = &d; std::string hist; { auto b = std::make_unique<B>("x", "driver=mock", 1e8, 1.5e6, 20.0); d.ant = "A"; double f = 1e8, g = 20, r = 1.5e6, bw = 1.5e6; bool agc = false, dcm = d.dcmode; std::string ant = "A"; std::complex<double> dc = d.dc, iq = d.iq;
            for (int i = 0; i < len; ++i) {
                int op = choose(9); bool refuse = op != 5 && choose(2); double v = 1 + choose(2); d.failed = ""; size_t l0 = d.log.size(); d.fail_at = -1; if (refuse) { static const char* S[] = {"setfreq", "setgain", "setrate", "setbw", "setant", "", "setagc", "setdc", "setiq"}; d.refuse = S[op]; } else d.refuse = "-"; hist += " " + std::to_string(op) + (refuse ? "!" : "") + (v > 1 ? "b" : "a"); note("%s:%s", w, hist.c_str()); bool threw = false; (void)l0;
                try { switch (op) {
                    case 0: b->set_frequency(1e8 * v); break; case 1: b->set_gain(10 * v); break; case 2: b->set_sample_rate(1e6 * v); break; case 3: b->set_bandwidth(2e5 * v); break; case 4: b->set_antenna(v > 1 ? "B" : "A"); break; case 5: b->set_antenna(v > 1 ? "" : "AB"); break;
#ifdef RX
                    case 6: b->set_agc_mode(v > 1); break; case 7: b->set_dc_offset_mode(v > 1); break; case 8: refuse = false; break;
#else
                    case 6: refuse = false; break; case 7: b->set_dc_offset({v, .5}); break; case 8: b->set_iq_balance({.25, v}); break;
#endif
                } } catch (const std::runtime_error&) { threw = true; }
                MC_CHECK(threw == (refuse || op == 5), threw ? "spurious-error" : "unreported", "%s: setting %d %s;%s", w, op, threw ? "is refused" : "is not reported as refused", hist.c_str());
                if (!threw) switch (op) { case 0: f = 1e8 * v; break; case 1: g = 10 * v; break; case 2: r = bw = 1e6 * v; break; case 3: bw = 2e5 * v; break; case 4: ant = v > 1 ? "B" : "A"; break; }
#ifdef RX
                if (!threw && op == 6) agc = v > 1; if (!threw && op == 7) dcm = v > 1;
#else
                if (!threw && op == 7) dc = {v, .5}; if (!threw && op == 8) iq = {.25, v};
#endif
                MC_CHECK(d.freq == f && d.gain == g && d.rate == r && d.bw == bw && d.ant == ant && d.agc == agc && d.dcmode == dcm && d.dc == dc && d.iq == iq, "setting", "%s: device at %g Hz, %g dB, %g/s, bandwidth %g, antenna %s, agc %d;%s", w, d.freq, d.gain, d.rate, d.bw, d.ant.c_str(), d.agc, hist.c_str());
                MC_CHECK(b->get_frequency() == f && b->get_gain() == g && b->get_sample_rate() == r && b->get_bandwidth() == bw && b->get_antenna() == ant, "setting", "%s: getters say %g Hz, %g dB, %g/s, bandwidth %g, antenna %s;%s", w, b->get_frequency(), b->get_gain(), b->get_sample_rate(), b->get_bandwidth(), b->get_antenna().c_str(), hist.c_str()); count_trans();
            }
            d.refuse = "-"; MC_CHECK(b->list_antennas() == (std::vector<std::string>{"A", "B"}) && b->list_gains() == (std::vector<std::string>{"LNA", "VGA"}), "setting", "%s: lists of antennas or gains", w);
            MC_CHECK(b->get_frequency_range().size() == 1 && b->get_frequency_range()[0].maximum() == 6e9 && b->get_sample_rate_range().size() == 2 && b->get_sample_rate_range()[0].minimum() == 1e5 && b->get_gain_range().maximum() == 60 && b->get_gain_range("LNA").maximum() == 40 && b->get_gain_range("VGA").maximum() == 20, "setting", "%s: ranges", w); }
            protocol_ok(w); outcome(std::hash<std::string>()(d.log)); state(hmix(hmix((uint64_t)d.freq, (uint64_t)d.gain), hmix((uint64_t)d.bw, (uint64_t)d.rate)));
        });
    });
}
static void setup() {
    std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); bool T = thorough(); int D = T ? 1 : 0;
    typedef std::complex<float> CF;
#ifdef RX
    std::vector<int> ra = {1, 2, 3, 0, SOAPY_SDR_TIMEOUT, SOAPY_SDR_OVERFLOW, SOAPY_SDR_STREAM_ERROR, SOAPY_SDR_CORRUPTION, SOAPY_SDR_NOT_SUPPORTED}, rs = {1, 3, SOAPY_SDR_TIMEOUT, SOAPY_SDR_OVERFLOW};
    source<CF>("complex float", 4, 9, 3 + D, ra); source<CF>("complex float", 600, 300, 3, ra); source<CF>("complex float", 100000, 1100, 3, ra); source<int16_t>("int16", 3, 2, 4 + D, rs); source<uint8_t>("uint8", 5, 0, 3 + D, ra); source<std::complex<int16_t>>("complex int16", 1, 4, 4, rs); source<float>("float", 7, 1, 3, ra);
    faults<SourceSoapySDRBlock<CF>>("soapy source", SOAPY_SDR_RX); settings<SourceSoapySDRBlock<CF>>("soapy source", 2 + D);
#else
    std::vector<int> wa = {1, 2, 3, 0, SOAPY_SDR_TIMEOUT, SOAPY_SDR_UNDERFLOW, SOAPY_SDR_STREAM_ERROR, SOAPY_SDR_TIME_ERROR};
    sink<CF>("complex float", 4, 3 + D, wa, {0, 1, 9}, 0); sink<CF>("complex float", 4, 3, wa, {3, 10}, 508); sink<CF>("complex float", 1000, 3, wa, {1, 511, 2000}, 0); sink<int16_t>("int16", 1, 3 + D, wa, {0, 2, 3}, 2046); sink<uint8_t>("uint8", 3, 4, {1, 3, SOAPY_SDR_TIMEOUT, SOAPY_SDR_UNDERFLOW, SOAPY_SDR_STREAM_ERROR}, {1, 4}, 0); sink<std::complex<int8_t>>("complex int8", 5, 3, wa, {2, 5, 6}, 0);
    faults<SinkSoapySDRBlock<CF>>("soapy sink", SOAPY_SDR_TX); settings<SinkSoapySDRBlock<CF>>("soapy sink", 2 + D);
#endif
}
MC_MAIN(setup)
