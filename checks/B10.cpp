// B10: USRP source and sink and CaribouLite source on scripted devices: every sequence of stream outcomes combined with every
// drain / feed schedule on one or two channels, every failing device call of construction and destruction.
#include "mc.hpp"
#include <CaribouLite.hpp>
#include "sources/source_uhd.hpp"
#include "sinks/sink_uhd.hpp"
#include "sources/source_cariboulite.hpp"
#include <cstring>
#include <array>
#include <sanitizer/allocator_interface.h>
using namespace mc;
using Res = cler::Result<cler::Empty, cler::Error>;
using CF = std::complex<float>; using CS = std::complex<int16_t>; using CB = std::complex<int8_t>; using CSH = std::complex<short>;
struct Boom : std::runtime_error { Boom(const char* n) : std::runtime_error(n) {} };
static std::array<uint8_t, 8> smp(size_t ch, size_t i, size_t esz) { std::array<uint8_t, 8> v{}; uint32_t x = (uint32_t)(i * 7 + ch * 1000003 + 1) * 2654435761u; for (size_t k = 0; k < esz; ++k) v[k] = (uint8_t)((x >> ((k % 4) * 8)) ^ (k * 31)); if (esz == 8) v[3] = v[7] = 0x3F; return v; }

// ---------------------------------------------------------------- USRP
enum { ONE = 1, HALF = 2, ALL = 3, NONE = 0, TIMEOUT = -1, OVERFLOW = -8, BROKEN = -4, LATE = -2, ALIGN = -12, BADP = -15 };
struct Usrp {
    std::string log, err, failed; int calls = 0, fail_at = -1, devs = 0, streams = 0, streaming = 0; size_t chans = 2, esz = 8; bool null_dev = false, null_stream = false;
    struct Ch { double rate = 0, freq = 0, gain = -1, bw = 0; } ch[2]; std::string cpu, otw; size_t nch = 0; std::vector<int> script, events; size_t at = 0, evat = 0; size_t serial = 0, hard = 0, over = 0, under = 0; std::vector<uint8_t> sent[2]; size_t last = 0; bool stuck = false; double now = 12.5;
    void bad(const std::string& m) { if (err.empty()) err = m; }
    void call(const char* n) { log += std::string(" ") + n; if (calls++ == fail_at) { failed = n; throw Boom(n); } }
};
static Usrp* U;
static const int HANG = 3000;
struct Rx : uhd::rx_streamer {
    Rx() { U->streams++; } ~Rx() override { U->streams--; if (U->streaming) U->bad("the receive streamer goes away while the device is streaming"); }
    size_t get_num_channels() const override { return U->nch; } size_t get_max_num_samps() const override { return 512; }
    void issue_stream_cmd(const uhd::stream_cmd_t& c) override { bool stop = c.stream_mode == uhd::stream_cmd_t::STREAM_MODE_STOP_CONTINUOUS; try { U->call(stop ? "stop" : "start"); } catch (...) { if (stop) U->streaming = 0; throw; } if (!stop) for (size_t i = 0; i < U->nch; ++i) if (!U->ch[i].rate || !U->ch[i].freq) U->bad("streaming is started before rate and frequency of every channel are set"); if (!stop && U->nch > 1 && c.stream_now) { U->failed = "start"; throw Boom("stream now on multiple channels in a single streamer will fail to time align"); } if (!stop && !c.stream_now && c.time_spec.s <= U->now) U->bad("streaming is to start at a time that has passed"); if (!stop && U->streaming) U->bad("started twice"); if (stop && !U->streaming) U->bad("stopped while not streaming"); U->streaming = !stop; }
    size_t recv(const buffs_type& b, const size_t n, uhd::rx_metadata_t& md, const double to, const bool) override {
        if (!U->streaming) U->bad("receiving while not streaming"); MC_CHECK(b.size() == U->nch, "protocol", "%zu buffers are given to a streamer of %zu channels", b.size(), U->nch); MC_CHECK(to >= 0 && to <= 2, "blocks", "waiting for %g s", to); md.reset();
        int e = U->at < U->script.size() ? U->script[U->at] : TIMEOUT; if (U->at++ > U->script.size() + HANG) fail("hang", "a call to the source does not return while the device delivers nothing");
        if (e < 0) { md.error_code = (uhd::rx_metadata_t::error_code_t)-e; if (e == OVERFLOW) U->over++; else if (e != TIMEOUT) U->hard++; return 0; }
        size_t m = e == ONE ? 1 : e == HALF ? (n + 1) / 2 : e == ALL ? n : 0; if (m > n) m = n; if (!m) { md.error_code = uhd::rx_metadata_t::ERROR_CODE_TIMEOUT; return 0; } 
        for (size_t c = 0; c < b.size(); ++c) { uint8_t* p = (uint8_t*)b[c]; memset(p, 0xA5, n * U->esz); for (size_t i = 0; i < m; ++i) { auto v = smp(c, U->serial + i, U->esz); memcpy(p + i * U->esz, v.data(), U->esz); } }
        U->serial += m; return m;
    }
};
struct Tx : uhd::tx_streamer {
    Tx() { U->streams++; } ~Tx() override { U->streams--; }
    size_t get_num_channels() const override { return U->nch; } size_t get_max_num_samps() const override { return 512; }
    size_t send(const buffs_type& b, const size_t n, const uhd::tx_metadata_t& md, const double to) override {
        MC_CHECK(b.size() == U->nch, "protocol", "%zu buffers are given to a streamer of %zu channels", b.size(), U->nch); MC_CHECK(to >= 0 && to <= 2, "blocks", "waiting for %g s", to); if (md.has_time_spec) U->bad("samples are sent with a time that was not asked for");
        int e = U->at < U->script.size() ? U->script[U->at] : U->stuck ? NONE : ALL; if (U->at++ > U->script.size() + HANG) fail("hang", "a call to the sink does not return while the device accepts nothing");
        size_t m = e == ONE ? 1 : e == HALF ? n / 2 : e == ALL ? n : 0; if (m > n) m = n; for (size_t c = 0; c < b.size(); ++c) { const uint8_t* p = (const uint8_t*)b[c]; U->sent[c].insert(U->sent[c].end(), p, p + m * U->esz); volatile uint8_t x = n ? p[n * U->esz - 1] : 0; (void)x; } return m;
    }
    bool recv_async_msg(uhd::async_metadata_t& m, double to) override { MC_CHECK(to >= 0 && to <= 2, "blocks", "waiting for %g s", to); if (U->evat >= U->events.size()) return false; int e = U->events[U->evat++]; m.event_code = (uhd::async_metadata_t::event_code_t)e; m.time_spec = uhd::time_spec_t(7.25); if (e == 2 || e == 16) U->under++; return true; }
};
struct Dev : uhd::usrp::multi_usrp {
    Dev() { U->devs++; } ~Dev() override { U->devs--; if (U->streaming) U->bad("the device is released while it is streaming"); }
    Usrp::Ch& c(size_t i) { if (i >= U->chans) { U->bad("a channel that does not exist is addressed"); i = 0; } return U->ch[i]; }
    std::string get_mboard_name(size_t) override { return "mock"; } std::string get_pp_string() override { return "mock"; } size_t get_rx_num_channels() override { U->call("nrx"); return U->chans; } size_t get_tx_num_channels() override { return U->chans; }
    void rate(double r, size_t i, const char* n) { U->call(n); if (i == ALL_CHANS) for (auto& x : U->ch) x.rate = r; else c(i).rate = r; }
    void set_rx_rate(double r, size_t i) override { rate(r, i, "rxrate"); } double get_rx_rate(size_t i) override { return c(i).rate; } void set_tx_rate(double r, size_t i) override { rate(r, i, "txrate"); } double get_tx_rate(size_t i) override { return c(i).rate; }
    uhd::tune_result_t set_rx_freq(const uhd::tune_request_t& t, size_t i) override { U->call("rxfreq"); c(i).freq = t.target_freq; return {}; } double get_rx_freq(size_t i) override { return c(i).freq; } uhd::tune_result_t set_tx_freq(const uhd::tune_request_t& t, size_t i) override { U->call("txfreq"); c(i).freq = t.target_freq; return {}; } double get_tx_freq(size_t i) override { return c(i).freq; }
    void set_rx_gain(double g, size_t i) override { U->call("rxgain"); c(i).gain = g; } double get_rx_gain(size_t i) override { return c(i).gain; } void set_tx_gain(double g, size_t i) override { U->call("txgain"); c(i).gain = g; } double get_tx_gain(size_t i) override { return c(i).gain; }
    void set_rx_bandwidth(double b, size_t i) override { U->call("rxbw"); c(i).bw = b; } void set_tx_bandwidth(double b, size_t i) override { U->call("txbw"); c(i).bw = b; }
    uhd::freq_range_t get_rx_freq_range(size_t) override { return {7e7, 6e9}; } uhd::freq_range_t get_tx_freq_range(size_t) override { return {7e7, 6e9}; } uhd::gain_range_t get_rx_gain_range(size_t) override { return {0, 76}; } uhd::gain_range_t get_tx_gain_range(size_t) override { return {0, 76}; }
    void open(const uhd::stream_args_t& a) { U->cpu = a.cpu_format; U->otw = a.otw_format; U->nch = a.channels.empty() ? 1 : a.channels.size(); for (size_t i = 0; i < a.channels.size(); ++i) if (a.channels[i] != i) U->bad("the streamer gets the wrong channels"); }
    uhd::rx_streamer::sptr get_rx_stream(const uhd::stream_args_t& a) override { U->call("rxstream"); open(a); if (U->null_stream) { U->failed = "rxstream"; return nullptr; } return std::make_shared<Rx>(); }
    uhd::tx_streamer::sptr get_tx_stream(const uhd::stream_args_t& a) override { U->call("txstream"); open(a); if (U->null_stream) { U->failed = "txstream"; return nullptr; } return std::make_shared<Tx>(); }
    double pps = 0; uhd::time_spec_t get_time_last_pps(size_t) override { return pps += 0.3; } uhd::time_spec_t get_time_now(size_t) override { return U->now; } void set_time_now(const uhd::time_spec_t& t, size_t) override { U->now = t.s; } void set_time_next_pps(const uhd::time_spec_t&, size_t) override {} void set_time_unknown_pps(const uhd::time_spec_t&) override {}
};
bool uhd::set_thread_priority_safe(float, bool) { return true; }
uhd::usrp::multi_usrp::sptr uhd::usrp::multi_usrp::make(const uhd::device_addr_t& a) { U->call("make"); if (a.s != "addr=1") U->bad("the device address is not passed on"); if (U->null_dev) { U->failed = "make"; return nullptr; } return std::make_shared<Dev>(); }
struct Quiet { std::streambuf *a, *b; struct Null : std::streambuf { int overflow(int c) override { return c; } } n; Quiet() : a(std::cout.rdbuf(&n)), b(std::cerr.rdbuf(&n)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
static size_t held_maps() { size_t n = 0; if (FILE* f = fopen("/proc/self/maps", "r")) { char b[600]; while (fgets(b, 600, f)) if (strstr(b, "(deleted)")) ++n; fclose(f); } return n; }
struct Memory { size_t a = __sanitizer_get_current_allocated_bytes(), m = held_maps(); void same(const char* w) { size_t b = __sanitizer_get_current_allocated_bytes(), k = held_maps(); MC_CHECK(b <= a + 200 && k <= m, "leak", "%s: %zu bytes and %zu mappings stay", w, b > a ? b - a : 0, k > m ? k - m : 0); } };
static void released(const char* w) { MC_CHECK(U->err.empty(), "protocol", "%s: %s;%s", w, U->err.c_str(), U->log.c_str()); MC_CHECK(!U->devs && !U->streams, "leak", "%s: the %s stays;%s", w, U->devs ? "device" : "streamer", U->log.c_str()); }
static std::string en(int e) { static const std::pair<int, const char*> t[] = {{ONE, "one"}, {HALF, "half"}, {ALL, "all"}, {NONE, "zero"}, {TIMEOUT, "timeout"}, {OVERFLOW, "overflow"}, {BROKEN, "broken"}, {LATE, "late"}, {ALIGN, "alignment"}, {BADP, "bad packet"}}; for (auto& x : t) if (x.first == e) return x.second; return "?"; }
template <class T> static const char* fmt() { return sizeof(T) == 8 ? "fc32" : sizeof(T) == 4 ? "sc16" : "sc8"; }

template <class T> static void rx(const char* tn, size_t nch, size_t gap, size_t skew, int len, std::vector<int> alpha) {
    std::string N = std::string("USRP source of ") + tn + ", " + std::to_string(nch) + " channels, outputs " + std::to_string(gap) + " short of full" + (skew ? ", second one " + std::to_string(skew) + " fuller" : "") + ", script of " + std::to_string(len);
    scenario(N, [=] {
        sample("%s", N.c_str()); Opts o; o.iterate = false;
        explore(o, [&] {
            Quiet q; Usrp u; U = &u; u.esz = sizeof(T); std::string hist; uint64_t h = 1; for (int i = 0; i < len; ++i) { u.script.push_back(alpha[choose((int)alpha.size())]); hist += " " + en(u.script.back()); } hist += ";"; note("%s:%s", N.c_str(), hist.c_str());
            { auto b = std::make_unique<SourceUHDBlock<T>>("rx", 1e8, 1e6, "addr=1", 20.0, nch, "sc16"); MC_CHECK(u.cpu == fmt<T>() && u.otw == "sc16" && u.nch == nch && u.streaming, "settings", "%s: streamer of %s/%s, %zu channels", N.c_str(), u.cpu.c_str(), u.otw.c_str(), u.nch);
            for (size_t c = 0; c < nch; ++c) MC_CHECK(u.ch[c].rate == 1e6 && u.ch[c].freq == 1e8 && u.ch[c].gain == 20, "settings", "%s: channel %zu has rate %g, frequency %g, gain %g", N.c_str(), c, u.ch[c].rate, u.ch[c].freq, u.ch[c].gain);
            size_t cn = std::max<size_t>(8192 / sizeof(T), 1024); cler::Channel<T> c0(cn), c1(cn); cler::Channel<T>* ch[2] = {&c0, &c1}; size_t pre[2] = {0, 0}, got[2] = {0, 0}; for (size_t c = 0; c < nch; ++c) while (ch[c]->space() > gap - (c ? skew : 0)) { ch[c]->push(T{}); ++pre[c]; }
            auto drain = [&](size_t c, size_t n) { while (n-- && ch[c]->size()) { T t; ch[c]->pop(t); if (pre[c]) { --pre[c]; continue; } auto v = smp(c, got[c], sizeof(T)); MC_CHECK(got[c] < u.serial && !memcmp(v.data(), &t, sizeof(T)), "value", "%s: sample %zu of channel %zu is not what the device delivered;%s", N.c_str(), got[c], c, hist.c_str()); ++got[c]; } };
            bool fatal = false;
            for (int k = 0; k < len + 2 && !fatal; ++k) {
                int op = choose(nch == 2 ? 4 : 3); if (op == 1) { drain(0, 1); hist += " drain 1 of first"; } if (op == 2) { for (size_t c = 0; c < nch; ++c) drain(c, 1 << 20); hist += " drain"; } if (op == 3) { drain(1, 2); hist += " drain 2 of second"; }
                size_t room = c0.space(); if (nch == 2) room = std::min(room, c1.space()); size_t a0 = u.at, s0 = u.serial, h0 = u.hard, o0 = c0.size(), o1 = c1.size(); note("%s:%s", N.c_str(), hist.c_str());
                Res r = nch == 1 ? b->procedure(&c0) : b->procedure(&c0, &c1); count_trans(); bool f = !r.is_ok() && cler::is_fatal(r.unwrap_err()); fatal |= f; hist += " |";
                MC_CHECK(f == (u.hard > h0), f ? "spurious-error" : "unreported", "%s: %s;%s", N.c_str(), f ? "fatal error without a stream error" : "a stream error is not reported as fatal", hist.c_str());
                size_t d = u.serial - s0; MC_CHECK(c0.size() - o0 == d && (nch == 1 || c1.size() - o1 == d), "lost", "%s: %zu samples delivered on each channel, %zu and %zu appear;%s", N.c_str(), d, c0.size() - o0, c1.size() - o1, hist.c_str());
                MC_CHECK(room || u.at == a0, "lost", "%s: the device is read although an output is full;%s", N.c_str(), hist.c_str()); MC_CHECK(!room || u.at > a0, "no-progress", "%s: there is room but the device is not read;%s", N.c_str(), hist.c_str());
                MC_CHECK(b->get_overflow_count() == u.over, "count", "%s: %zu overflows counted, the device reported %zu;%s", N.c_str(), b->get_overflow_count(), u.over, hist.c_str()); h = hmix(h, hmix(c0.size() * 8192 + c1.size(), u.at)); state(h);
            }
            for (size_t c = 0; c < nch; ++c) { drain(c, 1 << 20); MC_CHECK(got[c] == u.serial, "lost", "%s: %zu of %zu samples forwarded on channel %zu;%s", N.c_str(), got[c], u.serial, c, hist.c_str()); }
            MC_CHECK(u.streaming, "protocol", "%s: streaming was stopped;%s", N.c_str(), hist.c_str()); }
            released(N.c_str()); outcome(hmix(h, u.serial));
        });
    });
}
template <class T> static void tx(const char* tn, size_t nch, size_t start, int len, std::vector<int> alpha) {
    std::string N = std::string("USRP sink of ") + tn + ", " + std::to_string(nch) + " channels, inputs moved by " + std::to_string(start) + ", script of " + std::to_string(len);
    scenario(N, [=] {
        sample("%s", N.c_str()); Opts o; o.iterate = false; static const size_t thr = cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T);
        explore(o, [&] {
            Quiet q; Usrp u; U = &u; u.esz = sizeof(T); std::string hist; uint64_t h = 1; for (int i = 0; i < len; ++i) { u.script.push_back(alpha[choose((int)alpha.size())]); hist += " " + en(u.script.back()); } hist += ";"; u.stuck = choose(2); note("%s:%s", N.c_str(), hist.c_str());
            int cfgd = choose(2); UHDConfig cfg{2e9, 3e6, 11, 5e5};
            { auto b = std::make_unique<SinkUHDBlock<T>>("tx", "addr=1", nch, 0, "sc16", cfgd ? &cfg : nullptr); UHDConfig w = cfgd ? cfg : UHDConfig(); MC_CHECK(u.cpu == fmt<T>() && u.otw == "sc16" && u.nch == nch, "settings", "%s: streamer of %s/%s, %zu channels", N.c_str(), u.cpu.c_str(), u.otw.c_str(), u.nch);
            for (size_t c = 0; c < nch; ++c) MC_CHECK(u.ch[c].rate == w.sample_rate_Hz && u.ch[c].freq == w.center_freq_Hz && u.ch[c].gain == w.gain && u.ch[c].bw == w.bandwidth_Hz, "settings", "%s: channel %zu has rate %g, frequency %g, gain %g, bandwidth %g", N.c_str(), c, u.ch[c].rate, u.ch[c].freq, u.ch[c].gain, u.ch[c].bw);
            if (start) for (size_t c = 0; c < nch; ++c) for (size_t i = 0; i < start; ++i) { T t{}; b->in[c].push(t); b->in[c].pop(t); }
            size_t fed[2] = {0, 0}, under = 0; int calls = 0, evk = choose(3 * (len + 1) + 1), evcall = evk ? (evk - 1) / 3 : -1, evkind = evk ? 1 + (evk - 1) % 3 : 0; size_t amt[] = {0, thr / 4 + 1, thr}; auto feed = [&](size_t c, size_t n) { while (n-- && b->in[c].space()) { auto v = smp(c, fed[c]++, sizeof(T)); T t; memcpy(&t, v.data(), sizeof(T)); b->in[c].push(t); } };
            auto call = [&] {
                size_t a0 = u.at, s0 = u.sent[0].size() / sizeof(T), had[2] = {b->in[0].size(), nch == 2 ? b->in[1].size() : ~(size_t)0}; int ev = calls++ == evcall ? evkind : 0; static const int evs[] = {0, 2, 16, 1}; if (ev) { u.events.push_back(evs[ev]); u.events.push_back(4); if (ev == 1) u.events.push_back(2); } hist += ev ? " event" : ""; note("%s:%s", N.c_str(), hist.c_str());
                Res r = b->procedure(); count_trans(); MC_CHECK(r.is_ok() || !cler::is_fatal(r.unwrap_err()), "spurious-error", "%s: fatal error without a device error;%s", N.c_str(), hist.c_str()); size_t d = u.sent[0].size() / sizeof(T) - s0;
                for (size_t c = 0; c < nch; ++c) MC_CHECK(had[c] - b->in[c].size() == d, "lost", "%s: %zu samples accepted by the device, %zu leave channel %zu;%s", N.c_str(), d, had[c] - b->in[c].size(), c, hist.c_str());
                if (std::min(had[0], had[1]) >= thr) MC_CHECK(u.at > a0, "no-progress", "%s: full inputs but nothing is offered;%s", N.c_str(), hist.c_str());
                if (r.is_ok()) MC_CHECK(u.evat == u.events.size() && b->get_underflow_count() == u.under, "count", "%s: %zu underflows counted, the device reported %zu (%zu messages unread);%s", N.c_str(), b->get_underflow_count(), u.under, u.events.size() - u.evat, hist.c_str());
                under = u.under; h = hmix(h, hmix(b->in[0].size(), u.sent[0].size())); state(h);
            };
            for (int k = 0; k < len + 1; ++k) { for (size_t c = 0; c < nch; ++c) { size_t n = amt[choose(3)]; feed(c, n); hist += " in" + std::to_string(n); } hist += " |"; call(); }
            if (!u.stuck) { u.script.clear(); u.at = 0; for (int i = 0; i < 4; ++i) { for (size_t c = 0; c < nch; ++c) feed(c, thr); Res r = b->procedure(); (void)r; } for (size_t c = 0; c < nch; ++c) MC_CHECK(b->in[c].size() < thr || nch == 2, "no-progress", "%s: %zu samples stay although the device takes them;%s", N.c_str(), b->in[c].size(), hist.c_str()); }
            for (size_t c = 0; c < nch; ++c) for (size_t i = 0; i < u.sent[c].size() / sizeof(T); ++i) { auto v = smp(c, i, sizeof(T)); MC_CHECK(!memcmp(v.data(), &u.sent[c][i * sizeof(T)], sizeof(T)), "value", "%s: sample %zu sent on channel %zu is not sample %zu of its input;%s", N.c_str(), i, c, i, hist.c_str()); } (void)under; }
            released(N.c_str()); outcome(hmix(h, u.sent[0].size()));
        });
    });
}
static void construction() {
    scenario("USRP construction, settings and destruction with failing calls", [] {
        sample("every device call failing, missing device, streamer and channels"); Opts o; o.iterate = false;
        explore(o, [&] {
            Quiet q; Usrp u; U = &u; int what = choose(2), env = choose(4), nch = choose(3); u.fail_at = choose(26) - 1; u.null_dev = env == 1; u.null_stream = env == 2; if (env == 3) u.chans = 1; bool toomany = (size_t)nch > u.chans; if (nch == 0 && what == 0) return; if (env == 3 && what == 1) return; note("construction %d %d, %d channels, failing call %d", what, env, nch, u.fail_at);
            bool ok = false; int phase = 0; std::string f0; f0.reserve(64); u.log.reserve(4096); u.failed.reserve(64); u.err.reserve(200); u.script.reserve(8); u.events.reserve(8); for (auto& x : u.sent) x.reserve(1 << 16); Memory mem; try {
                if (what == 0) { SourceUHDBlock<CF> b("rx", 1e8, 1e6, "addr=1", 20.0, nch, "sc16"); phase = 1; f0 = u.failed; MC_CHECK(u.streaming, "construct", "constructed without a running stream"); bool r = b.configure(UHDConfig{1.5e9, 2e6, 30, 1e6}, nch - 1); if (f0.empty()) { MC_CHECK(r == u.failed.empty(), "unreported", "configure() returns %d although %s failed", r, u.failed.c_str()); if (r) MC_CHECK(u.ch[nch - 1].rate == 2e6 && u.ch[nch - 1].freq == 1.5e9 && u.ch[nch - 1].gain == 30 && u.ch[nch - 1].bw == 1e6, "settings", "configure() does not set what it is given"); }
                    cler::Channel<CF> c0(1024), c1(1024); u.script = {ALL}; Res x = nch == 1 ? b.procedure(&c0) : b.procedure(&c0, &c1); MC_CHECK(x.is_ok() && c0.size(), "no-progress", "no samples come after configure()"); }
                else { UHDConfig c0{2e9, 3e6, 11, 5e5}; SinkUHDBlock<CF> b("tx", "addr=1", nch, 0, "sc16", choose(2) ? &c0 : nullptr); phase = 1; f0 = u.failed; bool r = b.configure(UHDConfig{1.5e9, 2e6, 30, 1e6}, nch - 1); if (f0.empty()) { MC_CHECK(r == u.failed.empty(), "unreported", "configure() returns %d although %s failed", r, u.failed.c_str()); if (r) MC_CHECK(u.ch[nch - 1].rate == 2e6 && u.ch[nch - 1].freq == 1.5e9 && u.ch[nch - 1].gain == 30 && u.ch[nch - 1].bw == 1e6, "settings", "configure() does not set what it is given"); }
                    for (int c = 0; c < nch; ++c) for (int i = 0; i < 1024; ++i) if (b.in[c].space()) b.in[c].push(CF(1, 1)); Res x = b.procedure(); MC_CHECK(x.is_ok() && u.sent[0].size(), "no-progress", "nothing is sent after configure()");
                    u.events = {2, 1}; u.evat = 0; AsyncTxEvent e; MC_CHECK(b.poll_async_event(e) && e.event_occurred && (int)e.event_code == 2, "count", "poll_async_event() misses an event"); MC_CHECK(b.poll_async_event(e) && (int)e.event_code == 1 && !b.poll_async_event(e) && !e.event_occurred, "count", "poll_async_event() reports a wrong event"); }
                ok = true; } catch (const std::exception&) { MC_CHECK(phase == 0, "construct", "an exception leaves configure() or the destructor"); }
            mem.same("construction and destruction"); bool must_fail = !f0.empty() || (phase == 0 && !u.failed.empty()); MC_CHECK(phase == 0 || f0.empty(), "unreported", "constructed although %s failed", f0.c_str()); MC_CHECK(ok || must_fail || toomany || nch == 0, "construct", "refused without a reason;%s", u.log.c_str()); MC_CHECK(!ok || !(toomany && what == 0) , "construct", "more channels than the device has are accepted"); MC_CHECK(!ok || nch, "construct", "zero channels are accepted");
            if (u.failed != "stop" && !(u.failed == "start")) released("construction"); else MC_CHECK(!u.devs && !u.streams, "leak", "the device stays after %s failed", u.failed.c_str()); count_trans(); outcome(hmix(ok, std::hash<std::string>()(u.log))); state(hmix(what * 100 + env * 10 + nch, u.fail_at + 1));
        });
    });
    scenario("USRP sink channel sizes", [] { sample("requested input sizes"); Opts o; o.iterate = false; explore(o, [&] { Quiet q; Usrp u; U = &u; static const size_t sz[] = {0, 1, 100, cler::DOUBLY_MAPPED_MIN_SIZE / 8 - 1, cler::DOUBLY_MAPPED_MIN_SIZE / 8, 5000}; int i = choose(6); bool ok = true; try { SinkUHDBlock<CF> b("tx", "addr=1", 2, sz[i]); MC_CHECK(b.in[1].space() >= sz[i], "settings", "an input of %zu holds %zu", sz[i], b.in[1].space()); } catch (const std::invalid_argument&) { ok = false; } MC_CHECK(ok == (i == 0 || i >= 4), "settings", "an input of %zu samples is %s", sz[i], ok ? "accepted" : "refused"); released("channel size"); outcome(i); state(i); count_trans(); }); });
}
// ---------------------------------------------------------------- CaribouLite
struct Cl { bool board = true, radio = true, running = false; int starts = 0, stops = 0; std::string err, failed; int calls = 0, fail_at = -1; float freq = 0, rate = 0, gain = -1; int agc = -1; std::vector<int> script; size_t at = 0, serial = 0, hard = 0, mtu = 6, asked = 0; void bad(const char* m) { if (err.empty()) err = m; } void call(const char* n) { if (calls++ == fail_at) { failed = n; throw Boom(n); } } };
static Cl* C;
struct Radio : CaribouLiteRadio {
    std::vector<CaribouLiteFreqRange> GetFrequencyRange() override { C->call("ranges"); return {{389.5e6, 510e6}, {779e6, 1020e6}}; } float GetRxSampleRateMin() override { return 4e5f; } float GetRxSampleRateMax() override { return 4e6f; } size_t GetNativeMtuSample() override { return C->mtu; }
    void SetFrequency(float f) override { C->call("freq"); C->freq = f; } float GetFrequency() override { return C->freq; } void SetRxSampleRate(float r) override { C->call("rate"); C->rate = r; } float GetRxSampleRate() override { return C->rate; } void SetAgc(bool a) override { C->call("agc"); C->agc = a; } bool GetAgc() override { return C->agc; } void SetRxGain(float g) override { C->call("gain"); C->gain = g; } float GetRxGain() override { return C->gain; } float GetRxGainMin() override { return 0; } float GetRxGainMax() override { return 69; }
    void StartReceiving() override { C->call("start"); if (C->running) C->bad("started twice"); if (!C->freq || !C->rate || C->agc < 0) C->bad("started before the settings are made"); C->running = true; } void StopReceiving() override { if (!C->running) C->bad("stopped while not receiving"); C->running = false; }
    template <class T> int rd(T* p, size_t n) { if (!C->running) C->bad("reading while not receiving"); MC_CHECK(n > 0 && n <= C->mtu, "mtu", "%zu samples requested with an MTU of %zu", n, C->mtu); int e = C->at < C->script.size() ? C->script[C->at] : 0; if (C->at++ > C->script.size() + HANG) fail("hang", "a call to the source does not return"); memset((void*)p, 0xA5, n * sizeof(T)); if (e < 0) { C->hard++; return e; } size_t m = e == ONE ? 1 : e == HALF ? (n + 1) / 2 : e == ALL ? n : 0; for (size_t i = 0; i < m; ++i) { auto v = smp(0, C->serial++, sizeof(T)); memcpy((void*)&p[i], v.data(), sizeof(T)); } return (int)m; }
    int ReadSamples(std::complex<float>* p, size_t n) override { return rd(p, n); } int ReadSamples(std::complex<short>* p, size_t n) override { return rd(p, n); }
};
static Radio radio; static CaribouLite board;
bool CaribouLite::DetectBoard(SysVersion* v, std::string& n, std::string& g) { *v = CaribouLiteFull; n = "mock"; g = "0"; return C->board; }
std::string CaribouLite::GetSystemVersionStr(SysVersion) { return "mock"; }
CaribouLite& CaribouLite::GetInstance(bool) { if (!C->board) C->bad("the driver is used without a board"); return board; }
CaribouLiteRadio* CaribouLite::GetRadioChannel(CaribouLiteRadio::RadioType) { return C->radio ? &radio : nullptr; }
template <class T> static void cari(const char* tn, size_t mtu, size_t gap, int len) {
    std::string N = std::string("CaribouLite source of ") + tn + ", MTU " + std::to_string(mtu) + ", output " + std::to_string(gap) + " short of full, script of " + std::to_string(len);
    scenario(N, [=] {
        sample("%s", N.c_str()); Opts o; o.iterate = false;
        explore(o, [&] {
            Quiet q; Cl c; C = &c; c.mtu = mtu; std::string hist; uint64_t h = 1; static const int al[] = {ONE, HALF, ALL, NONE, -1, -5}; for (int i = 0; i < len; ++i) { c.script.push_back(al[choose(6)]); hist += " " + std::to_string(c.script.back()); } hist += ";"; bool agc = choose(2); note("%s:%s", N.c_str(), hist.c_str());
            { auto b = std::make_unique<SourceCaribouliteBlock<T>>("rx", CaribouLiteRadio::S1G, 9e8f, 2e6f, agc, 33.f); MC_CHECK(c.running && c.freq == 9e8f && c.rate == 2e6f && c.agc == (int)agc && (agc || c.gain == 33.f), "settings", "%s: other settings than asked for", N.c_str());
            cler::Channel<T> out(8192 / sizeof(T)); size_t pre = 0, got = 0; while (out.space() > gap) { out.push(T{}); ++pre; }
            auto drain = [&](size_t n) { while (n-- && out.size()) { T t; out.pop(t); if (pre) { --pre; continue; } auto v = smp(0, got, sizeof(T)); MC_CHECK(got < c.serial && !memcmp(v.data(), &t, sizeof(T)), "value", "%s: sample %zu is not what the radio delivered;%s", N.c_str(), got, hist.c_str()); ++got; } };
            for (int k = 0; k < len + 2; ++k) { int op = choose(3); drain(op == 1 ? 1 : op == 2 ? 1 << 20 : 0); hist += op == 1 ? " drain1" : op == 2 ? " drain" : ""; size_t room = out.space(), a0 = c.at, s0 = c.serial, h0 = c.hard, o0 = out.size(); note("%s:%s", N.c_str(), hist.c_str()); Res r = b->procedure(&out); count_trans(); hist += " |";
                MC_CHECK(!(c.hard > h0) || !r.is_ok(), "unreported", "%s: a failed read is not reported;%s", N.c_str(), hist.c_str()); MC_CHECK(r.is_ok() || c.hard > h0 || !room || c.serial == s0, "spurious-error", "%s: an error is reported with the samples;%s", N.c_str(), hist.c_str()); MC_CHECK(out.size() - o0 == c.serial - s0, "lost", "%s: %zu samples delivered, %zu appear;%s", N.c_str(), c.serial - s0, out.size() - o0, hist.c_str());
                MC_CHECK(room || c.at == a0, "lost", "%s: the radio is read although the output is full;%s", N.c_str(), hist.c_str()); MC_CHECK(!room || c.at > a0, "no-progress", "%s: there is room but the radio is not read;%s", N.c_str(), hist.c_str()); h = hmix(h, hmix(out.size(), c.at)); state(h); if (!r.is_ok() && cler::is_fatal(r.unwrap_err())) { MC_CHECK(c.hard > h0, "spurious-error", "%s: fatal error without a failed read;%s", N.c_str(), hist.c_str()); break; } }
            drain(1 << 20); MC_CHECK(got == c.serial, "lost", "%s: %zu of %zu samples forwarded;%s", N.c_str(), got, c.serial, hist.c_str()); }
            MC_CHECK(!c.running, "leak", "%s: the radio keeps receiving", N.c_str()); MC_CHECK(c.err.empty(), "protocol", "%s: %s", N.c_str(), c.err.c_str()); outcome(hmix(h, c.serial));
        });
    });
}
static void cari_construction() {
    scenario("CaribouLite construction", [] {
        sample("no board, no radio, settings out of range, every call failing"); Opts o; o.iterate = false;
        explore(o, [&] {
            Quiet q; Cl c; C = &c; static const float fr[] = {9e8f, 4e8f, 389e6f, 600e6f, 1030e6f, 0.f, -1.f}, rt[] = {2e6f, 4e5f, 4e6f, 3.9e5f, 4.1e6f, 0.f}; int fi = choose(7), ri = choose(6), env = choose(3); c.fail_at = choose(8) - 1; c.board = env != 1; c.radio = env != 2; bool ok = false; note("frequency %g, rate %g, environment %d, failing call %d", fr[fi], rt[ri], env, c.fail_at);
            try { SourceCaribouliteBlock<CF> b("rx", CaribouLiteRadio::HiF, fr[fi], rt[ri], false, 5); ok = true; MC_CHECK(c.running, "construct", "constructed without receiving"); } catch (const std::exception&) {}
            bool good = fi < 2 && ri < 3 && env == 0; MC_CHECK(ok == (good && c.failed.empty()), "settings", "frequency %g, rate %g, environment %d%s: %s", fr[fi], rt[ri], env, c.failed.empty() ? "" : ", a call failing", ok ? "accepted" : "refused"); MC_CHECK(!c.running, "leak", "the radio keeps receiving"); MC_CHECK(c.err.empty(), "protocol", "%s", c.err.c_str()); outcome(hmix(ok, fi * 100 + ri * 10 + env)); state(hmix(fi * 100 + ri * 10 + env, c.fail_at + 1)); count_trans();
        });
    });
}
static void setup() {
    bool T = thorough(); int L = T ? 3 : 2; std::vector<int> A{ONE, HALF, ALL, TIMEOUT, OVERFLOW, BROKEN}, B{ONE, ALL, TIMEOUT, OVERFLOW, LATE, ALIGN, BADP};
    for (size_t gap : {(size_t)0, (size_t)1, (size_t)3, (size_t)600}) { rx<CF>("fc32", 1, gap, 0, L, A); rx<CS>("sc16", 1, gap, 0, L, B); for (size_t skew : {(size_t)0, (size_t)1}) if (gap >= skew) rx<CF>("fc32", 2, gap, skew, L, gap == 3 ? B : A); rx<CS>("sc16", 2, gap, gap ? 1 : 0, L - 1, A); }
    rx<CF>("fc32", 1, 3, 0, L + 1, A); rx<CB>("sc8", 1, 5, 0, L, A); rx<CB>("sc8", 2, 5, 2, L - 1, A);
    std::vector<int> S{ONE, HALF, ALL, NONE}; for (size_t st : {0, 300, 1020}) { tx<CF>("fc32", 1, st, T ? 3 : 2, S); tx<CS>("sc16", 1, st, 2, S); tx<CF>("fc32", 2, st, T ? 2 : 1, S); } tx<CB>("sc8", 1, 0, 2, S); tx<CS>("sc16", 2, 7, 1, S);
    construction();
    for (size_t gap : {0, 1, 5, 6, 500}) { cari<CF>("float", 6, gap, L + (gap == 5)); cari<CSH>("short", 6, gap, L); } cari<CF>("float", 1, 3, L); cari<CF>("float", 4096, 700, L); cari_construction();
}
MC_MAIN(setup)
