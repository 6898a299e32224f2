// B08: HackRF source and sink on a scripted driver. Compiled twice: with -DTHR the driver thread runs concurrently with the
// block under the controlled scheduler; without, every sequence of transfers, calls and channel operations is enumerated.
#include <iostream>
#include <complex>
#include <algorithm>
#include <stdexcept>
#include "mc.hpp"
#include "sources/source_hackrf.hpp"
#include "sinks/sink_hackrf.hpp"
#include <cmath>
#include <thread>
#include <vector>
#include <string>
#include <memory>
#include <mutex>
#include <functional>
#include <fstream>
using namespace mc;
using CF = std::complex<float>; using Res = cler::Result<cler::Empty, cler::Error>;

#ifdef THR
#define QUIET NoRace q_
#else
#define QUIET ((void)0)
#endif
// ---------------------------------------------------------------- the stand-in driver
struct hackrf_device { int x; };
struct Drv {
    int inits = 0, opens = 0, streaming = 0, calls = 0, fail_at = -1; std::string log, err, failed; hackrf_device dev{};
    hackrf_sample_block_cb_fn cb = nullptr; void* ctx = nullptr; bool rx = false; uint64_t freq = 0; double rate = 0; uint32_t lna = 99, vga = 99, tx = 99; int amp = 99;
    std::thread thr; bool stopping = false; std::function<void()> body;
};
static Drv* D;
static int ent(const char* nm, hackrf_device* d, bool needs_dev = true) {
    QUIET; D->log += std::string(" ") + nm;
    if (!D->inits && std::string(nm) != "init" && D->err.empty()) D->err = std::string(nm) + " outside init/exit";
    if (needs_dev && (!D->opens || d != &D->dev) && D->err.empty()) D->err = std::string(nm) + " on a device that is not open";
    if (D->calls++ == D->fail_at) { D->failed = nm; return HACKRF_ERROR_LIBUSB; }
    return 0;
}
static void join_driver() { bool j; { QUIET; D->stopping = true; j = D->thr.joinable(); } if (j) D->thr.join(); }
static int start(const char* nm, hackrf_device* d, hackrf_sample_block_cb_fn f, void* c, bool rx) {
    int e = ent(nm, d); if (e) return e;
    QUIET; if (D->streaming++ && D->err.empty()) D->err = "started twice";
    if (D->rate == 0 || D->freq == 0) { if (D->err.empty()) D->err = "streaming is started before frequency and sample rate are set"; }
    D->cb = f; D->ctx = c; D->rx = rx; return 0;
}
static int stop(const char* nm, hackrf_device* d) { int e = ent(nm, d); { QUIET; if (!D->streaming && D->err.empty()) D->err = "stopped while not streaming"; D->streaming = 0; } join_driver(); return e; }
extern "C" {
int hackrf_init(void) { int e = ent("init", 0, false); if (!e) D->inits++; return e; }
int hackrf_exit(void) { int e = ent("exit", 0, false); if (D->inits) D->inits--; else if (D->err.empty()) D->err = "exit without init"; if (D->opens && D->err.empty()) D->err = "exit while the device is open"; return e; }
int hackrf_open(hackrf_device** d) { int e = ent("open", 0, false); if (e) return e; if (D->opens++ && D->err.empty()) D->err = "opened twice"; *d = &D->dev; return 0; }
int hackrf_close(hackrf_device* d) { int e = ent("close", d); { QUIET; if (D->streaming && !D->stopping && D->err.empty()) D->err = "closed while still streaming"; } D->opens = 0; D->streaming = 0; join_driver(); return e; }
int hackrf_start_rx(hackrf_device* d, hackrf_sample_block_cb_fn f, void* c) { return start("start_rx", d, f, c, true); }
int hackrf_start_tx(hackrf_device* d, hackrf_sample_block_cb_fn f, void* c) { return start("start_tx", d, f, c, false); }
int hackrf_stop_rx(hackrf_device* d) { return stop("stop_rx", d); }
int hackrf_stop_tx(hackrf_device* d) { return stop("stop_tx", d); }
int hackrf_is_streaming(hackrf_device*) { return D->streaming ? HACKRF_TRUE : HACKRF_ERROR_STREAMING_STOPPED; }
int hackrf_set_freq(hackrf_device* d, const uint64_t f) { int e = ent("freq", d); if (!e) D->freq = f; return e; }
int hackrf_set_sample_rate(hackrf_device* d, const double f) { int e = ent("rate", d); if (!e) D->rate = f; return e; }
int hackrf_set_lna_gain(hackrf_device* d, uint32_t v) { int e = ent("lna", d); if (!e) D->lna = v; return e; }
int hackrf_set_vga_gain(hackrf_device* d, uint32_t v) { int e = ent("vga", d); if (!e) D->vga = v; return e; }
int hackrf_set_txvga_gain(hackrf_device* d, uint32_t v) { int e = ent("txvga", d); if (!e) D->tx = v; return e; }
int hackrf_set_amp_enable(hackrf_device* d, const uint8_t v) { int e = ent("amp", d); if (!e) D->amp = v; return e; }
int hackrf_set_antenna_enable(hackrf_device* d, const uint8_t) { return ent("antenna", d); }
int hackrf_set_baseband_filter_bandwidth(hackrf_device* d, const uint32_t) { return ent("bandwidth", d); }
uint32_t hackrf_compute_baseband_filter_bw(const uint32_t b) { return b; }
uint32_t hackrf_compute_baseband_filter_bw_round_down_lt(const uint32_t b) { return b; }
const char* hackrf_error_name(enum hackrf_error) { return "error"; }
}
// one driver transfer; the buffer is exactly as long as announced, so that AddressSanitizer sees any overrun
static std::vector<uint8_t> transfer(std::vector<uint8_t> bytes, size_t cap = 0) {
    size_t n = bytes.size(); std::unique_ptr<uint8_t[]> b(new uint8_t[std::max(n, cap)]); memcpy(b.get(), bytes.data(), n); hackrf_transfer t{&D->dev, b.get(), (int)std::max(n, cap), (int)n, D->ctx, D->ctx};
    int r = D->cb(&t); MC_CHECK(r == 0, "protocol", "the callback asks the driver to stop streaming"); return std::vector<uint8_t>(b.get(), b.get() + n);
}
static const int BASE = 300;
static void rxcode(size_t i, uint8_t* b) { i += BASE; b[0] = (uint8_t)(i >> 8); b[1] = (uint8_t)i; }         // sample i <-> (I,Q) code
static std::vector<uint8_t> rxbytes(size_t from, size_t n) { std::vector<uint8_t> v(2 * n); for (size_t k = 0; k < n; ++k) rxcode(from + k, &v[2 * k]); return v; }
static long rxindex(CF v) { int a = (int)std::lround(v.real() * 128), b = (int)std::lround(v.imag() * 128); return (long)(((uint8_t)a << 8) | (uint8_t)b) - BASE; }
static CF txval(size_t i) { return CF(((i / 120) + 1 + .5f) / 127.f, ((i % 120) + 1 + .5f) / 127.f); }
static long txindex(const uint8_t* b) { int x = (int8_t)b[0], y = (int8_t)b[1]; if (x == 0 && y == 0) return -1; return (x - 1) * 120 + (y - 1); }
static std::unique_ptr<SourceHackRFBlock> mksrc(size_t buf = 0) { return std::make_unique<SourceHackRFBlock>("rx", 100000000, 2000000, 32, 20, true, buf); }
static std::unique_ptr<SinkHackRFBlock> mksnk(size_t buf = 0) { return std::make_unique<SinkHackRFBlock>("tx", 100000000, 2000000, 20, true, buf); }
static void protocol_ok(const char* w) { MC_CHECK(D->err.empty(), "protocol", "%s: %s;%s", w, D->err.c_str(), D->log.c_str()); MC_CHECK(!D->opens && !D->inits && !D->streaming, "protocol", "%s: the device stays %s;%s", w, D->opens ? "open" : "initialized", D->log.c_str()); }

#ifdef THR
// source: the driver delivers `tr` transfers while the block forwards; the internal buffer starts `gap` samples short of full, after being moved `off` samples
static void rx_thr(size_t off, size_t gap, std::vector<size_t> tr, int calls, int bound, int stale, size_t outgap) {
    char nm[160]; size_t tot = 0; std::string t; for (size_t x : tr) { tot += x; t += " " + std::to_string(x); } snprintf(nm, sizeof nm, "source: buffer moved by %zu, %zu short of full, transfers of%s samples, %d calls, output %zu short of full", off, gap, t.c_str(), calls, outgap); std::string N = nm;
    scenario(N, [=] {
        Opts o; o.threads = true; o.bound = bound; o.stale = stale; sample("%s", N.c_str());
        explore(o, [=] {
            note("%s", N.c_str()); Drv d; D = &d; std::vector<long> got; size_t over = 0, drops = 0, sent = 0;
            { auto b = mksrc(); cler::Channel<CF> out(512), probe(512); size_t cap = probe.space(); CF v;
            auto drain = [&] { while (out.size()) { out.pop(v); got.push_back(rxindex(v)); } };
            if (off) { transfer(rxbytes(sent, off)); sent += off; b->procedure(&out); drain(); }
            if (gap < cap) { transfer(rxbytes(sent, cap - gap)); sent += cap - gap; }
            MC_CHECK(b->get_overflow_count() == 0, "drop", "%s: samples are dropped although the buffer has room", N.c_str());
            for (size_t i = outgap; i < cap; ++i) out.push(CF(-1, -1));
            size_t pre = outgap < cap ? cap - outgap : 0, got0 = got.size();
            D->thr = std::thread([&, s0 = sent] { size_t s = s0; for (size_t n : tr) { transfer(rxbytes(s, n)); s += n; } });
            size_t moved = 0; for (int i = 0; i < calls; ++i) { size_t b4 = out.size(); Res r = b->procedure(&out); count_trans(); MC_CHECK(r.is_ok() || !cler::is_fatal(r.unwrap_err()), "spurious-error", "%s: fatal error", N.c_str()); moved += out.size() - b4; }
            (void)moved;
            D->thr.join();
            sent += tot;
            for (size_t i = 0; i < pre; ++i) { out.pop(v); MC_CHECK(v == CF(-1, -1), "value", "%s: samples already in the output changed", N.c_str()); }
            drain();
            for (int i = 0; i < 9; ++i) { size_t n = got.size(); b->procedure(&out); drain(); if (n == got.size()) break; }
            over = b->get_overflow_count();
            for (size_t i = 0; i < got.size(); ++i) MC_CHECK(got[i] > (i ? got[i - 1] : -1) && got[i] < (long)sent, "order", "%s: sample %ld arrives after sample %ld", N.c_str(), got[i], i ? got[i - 1] : -1L);
            drops = sent - got.size();
            MC_CHECK(drops == over, "count", "%s: %zu samples are lost, %zu are counted", N.c_str(), drops, over);
            if (gap >= tot) MC_CHECK(drops == 0, "drop", "%s: %zu samples are dropped although the buffer has room", N.c_str(), drops);
            MC_CHECK(got.size() >= got0 + std::min(cap, cap - gap + tot), "drop", "%s: only %zu samples come through", N.c_str(), got.size());
            }
            protocol_ok(N.c_str());
            outcome(hmix(drops, got.size())); uint64_t h = 1; for (size_t i = got.size() > 12 ? got.size() - 12 : 0; i < got.size(); ++i) h = hmix(h, got[i]); state(h);
        });
    });
}
// sink: the driver fetches transfers while the flowgraph pushes samples
static void tx_thr(size_t off, size_t pre, std::vector<size_t> tr, size_t push, bool bulk, int bound, int stale) {
    char nm[160]; size_t tot = 0; std::string t; for (size_t x : tr) { tot += x; t += " " + std::to_string(x); } snprintf(nm, sizeof nm, "sink: buffer moved by %zu, %zu samples queued, transfers of%s samples, %zu samples %s meanwhile", off, pre, t.c_str(), push, bulk ? "written" : "pushed"); std::string N = nm;
    scenario(N, [=] {
        Opts o; o.threads = true; o.bound = bound; o.stale = stale; sample("%s", N.c_str());
        explore(o, [=] {
            note("%s", N.c_str()); Drv d; D = &d; size_t fed = 0, shortn = 0, got = 0; uint64_t h = 1;
            { auto b = mksnk();
            auto check = [&](const std::vector<uint8_t>& v) {
                bool pad = false; for (size_t k = 0; k + 1 < v.size(); k += 2) { long x = txindex(&v[k]); if (x < 0) { pad = true; continue; } MC_CHECK(!pad, "gap", "%s: padding in the middle of a transfer", N.c_str()); MC_CHECK(x == (long)got, "order", "%s: sample %ld is sent where sample %zu is due", N.c_str(), x, got); ++got; } if (pad) ++shortn; h = hmix(h, got);
            };
            auto feed = [&](size_t n) { for (size_t i = 0; i < n; ++i) b->in.push(txval(fed++)); };
            if (off) { feed(off); check(transfer(std::vector<uint8_t>(2 * off, 0x55))); }
            feed(pre); size_t s0 = shortn, g0 = got;
            MC_CHECK(b->get_underrun_count() == 0, "count", "%s: an underrun is counted although the data was there", N.c_str());
            D->thr = std::thread([&] { for (size_t n : tr) { auto v = transfer(std::vector<uint8_t>(2 * n, 0x55)); QUIET; check(v); } });
            if (bulk) { std::vector<CF> v; for (size_t i = 0; i < push; ++i) v.push_back(txval(fed + i)); size_t k = b->in.writeN(v.data(), v.size()); MC_CHECK(k == push, "harness", "no room"); fed += push; } else feed(push);
            count_trans(b->procedure().is_ok());
            D->thr.join();
            MC_CHECK(got >= g0 + std::min(tot, pre), "lost", "%s: only %zu of %zu samples are sent", N.c_str(), got, fed);
            MC_CHECK(b->get_underrun_count() == shortn, "count", "%s: %zu short transfers, %zu counted", N.c_str(), shortn, b->get_underrun_count());
            if (tot <= pre) MC_CHECK(shortn == s0, "pad", "%s: a transfer is padded although the data was there", N.c_str());
            MC_CHECK(b->in.size() == fed - got, "lost", "%s: %zu fed, %zu sent, %zu left", N.c_str(), fed, got, b->in.size());
            check(transfer(std::vector<uint8_t>(2 * (fed - got + 1), 0x55)));
            MC_CHECK(got == fed, "lost", "%s: %zu of %zu samples are sent", N.c_str(), got, fed);
            }
            protocol_ok(N.c_str());
            outcome(hmix(h, shortn)); state(h);
        });
    });
}
// streaming while the block is destroyed: no callback may run on a dead block
static void die(bool src, std::vector<size_t> tr, int bound) {
    std::string N = std::string(src ? "source" : "sink") + " is destroyed while the driver streams";
    scenario(N, [=] {
        Opts o; o.threads = true; o.bound = bound; sample("%s", N.c_str());
        explore(o, [=] {
            note("%s", N.c_str()); Drv d; D = &d;
            auto run = [&] { for (size_t n : tr) { { QUIET; if (D->stopping) return; } transfer(rxbytes(0, n)); } };
            if (src) { auto b = mksrc(); D->thr = std::thread(run); b.reset(); } else { auto b = mksnk(); for (int i = 0; i < 3; ++i) b->in.push(txval(i)); D->thr = std::thread(run); b.reset(); }
            MC_CHECK(!D->thr.joinable(), "protocol", "%s: the streaming thread is still running after the block is gone", N.c_str());
            protocol_ok(N.c_str()); count_trans(); outcome(src); state(hmix(steps(), src));
        });
    });
}
#else
static void rx_seq(size_t buf, int depth, int style) {
    std::string N = "source with buffer " + std::to_string(buf) + ", histories of " + std::to_string(depth) + (style ? " (bulk)" : "");
    for (int first = 0; first < 7; ++first) scenario(N + ", first operation " + std::to_string(first), [=] {
        sample("%s", N.c_str()); Opts o; o.iterate = false;
        explore(o, [&] {
            Drv d; D = &d; std::string hist; uint64_t h = 1; std::vector<long> want; size_t sent = 0, over = 0, got = 0;
            { auto b = mksrc(buf); cler::Channel<CF> out(512), probe(buf ? buf : 512); size_t cap = probe.space(), ocap = out.space(), inside = 0;
            auto xfer = [&](size_t n) { transfer(rxbytes(sent % 60000, n), 2 * n + 2 * (n % 3)); for (size_t i = 0; i < n; ++i) { if (inside < cap) { want.push_back((long)((sent % 60000) + i)); ++inside; } else ++over; } sent += n; };
            for (int k = 0; k < depth; ++k) {
                int op = k ? choose(7) : first; size_t o4 = out.size(), i4 = inside; hist += " " + std::to_string(op); note("%s:%s", N.c_str(), hist.c_str());
                if (op == 0) xfer(1); else if (op == 1) xfer(3); else if (op == 2) xfer(style ? cap : cap - inside); else if (op == 3) xfer(style ? 700 : cap - inside + 2);
                else if (op == 4) { Res r = b->procedure(&out); size_t m = out.size() - o4; MC_CHECK(r.is_ok() || !cler::is_fatal(r.unwrap_err()), "spurious-error", "%s: fatal error;%s", N.c_str(), hist.c_str()); MC_CHECK(out.size() >= o4 && m <= i4 && (m > 0 || !i4 || o4 == ocap), "no-progress", "%s: %zu samples wait, room for %zu, %zu are forwarded;%s", N.c_str(), i4, ocap - o4, m, hist.c_str()); inside -= m; }
                else { size_t n = op == 5 ? 2 : out.size(); while (n-- && out.size()) { CF v; out.pop(v); MC_CHECK(got < want.size() && rxindex(v) == want[got], "value", "%s: sample %zu is %ld;%s", N.c_str(), got, rxindex(v), hist.c_str()); ++got; } }
                MC_CHECK(b->get_overflow_count() == over, "count", "%s: %zu samples found the buffer full, %zu are counted;%s", N.c_str(), over, b->get_overflow_count(), hist.c_str());
                count_trans(); h = hmix(h, hmix(inside, out.size())); state(hmix(inside, hmix(out.size(), sent)));
            }
            for (int i = 0; i < 12 && got < want.size(); ++i) { b->procedure(&out); CF v; while (out.size()) { out.pop(v); MC_CHECK(got < want.size() && rxindex(v) == want[got], "value", "%s: sample %zu is %ld;%s", N.c_str(), got, rxindex(v), hist.c_str()); ++got; } }
            MC_CHECK(got == want.size(), "lost", "%s: %zu of %zu accepted samples are forwarded;%s", N.c_str(), got, want.size(), hist.c_str());
            b->reset_overflow_count(); MC_CHECK(b->get_overflow_count() == 0, "count", "%s: resetting the counter has no effect", N.c_str());
            }
            protocol_ok(N.c_str()); outcome(hmix(h, over));
        });
    });
}
static void tx_seq(size_t buf, int depth) {
    std::string N = "sink with buffer " + std::to_string(buf) + ", histories of " + std::to_string(depth);
    for (int first = 0; first < 8; ++first) scenario(N + ", first operation " + std::to_string(first), [=] {
        sample("%s", N.c_str()); Opts o; o.iterate = false;
        explore(o, [&] {
            Drv d; D = &d; std::string hist; uint64_t h = 1; size_t fed = 0, got = 0, under = 0;
            { auto b = mksnk(buf); size_t cap = b->in.space();
            MC_CHECK(buf == 0 || cap >= buf - 1, "capacity", "%s: room for %zu only", N.c_str(), cap);
            auto feed = [&](size_t n) { while (n-- && b->in.space()) { b->in.push(txval(fed % 14000)); ++fed; } };
            auto xfer = [&](size_t n) {
                auto v = transfer(std::vector<uint8_t>(2 * n, 0x55)); size_t have = fed - got, real = std::min(have, n); if (real < n) ++under;
                for (size_t k = 0; k < n; ++k) { long x = txindex(&v[2 * k]); if (k < real) { MC_CHECK(x == (long)(got % 14000), "value", "%s: sample %zu is sent as %ld;%s", N.c_str(), got, x, hist.c_str()); ++got; } else MC_CHECK(v[2 * k] == 0 && v[2 * k + 1] == 0, "pad", "%s: missing samples are not sent as silence;%s", N.c_str(), hist.c_str()); }
            };
            for (int k = 0; k < depth; ++k) {
                int op = k ? choose(8) : first; hist += " " + std::to_string(op); note("%s:%s", N.c_str(), hist.c_str());
                if (op == 0) feed(1); else if (op == 1) feed(5); else if (op == 2) feed(99999); else if (op == 3) xfer(1); else if (op == 4) xfer(6); else if (op == 5) xfer(cap - 1); else if (op == 6) xfer(2 * cap); else { size_t w = b->in.size(); Res r = b->procedure(); MC_CHECK(r.is_ok() || !cler::is_fatal(r.unwrap_err()), "spurious-error", "%s: fatal error", N.c_str()); MC_CHECK(b->in.size() == w, "lost", "%s: the block's procedure takes %zu samples away from the driver;%s", N.c_str(), w - b->in.size(), hist.c_str()); }
                MC_CHECK(b->get_underrun_count() == under, "count", "%s: %zu short transfers, %zu counted;%s", N.c_str(), under, b->get_underrun_count(), hist.c_str()); MC_CHECK(b->in.size() == fed - got, "lost", "%s: %zu samples queued, %zu expected;%s", N.c_str(), b->in.size(), fed - got, hist.c_str());
                count_trans(); h = hmix(h, hmix(got, b->in.size())); state(hmix(fed, got));
            }
            b->reset_underrun_count(); MC_CHECK(b->get_underrun_count() == 0, "count", "%s: resetting the counter has no effect", N.c_str());
            }
            protocol_ok(N.c_str()); outcome(hmix(h, under));
        });
    });
}
static void convert() {
    scenario("source: every sample code", [] {
        sample("all 65536 (I,Q) codes"); Opts o; o.iterate = false;
        explore(o, [&] {
            Drv d; D = &d; auto b = mksrc(); cler::Channel<CF> out(512); int i = choose(256); note("I code %d", (int8_t)i);
            std::vector<uint8_t> v; for (int q = 0; q < 256; ++q) { v.push_back((uint8_t)i); v.push_back((uint8_t)q); } transfer(v); b->procedure(&out); MC_CHECK(out.size() == 256, "lost", "%zu of 256 samples", out.size());
            for (int q = 0; q < 256; ++q) { CF s; out.pop(s); float wi = (int8_t)i / 128.f, wq = (int8_t)q / 128.f; MC_CHECK(std::abs(s.real() - wi) < 1 / 512.f && std::abs(s.imag() - wq) < 1 / 512.f && std::abs(s.real()) <= 1 && std::abs(s.imag()) <= 1, "scale", "code (%d,%d) becomes (%g,%g)", (int8_t)i, (int8_t)q, s.real(), s.imag()); count_trans(); }
            outcome(i); state(i);
        });
    });
    scenario("sink: the whole value range", [] {
        sample("every multiple of 1/512 from -3 to 3, huge values, infinities, not-a-number"); Opts o; o.iterate = false;
        explore(o, [&] {
            Drv d; D = &d; auto b = mksnk(); int a = choose(62); note("value group %d", a); std::vector<CF> vs;
            const float odd[] = {1e9f, -1e9f, INFINITY, -INFINITY, NAN, -NAN, 1e-30f, -1e-30f, 3e38f, -0.0f, 1.0000001f, -1.0000001f, .9999999f, -.9999999f};
            if (a == 61) for (float x : odd) for (float y : odd) vs.push_back({x, y}); else for (int k = 0; k < 52; ++k) { float x = (a * 52 + k - 1536) / 512.f; vs.push_back({x, -x}); vs.push_back({x, .25f}); }
            for (auto& x : vs) b->in.push(x);
            auto v = transfer(std::vector<uint8_t>(2 * vs.size(), 0x55));
            for (size_t k = 0; k < vs.size(); ++k) for (int p = 0; p < 2; ++p) { float x = p ? vs[k].imag() : vs[k].real(); int c = (int8_t)v[2 * k + p]; count_trans(); if (std::isnan(x)) continue; float w = std::max(-1.f, std::min(1.f, x)) * 127.5f; MC_CHECK(std::abs(c - w) < 1.51f, "scale", "value %g is sent as code %d", x, c); }
            outcome(a); state(a);
        });
    });
}
// every driver call fails in turn
static void faults(bool src) {
    std::string N = src ? "source" : "sink";
    scenario(N + ": every failing driver call", [=] {
        sample("%s", N.c_str()); Opts o; o.iterate = false;
        explore(o, [&] {
            Drv d; D = &d; d.fail_at = choose(22) - 1; size_t buf = (size_t[]){0, 512, 1024, 100}[choose(4)]; note("%s with buffer %zu: driver call %d fails", N.c_str(), buf, d.fail_at); bool ok = true; bool in_ctor = true; std::string failed;
            try {
                if (src) { auto b = mksrc(buf); in_ctor = false; MC_CHECK(D->streaming && D->rx, "protocol", "source: not receiving after construction"); MC_CHECK(D->freq == 100000000 && D->rate == 2000000 && D->lna == 32 && D->vga == 20 && D->amp == 1, "setting", "source: a setting does not reach the driver;%s", D->log.c_str());
                    auto upd = [&](const char* w, auto f, auto g, auto h, long was, long nu) { size_t c0 = D->calls; (void)c0; std::string f0 = D->failed; f(); bool bad = D->failed != f0; MC_CHECK((long)g() == (bad ? was : nu), "setting", "source: %s reads %ld after %s", w, (long)g(), bad ? "the driver refused it" : "a successful change"); MC_CHECK((long)h() == (bad ? was : nu), "setting", "source: %s is %ld in the driver", w, (long)h()); };
                    upd("frequency", [&] { b->set_frequency(433000000); }, [&] { return b->get_frequency(); }, [&] { return D->freq; }, 100000000, 433000000); upd("LNA gain", [&] { b->set_lna_gain(8); }, [&] { return b->get_lna_gain(); }, [&] { return D->lna; }, 32, 8); upd("VGA gain", [&] { b->set_vga_gain(6); }, [&] { return b->get_vga_gain(); }, [&] { return D->vga; }, 20, 6); upd("amplifier", [&] { b->set_amp_enable(false); }, [&] { return b->get_amp_enable(); }, [&] { return D->amp; }, 1, 0);
                    MC_CHECK(b->get_sample_rate() == 2000000, "setting", "source: sample rate reads %u", b->get_sample_rate()); }
                else { auto b = mksnk(buf); in_ctor = false; MC_CHECK(D->streaming && !D->rx, "protocol", "sink: not sending after construction"); MC_CHECK(D->freq == 100000000 && D->rate == 2000000 && D->tx == 20 && D->amp == 1, "setting", "sink: a setting does not reach the driver;%s", D->log.c_str()); }
            } catch (const std::exception& e) { ok = false; MC_CHECK(!D->failed.empty() || buf == 100, "spurious-error", "%s: construction fails (%s) although every driver call succeeds", N.c_str(), e.what()); }
            if (buf == 100) MC_CHECK(!ok, "unreported", "%s: a buffer too small for the driver path is accepted", N.c_str());
            bool cleanup = D->failed == "exit" || D->failed == "close" || D->failed.rfind("stop", 0) == 0;
            if (!D->failed.empty() && in_ctor && !cleanup) MC_CHECK(!ok, "unreported", "%s: failing %s is not reported;%s", N.c_str(), D->failed.c_str(), D->log.c_str());
            protocol_ok(N.c_str()); count_trans(); outcome(hmix(d.fail_at, ok)); state(hmix(std::hash<std::string>()(D->log), ok));
        });
    });
}
#endif
static void setup() {
    static std::ofstream nul; std::cout.rdbuf(nullptr);
    { Drv d; D = &d; { auto a = mksrc(); } { auto b = mksnk(); } }
    bool T = thorough();
#ifdef THR
    int B = T ? 3 : 2, S = T ? 2 : 1;
    for (size_t off : {(size_t)0, (size_t)509}) for (size_t gap : {(size_t)0, (size_t)1, (size_t)2, (size_t)511}) { rx_thr(off, gap, {2, 1}, 2, B, S, 512); if (T) rx_thr(off, gap, {1, 2, 1}, 3, 2, S, 512); }
    rx_thr(510, 1, {3}, 2, B, S, 2); rx_thr(3, 600, {2, 2}, 3, B, S, 512); rx_thr(0, 2, {4}, 1, B, S, 1);
    for (size_t off : {(size_t)0, (size_t)510}) for (size_t pre : {(size_t)0, (size_t)2, (size_t)4}) { tx_thr(off, pre, {2, 2}, 2, false, B, S); tx_thr(off, pre, {3}, 3, true, B, S); }
    tx_thr(100, 1, {1, 1, 1}, 2, false, B, S); tx_thr(0, 5, {2, 2}, 1, true, B, S);
    die(true, {2, 1, 1}, 2); die(false, {2, 1, 1}, 2);
#else
    rx_seq(0, T ? 7 : 5, 0); rx_seq(512, T ? 6 : 4, 1); rx_seq(1024, T ? 6 : 4, 0);
    tx_seq(0, T ? 6 : 5); tx_seq(1024, 4); convert(); faults(true); faults(false);
#endif
}
MC_MAIN(setup)
