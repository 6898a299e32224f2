// A02: frame detection in sample streams, at 2 and 2.4 MHz, and the decoder block around it. Exact-size heap buffers of
// every length, every frame position and sample phase, quiet patterns, every split of a stream over calls.
#include "mc.hpp"
#include "cler.hpp"
#include "desktop_blocks/adsb/adsb_decoder.hpp"
#include <memory>
#include <string>
#include <vector>
#include <cstring>
#include <thread>
using namespace mc;
typedef std::vector<uint8_t> Fr;
static int bitlen(int df) { return df == 16 || df == 17 || df == 20 || df == 21 || df == 24 ? 112 : 56; }
static uint32_t crc24(const Fr& f, int bits) { uint32_t r = 0; for (int i = 0; i < bits - 24; ++i) { int b = f[i / 8] >> (7 - i % 8) & 1; r = (r << 1) ^ (((r >> 23) & 1) ^ b ? 0xFFF409 : 0); r &= 0xFFFFFF; } return r; }
static const uint32_t AP = 0x4840D6;
static Fr frame(int df, int fill) {      // a valid frame: formats 11 and 17 by checksum, others by the overlay of aircraft AP
    int bits = bitlen(df); Fr f(bits / 8); uint32_t x = 77 + fill * 31 + df; for (auto& b : f) { x = x * 1664525 + 1013904223; b = fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 0xaa : fill == 3 ? 0x55 : x >> 24; }
    f[0] = df << 3 | (f[0] & 7); if (df == 11 || df == 17) { f[1] = 0x48; f[2] = 0x40; f[3] = 0xD6; }
    uint32_t c = crc24(f, bits) ^ (df == 11 || df == 17 ? 0 : AP); int n = bits / 8; f[n - 3] = c >> 16; f[n - 2] = c >> 8; f[n - 1] = c; return f;
}
static std::vector<int> chips(const Fr& f) { std::vector<int> c(16, 0); for (int k : {0, 2, 7, 9}) c[k] = 1; for (uint8_t b : f) for (int i = 7; i >= 0; --i) { c.push_back(b >> i & 1); c.push_back(!(b >> i & 1)); } return c; }
static std::string hex(const Fr& f) { std::string s; char b[4]; for (auto x : f) { snprintf(b, 4, "%02x", x); s += b; } return s; }
struct Ev { Fr f; int type, ok; };
static void on(mode_s_t*, mode_s_msg* mm, void* c) { ((std::vector<Ev>*)c)->push_back({Fr(mm->msg, mm->msg + mm->msgbits / 8), mm->msgtype, mm->crcok}); }
typedef std::vector<uint16_t> Sig;
// 12 MHz time base: a chip is 6 ticks, a 2 MHz sample 6 ticks, a 2.4 MHz sample 5 ticks
static void render(Sig& s, const Fr& f, int at, int tick, int amp) {
    auto c = chips(f); for (int k = at / tick; k < (int)s.size(); ++k) { int on = 0; for (int u = 0; u < tick; ++u) { int t = k * tick + u - at; if (t >= 0 && t / 6 < (int)c.size() && c[t / 6]) ++on; } int v = s[k] + amp * on / tick; s[k] = v > 65535 ? 65535 : v; if (k * tick > at + 6 * (int)c.size()) break; }
}
static uint64_t NE;
#ifdef THR
#define ONE (void)0              // the cases of this part are schedules
#else
#define ONE ++NE
#endif
static std::unique_ptr<mode_s_t> mk() { std::unique_ptr<mode_s_t> m(new mode_s_t); mode_s_init(m.get()); return m; }
static void teach(mode_s_t* m) { Fr f = frame(11, 0); f.resize(14); mode_s_msg mm; mode_s_decode(m, &mm, f.data()); MC_CHECK(mm.crcok, "harness", "teaching failed"); }
static std::vector<Ev> detect(mode_s_t* m, const Sig& s, bool r24) {       // on a heap copy of exactly this size
    uint16_t* p = (uint16_t*)malloc(s.size() * 2 + (s.empty())); memcpy(p, s.data(), s.size() * 2); std::vector<Ev> e;
    uint16_t* q = s.empty() ? p + 0 : p; if (r24) mode_s_detect_2400(m, q, s.size(), on, &e); else mode_s_detect(m, q, s.size(), on, &e);
    MC_CHECK(s.empty() || !memcmp(p, s.data(), s.size() * 2), "buffer-changed", "the samples were changed by the detection"); free(p); ONE;
    for (auto& x : e) MC_CHECK(x.ok || !m->check_crc, "bad-reported", "frame %s with a wrong checksum was reported", hex(x.f).c_str());
    return e;
}
static std::string list(const std::vector<Ev>& e) { std::string s; for (auto& x : e) s += " " + hex(x.f); return s.empty() ? " nothing" : s; }
static void expect(const std::vector<Ev>& e, const std::vector<Fr>& want, const std::string& what) {
    bool ok = e.size() == want.size(); for (size_t i = 0; ok && i < e.size(); ++i) ok = e[i].f == want[i] && e[i].type == want[i][0] >> 3;
    if (!ok) { std::string w; for (auto& x : want) w += " " + hex(x); MC_CHECK(false, e.size() < want.size() ? "missed" : "reported", "%s: reported%s, the stream holds%s", what.c_str(), list(e).c_str(), w.c_str()); }
}
static void flush() { count_eval(NE); count_trans(NE); NE = 0; }
static const int DFS[] = {17, 11, 0, 4, 5, 16, 20, 21, 24};
static std::string S(long v) { return std::to_string(v); }

// ---- the decoder block
struct Stream { Sig s; std::vector<Fr> fr; };
static Stream stream(bool r24, int amp, int which) {
    static const int SEQ[4][6] = {{17, 11, 17, 4, 20, 5}, {11, 17, 17, 11, 21, 17}, {17, 17, 17, 17, 17, 17}, {11, 11, 0, 16, 24, 11}}; static const int GAP[] = {1, 3, 250, 17, 2, 40};
    Stream r; int at = 40; for (int i = 0; i < 6; ++i) { Fr f = frame(SEQ[which][i], 4 + i + which); r.fr.push_back(f); int len = 16 + f.size() * 16; int t = at * 6 + (r24 ? i : 0); 
        size_t end = (t + len * 6) / (r24 ? 5 : 6) + 2; if (r.s.size() < end) r.s.resize(end); render(r.s, f, t, r24 ? 5 : 6, amp); at += len + GAP[i]; }
    r.s.resize(r.s.size() + 320); return r;
}
struct BlockRun {
    ADSBDecoderBlock b; cler::Channel<mode_s_msg> out; bool r24; size_t fed = 0, given = 0; std::vector<Ev> got; const Sig* s; size_t window;
    BlockRun(bool r, size_t cap, const Sig& sig, uint32_t filter) : b("adsb", r ? ADSBDecoderBlock::SampleRateMode::RATE_2_4MHZ : ADSBDecoderBlock::SampleRateMode::RATE_2MHZ, filter), out(cap), r24(r), s(&sig), window(r ? 300 : 240) {}
    void feed(size_t n) { n = std::min({n, b.in.space(), s->size() - fed}); size_t k = b.in.writeN(s->data() + fed, n); MC_CHECK(k == n, "harness", "feeding failed"); fed += n; }
    void drain(size_t n) { mode_s_msg m; while (n-- && out.size()) { out.pop(m); got.push_back({Fr(m.msg, m.msg + m.msgbits / 8), m.msgtype, m.crcok}); } }
    bool call(const std::string& what) {
        size_t in0 = b.in.size(), sp = out.space(); auto r = b.procedure(&out); ONE; size_t in1 = b.in.size();
        MC_CHECK(in1 <= in0, "consumed", "%s: input grew", what.c_str());
        if (!r.is_ok()) {
            auto e = r.unwrap_err(); MC_CHECK(e == cler::Error::NotEnoughSamples || e == cler::Error::NotEnoughSpace, "error", "%s: unexpected error %d", what.c_str(), (int)e);
            MC_CHECK(in1 == in0 && out.space() == sp, "error-moved", "%s: the call failed but moved samples", what.c_str());
            if (e == cler::Error::NotEnoughSpace) MC_CHECK(sp == 0, "error", "%s: no space reported although %zu messages fit", what.c_str(), sp);
            else MC_CHECK(in0 < 310, "error", "%s: not enough samples reported with %zu available", what.c_str(), in0);
            return false;
        }
        MC_CHECK(in1 < in0 || out.space() < sp, "no-progress", "%s: the call succeeded without moving anything (input %zu, space %zu)", what.c_str(), in0, sp);
#ifndef THR
        state(hmix(hmix(in0, in1), sp));
#endif
        return true;
    }
    void finish(const std::vector<Fr>& want, const std::string& what) {
        for (int i = 0; i < 20000; ++i) { feed(100000); drain(100000); if (!call(what) && fed == s->size() && out.size() == 0) { drain(9); expect(got, want, what); return; } }
        MC_CHECK(false, "stalled", "%s: input remains and output has room, but the block does not come to an end", what.c_str());
    }
};
static std::vector<Fr> filtered(const Stream& st, uint32_t f) { std::vector<Fr> r; for (auto& x : st.fr) if (f >> (x[0] >> 3) & 1) r.push_back(x); return r; }

#ifndef THR
static void setup() {
    bool T = thorough();
    for (int r24 = 0; r24 < 2; ++r24) for (int c = 0; c < 12; ++c) scenario(std::string("lengths ") + (r24 ? "2.4 MHz" : "2 MHz") + " content " + S(c), [=] {
        auto m = mk(); teach(m.get());
        for (int len = 0; len <= (T ? 900 : 560); ++len) for (int var = 0; var < (c >= 4 && c <= 9 ? 8 : 1); ++var) {
            Sig s(len); uint32_t x = 5 + c;
            for (int i = 0; i < len; ++i) { x = x * 1664525 + 1013904223; s[i] = c == 0 ? 0 : c == 1 ? 65535 : c == 2 ? (i & 1 ? 65535 : 0) : c == 3 ? x >> 16 : c == 10 ? (i % 16 == 0 || i % 16 == 2 || i % 16 == 7 || i % 16 == 9 ? 60000 : 0) : c == 11 ? (i % 19 == 1 || i % 19 == 3 || i % 19 == 9 || i % 19 == 12 ? 60000 : (x >> 24)) : 0; }
            if (c >= 4 && c <= 9) { int at = len - (c & 1 ? 120 : 240) + var * 7 - 28; if (at < 0) at = 0; Sig t(len + 700); render(t, frame(DFS[c - 4], var), at * (r24 ? 5 : 6) + var % 5, r24 ? 5 : 6, c > 7 ? 65535 : 9000); t.resize(len); s = t; }
            for (int aggr = 0; aggr < 2; ++aggr) { m->aggressive = aggr; m->check_crc = !aggr; if (aggr && !T && len % 4) continue; detect(m.get(), s, r24); }
            m->aggressive = 0; m->check_crc = 1;
            state(hmix(len, c));
        }
        flush(); outcome(c);
    });
    for (int r24 = 0; r24 < 2; ++r24) for (int df : DFS) scenario(std::string("positions ") + (r24 ? "2.4 MHz" : "2 MHz") + " df" + S(df), [=] {
        auto m = mk(); int tick = r24 ? 5 : 6;
        for (int fill = 0; fill < 6; ++fill) for (int amp : {1400, 9000, 30000, 65535}) for (int quiet = 0; quiet < 5; ++quiet) {
            teach(m.get()); Fr f = frame(df, fill); int need = r24 ? 300 : 240;
            for (int off = r24 ? 5 : 0; off < (T ? 330 : 40); ++off) for (int ph = 0; ph < (r24 ? 5 : 1); ++ph) for (int tail : {0, 1, 60}) {
                if (!T && tail == 60 && off > 10) continue;
                int start = off * tick + ph; int first = r24 ? off - 1 : off; Sig s(first + need + tail + (r24 ? 1 : 0)); int q = amp / 20;
                render(s, f, start, tick, amp - q); int b = start / tick, e = (start + (16 + (int)f.size() * 16) * 6 + tick - 1) / tick;
                for (int i = 0; i < (int)s.size(); ++i) if (i < b || i >= e) s[i] = quiet == 0 ? 0 : quiet == 1 ? q / 2 : quiet == 2 ? (i & 1 ? q / 2 : 0) : quiet == 3 ? (i % 3 ? 0 : q) : (i * 7 % 11) * q / 11;
                if (r24 && quiet) for (int i = b > 0 ? b - 1 : 0; i < b; ++i) s[i] = 0;
                expect(detect(m.get(), s, r24), {f}, std::string("frame at sample ") + S(off) + " phase " + S(ph) + " amplitude " + S(amp) + " quiet pattern " + S(quiet) + " buffer " + S(s.size()));
                state(hmix(off * 5 + ph, s.size()));
            }
        }
        flush(); outcome(df * 2 + r24);
    });
    // every pattern of small pulses in the samples around the frame
    for (int r24 = 0; r24 < 2; ++r24) for (int df : {17, 11, 20}) scenario(std::string("pulses ") + (r24 ? "2.4 MHz" : "2 MHz") + " df" + S(df), [=] {
        auto m = mk(); teach(m.get()); int tick = r24 ? 5 : 6; int N = T ? 16 : 12;
        for (int ph = 0; ph < (r24 ? 5 : 1); ++ph) for (int pat = 0; pat < 1 << N; ++pat) {
            int start = 40 * tick + ph; Fr f = frame(df, 4 + pat % 3); Sig s(40 + 300 + 40); render(s, f, start, tick, 20000); int b = start / tick, e = (start + (16 + (int)f.size() * 16) * 6 + tick - 1) / tick;
            for (int i = 0; i < N; ++i) if (pat >> i & 1) { if (b - 2 - i >= 0) s[b - 2 - i] = 1000; s[e + 1 + i] = 1000; }
            expect(detect(m.get(), s, r24), {f}, "frame at phase " + S(ph) + " with pulses " + S(pat)); state(pat);
        }
        flush(); outcome(df * 2 + r24);
    });
    // a frame whose repair is permitted: every single wrong bit
    scenario("wrong bits 2 MHz", [=] {
        auto m = mk(); for (int df : DFS) { teach(m.get()); Fr f = frame(df, 5); for (int bit = 5; bit < (int)f.size() * 8; ++bit) { Fr g = f; g[bit / 8] ^= 0x80 >> (bit % 8); Sig s(340); render(s, g, 30 * 6, 6, 9000);
            auto e = detect(m.get(), s, false); if (df == 11 || df == 17) expect(e, {f}, "frame with wrong bit " + S(bit)); else expect(e, {}, "frame with wrong bit " + S(bit)); state(hmix(df, bit)); } }
        flush();
    });
    // two and three frames, all gaps; a spoiled first frame must not hide the next one
    for (int r24 = 0; r24 < 2; ++r24) scenario(std::string("sequences ") + (r24 ? "2.4 MHz" : "2 MHz"), [=] {
        auto m = mk(); int tick = r24 ? 5 : 6;
        for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) for (int gap = (r24 ? 2 : 1); gap < (T ? 60 : 24); ++gap) for (int spoil = 0; spoil < 3; ++spoil) {
            teach(m.get()); Fr f = frame(DFS[a], 4 + gap % 3), g = frame(DFS[b], 5 + gap % 4); int at = 33 * 6 + gap % 7 * (r24 ? 1 : 6), at2 = at + (16 + (int)f.size() * 16 + gap) * 6;
            Sig s((at2 + (16 + (int)g.size() * 16) * 6) / tick + 320); Fr h = f; if (spoil == 1) { h[f.size() - 1] ^= 0x11; h[2] ^= 0x24; } 
            render(s, h, at, tick, 15000); if (spoil == 2) for (int i = at / tick + (r24 ? 22 : 17) ; i < at2 / tick - 1; ++i) s[i] = 0; 
            render(s, g, at2, tick, 15000); std::vector<Fr> w; if (!spoil) w.push_back(f); w.push_back(g);
            expect(detect(m.get(), s, r24), w, std::string(spoil == 0 ? "" : spoil == 1 ? "spoiled " : "truncated ") + "df" + S(DFS[a]) + " then df" + S(DFS[b]) + " after " + S(gap) + " quiet half-microseconds"); state(hmix(a * 9 + b, gap * 3 + spoil));
        }
        flush();
    });
    // ---- the block: every split of a stream over two calls, pairs of splits, output sizes, filters
    for (int r24 = 0; r24 < 2; ++r24) for (int which = 0; which < 4; ++which) scenario(std::string("block splits ") + (r24 ? "2.4 MHz" : "2 MHz") + " stream " + S(which), [=] {
        Stream st = stream(r24, 20000, which); int n = st.s.size();
        for (int a = 0; a <= n; a += T ? 1 : 1 + (which > 0) * 2) for (size_t cap : {(size_t)1, (size_t)2, (size_t)8}) {
            BlockRun r(r24, cap, st.s, 0xFFFFFFFF); std::string w = "stream fed up to sample " + S(a) + " first, output " + S(cap);
            { mode_s_msg mm; (void)mm; }
            r.feed(a); if (cap > 1) r.call(w); else while (r.call(w)) {} 
            r.finish(st.fr, w);
        }
        int st2 = T ? 31 : 97;
        for (int a = which; a < n; a += st2) for (int b = 0; b < n - a; b += st2) for (int dr = 0; dr < 3; ++dr) {
            BlockRun r(r24, 1 + dr, st.s, 0xFFFFFFFF); std::string w = "stream fed in pieces " + S(a) + " " + S(b) + ", output " + S(1 + dr);
            r.feed(a); r.call(w); r.drain(dr); r.call(w); r.feed(b); r.call(w); r.drain(1); r.call(w); r.finish(st.fr, w);
        }
        flush(); outcome(which * 2 + r24);
    });
    for (int r24 = 0; r24 < 2; ++r24) scenario(std::string("block filter ") + (r24 ? "2.4 MHz" : "2 MHz"), [=] {
        for (int which = 0; which < 4; ++which) { Stream st = stream(r24, 20000, which);
            std::vector<uint32_t> fs = {0xFFFFFFFF, 1u << 17 | 1u << 11, 1u << 4 | 1u << 20, 0x7fffffff}; for (int i = 0; i < 32; ++i) { fs.push_back(1u << i); fs.push_back(~(1u << i)); }
            for (uint32_t f : fs) for (int late = 0; late < 2; ++late) for (int ch : {100, 350, 2000}) { BlockRun r(r24, 2, st.s, late ? 1u << 17 : f); if (late) r.b.set_df_filter(f); std::string w = "filter " + hex(Fr{(uint8_t)(f >> 24), (uint8_t)(f >> 16), (uint8_t)(f >> 8), (uint8_t)f}) + " chunks " + S(ch);
                for (int i = 0; i < 30; ++i) { r.feed(ch); r.call(w); r.drain(1); } r.finish(filtered(st, f), w); outcome(f); } }
        flush();
    });
    // a long stream through the block's ring: the same frames at many ring positions, two blocks in turn
    for (int r24 = 0; r24 < 2; ++r24) scenario(std::string("block ring ") + (r24 ? "2.4 MHz" : "2 MHz"), [=] {
        for (int ch : {239, 240, 300, 301, 511, 1024, 2047, 4000}) { Stream a = stream(r24, 20000, 0), b = stream(r24, 30000, 1); Sig la, lb; std::vector<Fr> fa, fb; for (int i = 0; i < 12; ++i) { la.insert(la.end(), a.s.begin(), a.s.end()); lb.insert(lb.end(), b.s.begin(), b.s.end()); fa.insert(fa.end(), a.fr.begin(), a.fr.end()); fb.insert(fb.end(), b.fr.begin(), b.fr.end()); }
            BlockRun x(r24, 4, la, 0xFFFFFFFF), y(r24, 4, lb, 0xFFFFFFFF); std::string w = "long stream in chunks of " + S(ch);
            for (int i = 0; i < 200; ++i) { x.feed(ch); y.feed(ch); x.call(w); y.call(w); x.drain(i % 4); y.drain(3); } x.finish(fa, w); y.finish(fb, w); state(ch); }
        flush();
    });
}
#else
static void setup() {
    { mode_s_t* m = mk().release(); teach(m); delete m; }
    for (int r24 = 0; r24 < 2; ++r24) scenario(std::string("filter changed while decoding ") + (r24 ? "2.4 MHz" : "2 MHz"), [=] {
        Opts o; o.threads = true; o.bound = thorough() ? 3 : 2; o.stale = 1;
        explore(o, [=] {
            Stream st; Fr f = frame(17, 5), g = frame(11, 4); st.fr = {f, g, f}; st.s.resize(1300); render(st.s, f, 20 * 6, r24 ? 5 : 6, 20000); render(st.s, g, 300 * 6, r24 ? 5 : 6, 20000); render(st.s, f, 450 * 6, r24 ? 5 : 6, 20000);
            BlockRun r(r24, 2048, st.s, 1u << 17);
            std::thread t([&] { r.b.set_df_filter(1u << 11); });
            for (size_t piece : {(size_t)400, (size_t)340, (size_t)560}) { r.feed(piece); r.call("filter changed"); }
            t.join(); r.drain(9);
            // frames of type 17 while the old filter was in force, then those of type 11 only
            std::string seq; for (auto& e : r.got) seq += e.type == 17 ? 'A' : 'B';
            MC_CHECK(seq == "AA" || seq == "ABA" || seq == "AB" || seq == "B" || seq == "A" || seq == "", "filter", "the filter was changed from 17 to 11 once, but the frames 17, 11, 17 came out as %s", seq.c_str());
            MC_CHECK(seq != "ABA", "filter", "a frame of type 17 passed after the filter was changed to 11");
            outcome(std::hash<std::string>()(seq));
        });
    });
    for (int r24 = 0; r24 < 2; ++r24) scenario(std::string("two decoders ") + (r24 ? "2.4 MHz" : "2 MHz"), [=] {
        Opts o; o.threads = true; o.bound = thorough() ? 3 : 1;
        explore(o, [=] {
            Sig s1(700), s2(700); Fr f = frame(17, 5), g = frame(11, 4); render(s1, f, 20 * 6, r24 ? 5 : 6, 20000); render(s2, g, 25 * 6, r24 ? 5 : 6, 20000);
            BlockRun x(r24, 1024, s1, 0xFFFFFFFF), y(r24, 1024, s2, 0xFFFFFFFF); x.feed(700); y.feed(700);
            std::thread t([&] { x.call("first"); x.call("first"); }); y.call("second"); y.call("second"); t.join(); x.drain(3); y.drain(3);
            expect(x.got, {f}, "first of two decoders"); expect(y.got, {g}, "second of two decoders"); outcome(x.got.size() * 4 + y.got.size());
        });
    });
}
#endif
MC_MAIN(setup)
