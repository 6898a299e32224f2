// A06: GMSK modem. Modulator: every order of queueing, room and calls; demodulator: every split, offset, damage and callback answer of streams of frames.
#include "chunk.hpp"
#include "blob.hpp"
#include "ezgmsk/ezgmsk_mod.hpp"
#include "ezgmsk/ezgmsk_demod.hpp"
#include <thread>
#include <set>
typedef std::vector<uint8_t> Bytes;
struct Cfg { unsigned k, m, pre; float bt = 0.3f; std::string str() const { char b[80]; snprintf(b, sizeof b, "k=%u m=%u preamble %u", k, m, pre); return b; } };

// reference frame: alternating preamble, bits of the bytes most significant first, 2m tail symbols (any bits), ramps over m symbols
struct Ref {
    Cfg c; explicit Ref(Cfg c_) : c(c_) {}
    size_t len(size_t n) const { return (size_t)(c.pre + 8 * n + 2 * c.m) * c.k; }
    float ramp(long i) const { return liquid_hamming((unsigned)i, 2 * c.m * c.k); }
    std::vector<cf> make(const Bytes& d, unsigned tail = 0) const {
        std::vector<cf> o; gmskmod g = gmskmod_create(c.k, c.m, c.bt); std::vector<cf> y(c.k);
        auto put = [&](unsigned bit, long up, long down) { gmskmod_modulate(g, bit, y.data()); for (unsigned i = 0; i < c.k; ++i) { if (up >= 0 && up < (long)c.m) y[i] *= ramp(up * c.k + i); if (down >= (long)c.m) y[i] *= ramp(c.m * c.k + (down - c.m) * c.k + i); o.push_back(y[i]); } };
        for (unsigned i = 0; i < c.pre; ++i) put(i & 1, i, -1);
        for (uint8_t b : d) for (int i = 7; i >= 0; --i) put(b >> i & 1, -1, -1);
        for (unsigned i = 0; i < 2 * c.m; ++i) put(tail >> i & 1, -1, i);
        gmskmod_destroy(g); return o;
    }
    // "" or what is wrong with the samples
    std::string diff(const cf* s, size_t n, const Bytes& d) const {
        char b[200]; if (n != len(d.size())) { snprintf(b, sizeof b, "%zu samples instead of %zu", n, len(d.size())); return b; }
        size_t body = (size_t)(c.pre + 8 * d.size()) * c.k; std::vector<unsigned> cand{0};
        auto near = [](cf x, cf y) { return std::abs(x - y) < 1e-3f; };
        { auto r = make(d); for (size_t i = 0; i < body; ++i) if (!near(s[i], r[i])) { snprintf(b, sizeof b, "sample %zu (symbol %zu) is (%.3f,%.3f) instead of (%.3f,%.3f)", i, i / c.k, s[i].real(), s[i].imag(), r[i].real(), r[i].imag()); return b; } }
        for (unsigned t = 0; t < 2 * c.m; ++t) {             // tail: the bits are free
            std::vector<unsigned> nx; for (unsigned x : cand) for (unsigned bit = 0; bit < 2; ++bit) { unsigned y = x | bit << t; auto r = make(d, y); bool ok = true; for (unsigned i = 0; i < c.k && ok; ++i) ok = near(s[body + t * c.k + i], r[body + t * c.k + i]); if (ok) nx.push_back(y); }
            if (nx.empty()) { snprintf(b, sizeof b, "tail symbol %u is no ramped GMSK symbol", t); return b; } if (nx.size() > 4) nx.resize(4); cand = nx;
        }
        return "";
    }
};
static Bytes content(int seed, size_t n) { Bytes b(n); for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(hmix(seed * 131 + 7, i) >> 13); return b; }

#ifndef THR
// ---------------------------------------------------------------- modulator
static void mod_case(Cfg c, std::vector<size_t> lens, size_t cap, size_t nslots, int depth, size_t qcap = 8) {
    std::string N = "modulator " + c.str() + ", output of " + std::to_string(cap) + ", queue of " + std::to_string(qcap);
    scenario(N, [=] {
        Opts o; o.full = 1; Ref ref(c); sample("%s", N.c_str());
        explore(o, [=] {
            Slab slab(nslots, 64); cler::Channel<cf> out(cap); auto blk = std::make_unique<EZGmskModBlock>("mod", c.k, c.m, c.bt, c.pre, qcap);
            std::vector<Bytes> queued; size_t sent = 0, room = out.space(), used = 0; std::string hist; int seed = 0; std::vector<cf> got; std::vector<Bytes> due; uint64_t h = 0;
            size_t junk = choose(3); junk = junk ? room - ref.len(lens[0]) + junk - 1 : 0; { std::vector<cf> z(junk, cf(3, 3)); if (junk) out.writeN(z.data(), junk); used = junk; char b[40]; snprintf(b, sizeof b, " (%zu in the output)", junk); hist = b; }   // room for exactly one frame, or for one sample less
            auto verify = [&] {                              // everything taken from the output must be whole frames in order (the last maybe partly drained)
                size_t pos = junk; for (size_t i = 0; i < due.size(); ++i) { size_t L = ref.len(due[i].size()); if (pos + L > got.size()) break; auto w = ref.diff(got.data() + pos, L, due[i]); MC_CHECK(w.empty(), "frame", "%s:%s: frame %zu (%zu bytes): %s", N.c_str(), hist.c_str(), i, due[i].size(), w.c_str()); pos += L; }
            };
            auto drain = [&](size_t n) { n = std::min(n, out.size()); if (!n) return; size_t o = got.size(); got.resize(o + n); out.readN(got.data() + o, n); used -= n; };
            for (int st = 0; st < depth; ++st) {
                std::vector<int> en; int nl = (int)lens.size(); for (int q = 0; q < nl + 4; ++q) if (q < nl ? queued.size() < std::min(nslots, qcap) : q == nl || used) en.push_back(q);
                int a = en[choose((int)en.size())]; char b[40];
                if (a < (int)lens.size()) {
                    auto r = slab.take_slot(); MC_CHECK(r.is_ok() && blk->in.space() > 0, "slots", "%s:%s: no slot or no room in the queue with %zu buffers queued", N.c_str(), hist.c_str(), queued.size());
                    Blob bl = r.unwrap(); Bytes d = content(++seed, lens[a]); if (!d.empty()) memcpy(bl.data, d.data(), d.size()); bl.len = d.size(); blk->in.push(bl); queued.push_back(d); snprintf(b, sizeof b, " queue(%zu)", d.size()); hist += b;
                } else if (a == (int)lens.size()) {
                    hist += " call"; note("%s:%s", N.c_str(), hist.c_str());
                    (void)blk->procedure(&out);
                    size_t n = 0; while (n < queued.size() && used + ref.len(queued[n].size()) <= room) { used += ref.len(queued[n].size()); due.push_back(queued[n]); n++; }
                    queued.erase(queued.begin(), queued.begin() + n); sent += n;
                    MC_CHECK(out.size() == used, "sent", "%s:%s: %zu samples in the output instead of %zu (room for %zu, %zu buffers still queued)", N.c_str(), hist.c_str(), out.size(), used, room, queued.size());
                    MC_CHECK(blk->in.size() == queued.size(), "queue", "%s:%s: %zu buffers queued instead of %zu", N.c_str(), hist.c_str(), blk->in.size(), queued.size());
                    MC_CHECK(slab.available_slots() == nslots - queued.size(), "slots", "%s:%s: %zu of %zu slots free with %zu buffers queued", N.c_str(), hist.c_str(), slab.available_slots(), nslots, queued.size());
                } else { size_t n = a == (int)lens.size() + 1 ? 37 : a == (int)lens.size() + 2 ? 200 : out.size(); drain(n); snprintf(b, sizeof b, " drain(%zu)", n); hist += b; }
                h = hmix(h, a); state(hmix(used, queued.size()));
            }
            drain(out.size()); verify(); MC_CHECK(used == 0, "sent", "%s:%s: output not empty", N.c_str(), hist.c_str());
            for (int t = 0; t < 20 && !queued.empty(); ++t) { (void)blk->procedure(&out); size_t n = 0; while (n < queued.size() && used + ref.len(queued[n].size()) <= room) { used += ref.len(queued[n].size()); due.push_back(queued[n]); n++; } queued.erase(queued.begin(), queued.begin() + n); MC_CHECK(out.size() == used, "sent", "%s:%s call: %zu samples instead of %zu", N.c_str(), hist.c_str(), out.size(), used); drain(out.size()); }
            hist += " (all)"; verify(); MC_CHECK(slab.available_slots() == nslots, "slots", "%s:%s: %zu of %zu slots free at the end", N.c_str(), hist.c_str(), slab.available_slots(), nslots);
            count_trans(depth); outcome(hmix(due.size(), got.size()));
        });
    });
}
// contents: every byte value, all lengths to the largest, one after the other through one modulator
static void mod_contents(Cfg c, size_t maxlen) {
    std::string N = "modulator contents " + c.str();
    scenario(N, [=] {
        Ref ref(c); sample("%s", N.c_str());
        Slab slab(2, 300); EZGmskModBlock blk("mod", c.k, c.m, c.bt, c.pre, 2); cler::Channel<cf> out(1 << 16);
        auto one = [&](const Bytes& d) {
            auto r = slab.take_slot(); Blob b = r.unwrap(); if (!d.empty()) memcpy(b.data, d.data(), d.size()); b.len = d.size(); blk.in.push(b); (void)blk.procedure(&out); std::vector<cf> got(out.size()); if (!got.empty()) out.readN(got.data(), got.size());
            auto w = ref.diff(got.data(), got.size(), d); MC_CHECK(w.empty(), "frame", "%s: %zu bytes %02x%02x..: %s", N.c_str(), d.size(), d.empty() ? 0 : d[0], d.size() < 2 ? 0 : d[1], w.c_str()); count_eval(1); state(hmix(d.size(), d.empty() ? 0 : d[0]));
        };
        for (int v = 0; v < 256; ++v) one({(uint8_t)v}); for (int v = 0; v < 65536; v += thorough() ? 17 : 1021) one({(uint8_t)(v >> 8), (uint8_t)v});
        for (size_t n = 0; n <= maxlen; ++n) { one(content((int)n, n)); if (n % 3 == 0) one({}); } for (size_t n = maxlen; n > 0; --n) one(content((int)n + 999, n));
        Bytes z(40, 0), f(40, 255); one(z); one(f); one(z);
    });
}

// ---------------------------------------------------------------- demodulator
struct Ev { unsigned at; int st; Bytes hdr, pay; bool operator==(const Ev& o) const { return at == o.at && st == o.st && hdr == o.hdr && pay == o.pay; } };
struct Rx { std::vector<Ev> ev; int answer = -2; size_t hl = 1; std::vector<int> answers; size_t nans = 0; };
static int on_rx(unsigned at, ezgmsk::ezgmsk_demod_state_en st, unsigned char* h, unsigned char* p, unsigned n, float, float, void* u) {
    Rx& r = *(Rx*)u; Ev e{at, (int)st, {}, {}}; if (h) e.hdr.assign(h, h + r.hl); if (p) e.pay.assign(p, p + n); r.ev.push_back(e);
    if (st != ezgmsk::EZGMSK_DEMOD_STATE_RXHEADER) return 0;
    if (r.nans < r.answers.size()) return r.answers[r.nans++];
    return h[r.hl - 1];
}
struct Link { Cfg c; Bytes sync; size_t hl, maxpay; std::string str() const { return c.str() + ", sync " + std::to_string(sync.size()) + ", header " + std::to_string(hl) + ", payload to " + std::to_string(maxpay); } };
static std::vector<uint8_t> bits(const Bytes& b) { std::vector<uint8_t> v; for (uint8_t x : b) for (int i = 7; i >= 0; --i) v.push_back(x >> i & 1); return v; }
struct Demod {
    Rx rx; std::unique_ptr<EZGmskDemodBlock> d;
    Demod(const Link& l, size_t cap_ = 0) { rx.hl = l.hl; auto s = bits(l.sync); d = std::make_unique<EZGmskDemodBlock>("demod", l.c.k, l.c.m, l.c.bt, l.c.pre / 2, s.data(), (unsigned)s.size(), (unsigned)l.hl, (unsigned)l.maxpay, on_rx, &rx, 0.9f, 0.1f, cap_); std::fill(s.begin(), s.end(), 9); }
    void feed(const cf* p, size_t n) { while (n) { size_t k = std::min(n, d->in.space()); d->in.writeN(p, k); (void)d->procedure(); MC_CHECK(d->in.size() == 0, "consumed", "%zu samples are left in the input", d->in.size()); p += k; n -= k; } }
};
static Bytes frame(const Link& l, const Bytes& pay, int seed = 1) { Bytes b = l.sync; Bytes h = content(seed * 7 + 3, l.hl - 1); b.insert(b.end(), h.begin(), h.end()); b.push_back((uint8_t)pay.size()); b.insert(b.end(), pay.begin(), pay.end()); return b; }
static void add(std::vector<cf>& s, const std::vector<cf>& f) { s.insert(s.end(), f.begin(), f.end()); }
static void quiet(std::vector<cf>& s, size_t n) { s.insert(s.end(), n, cf(0, 0)); }
// the received frames: detection, sync, header, payload for each; "" or what is wrong
static std::string frames_are(const std::vector<Ev>& ev, const std::vector<std::pair<Bytes, Bytes>>& want) {
    char b[160]; size_t n = 0; int prev = 3; unsigned at = 0;
    for (auto& e : ev) {
        if (e.at < at) return "events go back in time"; at = e.at;
        if (e.st == 0) { prev = 0; continue; }
        if (e.st != prev + 1) { snprintf(b, sizeof b, "state %d is reported after state %d", e.st, prev); return b; } prev = e.st;
        if (e.st >= 2 && n >= want.size()) return "a frame too many";
        if (e.st >= 2 && e.hdr != want[n].first) { snprintf(b, sizeof b, "frame %zu: wrong header (%02x..)", n, e.hdr.empty() ? 0 : e.hdr[0]); return b; }
        if (e.st == 3) { if (e.pay != want[n].second) { snprintf(b, sizeof b, "frame %zu: wrong payload (%zu bytes instead of %zu, %02x..)", n, e.pay.size(), want[n].second.size(), e.pay.empty() ? 0 : e.pay[0]); return b; } n++; }
    }
    if (n != want.size()) { snprintf(b, sizeof b, "%zu frames of %zu received", n, want.size()); return b; } return "";
}
static std::pair<Bytes, Bytes> hp(const Link& l, const Bytes& f) { return {Bytes(f.begin() + l.sync.size(), f.begin() + l.sync.size() + l.hl), Bytes(f.begin() + l.sync.size() + l.hl, f.end())}; }

// every payload value / length, quiet gaps, offsets, gains through one receiver
static void rx_contents(Link l) {
    std::string N = "receiver contents " + l.str();
    scenario(N, [=] {
        Ref ref(l.c); sample("%s", N.c_str()); int seed = 0;
        auto run = [&](const std::vector<Bytes>& pays, size_t lead, size_t gap, float gain, float phase, const char* what, float df = 0) {
            std::vector<cf> s; std::vector<std::pair<Bytes, Bytes>> want; quiet(s, lead); ++seed; for (size_t i = 0; i < pays.size(); ++i) { Bytes f = frame(l, pays[i], seed + (int)i); add(s, ref.make(f, (unsigned)hmix(seed, i) & 63)); want.push_back(hp(l, f)); quiet(s, gap); } quiet(s, 2 * l.c.k * l.c.m);
            { size_t i = 0; for (auto& x : s) x *= std::polar(gain, phase + df * (float)i++); } Demod d(l); d.feed(s.data(), s.size()); auto w = frames_are(d.rx.ev, want);
            MC_CHECK(w.empty(), "receive", "%s: %s (%zu frames, payload %zu, lead %zu, gap %zu, gain %g, phase %g, offset %g): %s", N.c_str(), what, pays.size(), pays[0].size(), lead, gap, gain, phase, df, w.c_str()); count_eval(1); outcome(hmix(hmix(pays.size(), pays[0].size()), pays[0].empty() ? 0 : pays[0][0]));
        };
        for (int v = 0; v < 256; ++v) run({{(uint8_t)v}, {(uint8_t)~v, (uint8_t)v}}, 5, 0, 1, 0, "byte values");
        for (size_t n = 1; n <= l.maxpay; ++n) run({content((int)n, n), content((int)n + 5, l.maxpay + 1 - n)}, 0, n % 7, 1, 0, "lengths");
        for (size_t lead = 0; lead < (thorough() ? 300 : 70); ++lead) run({content(3, 4), content(4, 6), content(5, 1)}, lead, lead * 5 % 23, 1, 0, "offsets");
        for (size_t gap = 0; gap < (thorough() ? 300 : 70); ++gap) run({content(3, 2), content(4, 2), content(5, 2)}, 3, gap, 1, 0, "gaps");
        for (float g : {0.001f, 0.1f, 0.5f, 2.0f, 100.0f}) for (int p = 0; p < 8; ++p) run({content(6, 5), content(7, 3)}, 11, 9, g, p * 0.785f, "gains and phases"); if (l.c.k == 2) for (int q = -8; q <= 8; ++q) run({content(8, 5), content(9, 3), content(10, 7)}, 11, 9, 1, 0.3f, "carrier offsets", q * 0.01f / l.c.k);
    });
}
// the same stream in every split: the events must be the same, at the same sample
static void rx_splits(Link l, bool pairs) {
    std::string N = std::string("receiver splits ") + (pairs ? "(pairs) " : "") + l.str();
    scenario(N, [=] {
        Ref ref(l.c); std::vector<cf> s; std::vector<std::pair<Bytes, Bytes>> want; quiet(s, 7); for (int i = 0; i < 3; ++i) { Bytes f = frame(l, content(40 + i, 1 + i * 2), i); add(s, ref.make(f, i * 5)); want.push_back(hp(l, f)); quiet(s, i * 3); } quiet(s, 2 * l.c.k * l.c.m + 3); sample("%s: %zu samples", N.c_str(), s.size());
        Demod b(l, 1 << 14); b.feed(s.data(), s.size()); { auto w = frames_are(b.rx.ev, want); MC_CHECK(w.empty(), "receive", "%s: in one piece: %s", N.c_str(), w.c_str()); }
        auto cmp = [&](Demod& d, const char* how) { count_eval(1); if (d.rx.ev == b.rx.ev) return; auto w = frames_are(d.rx.ev, want); fail("split", "%s: %s: the frames are received differently than in one piece: %s", N.c_str(), how, w.empty() ? "other sample numbers" : w.c_str()); };
        char how[80]; size_t n = s.size();
        if (!pairs) {
            size_t w = thorough() ? 1 : l.c.k / 2;
            for (size_t i = 0; i <= n; i += w) { snprintf(how, sizeof how, "split at %zu", i); note("%s %s", N.c_str(), how); Demod d(l); d.feed(s.data(), i); d.feed(s.data() + i, n - i); cmp(d, how); state(i); }
            for (size_t c = 1; c <= n; c += c < 64 ? w : c < 600 ? 7 * w : 53) { snprintf(how, sizeof how, "pieces of %zu", c); note("%s %s", N.c_str(), how); Demod d(l); for (size_t i = 0; i < n; i += c) d.feed(s.data() + i, std::min(c, n - i)); cmp(d, how); state(hmix(1, c)); }
            for (size_t pre = 0; pre < 512; pre += thorough() ? 1 : 9 * w) { snprintf(how, sizeof how, "buffer offset %zu", pre); Demod d(l); std::vector<cf> z(pre, cf(0, 0)); d.feed(z.data(), pre); d.feed(s.data(), n); std::vector<Ev> e = d.rx.ev; for (auto& x : e) x.at -= (unsigned)pre; d.rx.ev = e; auto bad = frames_are(e, want); MC_CHECK(bad.empty(), "receive", "%s: %s: %s", N.c_str(), how, bad.c_str()); count_eval(1); }
        } else {
            size_t g = thorough() ? 4 * l.c.k : 13 * l.c.k; for (size_t i = 0; i < n; i += g) for (size_t j = i; j < n; j += g) { snprintf(how, sizeof how, "splits at %zu and %zu", i, j); note("%s %s", N.c_str(), how); Demod d(l); d.feed(s.data(), i); d.feed(s.data() + i, j - i); d.feed(s.data() + j, n - j); cmp(d, how); state(hmix(i, j)); }
        }
    });
}
// damage: sequences of good frames, frames with a wrong sync bit, cut frames, refused headers, noise-like stretches; each costs at most itself
static void rx_damage(Link l, int depth) {
    std::string N = "receiver damage " + l.str();
    scenario(N, [=] {
        Opts o; o.full = 1; Ref ref(l.c); sample("%s", N.c_str());
        explore(o, [=] {
            std::vector<cf> s; std::vector<std::pair<Bytes, Bytes>> want; std::vector<std::pair<Bytes, bool>> all; std::string hist; Demod d(l); uint64_t h = 0; std::set<Bytes> refused;
            size_t settle = (size_t)(2 * 8 * l.sync.size() + l.c.pre + 4 * l.c.m) * l.c.k;            // a missed sync word is given up after this
            for (int st = 0; st < depth; ++st) {
                int a = choose(11); Bytes p = content(100 + st * 17, 3 + st); Bytes f = frame(l, p, st + 1); const char* nm = "";
                switch (a) {
                    case 0: nm = " good"; add(s, ref.make(f, st)); want.push_back(hp(l, f)); d.rx.answers.push_back((int)p.size()); break;
                    case 1: case 2: case 3: { nm = a == 1 ? " sync-first" : a == 2 ? " sync-last" : " sync-mid"; Bytes g = f; size_t bit = a == 1 ? 0 : a == 2 ? 8 * l.sync.size() - 1 : 4 * l.sync.size(); g[bit / 8] ^= (uint8_t)(0x80 >> bit % 8); add(s, ref.make(g, st)); quiet(s, settle); break; }
                    case 4: { nm = " cut-in-payload"; auto x = ref.make(f, st); size_t cut = (size_t)(l.c.pre + 8 * (l.sync.size() + l.hl + 1)) * l.c.k; x.resize(cut); add(s, x); quiet(s, ref.len(f.size()) - cut + settle); d.rx.answers.push_back((int)p.size()); want.push_back({hp(l, f).first, {}}); break; }
                    case 5: case 6: case 7: case 8: { int ans = a == 5 ? 0 : a == 6 ? -1 : a == 7 ? (int)l.maxpay + 1 : 0x7fffffff; nm = a == 5 ? " refused(0)" : a == 6 ? " refused(-1)" : a == 7 ? " refused(max+1)" : " refused(2^31-1)"; add(s, ref.make(f, st)); quiet(s, settle); d.rx.answers.push_back(ans); want.push_back({hp(l, f).first, {0xde}}); break; }
                    case 9: nm = " cut-in-preamble"; { auto x = ref.make(f, st); x.resize((size_t)l.c.k * (l.c.pre - 2)); add(s, x); quiet(s, settle + ref.len(l.maxpay)); } break;
                    case 10: nm = " longest"; { Bytes q = content(500 + st, l.maxpay); Bytes g = frame(l, q, st); add(s, ref.make(g, st)); want.push_back(hp(l, g)); d.rx.answers.push_back((int)q.size()); } break;
                }
                hist += nm; h = hmix(h, a);
            }
            quiet(s, 2 * l.c.k * l.c.m + 3); note("%s:%s", N.c_str(), hist.c_str());
            d.feed(s.data(), s.size());
            // headers and payloads reported, against what was sent
            size_t i = 0; int prev = 3; bool haspay = true;
            std::string w;
            for (auto& e : d.rx.ev) {
                if (e.st == 0) { prev = 0; continue; } if (e.st != prev + 1) { w = "states out of order"; break; } prev = e.st;
                if (e.st == 2) { if (i >= want.size()) { w = "a frame too many"; break; } if (e.hdr != want[i].first) { w = "wrong header of frame " + std::to_string(i); break; } bool ref1 = want[i].second.size() == 1 && want[i].second[0] == 0xde; haspay = !ref1; if (ref1) ++i; }
                if (e.st == 3) { if (!haspay) { w = "a payload is delivered although the header was refused"; break; } if (!want[i].second.empty() && (e.pay != want[i].second || e.hdr != want[i].first)) { w = "wrong payload of frame " + std::to_string(i); break; } ++i; }
            }
            if (w.empty() && i != want.size()) w = std::to_string(i) + " of " + std::to_string(want.size()) + " frames handled";
            MC_CHECK(w.empty(), "damage", "%s:%s: %s", N.c_str(), hist.c_str(), w.c_str());
            outcome(hmix(d.rx.ev.size(), want.size())); state(h);
        });
    });
}
// any signal: every stop point of a stream, tones, endless preambles, squares, huge and broken numbers; then quiet, then a frame that must be received
static void rx_any(Link l) {
    std::string N = "receiver after any signal " + l.str();
    scenario(N, [=] {
        Ref ref(l.c); sample("%s", N.c_str()); Bytes f = frame(l, content(9, 5), 2); auto good = ref.make(f, 9); auto want = hp(l, f); Bytes lf = frame(l, content(77, l.maxpay), 5); auto lg = ref.make(lf, 3);
        size_t settle = (size_t)(16 * l.sync.size() + l.c.pre + 8 * (l.hl + 255) + 16 * l.c.m) * l.c.k;
        auto run = [&](std::vector<cf> s, const std::string& what, bool must) { note("%s: %s", N.c_str(), what.c_str()); quiet(s, settle); add(s, good); quiet(s, 4 * l.c.k * l.c.m); Demod d(l); d.feed(s.data(), s.size()); count_eval(1); outcome(hmix(d.rx.ev.size(), 3));
            size_t n = d.rx.ev.size(); for (auto& e : d.rx.ev) MC_CHECK(e.pay.size() <= l.maxpay, "bounds", "%s: %s: a payload of %zu bytes", N.c_str(), what.c_str(), e.pay.size());
            if (must) MC_CHECK(n && d.rx.ev[n - 1].st == 3 && d.rx.ev[n - 1].hdr == want.first && d.rx.ev[n - 1].pay == want.second, "recover", "%s: after %s and quiet, a good frame is not received", N.c_str(), what.c_str()); };
        for (size_t i = 0; i <= lg.size(); i += thorough() ? l.c.k : l.c.k * 3 - 1) run({lg.begin(), lg.begin() + i}, "a frame cut at " + std::to_string(i), true);
        for (size_t i = 0; i < lg.size(); i += thorough() ? l.c.k + 1 : l.c.k * 7 - 1) run({lg.begin() + i, lg.end()}, "a frame starting at " + std::to_string(i), true);
        for (int t = -50; t <= 50; t += thorough() || l.c.k == 2 || std::abs(t) < 6 ? 1 : 5) { std::vector<cf> s; for (int i = 0; i < 600; ++i) s.push_back(std::polar(1.0f, t * 0.06283f * i)); run(s, "a tone " + std::to_string(t), true); }
        for (int b : {0, 1, 2, 3}) { std::vector<cf> s; gmskmod g = gmskmod_create(l.c.k, l.c.m, l.c.bt); std::vector<cf> y(l.c.k); for (int i = 0; i < 400; ++i) { gmskmod_modulate(g, b == 0 ? i & 1 : b == 1 ? 0 : b == 2 ? 1 : (i >> 1) & 1, y.data()); add(s, y); } gmskmod_destroy(g); run(s, "symbols of kind " + std::to_string(b), true); }
        for (int q = 0; q < (thorough() ? 200 : l.c.k == 2 ? 40 : 12); ++q) { std::vector<cf> s; for (int i = 0; i < 500; ++i) { uint64_t r = hmix(q + 1, i); s.push_back(cf((float)(r & 1023) / 512 - 1, (float)(r >> 20 & 1023) / 512 - 1)); } run(s, "noise " + std::to_string(q), true); }
        for (float v : {1e-30f, 1e10f, 3e38f, -3e38f, INFINITY, NAN}) for (int p : {0, 5, 40}) { std::vector<cf> s(100, cf(0.1f, 0)); s[p] = cf(v, v); s[p + 40] = cf(0, v); run(s, "a sample of " + std::to_string(v), false); }
    });
}
static void setup() {
    bool T = thorough(); int D = 5;
    mod_case({2, 3, 8}, {1, 3, 9}, 512, 3, D); mod_case({2, 1, 4}, {0, 2}, 512, 3, D); mod_case({4, 2, 6}, {4, 13}, 512, 2, D); mod_case({8, 1, 2}, {0, 6}, 512, 2, D); mod_case({2, 3, 24}, {8, 27}, 512, 4, D); mod_case({3, 2, 5}, {5}, 700, 4, D); mod_case({4, 2, 4}, {3, 15}, 512, 4, D); mod_case({2, 1, 4}, {1, 2}, 512, 2, D, 2); mod_case({2, 2, 6}, {3}, 512, 3, D + 2, 3);
    mod_contents({2, 3, 24}, 60); mod_contents({4, 1, 1}, 40); mod_contents({3, 2, 2}, 40); mod_contents({8, 4, 16}, 20);
    Link e{{2, 3, 24}, {0x55, 0x90, 0x4E}, 3, 24}, k4{{4, 3, 24}, {0x93, 0x0B}, 2, 12}, k8{{8, 2, 32}, {0xD3, 0x91, 0xDA}, 1, 9};
    for (auto& l : {e, k4, k8}) { rx_contents(l); rx_splits(l, false); rx_splits(l, true); rx_damage(l, T ? 4 : 3); rx_any(l); }
}
#else
// the owner of the pool fills and queues buffers while the modulator frames and releases them
static void thr(const char* nm, Cfg c, std::vector<size_t> lens, size_t nslots, int calls, int bound, int stale) {
    std::string N = nm;
    scenario(N, [=] {
        Opts o; o.threads = true; o.bound = bound; o.stale = stale; o.free_switch = true; Ref ref(c); sample("%s", N.c_str());
        explore(o, [=] {
            note("%s", N.c_str()); auto slab = std::make_unique<Slab>(nslots, 16); auto blk = std::make_unique<EZGmskModBlock>("mod", c.k, c.m, c.bt, c.pre, 2); auto out = std::make_unique<cler::Channel<cf>>(512); std::vector<Bytes> sent;
            std::thread P([&] { size_t i = 0; for (int t = 0; t < 4 * (int)lens.size() && i < lens.size(); ++t) { if (blk->in.space() == 0) { yield(); continue; } auto r = slab->take_slot(); if (r.is_err()) { yield(); continue; } Blob b = r.unwrap(); Bytes d = content((int)i + 1, lens[i]); if (!d.empty()) memcpy(b.data, d.data(), d.size()); b.len = d.size(); blk->in.push(b); { NoRace q; sent.push_back(d); } ++i; } });
            std::vector<cf> got; auto drain = [&] { size_t n = out->size(); if (!n) return; size_t q = got.size(); got.resize(q + n); out->readN(got.data() + q, n); };
            for (int t = 0; t < calls; ++t) { (void)blk->procedure(out.get()); drain(); }
            P.join(); for (int t = 0; t < 4; ++t) { (void)blk->procedure(out.get()); drain(); }
            size_t pos = 0; for (size_t i = 0; i < sent.size(); ++i) { size_t L = ref.len(sent[i].size()); MC_CHECK(pos + L <= got.size(), "sent", "%s: frame %zu is missing", N.c_str(), i); auto w = ref.diff(got.data() + pos, L, sent[i]); MC_CHECK(w.empty(), "frame", "%s: frame %zu: %s", N.c_str(), i, w.c_str()); pos += L; }
            MC_CHECK(pos == got.size(), "sent", "%s: %zu samples too many", N.c_str(), got.size() - pos); MC_CHECK(slab->available_slots() == nslots, "slots", "%s: %zu of %zu slots free at the end", N.c_str(), slab->available_slots(), nslots); outcome(sent.size());
        });
    });
}
static void setup() {
    { Slab w(1, 8); EZGmskModBlock b("w", 2, 1, 0.3f, 2, 2); cler::Channel<cf> o(512); Blob x = w.take_slot().unwrap(); x.len = 1; b.in.push(x); (void)b.procedure(&o); (void)rand(); }
    int B = thorough() ? 3 : 2;
    thr("one slot, two buffers", {2, 1, 2}, {1, 2}, 1, 2, B, 1); thr("two slots, three buffers", {2, 1, 2}, {1, 0, 2}, 2, 2, B, 1); thr("three buffers, one call each", {2, 1, 1}, {1, 1, 1}, 3, 3, B, 0);
}
#endif
MC_MAIN(setup)
