// A01: Mode S frame decoding. Acceptance and repair against an independent checksum, the address cache over histories
// with a controlled clock, every value of every decoded field, exact-size arguments under AddressSanitizer.
#include "mc.hpp"
#include "adsb/modes.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <memory>
#include <map>
#include <unordered_map>
#include <string>
#include <vector>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
using namespace mc;
static long long fake_now = 1000;
static bool fake_on = false;
static long long real_now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); return t.tv_sec; }
extern "C" time_t time(time_t* p) { time_t t = fake_on ? (time_t)fake_now : (time_t)real_now(); if (p) *p = t; return t; }
extern "C" int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = fake_on ? fake_now : real_now(); tv->tv_usec = 0; return 0; }
typedef std::vector<uint8_t> Fr;                           // always 14 bytes
static int bitlen(int df) { return df == 16 || df == 17 || df == 19 || df == 20 || df == 21 || df == 24 ? 112 : 56; }
static bool supported(int df) { return df == 0 || df == 4 || df == 5 || df == 11 || df == 16 || df == 17 || df == 20 || df == 21 || df == 24; }
static bool overlay(int df) { return supported(df) && df != 11 && df != 17; }
static uint32_t crc24(const Fr& f, int bits) {             // remainder of the data bits, generator 0xFFF409
    uint32_t r = 0;
    for (int i = 0; i < bits - 24; ++i) { int b = f[i / 8] >> (7 - i % 8) & 1; r = (r << 1) ^ (((r >> 23) & 1) ^ b ? 0xFFF409 : 0); r &= 0xFFFFFF; }
    return r;
}
static uint32_t parity(const Fr& f, int bits) { int n = bits / 8; return f[n - 3] << 16 | f[n - 2] << 8 | f[n - 1]; }
static void setpar(Fr& f, int bits, uint32_t v) { int n = bits / 8; f[n - 3] = v >> 16; f[n - 2] = v >> 8; f[n - 1] = v; }
static void seal(Fr& f, uint32_t addr = 0) { int b = bitlen(f[0] >> 3); setpar(f, b, crc24(f, b) ^ addr); }
static void put(Fr& f, int first, int len, uint32_t v) {   // bits are numbered from 1 as in the standard
    for (int k = 0; k < len; ++k) { int b = first - 1 + k; uint8_t m = 0x80 >> (b % 8); if (v >> (len - 1 - k) & 1) f[b / 8] |= m; else f[b / 8] &= ~m; }
}
static uint32_t get(const Fr& f, int first, int len) { uint32_t v = 0; for (int k = 0; k < len; ++k) { int b = first - 1 + k; v = v << 1 | (f[b / 8] >> (7 - b % 8) & 1); } return v; }
static Fr blank(int df, int fill) {
    Fr f(14); uint32_t x = 12345 + fill; for (auto& b : f) { x = x * 1664525 + 1013904223; b = fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 0xaa : fill == 3 ? 0x55 : x >> 24; }
    f[0] = df << 3 | (f[0] & 7); return f;
}
static std::string hex(const Fr& f) { std::string s; char b[4]; for (auto x : f) { snprintf(b, 4, "%02x", x); s += b; } return s; }
struct Dec {
    std::unique_ptr<mode_s_t> m; uint8_t* buf; mode_s_msg* mm;      // heap, exact size
    Dec(int fix = 1, int aggr = 0) : m(new mode_s_t) { mode_s_init(m.get()); m->fix_errors = fix; m->aggressive = aggr; buf = (uint8_t*)malloc(14); mm = (mode_s_msg*)malloc(sizeof(mode_s_msg)); }
    ~Dec() { free(buf); free(mm); }
    const mode_s_msg& operator()(const Fr& f, int prefill = 0) {
        memcpy(buf, f.data(), 14); memset(mm, prefill, sizeof *mm); mode_s_decode(m.get(), mm, buf);
        MC_CHECK(!memcmp(buf, f.data(), 14), "input-changed", "the caller's copy of frame %s was changed", hex(f).c_str());
        return *mm;
    }
};
static uint32_t SYN[2][112];             // [long][bit]: change of the syndrome when this bit flips
static void syndromes() { for (int l = 0; l < 2; ++l) for (int i = 0; i < (l ? 112 : 56); ++i) { Fr f(14); f[i / 8] = 0x80 >> (i % 8); SYN[l][i] = crc24(f, l ? 112 : 56) ^ parity(f, l ? 112 : 56); } }
static std::unordered_map<uint32_t, std::vector<std::pair<int, int>>> PAIRS;
static void pairs() { if (!PAIRS.empty()) return; for (int i = 5; i < 112; ++i) for (int j = i + 1; j < 112; ++j) PAIRS[SYN[1][i] ^ SYN[1][j]].push_back({i, j}); }
static uint64_t NE;
// acceptance and repair of one received frame of type 11 or 17 (anything else: no effect of repair)
static void accept(Dec& d, const Fr& r, int fix, int aggr) {
    const mode_s_msg& mm = d(r, 0x5a); ++NE;
    int df = r[0] >> 3, bits = bitlen(df), n = bits / 8; bool L = bits == 112; uint32_t s = crc24(r, bits) ^ parity(r, bits);
    Fr out(mm.msg, mm.msg + 14);
    if (!supported(df)) { MC_CHECK(mm.msgtype == df, "type", "frame %s reported as type %d", hex(r).c_str(), mm.msgtype); MC_CHECK(!mm.crcok, "accepted", "frame %s of a type whose checksum cannot be verified was accepted", hex(r).c_str()); return; }
    MC_CHECK(mm.msgtype == df && mm.msgbits == bits, "type", "frame %s reported as type %d with %d bits", hex(r).c_str(), mm.msgtype, mm.msgbits);
    bool same = !memcmp(out.data(), r.data(), n);
    if (df != 11 && df != 17) { MC_CHECK(same && mm.errorbit == -1, "repair", "frame %s of a type that permits no repair came out as %s", hex(r).c_str(), hex(out).c_str()); return; }
    if (!s) { MC_CHECK(mm.crcok && mm.errorbit == -1 && same && mm.crc == parity(r, bits), "valid", "valid frame %s: crcok %d errorbit %d out %s", hex(r).c_str(), mm.crcok, mm.errorbit, hex(out).c_str()); outcome(1); return; }
    bool one = false, two = false; if (fix) { for (int i = 5; i < bits; ++i) if (SYN[L][i] == s) one = true; if (!one && aggr && df == 17 && PAIRS.count(s)) two = true; }
    if (!one && !two) { MC_CHECK(!mm.crcok, "accepted", "frame %s is not %s but was accepted as %s (error bit %d)", hex(r).c_str(), fix ? "valid nor repairable" : "valid", hex(out).c_str(), mm.errorbit);
        MC_CHECK(same && mm.errorbit == -1, "repair", "rejected frame %s came out as %s (error bit %d)", hex(r).c_str(), hex(out).c_str(), mm.errorbit); outcome(2); return; }
    MC_CHECK(mm.crcok, "rejected", "frame %s is repairable by %s but was rejected", hex(r).c_str(), one ? "one bit" : "two bits");
    int i = mm.errorbit & 0xff, j = mm.errorbit >> 8; bool ok = mm.errorbit >= 5 && i >= 5 && i < bits && (one ? j == 0 : (j > i && j < bits));
    MC_CHECK(ok, "position", "frame %s repaired, reported position %d (%s)", hex(r).c_str(), mm.errorbit, one ? "one bit" : "two bits");
    Fr w = r; w[i / 8] ^= 0x80 >> (i % 8); if (!one) w[j / 8] ^= 0x80 >> (j % 8);
    MC_CHECK(!memcmp(out.data(), w.data(), n), "restored", "frame %s with reported error %d came out as %s", hex(r).c_str(), mm.errorbit, hex(out).c_str());
    MC_CHECK((crc24(w, bits) == parity(w, bits)) && mm.crc == parity(w, bits), "restored", "frame %s with reported error %d is not valid after repair", hex(r).c_str(), mm.errorbit);
    MC_CHECK((uint32_t)(mm.aa1 << 16 | mm.aa2 << 8 | mm.aa3) == get(w, 9, 24), "address", "repaired frame %s: address %02x%02x%02x", hex(w).c_str(), mm.aa1, mm.aa2, mm.aa3);
    outcome(hmix(3, mm.errorbit));
}
static void flush() { count_eval(NE); count_trans(NE); NE = 0; }
static std::string fields(const mode_s_msg& m) {
    char b[400]; snprintf(b, sizeof b, "%d %d %d %x %d %d.%d.%d %d|%d|%d %d %d %d %d %d %d %d %d|%.9s|%d %d %d %d %d %d %d %d|%d %d %d %d|%d %d", m.msgbits, m.msgtype, m.crcok, m.crc, m.errorbit, m.aa1, m.aa2, m.aa3, m.phase_corrected, m.ca, m.metype, m.mesub, m.heading_is_valid != 0,
        m.heading, m.aircraft_type, m.fflag, m.tflag, m.raw_latitude, m.raw_longitude, m.flight, m.ew_dir, m.ew_velocity, m.ns_dir, m.ns_velocity, m.vert_rate_source, m.vert_rate_sign, m.vert_rate, m.velocity, m.fs, m.dr, m.um, m.identity, m.altitude, m.unit);
    return b;
}
static int ac13(uint32_t v, bool& known, int& unit) {      // C1 A1 C2 A2 C4 A4 M B1 Q B2 D2 B4 D4
    bool M = v >> 6 & 1, Qb = v >> 4 & 1; unit = M; known = !M && Qb; if (!known) return 0;
    return 25 * (int)((v >> 7) << 5 | (v >> 5 & 1) << 4 | (v & 15)) - 1000;
}
#define FEQ(field, want, what) MC_CHECK((long)(mm.field) == (long)(want), "field", "frame %s: " what " decoded as %ld, the frame carries %ld", hex(f).c_str(), (long)(mm.field), (long)(want))
static void check_fields(Dec& d, Fr f, int addr = 0) {
    int df = f[0] >> 3; seal(f, addr);
    const mode_s_msg& mm = d(f, 0x00); ++NE;
    FEQ(msgtype, get(f, 1, 5), "downlink format"); FEQ(crcok, supported(df), "checksum verdict");
    if (df == 11 || df == 17) { FEQ(ca, get(f, 6, 3), "capability"); FEQ(aa1, get(f, 9, 8), "address byte 1"); FEQ(aa2, get(f, 17, 8), "address byte 2"); FEQ(aa3, get(f, 25, 8), "address byte 3"); }
    if (overlay(df)) MC_CHECK((mm.aa1 << 16 | mm.aa2 << 8 | mm.aa3) == addr, "field", "frame %s: overlay address decoded as %02x%02x%02x, not %06x", hex(f).c_str(), mm.aa1, mm.aa2, mm.aa3, addr);
    if (df == 4 || df == 5 || df == 20 || df == 21) { FEQ(fs, get(f, 6, 3), "flight status"); FEQ(dr, get(f, 9, 5), "downlink request"); FEQ(um, get(f, 14, 6), "utility message"); }
    if (df == 5 || df == 21) {
        uint32_t v = get(f, 20, 13); auto B = [&](int i) { return v >> (12 - i) & 1; };
        int C = B(0) | B(2) << 1 | B(4) << 2, A = B(1) | B(3) << 1 | B(5) << 2, Bq = B(7) | B(9) << 1 | B(11) << 2, D = B(8) | B(10) << 1 | B(12) << 2;
        FEQ(identity, A * 1000 + Bq * 100 + C * 10 + D, "squawk");
    }
    if (df == 0 || df == 4 || df == 16 || df == 20) { bool k; int u, a = ac13(get(f, 20, 13), k, u); FEQ(altitude, a, "altitude"); FEQ(unit, u, "altitude unit"); }
    if (df == 17) {
        int t = get(f, 33, 5), s = get(f, 38, 3); FEQ(metype, t, "message type"); FEQ(mesub, s, "message subtype");
        if (t >= 1 && t <= 4) {
            FEQ(aircraft_type, t - 1, "aircraft type");
            for (int i = 0; i < 8; ++i) { int c = get(f, 41 + 6 * i, 6); char w = c >= 1 && c <= 26 ? 'A' + c - 1 : c == 32 ? ' ' : c >= 48 && c <= 57 ? '0' + c - 48 : '?'; MC_CHECK(mm.flight[i] == w, "field", "frame %s: callsign character %d decoded as '%c', not '%c'", hex(f).c_str(), i, mm.flight[i], w); }
            FEQ(flight[8], 0, "callsign terminator");
        } else if (t >= 9 && t <= 18) {
            FEQ(tflag, get(f, 53, 1), "time flag"); FEQ(fflag, get(f, 54, 1), "CPR format flag"); FEQ(raw_latitude, get(f, 55, 17), "latitude"); FEQ(raw_longitude, get(f, 72, 17), "longitude");
            uint32_t v = get(f, 41, 12); FEQ(altitude, (v >> 4 & 1) ? 25 * (int)((v >> 5) << 4 | (v & 15)) - 1000 : 0, "altitude"); FEQ(unit, 0, "altitude unit");
        } else if (t == 19 && (s == 1 || s == 2)) {
            int ed = get(f, 46, 1), ev = get(f, 47, 10), nd = get(f, 57, 1), nv = get(f, 58, 10);
            FEQ(ew_dir, ed, "E/W direction"); FEQ(ew_velocity, ev, "E/W velocity"); FEQ(ns_dir, nd, "N/S direction"); FEQ(ns_velocity, nv, "N/S velocity");
            FEQ(vert_rate_source, get(f, 68, 1), "vertical rate source"); FEQ(vert_rate_sign, get(f, 69, 1), "vertical rate sign"); FEQ(vert_rate, get(f, 70, 9), "vertical rate");
            double v = hypot(ev, nv); MC_CHECK(fabs(mm.velocity - v) <= 1, "field", "frame %s: velocity decoded as %d, the components give %.2f", hex(f).c_str(), mm.velocity, v);
            if (ev || nv) { double h = atan2(ed ? -ev : ev, nd ? -nv : nv) * 180 / M_PI, e = fabs(remainder(mm.heading - h, 360)); MC_CHECK(e <= 1 && mm.heading >= 0 && mm.heading <= 360, "field", "frame %s: heading decoded as %d, the components give %.2f", hex(f).c_str(), mm.heading, h); }
        } else if (t == 19 && (s == 3 || s == 4)) {
            FEQ(heading_is_valid != 0, get(f, 46, 1), "heading status"); double h = get(f, 47, 7) * 360.0 / 128; MC_CHECK(fabs(mm.heading - h) <= 1, "field", "frame %s: heading decoded as %d, not %.2f", hex(f).c_str(), mm.heading, h);
        }
    }
}
static void determined(Dec& d, Fr f, uint32_t addr) {      // the result is a function of the frame, not of what the result structure held before
    seal(f, addr); std::string a = fields(d(f, 0x00)), b = fields(d(f, 0xff)); ++NE;
    MC_CHECK(a == b, "undetermined", "frame %s decodes differently depending on the previous content of the result: %s versus %s", hex(f).c_str(), a.c_str(), b.c_str());
}
static const uint32_t AP = 0x4840D6;
static void teach(Dec& d, uint32_t a) { Fr f = blank(17, 0); put(f, 9, 24, a); seal(f); d(f); }
// ---- address cache histories
struct Hist { int depth; long long start; std::vector<uint32_t> addr; };
static void cache_hist(const Hist& h) {
    int A = h.addr.size(); const int ADV[] = {1, 30, 59, 60, 61}; int ops = 3 * A + A + 5;
    uint64_t total = 1; for (int i = 0; i < h.depth; ++i) total *= ops;
    fake_on = true;
    for (uint64_t code = 0; code < total; ++code) {
        Dec d; fake_now = h.start; std::vector<long long> seen(A, -1), last(A, -1); long long any = -1; int seq = 0; std::vector<int> order(A, -1);
        uint64_t c = code; std::string tr; (void)last; (void)any;
        for (int s = 0; s < h.depth; ++s) {
            int o = c % ops; c /= ops;
            if (o < 2 * A) { int a = o % A; Fr f = blank(o < A ? 17 : 11, 4); put(f, 9, 24, h.addr[a]); seal(f); const auto& mm = d(f); MC_CHECK(mm.crcok, "valid", "valid frame rejected"); seen[a] = fake_now; order[a] = ++seq; tr += o < A ? " S" : " s"; tr += '0' + a; }
            else if (o < 3 * A) { int a = o % A; Fr f = blank(17, 4); put(f, 9, 24, h.addr[a]); seal(f); f[6] ^= 4; d(f); tr += " r"; tr += '0' + a; }       // a repaired frame proves no address
            else if (o < 4 * A) {
                int a = o % A; tr += " Q"; tr += '0' + a; Fr f = blank((code + s) & 1 ? 20 : 4, 4); seal(f, h.addr[a]); const auto& mm = d(f); ++NE;
                bool fresh = seen[a] >= 0 && fake_now - seen[a] <= 60; bool displaced = false; for (int b = 0; b < A; ++b) if (b != a && order[b] > order[a]) displaced = true;
                if (mm.crcok) MC_CHECK(fresh, "accepted", "history%s (clock starts at %lld): overlay of address %06x accepted although it was %s", tr.c_str(), h.start, h.addr[a], seen[a] < 0 ? "never seen" : "last seen more than 60 s ago");
                else MC_CHECK(!fresh || displaced, "rejected", "history%s (clock starts at %lld): overlay of address %06x rejected although it was seen %lld s ago and no other address since", tr.c_str(), h.start, h.addr[a], fake_now - seen[a]);
                if (mm.crcok) MC_CHECK((uint32_t)(mm.aa1 << 16 | mm.aa2 << 8 | mm.aa3) == h.addr[a], "address", "history%s: overlay address reported as %02x%02x%02x, not %06x", tr.c_str(), mm.aa1, mm.aa2, mm.aa3, h.addr[a]);
                outcome(hmix(mm.crcok * 4 + fresh * 2 + displaced, fake_now - (seen[a] < 0 ? 0 : seen[a])));
            } else { int k = o - 4 * A; fake_now += ADV[k]; tr += " +" + std::to_string(ADV[k]); }
        }
    }
    fake_on = false; flush();
}
static std::string shown(const mode_s_msg& mm) {
    char* p = nullptr; size_t n = 0; FILE* old = stdout; FILE* f = open_memstream(&p, &n); stdout = f;
    mode_s_msg* e = (mode_s_msg*)malloc(sizeof mm); memcpy(e, &mm, sizeof mm); mode_s_display_message(e); free(e);
    fflush(f); stdout = old; fclose(f); std::string s(p, n); free(p); return s;
}
static void setup() {
    syndromes(); bool T = thorough();
    for (int df : {17, 11}) for (int fill = 0; fill < 6; ++fill) for (int mode = 0; mode < 3; ++mode) {
        if (mode == 2 && df == 11 && fill > 1) continue;
        scenario("flips df" + std::to_string(df) + " fill" + std::to_string(fill) + (mode == 0 ? "" : mode == 1 ? " no repair" : " aggressive"), [=] {
            if (mode == 2) pairs();
            Dec d(mode != 1, mode == 2); Fr f = blank(df, fill); if (fill == 5) put(f, 9, 24, AP); seal(f); int bits = bitlen(df);
            accept(d, f, mode != 1, mode == 2);
            auto fl = [&](Fr g, int i) { g[i / 8] ^= 0x80 >> (i % 8); return g; };
            bool three = T ? (mode != 2 || fill == 4) : (bits == 56 && fill == 4);
            for (int i = 0; i < bits; ++i) { Fr a = fl(f, i); accept(d, a, mode != 1, mode == 2); state(i);
                int step = mode == 2 && !T ? (fill == 4 ? 1 : 3) : 1;
                for (int j = i + 1; j < bits; j += step) { Fr b = fl(a, j); accept(d, b, mode != 1, mode == 2); if (three) for (int k = j + 1; k < bits; ++k) accept(d, fl(b, k), mode != 1, mode == 2); } }
            flush();
        });
    }
    scenario("all types", [=] {
        for (int df = 0; df < 32; ++df) for (int fill = 0; fill < 6; ++fill) for (int known = 0; known < 3; ++known) {
            Dec d; fake_on = true; fake_now = 5000; if (known) teach(d, AP); if (known == 2) fake_now += 61;
            int bits = bitlen(df); Fr f = blank(df, fill); Fr g = f; seal(f, AP); seal(g);
            if (overlay(df)) {
                const auto& mm = d(f); ++NE; MC_CHECK(mm.crcok == (known == 1), known == 1 ? "rejected" : "accepted", "frame %s with the overlay of an address %s: verdict %d", hex(f).c_str(), known == 0 ? "never seen" : known == 1 ? "seen just now" : "seen 61 s ago", mm.crcok);
                for (int i = 5; i < bits; ++i) { Fr h = f; h[i / 8] ^= 0x80 >> (i % 8); const auto& m2 = d(h); ++NE; MC_CHECK(!m2.crcok, "accepted", "frame %s with a wrong bit accepted", hex(h).c_str()); }
            }
            accept(d, df == 11 || df == 17 ? g : f, 1, 0);
            if (!overlay(df)) for (int i = 0; i < bits; ++i) { Fr h = g; h[i / 8] ^= 0x80 >> (i % 8); accept(d, h, 1, 0); }
            state(hmix(df, known)); fake_on = false;
        }
        flush();
    });
    // two addresses that share a cache slot, found by asking the cache itself: teaching b displaces a
    static const uint32_t A0 = 0x4840D6, A1 = 0xFFFFFF, A2 = 0x000001;
    for (long long start : {1000LL, 1700000000LL, 2147483648LL - 61, 2147483648LL + 5, 4294967295LL - 400}) for (int set = 0; set < 3; ++set)
        scenario("address cache from " + std::to_string(start) + " set " + std::to_string(set), [=] {
            Hist h{T ? 5 : 4, start, {A0, A1}};
            if (set == 1) h.addr = {A2, A0};
            if (set == 2) {      // a pair in the same slot, if there is one
                fake_on = true; fake_now = 1000; Dec d; uint32_t b = 0;
                for (uint32_t x = 0x100001; x < 0x110000 && !b; ++x) { teach(d, A0); teach(d, x); Fr f = blank(4, 0); seal(f, A0); if (!d(f).crcok) b = x; ++NE; }
                fake_on = false; h.addr = {A0, b ? b : A1};
            }
            cache_hist(h); state(hmix(start, set));
        });
    scenario("many addresses", [=] {
        fake_on = true; fake_now = 5000;
        for (int n : {2, 8, 64}) for (uint32_t base : {0x400000u, 0x4840D6u, 0xA00000u, 1u}) for (uint32_t step : {1u, 7u, 4096u, 65537u}) {
            Dec d; std::vector<uint32_t> as; for (int i = 0; i < n; ++i) { as.push_back((base + i * step) & 0xffffff); teach(d, as.back()); }
            int ok = 0; for (uint32_t a : as) { Fr f = blank(5, 3); seal(f, a); const auto& mm = d(f); ++NE; if (mm.crcok) { ++ok; MC_CHECK((uint32_t)(mm.aa1 << 16 | mm.aa2 << 8 | mm.aa3) == a, "address", "overlay of %06x reported as another address", a); } }
            MC_CHECK(ok * 8 >= n * 7, "forgotten", "of %d addresses seen within a minute (from %06x, step %u) only %d are recognised", n, base, step, ok); outcome(ok); state(hmix(hmix(n, base), step));
        }
        fake_on = false; flush();
    });
    for (int q = 0; q < 8; ++q) scenario("pairs of addresses " + std::to_string(q), [=] {
        fake_on = true; fake_now = 5000; uint32_t first = q & 1 ? A0 : 0xA12345, base = q * 0x1f0001u + 1;
        Dec one; teach(one, first);
        for (uint32_t i = 0; i < (T ? 65536u : 16384u); ++i) {
            uint32_t x = (base + i * 13) & 0xffffff; if (!x || x == first) continue;
            Fr f = blank(i & 1 ? 4 : 20, 4); seal(f, x); Fr g = f; const auto& m1 = one(f); ++NE;
            MC_CHECK(!m1.crcok, "accepted", "overlay of address %06x accepted although only %06x was ever seen", x, first);
            Dec& two = one; teach(two, x); const auto& m2 = two(g); ++NE;
            MC_CHECK(m2.crcok, "rejected", "overlay of address %06x rejected although it was the last address seen, just now", x);
            // back to a decoder that has seen the first address only: let the second one expire
            fake_now += 61; teach(one, first);
        }
        fake_on = false; flush(); outcome(q);
    });
    // every value of every field, between other fields of all zeros, all ones and patterns
    struct FD { const char* n; int df, first, len, type, sub; };
    static const FD FDS[] = {
        {"ca", 11, 6, 3, -1, -1}, {"ca", 17, 6, 3, -1, -1}, {"address high", 11, 9, 12, -1, -1}, {"address low", 17, 21, 12, -1, -1}, {"fs", 4, 6, 3, -1, -1}, {"fs", 21, 6, 3, -1, -1}, {"dr um", 4, 9, 11, -1, -1}, {"dr um", 20, 9, 11, -1, -1}, {"fs dr um", 5, 6, 14, -1, -1},
        {"squawk", 5, 20, 13, -1, -1}, {"squawk", 21, 20, 13, -1, -1}, {"ac13", 0, 20, 13, -1, -1}, {"ac13", 4, 20, 13, -1, -1}, {"ac13", 16, 20, 13, -1, -1}, {"ac13", 20, 20, 13, -1, -1}, {"type sub", 17, 33, 8, -1, -1},
        {"ac12", 17, 41, 12, 11, 0}, {"ac12", 17, 41, 12, 9, 7}, {"ac12", 17, 41, 12, 18, 3}, {"lat", 17, 53, 19, 11, 0}, {"lon", 17, 72, 17, 12, 5}, {"lon2", 17, 71, 18, 17, 0}, {"heading", 17, 46, 11, 19, 3}, {"heading", 17, 46, 11, 19, 4}, {"rate", 17, 68, 11, 19, 1}, {"rate", 17, 68, 11, 19, 2}};
    for (const FD& x : FDS) scenario(std::string("field ") + x.n + " df" + std::to_string(x.df) + " bit" + std::to_string(x.first) + " type" + std::to_string(x.type), [=] {
        fake_on = true; fake_now = 5000; Dec d; teach(d, AP);
        for (int fill = 0; fill < 6; ++fill) { if (!T && x.len > 15 && fill > 2) continue; Fr f = blank(x.df, fill); if (x.type >= 0) { put(f, 33, 5, x.type); put(f, 38, 3, x.sub); }
            if (overlay(x.df)) teach(d, AP);
            for (uint32_t v = 0; v < 1u << x.len; ++v) { put(f, x.first, x.len, v); check_fields(d, f, overlay(x.df) ? AP : 0); } state(fill); }
        fake_on = false; flush(); outcome(hmix(x.df, x.first));
    });
    scenario("callsign", [=] {
        Dec d; for (int t = 1; t <= 4; ++t) for (int fill = 0; fill < 6; ++fill) for (int pos = 0; pos < 8; ++pos) for (int c = 0; c < 64; ++c) { Fr f = blank(17, fill); put(f, 33, 5, t); put(f, 41 + 6 * pos, 6, c); check_fields(d, f); if (pos < 7) for (int c2 = 0; c2 < 64; ++c2) { put(f, 47 + 6 * pos, 6, c2); check_fields(d, f); } }
        flush(); state(1);
    });
    for (int q = 0; q < 8; ++q) scenario("velocity " + std::to_string(q), [=] {
        Dec d; for (int s = 1; s <= 2; ++s) { Fr f = blank(17, s == 1 ? 0 : 2); put(f, 33, 5, 19); put(f, 38, 3, s);
            for (uint32_t e = q; e < 2048; e += 8) { put(f, 46, 11, e); for (uint32_t n = s == 1 ? 0 : e % 5; n < 2048; n += s == 1 ? (T ? 1 : 3) : 5) { put(f, 57, 11, n); check_fields(d, f); } } }
        flush(); state(q);
    });
    scenario("display", [=] {
        fake_on = true; fake_now = 5000; Dec d; teach(d, AP);
        for (int df = 0; df < 32; ++df) for (int fill = 0; fill < 6; ++fill) for (int k = 0; k < 256; ++k) {
            Fr f = blank(df, fill); if (df == 17) put(f, 33, 8, k); else { put(f, 6, 3, k & 7); put(f, 20, 13, (k >> 3) * 0x111); }
            determined(d, f, overlay(df) ? AP : 0); const auto& mm = d(f, 0xff); std::string s = shown(mm), w = "*" + hex(Fr(mm.msg, mm.msg + mm.msgbits / 8)) + ";\n";
            MC_CHECK(s.compare(0, w.size(), w) == 0, "display", "frame %s displayed as %.60s", hex(f).c_str(), s.c_str());
            MC_CHECK(s.find(mm.crcok ? "(ok)" : "(wrong)") != std::string::npos, "display", "frame %s: the display does not show the verdict %d", hex(f).c_str(), mm.crcok); ++NE;
            if (df == 17) { seal(f); f[5] ^= 0x10; shown(d(f, 0xff)); determined(d, f, 0); ++NE; }
            state(hmix(df, k));
        }
        fake_on = false; flush();
    });
}
MC_MAIN(setup)
