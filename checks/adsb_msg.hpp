// Mode S frames for A04 and A05: built from values by an independent encoder, decoded by the real decoder.
#pragma once
#include "mc.hpp"
#include "adsb/modes.h"
#include <cmath>
#include <cstring>
#include <vector>
using namespace mc;
// ---- frames
typedef std::vector<uint8_t> Fr;
static uint32_t crc24(const Fr& f, int bits) { uint32_t r = 0; for (int i = 0; i < bits - 24; ++i) { int b = f[i / 8] >> (7 - i % 8) & 1; r = (r << 1) ^ (((r >> 23) & 1) ^ b ? 0xFFF409 : 0); r &= 0xFFFFFF; } return r; }
static void put(Fr& f, int first, int len, uint32_t v) { for (int k = 0; k < len; ++k) { int b = first - 1 + k; uint8_t m = 0x80 >> (b % 8); if (v >> (len - 1 - k) & 1) f[b / 8] |= m; else f[b / 8] &= ~m; } }
static mode_s_t& decoder() { static mode_s_t* m = [] { auto* p = new mode_s_t; mode_s_init(p); return p; }(); return *m; }
static mode_s_msg finish(Fr f, uint32_t icao, bool lng, bool overlay) {
    int bits = lng ? 112 : 56, n = bits / 8; if (!overlay) put(f, 9, 24, icao);
    uint32_t p = crc24(f, bits) ^ (overlay ? icao : 0); f[n - 3] = p >> 16; f[n - 2] = p >> 8; f[n - 1] = p;
    mode_s_msg m; memset(&m, 0x5a, sizeof m); mode_s_decode(&decoder(), &m, f.data());
    uint32_t a = m.aa1 << 16 | m.aa2 << 8 | m.aa3; MC_CHECK(a == icao && m.crcok, "harness", "the message is decoded for aircraft %06x instead of %06x", a, icao);
    return m;
}
static mode_s_msg all_call(uint32_t icao) { Fr f(14); f[0] = 11 << 3 | 5; return finish(f, icao, false, false); }
static mode_s_msg ident(uint32_t icao, const char* cs) {
    Fr f(14); f[0] = 17 << 3 | 5; put(f, 33, 5, 4);
    for (int i = 0; i < 8; ++i) { char c = i < (int)strlen(cs) ? cs[i] : ' '; put(f, 41 + 6 * i, 6, c >= 'A' && c <= 'Z' ? c - 'A' + 1 : c >= '0' && c <= '9' ? c : 32); }
    return finish(f, icao, true, false);
}
static mode_s_msg alt4(uint32_t icao, int feet) {      // DF4: 13 bit altitude, M = 0, Q = 1
    Fr f(14); f[0] = 4 << 3; int n = (feet + 1000) / 25; put(f, 20, 13, (n >> 5 & 0x3f) << 7 | (n >> 4 & 1) << 5 | 1 << 4 | (n & 15));
    all_call(icao);                                    // the address is known
    auto m = finish(f, icao, false, true); MC_CHECK(m.altitude == feet, "harness", "altitude %d decoded as %d", feet, m.altitude); return m;
}
static int NLof(double lat) { lat = std::fabs(lat); if (lat > 87) return 1; double a = 1 - std::cos(M_PI / 30), c = std::cos(M_PI / 180 * lat); double v = 1 - a / (c * c); if (v < -1) v = -1; return (int)std::floor(2 * M_PI / std::acos(v)); }
static mode_s_msg pos(uint32_t icao, double lat, double lon, int odd, int feet) {
    double D = 360.0 / (60 - odd), md = lat - D * std::floor(lat / D); long yz = (long)std::floor(131072 * md / D + 0.5); double rlat = D * ((double)yz / 131072 + std::floor(lat / D));
    int ni = std::max(NLof(rlat) - odd, 1); double DL = 360.0 / ni, ml = lon - DL * std::floor(lon / DL); long xz = (long)std::floor(131072 * ml / DL + 0.5);
    Fr f(14); f[0] = 17 << 3 | 5; put(f, 33, 5, 11); int n = (feet + 1000) / 25; if (feet > -1000) put(f, 41, 12, (n >> 4) << 5 | 1 << 4 | (n & 15)); put(f, 54, 1, odd); put(f, 55, 17, yz & 131071); put(f, 72, 17, xz & 131071);
    return finish(f, icao, true, false);
}
static mode_s_msg vel(uint32_t icao, int sub, int ew, int ns, int vr, int hdg_valid = 0, int hdg = 0) {   // ew/ns in knots (signed), vr in units of 64 ft/min, 999: no information
    Fr f(14); f[0] = 17 << 3 | 5; put(f, 33, 5, 19); put(f, 38, 3, sub);
    if (sub == 1 || sub == 2) { put(f, 46, 1, ew < 0); put(f, 47, 10, ew == 9999 ? 0 : std::abs(ew) + 1); put(f, 57, 1, ns < 0); put(f, 58, 10, ns == 9999 ? 0 : std::abs(ns) + 1); }
    else { put(f, 46, 1, hdg_valid); put(f, 47, 10, hdg * 1024 / 360); put(f, 58, 10, 201); }
    put(f, 69, 1, vr < 0); put(f, 70, 9, vr == 999 ? 0 : std::abs(vr) + 1);
    return finish(f, icao, true, false);
}
