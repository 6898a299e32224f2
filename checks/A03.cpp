// A03: compact position reports. Every latitude cell of the even and the odd grid (and points between them), every
// longitude cell, both parities, airborne and surface, global and relative decoding, against an independent encoder.
#include "mc.hpp"
#include "adsb/cpr.h"
#include <cmath>
#include <cstdio>
#include <vector>
#include <algorithm>
using namespace mc;
typedef long double LD;
static const int Q = 131072;
static LD BND[60];                       // BND[n]: below this latitude there are at least n zones (n = 2..59)
static int NL(LD lat) { lat = fabsl(lat); if (lat > 87) return 1; int n = 1; for (int k = 59; k >= 2; --k) if (lat < BND[k]) { n = k; break; } return n; }
static bool near_bnd(LD lat, LD eps = 1e-7L) { lat = fabsl(lat); if (fabsl(lat - 87) < eps) return true; for (int k = 2; k <= 59; ++k) if (fabsl(lat - BND[k]) < eps) return true; return false; }
static int NLfast(LD lat) {
    lat = fabsl(lat); if (lat >= 87) return 1;
    int lo = 2, hi = 59;                 // largest n with lat < BND[n]; BND decreases with n
    while (lo < hi) { int m = (lo + hi + 1) / 2; if (lat < BND[m]) lo = m; else hi = m - 1; }
    return lo;
}
static LD fmodp(LD a, LD b) { LD r = fmodl(a, b); return r < 0 ? r + b : r; }
struct Enc { int lat, lon; LD rlat, dlat, dlon; int nl; };
static Enc encode(LD lat, LD lon, int odd, bool surf) {
    Enc e; LD Nb = surf ? 524288 : 131072;
    LD D = 360.0L / (60 - odd); LD q = floorl(Nb * lat / D + 0.5L);            // index of the nearest cell
    e.rlat = D * q / Nb; e.nl = NLfast(e.rlat);
    int ni = std::max(e.nl - odd, 1); LD DL = 360.0L / ni; LD p = floorl(Nb * lon / DL + 0.5L);
    e.lat = (int)fmodp(q, Q); e.lon = (int)fmodp(p, Q); e.dlat = D / Nb; e.dlon = DL / Nb;
    return e;
}
static LD dlon_err(LD a, LD b) { LD d = fabsl(fmodp(a - b + 180, 360) - 180); return d; }
static void check_pos(const char* what, LD lat, LD lon, const Enc& e, double olat, double olon) {
    MC_CHECK(olat >= -90 - 1e-9 && olat <= 90 + 1e-9 && olon >= -180 - 1e-9 && olon <= 180 + 1e-9, "range", "%s of (%.9Lf, %.9Lf) gives (%.9f, %.9f), not on the globe's coordinate range", what, lat, lon, olat, olon);
    MC_CHECK(fabsl(olat - lat) <= e.dlat * 0.5L + 1e-9L, "latitude", "%s of (%.9Lf, %.9Lf) gives latitude %.9f, off by %.3Lf resolution steps", what, lat, lon, olat, fabsl(olat - lat) / e.dlat);
    MC_CHECK(fabsl(lat) >= 89.99995L || dlon_err(olon, lon) <= e.dlon * 0.5L + 1e-9L, "longitude", "%s of (%.9Lf, %.9Lf) gives longitude %.9f, off by %.3Lf resolution steps", what, lat, lon, olon, dlon_err(olon, lon) / e.dlon);
}
static uint64_t NE;
static void airborne(LD lat, LD lon) {
    if (lat > 90) lat = 90; if (lat < -90) lat = -90;
    Enc a = encode(lat, lon, 0, false), b = encode(lat, lon, 1, false);
    bool fuzzy = fabsl(a.rlat) > 90 - 1e-9L || fabsl(b.rlat) > 90 - 1e-9L;     // rounds to the pole or beyond: may be refused
    bool nb = (a.nl != NLfast(a.rlat + 1e-7L) || a.nl != NLfast(a.rlat - 1e-7L) || b.nl != NLfast(b.rlat + 1e-7L) || b.nl != NLfast(b.rlat - 1e-7L));
    for (int f = 0; f < 2; ++f) {
        double ol = 1e9, oo = 1e9; int r = decodeCPRairborne(a.lat, a.lon, b.lat, b.lon, f, &ol, &oo); ++NE;
        if (r != 0) {
            MC_CHECK(nb || fuzzy || a.nl != b.nl, "refused", "airborne pair of (%.9Lf, %.9Lf) refused (%d) although both reports are in the same zone", lat, lon, r);
            continue;
        }
        MC_CHECK(nb || a.nl == b.nl, "accepted", "airborne pair of (%.9Lf, %.9Lf) accepted although the reports are in zones %d and %d", lat, lon, a.nl, b.nl);
        if (a.nl != b.nl) continue;
        check_pos(f ? "airborne odd decode" : "airborne even decode", lat, lon, f ? b : a, ol, oo);
    }
}
static void surface(LD lat, LD lon, LD reflat, LD reflon) {
    if (fabsl(reflat) > 90) return; while (reflon > 180) reflon -= 360; while (reflon < -180) reflon += 360;
    Enc a = encode(lat, lon, 0, true), b = encode(lat, lon, 1, true);
    // half a circle from the encoded pole on either side is ambiguous by design
    if (fabsl(a.rlat - reflat) > 44.9L || fabsl(b.rlat - reflat) > 44.9L) return;
    bool fuzzy = fabsl(a.rlat) > 90 - 1e-9L || fabsl(b.rlat) > 90 - 1e-9L || (a.rlat == 0) != (b.rlat == 0);
    bool nb = (a.nl != NLfast(a.rlat + 1e-7L) || a.nl != NLfast(a.rlat - 1e-7L) || b.nl != NLfast(b.rlat + 1e-7L) || b.nl != NLfast(b.rlat - 1e-7L));
    for (int f = 0; f < 2; ++f) {
        double ol = 1e9, oo = 1e9; int r = decodeCPRsurface((double)reflat, (double)reflon, a.lat, a.lon, b.lat, b.lon, f, &ol, &oo); ++NE;
        if (r != 0) { MC_CHECK(nb || fuzzy || a.nl != b.nl, "refused", "surface pair of (%.9Lf, %.9Lf) with reference (%.3Lf, %.3Lf) refused (%d)", lat, lon, reflat, reflon, r); continue; }
        MC_CHECK(nb || a.nl == b.nl, "accepted", "surface pair of (%.9Lf, %.9Lf) accepted although the reports are in zones %d and %d", lat, lon, a.nl, b.nl);
        if (a.nl != b.nl) continue;
        check_pos(f ? "surface odd decode" : "surface even decode", lat, lon, f ? b : a, ol, oo);
    }
}
static void relative(LD lat, LD lon, LD flat, LD flon, bool surf) {      // reference flat, flon cells away (|.| < 0.5)
    for (int f = 0; f < 2; ++f) {
        Enc e = encode(lat, lon, f, surf); if (fabsl(e.rlat) > 90 - 1e-9L) continue;
        LD DA = (surf ? 90.0L : 360.0L) / (60 - f), DO = (surf ? 90.0L : 360.0L) / std::max(e.nl - f, 1);
        if (e.nl != NLfast(e.rlat + 1e-7L) || e.nl != NLfast(e.rlat - 1e-7L)) continue;
        LD rl = e.rlat + flat * DA, ro = lon + flon * DO; if (fabsl(rl) > 90) continue;
        while (ro > 180) ro -= 360; while (ro < -180) ro += 360;
        double ol = 1e9, oo = 1e9; int r = decodeCPRrelative((double)rl, (double)ro, e.lat, e.lon, f, surf, &ol, &oo); ++NE;
        MC_CHECK(r == 0, "rel-refused", "relative %s %s decode of (%.9Lf, %.9Lf) with reference (%.9Lf, %.9Lf), %.2Lf/%.2Lf cells away, refused", surf ? "surface" : "airborne", f ? "odd" : "even", lat, lon, rl, ro, flat, flon);
        check_pos("relative decode", lat, lon, e, ol, oo);
    }
}
// arbitrary report values: what is accepted must be a place that encodes to them
static void pair_any(int la0, int lo0, int la1, int lo1) {
    long j = (59L * la0 - 60L * la1 + 65536) >> 17;
    LD r0 = 6.0L * (((j % 60) + 60) % 60 + la0 / (LD)Q), r1 = 360.0L / 59 * (((j % 59) + 59) % 59 + la1 / (LD)Q);
    if (r0 >= 270) r0 -= 360; if (r1 >= 270) r1 -= 360;
    bool off = fabsl(r0) > 90 || fabsl(r1) > 90, edge = fabsl(fabsl(r0) - 90) < 1e-9L || fabsl(fabsl(r1) - 90) < 1e-9L || near_bnd(r0) || near_bnd(r1);
    bool zones = !off && NLfast(r0) != NLfast(r1);
    for (int f = 0; f < 2; ++f) {
        double ol = 1e9, oo = 1e9; int r = decodeCPRairborne(la0, lo0, la1, lo1, f, &ol, &oo); ++NE;
        if (edge) continue;
        MC_CHECK((r != 0) == (off || zones), "refusal", "airborne pair lat %d/%d lon %d/%d: %s although the latitudes %.6Lf and %.6Lf are %s", la0, la1, lo0, lo1, r ? "refused" : "accepted", r0, r1, off ? "off the globe" : zones ? "in different zones" : "in the same zone");
        if (r) continue;
        Enc e = encode(ol, oo, f, false);
        LD want = f ? r1 : r0; MC_CHECK(fabsl(ol - want) < 1e-9L, "latitude", "airborne pair lat %d/%d decodes to latitude %.9f, expected %.9Lf", la0, la1, ol, want);
        int wl = f ? lo1 : lo0; int d = (e.lon - wl + Q) % Q; 
        MC_CHECK(d == 0, "longitude", "airborne pair lat %d/%d lon %d/%d decodes to %.9f, %.9f, which encodes to longitude %d", la0, la1, lo0, lo1, ol, oo, e.lon);
        int n = NLfast(want), ni = std::max(n - f, 1); long m = (long)floorl(((LD)lo0 * (n - 1) - (LD)lo1 * n) / Q + 0.5L);
        LD wlon = 360.0L / ni * (((m % ni) + ni) % ni + wl / (LD)Q);
        MC_CHECK(dlon_err(wlon, oo) < 1e-8L, "longitude", "airborne pair lat %d/%d lon %d/%d decodes to longitude %.9f, expected %.9Lf", la0, la1, lo0, lo1, oo, wlon);
        outcome(hmix(n, ni * 64 + m));
    }
}
static const LD LONS[] = {0, 45.1L, 89.99999L, -0.00001L, 179.99999L, -179.99999L, -120.3L, 13.37L, 180, -90, 3.0L / 7, -59.9L};
static void flush() { count_eval(NE); count_trans(NE); NE = 0; }
static void setup() {
    for (int n = 2; n <= 59; ++n) BND[n] = 180 / M_PIl * acosl(sqrtl((1 - cosl(M_PIl / 30)) / (1 - cosl(2 * M_PIl / n))));
    BND[2] = 87;
    bool T = thorough();
    // every latitude cell of both grids, on the grid and just beside the rounding points
    const int W = 48;
    for (int w = 0; w < W; ++w) scenario("latitude cells " + std::to_string(w), [=] {
        for (int odd = 0; odd < 2; ++odd) {
            long n = odd ? 59L * Q / 4 : 15L * Q; LD step = 360.0L / (60 - odd) / Q;
            for (long i = -n + w; i <= n; i += W) for (LD o : {0.0L, 0.49L, -0.49L}) {
                LD lat = (i + o) * step; 
                airborne(lat, LONS[(i + 3 * n) % 12]); if (T) for (LD l : LONS) airborne(lat, l);
                if (o == 0) { LD lo = LONS[(i + 5 + 3 * n) % 12]; surface(lat, lo, lat + (i % 44), lo - ((i / 7) % 44)); relative(lat, lo, ((i % 99)) / 200.0L, ((i / 3) % 99) / 200.0L, i & 1); }
            }
            flush();
        }
        state(w); outcome(w);
    });
    // every longitude cell of every zone count
    for (int n = 1; n <= 59; ++n) scenario("longitude cells, " + std::to_string(n) + " zones", [=] {
        LD hi = n == 1 ? 90 : BND[n], lo = n == 59 ? 0 : BND[n + 1]; if (n == 1) lo = 87;
        for (LD lat : {lo + (hi - lo) * 0.5L, -(lo + (hi - lo) * 0.77L)}) for (int odd = 0; odd < 2; ++odd) {
            int ni = std::max(n - odd, 1); LD step = 360.0L / ni / Q; long tot = (long)ni * Q;
            for (long i = 0; i < tot; ) {
                LD lon = i * step; if (lon > 180) lon -= 360;
                airborne(lat, lon); airborne(lat, lon + 0.49L * step > 180 ? 180 : lon + 0.49L * step);
                if (i % 16 == 0) { surface(lat, lon, lat + 5, lon + 30); relative(lat, lon, 0.3L, -0.45L, false); relative(lat, lon, -0.3L, 0.45L, true); }
                // quick: cells next to zone boundaries and quadrants completely, every 13th elsewhere
                long c = i % Q; bool dense = c < 300 || c > Q - 300; i += (T || dense) ? 1 : std::min<long>(13, Q - 300 - c > 0 ? Q - 300 - c : 1);
            }
            flush();
        }
        state(1000 + n); outcome(1000 + n);
    });
    // references all around, especially across the date line, the equator and next to the poles
    for (int s = 0; s < 4; ++s) scenario(std::string("relative decoding ") + (s & 1 ? "surface " : "airborne ") + (s & 2 ? "fine" : "coarse"), [=] {
        std::vector<LD> lats, lons; 
        if (s & 2) { for (int i = -60; i <= 60; ++i) { lats.push_back(i * 0.0003L); lats.push_back(60 + i * 0.01L); lats.push_back(-(85 + i * 0.08L)); lons.push_back(180 - fabsl(i) * 0.003L); lons.push_back(-180 + fabsl(i) * 0.003L); lons.push_back(i * 0.0007L); } }
        else { for (int i = -89; i <= 89; ++i) lats.push_back(i + 0.123L); for (int i = -180; i <= 180; i += 3) lons.push_back(i); }
        for (LD lat : lats) { for (LD lon : lons) for (LD a : {-0.49L, -0.2L, 0.0L, 0.31L, 0.49L}) for (LD b : {-0.49L, -0.2L, 0.0L, 0.31L, 0.49L}) relative(lat, lon, a, b, s & 1); flush(); }
        state(2000 + s); outcome(2000 + s);
    });
    scenario("surface references", [=] {
        for (int i = -89; i <= 89; ++i) { for (int j = -180; j <= 180; j += 3) for (int a = -44; a <= 44; a += 11) for (int b = -44; b <= 44; b += 11) surface(i + 0.217L, j, i + a, j + b); flush(); }
        for (LD lat : {0.0L, 1e-4L, -1e-4L, 44.9L, 45.1L, -44.9L, -45.1L, 89.99L, -89.99L}) { for (int j = -180; j <= 180; ++j) for (int a = -44; a <= 44; ++a) for (LD b : {-44.5L, -1.0L, 0.0L, 44.5L}) surface(lat, j, lat + a, j + b); flush(); }
        state(3000); outcome(3000);
    });
    for (int w = 0; w < 16; ++w) scenario("arbitrary pairs " + std::to_string(w), [=] {
        int st = T ? 509 : 1021;
        for (int a = w * 61; a < Q; a += st * 16 / 16 * 16) for (int b = 0; b < Q; b += 127) for (int k = 0; k < 4; ++k) pair_any(a % Q, (a * 7 + k * 40009) % Q, b, (b * 3 + k * 77003) % Q);
        for (int a : {0, 1, 65535, 65536, 65537, 131070, 131071}) for (int b = w; b < Q; b += 16) { pair_any(a, b, b, a); pair_any(b, a, a, b); pair_any(b, b, b, b); }
        flush(); state(4000 + w);
    });
}
MC_MAIN(setup)
