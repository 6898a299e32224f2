// A05: the aircraft map - coastline files of any content load safely, well-formed ones exactly; aircraft and coast are drawn
// at their places under every sequence of zooming and dragging.
#include "mc.hpp"
#include "adsb/adsb_aggregate.hpp"
#include "adsb_msg.hpp"
#include <algorithm>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <cerrno>
using namespace mc;
extern "C" const char* __asan_default_options() { return "allocator_may_return_null=0:max_allocation_size_mb=256:hard_rss_limit_mb=3000:detect_leaks=0"; }
typedef std::vector<uint8_t> Bytes;
typedef std::vector<std::pair<float, float>> Line;
static void le32(Bytes& b, uint32_t v) { for (int k = 0; k < 4; ++k) b.push_back(v >> (8 * k)); }
static void be32(Bytes& b, uint32_t v) { for (int k = 3; k >= 0; --k) b.push_back(v >> (8 * k)); }
static void dbl(Bytes& b, double d) { uint64_t v; memcpy(&v, &d, 8); for (int k = 0; k < 8; ++k) b.push_back(v >> (8 * k)); }
struct Rec { uint32_t type; std::vector<std::vector<std::pair<double, double>>> parts; };      // points are (lon, lat)
struct Shp { Bytes b; std::vector<size_t> rec; std::vector<Line> lines; std::vector<size_t> lines_before; };
static Shp shp(const std::vector<Rec>& rs) {
    Shp s; s.b.assign(100, 0); s.b[3] = 0x0a; s.b[2] = 0x27; int n = 1;
    for (auto& r : rs) {
        s.rec.push_back(s.b.size()); s.lines_before.push_back(s.lines.size());
        Bytes c; le32(c, r.type);
        if (r.type == 3 || r.type == 5) {
            for (int k = 0; k < 4; ++k) dbl(c, -1.5 * k); uint32_t np = 0; for (auto& p : r.parts) np += p.size(); le32(c, r.parts.size()); le32(c, np);
            uint32_t at = 0; for (auto& p : r.parts) { le32(c, at); at += p.size(); }
            for (auto& p : r.parts) { for (auto& q : p) { dbl(c, q.first); dbl(c, q.second); } if (r.type == 3 && !p.empty()) { Line l; for (auto& q : p) l.push_back({(float)q.second, (float)q.first}); s.lines.push_back(l); } }
        } else if (r.type == 1) { dbl(c, 1); dbl(c, 2); }
        be32(s.b, n++); be32(s.b, c.size() / 2); s.b.insert(s.b.end(), c.begin(), c.end());
    }
    s.rec.push_back(s.b.size()); s.lines_before.push_back(s.lines.size());
    for (size_t v : {(size_t)24}) { uint32_t w = s.b.size() / 2; for (int k = 0; k < 4; ++k) s.b[v + k] = w >> (8 * (3 - k)); }
    return s;
}
// what a file holds: the lines of its well-formed polyline records in order, and after how many lines a malformed record stands (where loading may stop)
struct Ref { std::vector<Line> lines; std::vector<size_t> stops; };
static Ref reference(const Bytes& b, size_t n) {
    Ref r; if (n < 100) return r; auto rd = [&](size_t o) { uint32_t v = 0; memcpy(&v, &b[o], 4); return v; }; size_t o = 100;
    while (o + 8 <= n) {
        uint64_t len = (uint64_t)(uint32_t)(__builtin_bswap32(rd(o + 4)) * 2u); if (o + 8 + len > n) break; size_t c = o + 8;
        if (len < 4) r.stops.push_back(r.lines.size());
        else if (rd(c) == 3) {
            uint64_t np = len >= 44 ? rd(c + 36) : 0, nq = len >= 44 ? rd(c + 40) : 0; bool ok = len >= 44 && 44 + 4 * np + 16 * nq <= len; if (ok && np && nq) { uint32_t prev = 0; for (size_t k = 0; k < np; ++k) { uint32_t x = rd(c + 44 + 4 * k); ok = ok && x >= prev && x <= nq && (k || x == 0); prev = x; } }
            if (!ok) r.stops.push_back(r.lines.size());
            else if (np && nq) for (size_t k = 0; k < np; ++k) { size_t x = rd(c + 44 + 4 * k), y = k + 1 < np ? rd(c + 48 + 4 * k) : nq; Line l; for (; x < y; ++x) { double q[2]; memcpy(q, &b[c + 44 + 4 * np + 16 * x], 16); l.push_back({(float)q[1], (float)q[0]}); } if (!l.empty()) r.lines.push_back(l); }
        }
        o += 8 + len;
    }
    return r;
}
static bool same(const Line& a, const Line& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof a[0])); }
struct File { int fd; std::string path; File() : fd(memfd_create("shp", 0)) { path = "/proc/self/fd/" + std::to_string(fd); } void set(const Bytes& b, size_t n) { MC_CHECK(ftruncate(fd, 0) == 0 && pwrite(fd, b.data(), n, 0) == (ssize_t)n, "harness", "write"); } ~File() { close(fd); } };
// loads n bytes (unchanged before byte `dirty`)
static void load(File& f, const Shp& s, const Bytes& b, size_t n, size_t dirty, const std::string& what) {
    note("%s", what.c_str()); f.set(b, n);
    CoastlineData d; bool ok = d.load_from_shapefile(f.path.c_str()); count_eval(); count_trans(); size_t pts = 0; for (auto& l : d.polylines) { MC_CHECK(!l.empty(), "empty", "%s: an empty line", what.c_str()); pts += l.size(); }
    MC_CHECK(ok == !d.polylines.empty(), "result", "%s: result %d with %zu lines", what.c_str(), ok, d.polylines.size());
    Ref r = reference(b, n); if (dirty >= n) { size_t k = 0; while (k + 1 < s.rec.size() && s.rec[k + 1] <= n) ++k; MC_CHECK(r.stops.empty() && r.lines.size() == (n < 100 ? 0 : s.lines_before[k]), "harness", "reference: %zu lines", r.lines.size()); }
    for (size_t i = 0; i < d.polylines.size(); ++i) { MC_CHECK(i < r.lines.size(), "invented", "%s: %zu lines, the well-formed records have %zu", what.c_str(), d.polylines.size(), r.lines.size()); MC_CHECK(same(d.polylines[i], r.lines[i]), "wrong", "%s: line %zu is wrong (%zu points instead of %zu)", what.c_str(), i, d.polylines[i].size(), r.lines[i].size()); }
    bool stop = d.polylines.size() == r.lines.size(); for (size_t x : r.stops) stop = stop || x == d.polylines.size(); MC_CHECK(stop, "lost", "%s: %zu lines, the well-formed records have %zu", what.c_str(), d.polylines.size(), r.lines.size());
    outcome(hmix(d.polylines.size(), pts));
}
static std::vector<Rec> shapes(int v) {
    auto pts = [](int n, double o) { std::vector<std::pair<double, double>> r; for (int i = 0; i < n; ++i) r.push_back({o + 0.25 * i, -o - 0.125 * i}); return r; };
    switch (v) {
        case 0: return {{3, {pts(2, 1), pts(1, 5)}}, {0, {}}, {3, {pts(3, 10), pts(2, 20), pts(4, 30)}}, {1, {}}, {5, {pts(3, 40)}}, {3, {pts(2, 50)}}};
        case 1: return {{3, {pts(5, 1)}}};
        case 2: return {{0, {}}, {5, {pts(4, 1)}}};
        case 3: return {{3, {pts(1, 1), pts(1, 2), pts(1, 3), pts(1, 4)}}, {3, {}}, {3, {pts(0, 0)}}, {3, {pts(2, 1), pts(0, 0), pts(2, 9)}}, {3, {pts(2, 7)}}};
        case 4: return {};
        default: { std::vector<Rec> r; for (int i = 0; i < 300; ++i) { Rec q{3, {}}; for (int k = 0; k <= i % 4; ++k) q.parts.push_back(pts(2 + (i * 7 + k) % 40, i)); r.push_back(q); } return r; }
    }
}
static void files() {
    for (int v = 0; v < 6; ++v) scenario("coastline file " + std::to_string(v), [=] {
        Shp s = shp(shapes(v)); File f; std::string N = "file " + std::to_string(v); sample("%s: %zu bytes, %zu lines", N.c_str(), s.b.size(), s.lines.size());
        load(f, s, s.b, s.b.size(), s.b.size(), N);
        size_t cut = thorough() ? 1 : v == 5 ? 37 : 1; for (size_t n = 0; n < s.b.size() && !out_of_time(); n += cut) load(f, s, s.b, n, n, N + " cut to " + std::to_string(n) + " bytes");
        if (v == 5 || v == 4) { state(v); return; }
        // every word of the records replaced by every interesting value, alone and (key words) in pairs
        std::vector<uint32_t> vals = {0, 1, 2, 3, 4, 5, 16, 43, 44, 45, 100, 255, 256, 65535, 65536, 0x10000000, 0x20000000, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000, 0x80000001, 0xc0000000, 0xfffffff0, 0xfffffff8, 0xfffffffe, 0xffffffff};
        std::vector<uint32_t> all; for (uint32_t x : vals) { all.push_back(x); all.push_back(__builtin_bswap32(x)); } std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
        auto setw = [](Bytes& b, size_t o, uint32_t x) { memcpy(&b[o], &x, 4); };
        auto one = [&](size_t o, uint32_t x) { Bytes b = s.b; setw(b, o, x); if (b == s.b) return; load(f, s, b, b.size(), o, N + " with " + std::to_string(x) + " at byte " + std::to_string(o)); };
        for (size_t o = 0; o + 4 <= s.b.size() && !out_of_time(); o += 4) for (uint32_t x : all) { state(hmix(o, x)); one(o, x); }
        std::vector<size_t> key; for (size_t r = 0; r + 1 < s.rec.size(); ++r) for (size_t k : {(size_t)4, (size_t)8, (size_t)44, (size_t)48, (size_t)52, (size_t)56, (size_t)60}) if (s.rec[r] + k + 4 <= s.rec[r + 1]) key.push_back(s.rec[r] + k);
        std::vector<uint32_t> few; if (thorough()) few = all; else for (uint32_t x : {1u, 2u, 3u, 5u, 0x3fffffffu, 0x40000001u, 0x80000000u, 0xfffffff8u, 0xffffffffu, 0x01000000u, 0x16000000u, 0x80u}) few.push_back(x);
        for (size_t a = 0; a < key.size(); ++a) for (size_t c = a + 1; c < key.size() && key[c] < key[a] + 64; ++c) for (uint32_t x : few) for (uint32_t y : few) {
            if (out_of_time()) return; Bytes b = s.b; setw(b, key[a], x); setw(b, key[c], y); load(f, s, b, b.size(), key[a], N + " with " + std::to_string(x) + " at byte " + std::to_string(key[a]) + " and " + std::to_string(y) + " at " + std::to_string(key[c]));
        }
        // the same changes with the file cut right behind them
        for (size_t c : key) for (uint32_t x : few) for (size_t n = c + 4; n < std::min(s.b.size(), c + 70); n += 3) { Bytes b = s.b; setw(b, c, x); load(f, s, b, n, std::min(c, n), N + " with " + std::to_string(x) + " at byte " + std::to_string(c) + ", cut to " + std::to_string(n)); }
    });
    scenario("no coastline file", [] { CoastlineData d; MC_CHECK(!d.load_from_shapefile("/nonexistent/x.shp"), "result", "a missing file is loaded"); MC_CHECK(!d.load_from_shapefile("/proc/self"), "result", "a directory is loaded"); count_eval(2); outcome(1); });
}
// ---- the map
struct Craft { double lat, lon, track; int alt; std::string cs; };
struct View { std::vector<ImVec2> at, dir; std::vector<std::string> label; std::vector<mock::Prim> lines; };
static void map_case(std::string nm, ImVec2 avail, float clat, float clon, std::vector<Craft> cr, int coast, int len) {
    scenario("map " + nm, [=] {
        Opts o; o.bound = 0; sample("%s", nm.c_str());
        static File f; Shp s; if (coast >= 0) { std::vector<std::vector<std::pair<double, double>>> parts = {{{clon - 0.5, clat}, {clon, clat + 0.5}, {clon + 0.5, clat}}, {{clon + 0.25, clat - 0.25}, {clon + 0.375, clat - 0.5}}, {{clon, clat - 0.75}}}; s = shp({{3, parts}, {0, {}}, {3, {{{clon - 0.75, clat - 0.75}, {clon - 0.7, clat + 0.75}}}}}); f.set(s.b, s.b.size()); }
        std::vector<mode_s_msg> ms; for (size_t i = 0; i < cr.size(); ++i) {
            uint32_t ic = 0x400000 + i; double t = cr[i].track * M_PI / 180; ms.push_back(cr[i].cs.empty() ? all_call(ic) : ident(ic, cr[i].cs.c_str())); if (cr[i].track >= 0) ms.push_back(vel(ic, 1, (int)std::lround(400 * std::sin(t)), (int)std::lround(400 * std::cos(t)), 999));
            if (cr[i].lat > 1000) ms.push_back(pos(ic, cr[i].lat - 1000, cr[i].lon, i & 1, cr[i].alt)); else if (cr[i].lat < 900) { ms.push_back(pos(ic, cr[i].lat, cr[i].lon, 0, cr[i].alt)); ms.push_back(pos(ic, cr[i].lat, cr[i].lon, 1, cr[i].alt)); }
        }
        explore(o, [=] {
            mock::g = mock::State(); mock::g.avail = avail;
            ADSBAggregateBlock b("map", clat, clon, nullptr, nullptr, coast >= 0 ? f.path.c_str() : "/nonexistent/none.shp"); for (auto& m : ms) b.in.writeN(&m, 1); (void)b.procedure();
            std::vector<ADSBState> tab(cr.size() + 1); size_t n = b.get_aircrafts(tab.data(), tab.size()), located = 0; for (size_t i = 0; i < n; ++i) located += tab[i].position_valid;
            float W = std::max(avail.x, 200.0f), H = std::max(avail.y, 200.0f); ImVec2 c0(10 + W / 2, 20 + H / 2); double ox = 0, oy = 0, k = 0; std::string hist; uint64_t h = 0;
            auto draw = [&](float wheel, ImVec2 mouse, int drag, ImVec2 delta) { mock::g.prims.clear(); mock::g.wheel = wheel; mock::g.mouse = mouse; mock::g.dragging = drag; mock::g.drag.x += delta.x; mock::g.drag.y += delta.y; b.render(); count_trans(); MC_CHECK(mock::g.depth == 0, "window", "Begin and End do not match"); mock::g.wheel = 0; };
            // what is drawn now, against scale k (0: unknown, found here) and the map point shown at the middle
            auto look = [&](double& clo, double& cla, bool scale_known) {
                mock::g.prims.clear(); draw(0, ImVec2(-1, -1), -1, ImVec2());
                std::vector<std::pair<ImVec2, ImVec2>> tri; std::multiset<std::string> lab; for (auto& p : mock::g.prims) { if (p.kind == 2) { ImVec2 m((p.b.x + p.c.x) / 2, (p.b.y + p.c.y) / 2); ImVec2 d(p.a.x - m.x, p.a.y - m.y); tri.push_back({ImVec2(m.x + 0.4f * d.x, m.y + 0.4f * d.y), d}); } if (p.kind == 4) lab.insert(p.text); }
                MC_CHECK(tri.size() == located, "drawn", "%s:%s: %zu aircraft are drawn, %zu have a position", nm.c_str(), hist.c_str(), tri.size(), located);
                size_t ti = 0; std::multiset<std::string> want;
                for (size_t i = 0; i < n; ++i) if (tab[i].position_valid) {
                    if (tab[i].callsign[0]) want.insert(tab[i].callsign);
                    double dx = tab[i].lon - clo, dy = tab[i].lat - cla; 
                    // find the drawn aircraft that fits
                    bool hit = false; std::string why; for (auto& t : tri) {
                        double ex = std::min(10.0 + W, std::max(10.0, c0.x + k * dx)), ey = std::min(20.0 + H, std::max(20.0, c0.y - k * dy));
                        double tr = tab[i].track * M_PI / 180, l = std::hypot(t.second.x, t.second.y); bool dir = l > 1 && std::fabs(t.second.x / l - std::sin(tr)) < 0.02 && std::fabs(t.second.y / l + std::cos(tr)) < 0.02;
                        if (std::fabs(t.first.x - ex) < 1.5 && std::fabs(t.first.y - ey) < 1.5 && dir) hit = true;
                        char z[160]; snprintf(z, sizeof z, " drawn at (%.1f, %.1f) pointing (%.2f, %.2f), expected (%.1f, %.1f) pointing (%.2f, %.2f);", t.first.x, t.first.y, t.second.x / l, t.second.y / l, ex, ey, std::sin(tr), -std::cos(tr)); why += z;
                    }
                    MC_CHECK(hit, "place", "%s:%s: aircraft at (%.4f, %.4f) is not drawn at its place:%s", nm.c_str(), hist.c_str(), tab[i].lat, tab[i].lon, why.c_str()); ++ti; count_eval();
                }
                MC_CHECK(lab == want, "label", "%s:%s: %zu labels instead of %zu, or others", nm.c_str(), hist.c_str(), lab.size(), want.size());
                if (coast >= 0) for (auto& l : s.lines) for (size_t i = 0; i + 1 < l.size(); ++i) {
                    auto px = [&](std::pair<float, float> p) { return ImVec2((float)std::min(10.0 + W, std::max(10.0, c0.x + k * (p.second - clo))), (float)std::min(20.0 + H, std::max(20.0, c0.y - k * (p.first - cla)))); };
                    ImVec2 a = px(l[i]), e = px(l[i + 1]); bool hit = false; for (auto& p : mock::g.prims) if (p.kind == 0 && std::fabs(p.a.x - a.x) < 1 && std::fabs(p.a.y - a.y) < 1 && std::fabs(p.b.x - e.x) < 1 && std::fabs(p.b.y - e.y) < 1) hit = true;
                    MC_CHECK(hit, "coast", "%s:%s: the coast from (%.3f, %.3f) to (%.3f, %.3f) is not drawn", nm.c_str(), hist.c_str(), l[i].first, l[i].second, l[i + 1].first, l[i + 1].second);
                }
                if (coast >= 0) {                          // nothing joins separate parts
                    auto px = [&](std::pair<float, float> p) { return ImVec2((float)(c0.x + k * (p.second - clo)), (float)(c0.y - k * (p.first - cla))); };
                    for (size_t i = 0; i + 1 < s.lines.size(); ++i) { ImVec2 a = px(s.lines[i].back()), e = px(s.lines[i + 1].front()); if (a.x < 12 || a.x > 8 + W || a.y < 22 || a.y > 18 + H || e.x < 12 || e.x > 8 + W || e.y < 22 || e.y > 18 + H || k < 100) continue; for (auto& p : mock::g.prims) MC_CHECK(!(p.kind == 0 && std::fabs(p.a.x - a.x) < 0.5 && std::fabs(p.a.y - a.y) < 0.5 && std::fabs(p.b.x - e.x) < 0.5 && std::fabs(p.b.y - e.y) < 0.5), "coast", "%s:%s: separate coast lines %zu and %zu are joined", nm.c_str(), hist.c_str(), i, i + 1); }
                }
                for (auto& p : mock::g.prims) for (ImVec2 q : {p.a, p.b}) MC_CHECK(std::isfinite(q.x) && std::isfinite(q.y) && q.x > -100 && q.y > -100 && q.x < W + 150 && q.y < H + 150, "canvas", "%s:%s: something is drawn at (%.1f, %.1f)", nm.c_str(), hist.c_str(), q.x, q.y);
            };
            double clo = clon, cla = clat; (void)ox; (void)oy;
            // the scale: documented as 2 degrees of latitude across the window at zoom 1; starts at 0.1
            k = H / 2.0 * 0.1; double zoom = 0.1; look(clo, cla, false);
            for (int st = 0; st < len; ++st) {
                int a = choose(8); ImVec2 in(10 + W / 3, 20 + H / 4), out(10 + W + 5, 20 + H / 2); ImVec2 d(0, 0); float wh = 0; int drag = -1; ImVec2 m = in;
                switch (a) { case 0: wh = 1; break; case 1: wh = -1; break; case 2: wh = 30; break; case 3: wh = -30; break; case 4: drag = ImGuiMouseButton_Left; d = ImVec2(13, -7); break; case 5: drag = ImGuiMouseButton_Right; d = ImVec2(-40, 25); break; case 6: wh = 2; m = out; break; case 7: drag = ImGuiMouseButton_Left; d = ImVec2(50, 50); m = out; break; }
                hist += a == 0 ? " wheel+1" : a == 1 ? " wheel-1" : a == 2 ? " wheel+30" : a == 3 ? " wheel-30" : a == 4 ? " drag" : a == 5 ? " dragR" : a == 6 ? " wheel-outside" : " drag-outside"; note("%s:%s", nm.c_str(), hist.c_str());
                draw(wh, m, drag, ImVec2(d.x / 2, d.y / 2)); if (drag >= 0) draw(0, m, drag, ImVec2(d.x - d.x / 2, d.y - d.y / 2)); mock::g.dragging = -1; mock::g.drag = ImVec2();
                if (m.x == in.x) { zoom = std::max(0.01, std::min(50.0, zoom * (1 + 0.1 * wh))); clo -= d.x / (H / 2.0 * zoom); cla += d.y / (H / 2.0 * zoom); }
                // between deg and px only the scale matters; grow tolerance is not needed as float errors stay below a pixel for moderate zooms
                k = H / 2.0 * zoom; look(clo, cla, true); h = hmix(h, a); state(h);
            }
            outcome(hmix((uint64_t)(zoom * 1000), (uint64_t)(clo * 100)));
        });
    });
}
static void setup() {
    files(); bool T = thorough(); int L = T ? 5 : 4;
    std::vector<Craft> one{{32, 34, 0, 10000, "AAA"}}, many{{32, 34, 0, 1000, "MID"}, {32.5, 34.75, 45, 20000, "NE1"}, {31.5, 33.5, 225, 45000, ""}, {32.25, 33.25, 315, 0, "NW"}, {31, 34.5, 180, 100, "SOUTH"}, {999, 0, 90, 0, "NOPOS"}, {1032.5, 34.5, 90, 9000, "HALF0"}, {1032.25, 34.5, 90, 9000, "HALF1"}, {38, 34, 90, 30000, "FARN"}, {32, 60, 270, 30000, "FARE"}};
    map_case("one aircraft in the middle", ImVec2(800, 600), 32, 34, one, -1, L); map_case("many aircraft and a coast", ImVec2(800, 600), 32, 34, many, 0, L); map_case("narrow window", ImVec2(100, 500), 32, 34, many, 0, 3); map_case("wide window", ImVec2(1400, 300), 32, 34, many, 0, 3);
    std::vector<Craft> south{{-33.9, -70.7, 123, 5000, "LAN1"}, {-33.5, -70.25, 10, 36000, "LAN2"}, {-34.5, -71.5, 350, 25, "X"}}; map_case("south-west", ImVec2(640, 480), -33.9f, -70.7f, south, 0, L);
    std::vector<Craft> hdg; for (int t = 0; t < 360; t += 15) hdg.push_back({32 + 0.3 * (t / 90), 34 + 0.4 * (t / 15 % 6), (double)t, t * 100, "T" + std::to_string(t)}); map_case("every track", ImVec2(900, 900), 32.4f, 35, hdg, -1, 2);
}
MC_MAIN(setup)
