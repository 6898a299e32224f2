// A04: aircraft table - the record of every aircraft is the function of its own messages that the protocol prescribes,
// whatever the order, batching and timing; queries and drawing beside the processing see only complete records.
#include "mc.hpp"
#include "adsb/adsb_aggregate.hpp"
#include <cmath>
#include <cstring>
#include <ctime>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
using namespace mc;
#ifndef THR
static long long fake_now = 1700000000; static bool fake_on = false;
static long long real_now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); return t.tv_sec; }
extern "C" time_t time(time_t* p) { time_t t = fake_on ? (time_t)fake_now : (time_t)real_now(); if (p) *p = t; return t; }
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept { int r = (int)syscall(SYS_clock_gettime, c, t); if (fake_on && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) { t->tv_sec = fake_now; t->tv_nsec = 0; } return r; }
#endif
#include "adsb_msg.hpp"
struct Ev { int kind; std::string name; mode_s_msg m; int ac; double lat = 0, lon = 0; int odd = 0; int place = 0; int alt = -9999; std::string cs; double speed = -1, track = -1; int vr = 999; long long dt = 0; };
static const uint32_t ICAO[3] = {0x4840D6, 0x000001, 0xFFFFFF};
// places: 0/1 neighbours, 2 far away, 3/4 on the two sides of a zone boundary, 5/6 the same on the southern, western side
static const double PL[7][2] = {{52.2572, 3.9193}, {52.2600, 3.9250}, {-33.9, -70.7}, {10.4700, 20.1}, {10.4710, 20.1}, {-14.8280, -0.001}, {-14.8285, 0.0005}};
static bool close_by(int a, int b) { return std::fabs(PL[a][0] - PL[b][0]) < 0.1 && std::fabs(PL[a][1] - PL[b][1]) < 0.1; }
static Ev make_pos(int ac, int place, int odd, int feet = -1000) { Ev e; e.kind = 4; e.ac = ac; e.place = place; e.odd = odd; e.lat = PL[place][0]; e.lon = PL[place][1]; e.m = pos(ICAO[ac], e.lat, e.lon, odd, feet); if (feet > 0) e.alt = feet; e.name = std::string(odd ? "odd" : "even") + std::to_string(place) + "/" + std::to_string(ac); return e; }
static Ev make_id(int ac, const char* cs) { Ev e; e.kind = 0; e.ac = ac; e.m = ident(ICAO[ac], cs); e.cs = cs; e.cs.resize(8, ' '); e.name = std::string("id-") + cs + "/" + std::to_string(ac); return e; }
static Ev make_vel(int ac, int sub, int ew, int ns, int vr, int hv = 0, int h = 0) {
    Ev e; e.kind = 2; e.ac = ac; e.m = vel(ICAO[ac], sub, ew, ns, vr, hv, h);
    if (sub == 1 && ew != 9999) { e.speed = std::hypot(ew, ns); if (e.speed > 1) { e.track = std::atan2(ew, ns) * 180 / M_PI; if (e.track < 0) e.track += 360; } }
    if (sub == 3 && hv) e.track = h; if (sub == 1) e.vr = vr;
    e.name = "vel" + std::to_string(sub) + (sub == 3 ? (hv ? "h" + std::to_string(h) : "-") : "(" + std::to_string(ew) + "," + std::to_string(ns) + "," + std::to_string(vr) + ")") + "/" + std::to_string(ac); return e;
}
static Ev make_alt(int ac, int feet) { Ev e; e.kind = 3; e.ac = ac; e.m = alt4(ICAO[ac], feet); if (feet > 0) e.alt = feet; e.name = "alt" + std::to_string(feet) + "/" + std::to_string(ac); return e; }
static Ev make_ac(int ac) { Ev e; e.kind = 5; e.ac = ac; e.m = all_call(ICAO[ac]); e.name = "call/" + std::to_string(ac); return e; }
static Ev make_clock(long long s) { Ev e; e.kind = 9; e.ac = -1; e.dt = s; e.name = "+" + std::to_string(s) + "s"; return e; }

struct Log { std::vector<ADSBState> calls; ADSBAggregateBlock* blk = nullptr; bool query = false; };
static void on_update(const ADSBState& s, void* c) { auto* L = (Log*)c; L->calls.push_back(s); if (L->query && L->blk) { ADSBState b[4]; (void)L->blk->get_aircrafts(b, 4); (void)L->blk->aircraft_count(); } }
typedef std::unique_ptr<ADSBAggregateBlock> Blk;
static bool same(const ADSBState& a, const ADSBState& b) {
    return a.icao == b.icao && !strncmp(a.callsign, b.callsign, 9) && a.altitude == b.altitude && a.groundspeed == b.groundspeed && a.track == b.track && a.vertical_rate == b.vertical_rate && a.position_valid == b.position_valid && (!a.position_valid || (a.lat == b.lat && a.lon == b.lon)) && a.message_count == b.message_count;
}
#ifndef THR
struct Ref {                                            // what the table must say about one aircraft
    int count = 0; long long last = 0; std::string cs; int alt = 0; double speed = 0, track = 0; int vr = 0; bool vr_set = false;
    bool valid = false; double lat = 0, lon = 0; struct Half { bool has = false, pre = false; long long t = 0; int place = 0; } half[2]; ADSBState shown; const Ev* src = nullptr;
};
static void seq(const char* nm, std::vector<Ev> evs, int len, int batchmode) {
    std::string N = nm; 
    scenario(N, [=] {
        Opts o; o.bound = 0; sample("%s", N.c_str());
        explore(o, [=] {
            fake_on = true; fake_now = 1700000000; Log log; log.query = true;
            Blk b = std::make_unique<ADSBAggregateBlock>("agg", 32.0f, 34.0f, on_update, &log, "/nonexistent/none.shp"); log.blk = b.get();
            std::map<int, Ref> ref; std::string hist; uint64_t h = 0; bool batch = batchmode && choose(2); std::vector<const Ev*> wait; 
            auto feed = [&](const Ev& e) { MC_CHECK(b->in.writeN(&e.m, 1) == 1, "harness", "feed"); };
            for (int i = 0; i < len; ++i) {
                const Ev& e = evs[choose((int)evs.size())]; hist += " " + e.name; h = hmix(h, (uint64_t)(&e - evs.data()));
                note("%s%s:%s", N.c_str(), batch ? " (in one call)" : "", hist.c_str());
                if (e.kind == 9) { if (!batch) fake_now += e.dt; else prune(); continue; }
                feed(e); if (batch) { wait.push_back(&e); if (i + 1 < len) continue; } else wait = {&e};
                log.calls.clear(); std::map<int, ADSBState> prev; for (auto& r : ref) prev[r.first] = r.second.shown;
                auto res = b->procedure(); count_trans(); MC_CHECK(res.is_ok() && b->in.size() == 0, "consumed", "%s:%s: the block leaves %zu messages", N.c_str(), hist.c_str(), (size_t)b->in.size());
                ADSBState all[8]; memset((void*)all, 0, sizeof all); size_t cnt = b->get_aircrafts(all, 8); std::map<uint32_t, ADSBState*> by; for (size_t k = 0; k < cnt; ++k) { MC_CHECK(!by.count(all[k].icao), "twice", "%s:%s: aircraft %06x is listed twice", N.c_str(), hist.c_str(), all[k].icao); by[all[k].icao] = &all[k]; }
                size_t call = 0;
                for (size_t wi = 0; wi < wait.size(); ++wi) {
                    const Ev* w = wait[wi]; const Ev& e = *w; Ref& r = ref[e.ac]; bool must = false, may = false; auto bad = [&](const char* k, const char* what, double got, double exp) { fail(k, "%s%s:%s: aircraft %d has %s %.6f, its messages say %.6f", N.c_str(), batch ? " (in one call)" : "", hist.c_str(), e.ac, what, got, exp); };
                    r.count++; r.last = fake_now;
                    if (!e.cs.empty() && r.cs != e.cs) { r.cs = e.cs; must = true; }
                    if (e.alt > 0 && r.alt != e.alt) { r.alt = e.alt; must = true; }
                    if (e.speed >= 0 && std::fabs(e.speed - r.speed) > 4) { r.speed = e.speed; must = true; } else if (e.speed >= 0) { may = may || e.speed != r.speed; r.speed = e.speed; }
                    if (e.track >= 0) { double d = std::fabs(e.track - r.track); if (d > 6) must = true; else if (w != r.src) may = true; r.track = e.track; r.src = w; }
                    if (e.vr != 999) { if (e.vr * 64 != r.vr) must = true; r.vr = e.vr * 64; }
                    bool free_pos = false, decoded = false, maybe = false;
                    if (e.kind == 4) {
                        auto& mine = r.half[e.odd]; auto& opp = r.half[!e.odd]; mine = {true, false, fake_now, e.place};
                        long long gap = fake_now - opp.t;
                        if (opp.has && gap <= 9) {
                            if (!close_by(e.place, opp.place)) free_pos = true;
                            else if (NLof(PL[e.place][0]) != NLof(PL[opp.place][0])) { mine.pre = opp.pre = true; }       // refused: the pair may be dropped
                            else if (opp.pre) maybe = true; else decoded = true;
                        } else if (opp.has && gap <= 10) free_pos = true;
                    }
                    if (decoded) { r.valid = true; r.lat = e.lat; r.lon = e.lon; must = true; }
                    if (free_pos || maybe) may = true;
                    // the call-back: exactly once, with the record as it is after this message
                    const ADSBState* now = nullptr;
                    bool have = call < log.calls.size() && log.calls[call].icao == ICAO[e.ac] && log.calls[call].message_count == r.count;
                    if (must) MC_CHECK(have, "callback-missing", "%s:%s: no call-back for %s although the record changed", N.c_str(), hist.c_str(), e.name.c_str());
                    if (!must && !may) MC_CHECK(!have, "callback-extra", "%s:%s: a call-back for %s which changed nothing", N.c_str(), hist.c_str(), e.name.c_str());
                    if (have) now = &log.calls[call++];
                    bool final_one = true; for (size_t x = wi + 1; x < wait.size(); ++x) if (wait[x]->ac == e.ac) final_one = false;
                    if (final_one) { MC_CHECK(by.count(ICAO[e.ac]), "missing", "%s:%s: aircraft %d is not in the table", N.c_str(), hist.c_str(), e.ac); if (now) MC_CHECK(same(*now, *by[ICAO[e.ac]]), "callback-state", "%s:%s: the call-back was given another record than the table holds", N.c_str(), hist.c_str()); now = by[ICAO[e.ac]]; }
                    if (!now) continue;
                    if (free_pos || maybe) {
                        if (maybe && now->position_valid && (!r.valid || now->lat != r.shown.lat || now->lon != r.shown.lon)) { if (std::fabs(now->lat - e.lat) > 3e-4) bad("position", "latitude", now->lat, e.lat); if (std::fabs(now->lon - e.lon) > 6e-4) bad("position", "longitude", now->lon, e.lon); }
                        r.valid = now->position_valid; r.lat = now->lat; r.lon = now->lon;
                        r.half[0].pre = r.half[1].pre = r.half[0].pre || r.half[1].pre || free_pos; if (free_pos) { r.half[0].pre = r.half[1].pre = true; }
                    }
                    if (now->message_count != r.count) bad("count", "message count", now->message_count, r.count);
                    if (now->last_update_time != (uint32_t)fake_now) bad("time", "last update at", now->last_update_time, (double)fake_now);
                    MC_CHECK(r.cs.empty() ? now->callsign[0] == 0 : !strcmp(now->callsign, r.cs.c_str()), "callsign", "%s:%s: aircraft %d has the call sign '%.9s', its messages say '%s'", N.c_str(), hist.c_str(), e.ac, now->callsign, r.cs.c_str());
                    if (now->altitude != r.alt) bad("altitude", "altitude", now->altitude, r.alt);
                    if (std::fabs(now->groundspeed - r.speed) > 2.5) bad("speed", "ground speed", now->groundspeed, r.speed);
                    { double d = std::fabs(now->track - r.track); if (d > 180) d = 360 - d; if (d > 2.9) bad("track", "track", now->track, r.track); }
                    if (now->vertical_rate != r.vr) bad("vertical-rate", "vertical rate", now->vertical_rate, r.vr);
                    if (now->position_valid != r.valid) bad("position", "position_valid", now->position_valid, r.valid);
                    if (r.valid) { if (std::fabs(now->lat - r.lat) > 3e-4) bad("position", "latitude", now->lat, r.lat); if (std::fabs(now->lon - r.lon) > 6e-4) bad("position", "longitude", now->lon, r.lon); }
                    if (decoded && now->position_update_time != (uint32_t)fake_now) bad("time", "position updated at", now->position_update_time, (double)fake_now);
                    r.shown = *now; count_eval();
                }
                MC_CHECK(call == log.calls.size(), "callback-extra", "%s:%s: %zu call-backs, %zu expected", N.c_str(), hist.c_str(), log.calls.size(), call);
                MC_CHECK(cnt == ref.size() && b->aircraft_count() == ref.size(), "table-size", "%s:%s: %zu aircraft listed, %zu counted, %zu heard", N.c_str(), hist.c_str(), cnt, b->aircraft_count(), ref.size());
                if (!batch) for (auto& r : ref) if (r.first != e.ac) MC_CHECK(same(prev[r.first], *by[ICAO[r.first]]), "crosstalk", "%s:%s: the record of aircraft %d changed by a message of aircraft %d", N.c_str(), hist.c_str(), r.first, e.ac);
                state(hmix(h, i));
            }
            uint64_t q = 0; for (auto& r : ref) q = hmix(q, hmix(r.second.count, r.second.valid + 2 * (r.second.alt != 0))); outcome(q);
            fake_on = false;
        });
    });
}
static void many(size_t n) {                            // more messages than one call takes, many aircraft, small query buffers
    scenario("table of " + std::to_string(n) + " aircraft", [=] {
        fake_on = false; Log log; auto b = std::make_unique<ADSBAggregateBlock>("agg", 0.0f, 0.0f, on_update, &log, "");
        std::vector<mode_s_msg> ms; for (size_t i = 0; i < n; ++i) { ms.push_back(all_call((uint32_t)(i * 7 + 1))); ms.push_back(ident((uint32_t)(i * 7 + 1), ("A" + std::to_string(i)).c_str())); }
        size_t fed = 0; int guard = 0; while (fed < ms.size() || b->in.size()) { size_t k = std::min((size_t)b->in.space(), ms.size() - fed); if (k) { b->in.writeN(ms.data() + fed, k); fed += k; } size_t s = b->in.size(); auto r = b->procedure(); count_trans(); MC_CHECK(r.is_ok() && b->in.size() < s, "consumed", "%zu messages wait and none is taken", s); MC_CHECK(++guard < 100000, "stuck", "not done"); }
        MC_CHECK(b->procedure().is_err(), "result", "success without a message");
        MC_CHECK(b->aircraft_count() == n && log.calls.size() == n, "table-size", "%zu aircraft and %zu call-backs for %zu", b->aircraft_count(), log.calls.size(), n);
        for (size_t q : {(size_t)0, (size_t)1, n / 2, n - 1, n, n + 3}) {
            std::vector<ADSBState> v(q); size_t k = b->get_aircrafts(v.data(), q); MC_CHECK(k == std::min(q, n), "query", "%zu aircraft returned for a buffer of %zu", k, q); std::map<uint32_t, int> seen;
            for (size_t i = 0; i < k; ++i) { MC_CHECK(!seen[v[i].icao]++, "twice", "aircraft %06x twice", v[i].icao); std::string cs = "A" + std::to_string((v[i].icao - 1) / 7); cs.resize(8, ' '); MC_CHECK(cs == v[i].callsign && v[i].message_count == 2, "callsign", "aircraft %06x: '%s' after %d messages", v[i].icao, v[i].callsign, v[i].message_count); count_eval(); }
        }
        outcome(n); state(n);
    });
}
static void setup() {
    bool T = thorough(); fake_on = false;
    std::vector<Ev> P; for (int p : {0, 1}) for (int f : {0, 1}) P.push_back(make_pos(0, p, f)); P.push_back(make_pos(1, 0, 0)); P.push_back(make_pos(1, 1, 1)); for (long long s : {9, 12, 3000}) P.push_back(make_clock(s));
    seq("positions of two aircraft", P, T ? 6 : 5, 1);
    std::vector<Ev> Q; for (int p : {0, 2}) for (int f : {0, 1}) Q.push_back(make_pos(0, p, f)); for (int f : {0, 1}) for (int p : {3, 4}) Q.push_back(make_pos(0, p, f)); Q.push_back(make_clock(12)); Q.push_back(make_clock(-5));
    seq("positions far apart and across a zone boundary", Q, T ? 5 : 4, 0);
    std::vector<Ev> S; for (int p : {5, 6}) for (int f : {0, 1}) S.push_back(make_pos(2, p, f, 100)); S.push_back(make_pos(2, 6, 0, 41000)); S.push_back(make_clock(20));
    seq("positions with altitude in the south-west", S, T ? 6 : 5, 1);
    std::vector<Ev> V{make_vel(0, 1, 300, 0, 999), make_vel(0, 1, -200, -200, 10), make_vel(0, 1, -200, -200, -10), make_vel(0, 1, 60, 0, 0), make_vel(0, 1, 9999, 9999, 999), make_vel(0, 3, 0, 0, 999, 1, 90), make_vel(0, 3, 0, 0, 999, 0, 0), make_vel(0, 5, 0, 0, 999), make_vel(0, 1, 5, 500, 511 - 1), make_vel(1, 1, 0, -100, -3)};
    seq("velocities", V, T ? 6 : 5, 1);
    std::vector<Ev> M{make_ac(0), make_id(0, "KLM1023"), make_id(0, "KLM10234"), make_id(1, "A"), make_alt(0, 38000), make_alt(0, 25), make_alt(1, 38000), make_vel(0, 1, 100, 100, -1), make_pos(0, 0, 0, 12000), make_pos(0, 0, 1), make_vel(1, 3, 0, 0, 999, 0, 0), make_clock(12)};
    seq("mixed messages", M, T ? 5 : 4, 1);
    many(3); many(700); many(T ? 20000 : 3000);
}
#else
enum { Q_GET, Q_COUNT, Q_DRAW };
static void thr(const char* nm, std::vector<Ev> pre, std::vector<std::vector<Ev>> runs, std::vector<int> asks, int bound) {
    std::string N = nm; scenario(N, [=] {
        Opts o; o.threads = true; o.bound = bound; o.stale = 1; o.free_switch = true; sample("%s", N.c_str());
        explore(o, [=] {
            note("%s", N.c_str()); new (&mock::g) mock::State();
            std::map<uint32_t, std::vector<ADSBState>> hist;                 // the record after each of its messages, from a run without company
            { ADSBAggregateBlock* r = new ADSBAggregateBlock("ref", 32, 34, nullptr, nullptr, ""); auto one = [&](const Ev& e) { r->in.writeN(&e.m, 1); (void)r->procedure(); ADSBState v[4]; size_t k = r->get_aircrafts(v, 4); for (size_t i = 0; i < k; ++i) { auto& l = hist[v[i].icao]; if (l.empty() || l.back().message_count != v[i].message_count) l.push_back(v[i]); } }; for (auto& e : pre) one(e); for (auto& x : runs) for (auto& e : x) one(e); delete r; }
            Log log; log.query = true; auto b = std::make_unique<ADSBAggregateBlock>("agg", 32.0f, 34.0f, on_update, &log, ""); log.blk = b.get();
            for (auto& e : pre) b->in.writeN(&e.m, 1); if (!pre.empty()) (void)b->procedure();
            uint64_t h = 0; std::vector<std::vector<ADSBState>> got(asks.size()); std::vector<size_t> cnt(asks.size()), tri(asks.size());
            std::thread R([&] { for (size_t a = 0; a < asks.size(); ++a) { if (asks[a] == Q_GET) { got[a].resize(4); got[a].resize(b->get_aircrafts(got[a].data(), 4)); } else if (asks[a] == Q_COUNT) cnt[a] = b->aircraft_count(); else { mock::g.prims.clear(); b->render(); for (auto& p : mock::g.prims) tri[a] += p.kind == 2; } } });
            for (auto& x : runs) { for (auto& e : x) b->in.writeN(&e.m, 1); (void)b->procedure(); }
            R.join();
            std::map<uint32_t, int> seen; size_t most = 0, mosttri = 0;
            for (size_t a = 0; a < asks.size(); ++a) {
                for (auto& s : got[a]) {
                    auto& l = hist[s.icao]; MC_CHECK(s.message_count >= 1 && (size_t)s.message_count <= l.size(), "torn", "%s: a record with %d messages of aircraft %06x", N.c_str(), s.message_count, s.icao);
                    MC_CHECK(same(s, l[s.message_count - 1]), "torn", "%s: the record of aircraft %06x after %d messages is not what these messages say", N.c_str(), s.icao, s.message_count);
                    MC_CHECK(s.message_count >= seen[s.icao], "back", "%s: the record of aircraft %06x went back", N.c_str(), s.icao); seen[s.icao] = s.message_count; h = hmix(h, s.message_count);
                }
                if (asks[a] == Q_GET) { MC_CHECK(got[a].size() >= most, "back", "%s: aircraft vanish", N.c_str()); most = got[a].size(); } if (asks[a] == Q_COUNT) { MC_CHECK(cnt[a] >= most && cnt[a] <= hist.size(), "back", "%s: %zu aircraft", N.c_str(), cnt[a]); most = cnt[a]; h = hmix(h, cnt[a]); }
                if (asks[a] == Q_DRAW) { MC_CHECK(tri[a] >= mosttri && tri[a] <= hist.size(), "back", "%s: %zu aircraft drawn", N.c_str(), tri[a]); mosttri = tri[a]; h = hmix(h, tri[a]); }
            }
            ADSBState v[4]; size_t k = b->get_aircrafts(v, 4); MC_CHECK(k == hist.size(), "table-size", "%s: %zu aircraft at the end", N.c_str(), k); for (size_t i = 0; i < k; ++i) MC_CHECK(same(v[i], hist[v[i].icao].back()), "final", "%s: wrong record at the end", N.c_str());
            outcome(h);
        });
    });
}
static void setup() {
    { Log l; ADSBAggregateBlock w("w", 1, 1, on_update, &l, ""); w.in.writeN(&(const mode_s_msg&)make_ac(0).m, 1); (void)w.procedure(); w.render(); mock::g.prims.clear(); (void)time(nullptr); }
    int B = thorough() ? 3 : 2;
    std::vector<Ev> P{make_pos(0, 0, 0, 100), make_pos(0, 0, 1), make_id(0, "KLM1023")}, A{make_pos(0, 1, 0, 12000)}, C{make_vel(0, 1, 300, 40, 5)}, D{make_id(1, "B"), make_pos(1, 0, 0)}, E{make_pos(1, 0, 1)}, F{make_ac(2)};
    thr("query beside updates of one aircraft", P, {A, C}, {Q_GET, Q_GET}, B);
    thr("query beside new aircraft", P, {D, E}, {Q_GET, Q_COUNT, Q_GET}, B);
    thr("first aircraft", {}, {F, D}, {Q_COUNT, Q_GET}, B);
    thr("drawing beside updates", P, {A, C}, {Q_DRAW, Q_DRAW}, B);
    thr("drawing beside new aircraft", P, {D, E, F}, {Q_DRAW, Q_GET}, B);
    std::vector<Ev> big; for (int i = 0; i < 3; ++i) { big.push_back(make_id(i, "X")); big.push_back(make_pos(i, 0, 0, 300 + i)); big.push_back(make_pos(i, 1, 1)); }
    thr("one call with nine messages", {}, {big}, {Q_GET, Q_DRAW, Q_COUNT}, B);
}
#endif
MC_MAIN(setup)
