// L01: the file logger on real files in a scratch directory. Every interface history up to a depth (checked against the file
// set after every call), every failing file call, and (with -DTHR) every bounded interleaving of two writers and a controller.
// The logger's state is global, so every execution runs in its own process.
#include "mc.hpp"
#define ZF_LOG_LEVEL 1
#include "desktop_logger.hpp"
#include "zf_log.h"
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <unistd.h>
#include <errno.h>
#include <vector>
#include <string>
#include <map>
#include <thread>
#include <functional>
using namespace mc;
typedef std::vector<std::string> Lines;

static std::string DIR_;
static void mkscratch() { const char* s = getenv("MC_SCRATCH"); DIR_ = std::string(s ? s : "/tmp") + "/L01-" + std::to_string(getpid()); mkdir(DIR_.c_str(), 0700); }
static std::string pa(const char* n) { return DIR_ + "/" + n; }
static std::string slurp(const std::string& p, bool* there = nullptr) { std::string r; int fd = open(p.c_str(), O_RDONLY); if (there) *there = fd >= 0; if (fd < 0) return r; char b[8192]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r; }
static void spit(const std::string& p, const std::string& c) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (write(fd, c.data(), c.size()) != (ssize_t)c.size()) fail("harness", "cannot write scratch file"); close(fd); }
static Lines listing() { Lines v; if (DIR* d = opendir(DIR_.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(d); } std::sort(v.begin(), v.end()); return v; }
static void rmscratch() { for (auto& f : listing()) unlink(pa(f.c_str()).c_str()); rmdir(DIR_.c_str()); }
static std::string payload(int k, size_t len, const char* tag = "L") { std::string s = std::string(tag) + std::to_string(k) + ":%d%s%%n;"; while (s.size() < len) s += (char)('a' + (k + s.size()) % 26); return s.substr(0, std::max<size_t>(len, 14)) + "."; }
// "[YYYY-mm-dd HH:MM:SS] [X] text" -> text; any other shape is a broken line
static std::string body(const std::string& l, char* lvl = nullptr) {
    static const char* pat = "[dddd-dd-dd dd:dd:dd] [x] "; size_t n = strlen(pat);
    for (size_t i = 0; i < n; ++i) { char c = i < l.size() ? l[i] : 0; bool ok = pat[i] == 'd' ? c >= '0' && c <= '9' : pat[i] == 'x' ? isalpha((unsigned char)c) : c == pat[i]; if (!ok) fail("broken-line", "a line in the log is not a whole log line: '%.60s'", l.c_str()); }
    if (lvl) *lvl = l[n - 3]; return l.substr(n);
}
struct Set { std::map<int, Lines> f; std::map<int, size_t> sz; Lines all; int backups = 0, maxidx = 0; bool has(int i) const { return f.count(i); } };   // 0 = current file, i = i-th backup
static Set scan(const char* name) {
    Set s; for (auto& e : listing()) {
        std::string nm = name; if (e.compare(0, nm.size(), nm)) continue; int idx = 0; if (e.size() > nm.size()) { if (e[nm.size()] != '.') continue; idx = atoi(e.c_str() + nm.size() + 1); if (idx <= 0 || e != nm + "." + std::to_string(idx)) fail("stray-file", "unexpected file %s", e.c_str()); s.backups++; s.maxidx = std::max(s.maxidx, idx); }
        std::string c = slurp(pa(e.c_str())); s.sz[idx] = c.size(); Lines& L = s.f[idx]; size_t i = 0; while (i < c.size()) { size_t j = c.find('\n', i); if (j == std::string::npos) fail("broken-line", "%s ends in the middle of a line", e.c_str()); L.push_back(body(c.substr(i, j - i))); i = j + 1; }
    }
    for (auto it = s.f.rbegin(); it != s.f.rend(); ++it) s.all.insert(s.all.end(), it->second.begin(), it->second.end());
    return s;
}
static const size_t HEAD = 26;                                 // "[date time] [x] "
static std::string pre(int k, size_t len) { return "[2024-01-01 00:00:00] [I] P" + std::to_string(k) + std::string(len, 'p') + "\n"; }
static void logline(int lvl, const std::string& s) { switch (lvl) { case 1: ZF_LOGV("%s", s.c_str()); break; case 2: ZF_LOGD("%s", s.c_str()); break; case 3: ZF_LOGI("%s", s.c_str()); break; case 4: ZF_LOGW("%s", s.c_str()); break; case 5: ZF_LOGE("%s", s.c_str()); break; default: ZF_LOGF("%s", s.c_str()); } }
static FILE* nul; static FILE* real_stdout;
struct Quiet { int e2; Quiet() { real_stdout = stdout; stdout = nul; e2 = dup(2); dup2(fileno(nul), 2); mkscratch(); } ~Quiet() { stdout = real_stdout; dup2(e2, 2); close(e2); rmscratch(); } };

#ifndef THR
// ---------------------------------------------------------------- failing file calls
static struct Fault { bool on = false, rodir = false, fsyncs = false, fcntls = false, flushes = false; int fopen_at = -1, fopens = 0; } F_;
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
FILE* fopen(const char* p, const char* m) { if (F_.on && F_.fopens++ == F_.fopen_at) { errno = EMFILE; return nullptr; } return real<FILE* (*)(const char*, const char*)>("fopen")(p, m); }
int rename(const char* a, const char* b) { if (F_.on && F_.rodir) { errno = EACCES; return -1; } return real<int (*)(const char*, const char*)>("rename")(a, b); }
int remove(const char* a) { if (F_.on && F_.rodir) { errno = EACCES; return -1; } return real<int (*)(const char*)>("remove")(a); }
int fsync(int fd) { if (F_.on && F_.fsyncs) { errno = EIO; return -1; } return real<int (*)(int)>("fsync")(fd); }
int fflush(FILE* f) { if (F_.on && F_.flushes && f != stdout) { errno = ENOSPC; return EOF; } return real<int (*)(FILE*)>("fflush")(f); }
int fcntl(int fd, int c, ...) { va_list a; va_start(a, c); void* p = va_arg(a, void*); va_end(a); if (F_.on && F_.fcntls && c == F_GETFL) { errno = EBADF; return -1; } return real<int (*)(int, int, ...)>("fcntl")(fd, c, p); }
}
// ---------------------------------------------------------------- histories
struct World {
    bool started = false, rot = false, unknown = false; size_t limit = 0; int maxb = 0, serial = 0; const char* cur = nullptr; std::string hist; const char* N;
    std::map<std::string, Set> st; uint64_t h = 1;
    void note_() { note("%s:%s", N, hist.c_str()); }
    void same(const char* why) { for (const char* n : {"a.log", "b.log"}) { Set s = scan(n); MC_CHECK(s.all == st[n].all && s.f == st[n].f, "changed", "%s: %s changes the files of %s;%s", N, why, n, hist.c_str()); } }
    void rescan() { for (const char* n : {"a.log", "b.log"}) st[n] = scan(n); }
    void created(const char* n) { Set s = scan(n), &o = st[n]; Set o2 = o; o2.f[0]; MC_CHECK(s.f == o2.f || s.f == o.f, "changed", "%s: opening %s changes existing log files;%s", N, n, hist.c_str()); rescan(); }
    void line(size_t len, bool lossy = false) {
        std::string p = payload(serial++, len); Set o; if (cur) o = st[cur]; logline(3 + serial % 3, p); count_trans();
        const char* other = cur && !strcmp(cur, "a.log") ? "b.log" : "a.log"; { Set s = scan(other); MC_CHECK(s.f == st[other].f, "changed", "%s: logging touches %s;%s", N, other, hist.c_str()); }
        if (!cur) { if (!unknown) same("logging without an open file"); else rescan(); return; }
        Set n = scan(cur); std::string got = n.all.empty() ? "" : n.all.back();
        if (lossy && n.all == o.all) { rescan(); return; }      // after a reported failure the line may be missing, never torn
        bool cut = len > 440; MC_CHECK(cut ? got.size() >= 400 && p.compare(0, got.size(), got) == 0 : got == p, "lost-line", "%s: the newest line is '%.30s' instead of '%.30s';%s", N, got.c_str(), p.c_str(), hist.c_str());
        Lines want = o.all; want.push_back(got); size_t drop = want.size() - std::min(want.size(), n.all.size());
        MC_CHECK(n.all.size() <= want.size() && std::equal(n.all.begin(), n.all.end(), want.begin() + drop), "order", "%s: earlier lines are missing, repeated or reordered (%zu lines, now %zu);%s", N, o.all.size(), n.all.size(), hist.c_str());
        bool rotated = !(n.has(0) && n.f[0].size() == (o.has(0) ? o.f[0].size() : 0) + 1); size_t ll = HEAD + got.size() + 1, osz = o.has(0) ? o.sz[0] : 0;
        if (rotated) {
            MC_CHECK(rot, "rotation", "%s: the log is rotated although rotation is off;%s", N, hist.c_str());
            MC_CHECK(osz + ll > limit, "early", "%s: the log is rotated at %zu bytes, limit %zu;%s", N, osz, limit, hist.c_str());
            MC_CHECK(n.backups <= maxb && n.maxidx <= maxb, "backups", "%s: %d backups exist (highest number %d), %d are configured;%s", N, n.backups, n.maxidx, maxb, hist.c_str());
            size_t may = 0; for (auto& e : o.f) if (e.first >= maxb) may += e.second.size();
            MC_CHECK(drop == 0 || (drop == may && n.backups == maxb), "discarded", "%s: %zu lines are discarded by a rotation that may discard %zu;%s", N, drop, may, hist.c_str());
        } else MC_CHECK(drop == 0, "discarded", "%s: %zu lines vanish without a rotation;%s", N, drop, hist.c_str());
        if (rot) MC_CHECK(n.sz[0] < limit + ll || (!rotated && n.sz[0] - ll < limit), "limit", "%s: the log grows to %zu bytes, limit %zu;%s", N, n.sz[0], limit, hist.c_str());
        if (rot) MC_CHECK(n.sz[0] - ll < limit, "limit", "%s: the log grows to %zu bytes, limit %zu;%s", N, n.sz[0], limit, hist.c_str());
        rescan(); h = hmix(h, hmix(n.all.size(), n.backups)); state(hmix(h, n.sz[0]));
    }
    void expect(cler::logger_retval_enum got, cler::logger_retval_enum want, const char* what) { MC_CHECK(got == want, "status", "%s: %s returns %d instead of %d;%s", N, what, got, want, hist.c_str()); }
    void start(const char* n) { auto r = cler::start_logging(n ? pa(n).c_str() : nullptr); if (started) { expect(r, cler::LOGGER_ALREADY_STARTED, "starting again"); same("starting again"); return; } started = true; expect(r, cler::LOGGER_SUCCESS, "starting"); if (n) { cur = !strcmp(n, "a.log") ? "a.log" : "b.log"; created(cur); } }
    void reset(const char* n) { auto r = cler::reset_logfile(pa(n).c_str()); if (!started) { expect(r, cler::LOGGER_NOT_STARTED, "resetting before start"); same("resetting before start"); return; } expect(r, cler::LOGGER_SUCCESS, "resetting"); cur = n; unknown = false; created(n); }
    void enable(size_t l, int b) { cler::enable_log_rotation(l, b); rot = true; limit = l; maxb = b; same("enabling rotation"); }
    void op(int k) {
        hist += " " + std::to_string(k); note_();
        switch (k) {
            case 0: line(14); break;
            case 1: line(430); break;
            case 2: for (int i = 0; i < 3; ++i) line(400); break;
            case 3: enable(1024, 1); break;
            case 4: enable(2000, 3); break;
            case 5: cler::disable_log_rotation(); rot = false; same("disabling rotation"); break;
            case 6: cler::close_log_file(); cur = nullptr; unknown = false; same("closing"); break;
            case 7: reset("a.log"); break;
            case 8: reset("b.log"); break;
            case 9: { auto r = cler::reset_logfile((DIR_ + "/none/x.log").c_str()); if (!started) expect(r, cler::LOGGER_NOT_STARTED, "resetting before start"); else { expect(r, cler::LOGGER_COULD_NOT_OPEN_FILE, "resetting to an impossible path"); if (cur) unknown = true; cur = nullptr; } same("a failed reset"); break; }
            case 10: { auto r = cler::verify_logfile(); if (!unknown) expect(r, cur ? cler::LOGGER_SUCCESS : cler::LOGGER_FILE_PTR_IS_NULL, "verifying"); same("verifying"); break; }
            case 11: start("a.log"); break;
            case 12: { auto r = cler::reset_logfile(nullptr); MC_CHECK(r == cler::LOGGER_FILEPATH_EMPTY || (!started && r == cler::LOGGER_NOT_STARTED), "status", "%s: resetting to no path returns %d;%s", N, r, hist.c_str()); same("resetting to no path"); break; }
            case 13: line(700); break;
            case 14: enable(1024, 2); break;
            case 15: start(nullptr); break;
        }
    }
};
static void history(const char* nm, int prefiles, std::vector<int> lead, std::vector<int> ops, int depth) {
    std::string N = nm;
    for (int first : ops) scenario(N + ", histories of " + std::to_string(depth) + ", first " + std::to_string(first), [=] {
        sample("%s, first operation %d", N.c_str(), first); Opts o; o.iterate = false; o.fork_each = true;
        explore(o, [=] {
            Quiet q; World w; w.N = N.c_str();
            if (prefiles >= 1) spit(pa("a.log"), pre(9, 500) + pre(10, 450)); if (prefiles >= 2) { spit(pa("a.log.1"), pre(7, 20) + pre(8, 20)); spit(pa("a.log.2"), pre(5, 20)); } if (prefiles >= 3) spit(pa("a.log.3"), pre(3, 600) + pre(4, 600));
            w.rescan(); for (int k : lead) w.op(k); w.hist += " /"; w.op(first); for (int i = 1; i < depth; ++i) w.op(ops[choose((int)ops.size())]);
            w.line(20); outcome(w.h);
            int held = 0; for (int fd = 3; fd < 64; ++fd) { char l[32], t[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, t, sizeof t - 1); if (n > 0 && std::string(t, n).compare(0, DIR_.size(), DIR_) == 0) ++held; }
            MC_CHECK(held <= 1, "descriptors", "%s: %d log files are held open at once;%s", N.c_str(), held, w.hist.c_str());
        });
    });
}
static void faults() {
    scenario("failing file calls", [] {
        sample("every failing open, a directory that cannot be changed, failing flush / fcntl / fsync"); Opts o; o.iterate = false; o.fork_each = true;
        explore(o, [] {
            Quiet q; World w; w.N = "failing file calls"; int kind = choose(5), at = choose(6), pf = choose(4), cfg = choose(2), lead = choose(4); F_ = Fault();
            if (pf >= 1) spit(pa("a.log"), pre(9, 500) + pre(10, 450)); if (pf >= 2) { spit(pa("a.log.1"), pre(7, 20) + pre(8, 20)); spit(pa("a.log.2"), pre(5, 20)); } if (pf >= 3) spit(pa("a.log.3"), pre(3, 600) + pre(4, 600));
            w.rescan(); char b[99]; snprintf(b, sizeof b, "kind %d, at %d, files %d, configuration %d, %d lines before", kind, at, pf, cfg, lead); w.hist = b; w.note_();
            F_.on = kind == 0; F_.fopen_at = kind == 0 ? at : -1;
            auto r = cler::start_logging(pa("a.log").c_str()); bool bad = F_.on && F_.fopens == at + 1; MC_CHECK(r == (bad ? cler::LOGGER_COULD_NOT_OPEN_FILE : cler::LOGGER_SUCCESS), "status", "starting returns %d;%s", r, b);
            w.started = true; if (!bad) { w.cur = "a.log"; w.created("a.log"); } bool dead = bad;
            if (cfg) cler::enable_log_rotation(1024, 3); else cler::enable_log_rotation(1500, 1);
            w.rot = true; w.limit = cfg ? 1024 : 1500; w.maxb = cfg ? 3 : 1;
            if (kind == 1) w.rot = false;
            for (int i = 0; i < lead + 6; ++i) {
                if (i == lead) { F_.on = true; F_.rodir = kind == 1; F_.flushes = kind == 2; F_.fcntls = kind == 3; F_.fsyncs = kind == 4;
                    if (kind >= 2) { auto v = cler::verify_logfile(); MC_CHECK(v == (kind == 2 ? cler::LOGGER_FILE_FAILED_FLUSH : kind == 3 ? cler::LOGGER_FILE_INVALID_FD : cler::LOGGER_FILE_NOT_SYNCED), "status", "verifying returns %d although a file call fails;%s", v, b); F_.on = false; MC_CHECK(cler::verify_logfile() != cler::LOGGER_SUCCESS, "status", "verifying succeeds after a failed verification closed the file"); dead = true; } }
                if (kind == 1 && i < lead) { w.rot = true; } else if (kind == 1) w.rot = false;
                int f0 = F_.fopens; const char* c = w.cur; 
                if (dead) { w.cur = nullptr; w.unknown = true; w.line(400); continue; }
                // a rotation whose reopening fails: the old lines must all survive, the new ones may be lost but the failure shows
                if (F_.on && kind == 0 && at >= f0) { Set o = scan("a.log"); std::string p = payload(w.serial++, 400); logline(3, p); Set n = scan("a.log"); Lines want = o.all; want.push_back(p); bool hit = F_.fopens == at + 1;
                    if (hit) { MC_CHECK(cler::verify_logfile() != cler::LOGGER_SUCCESS || (n.all.size() && n.all.back() == p), "unreported", "a line is lost, verification still succeeds;%s", b); Lines keep(o.all.begin() + 0, o.all.end()); size_t may = 0; for (auto& e : o.f) if (e.first >= w.maxb) may += e.second.size(); Lines tail(keep.begin() + may, keep.end()); Lines nn = n.all; if (!nn.empty() && nn.back() == p) nn.pop_back(); MC_CHECK(nn == keep || nn == tail, "discarded", "lines are lost when reopening fails;%s", b); dead = true; }
                    w.rescan(); count_trans(); continue; }
                w.line(400); (void)c;
            }
            F_.on = false; auto rr = cler::reset_logfile(pa("b.log").c_str()); MC_CHECK(rr == cler::LOGGER_SUCCESS, "status", "resetting after the fault returns %d;%s", rr, b); w.rescan(); w.cur = "b.log"; w.unknown = false; w.rot = false; cler::disable_log_rotation(); w.line(30); w.line(30);
            outcome(hmix(w.h, kind)); state(hmix(hmix(kind, at), hmix(pf, lead)));
        });
    });
}
static void levels() {
    scenario("levels and names", [] {
        sample("every message level against every configured level; every status name"); Opts o; o.iterate = false; o.fork_each = true;
        explore(o, [] {
            Quiet q; int set = choose(6) + 1, lvl = choose(6) + 1; note("level %d with output level %d", lvl, set); MC_CHECK(cler::start_logging(pa("a.log").c_str()) == cler::LOGGER_SUCCESS, "status", "starting fails"); cler::set_log_level(set);
            logline(lvl, "hello %d"); logline(6, "last"); std::string c = slurp(pa("a.log")); size_t nl = c.find('\n'); Set s = scan("a.log"); static const char* ch[] = {"v", "d", "I", "W", "E", "F"};
            MC_CHECK(s.all.size() == (lvl >= set ? 2u : 1u) && s.all.back() == "last", "level", "a message of level %d with output level %d: %zu lines", lvl, set, s.all.size()); if (lvl >= set) { char l = 0; std::string t = body(c.substr(0, nl), &l); MC_CHECK(l == *ch[lvl - 1] && t == "hello %d", "level", "a message of level %d is marked '%c'", lvl, l); }
            for (int e = -2; e < 14; ++e) { std::vector<char> g(cler::LOGGER_MAX_ENUM_STR_LEN + 16, '#'); cler::logger_enum_to_cstr((cler::logger_retval_enum)e, g.data()); size_t n = strnlen(g.data(), cler::LOGGER_MAX_ENUM_STR_LEN); MC_CHECK(n > 3 && n < (size_t)cler::LOGGER_MAX_ENUM_STR_LEN, "name", "status %d has no name", e); for (int i = 0; i < 16; ++i) MC_CHECK(g[cler::LOGGER_MAX_ENUM_STR_LEN + i] == '#', "name", "the name of status %d overruns its buffer", e); for (int f = 0; f < e && e < 9; ++f) { char o2[cler::LOGGER_MAX_ENUM_STR_LEN]; cler::logger_enum_to_cstr((cler::logger_retval_enum)f, o2); MC_CHECK(strcmp(o2, g.data()), "name", "status %d and %d have the same name", e, f); } }
            cler::logger_enum_to_cstr(cler::LOGGER_SUCCESS, nullptr); MC_CHECK(!strcmp(cler::filename("/a/b/c.cpp"), "c.cpp") && !strcmp(cler::filename("c.cpp"), "c.cpp") && !strcmp(cler::filename("a\\c.cpp"), "c.cpp"), "name", "file name shortening");
            count_trans(); outcome(set * 10 + lvl); state(set * 10 + lvl);
        });
    });
}
#else
// ---------------------------------------------------------------- concurrency
static void writers(const char* nm, size_t prefill, size_t len, int per, int maxb, int ctl, int bound, int stale) {
    std::string N = nm;
    scenario(N, [=] {
        Opts o; o.threads = true; o.fork_each = true; o.bound = bound; o.stale = stale; sample("%s", N.c_str());
        explore(o, [=] {
            note("%s", N.c_str()); Quiet q; Lines want; if (prefill) spit(pa("a.log"), pre(1, prefill - 29));
            MC_CHECK(cler::start_logging(pa("a.log").c_str()) == cler::LOGGER_SUCCESS, "status", "starting fails"); if (maxb) cler::enable_log_rotation(1024, maxb);
            auto run = [=](const char* t) { for (int i = 0; i < per; ++i) logline(3, payload(i, len, t)); };
            std::thread A(run, "A"), B(run, "B"); int vr = 0; uint64_t h = 1;
            if (ctl == 1) vr = cler::verify_logfile(); else if (ctl == 2) cler::close_log_file(); else if (ctl == 3) vr = cler::reset_logfile(pa("b.log").c_str()); else if (ctl == 4) cler::disable_log_rotation(); else if (ctl == 5) cler::enable_log_rotation(1024, 2); else if (ctl == 6) { vr = cler::start_logging(pa("b.log").c_str()) != cler::LOGGER_ALREADY_STARTED; } else if (ctl == 7) { vr = cler::reset_logfile(pa("a.log").c_str()); }
            A.join(); B.join(); MC_CHECK(!vr, "status", "%s: status %d", N.c_str(), vr);
            Set s = scan("a.log"), t = scan("b.log"); Lines all = s.all; all.insert(all.end(), t.all.begin(), t.all.end()); size_t na = 0, nb = 0, np = 0;
            for (auto& l : all) { for (char c : l) h = hmix(h, c); if (l[0] == 'P') ++np; else if (l == payload((int)na, len, "A")) ++na; else if (l == payload((int)nb, len, "B")) ++nb; else fail("order", "%s: line '%.30s' is broken, repeated or out of order", N.c_str(), l.c_str()); }
            if (ctl != 2) MC_CHECK((int)na == per && (int)nb == per, "lost-line", "%s: %zu and %zu of %d lines are in the log", N.c_str(), na, nb, per);
            MC_CHECK(np == (prefill ? 1u : 0u), "discarded", "%s: the earlier line is gone", N.c_str()); MC_CHECK(s.maxidx <= std::max(maxb, ctl == 5 ? 2 : 0), "backups", "%s: %d backups", N.c_str(), s.maxidx);
            if (maxb && ctl != 4) for (auto& e : s.sz) MC_CHECK(e.second < 1024 + HEAD + len + 3, "limit", "%s: a file has %zu bytes", N.c_str(), e.second);
            count_trans(); outcome(h); state(hmix(h, s.backups));
        });
    });
}
static void starters(int mode, int bound) {
    std::string N = mode == 0 ? "start while another thread resets" : mode == 1 ? "two threads start" : "start while another thread verifies and closes";
    scenario(N, [=] {
        Opts o; o.threads = true; o.fork_each = true; o.bound = bound; o.stale = 1; sample("%s", N.c_str());
        explore(o, [=] {
            note("%s", N.c_str()); Quiet q; cler::logger_retval_enum r1, r2 = cler::LOGGER_SUCCESS;
            std::thread A([&] { r1 = cler::start_logging(pa("a.log").c_str()); });
            if (mode == 0) r2 = cler::reset_logfile(pa("b.log").c_str()); else if (mode == 1) r2 = cler::start_logging(pa("b.log").c_str()); else { r2 = cler::verify_logfile(); cler::close_log_file(); }
            A.join();
            if (mode == 0) MC_CHECK(r1 == cler::LOGGER_SUCCESS && (r2 == cler::LOGGER_SUCCESS || r2 == cler::LOGGER_NOT_STARTED), "status", "%s: %d, %d", N.c_str(), r1, r2); if (mode == 1) MC_CHECK((r1 == cler::LOGGER_SUCCESS) + (r2 == cler::LOGGER_SUCCESS) == 1 && r1 + r2 == cler::LOGGER_ALREADY_STARTED, "status", "%s: %d, %d", N.c_str(), r1, r2);
            logline(4, "x"); size_t n = scan("a.log").all.size() + scan("b.log").all.size(); MC_CHECK(mode == 2 || n == 1, "lost-line", "%s: %zu lines", N.c_str(), n); count_trans(); outcome(r1 * 10 + r2); state(r1 * 10 + r2);
        });
    });
}
#endif
static void setup() {
    nul = fopen("/dev/null", "w"); { time_t t = time(nullptr); struct tm b; localtime_r(&t, &b); } bool T = thorough();
#ifdef THR
    int B = T ? 4 : 3, S = 1;
    writers("two writers, no rotation", 0, 20, 2, 0, 0, B, S); writers("two writers, one rotation due", 1000, 100, 2, 2, 0, B, S); writers("two writers, rotation by the second line", 980, 40, 2, 1, 0, B, S); writers("two writers, several rotations", 1100, 430, 3, 3, 0, B - 1, S);
    const char* c[] = {"", "verifying", "closing", "switching to another file", "rotation disabled", "rotation reconfigured", "starting again", "reopening"};
    for (int k = 1; k < 8; ++k) { writers((std::string("two writers and ") + c[k]).c_str(), 1000, 60, 2, k == 5 ? 1 : 2, k, T ? 3 : 2, S); }
    for (int k = 0; k < 3; ++k) starters(k, B);
#else
    history("from nothing", 0, {}, {0, 3, 6, 7, 9, 10, 11, 12, 15}, T ? 5 : 4); history("started without a file", 0, {15}, {0, 1, 3, 7, 8, 9, 10, 12}, T ? 5 : 4);
    history("started on an existing log", 1, {11}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}, T ? 4 : 3); history("rotating with existing backups", 3, {11, 4}, {0, 1, 2, 3, 13, 14, 4, 5, 7}, T ? 5 : 4); history("one backup", 2, {11, 3}, {0, 1, 2, 4, 8, 13, 14}, T ? 6 : 4); history("lines only", 1, {11, 14}, {0, 1, 13}, T ? 9 : 7); history("lowering the number of backups", 3, {11, 4, 2, 2}, {1, 2, 3, 14, 7}, T ? 6 : 5);
    faults(); levels();
#endif
}
MC_MAIN(setup)
