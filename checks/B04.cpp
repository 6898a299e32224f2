// B04: file source and file sink on real files: every schedule of feeding / draining, every file length around the sample
// and buffer boundaries, the disk filling up at every listed byte (RLIMIT_FSIZE), and a failing / short read at every read call.
#include "chunk.hpp"
#include "sinks/sink_file.hpp"
#include "sources/source_file.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dlfcn.h>
#include <errno.h>

template <size_t S> struct Big { unsigned char b[S]; };
template <class T> T smp(size_t k) { T t; unsigned char* p = (unsigned char*)&t; uint32_t x = (uint32_t)k * 2654435761u + 12345; for (size_t i = 0; i < sizeof(T); ++i) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; p[i] = (unsigned char)x; } return t; }
template <class T> bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof a) == 0; }
static std::string path() { const char* d = getenv("MC_SCRATCH"); return std::string(d ? d : "/tmp") + "/f" + std::to_string(getpid()); }
static std::vector<unsigned char> slurp(const std::string& p) { std::vector<unsigned char> v; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return v; struct stat st; fstat(fd, &st); v.resize(st.st_size); size_t at = 0; while (at < v.size()) { ssize_t k = pread(fd, v.data() + at, v.size() - at, at); if (k <= 0) break; at += k; } close(fd); v.resize(at); return v; }
static void spill(const std::string& p, const void* d, size_t n) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t at = 0; while (at < n) { ssize_t k = write(fd, (const char*)d + at, n - at); MC_CHECK(k > 0, "harness", "scratch write"); at += k; } close(fd); }
static void limit(rlim_t n) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); }

// ---- faults on reads of the file under test ----
static struct { bool on = false; dev_t dev; ino_t ino; int at = -1, kind = 0, calls = 0, fired = 0; } rf;
static bool ours(int fd) { if (!rf.on) return false; struct stat st; return fstat(fd, &st) == 0 && st.st_dev == rf.dev && st.st_ino == rf.ino; }
extern "C" ssize_t read(int fd, void* b, size_t n) {
    static auto real = (ssize_t (*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
    if (ours(fd) && rf.calls++ == rf.at) {
        rf.fired = 1;
        switch (rf.kind) { case 0: errno = EIO; return -1; case 1: return real(fd, b, n > 1 ? 1 : n); case 2: return real(fd, b, n > 3 ? n / 2 + 1 : n); case 3: errno = EINTR; return -1; }
    }
    return real(fd, b, n);
}
template <class T> static void sink(const char* tn, size_t cap, size_t total, int depth, std::vector<size_t> limits) {
    scenario(std::string("sink<") + tn + "> in " + std::to_string(cap), [=] {
        sample("file sink of %s, channel %zu, %zu samples", tn, cap, total);
        std::vector<T> data; for (size_t i = 0; i < total; ++i) data.push_back(smp<T>(i));
        signal(SIGXFSZ, SIG_IGN); std::string f = path();
        Opts o; o.iterate = false;
        explore(o, [&] {
            int li = choose((int)limits.size() + 1); size_t lim = li ? limits[li - 1] : RLIM_INFINITY;
            char hb[64]; snprintf(hb, 64, li ? " file limited to %zu bytes;" : "", lim); Sched s; s.hist = hb;
            unlink(f.c_str()); if (choose(2)) { spill(f, "what was there before", 21); s.hist += " old file;"; }
            auto b = std::make_unique<SinkFileBlock<T>>("s", f.c_str(), cap); size_t room = b->in.space(), slack = std::max<size_t>(room + 1, cap) * sizeof(T) + 4096;
            In<T> in(&b->in, data); bool failed = false; s.ports.push_back(&in);
            s.call = [&] {
                if (failed) return;                          // the flowgraph stops after a fatal error
                size_t had = in.occ(); limit(lim); Res r = b->procedure(); limit(RLIM_INFINITY); size_t now = in.consumed();
                if (!r.is_ok() && cler::is_fatal(r.unwrap_err())) { failed = true; s.hist += " fatal"; MC_CHECK(li, "spurious-error", "%s: fatal error although the file takes everything;%s", tn, s.hist.c_str()); return; }
                MC_CHECK(had == 0 || in.occ() < had, "no-progress", "%s: %zu samples waiting, none written;%s", tn, had, s.hist.c_str());
                MC_CHECK(!li || now * sizeof(T) <= lim + slack, "unreported", "%s: the file takes %zu bytes, %zu bytes were consumed without a fatal error;%s", tn, lim, now * sizeof(T), s.hist.c_str());
            };
            for (int d = 0; d < depth; ++d) s.step(cap <= 8);
            s.hist += " finish"; note("%s%s", tn, s.hist.c_str());
            for (int i = 0; i < 100000 && !failed && in.consumed() < total; ++i) { in.go(in.most()); s.call(); }
            size_t consumed = in.consumed();
            limit(lim); b.reset(); limit(RLIM_INFINITY);
            auto got = slurp(f); const unsigned char* want = (const unsigned char*)data.data();
            MC_CHECK(got.size() <= total * sizeof(T) && memcmp(got.data(), want, got.size()) == 0, "content", "%s: the file (%zu bytes) is not a prefix of the stream;%s", tn, got.size(), s.hist.c_str());
            if (!li) MC_CHECK(consumed == total && got.size() == total * sizeof(T), "lost", "%s: %zu samples consumed, the file holds %zu bytes;%s", tn, consumed, got.size(), s.hist.c_str());
            else MC_CHECK(got.size() == std::min(lim, total * sizeof(T)) || failed, "lost", "%s: file of %zu bytes, limit %zu, no error;%s", tn, got.size(), lim, s.hist.c_str());
            outcome(hmix(s.h, hmix(got.size(), failed)));
        });
        unlink(f.c_str());
    });
}
static int eofs; static std::string eof_name; static void on_eof(const char* n) { ++eofs; eof_name = n; }
template <class T> static void source(const char* tn, size_t cap, std::vector<size_t> sizes, int depth, bool faults) {
    for (size_t bytes : sizes) scenario(std::string("source<") + tn + "> out " + std::to_string(cap) + ", file of " + std::to_string(bytes) + " bytes", [=] {
        sample("file source of %s into a channel of %zu, file of %zu bytes", tn, cap, bytes);
        size_t n = bytes / sizeof(T); std::vector<T> data; for (size_t i = 0; i <= n; ++i) data.push_back(smp<T>(i)); data.resize(n + 1);
        std::string f = path(); spill(f, data.data(), bytes); struct stat st; stat(f.c_str(), &st); rf.dev = st.st_dev; rf.ino = st.st_ino;
        Opts o; o.iterate = false;
        explore(o, [&] {
            rf.on = true; rf.calls = rf.fired = 0; rf.at = -1;
            bool rep = choose(2), cb = choose(2); Sched s; s.hist = rep ? " repeat;" : " once;";
            if (faults) { int k = choose(13); if (k) { rf.at = (k - 1) / 4; rf.kind = (k - 1) % 4; char hb[64]; snprintf(hb, 64, " read #%d %s;", rf.at, rf.kind == 0 ? "fails" : rf.kind == 3 ? "is interrupted" : "is short"); s.hist += hb; } }
            bool hard = rf.at >= 0 && rf.kind == 0;
            eofs = 0; auto b = std::make_unique<SourceFileBlock<T>>("s", f.c_str(), rep, cb ? on_eof : nullptr);
            Out<T> out(cap); s.ports.push_back(&out); bool fatal = false; int dry = 0; size_t at_eof = 0; int fired_for = 0;
            s.call = [&] {
                size_t room = out.ch->space(), before = out.produced(); int e0 = eofs;
                Res r = b->procedure(out.ch); size_t did = out.produced() - before;
                bool err = !r.is_ok();
                if (err && cler::is_fatal(r.unwrap_err())) { fatal = true; s.hist += " fatal"; }
                MC_CHECK(!did || !err, "status", "%s: samples were produced but the call reports an error;%s", tn, s.hist.c_str());
                MC_CHECK(eofs - e0 <= 1 && (!rep || hard || eofs == 0), "eof-callback", "%s: the end-of-file callback ran %d times;%s", tn, eofs, s.hist.c_str());
                MC_CHECK(eofs <= 1, "eof-callback", "%s: the end-of-file callback ran %d times;%s", tn, eofs, s.hist.c_str());
                MC_CHECK(eofs == 0 || eof_name == f, "eof-callback", "%s: the callback got the name %s;%s", tn, eof_name.c_str(), s.hist.c_str());
                MC_CHECK(!eofs || !hard || !rf.fired, "error-as-eof", "%s: a failed read is announced as end of file;%s", tn, s.hist.c_str());
                if (hard && rf.fired) MC_CHECK(fatal || ++fired_for <= 2, "unreported", "%s: the failed read is not reported as fatal;%s", tn, s.hist.c_str());
                if (fatal && !(hard && rf.fired)) MC_CHECK(!rep && out.produced() == n, "spurious-error", "%s: fatal error after %zu of %zu samples;%s", tn, out.produced(), n, s.hist.c_str());
                if (did || !room) dry = 0; else ++dry;
                MC_CHECK(fatal || !room || dry <= 2 || (rep && n == 0), "no-progress", "%s: room for samples, but none come and no end is reported;%s", tn, s.hist.c_str());
            };
            for (int d = 0; d < depth && !fatal; ++d) s.step(cap <= 8);
            s.hist += " finish"; note("%s%s", tn, s.hist.c_str());
            size_t target = rep ? 3 * n + 5 : ~(size_t)0;
            for (int i = 0; i < 2000 && !fatal && out.produced() < target && !(n == 0 && rep && i > 20); ++i) { out.go(out.most()); s.call(); }
            out.go(out.most());
            for (size_t i = 0; i < out.got.size(); ++i) MC_CHECK(n && (rep || i < n) && same(out.got[i], data[i % n]), "value", "%s: sample %zu emitted is not sample %zu of the file;%s", tn, i, n ? i % n : 0, s.hist.c_str());
            if (!rep && !(hard && rf.fired)) { MC_CHECK(fatal && out.got.size() == n, "lost", "%s: %zu of %zu samples came out at the end of the file;%s", tn, out.got.size(), n, s.hist.c_str()); MC_CHECK(!cb || eofs == 1, "eof-callback", "%s: the end-of-file callback ran %d times;%s", tn, eofs, s.hist.c_str()); }
            if (fatal) for (int i = 0; i < 3; ++i) { Res r = b->procedure(out.ch); MC_CHECK(!r.is_ok() && cler::is_fatal(r.unwrap_err()) && out.occ() == 0, "after-end", "%s: the source comes back to life after its end;%s", tn, s.hist.c_str()); MC_CHECK(eofs <= 1, "eof-callback", "%s: the end-of-file callback ran again;%s", tn, s.hist.c_str()); }
            rf.on = false;
            outcome(hmix(s.h, hmix(out.got.size(), fatal)));
        });
        rf.on = false; unlink(f.c_str());
    });
}
template <class T> static bool opens_source(const char* p) { try { SourceFileBlock<T> b("s", p, false); return true; } catch (const std::exception&) { return false; } }
template <class T> static bool opens_sink(const char* p) { try { SinkFileBlock<T> b("s", p); return true; } catch (const std::exception&) { return false; } }
static void paths() {
    scenario("unusable paths", [] {
        std::string d = path() + ".d"; mkdir(d.c_str(), 0700); sample("missing file, missing directory, directory, empty name");
        std::vector<std::string> bad = {d + "/missing", d + "/no/such/file", ""};
        Opts o; o.iterate = false;
        explore(o, [&] {
            int i = choose(4); count_trans(); outcome(i); state(i);
            if (i < 3) { MC_CHECK(!opens_source<int>(bad[i].c_str()), "open", "a source opens the unusable path '%s' without an error", bad[i].c_str()); if (i) MC_CHECK(!opens_sink<int>(bad[i].c_str()), "open", "a sink opens the unusable path '%s' without an error", bad[i].c_str()); return; }
            MC_CHECK(!opens_sink<int>(d.c_str()), "open", "a sink opens a directory");
            for (int rep = 0; rep < 2; ++rep) try {                      // a directory can be opened but not read
                eofs = 0; SourceFileBlock<int> b("s", d.c_str(), rep, on_eof); cler::Channel<int> out(1024); bool fatal = false;
                for (int k = 0; k < 3 && !fatal; ++k) { Res r = b.procedure(&out); fatal = !r.is_ok() && cler::is_fatal(r.unwrap_err()); }
                MC_CHECK(fatal && out.size() == 0, "unreadable", "a source reading a directory does not report a fatal error");
                MC_CHECK(eofs == 0, "error-as-eof", "an unreadable file is announced as end of file");
            } catch (const std::exception&) {}
        });
        rmdir(d.c_str());
    });
}
static void setup() {
    bool T = thorough(); int D = T ? 1 : 0;
    for (size_t cap : {4, 5, 7}) sink<Big<1024>>("1KB", cap, 20, 4 + D, {0, 1, 512, 1023, 1024, 1025, 2048, 3000, 4095, 4096, 4097, 5119, 5120, 5121, 6144, 7168, 8191, 8192, 8193, 12288, 16384, 19000, 20479, 20480});
    sink<Big<2048>>("2KB", 2, 12, 5 + D, {0, 2047, 2048, 4096, 4097, 8191, 8192, 10000}); sink<int>("int", 1024, 5000, 3 + D, {0, 3, 4, 4095, 4096, 4097, 8192, 12289, 19999, 20000}); sink<char>("char", 0, 20000, 3 + D, {0, 1, 4095, 4096, 4097, 10000, 19999}); sink<cf>("complex", 700, 3000, 3 + D, {0, 7, 8, 4096, 5600, 5601, 20000}); sink<int16_t>("i16", 3000, 9000, 3 + D, {0, 1, 4096, 6000, 6001, 17999}); sink<double>("double", 0, 2000, 3 + D, {0, 4096, 8000, 15999});
    std::vector<size_t> bs; for (size_t k = 0; k <= 9; ++k) for (size_t r : {0, 1, 1023}) bs.push_back(k * 1024 + r);
    for (size_t cap : {4, 5}) source<Big<1024>>("1KB", cap, bs, 4 + D, true);
    source<Big<2048>>("2KB", 2, {0, 1, 2047, 2048, 2049, 4096, 6000, 8191, 8192, 12288}, 5 + D, true);
    source<int>("int", 1024, {0, 1, 3, 4, 5, 4092, 4093, 4095, 4096, 4097, 4100, 8191, 8192, 8193, 8194, 12287, 20000, 20001, 20003, 32764, 32768, 32772}, 2 + D, true); source<cf>("complex", 700, {0, 4, 8, 12, 5592, 5599, 5600, 5608, 8191, 8192, 8200, 20007}, 2 + D, true); source<int16_t>("i16", 2048, {1, 2, 3, 4095, 4096, 9001}, 3 + D, true); source<char>("char", 4096, {0, 1, 4095, 4096, 8191, 10001}, 3 + D, true);
    paths();
}
MC_MAIN(setup)
