// C04: channel creation under every combination of failing OS memory calls; nothing leaks, nothing is released twice.
#include "rig.hpp"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <new>

// ---- the operating system as seen by channel construction: real calls, each of which may be told to fail, and a ledger
static bool g_on = false;              // count and inject
static int g_faults = 0, g_max_faults = 99; static bool g_nomem_fd = false; static std::string* g_log;
static std::set<int>* g_fds; static std::map<char*, size_t>* g_pages; static std::set<std::string>* g_names;
static const size_t PG = 4096;
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
struct Quiet { bool o = g_on; Quiet() { g_on = false; } ~Quiet() { g_on = o; } };      // the checker's own bookkeeping is not observed
static void lg(const std::string& s) { Quiet q; *g_log += s; }
static int ask(int n) { Quiet q; return choose(n); }
static bool inject(const char* what, int e) {
    if (!g_on) return false;
    if (g_faults < g_max_faults && ask(2)) { g_faults++; lg(std::string(" !") + what); errno = e; return true; }
    lg(std::string(" ") + what); return false;
}
static void* do_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { return (void*)raw6(SYS_mmap, (long)a, (long)n, pr, fl, fd, o); }
extern "C" long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n); long a[6]; for (auto& x : a) x = va_arg(ap, long); va_end(ap);
    if (n == SYS_memfd_create && g_on) {
        if (inject("memfd_create", EMFILE)) return -1;
        long fd = raw6(n, a[0], a[1], 0, 0, 0, 0); if (fd >= 0) g_fds->insert((int)fd); return fd;
    }
    return raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
extern "C" int memfd_create(const char* nm, unsigned fl) noexcept { return (int)syscall(SYS_memfd_create, nm, fl); }
extern "C" int shm_open(const char* nm, int fl, mode_t) {
    if (!g_on) { errno = ENOSYS; return -1; }
    if ((fl & O_EXCL) && g_names->count(nm)) { errno = EEXIST; return -1; }
    if (inject("shm_open", EMFILE)) return -1;
    int fd = (int)raw6(SYS_memfd_create, (long)nm, 0, 0, 0, 0, 0); if (fd >= 0) { g_fds->insert(fd); g_names->insert(nm); } return fd;
}
extern "C" int shm_unlink(const char* nm) { if (g_on && !g_names->erase(nm)) fail("shm", "shm_unlink of a name that was not created"); return 0; }
extern "C" int ftruncate(int fd, off_t n) noexcept {
    if (!g_on) return (int)raw6(SYS_ftruncate, fd, n, 0, 0, 0, 0);
    MC_CHECK(g_fds->count(fd), "fd", "ftruncate on descriptor %d which is not open", fd);
    if (inject("ftruncate", ENOSPC)) return -1; return (int)raw6(SYS_ftruncate, fd, n, 0, 0, 0, 0);
}
extern "C" int ftruncate64(int fd, off_t n) noexcept { return ftruncate(fd, n); }
extern "C" int close(int fd) {
    if (g_on) { lg(" close"); MC_CHECK(g_fds->erase(fd), "fd", "descriptor %d closed although it is not open (released twice)", fd); }
    return (int)raw6(SYS_close, fd, 0, 0, 0, 0, 0);
}
extern "C" void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) noexcept {
    if (!g_on) return do_mmap(a, n, pr, fl, fd, o);
    size_t m = (n + PG - 1) / PG * PG;
    if (fl & MAP_HUGETLB) { lg(" (no huge pages)"); errno = ENOMEM; return MAP_FAILED; }
    if (fl & MAP_FIXED) {
        for (size_t i = 0; i < m; i += PG) MC_CHECK(g_pages->count((char*)a + i), "foreign", "a fixed mapping overwrites memory the channel does not own");
        MC_CHECK(fd == -1 || g_fds->count(fd), "fd", "mapping of a closed descriptor");
        if (inject("mmap(fixed)", ENOMEM)) return MAP_FAILED;
        if (g_max_faults > 1 && g_faults < g_max_faults && ask(2)) {          // a platform where the second mapping does not alias the first
            g_faults++; lg(" ~mmap(fixed,no aliasing)"); return do_mmap(a, n, pr, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
        }
        return do_mmap(a, n, pr, fl, fd, o);
    }
    if (inject("mmap", ENOMEM)) return MAP_FAILED;
    char* p = (char*)do_mmap(a, n, pr, fl, fd, o);
    if (p != MAP_FAILED) for (size_t i = 0; i < m; i += PG) (*g_pages)[p + i] = m;
    return p;
}
extern "C" void* mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o) noexcept { return mmap(a, n, pr, fl, fd, o); }
extern "C" int munmap(void* a, size_t n) noexcept {
    if (g_on) {
        lg(" munmap"); n = (n + PG - 1) / PG * PG;
        for (size_t i = 0; i < n; i += PG) MC_CHECK(g_pages->erase((char*)a + i), "foreign", "munmap releases memory that is not mapped by the channel (released twice or wrong length)");
    }
    return (int)raw6(SYS_munmap, (long)a, (long)n, 0, 0, 0, 0);
}
static bool g_heap = false; static void* g_blk[64]; static int g_blocks = 0;
void* operator new(size_t n) {
    bool t = g_on && g_heap && n >= 512;
    if (t && inject("new", ENOMEM)) throw std::bad_alloc();
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
    if (t) for (auto& b : g_blk) if (!b) { b = p; g_blocks++; break; }
    return p;
}
void operator delete(void* p) noexcept { if (p && g_blocks) for (auto& b : g_blk) if (b == p) { b = nullptr; g_blocks--; } free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }

static void begin(int maxf) { g_fds = new std::set<int>; g_pages = new std::map<char*, size_t>; g_names = new std::set<std::string>; g_log = new std::string; g_faults = 0; g_blocks = 0; memset(g_blk, 0, sizeof g_blk); g_max_faults = maxf; }
static void empty_ledger(const char* when) {
    note("%s; OS calls:%s", when, g_log->c_str());
    MC_CHECK(g_fds->empty(), "leak-fd", "%s: descriptor %d is still open; OS calls (! = failed):%s", when, *g_fds->begin(), g_log->c_str());
    MC_CHECK(g_pages->empty(), "leak-map", "%s: %zu pages are still mapped; OS calls:%s", when, g_pages->size(), g_log->c_str());
    MC_CHECK(g_names->empty(), "leak-shm", "%s: shared-memory object %s was never unlinked; OS calls:%s", when, g_names->begin()->c_str(), g_log->c_str());
    MC_CHECK(g_blocks == 0, "leak-heap", "%s: %d heap blocks not returned; OS calls:%s", when, g_blocks, g_log->c_str());
}
template <size_t B> static void use(cler::Channel<El<B>>& ch, size_t req) {
    // a fully working channel: wrap around once through every access method
    auto* q = &ch._queue; size_t cap = q->capacity();
    MC_CHECK(cap >= req, "capacity", "requested %zu, offered %zu; OS calls:%s", req, cap, g_log->c_str());
    std::deque<uint64_t> ref; uint64_t seq = 1; std::vector<El<B>> t(cap + 2);
    size_t pos[] = {cap / 2, cap, cap / 3};
    for (size_t rnd = 0; rnd < 3; ++rnd) {
        size_t w = std::min(pos[rnd], cap - ref.size()); for (size_t i = 0; i < w; ++i) t[i] = mk<B>(seq + i);
        if (q->is_doubly_mapped() && rnd != 1) {
            auto [p, n] = ch.write_dbf(); MC_CHECK(n == cap - ref.size(), "view", "write view has %zu, room %zu; OS calls:%s", n, cap - ref.size(), g_log->c_str());
            memcpy((void*)p, t.data(), w * B); ch.commit_write(w);
        } else MC_CHECK(ch.writeN(t.data(), w) == w, "bulk", "channel refused data it has room for; OS calls:%s", g_log->c_str());
        for (size_t i = 0; i < w; ++i) ref.push_back(seq++);
        size_t r = rnd == 0 ? w / 2 : rnd == 1 ? ref.size() - 1 : ref.size();
        if (q->is_doubly_mapped() && rnd != 0) {
            auto [p, n] = ch.read_dbf(); MC_CHECK(n == ref.size(), "view", "read view has %zu of %zu; OS calls:%s", n, ref.size(), g_log->c_str());
            for (size_t i = 0; i < n; ++i) MC_CHECK(eq(p[i], mk<B>(ref[i])), "content", "wrong data in the read view; OS calls:%s", g_log->c_str());
            ch.commit_read(r);
        } else {
            MC_CHECK(ch.readN(t.data(), r) == r, "bulk", "channel lost data; OS calls:%s", g_log->c_str());
            for (size_t i = 0; i < r; ++i) MC_CHECK(eq(t[i], mk<B>(ref[i])), "content", "wrong data; OS calls:%s", g_log->c_str());
        }
        for (size_t i = 0; i < r; ++i) ref.pop_front();
        MC_CHECK(ch.size() == ref.size() && ch.space() == cap - ref.size(), "occupancy", "size/space wrong");
    }
    for (size_t i = 0; i < cap - ref.size(); ++i) MC_CHECK(ch.try_push(mk<B>(1)), "bulk", "no room");
}
// fresh: the capability probe also runs (first channel of the process)
template <size_t B> static void create(size_t req, int nch, bool fresh, int maxf, bool heap) {
    char nm[160]; snprintf(nm, sizeof nm, "%d x channel of %zu x %zuB%s, up to %d failing calls%s", nch, req, B, fresh ? " (first of the process)" : "", maxf, heap ? " incl. heap" : "");
    scenario(nm, [=] {
        sample("%s", nm);
        if (!fresh) cler::Channel<El<B>> warm(req);
        Opts o; o.iterate = false; o.fork_each = fresh;
        explore(o, [=] {
            begin(maxf); g_heap = heap; g_on = true;
            std::unique_ptr<cler::Channel<El<B>>> c[3]; uint64_t h = 0;
            for (int i = 0; i < nch; ++i) {
                try { c[i].reset(new cler::Channel<El<B>>(req)); } catch (const std::bad_alloc&) { MC_CHECK(heap && g_faults, "throw", "creation threw although no allocation failed"); }
                h = hmix(h, c[i] ? 1 + c[i]->_queue.is_doubly_mapped() : 0);
            }
            bool inj = g_heap; g_heap = false; int mf = g_max_faults; g_max_faults = 0;
            for (auto& x : c) if (x) use<B>(*x, req);
            g_heap = inj;
            int first = nch > 1 ? ask(nch) : 0;
            c[first].reset(); for (int i = nch - 1; i >= 0; --i) c[i].reset();
            g_max_faults = mf; g_on = false;
            empty_ledger("after destroying the channels");
            state(hmix(h, std::hash<std::string>{}(*g_log))); outcome(h); count_trans(std::count(g_log->begin(), g_log->end(), ' '));
            delete g_fds; delete g_pages; delete g_names; delete g_log;
        });
        g_on = false;
    });
}
// the mapping object itself: create / move / assign / destroy histories
static void objects(int depth, int maxf) {
    char nm[120]; snprintf(nm, sizeof nm, "mapping object: all create/move/assign/destroy histories of length %d, up to %d failing calls", depth, maxf);
    scenario(nm, [=] {
        sample("%s", nm); cler::platform::supports_doubly_mapped_buffers();
        Opts o; o.iterate = false;
        explore(o, [=] {
            using A = cler::vmem::DoublyMappedAllocation;
            begin(maxf); g_heap = false; g_on = true; uint64_t h = 0;
            { std::unique_ptr<A> a[2]; a[0].reset(new A); a[1].reset(new A); size_t want[2] = {0, 0};
              for (int d = 0; d < depth; ++d) {
                int k = ask(12); int i = k & 1; h = hmix(h, k);
                switch (k >> 1) {
                    case 0: case 1: { size_t n = (k >> 1) ? 8192 : 4096; bool ok = a[i]->create(n); want[i] = ok ? n : 0; MC_CHECK(ok || g_faults, "create", "creation failed although no call failed"); break; }
                    case 2: { *a[i] = std::move(*a[1 - i]); want[i] = want[1 - i]; want[1 - i] = 0; break; }
                    case 3: { A t(std::move(*a[i])); std::swap(want[i], h); size_t w = h; h = want[i]; want[i] = 0; MC_CHECK(t.valid() == (w > 0), "move", "moved-to object invalid"); a[i].reset(new A(std::move(t))); want[i] = w; break; }
                    case 4: a[i].reset(new A); want[i] = 0; break;
                    case 5: { A& s = *a[i]; s = std::move(s); break; }
                }
                for (int x = 0; x < 2; ++x) {
                    A& s = *a[x];
                    MC_CHECK(s.valid() == (want[x] > 0), "valid", "valid() is %d, expected %d;%s", s.valid(), want[x] > 0, g_log->c_str());
                    MC_CHECK(s.size() == want[x], "size", "size() is %zu, expected %zu", s.size(), want[x]);
                    if (want[x]) { char* p = (char*)s.data(); char* q = (char*)s.second_mapping(); for (size_t z = 0; z < want[x]; z += 511) { p[z] = (char)(z + d); MC_CHECK(q[z] == (char)(z + d), "alias", "the two mappings differ"); } }
                    else MC_CHECK(!s.data() && !s.second_mapping(), "valid", "an invalid object hands out memory");
                }
                state(h);
              } }
            g_on = false; empty_ledger("after destroying the objects"); outcome(std::hash<std::string>{}(*g_log)); count_trans(depth);
            delete g_fds; delete g_pages; delete g_names; delete g_log;
        });
        g_on = false;
    });
}
static void setup() {
    create<4>(1023, 1, true, 99, false); create<8>(600, 1, true, 99, true); create<4>(100, 1, true, 99, true); create<24>(200, 1, true, 3, true);
    create<4>(1023, 1, false, 99, true); create<4>(1024, 1, false, 99, true); create<24>(200, 1, false, 99, true); create<12>(400, 1, false, 99, false); create<1>(5000, 1, false, 99, true);
    create<4>(524288, 1, false, 2, true);
    create<8>(512, 2, false, 3, true); create<8>(512, 2, true, 2, false);
    objects(3, 99); objects(4, 1); create<8>(512, 2, false, 99, true); create<48>(100, 1, true, 99, true); create<4>(1023, 3, false, 2, true);
    if (thorough()) { create<4>(1023, 3, false, 5, true); create<8>(512, 2, true, 5, true); objects(4, 2); objects(5, 1); create<4>(1 << 20, 2, false, 99, true); }
}
MC_MAIN(setup)
