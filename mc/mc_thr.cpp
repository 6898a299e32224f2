// Controlled scheduler + weak-memory model + race detector.  The code under test is compiled with
// -fsanitize=thread and linked against THIS file instead of libtsan: every plain and atomic access of the
// real code arrives here, and std::thread / mutex / condition variables / clocks / sleeps are interposed.
// Threads are coroutines on one OS thread; the explorer (mc_core.cpp) decides every scheduling choice and
// which of the stores that the C++ memory model allows an atomic load returns.
#include "mc.hpp"
#include "mc_int.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <new>
#include <unordered_map>
#include <vector>
#include <map>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>

extern "C" char __libc_single_threaded;
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace mc {
namespace {

constexpr int MAXT = 24;
constexpr size_t STK = 512 * 1024;
constexpr size_t ARENA = 256u << 20;

enum Kind : uint8_t { P_NONE, P_LOAD, P_STORE, P_RMW, P_FENCE, P_LOCK, P_UNLOCK, P_COND, P_SIGNAL, P_JOIN, P_FINISH, P_START, P_YIELD, P_GHOSTR, P_GHOSTW, P_CREATE };
const char* kname[] = {"none","load","store","rmw","fence","lock","unlock","cond-wait","signal","join","finish","start","yield","ghost-read","ghost-write","create"};
struct Pend { Kind k = P_NONE; uintptr_t a = 0; int sz = 0; bool timed = false; };

struct VC {
    uint32_t c[MAXT];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum Yk : uint8_t { Y_NO, Y_SPIN, Y_SLEEP };
struct Thr {
    bool used, finished, detached, joined, signalled;
    void* sp; char* stk; void* (*fn)(void*); void* arg; void* ret;
    VC vc, acq, rel;
    Yk y; uint64_t ystep; uint64_t wake; bool has_wake;
    Pend p;
    int norace; int loads; uintptr_t la; uint64_t lv; int lsame; int slice;
    uint64_t hist; char eh[16]; int err;
};

struct Msg { uint64_t v; VC sync; uint8_t tid; uint32_t clk; bool sc; };
struct RdAcc { uint8_t tid; uint32_t clk; uint32_t idx; };
struct Loc { uintptr_t a; int sz; uint32_t gen; std::vector<Msg> h; std::vector<RdAcc> r; };

struct Mtx { int owner = -1; VC vc; };
struct Cond { std::vector<int> w; };

struct Cell { uint32_t gen; uint8_t wt, rt; uint8_t shared; uint8_t freed; uint32_t wc, rc; uint32_t* rvc; };
struct Page { Cell c[4096]; uint32_t agen; uint64_t abits[8]; };   // agen/abits: 8-byte slots holding atomics in this generation

struct G_ {
    bool running = false; int in_rt = 0;
    Opts o; const std::function<void()>* body = nullptr;
    Thr t[MAXT]; int nt = 0; int cur = -1; void* host_sp = nullptr; bool aborted = false;
    uint64_t steps = 0, vtime = 0; int stale = 0;
    uint32_t sleepset = 0;
    uint32_t gen = 1;
    std::unordered_map<uintptr_t, Page*> pages;
    uintptr_t last_pg = ~0ull; Page* last_page = nullptr;
    std::unordered_map<uintptr_t, Loc*> locs;
    std::vector<Loc*> locpool; size_t loc_used = 0;
    std::unordered_map<uintptr_t, Mtx> mtx;
    std::unordered_map<uintptr_t, Cond> cond;
    std::unordered_map<uintptr_t, int> guard_owner;      // static guards being initialised
    std::unordered_map<uintptr_t, VC> guard_vc;
    VC sc;
    char* arena = nullptr; uint8_t* ast = nullptr; size_t aoff = 0; size_t live = 0;
    std::unordered_map<uintptr_t, size_t> asz;
    struct Map { uintptr_t a; size_t n; int fd; off_t off; uintptr_t canon; bool inexec; };
    std::vector<Map> maps; 
    std::vector<uint32_t*> rvcpool; size_t rvc_used = 0;
    void (*sleep_hook)(uint64_t) = nullptr; int (*create_hook)() = nullptr; int64_t wall = 0;
    uint64_t sched_hash = 0;
};
alignas(64) char Gbuf[sizeof(G_)];
G_* Gp = nullptr;
#define G (*Gp)

struct Rt { Rt() { G.in_rt++; } ~Rt() { G.in_rt--; } };
inline bool live() { return Gp && G.running && G.in_rt == 0; }
inline Thr& me() { return G.t[G.cur]; }

extern "C" void mc_switch(void** save, void* load);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

void go(void** save, Thr* from, Thr* to) {
    char* eg = (char*)__cxxabiv1::__cxa_get_globals();
    if (from) { memcpy(from->eh, eg, 16); from->err = errno; }
    if (to) { memcpy(eg, to->eh, 16); errno = to->err; } else memset(eg, 0, 16);
    int d = G.in_rt;
    if (to) G.cur = to - G.t;
    mc_switch(save, to ? to->sp : G.host_sp);
    G.in_rt = d;
}
[[noreturn]] void to_host() {
    static void* dummy;
    memset((char*)__cxxabiv1::__cxa_get_globals(), 0, 16);
    mc_switch(&dummy, G.host_sp);
    abort();
}

std::string describe() {
    std::string s; char b[160];
    for (int i = 0; i < G.nt; ++i) {
        Thr& t = G.t[i];
        snprintf(b, sizeof b, " T%d:%s", i, t.finished ? "finished" : kname[t.p.k]); s += b;
        if (!t.finished && t.y) s += "(yielding)";
    }
    return s;
}

bool enabled(int i) {
    Thr& t = G.t[i];
    if (!t.used || t.finished) return false;
    switch (t.p.k) {
        case P_LOCK: { auto it = G.mtx.find(t.p.a); return it == G.mtx.end() || it->second.owner < 0 || t.p.timed; }
        case P_JOIN: return G.t[t.p.a].finished;
        case P_COND: return t.signalled || t.p.timed;
        default: return true;
    }
}
bool is_write(Kind k) { return k == P_STORE || k == P_RMW || k == P_GHOSTW || k == P_LOCK || k == P_UNLOCK || k == P_COND || k == P_SIGNAL; }
bool dependent(const Pend& a, const Pend& b) {
    if (a.k == P_FENCE || b.k == P_FENCE) return true;
    if (a.k == P_START || b.k == P_START || a.k == P_YIELD || b.k == P_YIELD || a.k == P_NONE || b.k == P_NONE || a.k == P_CREATE || b.k == P_CREATE) return false;
    if (a.k == P_JOIN || a.k == P_FINISH || b.k == P_JOIN || b.k == P_FINISH)
        return (a.k == P_JOIN || a.k == P_FINISH) && (b.k == P_JOIN || b.k == P_FINISH) && a.a == b.a;
    if (a.a + (a.sz ? a.sz : 1) <= b.a || b.a + (b.sz ? b.sz : 1) <= a.a) return false;
    return is_write(a.k) || is_write(b.k);
}

bool yielding(int i) { Thr& t = G.t[i]; return t.y != Y_NO && G.steps - t.ystep <= 2000; }

// choose the next thread and switch to it; returns when the caller is scheduled again
void reschedule() {
    Thr& c = me(); int ci = G.cur;
    if (c.slice > G.o.slice && c.y == Y_NO) { c.y = Y_SPIN; c.ystep = G.steps; }
    int en[MAXT], ne = 0;
    for (int k = 0; k < G.nt; ++k) { int i = (ci + k) % G.nt; if (enabled(i)) en[ne++] = i; }
    if (ne == 0) {
        bool all = true; for (int i = 0; i < G.nt; ++i) if (!G.t[i].finished) all = false;
        if (all) to_host();
        fail("deadlock", "no thread can make progress:%s", describe().c_str());
    }
    int nxt;
    // non-yielding enabled threads; when everybody yields, everybody is woken again
    int a[MAXT], na = 0, b[MAXT], nb = 0;
    auto split = [&]() { na = nb = 0; for (int k = 0; k < ne; ++k) { if (!yielding(en[k])) a[na++] = en[k]; else if (G.t[en[k]].y == Y_SLEEP) b[nb++] = en[k]; } };
    split();
    if (na == 0) {
        bool curyield = c.y != Y_NO && enabled(ci);
        for (int i = 0; i < G.nt; ++i) G.t[i].y = Y_NO;
        split();
        if (curyield && na > 1 && a[0] == ci) { for (int k = 0; k + 1 < na; ++k) a[k] = a[k + 1]; a[na - 1] = ci; }   // the one that yielded last goes last
    }
    if (G.o.full) {
        int cand[MAXT], nc = 0;
        for (int k = 0; k < na; ++k) if (!(G.sleepset >> a[k] & 1)) cand[nc++] = a[k];
        if (nc == 0) prune();
        int idx = X.pick(nc, K_SCHED, false);
        nxt = cand[idx];
        uint32_t s = G.sleepset; for (int k = 0; k < idx; ++k) s |= 1u << cand[k];
        uint32_t ns = 0;
        for (int i = 0; i < G.nt; ++i) if ((s >> i & 1) && i != nxt && !dependent(G.t[i].p, G.t[nxt].p)) ns |= 1u << i;
        G.sleepset = ns;
    } else {
        bool cont = na > 0 && a[0] == ci;
        int cand[MAXT], nc = 0;
        for (int k = 0; k < na; ++k) cand[nc++] = a[k];
        int nfree = cont ? 1 : (G.o.free_switch ? na : 1);
        for (int k = 0; k < nb; ++k) cand[nc++] = b[k];
        nxt = cand[nc > 1 ? X.pick(nc, K_SCHED, false, nfree) : 0];
    }
    Thr& n = G.t[nxt];
    if (n.y != Y_NO) n.y = Y_NO;
    if (n.has_wake) { n.has_wake = false; if (n.wake > G.vtime) G.vtime = n.wake; }
    if (nxt != ci) { c.slice = 0; n.slice = 0; go(&c.sp, &c, &n); }
    else if (c.slice > G.o.slice) c.slice = 0;
}

void record(Thr& t, uint64_t v) {
    t.vc.c[&t - G.t]++;            // what follows a release is not covered by it
    t.hist = hmix(t.hist, v);
    uint64_t s = 0; for (int i = 0; i < G.nt; ++i) s += hmix(i + 1, G.t[i].hist);
    state(s);
}

// the calling thread is about to perform a visible operation
void point(Kind k, const void* addr, int sz) {
    Thr& t = me();
    t.p.k = k; t.p.a = (uintptr_t)addr; t.p.sz = sz;
    G.steps++; t.slice++;
    if (G.steps > G.o.max_steps) {
        if (G.o.hang_is_violation) fail("hang", "not finished after %lu visible operations:%s", (unsigned long)G.steps, describe().c_str());
        prune();
    }
    reschedule();
    t.vc.c[G.cur]++;
    if (k != P_LOAD && k != P_YIELD) { t.loads = 0; t.lsame = 0; t.la = 0; }
    if (replaying()) { Rt r; trace("T%d %s %lx", G.cur, kname[k], (unsigned long)(uintptr_t)addr & 0xffffff); }
}

void do_yield(Yk y) {
    Rt r; Thr& t = me();
    t.p.k = P_YIELD; t.p.a = 0; t.y = y; t.ystep = G.steps; G.steps++;
    if (G.steps > G.o.max_steps) {
        if (G.o.hang_is_violation) fail("hang", "not finished after %lu visible operations:%s", (unsigned long)G.steps, describe().c_str());
        prune();
    }
    t.slice = 0;
    reschedule();
    t.loads = 0; t.lsame = 0;
    t.p.k = P_NONE;
}

// ------------------------------------------------------------------ shadow memory
uintptr_t canon(uintptr_t a) {
    for (auto& m : G.maps) if (m.canon && a >= m.a && a < m.a + m.n) return m.canon + (a - m.a);
    return a;
}
Page* page(uintptr_t pg) {
    if (pg == G.last_pg) return G.last_page;
    Page*& p = G.pages[pg];
    if (!p) { p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    G.last_pg = pg; G.last_page = p; return p;
}
uint32_t* new_rvc() {
    if (G.rvc_used == G.rvcpool.size()) G.rvcpool.push_back((uint32_t*)malloc(sizeof(uint32_t) * MAXT));
    uint32_t* p = G.rvcpool[G.rvc_used++]; memset(p, 0, sizeof(uint32_t) * MAXT); return p;
}
[[noreturn]] void race(const char* what, uintptr_t a, int other) {
    fail("data-race", "%s: T%d and T%d access the same byte without synchronisation (addr ..%06lx)", what, G.cur, other, (unsigned long)a & 0xffffff);
}
Loc* find_loc(uintptr_t a) { auto it = G.locs.find(a); return it == G.locs.end() ? nullptr : it->second; }

void arena_check(uintptr_t a, size_t n, bool w) {
    uintptr_t lo = (uintptr_t)G.arena;
    if (a - lo >= ARENA) return;
    const uint8_t* s = G.ast + (a - lo);
    for (size_t i = 0; i < n; ++i) if (s[i] != 1) {
        fail(s[i] == 2 ? "use-after-free" : "heap-overflow", "%s of %zu bytes %s", w ? "write" : "read", n, s[i] == 2 ? "in a freed block" : "outside any heap block");
    }
}

void plain(const void* addr, size_t n, bool w) {
    if (!live()) return;
    Rt r;
    uintptr_t a = (uintptr_t)addr; Thr& t = me(); int ci = G.cur;
    if (a - (uintptr_t)t.stk < STK && ci != 0) return;
    arena_check(a, n, w);
    if (t.norace || !G.o.races || n == 0) return;
    if (!G.maps.empty()) a = canon(a);
    uint32_t myc = t.vc.c[ci];
    for (size_t i = 0; i < n; ++i, ++a) {
        Page* p = page(a >> 12);
        Cell& c = p->c[a & 4095];
        if (c.gen != G.gen) { memset(&c, 0, sizeof c); c.gen = G.gen; c.wt = c.rt = 255; }
        if (c.wt != 255 && c.wt != ci && c.wc > t.vc.c[c.wt]) race(w ? "write after write" : "read after write", a, c.wt);
        if (w) {
            if (c.shared) { for (int u = 0; u < G.nt; ++u) if (u != ci && c.rvc[u] > t.vc.c[u]) race("write after read", a, u); }
            else if (c.rt != 255 && c.rt != ci && c.rc > t.vc.c[c.rt]) race("write after read", a, c.rt);
            c.wt = (uint8_t)ci; c.wc = myc; c.rt = 255; c.shared = 0;
        } else {
            if (c.shared) c.rvc[ci] = myc;
            else if (c.rt == 255 || c.rt == ci || c.rc <= t.vc.c[c.rt]) { c.rt = (uint8_t)ci; c.rc = myc; }
            else { c.rvc = new_rvc(); c.rvc[c.rt] = c.rc; c.rvc[ci] = myc; c.shared = 1; }
        }
    }
    // plain access to bytes that are also accessed atomically
    a = (uintptr_t)addr; if (!G.maps.empty()) a = canon(a);
    auto has_atomic = [&](uintptr_t s) { Page* p = page(s >> 12); int k = (s & 4095) >> 3; return p->agen == G.gen && (p->abits[k >> 6] >> (k & 63) & 1); };
    for (uintptr_t s = (a & ~(uintptr_t)7); s < a + n; s += 8) {
        if ((s & 4095) == 0 || s == (a & ~(uintptr_t)7)) if (page(s >> 12)->agen != G.gen) { s = ((s >> 12) + 1) << 12; s -= 8; continue; }
        if (!has_atomic(s)) continue;
        for (uintptr_t b = s; b < s + 8; ++b) if (Loc* l = find_loc(b)) {
            if (b + l->sz <= a || b >= a + n) continue;
            if (l->h.size() > 1) for (auto& x : l->h) if (x.tid != 255 && x.tid != ci && x.clk > t.vc.c[x.tid]) race(w ? "plain write vs atomic store" : "plain read vs atomic store", b, x.tid);
            if (w) { for (auto& x : l->r) if (x.tid != ci && x.clk > t.vc.c[x.tid]) race("plain write vs atomic load", b, x.tid); G.locs.erase(b); }
        }
    }
}

Loc* loc(uintptr_t a, int sz, uint64_t cur) {
    auto it = G.locs.find(a);
    if (it != G.locs.end() && it->second->sz == sz) return it->second;
    if (G.loc_used == G.locpool.size()) G.locpool.push_back(new Loc);
    Loc* l = G.locpool[G.loc_used++];
    l->a = a; l->sz = sz; l->h.clear(); l->r.clear();
    Msg m; m.v = cur; m.sync.clear(); m.tid = 255; m.clk = 0; m.sc = false; l->h.push_back(m);
    G.locs[a] = l;
    Page* p = page(a >> 12); if (p->agen != G.gen) { p->agen = G.gen; memset(p->abits, 0, sizeof p->abits); }
    int k = (a & 4095) >> 3; p->abits[k >> 6] |= 1ull << (k & 63);
    return l;
}

void atomic_vs_plain(uintptr_t a, int sz, bool w) {
    Thr& t = me(); int ci = G.cur;
    if (!G.o.races || t.norace) return;
    for (int i = 0; i < sz; ++i) {
        Cell& c = page((a + i) >> 12)->c[(a + i) & 4095];
        if (c.gen != G.gen) continue;
        if (c.wt != 255 && c.wt != ci && c.wc > t.vc.c[c.wt]) race("atomic access vs plain write", a, c.wt);
        if (w) {
            if (c.shared) { for (int u = 0; u < G.nt; ++u) if (u != ci && c.rvc[u] > t.vc.c[u]) race("atomic store vs plain read", a, u); }
            else if (c.rt != 255 && c.rt != ci && c.rc > t.vc.c[c.rt]) race("atomic store vs plain read", a, c.rt);
        }
    }
}

bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

template <class T> T raw(const void* p) { return *(const volatile T*)p; }

template <class T> T a_load(const volatile void* ap, int mo) {
    const void* p = const_cast<const void*>(ap);
    if (!live()) return __atomic_load_n((const T*)p, __ATOMIC_SEQ_CST);
    Rt r; uintptr_t a = (uintptr_t)p; 
    arena_check(a, sizeof(T), false);
    uintptr_t ca = G.maps.empty() ? a : canon(a);
    point(P_LOAD, (void*)ca, sizeof(T));
    Thr& t = me(); int ci = G.cur;
    arena_check(a, sizeof(T), false);
    atomic_vs_plain(ca, sizeof(T), false);
    Loc* l = loc(ca, sizeof(T), (uint64_t)raw<T>(p));
    int top = (int)l->h.size() - 1, lo = 0;
    for (int j = top; j > 0; --j) { Msg& m = l->h[j]; if (m.tid == 255 || m.clk <= t.vc.c[m.tid] || m.tid == ci) { lo = j; break; } }
    for (auto& x : l->r) if ((x.tid == ci || x.clk <= t.vc.c[x.tid]) && (int)x.idx > lo) lo = x.idx;
    if (mo == 5) for (int j = top; j > lo; --j) if (l->h[j].sc) { lo = j; break; }
    int n = top - lo + 1; if (n > 6) n = 6;
    int pickd = 0;
    if (n > 1 && G.o.stale > 0) pickd = X.pick(n, K_STALE, true);
    if (pickd) G.stale++;
    int idx = top - pickd;
    Msg& m = l->h[idx];
    l->r.push_back({(uint8_t)ci, t.vc.c[ci], (uint32_t)idx});
    if (l->r.size() > 4096) l->r.erase(l->r.begin(), l->r.begin() + 2048);
    if (acq(mo)) t.vc.join(m.sync); else t.acq.join(m.sync);
    record(t, hmix(m.v, idx));
    t.p.k = P_NONE;
    // spin detection
    t.loads++;
    if (t.la == ca && t.lv == m.v) t.lsame++; else t.lsame = 0;
    t.la = ca; t.lv = m.v;
    T v = (T)m.v;
    if ((t.lsame >= 2) || t.loads > G.o.spin_limit) { t.loads = 0; t.lsame = 0; t.la = 0; do_yield(Y_SPIN); }
    return v;
}

template <class T> void push_msg(Loc* l, Thr& t, T v, int mo, const VC* chain) {
    Msg m; m.v = (uint64_t)v; m.tid = (uint8_t)G.cur; m.clk = t.vc.c[G.cur]; m.sc = mo == 5;
    if (rel(mo)) m.sync = t.vc; else m.sync = t.rel;
    if (chain) m.sync.join(*chain);
    if (l->h.size() >= 64) { l->h.erase(l->h.begin(), l->h.begin() + 32); for (auto& x : l->r) x.idx = x.idx >= 32 ? x.idx - 32 : 0; }
    l->h.push_back(m);
}

template <class T> void a_store(volatile void* ap, T v, int mo) {
    void* p = const_cast<void*>(ap);
    if (!live()) { __atomic_store_n((T*)p, v, __ATOMIC_SEQ_CST); return; }
    Rt r; uintptr_t a = (uintptr_t)p;
    arena_check(a, sizeof(T), true);
    uintptr_t ca = G.maps.empty() ? a : canon(a);
    point(P_STORE, (void*)ca, sizeof(T));
    Thr& t = me();
    arena_check(a, sizeof(T), true);
    atomic_vs_plain(ca, sizeof(T), true);
    Loc* l = loc(ca, sizeof(T), (uint64_t)raw<T>(p));
    push_msg<T>(l, t, v, mo, nullptr);
    *(volatile T*)p = v;
    record(t, hmix((uint64_t)v, 77));
    t.p.k = P_NONE;
}

template <class T, class F> T a_rmw(volatile void* ap, int mo, F f) {
    void* p = const_cast<void*>(ap);
    if (!live()) { T o = *(T*)p; T n; f(o, n); *(T*)p = n; return o; }
    Rt r; uintptr_t a = (uintptr_t)p;
    arena_check(a, sizeof(T), true);
    uintptr_t ca = G.maps.empty() ? a : canon(a);
    point(P_RMW, (void*)ca, sizeof(T));
    Thr& t = me();
    arena_check(a, sizeof(T), true);
    atomic_vs_plain(ca, sizeof(T), true);
    Loc* l = loc(ca, sizeof(T), (uint64_t)raw<T>(p));
    Msg prev = l->h.back();
    if (acq(mo)) t.vc.join(prev.sync); else t.acq.join(prev.sync);
    T o = (T)prev.v, n = o;
    bool wr = f(o, n);
    if (wr) { VC ch = prev.sync; push_msg<T>(l, t, n, mo, &ch); *(volatile T*)p = n; }
    else l->r.push_back({(uint8_t)G.cur, t.vc.c[G.cur], (uint32_t)l->h.size() - 1});
    record(t, hmix((uint64_t)o, 99));
    t.p.k = P_NONE;
    if (!wr) { t.loads++; if (t.la == ca && t.lv == (uint64_t)o) t.lsame++; else t.lsame = 0; t.la = ca; t.lv = (uint64_t)o; if (t.lsame >= 2) { t.lsame = 0; t.la = 0; do_yield(Y_SPIN); } }
    return o;
}

void fence(int mo) {
    if (!live()) return;
    Rt r; point(P_FENCE, nullptr, 0);
    Thr& t = me();
    if (acq(mo)) t.vc.join(t.acq);
    if (mo == 5) { t.vc.join(G.sc); G.sc = t.vc; }
    if (rel(mo)) t.rel = t.vc;
    record(t, 55); t.p.k = P_NONE;
}

// ------------------------------------------------------------------ threads
void thr_main() noexcept {
    G.in_rt = 0;
    Thr& t = me();
    if (G.cur == 0) (*G.body)();
    else t.ret = t.fn(t.arg);
    Rt r;
    Thr& t2 = me();
    point(P_FINISH, (void*)(uintptr_t)G.cur, 0);
    t2.finished = true; t2.p.k = P_NONE;
    record(t2, 1234);
    reschedule();
    abort();
}
void init_thr(int i) {
    Thr& t = G.t[i]; char* s = t.stk;
    if (!s) s = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    memset(&t, 0, sizeof t); t.stk = s; t.used = true;
    uintptr_t top = ((uintptr_t)s + STK) & ~(uintptr_t)15;
    uint64_t* sp = (uint64_t*)top;
    *--sp = 0;                       // fake return address slot (alignment)
    *--sp = (uint64_t)(void*)thr_main;
    for (int k = 0; k < 6; ++k) *--sp = 0;
    --sp; uint32_t mx; asm volatile("stmxcsr %0" : "=m"(mx)); uint16_t cw; asm volatile("fnstcw %0" : "=m"(cw));
    *sp = (uint64_t)mx | ((uint64_t)cw << 32);
    t.sp = sp; t.p.k = P_START;
}

} // anon

void rt_enter() { if (Gp) G.in_rt++; }
void rt_exit() { if (Gp) G.in_rt--; }
bool thr_active() { return Gp && G.running; }
void thr_abandon() { G.in_rt = 1; to_host(); }
void thr_init() {
    if (Gp) return;
    Gp = new (Gbuf) G_;
    G.arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    G.ast = (uint8_t*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    __libc_single_threaded = 0;
}

void thr_run(const Opts& o, const std::function<void()>& body) {
    if (!Gp) thr_init();
    G.o = o; G.body = &body;
    G.gen++; G.nt = 1; G.cur = 0; G.steps = 0; G.vtime = 1000000000ull; G.stale = 0; G.sleepset = 0; G.in_rt = 0;
    if (G.aoff) { memset(G.ast, 0, G.aoff + 64 < ARENA ? G.aoff + 64 : ARENA); }
    G.aoff = 0; G.live = 0; G.asz.clear();
    G.locs.clear(); G.loc_used = 0; G.mtx.clear(); G.cond.clear(); G.guard_owner.clear(); G.rvc_used = 0; G.sc.clear();
    G.sleep_hook = nullptr; G.create_hook = nullptr; G.wall = 0;
    init_thr(0); G.t[0].p.k = P_NONE; G.t[0].vc.c[0] = 1;
    G.running = true;
    char save[16]; char* eg = (char*)__cxxabiv1::__cxa_get_globals(); memcpy(save, eg, 16);
    mc_switch(&G.host_sp, G.t[0].sp);
    memcpy(__cxxabiv1::__cxa_get_globals(), save, 16);
    G.running = false; G.in_rt = 0;
    note_steps(G.steps);
    // resources of an abandoned execution
    for (size_t i = G.maps.size(); i-- > 0;) if (G.maps[i].inexec) {
        syscall(SYS_munmap, G.maps[i].a, G.maps[i].n); if (!G.maps[i].canon && G.maps[i].fd >= 0) close(G.maps[i].fd);
        G.maps.erase(G.maps.begin() + i);
    }
}

int self() { return Gp && G.running ? G.cur : 0; }
int stale_used() { return Gp ? G.stale : 0; }
uint64_t steps() { return Gp ? G.steps : 0; }
void yield() { if (live()) do_yield(Y_SPIN); }
uint64_t now_ns() { return Gp ? G.vtime : 0; }
void advance_ns(uint64_t n) { if (Gp) G.vtime += n; }
void set_sleep_hook(void (*fn)(uint64_t)) { G.sleep_hook = fn; }
void set_create_hook(int (*fn)()) { G.create_hook = fn; }
void step_wall_clock(int64_t ns) { if (Gp) G.wall += ns; }
size_t live_allocs() { return Gp ? G.live : 0; }
bool in_execution() { return Gp && G.running; }
int live_threads() { int n = 0; for (int i = 1; i < G.nt; ++i) if (!G.t[i].finished) n++; return n; }
int unjoined_threads() { int n = 0; for (int i = 1; i < G.nt; ++i) if (!G.t[i].joined) n++; return n; }
int total_threads() { return G.nt - 1; }
bool thread_finished(int i) { return i >= 0 && i < G.nt && G.t[i].finished; }
void kill_thread(int i) {
    if (!Gp || !G.running || i <= 0 || i >= G.nt || G.t[i].finished) return;
    if (i == G.cur) exit_thread();
    Rt r;                              // takes effect at once: the caller makes it a visible operation
    for (auto& c : G.cond) { auto& w = c.second.w; for (size_t k = 0; k < w.size(); ++k) if (w[k] == i) { w.erase(w.begin() + k); break; } }
    G.t[i].finished = true; G.t[i].p.k = P_NONE; record(me(), 1235);
}
void exit_thread() {
    Rt r; Thr& t = me();
    point(P_FINISH, (void*)(uintptr_t)G.cur, 0);
    t.finished = true; t.p.k = P_NONE; record(t, 1234);
    reschedule(); abort();
}
NoRace::NoRace() { if (Gp && G.running) me().norace++; }
NoRace::~NoRace() { if (Gp && G.running) me().norace--; }
void ghost(const void* a, bool w) { if (live()) { Rt r; point(w ? P_GHOSTW : P_GHOSTR, a, 8); me().p.k = P_NONE; record(me(), 31); } }
static void do_sleep(uint64_t ns) {
    if (!live()) return;
    if (G.sleep_hook) { int d = me().norace++; G.sleep_hook(ns); me().norace = d; }
    Thr& t = me(); t.wake = G.vtime + ns; t.has_wake = true;
    do_yield(Y_SLEEP);
}
int raw_clock_gettime(clockid_t c, timespec* t) { return (int)syscall(SYS_clock_gettime, c, t); }
} // namespace mc

using namespace mc;

// ====================================================================== interposed libc / libpthread
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
    if (!Gp || !G.running) return (int)syscall(SYS_clock_gettime, c, t);
    G.vtime += 100;
    uint64_t v = G.vtime;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) v += 1700000000000000000ull + G.wall;
    t->tv_sec = v / 1000000000ull; t->tv_nsec = v % 1000000000ull; return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
    timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (!Gp || !G.running) return (int)syscall(SYS_nanosleep, a, b);
    mc::do_sleep((uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec); return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b) {
    if (!Gp || !G.running) return (int)syscall(SYS_clock_nanosleep, c, flags, a, b);
    uint64_t ns = (uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec;
    if ((flags & TIMER_ABSTIME) && c == CLOCK_REALTIME) { uint64_t b = 1700000000000000000ull + G.wall; ns = ns > b ? ns - b : 0; }
    if (flags & TIMER_ABSTIME) ns = ns > G.vtime ? ns - G.vtime : 0;
    mc::do_sleep(ns); return 0;
}
int usleep(useconds_t us) {
    if (!Gp || !G.running) { timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
    mc::do_sleep((uint64_t)us * 1000); return 0;
}
unsigned sleep(unsigned s) { usleep(0); if (Gp && G.running) mc::do_sleep((uint64_t)s * 1000000000ull); return 0; }
int sched_yield() noexcept { if (live()) do_yield(Y_SLEEP); return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) noexcept { return 0; }

int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept {
    if (!Gp || !G.running) { fprintf(stderr, "mc: pthread_create outside an execution\n"); _exit(4); }
    Rt r;
    if (G.create_hook) { int d = me().norace++; int rc = G.create_hook(); me().norace = d; if (rc) return rc; }
    point(P_CREATE, nullptr, 0);
    if (G.nt >= MAXT) { fprintf(stderr, "mc: too many threads\n"); _exit(4); }
    int i = G.nt; init_thr(i); G.nt++;
    Thr& t = G.t[i]; t.fn = fn; t.arg = arg; t.vc = me().vc; t.vc.c[i] = 1; me().vc.c[G.cur]++;
    *th = (pthread_t)(0x1000 + i);
    record(me(), 4321); me().p.k = P_NONE;
    return 0;
}
int pthread_join(pthread_t th, void** ret) {
    if (!Gp || !G.running) return EINVAL;
    Rt r; int i = (int)th - 0x1000;
    if (i < 0 || i >= G.nt) fail("bad-join", "join of an invalid thread handle");
    if (i == G.cur) return EDEADLK;
    if (G.t[i].joined || G.t[i].detached) fail("double-join", "thread T%d joined twice", i);
    point(P_JOIN, (void*)(uintptr_t)i, 0);
    me().vc.join(G.t[i].vc); G.t[i].joined = true; if (ret) *ret = G.t[i].ret;
    record(me(), 777); me().p.k = P_NONE; return 0;
}
int pthread_detach(pthread_t th) noexcept { if (Gp && G.running) { int i = (int)th - 0x1000; if (i >= 0 && i < G.nt) G.t[i].detached = true; } return 0; }
pthread_t pthread_self() noexcept { return Gp && G.running ? (pthread_t)(0x1000 + G.cur) : (pthread_t)0x1000; }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) noexcept { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (live()) { Rt r; auto it = G.mtx.find((uintptr_t)m); if (it != G.mtx.end() && it->second.owner >= 0) fail("mutex-misuse", "destroying a locked mutex"); } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (!live()) return 0;
    Rt r; point(P_LOCK, m, 8);
    Mtx& x = G.mtx[(uintptr_t)m]; x.owner = G.cur; me().vc.join(x.vc); record(me(), 11); me().p.k = P_NONE; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!live()) return 0;
    Rt r; point(P_UNLOCK, m, 8);
    Mtx& x = G.mtx[(uintptr_t)m]; me().p.k = P_NONE;
    if (x.owner >= 0) { record(me(), 13); return EBUSY; }
    x.owner = G.cur; me().vc.join(x.vc); record(me(), 12); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (!live()) return 0;
    Rt r; point(P_UNLOCK, m, 8);
    Mtx& x = G.mtx[(uintptr_t)m];
    if (x.owner != G.cur) fail("mutex-misuse", "unlock of a mutex not held by T%d", G.cur);
    x.owner = -1; x.vc = me().vc; record(me(), 14); me().p.k = P_NONE; return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t wake) {
    Rt r; 
    point(P_UNLOCK, m, 8);
    Mtx& x = G.mtx[(uintptr_t)m]; if (x.owner != G.cur) fail("mutex-misuse", "cond wait without the mutex");
    x.owner = -1; x.vc = me().vc;
    Thr& t = me(); t.signalled = false; G.cond[(uintptr_t)c].w.push_back(G.cur);
    if (timed) { t.y = Y_SLEEP; t.ystep = G.steps; t.wake = wake; t.has_wake = true; }
    t.p.timed = timed;
    G.steps++; t.p.k = P_COND; t.p.a = (uintptr_t)c; t.p.sz = 8; 
    reschedule();
    t.p.timed = false;
    bool sig = t.signalled;
    auto& w = G.cond[(uintptr_t)c].w; for (size_t i = 0; i < w.size(); ++i) if (w[i] == G.cur) { w.erase(w.begin() + i); break; }
    point(P_LOCK, m, 8);
    Mtx& x2 = G.mtx[(uintptr_t)m]; x2.owner = G.cur; me().vc.join(x2.vc); record(me(), sig ? 21 : 22); me().p.k = P_NONE;
    return sig ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!live()) return 0; return cond_wait(c, m, false, 0); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    if (!live()) return ETIMEDOUT;
    uint64_t w = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; if (k == CLOCK_REALTIME) { uint64_t b = 1700000000000000000ull + G.wall; w = w > b ? w - b : 0; }
    return cond_wait(c, m, true, w);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!live()) return ETIMEDOUT; return pthread_cond_clockwait(c, m, CLOCK_REALTIME, t); }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (!live()) return 0;
    Rt r; point(P_SIGNAL, c, 8);
    auto& w = G.cond[(uintptr_t)c].w; 
    std::vector<int> un; for (int i : w) if (!G.t[i].signalled) un.push_back(i);
    if (!un.empty()) { int k = un.size() > 1 ? X.pick((int)un.size(), K_ENV, false) : 0; G.t[un[k]].signalled = true; G.t[un[k]].y = Y_NO; }
    record(me(), 23); me().p.k = P_NONE; return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (!live()) return 0;
    Rt r; point(P_SIGNAL, c, 8);
    for (int i : G.cond[(uintptr_t)c].w) { G.t[i].signalled = true; G.t[i].y = Y_NO; }
    record(me(), 24); me().p.k = P_NONE; return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (!live()) { if (*o == 0) { *o = 2; fn(); } return 0; }
    for (;;) {
        { Rt r; point(P_RMW, o, 4); me().p.k = P_NONE; auto it = G.guard_vc.find((uintptr_t)o); if (it != G.guard_vc.end()) me().vc.join(it->second); }
        if (*o == 2) return 0;
        if (*o == 0) { *o = 1; fn(); Rt r; point(P_RMW, o, 4); me().p.k = P_NONE; *o = 2; G.guard_vc[(uintptr_t)o] = me().vc; return 0; }
        do_yield(Y_SPIN);
    }
}
int __cxa_guard_acquire(long long* g) {
    if (!live()) { if (*(char*)g) return 0; return 1; }
    for (;;) {
        { Rt r; point(P_RMW, g, 8); me().p.k = P_NONE;
          if (*(char*)g) { auto it = G.guard_vc.find((uintptr_t)g); if (it != G.guard_vc.end()) me().vc.join(it->second); return 0; }
          auto it = G.guard_owner.find((uintptr_t)g);
          if (it == G.guard_owner.end()) { G.guard_owner[(uintptr_t)g] = G.cur; return 1; }
          if (it->second == G.cur) fail("recursive-static", "recursive static initialisation"); }
        do_yield(Y_SPIN);
    }
}
void __cxa_guard_release(long long* g) {
    if (!live()) { *(char*)g = 1; return; }
    Rt r; point(P_RMW, g, 8); me().p.k = P_NONE;
    // publish through the atomic location so that the inlined acquire load synchronises
    Loc* l = loc((uintptr_t)g, 1, *(uint8_t*)g); push_msg<uint8_t>(l, me(), 1, 3, nullptr);
    *(char*)g = 1; G.guard_owner.erase((uintptr_t)g); G.guard_vc[(uintptr_t)g] = me().vc;
}
void __cxa_guard_abort(long long* g) { if (live()) { Rt r; G.guard_owner.erase((uintptr_t)g); } }

void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept {
    long rc = syscall(SYS_mmap, a, n, prot, flags, fd, off);
    if (rc == -1) return MAP_FAILED;
    if (Gp && fd >= 0 && (flags & MAP_SHARED)) {
        if (Gp) G.in_rt++;
        G_::Map m; m.a = (uintptr_t)rc; m.n = n; m.fd = fd; m.off = off; m.canon = 0; m.inexec = G.running;
        for (auto& x : G.maps) if (x.fd == fd && x.off == off && !x.canon && x.a != m.a) { m.canon = x.a; break; }
        G.maps.push_back(m);
        if (Gp) G.in_rt--;
    }
    return (void*)rc;
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept { return mmap(a, n, prot, flags, fd, off); }
int munmap(void* a, size_t n) noexcept {
    int rc = (int)syscall(SYS_munmap, a, n);
    if (Gp && rc == 0) { G.in_rt++; uintptr_t lo = (uintptr_t)a; for (size_t i = G.maps.size(); i-- > 0;) if (G.maps[i].a >= lo && G.maps[i].a < lo + n) G.maps.erase(G.maps.begin() + i); G.in_rt--; }
    return rc;
}
} // extern C

// ---------------------------------------------------------------------- operator new / delete
static void* do_new(size_t n, size_t al) {
    if (!live()) { void* p = nullptr; if (al < 16) al = 16; if (posix_memalign(&p, al, n ? n : 1)) abort(); return p; }
    Rt r;
    if (al < 16) al = 16;
    size_t off = (G.aoff + 32 + al - 1) & ~(al - 1);
    if (off + n + 64 > ARENA) { fprintf(stderr, "mc: arena exhausted\n"); _exit(4); }
    memset(G.ast + off, 1, n); G.aoff = off + n; G.live++;
    G.asz[(uintptr_t)G.arena + off] = n;
    memset(G.arena + off, 0xa5, n);
    return G.arena + off;
}
static void do_del(void* p) {
    if (!p) return;
    if (Gp && (uintptr_t)p - (uintptr_t)G.arena < ARENA) {
        if (!G.running) return;
        G.in_rt++;
        auto it = G.asz.find((uintptr_t)p); size_t off = (char*)p - G.arena;
        if (it == G.asz.end()) fail("bad-free", "delete of a pointer that is not a heap block");
        if (G.ast[off] == 2 || (it->second == 0 && false)) fail("double-free", "heap block deleted twice");
        size_t n = it->second;
        G.in_rt--;
        if (n) { plain(p, n, true); G.in_rt++; memset(G.ast + off, 2, n); G.in_rt--; }
        else { G.asz.erase(it); }
        G.live--;
        return;
    }
    free(p);
}
void* operator new(size_t n) { return do_new(n, 16); }
void* operator new[](size_t n) { return do_new(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void operator delete(void* p) noexcept { do_del(p); }
void operator delete[](void* p) noexcept { do_del(p); }
void operator delete(void* p, size_t) noexcept { do_del(p); }
void operator delete[](void* p, size_t) noexcept { do_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_del(p); }

// ---------------------------------------------------------------------- __tsan_* hooks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
 void __tsan_read##n(void* p) { plain(p, n, false); } \
 void __tsan_write##n(void* p) { plain(p, n, true); } \
 void __tsan_unaligned_read##n(void* p) { plain(p, n, false); } \
 void __tsan_unaligned_write##n(void* p) { plain(p, n, true); } \
 void __tsan_read_write##n(void* p) { plain(p, n, true); } \
 void __tsan_unaligned_read_write##n(void* p) { plain(p, n, true); } \
 void __tsan_volatile_read##n(void* p) { plain(p, n, false); } \
 void __tsan_volatile_write##n(void* p) { plain(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, 8, true); }
void __tsan_vptr_read(void** p) { plain(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { plain(p, n, false); }
void __tsan_write_range(void* p, size_t n) { plain(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { plain(s, n, false); plain(d, n, true); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { plain(s, n, false); plain(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { plain(d, n, true); return memset(d, c, n); }

#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return a_load<T>(p, mo); } \
 void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo); } \
 T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [&](T, T& n) { n = v; return true; }); } \
 T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [&](T o, T& n) { n = (T)(o + v); return true; }); } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [&](T o, T& n) { n = (T)(o - v); return true; }); } \
 T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [&](T o, T& n) { n = (T)(o & v); return true; }); } \
 T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [&](T o, T& n) { n = (T)(o | v); return true; }); } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [&](T o, T& n) { n = (T)(o ^ v); return true; }); } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [&](T o, T& n) { n = (T)~(o & v); return true; }); } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { T x = *e; T o = a_rmw<T>(p, mo, [&](T o2, T& n) { if (o2 == x) { n = v; return true; } return false; }); if (o == x) return 1; *e = o; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int f) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, f); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T x, T v, int mo, int) { return a_rmw<T>(p, mo, [&](T o2, T& n) { if (o2 == x) { n = v; return true; } return false; }); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
