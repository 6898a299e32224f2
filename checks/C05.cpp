// C05: construction, ownership and destruction of channel elements, all histories on lifetime-tracking types.
#include "mc.hpp"
#include "cler.hpp"
#include <map>
#include <set>
#include <memory>
#include <deque>
#include <new>
#include <cstring>
using namespace mc;

static std::map<const void*, uint64_t>* L_addr; static std::set<uint64_t>* L_id; static uint64_t L_next; static std::string* g_hist;
static std::map<uint64_t, int>* g_own;         // token -> number of objects that own it right now
static int g_ctor_throw = -1, g_assign_throw = -1;             // throw at the n-th construction / assignment
struct Boom {};
static void own(uint64_t t, int d) { if (t) { (*g_own)[t] += d; MC_CHECK((*g_own)[t] >= 0, "double-release", "token %lu released twice;%s", (unsigned long)t, g_hist->c_str()); } }

// M: movable, C: copyable
template <bool M, bool C, size_t PAD, size_t ALIGN> struct alignas(ALIGN) TrB {
    uint64_t id, tok; char pad[PAD];
    void born() {
        if (g_ctor_throw >= 0 && g_ctor_throw-- == 0) throw Boom{};
        MC_CHECK(((uintptr_t)this % alignof(TrB)) == 0, "align", "an element is constructed at a misaligned address %p (alignment %zu)", (void*)this, alignof(TrB));
        MC_CHECK(!L_addr->count(this), "reconstruct", "an element is constructed over a live one;%s", g_hist->c_str());
        id = L_next++; (*L_addr)[this] = id; L_id->insert(id);
    }
    void live(const char* w) const { MC_CHECK(L_id->count(id), "lifetime", "%s touches an element outside its lifetime;%s", w, g_hist->c_str()); }
    TrB() { born(); tok = 0; }
    explicit TrB(uint64_t t) { born(); tok = t; own(t, 1); }
    TrB(const TrB& o) { o.live("copy construction"); born(); tok = o.tok; own(tok, 1); }
    TrB(TrB&& o) noexcept { o.live("move construction"); int t = g_ctor_throw; g_ctor_throw = -1; born(); g_ctor_throw = t; tok = o.tok; if (M) o.tok = 0; else own(tok, 1); }
    TrB& operator=(const TrB& o) { live("copy assignment"); o.live("copy assignment"); if (g_assign_throw >= 0 && g_assign_throw-- == 0) throw Boom{}; if (this != &o) { own(o.tok, 1); own(tok, -1); tok = o.tok; } return *this; }
    TrB& operator=(TrB&& o) noexcept { live("move assignment"); o.live("move assignment"); if (this != &o) { own(tok, -1); tok = o.tok; if (M) o.tok = 0; else own(tok, 1); } return *this; }
    ~TrB() {
        live("destruction"); L_id->erase(id); own(tok, -1); id = ~0ull;
        auto it = L_addr->find(this); MC_CHECK(it != L_addr->end(), "lifetime", "an element is destroyed at an address where none was constructed;%s", g_hist->c_str()); L_addr->erase(it);
    }
};
template <bool M, bool C, size_t PAD, size_t ALIGN> struct Tr : TrB<M, C, PAD, ALIGN> { using TrB<M, C, PAD, ALIGN>::TrB; };
template <bool M, size_t PAD, size_t ALIGN> struct Tr<M, false, PAD, ALIGN> : TrB<M, false, PAD, ALIGN> {      // cannot be copied, and says so
    using TrB<M, false, PAD, ALIGN>::TrB; Tr() = default; Tr(const Tr&) = delete; Tr& operator=(const Tr&) = delete; Tr(Tr&&) = default; Tr& operator=(Tr&&) = default;
};
template <bool C, class T> static T dup(const T& t) { if constexpr (C) return t; else return T(t.tok); }
// allocation ledger
static std::map<void*, size_t>* g_alloc; static int g_alloc_throw = -1;
template <class T> struct LedgerAlloc {
    using value_type = T; LedgerAlloc() = default; template <class U> LedgerAlloc(const LedgerAlloc<U>&) {}
    T* allocate(size_t n) { if (g_alloc_throw >= 0 && g_alloc_throw-- == 0) throw std::bad_alloc(); T* p = (T*)aligned_alloc(alignof(T) < 16 ? 16 : alignof(T), (n * sizeof(T) + 127) / 128 * 128); (*g_alloc)[p] = n; return p; }
    void deallocate(T* p, size_t n) { auto it = g_alloc->find(p); MC_CHECK(it != g_alloc->end() && it->second == n, "dealloc", "deallocate(%p, %zu) does not match an allocation;%s", (void*)p, n, g_hist->c_str()); g_alloc->erase(it); free(p); }
    template <class U> bool operator==(const LedgerAlloc<U>&) const { return true; } template <class U> bool operator!=(const LedgerAlloc<U>&) const { return false; }
};
static void begin() { L_addr = new std::map<const void*, uint64_t>; L_id = new std::set<uint64_t>; L_next = 1; g_own = new std::map<uint64_t, int>; g_alloc = new std::map<void*, size_t>; g_hist = new std::string; g_ctor_throw = g_assign_throw = g_alloc_throw = -1; }
static void end(const char* w) {
    MC_CHECK(L_id->empty() && L_addr->empty(), "leak-object", "%s: %zu element objects were never destroyed;%s", w, L_id->size(), g_hist->c_str());
    for (auto& [t, n] : *g_own) MC_CHECK(n == 0, "leak-value", "%s: token %lu still has %d owners;%s", w, (unsigned long)t, n, g_hist->c_str());
    MC_CHECK(g_alloc->empty(), "leak-alloc", "%s: %zu allocations were not returned;%s", w, g_alloc->size(), g_hist->c_str());
    delete L_addr; delete L_id; delete g_own; delete g_alloc; delete g_hist;
}

// every history of the single-element operations and segment views
template <bool M, bool C, size_t PAD, size_t AL, size_t N, class Q> static void histories(const char* what, size_t req, int depth) {
    using T = Tr<M, C, PAD, AL>;
    char nm[200]; snprintf(nm, sizeof nm, "%s, %s%s element of %zu bytes (alignment %zu), capacity %zu: all histories of length %d", what, M ? "movable" : "", C ? "copyable" : "", sizeof(T), alignof(T), N ? N : req, depth);
    scenario(nm, [=] {
        sample("%s", nm); Opts o; o.iterate = false;
        explore(o, [=] {
            begin(); uint64_t h = 0;
            {
                auto q = std::make_unique<Q>(N ? 0 : req); size_t cap = q->capacity(); std::deque<uint64_t> ref; uint64_t seq = 1;
                if (cap > 8) {        // bring the indices near the wrap point
                    int w = choose(2); for (size_t i = 0; w && i < cap - 1; ++i) { T t(seq); seq++; q->push(std::move(t)); T u; q->pop(u); MC_CHECK(u.tok == seq - 1, "content", "wrong value"); }
                }
                bool full = choose(2); if (full) while (ref.size() < cap - (cap > 8)) { T t(seq); q->push(std::move(t)); ref.push_back(seq++); }
                *g_hist = full ? " (filled)" : " (empty)";
                T keep;                                    // pop target that already owns something
                for (int d = 0; d < depth; ++d) {
                    int k = choose(10); static const char* kn[] = {" try_push(const&)", " try_push(&&)", " push(const&)", " push(&&)", " try_pop", " pop", " try_pop(into used)", " peek_write/commit", " peek_read/move/commit", " size/commit_read"};
                    *g_hist += kn[k]; note("%s", g_hist->c_str());
                    size_t room = cap - ref.size(), av = ref.size(); h = hmix(h, k * 64 + (av < 60 ? av : 60));
                    switch (k) {
                        case 0: if constexpr (C) { T t(seq); bool ok = q->try_push(t); MC_CHECK(ok == (room > 0), "try", "try_push returned %d", ok); MC_CHECK(t.tok == seq, "copied-from", "pushing a const& changed the caller's value"); if (ok) ref.push_back(seq); seq++; break; } else { prune(); break; }
                        case 1: { T t(seq); bool ok = q->try_push(std::move(t)); MC_CHECK(ok == (room > 0), "try", "try_push returned %d", ok);
                                  if (!ok) MC_CHECK(t.tok == seq, "consumed", "a refused try_push(&&) consumed the caller's value;%s", g_hist->c_str()); else if (M) MC_CHECK(t.tok == 0 && (*g_own)[seq] == 1, "owner", "after try_push(&&) the value has %d owners", (*g_own)[seq]);
                                  if (ok) ref.push_back(seq); seq++; break; }
                        case 2: if constexpr (C) { if (!room) prune(); T t(seq); q->push(t); ref.push_back(seq++); break; } else { prune(); break; }
                        case 3: { if (!room) prune(); T t(seq); q->push(std::move(t)); if (M) MC_CHECK(t.tok == 0, "owner", "push(&&) left the value with the caller"); ref.push_back(seq++); break; }
                        case 4: { T t; bool ok = q->try_pop(t); MC_CHECK(ok == (av > 0), "try", "try_pop returned %d", ok); if (ok) { MC_CHECK(t.tok == ref.front(), "content", "popped %lu expected %lu", (unsigned long)t.tok, (unsigned long)ref.front()); if (M) MC_CHECK((*g_own)[t.tok] == 1, "owner", "a popped value has %d owners;%s", (*g_own)[t.tok], g_hist->c_str()); ref.pop_front(); } else MC_CHECK(t.tok == 0, "content", "failed pop changed its target"); break; }
                        case 5: { if (!av) prune(); T t; q->pop(t); MC_CHECK(t.tok == ref.front(), "content", "popped %lu expected %lu", (unsigned long)t.tok, (unsigned long)ref.front()); if (M) MC_CHECK((*g_own)[t.tok] == 1, "owner", "a popped value has %d owners;%s", (*g_own)[t.tok], g_hist->c_str()); ref.pop_front(); break; }
                        case 6: { uint64_t old = keep.tok; bool ok = q->try_pop(keep); if (ok) { MC_CHECK(keep.tok == ref.front(), "content", "popped %lu expected %lu", (unsigned long)keep.tok, (unsigned long)ref.front()); ref.pop_front(); if (old && M) MC_CHECK((*g_own)[old] == 0, "owner", "the value overwritten by a pop is still owned"); } else MC_CHECK(keep.tok == old, "content", "failed pop changed its target"); break; }
                        case 7: { T *a, *b; size_t na, nb, t = q->peek_write(a, na, b, nb); MC_CHECK(t == room, "segments", "peek_write %zu room %zu", t, room); size_t n = t ? 1 + choose(t > 1 ? 2 : 1) : 0; for (size_t i = 0; i < n; ++i) { T v(seq); (i < na ? a[i] : b[i - na]) = std::move(v); ref.push_back(seq++); } q->commit_write(n); break; }
                        case 8: { const T *a, *b; size_t na, nb, t = q->peek_read(a, na, b, nb); MC_CHECK(t == av, "segments", "peek_read %zu available %zu", t, av); size_t n = t ? 1 + choose(t > 1 ? 2 : 1) : 0; for (size_t i = 0; i < n; ++i) { T& s = const_cast<T&>(i < na ? a[i] : b[i - na]); T v(std::move(s)); MC_CHECK(v.tok == ref.front(), "content", "segment element wrong"); ref.pop_front(); } q->commit_read(n); break; }
                        case 9: { size_t s = q->size(); MC_CHECK(s == av, "occupancy", "size %zu, %zu inside", s, av); if (!s) prune(); q->commit_read(1); ref.pop_front(); break; }
                    }
                    count_trans();
                    for (uint64_t t : ref) { MC_CHECK((*g_own)[t] >= 1, "lost-value", "token %lu inside the channel has no owner;%s", (unsigned long)t, g_hist->c_str()); if (cap > 64) break; }
                    state(h);
                }
                outcome(h);
            }
            end("after destroying the channel");
        });
    });
}
// a constructor, copy assignment or allocation that throws
template <bool M, bool C, size_t PAD, size_t AL, size_t N, class Q> static void throwing(const char* what, size_t req) {
    using T = Tr<M, C, PAD, AL>;
    char nm[200]; snprintf(nm, sizeof nm, "%s of %zu x %zu bytes: throwing at every construction", what, N ? N : req, sizeof(T));
    scenario(nm, [=] {
        sample("%s", nm); Opts o; o.iterate = false;
        size_t total; { begin(); { Q q(N ? 0 : req); total = L_id->size(); } end("probe"); }
        explore(o, [=] {
            begin(); size_t cls = total < 40 ? total : 40; size_t k = choose((int)cls + 2); bool thrown = false;
            size_t at = k < 20 || total < 40 ? k : total - (cls - k); 
            if (k == cls + 1) g_alloc_throw = 0; else g_ctor_throw = (int)at;
            note("throw at construction %zu of %zu", at, total);
            *g_hist = " (throwing at construction " + std::to_string(at) + " of " + std::to_string(total) + ")";
            try { auto q = std::make_unique<Q>(N ? 0 : req); g_ctor_throw = -1; T v(7); q->push(std::move(v)); T u; q->pop(u); } catch (const Boom&) { thrown = true; } catch (const std::bad_alloc&) { thrown = true; }
            g_ctor_throw = -1; count_trans(); state(k); outcome(hmix(k, thrown));
            end("after a constructor threw");
        });
    });
}
// a throwing copy assignment while pushing must leave the channel as it was
template <size_t N, class Q> static void throwing_assign(const char* what, size_t req) {
    using T = Tr<true, true, 8, 8>;
    scenario(std::string(what) + ": throwing copy assignment", [=] {
        Opts o; o.iterate = false; sample("%s: throwing copy assignment", what);
        explore(o, [=] {
            begin();
            { auto q = std::make_unique<Q>(N ? 0 : req); size_t cap = q->capacity(); size_t fill = choose((int)cap); uint64_t seq = 1;
              int rot = choose((int)cap + 1); for (int i = 0; i < rot; ++i) { T t(90 + i), u; q->push(std::move(t)); q->pop(u); }
              for (size_t i = 0; i < fill; ++i) { T t(seq++); q->push(t); }
              T t(50); g_assign_throw = 0; int k = choose(2); bool thrown = false;
              try { if (k) q->push(t); else (void)q->try_push(t); } catch (const Boom&) { thrown = true; }
              g_assign_throw = -1; MC_CHECK(thrown, "throw", "the exception of a copy assignment was swallowed");
              MC_CHECK(q->size() == fill, "occupancy", "after a push that threw, size is %zu instead of %zu", q->size(), fill);
              q->push(t); for (uint64_t s = 1; s < seq; ++s) { T u; q->pop(u); MC_CHECK(u.tok == s, "content", "wrong value"); } T u; q->pop(u); MC_CHECK(u.tok == 50, "content", "wrong value");
              count_trans(fill + 3); state(hmix(fill, rot)); outcome(hmix(fill, rot * 2 + k)); }
            end("after a throwing push");
        });
    });
}
template <class T> using Heap = dro::SPSCQueue<T>;
template <class T> using HeapL = dro::SPSCQueue<T, 0, LedgerAlloc<T>>;
static void setup() {
    int D = thorough() ? 6 : 5;
    histories<true, true, 8, 8, 1, dro::SPSCQueue<Tr<true, true, 8, 8>, 1>>("stack", 0, D + 1);
    histories<true, true, 8, 8, 2, dro::SPSCQueue<Tr<true, true, 8, 8>, 2>>("stack", 0, D);
    histories<true, false, 8, 8, 2, dro::SPSCQueue<Tr<true, false, 8, 8>, 2>>("stack", 0, D);
    histories<true, false, 16, 64, 3, dro::SPSCQueue<Tr<true, false, 16, 64>, 3>>("stack", 0, D);
    histories<true, true, 8, 8, 0, HeapL<Tr<true, true, 8, 8>>>("heap", 1, D + 1);
    histories<true, true, 8, 8, 0, HeapL<Tr<true, true, 8, 8>>>("heap", 3, D);
    histories<true, false, 8, 8, 0, HeapL<Tr<true, false, 8, 8>>>("heap", 2, D);
    histories<false, true, 8, 8, 0, HeapL<Tr<false, true, 8, 8>>>("heap", 2, D);
    histories<true, true, 16, 64, 0, HeapL<Tr<true, true, 16, 64>>>("heap", 2, D);
    histories<true, true, 184, 8, 0, HeapL<Tr<true, true, 184, 8>>>("heap", 2, D);
    histories<true, true, 1008, 8, 0, HeapL<Tr<true, true, 1008, 8>>>("mapped", 4, D - 1);
    histories<true, false, 2032, 16, 0, HeapL<Tr<true, false, 2032, 16>>>("mapped", 2, D - 1);
    histories<true, true, 8, 8, 0, HeapL<Tr<true, true, 8, 8>>>("mapped", 200, 2);
    histories<true, true, 24, 8, 0, Heap<Tr<true, true, 24, 8>>>("mapped", 110, 2);
    throwing<true, true, 8, 8, 0, HeapL<Tr<true, true, 8, 8>>>("heap", 1); throwing<true, true, 8, 8, 0, HeapL<Tr<true, true, 8, 8>>>("heap", 10); throwing<true, true, 184, 8, 0, HeapL<Tr<true, true, 184, 8>>>("heap", 2);
    throwing<true, true, 8, 8, 0, HeapL<Tr<true, true, 8, 8>>>("mapped", 200); throwing<true, true, 1008, 8, 0, HeapL<Tr<true, true, 1008, 8>>>("mapped", 4);
    throwing<true, true, 8, 8, 2, dro::SPSCQueue<Tr<true, true, 8, 8>, 2>>("stack", 0);
    throwing_assign<2, dro::SPSCQueue<Tr<true, true, 8, 8>, 2>>("stack", 0); throwing_assign<0, HeapL<Tr<true, true, 8, 8>>>("heap", 3);
}
MC_MAIN(setup)
