// Producer/consumer programs over the real channel, used by C01 (all transfer calls) and C06 (blocking ones).
#pragma once
#include "mc.hpp"
#include "cler.hpp"
#include <thread>
#include <vector>
#include <string>
#include <memory>
#include <cstring>

template <size_t BYTES> struct Elem {
    static_assert(BYTES >= 16 && BYTES % 8 == 0);
    uint64_t w[BYTES / 8];
    Elem() = default;
    explicit Elem(uint64_t v) { w[0] = v; w[BYTES / 8 - 1] = ~v; }
    bool ok() const { return w[BYTES / 8 - 1] == ~w[0]; }
    uint64_t v() const { return w[0]; }
};
struct Small { uint64_t x; Small() = default; explicit Small(uint64_t v) : x(v) {} bool ok() const { return true; } uint64_t v() const { return x; } };

// producer alphabet
enum POp { PT_TRY, PT_TRYMOVE, PT_PUSH, PT_PUSHMOVE, PT_W1, PT_W2, PT_W3, PT_K1, PT_K2, PT_K3, PT_D1, PT_D2, PT_D3, PT_SW, PT_SPACE, PT_NOPS };
static const char* pname[] = {"try_push", "try_push(&&)", "push", "push(&&)", "writeN(1)", "writeN(2)", "writeN(3)", "peek_write+commit(1)", "peek_write+commit(2)", "peek_write+commit(all)", "write_dbf+commit(1)", "write_dbf+commit(2)", "write_dbf+commit(all)", "space+writeN(space)", "space+try_push*"};
enum COp { CT_TRY, CT_POP, CT_R1, CT_R2, CT_R3, CT_K1, CT_K2, CT_K3, CT_D1, CT_D2, CT_D3, CT_SR, CT_SIZE, CT_NOPS };
static const char* cname[] = {"try_pop", "pop", "readN(1)", "readN(2)", "readN(3)", "peek_read+commit(1)", "peek_read+commit(2)", "peek_read+commit(all)", "read_dbf+commit(1)", "read_dbf+commit(2)", "read_dbf+commit(all)", "size+readN(size)", "size+try_pop*"};

struct ProgCfg {
    size_t cap = 1;
    bool strict = true;                 // occupancy checks against what the peer has completed
    bool ghosts = false;                // ... with the bookkeeping scheduled as visible steps (needed with sleep sets)
    int rot = 0, fill = 0;
};

// Ch: anything with the channel operations; Q: the underlying queue type for rvalue operations (may be the same object)
template <class E, class Ch> struct Prog {
    Ch& ch; ProgCfg cfg;
    uint64_t next_w = 1, next_r = 1;         // sequence numbers
    uint64_t done_w = 0, done_r = 0;         // completed transfers (harness bookkeeping)
    uint64_t oh = 0;
    Prog(Ch& c, ProgCfg g) : ch(c), cfg(g) {}

    void got(const E& e, const char* how) {
        MC_CHECK(e.ok(), "torn", "%s returned a half-written element (word0=%lu)", how, (unsigned long)e.v());
        MC_CHECK(e.v() == next_r, "fifo", "%s returned element %lu, expected %lu (elements must arrive once and in order)", how, (unsigned long)e.v(), (unsigned long)next_r);
        next_r++;
    }
    // the peer's progress counter; in all-interleavings mode reading it is itself a schedulable step
    uint64_t rd(uint64_t& v, bool peer) { if (peer && cfg.ghosts) mc::ghost(&v, false); mc::NoRace n; return v; }
    void add(uint64_t& v, uint64_t k) { if (k && cfg.ghosts) mc::ghost(&v, true); mc::NoRace n; v += k; }

    // room/availability the peer cannot take away, as seen before a call starts
    size_t room_before() { if (!cfg.strict) return 0; uint64_t r = rd(done_r, true), w = rd(done_w, false); return w - r >= cfg.cap ? 0 : cfg.cap - (w - r); }
    size_t avail_before() { if (!cfg.strict) return 0; uint64_t w = rd(done_w, true), r = rd(done_r, false); return w > r ? w - r : 0; }
    void explain_w(const char* how, size_t room0, size_t req, size_t got_) {
        MC_CHECK(got_ <= req, "overcount", "%s reported %zu of %zu", how, got_, req);
        if (cfg.strict && mc::stale_used() == 0) {
            size_t must = room0 < req ? room0 : req;
            MC_CHECK(got_ >= must, "refused", "%s moved %zu elements although %zu fitted before the call (requested %zu, capacity %zu)", how, got_, room0, req, cfg.cap);
        }
    }
    void explain_r(const char* how, size_t av0, size_t req, size_t got_) {
        MC_CHECK(got_ <= req, "overcount", "%s reported %zu of %zu", how, got_, req);
        if (cfg.strict && mc::stale_used() == 0) {
            size_t must = av0 < req ? av0 : req;
            MC_CHECK(got_ >= must, "refused", "%s moved %zu elements although %zu were available before the call (requested %zu)", how, got_, av0, req);
        }
    }

    size_t p_try(bool mv) {
        size_t room0 = room_before(); E e(next_w);
        bool ok = mv ? ch.try_push_move(std::move(e)) : ch.try_push(e);
        explain_w("try_push", room0, 1, ok);
        if (ok) { next_w++; add(done_w, 1); }
        return ok;
    }
    size_t p_push(bool mv) { E e(next_w); if (mv) ch.push_move(std::move(e)); else ch.push(e); next_w++; add(done_w, 1); return 1; }
    size_t p_write(size_t n) {
        size_t room0 = room_before(); std::vector<E> v; for (size_t i = 0; i < n; ++i) v.emplace_back(next_w + i);
        size_t k = ch.writeN(v.data(), n); explain_w("writeN", room0, n, k);
        next_w += k; add(done_w, k); return k;
    }
    size_t p_peek(size_t n) {
        size_t room0 = room_before(); E *a = nullptr, *b = nullptr; size_t na = 77, nb = 77;
        size_t tot = ch.peek_write(a, na, b, nb);
        MC_CHECK(tot == na + nb, "segments", "peek_write returned %zu but segments hold %zu+%zu", tot, na, nb);
        MC_CHECK(tot <= cfg.cap, "segments", "peek_write exposes %zu elements, capacity is %zu", tot, cfg.cap);
        explain_w("peek_write", room0, cfg.cap, tot);
        size_t k = n < tot ? n : tot;
        for (size_t i = 0; i < k; ++i) { E* p = i < na ? a + i : b + (i - na); *p = E(next_w + i); }
        ch.commit_write(k); next_w += k; add(done_w, k); return k;
    }
    size_t p_dbf(size_t n) {
        size_t room0 = room_before(); auto [p, tot] = ch.write_dbf();
        MC_CHECK(tot <= cfg.cap, "segments", "write_dbf exposes %zu elements, capacity is %zu", tot, cfg.cap);
        explain_w("write_dbf", room0, cfg.cap, tot);
        size_t k = n < tot ? n : tot;
        for (size_t i = 0; i < k; ++i) p[i] = E(next_w + i);
        ch.commit_write(k); next_w += k; add(done_w, k); return k;
    }
    size_t p_promised(bool bulk) {
        size_t s = ch.space();
        MC_CHECK(s <= cfg.cap, "space-range", "space() returned %zu with capacity %zu", s, cfg.cap);
        if (bulk) { size_t k = s ? p_write(s) : 0; MC_CHECK(k == s, "promise", "space() said %zu but writeN moved only %zu", s, k); }
        else for (size_t i = 0; i < s; ++i) MC_CHECK(p_try(false), "promise", "space() said %zu but try_push %zu failed", s, i);
        return s;
    }
    size_t c_try() {
        size_t av0 = avail_before(); E e(0); bool ok = ch.try_pop(e); explain_r("try_pop", av0, 1, ok);
        if (ok) { got(e, "try_pop"); add(done_r, 1); }
        return ok;
    }
    size_t c_pop() { E e(0); ch.pop(e); got(e, "pop"); add(done_r, 1); return 1; }
    size_t c_read(size_t n) {
        size_t av0 = avail_before(); std::vector<E> v(n + 1, E(0)); v[n] = E(4242);
        size_t k = ch.readN(v.data(), n); explain_r("readN", av0, n, k);
        for (size_t i = 0; i < k; ++i) got(v[i], "readN");
        MC_CHECK(v[n].v() == 4242, "overrun", "readN(%zu) wrote past the destination", n);
        add(done_r, k); return k;
    }
    size_t c_peek(size_t n) {
        size_t av0 = avail_before(); const E *a = nullptr, *b = nullptr; size_t na = 77, nb = 77;
        size_t tot = ch.peek_read(a, na, b, nb);
        MC_CHECK(tot == na + nb, "segments", "peek_read returned %zu but segments hold %zu+%zu", tot, na, nb);
        MC_CHECK(tot <= cfg.cap, "segments", "peek_read exposes %zu elements, capacity is %zu", tot, cfg.cap);
        explain_r("peek_read", av0, cfg.cap, tot);
        uint64_t keep = next_r; 
        for (size_t i = 0; i < tot; ++i) got(i < na ? a[i] : b[i - na], "peek_read");
        size_t k = n < tot ? n : tot; next_r = keep + k;
        ch.commit_read(k); add(done_r, k); return k;
    }
    size_t c_dbf(size_t n) {
        size_t av0 = avail_before(); auto [p, tot] = ch.read_dbf();
        MC_CHECK(tot <= cfg.cap, "segments", "read_dbf exposes %zu elements, capacity is %zu", tot, cfg.cap);
        explain_r("read_dbf", av0, cfg.cap, tot);
        uint64_t keep = next_r; for (size_t i = 0; i < tot; ++i) got(p[i], "read_dbf");
        size_t k = n < tot ? n : tot; next_r = keep + k;
        ch.commit_read(k); add(done_r, k); return k;
    }
    size_t c_promised(bool bulk) {
        size_t s = ch.size();
        MC_CHECK(s <= cfg.cap, "size-range", "size() returned %zu with capacity %zu", s, cfg.cap);
        if (bulk) { size_t k = s ? c_read(s) : 0; MC_CHECK(k == s, "promise", "size() said %zu but readN moved only %zu", s, k); }
        else for (size_t i = 0; i < s; ++i) MC_CHECK(c_try(), "promise", "size() said %zu but try_pop %zu failed", s, i);
        return s;
    }
    size_t pop_(int op) {
        switch (op) {
            case PT_TRY: return p_try(false); case PT_TRYMOVE: return p_try(true); case PT_PUSH: return p_push(false); case PT_PUSHMOVE: return p_push(true);
            case PT_W1: return p_write(1); case PT_W2: return p_write(2); case PT_W3: return p_write(3);
            case PT_K1: return p_peek(1); case PT_K2: return p_peek(2); case PT_K3: return p_peek(99);
            case PT_D1: return p_dbf(1); case PT_D2: return p_dbf(2); case PT_D3: return p_dbf(99);
            case PT_SW: return p_promised(true); case PT_SPACE: return p_promised(false);
        }
        return 0;
    }
    size_t cop_(int op) {
        switch (op) {
            case CT_TRY: return c_try(); case CT_POP: return c_pop(); case CT_R1: return c_read(1); case CT_R2: return c_read(2); case CT_R3: return c_read(3);
            case CT_K1: return c_peek(1); case CT_K2: return c_peek(2); case CT_K3: return c_peek(99);
            case CT_D1: return c_dbf(1); case CT_D2: return c_dbf(2); case CT_D3: return c_dbf(99);
            case CT_SR: return c_promised(true); case CT_SIZE: return c_promised(false);
        }
        return 0;
    }
    void prepare() {
        bool gh = cfg.ghosts; cfg.ghosts = false;
        for (int i = 0; i < cfg.rot; ++i) { MC_CHECK(p_try(false), "refused", "push into an empty channel failed"); MC_CHECK(c_try(), "refused", "pop of a pushed element failed"); }
        for (int i = 0; i < cfg.fill; ++i) MC_CHECK(p_try(false), "refused", "push with room failed (fill %d, capacity %zu)", i, cfg.cap);
        cfg.ghosts = gh;
    }
    void finish() {
        bool st = cfg.strict, gh = cfg.ghosts; cfg.strict = true; cfg.ghosts = false;
        size_t left = next_w - next_r;
        MC_CHECK(ch.size() == left, "lost", "after joining both threads size() is %zu but %zu elements were written and not read", ch.size(), left);
        MC_CHECK(ch.space() == cfg.cap - left, "lost", "space() is %zu, expected %zu", ch.space(), cfg.cap - left);
        while (next_r < next_w) MC_CHECK(c_try(), "lost", "element %lu was written but cannot be read", (unsigned long)next_r);
        E e(0); MC_CHECK(!ch.try_pop(e), "dup", "an element is left although everything written was read (value %lu)", (unsigned long)e.v());
        for (size_t i = 0; i < cfg.cap; ++i) MC_CHECK(p_try(false), "refused", "an empty channel of capacity %zu took only %zu elements", cfg.cap, i);
        MC_CHECK(!ch.try_push(E(next_w)), "overfull", "a full channel accepted another element");
        for (size_t i = 0; i < cfg.cap; ++i) MC_CHECK(c_try(), "lost", "element lost when draining");
        cfg.strict = st; cfg.ghosts = gh;
    }
};

// adaptors: the interface blocks use (ChannelBase) and the queue itself (rvalue overloads)
template <class E> struct ViaBase {
    cler::ChannelBase<E>& c;
    bool try_push(const E& e) { return c.try_push(e); } bool try_push_move(E&& e) { return c.try_push(e); }
    void push(const E& e) { c.push(e); } void push_move(E&& e) { c.push(e); }
    bool try_pop(E& e) { return c.try_pop(e); } void pop(E& e) { c.pop(e); }
    size_t writeN(const E* p, size_t n) { return c.writeN(p, n); } size_t readN(E* p, size_t n) { return c.readN(p, n); }
    size_t peek_write(E*& a, size_t& na, E*& b, size_t& nb) { return c.peek_write(a, na, b, nb); }
    size_t peek_read(const E*& a, size_t& na, const E*& b, size_t& nb) { return c.peek_read(a, na, b, nb); }
    void commit_write(size_t n) { c.commit_write(n); } void commit_read(size_t n) { c.commit_read(n); }
    std::pair<const E*, size_t> read_dbf() { return c.read_dbf(); } std::pair<E*, size_t> write_dbf() { return c.write_dbf(); }
    size_t size() { return c.size(); } size_t space() { return c.space(); }
};
template <class E, size_t N> struct ViaQueue {
    dro::SPSCQueue<E, N>& c;
    bool try_push(const E& e) { return c.try_push(e); } bool try_push_move(E&& e) { return c.try_push(std::move(e)); }
    void push(const E& e) { c.push(e); } void push_move(E&& e) { c.push(std::move(e)); }
    bool try_pop(E& e) { return c.try_pop(e); } void pop(E& e) { c.pop(e); }
    size_t writeN(const E* p, size_t n) { return c.writeN(p, n); } size_t readN(E* p, size_t n) { return c.readN(p, n); }
    size_t peek_write(E*& a, size_t& na, E*& b, size_t& nb) { return c.peek_write(a, na, b, nb); }
    size_t peek_read(const E*& a, size_t& na, const E*& b, size_t& nb) { return c.peek_read(a, na, b, nb); }
    void commit_write(size_t n) { c.commit_write(n); } void commit_read(size_t n) { c.commit_read(n); }
    std::pair<const E*, size_t> read_dbf() { return c.read_dbf(); } std::pair<E*, size_t> write_dbf() { return c.write_dbf(); }
    size_t size() { return c.size(); } size_t space() { return c.space(); }
};

enum Store { ST_STACK, ST_HEAP, ST_QSTACK, ST_QHEAP };
static const char* stname[] = {"stack Channel", "heap Channel", "stack SPSCQueue", "heap SPSCQueue"};

template <class E, size_t N, class F> void with_channel(Store st, F f) {
    switch (st) {
        case ST_STACK: { auto c = std::make_unique<cler::Channel<E, N>>(); ViaBase<E> a{*c}; f(a); break; }
        case ST_HEAP: { auto c = std::make_unique<cler::Channel<E>>(N); ViaBase<E> a{*c}; f(a); break; }
        case ST_QSTACK: { auto c = std::make_unique<dro::SPSCQueue<E, N>>(); ViaQueue<E, N> a{*c}; f(a); break; }
        case ST_QHEAP: { auto c = std::make_unique<dro::SPSCQueue<E>>(N); ViaQueue<E, 0> a{*c}; f(a); break; }
    }
}
