// One channel under test next to a reference deque; used by C02 (all states) and C03 (contiguous views).
#pragma once
#include "mc.hpp"
#include "cler.hpp"
#include <deque>
#include <memory>
#include <vector>
#include <cstring>
#include <cstdlib>
using namespace mc;

template <size_t B> struct __attribute__((packed)) El { unsigned char b[B]; };
template <size_t B> static El<B> mk(uint64_t v) { El<B> e; for (size_t i = 0; i < B; ++i) e.b[i] = (unsigned char)((i < 8 ? v >> (8 * i) : v * 31 + i)); return e; }
template <size_t B> static bool eq(const El<B>& a, const El<B>& b) { return memcmp(a.b, b.b, B) == 0; }

enum { O_TRYPUSH, O_TRYPOP, O_PUSH, O_POP, O_WRITEN, O_READN, O_PEEKW, O_PEEKR, O_DBFW, O_DBFR, O_TRYMOVE, O_SKIP };
static const char* on[] = {"try_push", "try_pop", "push", "pop", "writeN", "readN", "peek_write/commit", "peek_read/commit", "write_dbf/commit", "read_dbf/commit", "try_push&&", "size/commit_read"};
struct Op { int k; size_t n; };

// one channel under test + reference deque
template <size_t B, size_t N> struct Rig {
    using E = El<B>; using Q = dro::SPSCQueue<E, N>;
    std::unique_ptr<cler::Channel<E, N>> ch; Q* q; size_t cap; std::deque<uint64_t> ref; uint64_t seq = 1; bool dbf;
    std::vector<E> tmp; const char* ctx = "";
    explicit Rig(size_t req) {
        if constexpr (N == 0) ch = std::make_unique<cler::Channel<E, 0>>(req); else ch = std::make_unique<cler::Channel<E, N>>();
        q = &ch->_queue; cap = q->capacity(); dbf = q->is_doubly_mapped();
        MC_CHECK(cap >= req, "capacity", "requested capacity %zu, offered %zu (element size %zu)", req, cap, B);
        if (N) MC_CHECK(cap == N && !dbf, "capacity", "stack channel of %zu offers %zu", N, cap);
        MC_CHECK(ch->space() == cap && ch->size() == 0, "occupancy", "fresh channel: size %zu space %zu capacity %zu", ch->size(), ch->space(), cap);
    }
    void inv(const char* op, size_t n) {
        count_trans(1);
        size_t s = ch->size(), f = ch->space();
        MC_CHECK(s == ref.size(), "occupancy", "after %s(%zu): size() is %zu, %zu elements are inside (capacity %zu, element size %zu) %s", op, n, s, ref.size(), cap, B, ctx);
        MC_CHECK(s + f == cap, "occupancy", "after %s(%zu): size %zu + space %zu != capacity %zu", op, n, s, f, cap);
        MC_CHECK(q->empty() == ref.empty(), "occupancy", "after %s(%zu): empty() wrong", op, n);
        MC_CHECK(q->capacity() == cap, "capacity", "capacity changed");
    }
    void chk(const E& e, uint64_t v, const char* op) { MC_CHECK(eq(e, mk<B>(v)), "content", "%s yields a wrong element (expected number %lu; capacity %zu, element size %zu) %s", op, (unsigned long)v, cap, B, ctx); }
    bool apply(Op o) {      // false: not applicable in this state
        size_t room = cap - ref.size(), av = ref.size();
        switch (o.k) {
            case O_TRYPUSH: case O_TRYMOVE: { E e = mk<B>(seq); bool ok = o.k == O_TRYPUSH ? ch->try_push(e) : q->try_push(std::move(e)); MC_CHECK(ok == (room > 0), "try", "try_push returned %d with room %zu (capacity %zu) %s", ok, room, cap, ctx); if (ok) ref.push_back(seq++); break; }
            case O_PUSH: { if (!room) return false; ch->push(mk<B>(seq)); ref.push_back(seq++); break; }
            case O_TRYPOP: { E e = mk<B>(0); bool ok = ch->try_pop(e); MC_CHECK(ok == (av > 0), "try", "try_pop returned %d with %zu available (capacity %zu) %s", ok, av, cap, ctx); if (ok) { chk(e, ref.front(), "try_pop"); ref.pop_front(); } else MC_CHECK(eq(e, mk<B>(0)), "content", "failed try_pop changed its argument"); break; }
            case O_POP: { if (!av) return false; E e; ch->pop(e); chk(e, ref.front(), "pop"); ref.pop_front(); break; }
            case O_WRITEN: {
                tmp.resize(o.n); for (size_t i = 0; i < o.n; ++i) tmp[i] = mk<B>(seq + i);
                size_t k = ch->writeN(tmp.data(), o.n), want = std::min(o.n, room);
                MC_CHECK(k == want, "bulk", "writeN(%zu) moved %zu, room was %zu (capacity %zu) %s", o.n, k, room, cap, ctx);
                for (size_t i = 0; i < k; ++i) ref.push_back(seq++); break; }
            case O_READN: {
                tmp.assign(o.n + 1, mk<B>(77)); size_t k = ch->readN(tmp.data(), o.n), want = std::min(o.n, av);
                MC_CHECK(k == want, "bulk", "readN(%zu) moved %zu, available %zu (capacity %zu) %s", o.n, k, av, cap, ctx);
                for (size_t i = 0; i < k; ++i) { chk(tmp[i], ref.front(), "readN"); ref.pop_front(); }
                for (size_t i = k; i <= o.n; ++i) MC_CHECK(eq(tmp[i], mk<B>(77)), "content", "readN(%zu) moved %zu but touched element %zu of the destination", o.n, k, i);
                break; }
            case O_PEEKW: {
                E *a = (E*)1, *b = (E*)1; size_t na = 9999, nb = 9999, tot = ch->peek_write(a, na, b, nb);
                MC_CHECK(tot == room, "segments", "peek_write returned %zu, room is %zu (capacity %zu) %s", tot, room, cap, ctx);
                MC_CHECK(na + nb == tot && (tot == 0 || na > 0), "segments", "peek_write segments %zu+%zu for %zu", na, nb, tot);
                size_t k = o.n; if (k > tot) return false;
                for (size_t i = 0; i < tot; ++i) { E* p = i < na ? a + i : b + (i - na); *p = mk<B>(i < k ? seq + i : 0xdead0000 + i); }   // writing beyond the committed part must be harmless
                inv("peek_write", k);
                ch->commit_write(k); for (size_t i = 0; i < k; ++i) ref.push_back(seq++); break; }
            case O_PEEKR: {
                const E *a = (E*)1, *b = (E*)1; size_t na = 9999, nb = 9999, tot = ch->peek_read(a, na, b, nb);
                MC_CHECK(tot == av, "segments", "peek_read returned %zu, available %zu (capacity %zu) %s", tot, av, cap, ctx);
                MC_CHECK(na + nb == tot && (tot == 0 || na > 0), "segments", "peek_read segments %zu+%zu for %zu (capacity %zu) %s", na, nb, tot, cap, ctx);
                size_t k = o.n; if (k > tot) return false;
                for (size_t i = 0; i < tot; ++i) chk(i < na ? a[i] : b[i - na], ref[i], "peek_read");
                inv("peek_read", k);
                ch->commit_read(k); for (size_t i = 0; i < k; ++i) ref.pop_front(); break; }
            case O_DBFW: {
                if (!dbf) return false; auto [p, tot] = ch->write_dbf();
                MC_CHECK(tot == room, "segments", "write_dbf returned %zu, room is %zu", tot, room);
                size_t k = o.n; if (k > tot) return false; for (size_t i = 0; i < tot; ++i) p[i] = mk<B>(i < k ? seq + i : 0xdead0000 + i);
                ch->commit_write(k); for (size_t i = 0; i < k; ++i) ref.push_back(seq++); break; }
            case O_DBFR: {
                if (!dbf) return false; auto [p, tot] = ch->read_dbf();
                MC_CHECK(tot == av, "segments", "read_dbf returned %zu, available %zu", tot, av);
                size_t k = o.n; if (k > tot) return false; for (size_t i = 0; i < tot; ++i) chk(p[i], ref[i], "read_dbf");
                ch->commit_read(k); for (size_t i = 0; i < k; ++i) ref.pop_front(); break; }
        }
        if (o.k == O_SKIP) { if (o.n > av) return false; ch->commit_read(o.n); for (size_t i = 0; i < o.n; ++i) ref.pop_front(); }   // drop what size() reported
        inv(on[o.k], o.n);
        return true;
    }
    void drain() { while (!ref.empty()) apply({O_TRYPOP, 0}); apply({O_TRYPOP, 0}); for (size_t i = 0; i <= cap && cap < 5000; ++i) apply({O_TRYPUSH, 0}); if (cap < 5000) apply({O_READN, cap + 1}); }
    void goto_state(size_t pos, size_t occ, int how) {       // reach (read position, occupancy) by one of three histories
        if (how == 0) { for (size_t i = 0; i < pos; ++i) { apply({O_TRYPUSH, 0}); apply({O_TRYPOP, 0}); } for (size_t i = 0; i < occ; ++i) apply({O_TRYPUSH, 0}); }
        else if (how == 1) { size_t left = pos; while (left) { size_t k = std::min(left, cap); apply({O_WRITEN, k}); apply({O_READN, k}); left -= k; } if (occ) apply({O_WRITEN, occ}); }
        else { size_t left = pos; while (left) { size_t k = std::min(left, cap); apply({O_PEEKW, k}); apply({O_PEEKR, k}); left -= k; } if (occ) apply({O_PEEKW, occ}); }
    }
};
