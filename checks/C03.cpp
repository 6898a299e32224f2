// C03: contiguous (doubly mapped) views for every element size, capacity and wrap position.
#include "rig.hpp"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>

// every fresh reservation gets inaccessible pages on both sides, so a view that reaches outside the channel faults
static bool g_huge_ok = false;                 // does the OS grant huge pages?
static struct { char* p; size_t n; } g_res[64];
static const size_t GUARD = 1 << 16;
static void* raw_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o); }
extern "C" void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) noexcept {
    if (fl & MAP_HUGETLB) {
        if (!g_huge_ok) { errno = ENOMEM; return MAP_FAILED; }
        size_t hp = size_t(2) << 20; fl &= ~(MAP_HUGETLB | (63 << 26)); n = (n + hp - 1) / hp * hp;      // as the kernel does
    }
    if (a || fd != -1 || pr != PROT_NONE) return raw_mmap(a, n, pr, fl, fd, o);
    char* p = (char*)raw_mmap(nullptr, n + 2 * GUARD, PROT_NONE, fl, -1, 0);
    if (p == (char*)MAP_FAILED) return p;
    for (auto& r : g_res) if (!r.p) { r = {p + GUARD, n}; break; }
    return p + GUARD;
}
extern "C" void* mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o) noexcept { return mmap(a, n, pr, fl, fd, o); }
extern "C" int munmap(void* a, size_t n) noexcept {
    for (auto& r : g_res) if (r.p && r.p == a) { char* p = r.p; size_t m = r.n > n ? r.n : n; r.p = nullptr; return (int)syscall(SYS_munmap, p - GUARD, m + 2 * GUARD); }
    return (int)syscall(SYS_munmap, a, n);
}

// all (position, occupancy) classes x two operations, contiguous views against every other access method
template <size_t B> static void views(size_t req, bool light, bool huge = false) {
    char nm[160]; snprintf(nm, sizeof nm, "element %zuB, requested %zu%s", B, req, huge ? ", huge pages granted" : "");
    scenario(nm, [=] {
        g_huge_ok = huge;
        { Rig<B, 0> r(req); sample("%s: offered %zu, contiguous views %d", nm, r.cap, r.dbf); if (!r.dbf) { count_eval(); outcome(hmix(B, req)); return; } }
        Opts o; o.iterate = false;
        explore(o, [=] {
            Rig<B, 0> r(req); size_t cap = r.cap;
            size_t ps[] = {0, 1, cap / 2, cap - 1, cap}, oc[] = {0, 1, cap / 2, cap - 1, cap};
            size_t pos = light ? ps[choose(2) * 3] : ps[choose(5)], occ = light ? oc[choose(2) + 2] : oc[choose(5)];
            if (pos) { r.ch->commit_write(pos); r.ch->commit_read(pos); }
            if (occ) r.apply({choose(2) ? O_WRITEN : O_DBFW, occ});
            size_t av = r.ref.size(), room = cap - av, toend = cap + 1 - pos;
            static const int k1[] = {O_DBFW, O_DBFR, O_WRITEN, O_READN, O_PEEKW, O_TRYPUSH, O_TRYPOP};
            int k = k1[choose(light ? 2 : 7)]; size_t m = k == O_DBFW || k == O_WRITEN || k == O_PEEKW ? room : av;
            size_t ns[] = {m, m / 2, 1, toend < m ? toend : m}; size_t n = k == O_TRYPUSH || k == O_TRYPOP ? 0 : ns[choose(light ? 2 : 4)];
            note("element %zuB capacity %zu position %zu occupancy %zu %s(%zu)", B, cap, pos, occ, on[k], n);
            if (!r.apply({k, n})) prune();
            state(hmix(hmix(pos, occ), hmix(k, n)));
            // what is inside now, seen through each kind of view, and the room written through each kind
            static const int k2[] = {O_DBFR, O_READN, O_PEEKR}; int kk = k2[choose(3)];
            r.apply({O_DBFR, 0});
            r.apply({kk, r.ref.size()});
            static const int k3[] = {O_DBFW, O_WRITEN}; r.apply({k3[kk == O_DBFR], cap});
            r.apply({kk == O_DBFR ? O_READN : O_DBFR, cap});
            outcome(hmix(hmix(pos, occ), hmix(B, k)));
        });
        g_huge_ok = false;
    });
}
// storage that cannot provide contiguous views must not claim them
template <size_t B, size_t N> static void noclaim(size_t req) {
    char nm[128]; snprintf(nm, sizeof nm, "no claim: element %zuB, stack %zu heap %zu", B, N, req);
    scenario(nm, [=] {
        sample("%s", nm);
        auto probe = [&](auto& ch) {
            count_eval(); outcome(hmix(B, ch._queue.is_doubly_mapped()));
            if (ch._queue.is_doubly_mapped()) return;
#ifdef NDEBUG
            auto a = ch.read_dbf(); auto b = ch.write_dbf();
            MC_CHECK(!a.first && !a.second && !b.first && !b.second, "claim", "a channel without contiguous views returned a view (%zu / %zu elements)", a.second, b.second);
            ch.try_push(El<B>{}); a = ch.read_dbf();
            MC_CHECK(!a.first && !a.second, "claim", "a channel without contiguous views returned a view");
#endif
        };
        auto st = std::make_unique<cler::Channel<El<B>, N>>(); MC_CHECK(!st->_queue.is_doubly_mapped(), "claim", "stack storage claims contiguous views"); probe(*st);
        for (size_t r = 1; r <= req; ++r) { cler::Channel<El<B>> h(r); note("heap %zu x %zuB", r, B); probe(h); }
    });
}
template <size_t B> static void size_class() {
    size_t first = (4096 + B - 1) / B; if (first > 1) first--; if (!first) first = 1;       // smallest request that reaches 4 KiB
    bool small_period = (4096 / std::__gcd<size_t>(4096, B)) * B <= (1 << 17);
    views<B>(first, !small_period);
    if (small_period) { views<B>(first + 1, true); views<B>(2 * 4096 / B + 1, true); views<B>(3 * 4096 / B, thorough() ? false : true); }
    if (thorough()) views<B>(65536 / B + 1, true);
}
template <size_t... I> static void classes(std::index_sequence<I...>, size_t) { (size_class<I>(), ...); }
#ifndef SHARD
#define SHARD 0
#endif
static void setup() {
#if SHARD == 0
    classes(std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14>{}, 0);
#elif SHARD == 1
    classes(std::index_sequence<15, 16, 17, 18, 20, 22, 24, 28, 31, 32, 33, 36, 40, 44, 48, 56>{}, 0);
#elif SHARD == 2
    classes(std::index_sequence<63, 64, 65, 72, 80, 96, 100, 127, 128, 129, 192, 255, 256, 257, 384, 512>{}, 0);
#elif SHARD == 3
    classes(std::index_sequence<640, 768, 1000, 1024, 1536, 2047, 2048, 2049, 3072, 4095, 4096, 4104, 5120, 8192>{}, 0);
#elif SHARD == 4
    for (int h = 0; h < 2; ++h) { views<4>(524286, true, h); views<4>(524287, true, h); views<4>(524288, true, h); views<8>(262144, true, h); views<8>(300000, true, h); views<16>(131071, true, h); views<24>(100000, true, h); views<4>(1048575, true, h); views<8>(393215, true, h); }
    views<1>(2097151, true); views<1>(2097152, true); views<2>(3000000, true); views<12>(200000, true);
    if (thorough()) { views<4>(4194303, true, true); views<8>(2000000, true, true); views<20>(500000, true, true); views<7>(400000, true, true); }
#else
    noclaim<1, 5000>(4200); noclaim<4, 2000>(1100); noclaim<8, 1000>(600); noclaim<24, 300>(200); noclaim<2048, 3>(4); noclaim<4096, 2>(3);
#endif
}
MC_MAIN(setup)
