// B06: buffer pool, slots taken by one thread and released by the taker and up to two other threads, every interleaving.
#include "mc.hpp"
#include "blob.hpp"
#include <thread>
#include <vector>
#include <string>
using namespace mc;

struct Ledger {                          // harness-side bookkeeping of who owns what
    size_t n, sz; std::vector<int> owner; std::vector<uint8_t*> base; int releasing = 0; std::string what;
    Ledger(size_t n_, size_t s) : n(n_), sz(s), owner(n_, -1), base(n_, nullptr) {}
    size_t owned() { size_t k = 0; for (int o : owner) k += o >= 0; return k; }
};
struct Pool {
    std::unique_ptr<Slab> s; Ledger L; std::vector<Blob> mine; uint64_t h = 0;
    Pool(size_t n, size_t sz, const std::string& w) : s(std::make_unique<Slab>(n, sz)), L(n, sz) { L.what = w; }
    bool take() {
        long free0; { NoRace r; free0 = (long)L.n - (long)L.owned() - L.releasing; }
        auto r = s->take_slot();
        if (r.is_err()) { NoRace q; if (!stale_used()) MC_CHECK(free0 <= 0, "take-fails", "%s: taking fails although %ld of %zu slots are free", L.what.c_str(), free0, L.n); h = hmix(h, 7); trace("take fails"); return false; }
        Blob b = r.unwrap();
        {
            NoRace q; trace("T%d takes slot %zu", self(), b.slot_idx);
            MC_CHECK(b.slot_idx < L.n && b.data && b.len == L.sz, "region", "%s: slot %zu of %zu, %zu bytes instead of %zu", L.what.c_str(), b.slot_idx, L.n, b.len, L.sz);
            MC_CHECK(L.owner[b.slot_idx] < 0, "two-owners", "%s: slot %zu is handed out while T%d still owns it", L.what.c_str(), b.slot_idx, L.owner[b.slot_idx]);
            for (size_t i = 0; i < L.n; ++i) if (L.base[i] && i != b.slot_idx) MC_CHECK(b.data + L.sz <= L.base[i] || L.base[i] + L.sz <= b.data, "overlap", "%s: the regions of slots %zu and %zu overlap", L.what.c_str(), b.slot_idx, i);
            MC_CHECK(!L.base[b.slot_idx] || L.base[b.slot_idx] == b.data, "overlap", "%s: slot %zu moved", L.what.c_str(), b.slot_idx);
            L.base[b.slot_idx] = b.data; L.owner[b.slot_idx] = self(); h = hmix(h, b.slot_idx);
        }
        b.data[0] = (uint8_t)(b.slot_idx + 1); b.data[L.sz - 1] = (uint8_t)(b.slot_idx + 1);     // race-checked use of the region
        mine.push_back(b);
        return true;
    }
    void release(Blob b) {
        MC_CHECK(b.data[0] == (uint8_t)(b.slot_idx + 1) && b.data[L.sz - 1] == (uint8_t)(b.slot_idx + 1), "content", "%s: the content of slot %zu changed while it was owned", L.what.c_str(), b.slot_idx);
        b.data[0] = 0;
        { NoRace q; L.owner[b.slot_idx] = -1; L.releasing++; trace("T%d releases slot %zu", self(), b.slot_idx); }
        b.release();
        { NoRace q; L.releasing--; }
    }
    void end() {                         // everything released: every slot must be obtainable again, once
        for (auto& b : mine) release(b);
        mine.clear();
        MC_CHECK(s->available_slots() == L.n, "lost-slot", "%s: all slots were released, %zu of %zu are available", L.what.c_str(), s->available_slots(), L.n);
        for (size_t i = 0; i < L.n; ++i) MC_CHECK(take(), "lost-slot", "%s: all slots were released but only %zu of %zu can be taken again", L.what.c_str(), i, L.n);
        MC_CHECK(s->take_slot().is_err(), "two-owners", "%s: more slots can be taken than the pool has", L.what.c_str());
    }
};
// the taker has `hold` slots; threads A and B release a and b of them while the taker runs a program of takes and releases
static void conc(size_t n, size_t a, size_t b, size_t own, int len, int full, int bound, int stale) {
    char nm[120]; snprintf(nm, sizeof nm, "pool of %zu: A releases %zu, B releases %zu, taker holds %zu, program of %d%s", n, a, b, own, len, full ? "" : " (bounded)");
    std::string N = nm;
    scenario(N, [=] {
        Opts o; o.threads = true; o.full = full; o.bound = bound; o.stale = stale; o.free_switch = true; sample("%s", N.c_str());
        explore(o, [=] {
            note("%s", N.c_str());
            Pool p(n, 16, N);
            for (size_t r = (size_t)choose((int)n + 1); r-- > 0;) { p.take(); p.release(p.mine.back()); p.mine.pop_back(); }     // start offset of the free list
            std::vector<Blob> va, vb; for (size_t i = 0; i < a + b + own; ++i) p.take();
            for (size_t i = 0; i < a; ++i) { va.push_back(p.mine.back()); p.mine.pop_back(); } for (size_t i = 0; i < b; ++i) { vb.push_back(p.mine.back()); p.mine.pop_back(); }
            std::vector<int> prog; for (int i = 0; i < len; ++i) prog.push_back(choose(2));
            std::thread A([&] { for (auto& x : va) p.release(x); }), B; if (b) B = std::thread([&] { for (auto& x : vb) p.release(x); });
            for (int op : prog) { if (op == 0) p.take(); else if (!p.mine.empty()) { Blob x = p.mine.front(); p.mine.erase(p.mine.begin()); p.release(x); } }
            A.join(); if (b) B.join();
            p.end(); outcome(hmix(p.h, hmix(n, a * 10 + b)));
        });
    });
}
static void setup() {
    { Slab warm(2, 8); warm.take_slot().unwrap().release(); }
    bool T = thorough();
    conc(1, 1, 0, 0, 2, 1, 0, 2); conc(2, 1, 0, 0, 3, 1, 0, 2); conc(2, 2, 0, 0, 2, 1, 0, 2); conc(2, 1, 0, 1, 3, 1, 0, 2); conc(3, 2, 0, 1, 3, 1, 0, 1);
    conc(2, 1, 1, 0, 1, 1, 0, 1); conc(2, 1, 1, 0, 2, 0, 3, 1); conc(3, 1, 1, 1, 2, 0, 3, 1); conc(3, 1, 1, 1, 3, 0, 2, 1); conc(3, 2, 1, 0, 2, 0, 2, 1); conc(4, 2, 2, 0, 2, 0, 2, 1);
    if (T) { conc(3, 1, 1, 1, 2, 1, 0, 1); conc(3, 2, 1, 0, 2, 1, 0, 1); conc(4, 2, 2, 0, 4, 0, 3, 1); conc(3, 1, 1, 1, 4, 0, 4, 2); }
}
MC_MAIN(setup)
