// C01: FIFO delivery under every interleaving and every memory-order outcome.
#include "chan_prog.hpp"
#include "chan_wait.hpp"
using namespace mc;

template <class E, size_t N>
static void body(Store st, int full, const std::vector<int>& pa, const std::vector<int>& ca, int p0, int c0, int lp, int lc, bool states) {
    ProgCfg cfg; cfg.cap = N; cfg.strict = full != 1; cfg.ghosts = full == 2;
    if (states) { cfg.rot = choose((int)N + 1); cfg.fill = choose((int)N + 1); } else { cfg.rot = (int)N; cfg.fill = 0; }
    std::vector<int> pp{p0}, cc{c0};
    for (int i = 1; i < lp; ++i) pp.push_back(pa[choose((int)pa.size())]);
    for (int i = 1; i < lc; ++i) cc.push_back(ca[choose((int)ca.size())]);
    with_channel<E, N>(st, [&](auto& ch) {
        Prog<E, std::decay_t<decltype(ch)>> g(ch, cfg);
        g.prepare();
        size_t rp[8] = {}, rc[8] = {};
        std::thread p([&] { for (size_t i = 0; i < pp.size(); ++i) rp[i] = g.pop_(pp[i]); });
        std::thread c([&] { for (size_t i = 0; i < cc.size(); ++i) rc[i] = g.cop_(cc[i]); });
        p.join(); c.join();
        uint64_t h = N; for (int i = 0; i < 8; ++i) h = hmix(h, rp[i] * 16 + rc[i]); outcome(h);
        if (replaying()) { for (size_t i = 0; i < pp.size(); ++i) trace("producer %s -> %zu", pname[pp[i]], rp[i]); for (size_t i = 0; i < cc.size(); ++i) trace("consumer %s -> %zu", cname[cc[i]], rc[i]); }
        g.finish();
    });
}

template <class E, size_t N>
static void family(const char* ename, Store st, int full, int bound, int stale, int lp, int lc, std::vector<int> pa, std::vector<int> ca, bool states) {
    for (int p : pa) for (int c : ca) {
        char nm[256]; snprintf(nm, sizeof nm, "%s cap%zu %s %s len%d/%d b%d: %s.. | %s..", stname[st], N, ename, full == 2 ? "full+occupancy" : full ? "full" : "bounded", lp, lc, bound, pname[p], cname[c]);
        scenario(nm, [=] {
            Opts o; o.threads = true; o.full = full; o.bound = bound; o.stale = stale; o.free_switch = true;
            note("%s", nm);
            sample("%s", nm);
            explore(o, [=] { body<E, N>(st, full, pa, ca, p, c, lp, lc, states); });
        });
    }
}

static const std::vector<int> PA = {PT_TRY, PT_W1, PT_W2, PT_K1, PT_K2, PT_SW};
static const std::vector<int> CA = {CT_TRY, CT_R1, CT_R2, CT_K1, CT_K2, CT_SR};
static const std::vector<int> PQ = {PT_TRYMOVE, PT_TRY, PT_W2, PT_K3, PT_SPACE};
static const std::vector<int> CQ = {CT_TRY, CT_R2, CT_K3, CT_SIZE};
static const std::vector<int> PD = {PT_D1, PT_D2, PT_D3, PT_TRY, PT_W2};
static const std::vector<int> CD = {CT_D1, CT_D2, CT_D3, CT_TRY, CT_R2};
static const std::vector<int> PB = {PT_TRY, PT_TRYMOVE, PT_W2, PT_W3, PT_K2, PT_K3, PT_SW, PT_SPACE};
static const std::vector<int> CB = {CT_TRY, CT_R2, CT_R3, CT_K2, CT_K3, CT_SR, CT_SIZE};

static void setup() {
    { cler::Channel<Elem<2048>> warm(1); }      // function-local statics of the platform probe are initialised here
    using E = Elem<16>;
    bool T = thorough();
    // full=1: every interleaving (sleep sets), up to `stale` stale reads; full=2: additionally every result must be
    // explained by the occupancy at that moment (the bookkeeping becomes schedulable)
    family<Small, 1>("8B", ST_STACK, 1, 2, 2, 2, 2, PA, CA, true);
    family<E, 2>("16B", ST_QHEAP, 1, 2, 2, 2, 2, PQ, CQ, true);
    family<Elem<2048>, 1>("2KB dbf", ST_HEAP, 1, 1, 1, 2, 2, PD, CD, false);
    family<E, 1>("16B", ST_HEAP, 2, 1, 1, 2, 2, PA, CA, true);
    // capacity 3: a wrapped bulk transfer can overlap with the peer's only when it spans at least three slots
    family<E, 3>("16B", ST_HEAP, 1, 1, 1, 1, 1, PB, CB, true);
    family<Elem<1024>, 3>("1KB dbf", ST_HEAP, 1, 1, 1, 1, 1, PD, CD, true);
    family<E, 3>("16B", ST_STACK, 1, 1, 1, 2, 1, {PT_W2, PT_W3, PT_K2, PT_K3}, {CT_R3, CT_K3, CT_SR}, true);
    family<E, 3>("16B", ST_STACK, 1, 1, 1, 1, 2, {PT_W3, PT_K3, PT_SW}, {CT_R2, CT_R3, CT_K2, CT_K3}, true);
    static const std::vector<int> P4 = {PT_TRYMOVE, PT_W2, PT_K2, PT_SW}, C4 = {CT_TRY, CT_R2, CT_K2, CT_SR};
    family<E, 2>("16B", ST_STACK, 2, 1, 1, 2, 2, P4, C4, false);
    // waiting transfers: push and pop, mixed with the others
    waiting<E, 1>("16B", ST_HEAP, false, 2, 1, 2, {U_PUSH, U_PUSHMV, U_BULK2, U_SPACE2}, true);
    waiting<Small, 2>("8B", ST_STACK, false, 2, 1, 3, {U_PUSH, U_TRYTHENPUSH, U_PEEK2}, false);
    waiting<Elem<2048>, 1>("2KB view", ST_HEAP, false, 1, 1, 2, {U_PUSHMV, U_DBF2}, true);
    if (T) {
        waiting<E, 3>("16B", ST_QHEAP, false, 3, 2, 5, {U_PUSH, U_PUSHMV, U_TRYTHENPUSH, U_BULK2, U_SPACE2}, true);
        family<E, 2>("16B", ST_STACK, 2, 1, 1, 2, 2, PB, CB, true);
        family<E, 1>("16B", ST_QSTACK, 1, 3, 3, 3, 3, PA, CA, false);
        family<E, 3>("16B", ST_QSTACK, 1, 2, 2, 2, 2, PB, CB, true);
        family<Elem<1024>, 3>("1KB dbf", ST_HEAP, 1, 2, 2, 2, 2, PD, CD, true);
        family<E, 2>("16B", ST_HEAP, 0, 3, 2, 3, 3, PA, CA, true);
    }
}
MC_MAIN(setup)
