// C02: occupancy / capacity / segment contracts in every channel state (sequential, explicit-state + op sequences).
#include "rig.hpp"

static std::vector<Op> alphabet(size_t cap, bool dbf) {
    std::vector<Op> a{{O_TRYPUSH, 0}, {O_TRYPOP, 0}, {O_PUSH, 0}, {O_POP, 0}, {O_TRYMOVE, 0}};
    for (size_t n = 0; n <= cap + 1; ++n) { a.push_back({O_WRITEN, n}); a.push_back({O_READN, n}); }
    for (size_t n = 1; n <= cap; ++n) a.push_back({O_SKIP, n});
    for (size_t n = 0; n <= cap; ++n) { a.push_back({O_PEEKW, n}); a.push_back({O_PEEKR, n}); if (dbf) { a.push_back({O_DBFW, n}); a.push_back({O_DBFR, n}); } }
    return a;
}
template <size_t B, size_t N> static void small(size_t req, size_t depth) {
    char nm[128]; snprintf(nm, sizeof nm, "%s cap %zu element %zuB: all op sequences of length %zu from every state", N ? "stack" : "heap", req, B, depth);
    scenario(nm, [=] {
        Rig<B, N> probe(req); size_t cap = probe.cap; auto al = alphabet(cap, probe.dbf);
        Opts o; o.iterate = false;
        sample("%s (%zu ops)", nm, al.size());
        explore(o, [=] {
            size_t pos = choose((int)cap + 1), occ = choose((int)cap + 1); int how = choose(3);
            Rig<B, N> r(req); r.goto_state(pos, occ, how);
            uint64_t h = pos * 131 + occ;
            std::string s;
            for (size_t d = 0; d < depth; ++d) {
                Op op = al[choose((int)al.size())];
                char b[64]; snprintf(b, sizeof b, " %s(%zu)", on[op.k], op.n); s += b; r.ctx = s.c_str();
                note("cap %zu from position %zu occupancy %zu via history %d:%s", cap, pos, occ, how, s.c_str());
                if (!r.apply(op)) { prune(); }
                h = hmix(h, r.ref.size()); state(hmix(h, op.k));
            }
            r.drain(); outcome(hmix(r.ref.size(), h));
        });
    });
}
// boundary states of larger capacities
template <size_t B> static void large(size_t req, size_t depth) {
    char nm[128]; snprintf(nm, sizeof nm, "heap cap %zu element %zuB: boundary states, op sequences of length %zu", req, B, depth);
    scenario(nm, [=] {
        size_t cap = Rig<B, 0>(req).cap; bool dbf = Rig<B, 0>(req).dbf; sample("%s (offered %zu, dbf %d)", nm, cap, dbf);
        Opts o; o.iterate = false;
        explore(o, [=] {
            size_t ps[] = {0, 1, cap / 2, cap - 1, cap}, oc[] = {0, 1, cap / 2, cap - 1, cap};
            size_t pos = ps[choose(5)], occ = oc[choose(5)];
            Rig<B, 0> r(req);
            if (pos) { r.ch->commit_write(pos > cap ? cap : pos); r.ch->commit_read(pos > cap ? cap : pos); }
            if (occ) r.apply({O_WRITEN, occ});
            for (size_t d = 0; d < depth; ++d) {
                size_t av = r.ref.size(), room = cap - av, toend = cap + 1 - pos;
                size_t ns[] = {1, av, av + 1, room, room + 1, toend > 0 ? toend - 1 : 0, toend, toend + 1};
                int k = choose(dbf ? 8 : 6); static const int ks[] = {O_TRYPUSH, O_TRYPOP, O_WRITEN, O_READN, O_PEEKW, O_PEEKR, O_DBFW, O_DBFR};
                size_t n = k < 2 ? 0 : ns[choose(8)];
                note("cap %zu position %zu occupancy %zu %s(%zu)", cap, pos, av, on[ks[k]], n);
                if (!r.apply({ks[k], n})) prune();
                state(hmix(hmix(pos, occ), hmix(k, n)));
            }
            outcome(hmix(r.ref.size(), hmix(pos, occ)));
            if (cap < 100000 || depth < 2) { while (!r.ref.empty()) { r.apply({O_READN, r.ref.size() / 2 + 1}); } }
        });
    });
}
template <size_t B> static void capacities(size_t upto, size_t step) {
    char nm[128]; snprintf(nm, sizeof nm, "heap element %zuB: every requested capacity 1..%zu step %zu", B, upto, step);
    scenario(nm, [=] {
        sample("%s", nm);
        for (size_t req = 1; req <= upto; req += step) {
            note("requested capacity %zu element size %zu", req, B);
            Rig<B, 0> r(req); count_eval(); state(hmix(req, r.cap)); outcome(hmix(r.dbf, r.cap - req));
            size_t c = r.cap;
            r.apply({O_WRITEN, c}); r.apply({O_TRYPUSH, 0}); r.apply({O_READN, c / 2}); r.apply({O_WRITEN, c}); r.apply({O_PEEKR, c}); r.apply({O_TRYPOP, 0});
            r.apply({O_PEEKW, c}); r.apply({O_PEEKR, c / 3}); r.apply({O_READN, c + 1});
        }
    });
}
template <size_t B> static void sizes(size_t d4, size_t d3) {
    small<B, 1>(1, d4); small<B, 0>(1, d4); small<B, 2>(2, d3); small<B, 0>(2, d3);
}
#ifndef SHARD
#define SHARD 0
#endif
static void setup() {
    bool T = thorough();
#if SHARD == 0
    small<8, 1>(1, 4); small<8, 2>(2, 3); small<8, 3>(3, 2); small<8, 4>(4, 2); small<8, 7>(7, 2); small<1, 3>(3, 2); small<3, 2>(2, 2); small<16, 3>(3, 2); small<100, 2>(2, 2);
    if (T) { small<8, 1>(1, 6); small<8, 2>(2, 4); small<8, 3>(3, 4); small<4, 5>(5, 3); small<4, 16>(16, 2); small<8, 8>(8, 2); }
#elif SHARD == 1
    small<8, 0>(1, 4); small<8, 0>(2, 3); small<8, 0>(3, 2); small<8, 0>(5, 2); small<1, 0>(4, 2); small<3, 0>(3, 2); small<12, 0>(2, 2); small<24, 0>(3, 2); small<64, 0>(2, 2); small<2048, 0>(1, 3); small<1024, 0>(3, 2);
    if (T) { small<8, 0>(1, 6); small<8, 0>(2, 4); small<8, 0>(3, 4); small<4, 0>(6, 3); small<2, 0>(4, 3); small<512, 0>(7, 2); small<48, 0>(4, 3); small<8, 0>(8, 2); }
#elif SHARD == 2
    large<4>(511, 1); large<4>(512, 1); large<8>(1023, 1); large<4>(4096, 1); large<1>(65536, 1); large<8>(65535, 1); large<12>(1000, 1); large<24>(5000, 1); large<2>(1 << 20, 1);
    if (T) { large<4>(1023, 2); large<8>(1 << 18, 1); large<16>(4096, 2); large<3>(10000, 2); }
#else
    capacities<1>(600, 1); capacities<2>(500, 1); capacities<8>(1100, 1); capacities<12>(800, 7); capacities<16>(600, 1); capacities<40>(300, 1); capacities<1>(9000, 97); capacities<4>(600000, 65521);
    if (T) { capacities<8>(20000, 1); capacities<24>(3000, 1); capacities<7>(3000, 1); }
#endif
}
MC_MAIN(setup)
