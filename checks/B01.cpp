// B01: arithmetic and routing blocks, every chunking schedule.
#include "chunk.hpp"
#include "math/add.hpp"
#include "math/complex_demux.hpp"
#include "math/frequency_shift.hpp"
#include "math/gain.hpp"
#include "noise/awgn.hpp"
#include "sinks/sink_null.hpp"
#include "utils/fanout.hpp"
#include "utils/throughput.hpp"

// a sample type of S bytes with arithmetic, so that page-sized channels hold only a few samples
template <size_t S> struct Big {
    int v; unsigned char pad[S - sizeof(int)];
    Big(int x = 0) : v(x) { memset(pad, (unsigned char)(x * 7 + 1), sizeof pad); if (x == 0) memset(pad, 0, sizeof pad); }
    Big& operator+=(const Big& o) { v += o.v; for (size_t i = 0; i < sizeof pad; ++i) pad[i] += o.pad[i]; return *this; }
    friend Big operator+(Big a, const Big& b) { return a += b; }
    friend Big operator*(Big a, const Big& b) { a.v *= b.v; for (size_t i = 0; i < sizeof a.pad; ++i) a.pad[i] *= b.pad[i]; return a; }
    bool operator==(const Big& o) const { return v == o.v && memcmp(pad, o.pad, sizeof pad) == 0; }
};
template <class T> T smp(size_t k, int port);
template <> int smp<int>(size_t k, int p) { return (int)(k * 10 + 1 + p * 1000000); }
template <> float smp<float>(size_t k, int p) { return (float)((int)(k % 4000) - 1000 + p * 7); }
template <> double smp<double>(size_t k, int p) { return (double)k - 3.0 + p * 0.5; }
template <> cf smp<cf>(size_t k, int p) { static const float a[] = {1, -1, 0, 3, -2, 0.5f, -0.25f}; return cf(a[k % 7] + p, a[(k / 7 + k) % 7]); }
template <> Big<1024> smp<Big<1024>>(size_t k, int p) { return Big<1024>((int)k + 1 + p * 100000); }
template <> Big<2048> smp<Big<2048>>(size_t k, int p) { return Big<2048>((int)k + 1 + p * 100000); }
template <> uint16_t smp<uint16_t>(size_t k, int p) { return (uint16_t)(k * 3 + p); }
template <class T> std::vector<T> stream(size_t n, int port) { std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(smp<T>(i, port)); return v; }
template <class T> bool same(const T& a, const T& b, double) { return a == b; }
template <> bool same<float>(const float& a, const float& b, double tol) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
template <> bool same<double>(const double& a, const double& b, double tol) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
template <> bool same<cf>(const cf& a, const cf& b, double tol) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }

// N inputs of type TI, M outputs of type TO, one output sample per input sample
template <class B, class TI, class TO> struct Rig1 {
    std::unique_ptr<B> blk; std::vector<std::unique_ptr<In<TI>>> in; std::vector<std::unique_ptr<Out<TO>>> out; Sched s;
    std::function<TO(size_t, int)> ref; std::function<Res()> run; double tol = 0; const char* nm; bool must_move_all = false;
    void ready() {
        for (auto& i : in) s.ports.push_back(i.get()); for (auto& o : out) s.ports.push_back(o.get());
        s.call = [this] {
            std::vector<size_t> ic, oc; size_t can = ~(size_t)0;
            for (auto& i : in) { ic.push_back(i->consumed()); can = std::min(can, i->occ()); }
            for (auto& o : out) { oc.push_back(o->produced()); can = std::min(can, o->ch->space()); }
            run();
            size_t did = in[0]->consumed() - ic[0];
            for (size_t k = 0; k < in.size(); ++k) MC_CHECK(in[k]->consumed() - ic[k] == did, "uneven", "%s: %zu samples consumed from %s, %zu from %s;%s", nm, in[k]->consumed() - ic[k], in[k]->nm.c_str(), did, in[0]->nm.c_str(), s.hist.c_str());
            for (size_t k = 0; k < out.size(); ++k) MC_CHECK(out[k]->produced() - oc[k] == did, "in-vs-out", "%s: %zu samples consumed but %zu written to %s;%s", nm, did, out[k]->produced() - oc[k], out[k]->nm.c_str(), s.hist.c_str());
            MC_CHECK(did <= can, "too-much", "%s: moved %zu samples although only %zu could be moved;%s", nm, did, can, s.hist.c_str());
            MC_CHECK(did > 0 || can == 0, "no-progress", "%s: %zu samples could be moved but none was;%s", nm, can, s.hist.c_str());
        };
    }
    void compare() {
        for (size_t k = 0; k < out.size(); ++k) {
            while (out[k]->most()) out[k]->go(out[k]->most());
            MC_CHECK(out[k]->got.size() == in[0]->fed, "length", "%s: %zu samples in, %zu out on %s;%s", nm, in[0]->fed, out[k]->got.size(), out[k]->nm.c_str(), s.hist.c_str());
            for (size_t i = 0; i < out[k]->got.size(); ++i) MC_CHECK(same<TO>(out[k]->got[i], ref(i, (int)k), tol), "value", "%s: sample %zu of %s is wrong;%s", nm, i, out[k]->nm.c_str(), s.hist.c_str());
        }
    }
    void go(int prime, int depth, bool fine) {
        for (int i = 0; i < prime; ++i) { for (auto& p : in) p->go(1); s.call(); for (auto& o : out) o->go(o->most()); }
        for (int d = 0; d < depth; ++d) s.step(fine);
        s.finish([&] { for (auto& i : in) if (i->fed < i->data.size() || i->occ()) return false; return true; });
        compare();
        outcome(s.h);
    }
};
template <class F> static void scen(const char* nm, int prime, int depth, bool fine, F mk) {
    scenario(nm, [=] {
        sample("%s", nm);
        Opts o; o.iterate = false;
        explore(o, [=] { auto r = mk(); r->nm = nm; int p = prime ? choose(prime + 1) : 0; r->ready(); r->s.hist = " prime:" + std::to_string(p); r->go(p, depth, fine); });
    });
}
template <class T> static T mulref(T a, T b) { return a * b; }
template <class T> static void gain(const char* tn, size_t ib, size_t ob, T g, int depth, int prime, size_t total) {
    static char nm[64][100]; static int k = 0; char* n = nm[k++]; snprintf(n, 100, "gain<%s> in %zu out %zu", tn, ib, ob);
    scen(n, prime, depth, true, [=] {
        using R = Rig1<GainBlock<T>, T, T>; auto r = std::make_unique<R>(); r->blk = std::make_unique<GainBlock<T>>("g", g, ib);
        r->in.push_back(std::make_unique<In<T>>(&r->blk->in, stream<T>(total, 0))); r->out.push_back(std::make_unique<Out<T>>(ob)); r->tol = 1e-6;
        r->ref = [g](size_t i, int) { return mulref<T>(smp<T>(i, 0), g); }; R* p = r.get(); r->run = [p] { return p->blk->procedure(p->out[0]->ch); }; return r;
    });
}
template <class T> static void noise(const char* tn, size_t ib, size_t ob, int depth, int prime, size_t total) {
    static char nm[64][100]; static int k = 0; char* n = nm[k++]; snprintf(n, 100, "noise<%s> deviation 0 in %zu out %zu", tn, ib, ob);
    scen(n, prime, depth, true, [=] {
        using B = NoiseAWGNBlock<T>; using R = Rig1<B, T, T>; auto r = std::make_unique<R>(); r->blk = std::make_unique<B>("n", 0, ib);
        r->in.push_back(std::make_unique<In<T>>(&r->blk->in, stream<T>(total, 0))); r->out.push_back(std::make_unique<Out<T>>(ob));
        r->ref = [](size_t i, int) { return smp<T>(i, 0); }; R* p = r.get(); r->run = [p] { return p->blk->procedure(p->out[0]->ch); }; return r;
    });
}
template <class T> static void add(const char* tn, size_t ni, size_t ib, size_t ob, int depth, int prime, size_t total, bool fine) {
    static char nm[64][100]; static int k = 0; char* n = nm[k++]; snprintf(n, 100, "add<%s> %zu inputs in %zu out %zu", tn, ni, ib, ob);
    scen(n, prime, depth, fine, [=] {
        using R = Rig1<AddBlock<T>, T, T>; auto r = std::make_unique<R>(); r->blk = std::make_unique<AddBlock<T>>("a", ni, ib); r->tol = 1e-6;
        static const char* inn[] = {"in0", "in1", "in2", "in3"};
        for (size_t i = 0; i < ni; ++i) r->in.push_back(std::make_unique<In<T>>(&r->blk->in[i], stream<T>(total, (int)i), inn[i]));
        r->out.push_back(std::make_unique<Out<T>>(ob));
        r->ref = [ni](size_t i, int) { T s = smp<T>(i, 0); for (size_t j = 1; j < ni; ++j) s = s + smp<T>(i, (int)j); return s; };
        R* p = r.get(); r->run = [p] { return p->blk->procedure(p->out[0]->ch); }; return r;
    });
}
template <class T> static void fan(const char* tn, size_t no, size_t ib, size_t ob, int depth, int prime, size_t total, bool fine) {
    static char nm[64][100]; static int k = 0; char* n = nm[k++]; snprintf(n, 100, "fan-out<%s> %zu outputs in %zu out %zu", tn, no, ib, ob);
    scen(n, prime, depth, fine, [=] {
        using R = Rig1<FanoutBlock<T>, T, T>; auto r = std::make_unique<R>(); r->blk = std::make_unique<FanoutBlock<T>>("f", no, ib);
        r->in.push_back(std::make_unique<In<T>>(&r->blk->in, stream<T>(total, 0)));
        static const char* on[] = {"out0", "out1", "out2", "out3"};
        for (size_t i = 0; i < no; ++i) r->out.push_back(std::make_unique<Out<T>>(ob + (i == 1 ? ob / 2 : 0), on[i]));
        r->ref = [](size_t i, int) { return smp<T>(i, 0); }; R* p = r.get();
        r->run = [p, no]() -> Res { auto o = [p](int k) { return p->out[k]->ch; }; if (no == 1) return p->blk->procedure(o(0)); if (no == 2) return p->blk->procedure(o(0), o(1)); return p->blk->procedure(o(0), o(1), o(2)); };
        return r;
    });
}
template <class T> static void thru(const char* tn, size_t ib, size_t ob, int depth, int prime, size_t total) {
    static char nm[64][100]; static int k = 0; char* n = nm[k++]; snprintf(n, 100, "throughput<%s> in %zu out %zu", tn, ib, ob);
    scen(n, prime, depth, true, [=] {
        using R = Rig1<ThroughputBlock<T>, T, T>; auto r = std::make_unique<R>(); r->blk = std::make_unique<ThroughputBlock<T>>("t", ib);
        r->in.push_back(std::make_unique<In<T>>(&r->blk->in, stream<T>(total, 0))); r->out.push_back(std::make_unique<Out<T>>(ob));
        r->ref = [](size_t i, int) { return smp<T>(i, 0); }; R* p = r.get();
        r->run = [p] { auto x = p->blk->procedure(p->out[0]->ch); MC_CHECK(p->blk->samples_passed() == p->out[0]->produced(), "meter", "the meter says %zu samples, %zu passed", p->blk->samples_passed(), p->out[0]->produced()); return x; }; return r;
    });
}
static void shift(double f, double fs, size_t ib, size_t ob, int depth, int prime, size_t total) {
    static char nm[64][100]; static int k = 0; char* n = nm[k++]; snprintf(n, 100, "frequency shift %g/%g in %zu out %zu", f, fs, ib, ob);
    scen(n, prime, depth, true, [=] {
        using B = FrequencyShiftBlock; using R = Rig1<B, cf, cf>; auto r = std::make_unique<R>(); r->blk = std::make_unique<B>("s", f, fs, ib); r->tol = 2e-4;
        r->in.push_back(std::make_unique<In<cf>>(&r->blk->in, stream<cf>(total, 0))); r->out.push_back(std::make_unique<Out<cf>>(ob));
        r->ref = [=](size_t i, int) { double a = 2 * M_PI * std::fmod(f / fs * (double)i, 1.0); auto x = std::complex<double>(smp<cf>(i, 0)) * std::complex<double>(std::cos(a), std::sin(a)); return cf((float)x.real(), (float)x.imag()); };
        R* p = r.get(); r->run = [p] { return p->blk->procedure(p->out[0]->ch); }; return r;
    });
}
static void split(bool mag, size_t ib, size_t oa, size_t ob, int depth, int prime, size_t total) {
    static char nm[64][100]; static int k = 0; char* n = nm[k++]; snprintf(n, 100, "complex split %s in %zu out %zu,%zu", mag ? "mag/phase" : "re/im", ib, oa, ob);
    scen(n, prime, depth, ib * sizeof(cf) < 100000, [=] {
        using B = ComplexToMagPhaseBlock; using R = Rig1<B, cf, float>; auto r = std::make_unique<R>(); r->blk = std::make_unique<B>("c", mag ? B::MagPhase : B::RealImag, ib); r->tol = 1e-6;
        r->in.push_back(std::make_unique<In<cf>>(&r->blk->in, stream<cf>(total, 0))); r->out.push_back(std::make_unique<Out<float>>(oa, "outA")); r->out.push_back(std::make_unique<Out<float>>(ob, "outB"));
        r->ref = [=](size_t i, int k) { cf x = smp<cf>(i, 0); if (mag) return k ? std::atan2(x.imag(), x.real()) : std::hypot(x.real(), x.imag()); return k ? x.imag() : x.real(); };
        R* p = r.get(); r->run = [p] { return p->blk->procedure(p->out[0]->ch, p->out[1]->ch); }; return r;
    });
}
// null sink: without a callback everything goes, with one exactly what the callback took
struct NullCtx { std::vector<int> seen; size_t took = 0; size_t last = 0; std::string* hist; };
static void nul(size_t ib, bool cb, int depth, size_t total) {
    static char nm[16][100]; static int k = 0; char* n = nm[k++]; snprintf(n, 100, "null sink %zu %s", ib, cb ? "with callback" : "");
    scenario(n, [=] {
        sample("%s", n); Opts o; o.iterate = false;
        explore(o, [=] {
            NullCtx c; std::string hist; c.hist = &hist;
            auto fn = [](cler::Channel<int>* ch, void* p) -> size_t {
                NullCtx& c = *(NullCtx*)p; const int *a, *b; size_t na, nb, tot = ch->peek_read(a, na, b, nb); size_t t = (size_t)choose((int)std::min<size_t>(tot, 5) + 1); if (t == 5) t = tot;
                for (size_t i = 0; i < t; ++i) c.seen.push_back(i < na ? a[i] : b[i - na]); c.last = t; char s[32]; snprintf(s, 32, " take%zu", t); *c.hist += s; return t;
            };
            SinkNullBlock<int> b("n", cb ? (SinkNullBlock<int>::OnReceiveCallback)fn : nullptr, &c, ib);
            In<int> in(&b.in, stream<int>(total, 0)); std::vector<size_t> cand;
            for (int d = 0; d < depth; ++d) {
                int m = pick_amount(in.most(), cand, true); size_t f = cand[choose(m)]; in.go(f); char s[32]; snprintf(s, 32, " in%zu", f); hist += s; note("%s", hist.c_str());
                size_t had = in.occ(); c.last = 0; b.procedure(); count_trans();
                MC_CHECK(in.occ() == (cb ? had - c.last : 0), "null-count", "%s: %zu samples were there, %zu taken, %zu left;%s", n, had, c.last, in.occ(), hist.c_str());
                state(hmix(in.occ(), in.fed));
            }
            for (size_t i = 0; i < c.seen.size(); ++i) MC_CHECK(c.seen[i] == smp<int>(i, 0), "value", "%s: sample %zu handed to the callback is wrong;%s", n, i, hist.c_str());
            outcome(hmix(std::hash<std::string>()(hist), 1));
        });
    });
}
// A million samples through the shifter: the rotation must neither grow nor shrink the signal nor lose its rate.
static void shift_long(double f, double fs, size_t total) {
    scenario("frequency shift " + std::to_string(f) + " of " + std::to_string(fs) + ", long run", [=] {
        sample("frequency shift %g/%g over %zu samples", f, fs, total);
        Opts o; o.iterate = false;
        explore(o, [&] {
            FrequencyShiftBlock b("s", f, fs, 1024); cler::Channel<cf> out(2048); std::vector<cf> one(1000, cf(1, 0)), got(2048); size_t n = 0, step = choose(2) ? 1000 : 333;
            while (n < total) {
                b.in.writeN(one.data(), step); b.procedure(&out); size_t k = out.readN(got.data(), got.size()); count_trans();
                MC_CHECK(k == step, "stalled", "frequency shift: %zu samples in, %zu out", step, k);
                for (size_t i = 0; i < k; ++i, ++n) {
                    double ph = 2 * M_PI * std::fmod(f / fs * (double)n, 1.0); std::complex<double> want(std::cos(ph), std::sin(ph)), g(got[i]);
                    MC_CHECK(std::abs(std::abs(g) - 1) < 1e-3, "amplitude", "frequency shift %g/%g: sample %zu has magnitude %.6f instead of 1", f, fs, n, std::abs(g));
                    MC_CHECK(std::abs(std::arg(g / want)) < 1e-3 + n * 1.5e-7, "phase", "frequency shift %g/%g: sample %zu is off by %.6f rad", f, fs, n, std::arg(g / want));
                }
                state(hmix(n, step));
            }
            outcome(step);
        });
    });
}
static void setup() {
    for (double f : {0.1, 1.0, -2.5, 3.3, 0.0123}) shift_long(f, 10, thorough() ? 3000000 : 1000000);
    bool T = thorough(); int D = T ? 1 : 0;
    // every capacity pair of 1..4, every feed / drain amount
    for (size_t i : {1, 2, 3, 5}) for (size_t o : {1, 2, 4}) gain<int>("int", i, o, 3, (i + o > 7 ? 3 : 4) + D, 3, 26);
    gain<float>("float", 4, 3, -0.5f, 4, 4, 20); gain<cf>("complex", 3, 4, cf(2, -1), 4, 3, 20); gain<double>("double", 7, 5, 1e3, 3 + D, 3 + 4 * D, 30); gain<float>("float", 0, 4096, 2.f, 3, 1, 9000); gain<uint16_t>("u16", 2, 3, 5, 4, 3, 20); gain<float>("float", 300, 0x4000, 2.f, 3, 1, 2000); gain<cf>("complex", 512, 700, cf(0, 1), 3 + D, 1, 3000);
    for (size_t i : {1, 3}) for (size_t o : {2, 3}) noise<float>("float", i, o, 4 + D, 3, 22);
    noise<cf>("complex", 3, 2, 4, 3, 20); noise<double>("double", 2, 4, 4, 3, 20); noise<float>("float", 0, 700, 3 + D, 1, 4000);
    for (size_t i : {1, 2, 4}) for (size_t o : {2, 3}) shift(1, 7, i, o, 4 + D, 3, 24);
    shift(-2.5, 10, 3, 3, 4, 3, 24); shift(5, 10, 2, 2, 4, 2, 24); shift(0, 1, 2, 3, 3, 2, 20); shift(1e5, 2.4e6, 0, 777, 3 + D, 1, 3000); shift(123, 1000, 600, 500, 3, 1, 3000);
    add<Big<1024>>("1KB", 2, 4, 4, 2 + D, 4, 40, true); add<Big<1024>>("1KB", 3, 4, 5, 1 + D, 4, 40, true); add<Big<2048>>("2KB", 3, 2, 2, 2, 2, 30, true); add<Big<2048>>("2KB", 2, 2, 2, 3 + D, 3, 30, true); add<int>("int", 2, 1024, 1500, 2 + D, 1, 6000, false); add<float>("float", 0 + 2, 0, 2048, 2 + D, 1, 6000, false); if (T) add<cf>("complex", 3, 512, 600, 2, 1, 3000, false); add<double>("double", 4, 512, 512, 1, 1, 2500, false);
    fan<Big<1024>>("1KB", 1, 4, 4, 3 + D, 4, 40, true); fan<Big<1024>>("1KB", 2, 4, 4, 2 + D, 4, 40, true); fan<Big<1024>>("1KB", 3, 4, 4, 2, 3, 40, true); fan<Big<2048>>("2KB", 2, 2, 2, 3 + D, 3, 30, true); fan<int>("int", 2, 1024, 1200, 2 + D, 1, 6000, false); fan<cf>("complex", 3, 0, 700, 2, 1, 3000, false);
    thru<Big<1024>>("1KB", 4, 4, 3 + D, 5, 40); thru<Big<2048>>("2KB", 2, 3, 4 + D, 3, 30); thru<float>("float", 0, 1500, 3 + D, 1, 6000); thru<cf>("complex", 700, 512, 3 + D, 1, 3000);
    // the split block insists on a page of input; outputs may be tiny
    for (int m = 0; m < 2; ++m) { split(m, 512, 2, 3, 3 + D, 2, 30); split(m, 512, 1, 1, 4 + D, 2, 24); split(m, 512, 4, 2, 3, 3, 30); split(m, 0, 600, 800, 2 + D, 1, 3000); split(m, 700, 1024, 512, 2 + D, 1, 3000); }
    nul(1, false, 6, 30); nul(3, false, 5, 40); nul(3, true, 4 + D, 40); nul(2, true, 5, 30); nul(5, true, 3 + D, 40); nul(0, false, 4, 9000); nul(1024, true, 3, 5000);
}
MC_MAIN(setup)
