// Chunking-schedule enumeration for stream blocks (B01-B05): before every call of the block the environment chooses how
// many samples arrive on each input and how many are drained from each output; the streams are compared to a reference.
#pragma once
#include "mc.hpp"
#include "cler.hpp"
#include <memory>
#include <vector>
#include <string>
#include <functional>
#include <complex>
#include <cmath>
#include <cstring>
#include <algorithm>
using namespace mc;
using Res = cler::Result<cler::Empty, cler::Error>;
using cler::Error;
typedef std::complex<float> cf;

struct Port {                               // one input or output of the block under test
    virtual size_t most() = 0;              // how many samples can be fed / drained now
    virtual void go(size_t n) = 0;
    virtual size_t occ() = 0;
    virtual ~Port() {}
    std::string nm;
};
template <class T> struct In : Port {
    cler::ChannelBase<T>* ch; std::vector<T> data; size_t fed = 0;
    In(cler::ChannelBase<T>* c, std::vector<T> d, const char* n = "in") : ch(c), data(std::move(d)) { nm = n; }
    size_t most() override { return std::min(ch->space(), data.size() - fed); }
    void go(size_t n) override { if (!n) return; size_t k = ch->writeN(data.data() + fed, n); MC_CHECK(k == n, "harness", "feeding failed"); fed += n; }
    size_t occ() override { return ch->size(); }
    size_t consumed() { return fed - ch->size(); }
};
template <class T> struct Out : Port {
    std::unique_ptr<cler::Channel<T>> own; cler::ChannelBase<T>* ch; std::vector<T> got;
    explicit Out(size_t cap, const char* n = "out") : own(std::make_unique<cler::Channel<T>>(cap)), ch(own.get()) { nm = n; }
    size_t most() override { return ch->size(); }
    void go(size_t n) override { if (!n) return; size_t o = got.size(); got.resize(o + n); size_t k = ch->readN(got.data() + o, n); MC_CHECK(k == n, "harness", "draining failed"); }
    size_t occ() override { return ch->size(); }
    size_t produced() { return got.size() + ch->size(); }
};
inline int pick_amount(size_t most, std::vector<size_t>& cand, bool fine) {
    cand.clear();
    if (fine && most <= 6) for (size_t i = 0; i <= most; ++i) cand.push_back(i);
    else for (size_t v : {(size_t)0, (size_t)1, (size_t)2, most / 2, most ? most - 1 : 0, most}) if (v <= most && std::find(cand.begin(), cand.end(), v) == cand.end()) cand.push_back(v);
    return (int)cand.size();
}
struct Sched {
    std::vector<Port*> ports; std::string hist; uint64_t h = 0;
    std::function<void()> call;             // runs the block once and checks the step
    void amount(Port* p, bool fine) {
        std::vector<size_t> c; int n = pick_amount(p->most(), c, fine); size_t k = c[choose(n)];
        char b[64]; if (k) { snprintf(b, sizeof b, " %s:%zu", p->nm.c_str(), k); hist += b; }
        p->go(k); h = hmix(h, k);
    }
    void step(bool fine) {
        for (auto* p : ports) amount(p, fine);
        hist += " |"; note("schedule%s", hist.c_str());
        call(); count_trans();
        for (auto* p : ports) h = hmix(h, p->occ());
        state(h);
    }
    void prime(size_t n) {                  // move the ring positions: n samples one by one
        for (size_t i = 0; i < n; ++i) { for (auto* p : ports) p->go(std::min<size_t>(p->most(), 1)); call(); for (auto* p : ports) p->go(p->most() > 0 && dynamic_cast<Port*>(p) && i % 2 ? 0 : 0); }
    }
    void finish(std::function<bool()> done, int limit = 10000) {   // keep feeding and draining until everything is through
        hist += " finish"; note("schedule%s", hist.c_str());
        for (int i = 0; i < limit; ++i) { for (auto* p : ports) p->go(p->most()); if (done()) return; call(); }
        MC_CHECK(false, "stalled", "schedule%s: input is available and output has room, but the block does not get on", hist.c_str());
    }
};
