// Stream blocks (source, pass, fan, join, sink) over numbered samples, and the topologies built from them (F01, F05, F06).
#pragma once
#include "flow.hpp"
using namespace mc;
inline Error (*g_inject)(const char* who, long call) = nullptr;      // an error the block reports instead of working
inline Error injected(const char* who, long call) { return g_inject ? g_inject(who, call) : Error::OK; }
template <size_t B> struct El { uint64_t w[B / 8]; El() = default; explicit El(uint64_t v) { for (auto& x : w) x = v; } bool whole() const { for (auto& x : w) if (x != w[0]) return false; return true; } uint64_t v() const { return w[0]; } };
enum Style { BY_ONE, BY_N, BY_SEG, BY_BLOCKING, BY_VIEW, NSTYLE };
static const char* sn[] = {"single", "bulk", "segments", "blocking", "views"};

// moves as many elements as the style allows in one go; returns how many
template <class E, class Ch> size_t put(Ch& c, const E* d, size_t n, int style) {
    if (!n) return 0;
    switch (style) {
        case BY_ONE: return c.try_push(d[0]) ? 1 : 0;
        case BY_N: return c.writeN(d, n);
        case BY_SEG: { E *a, *b; size_t na, nb; size_t t = c.peek_write(a, na, b, nb); if (t > n) t = n; for (size_t i = 0; i < t; ++i) (i < na ? a[i] : b[i - na]) = d[i]; if (t) c.commit_write(t); return t; }
        case BY_BLOCKING: { if (!c.space()) return 0; c.push(d[0]); return 1; }
        default: { auto [p, t] = c.write_dbf(); if (!p) return 0; if (t > n) t = n; for (size_t i = 0; i < t; ++i) p[i] = d[i]; if (t) c.commit_write(t); return t; }
    }
}
template <class E, class Ch> size_t take(Ch& c, E* d, size_t n, int style) {
    if (!n) return 0;
    switch (style) {
        case BY_ONE: return c.try_pop(d[0]) ? 1 : 0;
        case BY_N: return c.readN(d, n);
        case BY_SEG: { const E *a, *b; size_t na, nb; size_t t = c.peek_read(a, na, b, nb); if (t > n) t = n; for (size_t i = 0; i < t; ++i) d[i] = i < na ? a[i] : b[i - na]; if (t) c.commit_read(t); return t; }
        case BY_BLOCKING: { if (!c.size()) return 0; c.pop(d[0]); return 1; }
        default: { auto [p, t] = c.read_dbf(); if (!p) return 0; if (t > n) t = n; for (size_t i = 0; i < t; ++i) d[i] = p[i]; if (t) c.commit_read(t); return t; }
    }
}
template <class E> struct Src : cler::BlockBase {
    int style; uint64_t next = 1, last; Obs obs; long steps = 0; uint64_t base;
    Src(const char* n, int s, uint64_t k, uint64_t b = 0) : BlockBase(n), style(s), last(k), base(b) {}
    Res procedure(cler::ChannelBase<E>* out) {
        obs.enter(name()); steps++; if (Error e = injected(name(), obs.calls); e != Error::OK) { obs.leave(false); return e; }
        E d[2]; size_t n = 0; for (; n < 2 && next + n <= last; ++n) d[n] = E(base + next + n);
        size_t m = put(*out, d, n, style); next += m; obs.leave(m);
        if (m) return cler::Empty{};
        return n ? Error::NotEnoughSpace : Error::NotEnoughSamples;
    }
};
template <class E> struct Pass : cler::BlockBase {       // one input, one output: holds what it could not forward yet
    cler::Channel<E> in; int style; Obs obs; long steps = 0; E held[2]; size_t nh = 0;
    Pass(const char* n, size_t cap, int s) : BlockBase(n), in(cap), style(s) {}
    Res procedure(cler::ChannelBase<E>* out) {
        obs.enter(name()); steps++; if (Error e = injected(name(), obs.calls); e != Error::OK) { obs.leave(false); return e; }
        if (!nh) nh = take<E>(in, held, style == BY_ONE || style == BY_BLOCKING ? 1 : 2, style);
        if (!nh) { obs.leave(false); return Error::NotEnoughSamples; }
        size_t m = put(*out, held, nh, style); nh -= m; if (nh && m) held[0] = held[m];
        obs.leave(m);
        if (!m) return Error::NotEnoughSpace;
        return cler::Empty{};
    }
};
template <class E> struct Fan : cler::BlockBase {        // moves one element to both outputs when both have room
    cler::Channel<E> in; int style; Obs obs; long steps = 0;
    Fan(const char* n, size_t cap, int s) : BlockBase(n), in(cap), style(s) {}
    Res procedure(cler::ChannelBase<E>* a, cler::ChannelBase<E>* b) {
        obs.enter(name()); steps++; if (Error e = injected(name(), obs.calls); e != Error::OK) { obs.leave(false); return e; }
        if (!a->space() || !b->space()) { obs.leave(false); return Error::NotEnoughSpace; }
        E d; if (!take<E>(in, &d, 1, style)) { obs.leave(false); return Error::NotEnoughSamples; }
        size_t m = put(*a, &d, 1, style), k = put(*b, &d, 1, style);
        MC_CHECK(m == 1 && k == 1, "room-vanished", "an output that reported room refused a sample");
        obs.leave(true); return cler::Empty{};
    }
};
template <class E> struct Join : cler::BlockBase {       // pairs one element of each input
    cler::Channel<E> x, y; int style; Obs obs; long steps = 0;
    Join(const char* n, size_t cap, int s) : BlockBase(n), x(cap), y(cap), style(s) {}
    Res procedure(cler::ChannelBase<E>* out) {
        obs.enter(name()); steps++; if (Error e = injected(name(), obs.calls); e != Error::OK) { obs.leave(false); return e; }
        if (!x.size() || !y.size()) { obs.leave(false); return Error::NotEnoughSamples; }
        if (!out->space()) { obs.leave(false); return Error::NotEnoughSpaceOrSamples; }
        E a, b; size_t m = take<E>(x, &a, 1, style), k = take<E>(y, &b, 1, style);
        MC_CHECK(m == 1 && k == 1, "data-vanished", "an input that reported a sample gave none");
        MC_CHECK(a.whole() && b.whole(), "torn", "half-written sample");
        E r(a.v() * 1000 + b.v()); m = put(*out, &r, 1, style);
        MC_CHECK(m == 1, "room-vanished", "an output that reported room refused a sample");
        obs.leave(true); return cler::Empty{};
    }
};
template <class E> struct Sink : cler::BlockBase {
    cler::Channel<E> in; int style; Obs obs; long steps = 0; uint64_t got = 0; uint64_t (*want)(uint64_t); uint64_t total;
    Sink(const char* n, size_t cap, int s, uint64_t k, uint64_t (*w)(uint64_t)) : BlockBase(n), in(cap), style(s), want(w), total(k) {}
    Res procedure() {
        obs.enter(name()); steps++; if (Error e = injected(name(), obs.calls); e != Error::OK) { obs.leave(false); return e; }
        E d[2]; size_t m = take<E>(in, d, 2, style);
        for (size_t i = 0; i < m; ++i) {
            MC_CHECK(d[i].whole(), "torn", "%s received a half-written sample", name());
            MC_CHECK(got < total, "extra", "%s received %lu samples, only %lu were sent", name(), (unsigned long)got + 1, (unsigned long)total);
            uint64_t e = want(got + 1);
            MC_CHECK(d[i].v() == e, "stream", "%s received %lu as sample %lu, expected %lu", name(), (unsigned long)d[i].v(), (unsigned long)got + 1, (unsigned long)e);
            NoRace n; got++;
        }
        obs.leave(m);
        if (!m) return Error::NotEnoughSamples;
        return cler::Empty{};
    }
    bool done() { NoRace n; return got >= total; }
    uint64_t seen() { NoRace n; return got; }
};
static uint64_t ident(uint64_t i) { return i; }
static uint64_t joined(uint64_t i) { return i * 1000 + i; }
static uint64_t joined2(uint64_t i) { return i * 1000 + 500 + i; }

// drive: run to completion, or stop after the first sample and run again with another configuration
template <class FG, class... S> void drive(FG& fg, const std::vector<cler::FlowGraphConfig>& cfgs, S&... sinks) {
    for (size_t r = 0; r < cfgs.size(); ++r) {
        fg.run(cfgs[r]);
        bool last = r + 1 == cfgs.size();
        while (last ? !(sinks.done() && ...) : !((sinks.seen() > 0) || ...)) yield();
        fg.stop();
    }
}
template <class S> void fin1(S& s) { MC_CHECK(s.got == s.total && s.in.size() == 0, "incomplete", "%s ended with %lu of %lu samples, %zu still queued", s.name(), (unsigned long)s.got, (unsigned long)s.total, s.in.size()); }
template <class E, class... S> void finish(S&... sinks) { (fin1(sinks), ...); }

enum Topo { CHAIN2, CHAIN3, FANOUT, FANIN, DIAMOND, CHAIN4, NTOPO };
static const char* tn[] = {"source>sink", "source>pass>sink", "source>fan>(sink,sink)", "(source,source)>join>sink", "source>fan>(pass,pass)>join>sink", "source>pass>pass>sink"};
using cler::BlockRunner;
template <class Policy, class E> void topo(int t, int style, size_t cap, uint64_t K, const std::vector<cler::FlowGraphConfig>& cfgs) {
    auto go = [&](auto& fg, auto&... s) { drive(fg, cfgs, s...); finish<E>(s...); };
    switch (t) {
        case CHAIN2: { Src<E> a("src", style, K); Sink<E> z("sink", cap, style, K, ident); cler::FlowGraph<Policy, BlockRunner<Src<E>, cler::ChannelBase<E>>, BlockRunner<Sink<E>>> fg(BlockRunner(&a, &z.in), BlockRunner(&z)); go(fg, z); break; }
        case CHAIN3: { Src<E> a("src", style, K); Pass<E> p("pass", cap, style); Sink<E> z("sink", cap, style, K, ident);
            cler::FlowGraph<Policy, BlockRunner<Src<E>, cler::ChannelBase<E>>, BlockRunner<Pass<E>, cler::ChannelBase<E>>, BlockRunner<Sink<E>>> fg(BlockRunner(&a, &p.in), BlockRunner(&p, &z.in), BlockRunner(&z)); go(fg, z); break; }
        case CHAIN4: { Src<E> a("src", style, K); Pass<E> p("pass", cap, style), q("pass2", cap, style); Sink<E> z("sink", cap, style, K, ident);
            // listed out of stream order: workers get non-adjacent blocks
            cler::FlowGraph<Policy, BlockRunner<Sink<E>>, BlockRunner<Src<E>, cler::ChannelBase<E>>, BlockRunner<Pass<E>, cler::ChannelBase<E>>, BlockRunner<Pass<E>, cler::ChannelBase<E>>> fg(BlockRunner(&z), BlockRunner(&a, &p.in), BlockRunner(&q, &z.in), BlockRunner(&p, &q.in)); go(fg, z); break; }
        case FANOUT: { Src<E> a("src", style, K); Fan<E> f("fan", cap, style); Sink<E> y("sinkA", cap, style, K, ident), z("sinkB", cap, style, K, ident);
            cler::FlowGraph<Policy, BlockRunner<Src<E>, cler::ChannelBase<E>>, BlockRunner<Fan<E>, cler::ChannelBase<E>, cler::ChannelBase<E>>, BlockRunner<Sink<E>>, BlockRunner<Sink<E>>> fg(BlockRunner(&a, &f.in), BlockRunner(&f, &y.in, &z.in), BlockRunner(&y), BlockRunner(&z)); go(fg, y, z); break; }
        case FANIN: { Src<E> a("srcA", style, K), b("srcB", style, K, 500); Join<E> j("join", cap, style); Sink<E> z("sink", cap, style, K, joined2);
            cler::FlowGraph<Policy, BlockRunner<Src<E>, cler::ChannelBase<E>>, BlockRunner<Src<E>, cler::ChannelBase<E>>, BlockRunner<Join<E>, cler::ChannelBase<E>>, BlockRunner<Sink<E>>> fg(BlockRunner(&a, &j.x), BlockRunner(&b, &j.y), BlockRunner(&j, &z.in), BlockRunner(&z)); go(fg, z); break; }
        case DIAMOND: { Src<E> a("src", style, K); Fan<E> f("fan", cap, style); Pass<E> p("passA", cap, style), q("passB", cap, style); Join<E> j("join", cap, style); Sink<E> z("sink", cap, style, K, joined);
            cler::FlowGraph<Policy, BlockRunner<Src<E>, cler::ChannelBase<E>>, BlockRunner<Fan<E>, cler::ChannelBase<E>, cler::ChannelBase<E>>, BlockRunner<Pass<E>, cler::ChannelBase<E>>, BlockRunner<Pass<E>, cler::ChannelBase<E>>, BlockRunner<Join<E>, cler::ChannelBase<E>>, BlockRunner<Sink<E>>>
                fg(BlockRunner(&a, &f.in), BlockRunner(&f, &p.in, &q.in), BlockRunner(&p, &j.x), BlockRunner(&q, &j.y), BlockRunner(&j, &z.in), BlockRunner(&z)); go(fg, z); break; }
    }
}
