// Shared pieces of the flowgraph checks (F01-F08): scripted blocks, a recording task policy, N-block graphs.
#pragma once
#include "mc.hpp"
#include "cler.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include <thread>
#include <vector>
#include <string>
#include <memory>
#include <utility>

using Res = cler::Result<cler::Empty, cler::Error>;
using cler::Error;

// What a block saw; harness bookkeeping (not race-checked).
struct Ev { int thread; Error r; double t; int sleeps_from; };
struct Obs {
    int inside = 0; long calls = 0, ok = 0, err = 0; int thread = -1; uint64_t t_first = 0, t_last = 0;
    void enter(const char* who) {
        mc::NoRace n;
        MC_CHECK(inside == 0, "concurrent-step", "the step of block %s is executed by two threads at once", who);
        inside++; calls++; thread = mc::self(); t_last = mc::now_ns(); if (calls == 1) t_first = t_last;
    }
    void leave(bool good) { mc::NoRace n; inside--; if (good) ok++; else err++; t_last = mc::now_ns(); }
};

// Logs every task-policy operation a flowgraph performs, per thread.
struct PolicyLog {
    std::vector<std::pair<int, size_t>> sleeps;    // (thread, us)
    std::vector<int> relaxes, pins;
    uint64_t relax_ns = 0;
};
inline PolicyLog* g_plog = nullptr;
struct RecPolicy : cler::DesktopTaskPolicy {
    static void sleep_us(size_t us) {
        { mc::NoRace n; if (g_plog) g_plog->sleeps.push_back({mc::self(), us}); }
        cler::DesktopTaskPolicy::sleep_us(us);
    }
    static void relax() {
        { mc::NoRace n; if (g_plog && g_plog->relax_ns) mc::advance_ns(g_plog->relax_ns); }
        cler::DesktopTaskPolicy::sleep_us(1);
    }
    static void pin_to_core(size_t w) { mc::NoRace n; if (g_plog) g_plog->pins.push_back((int)w); }
};

// A block without channels whose every step is decided by the harness.
struct ScriptBlock : cler::BlockBase {
    int idx; void* ctx; Error (*fn)(void*, ScriptBlock&); Obs obs; long plain_steps = 0;   // plain_steps is race-checked
    ScriptBlock(const char* nm, int i, void* c, Error (*f)(void*, ScriptBlock&)) : BlockBase(nm), idx(i), ctx(c), fn(f) {}
    Res procedure() {
        obs.enter(name());
        plain_steps++;
        Error e = fn(ctx, *this);
        obs.leave(e == Error::OK);
        if (e == Error::OK) return cler::Empty{};
        return e;
    }
};
inline const char* blkname(int i) { static const char* n[] = {"b0","b1","b2","b3","b4","b5","b6","b7","b8","b9","b10","b11","b12","b13","b14","b15","b16","b17","b18","b19","b20","b21","b22","b23","b24","b25","b26","b27","b28","b29","b30","b31"}; return n[i & 31]; }

template <size_t> using SB = cler::BlockRunner<ScriptBlock>;
template <class Policy, class Seq> struct GraphOf;
template <class Policy, size_t... I> struct GraphOf<Policy, std::index_sequence<I...>> {
    using type = cler::FlowGraph<Policy, SB<I>...>;
    static std::unique_ptr<type> make(std::vector<std::unique_ptr<ScriptBlock>>& b) { return std::make_unique<type>(SB<I>(b[I].get())...); }
};
template <class Policy, size_t N> struct NGraph {
    using G = GraphOf<Policy, std::make_index_sequence<N>>;
    std::vector<std::unique_ptr<ScriptBlock>> blocks;
    std::unique_ptr<typename G::type> fg;
    NGraph(void* ctx, Error (*fn)(void*, ScriptBlock&)) {
        for (size_t i = 0; i < N; ++i) blocks.push_back(std::make_unique<ScriptBlock>(blkname((int)i), (int)i, ctx, fn));
        fg = G::make(blocks);
    }
    long min_calls() { mc::NoRace n; long m = 1L << 60; for (auto& b : blocks) if (b->obs.calls < m) m = b->obs.calls; return m; }
};

inline cler::FlowGraphConfig fcfg(bool pool, size_t workers, size_t batch, bool adaptive = false, bool stats = false, bool pin = false) {
    cler::FlowGraphConfig c;
    c.scheduler = pool ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock;
    c.num_workers = workers; c.max_calls_per_tick = batch; c.adaptive_sleep = adaptive; c.collect_detailed_stats = stats; c.pin_workers = pin;
    return c;
}
inline std::string cfgstr(const cler::FlowGraphConfig& c) {
    char b[160]; snprintf(b, sizeof b, "%s workers=%zu batch=%zu%s%s%s", c.scheduler == cler::SchedulerType::FixedThreadPool ? "pool" : "thread-per-block", c.num_workers, c.max_calls_per_tick,
        c.adaptive_sleep ? " adaptive" : "", c.collect_detailed_stats ? " stats" : "", c.pin_workers ? " pinned" : ""); return b;
}
inline const char* ename(Error e) { return e == Error::OK ? "OK" : cler::to_str(e); }
