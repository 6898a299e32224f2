// F09: the embedded task policies over a checked RTOS kernel model.
#include "flow.hpp"
#include "rtos/rtos.hpp"
#include "task_policies/cler_freertos_tpolicy.hpp"
#include "task_policies/cler_threadx_tpolicy.hpp"
#include "task_policies/cler_zephyr_tpolicy.hpp"
using namespace mc;

struct Probe { int runs = 0, done = 0, inside = 0; long data = 0; std::atomic<int> go{0}; int live = 0; };
struct Fn {
    Probe* p; int kind; int* heap; void (*slp)(size_t); void (*yld)();
    Fn(Probe* p_, int k, void (*s)(size_t), void (*y)()) : p(p_), kind(k), heap(new int(41)), slp(s), yld(y) { NoRace r; p->live++; }
    Fn(const Fn& o) : p(o.p), kind(o.kind), heap(new int(*o.heap)), slp(o.slp), yld(o.yld) { NoRace r; p->live++; }
    ~Fn() { *heap = 0; delete heap; NoRace r; p->live--; }
    void operator()() {
        { NoRace r; p->runs++; if (p->runs > 1) fail("ran-twice", "a task function is executed twice"); }
        long v = *heap;
        if (kind == 1) yld();
        if (kind == 2) while (!p->go.load(std::memory_order_acquire)) yld();
        if (kind == 3) slp(1500);
        p->data = v + *heap;
        NoRace r; p->done++;
    }
};
template <class P> struct Run {
    using T = typename P::task_type;
    static constexpr int S = 3, NT = 3;
    Probe pr[NT]; int nt = 0; std::string hist;
    T* slot[S]; int task[S];         // which task a slot holds: -1 default constructed, -2 moved from, -3 joined
    bool made[NT]; int kind[NT];
    Run() { for (int i = 0; i < S; ++i) { slot[i] = new T{}; task[i] = -1; } }
    void say(const char* f, int a, int b = 0) { char s[80]; snprintf(s, sizeof s, f, a, b); hist += s; note("%s", hist.c_str()); }
    void create(int s, int k) {
        say(" create(slot%d,kind%d)", s, k);
        int t = nt++; kind[t] = k; int before; { NoRace r; before = rtos::K.ok_threads; }
        { Fn f(&pr[t], k, &P::sleep_us, &P::yield); *slot[s] = P::create_task(f); }
        { NoRace r; made[t] = rtos::K.ok_threads > before; MC_CHECK(rtos::K.ok_threads - before <= 1, "two-tasks", "history%s: one create_task created two tasks", hist.c_str()); }
        task[s] = t;
    }
    void join(int s) {
        say(" join(slot%d)", s);
        if (task[s] >= 0 && kind[task[s]] == 2) pr[task[s]].go.store(1, std::memory_order_release);
        P::join_task(*slot[s]);
        if (task[s] >= 0) {
            Probe& p = pr[task[s]];
            { NoRace r; MC_CHECK(p.done == (made[task[s]] ? 1 : 0), "join-too-early", "history%s: join returned but the task function has %s", hist.c_str(), p.done ? "run although it was refused" : "not finished"); }
            if (made[task[s]]) MC_CHECK(p.data == 82, "lost-effects", "history%s: what the task wrote is not there after the join", hist.c_str());
        }
        if (task[s] >= 0 || task[s] == -3) task[s] = -3;
    }
    void move(int a, int b) { say(" move(slot%d->slot%d)", a, b); *slot[b] = std::move(*slot[a]); task[b] = task[a]; task[a] = -2; }
    void remake(int a, int b) {      // move-construct
        say(" moveconstruct(slot%d->slot%d)", a, b); delete slot[b]; slot[b] = new T(std::move(*slot[a])); task[b] = task[a]; task[a] = -2;
        delete slot[a]; slot[a] = new T{}; task[a] = -1;
    }
    void finish() {
        for (int s = 0; s < S; ++s) if (task[s] >= 0) join(s);
        for (int s = 0; s < S; ++s) delete slot[s];
        rtos::finish(hist.c_str()); while (live_threads()) yield();
        NoRace r;
        { NoRace n; }
        for (int t = 0; t < nt; ++t) {
            MC_CHECK(pr[t].runs == (made[t] ? 1 : 0), "run-count", "history%s: task %d ran %d times", hist.c_str(), t, pr[t].runs);
            MC_CHECK(pr[t].live == 0, "leaked-function", "history%s: %d copies of the task function are never destroyed", hist.c_str(), pr[t].live);
        }
    }
};
// Every history over: create in a slot, join, move, move-construct; at most NT tasks; with the f-th RTOS creation refused.
template <class P> static void ops(const char* pn, int len, int maxt, int kinds, int bound, bool refusals) {
    for (int first = 0; first < kinds * (refusals ? 5 : 1); ++first) {
        char nm[100]; snprintf(nm, sizeof nm, "%s ops len=%d tasks=%d kind=%d refuse=%d b%d", pn, len, maxt, first % kinds, first / kinds, bound);
        scenario(nm, [=] {
            sample("%s", nm);
            Opts o; o.threads = true; o.bound = bound; o.stale = bound ? 1 : 0; o.spin_limit = 6; o.slice = 40; o.max_steps = 4000;
            explore(o, [=] {
                rtos::reset(); { NoRace r; rtos::K.fail_at = first / kinds; }
                size_t base = live_allocs();
                {
                    Run<P> R;
                    std::vector<std::string> dummy;
                    R.create(0, first % kinds);
                    for (int i = 1; i < len; ++i) {
                        struct Op { int k, a, b; }; Op ops[24]; int n = 0;
                        ops[n++] = {9, 0, 0};
                        int idle = -1; for (int s = 0; s < 3; ++s) if (R.task[s] < 0) { idle = s; break; }
                        if (R.nt < maxt && idle >= 0) for (int k = 0; k < kinds; ++k) ops[n++] = {0, idle, k};
                        if (R.nt < maxt) for (int s = 0; s < 3; ++s) if (s != idle && R.task[s] < 0 && R.task[s] != -1) ops[n++] = {0, s, 0};
                        bool dflt = false;
                        for (int s = 0; s < 3; ++s) if (R.task[s] >= 0 || R.task[s] == -3 || (R.task[s] == -1 && !dflt)) { if (R.task[s] == -1) dflt = true; ops[n++] = {1, s, 0}; }
                        for (int s = 0; s < 3; ++s) if (R.task[s] >= 0 && idle >= 0) { ops[n++] = {2, s, idle}; ops[n++] = {3, s, idle}; }
                        Op p = ops[choose(n)];
                        if (p.k == 9) break;
                        if (p.k == 0) R.create(p.a, p.b); else if (p.k == 1) R.join(p.a); else if (p.k == 2) R.move(p.a, p.b); else R.remake(p.a, p.b);
                    }
                    R.finish();
                    { NoRace r; outcome(hmix(std::hash<std::string>()(R.hist), steps())); }
                }
                MC_CHECK(live_allocs() == base, "leaked-memory", "%zd heap blocks are never released", (ssize_t)(live_allocs() - base));
            });
        });
    }
}
// A whole flowgraph on the policy: run, stop (twice), run again, destroy.
struct GCtx { int calls[4] = {}; bool allowed = false; };
static Error gstep(void* c, ScriptBlock& b) {
    NoRace r; GCtx& g = *(GCtx*)c;
    MC_CHECK(g.allowed, "ran-after-stop", "block b%d executed while the flowgraph is stopped", b.idx);
    g.calls[b.idx]++;
    return g.calls[b.idx] % 2 ? Error::OK : Error::NotEnoughSamples;
}
template <class P, size_t N> static void graph(const char* pn, bool pool, int bound, int runs) {
    char nm[100]; snprintf(nm, sizeof nm, "%s flowgraph of %zu, %s, %d runs b%d", pn, N, pool ? "pool" : "thread-per-block", runs, bound);
    scenario(nm, [=] {
        sample("%s", nm);
        Opts o; o.threads = true; o.bound = bound; o.stale = bound ? 1 : 0; o.spin_limit = 6; o.slice = 40; o.max_steps = 8000;
        explore(o, [=] {
            rtos::reset(); GCtx g; size_t base = live_allocs();
            {
                NGraph<P, N> G(&g, gstep);
                for (int r = 0; r < runs; ++r) {
                    { NoRace n; g.allowed = true; for (int& c : g.calls) c = 0; }
                    int before; { NoRace n; before = rtos::K.ok_threads; }
                    G.fg->run(fcfg(pool, 2, 2));
                    { NoRace n; size_t want = pool && N > 2 ? 2 : N; MC_CHECK(rtos::K.ok_threads - before == (int)want, "task-count", "%d tasks instead of %zu were created", rtos::K.ok_threads - before, want); }
                    int w = choose(3);
                    if (w) for (;;) { bool all = true; { NoRace n; for (size_t i = 0; i < N; ++i) if (g.calls[i] < w) all = false; } if (all) break; yield(); }
                    if (r + 1 == runs && choose(2)) break;
                    G.fg->stop();
                    { NoRace n; g.allowed = false; }
                    if (choose(2)) G.fg->stop();
                }
                G.fg.reset();
                { NoRace n; g.allowed = false; }
                long s = 0; for (auto& b : G.blocks) s += b->plain_steps; (void)s;
                rtos::finish("flowgraph"); while (live_threads()) yield();
                
            }
            { NoRace n; outcome(hmix(steps(), 1)); }
            MC_CHECK(live_allocs() == base, "leaked-memory", "%zd heap blocks are never released", (ssize_t)(live_allocs() - base));
        });
    });
}
template <class P> static void all(const char* pn) {
    bool T = thorough();
    ops<P>(pn, 4, 2, 4, 0, true);
    ops<P>(pn, 3, 2, 3, 1, true); ops<P>(pn, 4, 2, 2, 1, true);
    ops<P>(pn, 2, 1, 4, 4, false); ops<P>(pn, 3, 2, 2, 2, false);
    ops<P>(pn, 6, 3, 1, 0, true);
    graph<P, 2>(pn, false, 1, 2); graph<P, 3>(pn, true, 1, 2); graph<P, 1>(pn, false, 2, 2); graph<P, 2>(pn, false, 2, 1);
    if (T) { ops<P>(pn, 4, 2, 3, 2, true); ops<P>(pn, 6, 3, 2, 0, true); ops<P>(pn, 3, 2, 4, 3, false); graph<P, 2>(pn, false, 2, 2); graph<P, 3>(pn, true, 2, 2); graph<P, 4>(pn, true, 1, 3); }
}
static void setup() { all<cler::FreeRTOSTaskPolicy>("freertos"); all<cler::ThreadXTaskPolicy>("threadx"); all<cler::ZephyrTaskPolicy>("zephyr"); }
MC_MAIN(setup)
