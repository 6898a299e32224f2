// mc: a small stateless/explicit-state model checker that runs the real code.
//
//  * mc::explore(opts, body): runs `body` once per point of a choice tree, depth first, re-executing from
//    the start with a recorded prefix.  Choices come from mc::choose (environment, always exhaustive),
//    mc::deviate (environment, charged against the deviation bound) and, in threaded mode, from the
//    scheduler (which thread executes the next visible operation) and from the memory model (which of the
//    stores that C++ allows does an atomic load read).
//  * mc_main: distributes registered scenarios over worker processes, catches crashes, replays every
//    violation in a fresh process before reporting it, and writes a JSON summary.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <initializer_list>

namespace mc {

struct Opts {
    int  bound = 2;            // deviation bound (preemptions + stale reads + deviate())
    int  stale = 2;            // at most this many stale reads in one execution
    bool full = false;         // threads: all interleavings (sleep sets), no preemption bound
    bool free_switch = false;  // threads: alternatives at a blocking/yielding point are free
    bool threads = false;      // threads: run body under the controlled scheduler
    bool races = true;         // threads: report data races on plain accesses
    bool fork_each = false;    // run every execution in its own forked process
    bool iterate = true;       // iterate the bound 0,1,..,bound (fewest-deviation counterexample first)
    uint64_t max_execs = 0;    // 0 = no cap for this scenario
    uint64_t max_steps = 20000;// visible operations per execution; beyond it the execution has hung
    bool hang_is_violation = true;
    int slice = 600;           // visible operations after which a thread is made to yield
    int spin_limit = 200;      // consecutive loads without a store before a thread is forced to yield
};

// ---- exploration
void explore(const Opts& o, const std::function<void()>& body);
int  choose(int n);                       // exhaustive environment choice 0..n-1
int  deviate(int n);                      // 0 is the default answer, others cost one deviation
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void prune();                             // abandon this execution (not a violation); does not return in threaded mode
void count_eval(uint64_t n = 1);          // sequential enumerations outside explore()
void count_trans(uint64_t n = 1);
void state(uint64_t hash);                // record a visited state
void outcome(uint64_t hash);              // record an observed outcome (vacuity guard)
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));     // what is being checked (reported on a crash)
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));    // printed on replay
bool replaying();
bool thorough();
bool out_of_time();
bool known(const char* key);              // is this key a listed known finding (call after detecting it)

#define MC_CHECK(cond, key, ...) do { if (!(cond)) ::mc::fail(key, __VA_ARGS__); } while (0)

// ---- scenarios
void scenario(std::string name, std::function<void()> fn);
int  main_(int argc, char** argv, void (*setup)());
#define MC_MAIN(setup) int main(int argc, char** argv) { return ::mc::main_(argc, argv, setup); }

inline uint64_t hmix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}

// ---- threaded mode (mc_thr.cpp)
int  self();                              // thread id of the running thread (0 = body)
int  stale_used();                        // stale reads consumed so far in this execution
uint64_t steps();                         // visible operations so far in this execution
void yield();                             // cooperative yield
uint64_t now_ns();                        // virtual time
void advance_ns(uint64_t ns);
void set_sleep_hook(void (*fn)(uint64_t ns));   // called for every sleep with its duration
void set_create_hook(int (*fn)());        // called at every thread creation; nonzero = creation fails with that errno
void step_wall_clock(int64_t ns);         // step CLOCK_REALTIME (the monotonic clock is unaffected)
size_t live_allocs();                     // operator-new blocks of this execution not yet deleted
bool in_execution();
int  live_threads();                      // created and not finished (without the body)
int  unjoined_threads();
int  total_threads();
bool thread_finished(int tid);
void kill_thread(int tid);                // the thread never executes another instruction (no destructors run)
[[noreturn]] void exit_thread();          // the calling thread ends here (no destructors run)
void ghost(const void* addr, bool write);  // harness-level shared bookkeeping as a visible operation (full mode)
struct NoRace { NoRace(); ~NoRace(); };   // harness bookkeeping: plain accesses are not race-checked
}
