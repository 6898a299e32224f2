#pragma once
#include "mc.hpp"
#include <csetjmp>
#include <ctime>
namespace mc {
enum { K_ENV = 1, K_DEV, K_SCHED, K_STALE };
struct Node { int n, chosen, kind; bool cost; bool freefirst; int nfree; int dev_before, stale_before; };
struct Explorer {
    Opts o; std::vector<Node> stack; int pos = 0, dev = 0, stale = 0, cur_bound = 0;
    bool pruned = false, replay_mode = false, seq_active = false, hit_bound = false;
    uint64_t last_count = 0; jmp_buf jb, scen_jb; char forkfile[64];
    int pick(int n, int kind, bool cost, int nfree = 0);
};
extern Explorer X;
void thr_run(const Opts& o, const std::function<void()>& body);
bool thr_active();
[[noreturn]] void thr_abandon();
void thr_init();
void rt_enter();
void rt_exit();
struct RtGuard { RtGuard() { rt_enter(); } ~RtGuard() { rt_exit(); } };
void note_steps(uint64_t n);
int raw_clock_gettime(clockid_t c, timespec* t);
}
