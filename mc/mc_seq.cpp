// Stand-in for mc_thr.cpp in sequential harnesses.
#include "mc.hpp"
#include "mc_int.hpp"
#include <cstdio>
#include <unistd.h>
#include <sys/syscall.h>
namespace mc {
void thr_run(const Opts&, const std::function<void()>&) { fprintf(stderr, "mc: threads not linked\n"); _exit(4); }
bool thr_active() { return false; }
void thr_abandon() { _exit(4); }
void thr_init() {}
void rt_enter() {}
void rt_exit() {}
int raw_clock_gettime(clockid_t c, timespec* t) { return (int)syscall(SYS_clock_gettime, c, t); }
}
