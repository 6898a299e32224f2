// A small RTOS kernel model on top of mc's threads: semaphores and threads are kernel objects whose lifetime is
// tracked, so that use of an object that was never created, was deleted, was moved in memory or whose memory is
// released while the kernel still uses it is reported.  FreeRTOS.h, tx_api.h and zephyr/kernel.h sit on top.
#pragma once
#include "mc.hpp"
#include <pthread.h>
#include <cstdint>
#include <cstddef>
#include <cstring>

namespace rtos {
enum Kind { SEM = 1, THREAD = 2 };
struct KObj {
    Kind kind; bool alive; const void* addr; pthread_mutex_t m; pthread_cond_t c;
    int count, limit, waiters;                                   // semaphore
    int tid; bool started, done; void (*fn)(void*, void*, void*); void* a[3]; volatile unsigned char* cb; size_t cbn; volatile unsigned char* stk; size_t stkn;
    bool byaddr, must_delete, self_end; bool returns_ok; int notif;
};
struct Kernel { KObj o[64]; int n = 0; int creates = 0, ok_threads = 0; int fail_at = 0; long ticks_slept = 0; int inside[32]; };
inline Kernel K;
inline void reset() { mc::NoRace r; memset((void*)&K, 0, sizeof K); }

inline KObj* find(const void* a, Kind k) { for (int i = 0; i < K.n; ++i) if (K.o[i].alive && K.o[i].kind == k && K.o[i].addr == a) return &K.o[i]; return nullptr; }
inline KObj& get(const void* a, Kind k, const char* what) {
    mc::NoRace r;
    KObj* o = find(a, k);
    if (!o) {
        for (int i = 0; i < K.n; ++i) if (K.o[i].kind == k && K.o[i].addr == a) mc::fail("deleted-object", "%s on a %s that was already deleted", what, k == SEM ? "semaphore" : "thread");
        mc::fail("unknown-object", "%s on a %s that does not exist at this address (never created, or its control block was moved or copied)", what, k == SEM ? "semaphore" : "thread");
    }
    return *o;
}
inline bool refuse() { mc::NoRace r; return ++K.creates == K.fail_at; }
inline void visible() { mc::ghost(&K.n, true); }
inline KObj& make(Kind k, const void* a, bool byaddr) {
    mc::NoRace r;
    if (K.n >= 64) mc::fail("harness", "too many kernel objects");
    KObj& o = K.o[K.n++]; o.kind = k; o.alive = true; o.addr = byaddr ? a : (const void*)&o; o.byaddr = byaddr;
    return o;
}
// the memory of a control block goes away
inline void cb_gone(const void* a, Kind k, bool kernel_keeps_it) {
    if (!mc::in_execution()) return;
    mc::NoRace r;
    KObj* o = find(a, k); if (!o || !o->byaddr) return;
    if (k == THREAD) { if (!o->done || o->must_delete) mc::fail("control-block-lost", "the control block of a thread is destroyed or overwritten while the kernel still uses it"); }
    else {
        if (o->waiters) mc::fail("control-block-lost", "a semaphore is destroyed while a task waits for it");
        if (kernel_keeps_it) mc::fail("control-block-lost", "the control block of a semaphore is destroyed or overwritten before the semaphore is deleted");
    }
    o->alive = false;
}
inline void enter() { mc::NoRace r; K.inside[mc::self()]++; }
inline void leave() { mc::NoRace r; K.inside[mc::self()]--; }
inline int cwait(KObj& o) { leave(); int rc = pthread_cond_wait(&o.c, &o.m); enter(); return rc; }
inline void lock(KObj& o) { pthread_mutex_lock(&o.m); enter(); if (!o.alive) mc::fail("deleted-object", "a kernel object is used while it is being deleted"); }
inline void unlock(KObj& o) { pthread_mutex_unlock(&o.m); leave(); }
inline void give(KObj& o) {
    lock(o); { mc::NoRace r; if (o.count < o.limit) o.count++; } pthread_cond_signal(&o.c); unlock(o);
}
inline bool take(KObj& o, bool forever, uint64_t wait_ns) {
    lock(o);
    for (;;) {
        int c; { mc::NoRace r; c = o.count; }
        if (c > 0) { mc::NoRace r; o.count--; break; }
        if (!forever && wait_ns == 0) { unlock(o); return false; }
        { mc::NoRace r; o.waiters++; }
        if (forever) cwait(o);
        else { uint64_t t = mc::now_ns() + wait_ns; timespec ts{(time_t)(t / 1000000000ull), (long)(t % 1000000000ull)}; leave(); int rc = pthread_cond_clockwait(&o.c, &o.m, CLOCK_MONOTONIC, &ts); enter(); if (rc) wait_ns = 0; }
        { mc::NoRace r; o.waiters--; if (!o.alive) mc::fail("deleted-object", "a semaphore was deleted while a task waited for it"); }
    }
    unlock(o); return true;
}
inline void del_sem(KObj& o) {
    lock(o); { mc::NoRace r; if (o.waiters) mc::fail("deleted-while-waiting", "a semaphore is deleted while a task waits for it"); } unlock(o);
    mc::NoRace r; o.alive = false;
}
inline void touch(KObj& o) {
    mc::NoRace r;
    if (o.cb) { o.cb[0] = o.cb[0]; o.cb[o.cbn - 1] = o.cb[o.cbn - 1]; }
    if (o.stk) { o.stk[0] = 0xef; o.stk[o.stkn - 1] = 0xef; }
}
inline void thread_over(KObj& o) {     // called by the kernel when the thread has ended (returned, deleted itself, been killed)
    pthread_mutex_lock(&o.m); enter(); { mc::NoRace r; o.done = true; if (!o.byaddr) o.alive = false; } pthread_cond_broadcast(&o.c); unlock(o);
}
inline void* trampoline(void* p) {
    KObj& o = *(KObj*)p;
    touch(o);
    o.fn(o.a[0], o.a[1], o.a[2]);
    touch(o);
    if (!o.returns_ok) mc::fail("task-returned", "a task function returned without deleting its task");
    thread_over(o);
    return nullptr;
}
inline void start(KObj& o) {
    { mc::NoRace r; o.started = true; K.ok_threads++; o.tid = mc::total_threads() + 1; }
    pthread_t t; pthread_create(&t, nullptr, trampoline, &o); pthread_detach(t);
}
inline KObj* current() { mc::NoRace r; for (int i = 0; i < K.n; ++i) if (K.o[i].kind == THREAD && K.o[i].started && !K.o[i].done && K.o[i].tid == mc::self()) return &K.o[i]; return nullptr; }
inline void end_self() { KObj* o = current(); if (!o) mc::fail("harness", "end of a thread that is not a task"); touch(*o); thread_over(*o); mc::exit_thread(); }
inline void kill(KObj& o) {
    bool d; { mc::NoRace r; d = o.done; } if (d) return;
    if (current() == &o) end_self();
    bool st; { mc::NoRace r; st = o.started; }
    if (st) {
        for (;;) { int in; { mc::NoRace r; in = K.inside[o.tid]; d = o.done; } if (d) return; if (!in) break; mc::yield(); }   // kernel calls are not interrupted
        mc::kill_thread(o.tid);
        if (K.inside[o.tid]) mc::fail("harness", "killed inside the kernel");
    }
    thread_over(o);
}
inline bool join(KObj& o, bool forever) {
    lock(o);
    for (;;) { bool d; { mc::NoRace r; d = o.done; } if (d) break; if (!forever) { unlock(o); return false; } cwait(o); }
    unlock(o); return true;
}
// end of an execution: every kernel object released?
inline void finish(const char* what) {
    for (int i = 0; i < K.n; ++i) {
        KObj& o = K.o[i];
        if (o.kind == THREAD && o.started) {
            for (int k = 0;; ++k) { bool d; { mc::NoRace r; d = o.done; } if (d) break; mc::yield(); }
        }
        mc::NoRace r;
        if (o.kind == SEM && o.alive && o.must_delete) mc::fail("leaked-semaphore", "%s: a semaphore was never deleted", what);
        if (o.kind == THREAD && o.alive && o.must_delete) mc::fail("leaked-thread", "%s: a thread was never deleted", what);
    }
}
inline void sleep_ns(uint64_t ns) { timespec ts{(time_t)(ns / 1000000000ull), (long)(ns % 1000000000ull)}; nanosleep(&ts, nullptr); }
}
