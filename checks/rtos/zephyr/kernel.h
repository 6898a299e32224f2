// Zephyr API subset over the checked kernel model.
#pragma once
#include "../rtos.hpp"
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
struct k_thread {
    unsigned char pad[64] = {};
    k_thread() {} ~k_thread() { rtos::cb_gone(this, rtos::THREAD, false); }
    k_thread(const k_thread&) {} k_thread& operator=(const k_thread&) { rtos::cb_gone(this, rtos::THREAD, false); return *this; }
};
typedef struct k_thread k_thread_t;
typedef struct k_thread* k_tid_t;
struct k_sem {
    unsigned char pad[24] = {};
    k_sem() {} ~k_sem() { rtos::cb_gone(this, rtos::SEM, false); }
    k_sem(const k_sem&) {} k_sem& operator=(const k_sem&) { rtos::cb_gone(this, rtos::SEM, false); return *this; }
};
typedef struct k_sem k_sem_t;
typedef char k_thread_stack_t;
typedef int32_t k_timeout_t;
#define K_NO_WAIT 0
#define K_FOREVER (-1)
#define K_MSEC(ms) ((int32_t)(ms))
inline int64_t k_uptime_get() { return (int64_t)(mc::now_ns() / 1000000ull); }
inline void k_yield() { mc::yield(); }
inline int32_t k_usleep(int32_t us) { rtos::sleep_ns((uint64_t)us * 1000ull); return 0; }
inline int32_t k_msleep(int32_t ms) { rtos::sleep_ns((uint64_t)ms * 1000000ull); return 0; }
inline int32_t k_sleep(k_timeout_t ms) { return k_msleep(ms); }
inline int k_sem_init(k_sem* s, unsigned init, unsigned limit) {
    rtos::visible();
    mc::NoRace r; rtos::KObj* e = rtos::find(s, rtos::SEM); if (e && e->waiters) mc::fail("sem-reinit", "a semaphore is initialised again while a task waits for it");
    if (!e) e = &rtos::make(rtos::SEM, s, true);
    e->count = (int)init; e->limit = (int)limit; return 0;
}
inline void k_sem_give(k_sem* s) { rtos::give(rtos::get(s, rtos::SEM, "k_sem_give")); }
inline int k_sem_take(k_sem* s, k_timeout_t t) { return rtos::take(rtos::get(s, rtos::SEM, "k_sem_take"), t == K_FOREVER, t > 0 ? (uint64_t)t * 1000000ull : 0) ? 0 : -EAGAIN; }
inline void k_sem_reset(k_sem* s) { rtos::KObj& o = rtos::get(s, rtos::SEM, "k_sem_reset"); rtos::lock(o); { mc::NoRace r; o.count = 0; } rtos::unlock(o); }
inline unsigned k_sem_count_get(k_sem* s) { rtos::visible(); mc::NoRace r; return (unsigned)rtos::get(s, rtos::SEM, "k_sem_count_get").count; }
inline void k_sem_deinit(k_sem* s) { rtos::del_sem(rtos::get(s, rtos::SEM, "k_sem_deinit")); }
inline int k_thread_create(k_thread* t, k_thread_stack_t* stk, size_t stkn, void (*f)(void*, void*, void*), void* a, void* b, void* c, int, uint32_t, k_timeout_t) {
    rtos::visible();
    { mc::NoRace r; rtos::KObj* e = rtos::find(t, rtos::THREAD); if (e && !e->done) mc::fail("control-block-lost", "a thread is created over the control block of a running thread"); if (e) e->alive = false; }
    rtos::KObj& o = rtos::make(rtos::THREAD, t, true);
    { mc::NoRace r; o.fn = f; o.a[0] = a; o.a[1] = b; o.a[2] = c; o.returns_ok = true; o.cb = (volatile unsigned char*)t; o.cbn = sizeof *t; o.stk = (volatile unsigned char*)stk; o.stkn = stkn; }
    rtos::start(o);
    return 0;
}
inline int k_thread_join(k_thread* t, k_timeout_t w) { return rtos::join(rtos::get(t, rtos::THREAD, "k_thread_join"), w != K_NO_WAIT) ? 0 : -EBUSY; }
inline void k_thread_abort(k_thread* t) { rtos::visible(); rtos::kill(rtos::get(t, rtos::THREAD, "k_thread_abort")); }
inline k_tid_t k_current_get() { rtos::KObj* o = rtos::current(); return o ? (k_tid_t)o->addr : nullptr; }
inline int k_thread_name_set(k_tid_t, const char*) { return 0; }
inline void k_thread_join_and_destroy(k_thread* t) { if (t) k_thread_join(t, K_FOREVER); }
