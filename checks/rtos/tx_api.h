// ThreadX API subset over the checked kernel model (1 ms tick).
#pragma once
#include "rtos.hpp"
#include <stdint.h>
#include <stddef.h>
typedef void VOID; typedef char CHAR;
typedef unsigned long ULONG;
typedef unsigned char UCHAR;
typedef unsigned int UINT;
#define TX_SUCCESS 0
#define TX_DELETED 0x01
#define TX_NO_INSTANCE 0x0D
#define TX_NO_MEMORY 0x10
#define TX_THREAD_ERROR 0x0E
#define TX_SEMAPHORE_ERROR 0x0C
#define TX_DELETE_ERROR 0x11
#define TX_AUTO_START 1
#define TX_DONT_START 0
#define TX_NO_TIME_SLICE 0
#define TX_NO_WAIT 0UL
#define TX_WAIT_FOREVER 0xFFFFFFFFUL
#define TX_TIMER_TICKS_PER_SECOND 1000UL
#define TX_READY 0
#define TX_COMPLETED 1
#define TX_TERMINATED 2
#define TX_NULL nullptr
struct TX_THREAD {
    ULONG tx_thread_id = 0; UINT tx_thread_state = 0; unsigned char pad[48] = {};
    TX_THREAD() {} ~TX_THREAD() { rtos::cb_gone(this, rtos::THREAD, true); }
    TX_THREAD(const TX_THREAD&) {} TX_THREAD& operator=(const TX_THREAD&) { rtos::cb_gone(this, rtos::THREAD, true); return *this; }
};
struct TX_SEMAPHORE {
    ULONG tx_semaphore_id = 0; unsigned char pad[24] = {};
    TX_SEMAPHORE() {} ~TX_SEMAPHORE() { rtos::cb_gone(this, rtos::SEM, true); }
    TX_SEMAPHORE(const TX_SEMAPHORE&) {} TX_SEMAPHORE& operator=(const TX_SEMAPHORE&) { rtos::cb_gone(this, rtos::SEM, true); return *this; }
};
inline UINT tx_semaphore_create(TX_SEMAPHORE* s, CHAR*, ULONG init) {
    rtos::visible();
    if (rtos::refuse()) return TX_NO_MEMORY;
    { mc::NoRace r; if (rtos::find(s, rtos::SEM)) return TX_SEMAPHORE_ERROR; }
    rtos::KObj& o = rtos::make(rtos::SEM, s, true); mc::NoRace r; o.count = (int)init; o.limit = 1 << 30; o.must_delete = true; s->tx_semaphore_id = 1; return TX_SUCCESS;
}
inline UINT tx_semaphore_get(TX_SEMAPHORE* s, ULONG w) { return rtos::take(rtos::get(s, rtos::SEM, "tx_semaphore_get"), w == TX_WAIT_FOREVER, (uint64_t)w * 1000000ull) ? TX_SUCCESS : TX_NO_INSTANCE; }
inline UINT tx_semaphore_put(TX_SEMAPHORE* s) { rtos::give(rtos::get(s, rtos::SEM, "tx_semaphore_put")); return TX_SUCCESS; }
inline UINT tx_semaphore_delete(TX_SEMAPHORE* s) { rtos::del_sem(rtos::get(s, rtos::SEM, "tx_semaphore_delete")); return TX_SUCCESS; }
inline void rtos_tx_entry(void* f, void* p, void*) { ((void (*)(ULONG))f)((ULONG)p); }
inline UINT tx_thread_resume(TX_THREAD* t) { rtos::KObj& o = rtos::get(t, rtos::THREAD, "tx_thread_resume"); bool s; { mc::NoRace r; s = o.started; } if (!s) rtos::start(o); return TX_SUCCESS; }
inline UINT tx_thread_create(TX_THREAD* t, CHAR*, void (*f)(ULONG), ULONG in, void* stk, ULONG stkn, UINT, UINT, ULONG, UINT autostart) {
    rtos::visible();
    if (rtos::refuse()) return TX_NO_MEMORY;
    { mc::NoRace r; if (rtos::find(t, rtos::THREAD)) return TX_THREAD_ERROR; }
    if (!stk || !stkn) return 0x05;
    rtos::KObj& o = rtos::make(rtos::THREAD, t, true);
    { mc::NoRace r; o.fn = rtos_tx_entry; o.a[0] = (void*)f; o.a[1] = (void*)in; o.must_delete = true; o.returns_ok = true; o.cb = (volatile unsigned char*)t; o.cbn = sizeof *t; o.stk = (volatile unsigned char*)stk; o.stkn = stkn; t->tx_thread_id = 1; }
    if (autostart) rtos::start(o);
    return TX_SUCCESS;
}
inline UINT tx_thread_terminate(TX_THREAD* t) { rtos::visible(); rtos::kill(rtos::get(t, rtos::THREAD, "tx_thread_terminate")); return TX_SUCCESS; }
inline UINT tx_thread_delete(TX_THREAD* t) {
    rtos::visible(); rtos::KObj& o = rtos::get(t, rtos::THREAD, "tx_thread_delete"); mc::NoRace r;
    if (!o.done) return TX_DELETE_ERROR;
    o.alive = false; o.must_delete = false; return TX_SUCCESS;
}
inline UINT tx_thread_info_get(TX_THREAD* t, CHAR** name, UINT* st, ULONG* rc, UINT*, UINT*, ULONG*, TX_THREAD**, TX_THREAD**) {
    rtos::visible(); rtos::KObj& o = rtos::get(t, rtos::THREAD, "tx_thread_info_get"); mc::NoRace r; if (name) *name = nullptr; if (st) *st = o.done ? TX_COMPLETED : TX_READY; if (rc) *rc = 1; return TX_SUCCESS;
}
inline TX_THREAD* tx_thread_identify() { rtos::KObj* o = rtos::current(); return o ? (TX_THREAD*)o->addr : nullptr; }
inline void tx_thread_relinquish() { mc::yield(); }
inline UINT tx_thread_sleep(ULONG t) { { mc::NoRace r; rtos::K.ticks_slept += (long)t; } rtos::sleep_ns((uint64_t)t * 1000000ull); return TX_SUCCESS; }
inline ULONG tx_time_get() { return (ULONG)(mc::now_ns() / 1000000ull); }
