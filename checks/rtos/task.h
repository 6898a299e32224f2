#pragma once
#include "FreeRTOS.h"
typedef enum { eRunning = 0, eReady, eBlocked, eSuspended, eDeleted, eInvalid } eTaskState;
inline void rtos_frt_entry(void* f, void* p, void*) { ((TaskFunction_t)f)(p); }
inline BaseType_t xTaskCreate(TaskFunction_t f, const char*, configSTACK_DEPTH_TYPE, void* p, UBaseType_t, TaskHandle_t* h) {
    rtos::visible();
    if (rtos::refuse()) return errCOULD_NOT_ALLOCATE_REQUIRED_MEMORY;
    rtos::KObj& o = rtos::make(rtos::THREAD, nullptr, false);
    { mc::NoRace r; o.fn = rtos_frt_entry; o.a[0] = (void*)f; o.a[1] = p; }
    if (h) *h = (TaskHandle_t)&o;
    rtos::start(o);
    return pdPASS;
}
inline TaskHandle_t xTaskGetCurrentTaskHandle() { return rtos::current(); }
inline void vTaskDelete(TaskHandle_t h) {
    if (!h) { rtos::end_self(); return; }
    rtos::visible();
    rtos::KObj& o = rtos::get(h, rtos::THREAD, "vTaskDelete");
    rtos::kill(o);
}
inline eTaskState eTaskGetState(TaskHandle_t h) { rtos::visible(); rtos::KObj& o = rtos::get(h, rtos::THREAD, "eTaskGetState"); mc::NoRace r; return o.done ? eDeleted : eReady; }
inline void vTaskDelay(TickType_t t) { { mc::NoRace r; rtos::K.ticks_slept += t; } if (t) rtos::sleep_ns((uint64_t)t * 1000000ull); else mc::yield(); }
inline void taskYIELD() { mc::yield(); }
inline void vTaskSuspend(TaskHandle_t h) { if (h && h != rtos::current()) mc::fail("unsupported", "vTaskSuspend of another task"); for (;;) rtos::sleep_ns(1000000); }
inline TickType_t xTaskGetTickCount() { return (TickType_t)(mc::now_ns() / 1000000ull); }
inline BaseType_t xTaskNotifyGive(TaskHandle_t h) { rtos::KObj& o = rtos::get(h, rtos::THREAD, "xTaskNotifyGive"); rtos::lock(o); { mc::NoRace r; o.notif++; } pthread_cond_broadcast(&o.c); rtos::unlock(o); return pdPASS; }
#define taskENTER_CRITICAL() rtos::visible()
#define taskEXIT_CRITICAL() rtos::visible()
