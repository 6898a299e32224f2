#pragma once
#include "FreeRTOS.h"
inline SemaphoreHandle_t rtos_frt_sem(int init, int limit) {
    rtos::visible();
    if (rtos::refuse()) return nullptr;
    rtos::KObj& o = rtos::make(rtos::SEM, nullptr, false); mc::NoRace r; o.count = init; o.limit = limit; o.must_delete = true; return &o;
}
inline SemaphoreHandle_t xSemaphoreCreateBinary() { return rtos_frt_sem(0, 1); }
inline SemaphoreHandle_t xSemaphoreCreateMutex() { return rtos_frt_sem(1, 1); }
inline SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t max, UBaseType_t init) { return rtos_frt_sem((int)init, (int)max); }
inline void vSemaphoreDelete(SemaphoreHandle_t s) { rtos::del_sem(rtos::get(s, rtos::SEM, "vSemaphoreDelete")); }
inline BaseType_t xSemaphoreTake(SemaphoreHandle_t s, TickType_t w) { return rtos::take(rtos::get(s, rtos::SEM, "xSemaphoreTake"), w == portMAX_DELAY, (uint64_t)w * 1000000ull) ? pdPASS : pdFAIL; }
inline BaseType_t xSemaphoreGive(SemaphoreHandle_t s) { rtos::give(rtos::get(s, rtos::SEM, "xSemaphoreGive")); return pdPASS; }
inline UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t s) { rtos::visible(); mc::NoRace r; return (UBaseType_t)rtos::get(s, rtos::SEM, "uxSemaphoreGetCount").count; }
