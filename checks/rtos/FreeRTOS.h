// FreeRTOS API subset over the checked kernel model (1 ms tick).
#pragma once
#include "rtos.hpp"
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <new>
typedef void* TaskHandle_t;
typedef void* SemaphoreHandle_t;
typedef void* QueueHandle_t;
typedef uint32_t TickType_t;
typedef long BaseType_t;
typedef unsigned long UBaseType_t;
typedef uint32_t StackType_t;
typedef void (*TaskFunction_t)(void*);
#define configSTACK_DEPTH_TYPE uint16_t
#define configTICK_RATE_HZ 1000
#define configMINIMAL_STACK_SIZE 128
#define configASSERT(x) do { if (!(x)) mc::fail("configASSERT", "configASSERT(%s)", #x); } while (0)
#define pdFALSE 0
#define pdTRUE 1
#define pdFAIL 0
#define pdPASS 1
#define errCOULD_NOT_ALLOCATE_REQUIRED_MEMORY (-1)
#define portMAX_DELAY 0xFFFFFFFFu
#define portTICK_PERIOD_MS 1
#define tskIDLE_PRIORITY 0
#define pdMS_TO_TICKS(ms) ((TickType_t)(ms))
inline void* pvPortMalloc(size_t n) { return operator new(n); }
inline void vPortFree(void* p) { operator delete(p); }
