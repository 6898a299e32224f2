// stand-in for liquid-dsp's private header (not installed here): the modem uses only the error helper from it
#pragma once
#include <complex.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "liquid.h"
#ifndef liquid_error
int liquid_error_fl(int code, const char* file, int line, const char* fmt, ...);
#define liquid_error(code, ...) liquid_error_fl(code, __FILE__, __LINE__, __VA_ARGS__)
#endif
