#pragma once
#include <zephyr/kernel.h>
