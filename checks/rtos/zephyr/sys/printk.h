#pragma once
#include <stdio.h>
#define printk printf
