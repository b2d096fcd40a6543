#pragma once
#include <stddef.h>
enum { ACC_R = 0, ACC_W = 1, ACC_A = 2, ACC_AR = 3 };           // ACC_A: atomic store or read-modify-write, ACC_AR: atomic load
extern "C" void (*g_access)(const void*, size_t, int);
extern "C" void (*g_sync)(const void*, int, int);                  // after an atomic operation: address (0: fence), 1 load | 2 store, memory order
