// what Android's malloc.h has for the allocator
#ifndef VF_ANDROID_MALLOC_H
#define VF_ANDROID_MALLOC_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
struct mallinfo { size_t arena, ordblks, smblks, hblks, hblkhd, usmblks, fsmblks, uordblks, fordblks, keepcost; };
#define M_DECAY_TIME (-100)
#define M_PURGE (-101)
#define M_PURGE_ALL (-104)
#define M_MEMTAG_TUNING (-102)
#endif
