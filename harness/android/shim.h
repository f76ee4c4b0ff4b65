// Makes the sources believe that they are built for Android (and, with HAS_ARM_MTE, for hardware with
// memory tagging). Included before everything else.
#ifndef VF_ANDROID_SHIM_H
#define VF_ANDROID_SHIM_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#undef __GLIBC__
#undef __GLIBC_MINOR__

#ifdef HAS_ARM_MTE
// the instructions of the architecture, emulated by the harness; the guard of the real header
#define ARM_MTE_H
#ifndef PROT_MTE
#define PROT_MTE 0x20
#endif
extern void *emu_random_tag(void *p, uint64_t exclusion_mask);
extern void emu_tag_and_clear(void *tagged_ptr, size_t len);
extern void *emu_memcpy(void *d, const void *s, size_t n);
extern void *emu_memmove(void *d, const void *s, size_t n);
extern void *emu_memset(void *d, int c, size_t n);
static inline void *arm_mte_create_random_tag(void *p, uint64_t mask) { return emu_random_tag(p, mask); }
static inline void arm_mte_tag_and_clear_mem(void *p, size_t n) { emu_tag_and_clear(p, n); }
#ifndef VF_HARNESS
// dereferences of tagged pointers fault here, the library functions accept them
#define memcpy(d, s, n) emu_memcpy(d, s, n)
#define memmove(d, s, n) emu_memmove(d, s, n)
#define memset(d, c, n) emu_memset(d, c, n)
#endif
#endif
#endif
