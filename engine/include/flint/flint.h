// Stand-in for FLINT's API used while symbolically executing the real code: same
// function contracts, exact arithmetic, symbolic values (see ../../flint_stub.cc).
#pragma once
#include <stddef.h>
#include <stdio.h>
typedef long slong;
typedef unsigned long ulong;
#define __FLINT_VERSION 3
#define __FLINT_VERSION_MINOR 0
#define __FLINT_VERSION_PATCHLEVEL 1
#define __FLINT_RELEASE 30001
#define FLINT_VERSION "3.0.1"
#define WORD(x) (x##L)
#define UWORD(x) (x##UL)
#ifdef __cplusplus
extern "C" {
#endif
void flint_free(void *p);
void *flint_malloc(size_t n);
void flint_cleanup(void);
#ifdef __cplusplus
}
#endif
