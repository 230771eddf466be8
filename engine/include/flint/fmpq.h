#pragma once
#include "fmpz.h"
typedef struct { fmpz num; fmpz den; } fmpq;
typedef fmpq fmpq_t[1];
#define fmpq_numref(x) (&(x)->num)
#define fmpq_denref(x) (&(x)->den)
#ifdef __cplusplus
extern "C" {
#endif
void fmpq_init(fmpq_t x);
void fmpq_clear(fmpq_t x);
void fmpq_set(fmpq_t x, const fmpq_t y);
void fmpq_swap(fmpq_t x, fmpq_t y);
void fmpq_zero(fmpq_t x);
void fmpq_one(fmpq_t x);
void fmpq_set_si(fmpq_t x, slong p, ulong q);
void fmpq_set_fmpz(fmpq_t x, const fmpz_t p);
void fmpq_set_fmpz_frac(fmpq_t x, const fmpz_t p, const fmpz_t q);
int fmpq_set_str(fmpq_t x, const char *s, int base);
char *fmpq_get_str(char *buf, int base, const fmpq_t x);
void fmpq_canonicalise(fmpq_t x);
int fmpq_is_canonical(const fmpq_t x);
void fmpq_neg(fmpq_t x, const fmpq_t y);
void fmpq_abs(fmpq_t x, const fmpq_t y);
void fmpq_inv(fmpq_t x, const fmpq_t y);
#define FQ3(op) \
    void fmpq_##op(fmpq_t x, const fmpq_t a, const fmpq_t b); \
    void fmpq_##op##_fmpz(fmpq_t x, const fmpq_t a, const fmpz_t b);
FQ3(add) FQ3(sub) FQ3(mul) FQ3(div)
#undef FQ3
void fmpq_add_si(fmpq_t x, const fmpq_t a, slong b);
void fmpq_add_ui(fmpq_t x, const fmpq_t a, ulong b);
void fmpq_sub_si(fmpq_t x, const fmpq_t a, slong b);
void fmpq_sub_ui(fmpq_t x, const fmpq_t a, ulong b);
void fmpq_mul_si(fmpq_t x, const fmpq_t a, slong b);
void fmpq_mul_ui(fmpq_t x, const fmpq_t a, ulong b);
void fmpq_addmul(fmpq_t x, const fmpq_t a, const fmpq_t b);
void fmpq_submul(fmpq_t x, const fmpq_t a, const fmpq_t b);
int fmpq_cmp(const fmpq_t a, const fmpq_t b);
int fmpq_cmp_fmpz(const fmpq_t a, const fmpz_t b);
int fmpq_cmp_si(const fmpq_t a, slong b);
int fmpq_cmp_ui(const fmpq_t a, ulong b);
int fmpq_equal(const fmpq_t a, const fmpq_t b);
int fmpq_equal_fmpz(const fmpq_t a, const fmpz_t b);
int fmpq_equal_si(const fmpq_t a, slong b);
int fmpq_equal_ui(const fmpq_t a, ulong b);
int fmpq_sgn(const fmpq_t a);
int fmpq_is_zero(const fmpq_t a);
int fmpq_is_one(const fmpq_t a);
#ifdef __cplusplus
}
#endif
