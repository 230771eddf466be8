#pragma once
#include "flint.h"
typedef slong fmpz;
typedef fmpz fmpz_t[1];
#define COEFF_MAX ((WORD(1) << 62) - WORD(1))
#define COEFF_MIN (-((WORD(1) << 62) - WORD(1)))
#define COEFF_IS_MPZ(x) (((x) >> 62) == WORD(1))
#ifdef __cplusplus
extern "C" {
#endif
void fmpz_init(fmpz_t x);
void fmpz_init_set(fmpz_t x, const fmpz_t y);
void fmpz_clear(fmpz_t x);
void fmpz_set(fmpz_t x, const fmpz_t y);
void fmpz_swap(fmpz_t x, fmpz_t y);
void fmpz_zero(fmpz_t x);
void fmpz_one(fmpz_t x);
void fmpz_set_si(fmpz_t x, slong v);
void fmpz_set_ui(fmpz_t x, ulong v);
int fmpz_set_str(fmpz_t x, const char *s, int base);
char *fmpz_get_str(char *buf, int base, const fmpz_t x);
int fmpz_fits_si(const fmpz_t x);
slong fmpz_get_si(const fmpz_t x);
void fmpz_neg(fmpz_t x, const fmpz_t y);
void fmpz_abs(fmpz_t x, const fmpz_t y);
void fmpz_add(fmpz_t x, const fmpz_t a, const fmpz_t b);
void fmpz_add_si(fmpz_t x, const fmpz_t a, slong b);
void fmpz_add_ui(fmpz_t x, const fmpz_t a, ulong b);
void fmpz_sub(fmpz_t x, const fmpz_t a, const fmpz_t b);
void fmpz_sub_si(fmpz_t x, const fmpz_t a, slong b);
void fmpz_sub_ui(fmpz_t x, const fmpz_t a, ulong b);
void fmpz_mul(fmpz_t x, const fmpz_t a, const fmpz_t b);
void fmpz_mul_si(fmpz_t x, const fmpz_t a, slong b);
void fmpz_mul_ui(fmpz_t x, const fmpz_t a, ulong b);
void fmpz_addmul(fmpz_t x, const fmpz_t a, const fmpz_t b);
void fmpz_addmul_si(fmpz_t x, const fmpz_t a, slong b);
void fmpz_submul(fmpz_t x, const fmpz_t a, const fmpz_t b);
void fmpz_submul_si(fmpz_t x, const fmpz_t a, slong b);
void fmpz_divexact(fmpz_t x, const fmpz_t a, const fmpz_t b);
void fmpz_divexact_si(fmpz_t x, const fmpz_t a, slong b);
int fmpz_divisible(const fmpz_t a, const fmpz_t b);
void fmpz_tdiv_q(fmpz_t x, const fmpz_t a, const fmpz_t b);
void fmpz_fdiv_q(fmpz_t x, const fmpz_t a, const fmpz_t b);
void fmpz_gcd(fmpz_t x, const fmpz_t a, const fmpz_t b);
void fmpz_lcm(fmpz_t x, const fmpz_t a, const fmpz_t b);
int fmpz_cmp(const fmpz_t a, const fmpz_t b);
int fmpz_cmp_si(const fmpz_t a, slong b);
int fmpz_cmp_ui(const fmpz_t a, ulong b);
int fmpz_cmpabs(const fmpz_t a, const fmpz_t b);
int fmpz_equal(const fmpz_t a, const fmpz_t b);
int fmpz_equal_si(const fmpz_t a, slong b);
int fmpz_equal_ui(const fmpz_t a, ulong b);
int fmpz_sgn(const fmpz_t a);
int fmpz_is_zero(const fmpz_t a);
int fmpz_is_one(const fmpz_t a);
int fmpz_is_pm1(const fmpz_t a);
#ifdef __cplusplus
}
#endif
