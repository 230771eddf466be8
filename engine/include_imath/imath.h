// Declarations of the part of IMath's documented interface that may be used.
#pragma once
#include <stddef.h>
#ifdef __cplusplus
#define mpz_t se_imath_mpz_t
#define mpq_t se_imath_mpq_t
extern "C" {
#endif
typedef unsigned char mp_sign;
typedef unsigned int mp_size;
typedef int mp_result;
typedef long mp_small;
typedef unsigned long mp_usmall;
typedef unsigned int mp_digit;
typedef unsigned long mp_word;
typedef struct {
    mp_digit single;
    mp_digit *digits;
    mp_size alloc;
    mp_size used;
    mp_sign sign;
} mpz_t, *mp_int;
extern const mp_result MP_OK, MP_FALSE, MP_TRUE, MP_MEMORY, MP_RANGE, MP_UNDEF, MP_TRUNC, MP_BADARG, MP_MINERR;
#define MP_MIN_RADIX 2
#define MP_MAX_RADIX 36
mp_result mp_int_init(mp_int z);
mp_int mp_int_alloc(void);
mp_result mp_int_init_copy(mp_int z, mp_int old);
mp_result mp_int_init_value(mp_int z, mp_small value);
mp_result mp_int_set_value(mp_int z, mp_small value);
mp_result mp_int_set_uvalue(mp_int z, mp_usmall value);
void mp_int_clear(mp_int z);
void mp_int_free(mp_int z);
mp_result mp_int_copy(mp_int a, mp_int c);
void mp_int_swap(mp_int a, mp_int c);
void mp_int_zero(mp_int z);
mp_result mp_int_abs(mp_int a, mp_int c);
mp_result mp_int_neg(mp_int a, mp_int c);
mp_result mp_int_add(mp_int a, mp_int b, mp_int c);
mp_result mp_int_add_value(mp_int a, mp_small value, mp_int c);
mp_result mp_int_sub(mp_int a, mp_int b, mp_int c);
mp_result mp_int_sub_value(mp_int a, mp_small value, mp_int c);
mp_result mp_int_mul(mp_int a, mp_int b, mp_int c);
mp_result mp_int_mul_value(mp_int a, mp_small value, mp_int c);
mp_result mp_int_sqr(mp_int a, mp_int c);
mp_result mp_int_div(mp_int a, mp_int b, mp_int q, mp_int r);
mp_result mp_int_div_value(mp_int a, mp_small value, mp_int q, mp_small *r);
int mp_int_compare(mp_int a, mp_int b);
int mp_int_compare_unsigned(mp_int a, mp_int b);
int mp_int_compare_zero(mp_int z);
int mp_int_compare_value(mp_int z, mp_small v);
mp_result mp_int_gcd(mp_int a, mp_int b, mp_int c);
mp_result mp_int_lcm(mp_int a, mp_int b, mp_int c);
mp_result mp_int_to_int(mp_int z, mp_small *out);
mp_result mp_int_to_string(mp_int z, mp_size radix, char *str, int limit);
mp_result mp_int_string_len(mp_int z, mp_size radix);
mp_result mp_int_read_string(mp_int z, mp_size radix, const char *str);
const char *mp_error_string(mp_result res);
#ifdef __cplusplus
}
#endif
