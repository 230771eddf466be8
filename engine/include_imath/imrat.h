// Declarations of the part of IMath's documented rational interface that may be used.
#pragma once
#include "imath.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
    mpz_t num;
    mpz_t den;
} mpq_t, *mp_rat;
mp_result mp_rat_init(mp_rat r);
mp_result mp_rat_init_copy(mp_rat r, mp_rat old);
mp_result mp_rat_set_value(mp_rat r, mp_small numer, mp_small denom);
void mp_rat_clear(mp_rat r);
mp_result mp_rat_reduce(mp_rat r);
mp_result mp_rat_copy(mp_rat a, mp_rat c);
void mp_rat_zero(mp_rat r);
mp_result mp_rat_numer(mp_rat r, mp_int z);
mp_int mp_rat_numer_ref(mp_rat r);
mp_result mp_rat_denom(mp_rat r, mp_int z);
mp_int mp_rat_denom_ref(mp_rat r);
mp_sign mp_rat_sign(mp_rat r);
mp_result mp_rat_abs(mp_rat a, mp_rat c);
mp_result mp_rat_neg(mp_rat a, mp_rat c);
mp_result mp_rat_recip(mp_rat a, mp_rat c);
mp_result mp_rat_add(mp_rat a, mp_rat b, mp_rat c);
mp_result mp_rat_sub(mp_rat a, mp_rat b, mp_rat c);
mp_result mp_rat_mul(mp_rat a, mp_rat b, mp_rat c);
mp_result mp_rat_div(mp_rat a, mp_rat b, mp_rat c);
mp_result mp_rat_add_int(mp_rat a, mp_int b, mp_rat c);
mp_result mp_rat_sub_int(mp_rat a, mp_int b, mp_rat c);
mp_result mp_rat_mul_int(mp_rat a, mp_int b, mp_rat c);
mp_result mp_rat_div_int(mp_rat a, mp_int b, mp_rat c);
int mp_rat_compare(mp_rat a, mp_rat b);
int mp_rat_compare_unsigned(mp_rat a, mp_rat b);
int mp_rat_compare_zero(mp_rat r);
int mp_rat_compare_value(mp_rat r, mp_small n, mp_small d);
int mp_rat_is_integer(mp_rat r);
mp_result mp_rat_to_string(mp_rat r, mp_size radix, char *str, int limit);
mp_result mp_rat_string_len(mp_rat r, mp_size radix);
mp_result mp_rat_read_string(mp_rat r, mp_size radix, const char *str);
#ifdef __cplusplus
}
#endif
