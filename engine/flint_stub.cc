// Symbolic stand-in for the FLINT functions the code under test calls.
#include "sym.hh"
#include "num.hh"

#include <flint/fmpq.h>
#include <flint/fmpz.h>

#include <cstdlib>
#include <cstring>

using namespace se;

namespace {

struct Obj {
    LP p;
    bool used = false;
};
std::vector<Obj> &objs() {
    static auto *v = new std::vector<Obj>(1);
    return *v;
}
std::vector<slong> &freelist() {
    static auto *v = new std::vector<slong>();
    return *v;
}

bool is_handle(slong x) { return COEFF_IS_MPZ(x); }
slong index_of(slong x) { return x ^ (WORD(1) << 62); }

LP get(slong x) {
    if (!is_handle(x)) {
        return LP(x);
    }
    auto i = index_of(x);
    if (i <= 0 || i >= static_cast<slong>(objs().size()) || !objs()[i].used) {
        fail("use of a dead or corrupted number object");
    }
    return objs()[i].p;
}
LP get(const fmpz *x) { return get(*x); }

void release(fmpz *x) {
    if (is_handle(*x)) {
        auto i = index_of(*x);
        if (i > 0 && i < static_cast<slong>(objs().size()) && objs()[i].used) {
            objs()[i].used = false;
            objs()[i].p = LP();
            freelist().push_back(i);
        } else {
            fail("number object released twice");
        }
    }
    *x = 0;
}

void put(fmpz *x, LP p) {
    op_tick();
    if (p.is_const() && p.cval().get_den() == 1) {
        Z v = p.cval().get_num();
        if (v.fits_slong_p()) {
            slong s = v.get_si();
            if (COEFF_MIN <= s && s <= COEFF_MAX) {
                release(x);
                *x = s;
                return;
            }
        }
    }
    slong i = 0;
    if (is_handle(*x)) {
        i = index_of(*x);
    } else if (!freelist().empty()) {
        i = freelist().back();
        freelist().pop_back();
    } else {
        i = static_cast<slong>(objs().size());
        objs().emplace_back();
    }
    objs()[i].used = true;
    objs()[i].p = std::move(p);
    *x = i | (WORD(1) << 62);
}

bool small(const fmpz *x) { return !is_handle(*x); }

//! Native operand; a leaked handle behaves as in FLINT: the value if it is
//! small and some pointer pattern (at least 2^62) otherwise.
LP native(slong v) {
    if (is_handle(v) && index_of(v) > 0 && index_of(v) < static_cast<slong>(objs().size()) && objs()[index_of(v)].used) {
        LP p = get(v);
        Z lim = Z(1) << 62;
        if (sign(p - LP(lim)) < 0 && sign(p + LP(lim)) > 0) {
            return p;
        }
        LP q = fresh("pointer");
        assume(rel(RF(q), ">=", RF(LP(lim))) && rel(RF(q), "<", RF(LP(Z(2 * lim)))));
        return q;
    }
    return from_native(v);
}

RF get(const fmpq *x) { return {get(&x->num), get(&x->den)}; }

void put(fmpq *x, RF v) {
    num::normalize(v);
    put(&x->num, v.n);
    put(&x->den, v.d);
}

char *dup(std::string const &s, char *buf) {
    if (buf == nullptr) {
        buf = static_cast<char *>(std::malloc(s.size() + 1));
    }
    std::strcpy(buf, s.c_str());
    return buf;
}

} // namespace

extern "C" {

void flint_free(void *p) { std::free(p); }
void *flint_malloc(size_t n) { return std::malloc(n); }
void flint_cleanup(void) {}

void fmpz_init(fmpz_t x) { *x = 0; }
void fmpz_init_set(fmpz_t x, const fmpz_t y) { *x = 0; put(x, get(y)); }
void fmpz_clear(fmpz_t x) { release(x); }
void fmpz_set(fmpz_t x, const fmpz_t y) {
    if (x == y) {
        return;
    }
    if (small(x) && small(y)) {
        *x = *y;
        return;
    }
    put(x, get(y));
}
void fmpz_swap(fmpz_t x, fmpz_t y) { std::swap(*x, *y); }
void fmpz_zero(fmpz_t x) { put(x, LP()); }
void fmpz_one(fmpz_t x) { put(x, LP(1)); }
void fmpz_set_si(fmpz_t x, slong v) { put(x, native(v)); }
void fmpz_set_ui(fmpz_t x, ulong v) { put(x, v <= 0x7fffffffffffffffUL ? native(static_cast<slong>(v)) : LP(Z(v))); }
int fmpz_set_str(fmpz_t x, const char *s, int base) {
    LP r;
    if (!num::parse_int(s, base, r)) {
        return -1;
    }
    put(x, r);
    return 0;
}
char *fmpz_get_str(char *buf, int, const fmpz_t x) { return dup(tagged_string(RF(get(x))), buf); }
int fmpz_fits_si(const fmpz_t x) { return num::fits(get(x), 64) ? 1 : 0; }
slong fmpz_get_si(const fmpz_t x) { return num::to_native(get(x), 64); }
void fmpz_neg(fmpz_t x, const fmpz_t y) { put(x, -get(y)); }
void fmpz_abs(fmpz_t x, const fmpz_t y) { auto p = get(y); put(x, sign(p) < 0 ? -p : p); }
void fmpz_add(fmpz_t x, const fmpz_t a, const fmpz_t b) { put(x, get(a) + get(b)); }
void fmpz_add_si(fmpz_t x, const fmpz_t a, slong b) { put(x, get(a) + native(b)); }
void fmpz_add_ui(fmpz_t x, const fmpz_t a, ulong b) { put(x, get(a) + native(static_cast<slong>(b))); }
void fmpz_sub(fmpz_t x, const fmpz_t a, const fmpz_t b) { put(x, get(a) - get(b)); }
void fmpz_sub_si(fmpz_t x, const fmpz_t a, slong b) { put(x, get(a) - native(b)); }
void fmpz_sub_ui(fmpz_t x, const fmpz_t a, ulong b) { put(x, get(a) - native(static_cast<slong>(b))); }
void fmpz_mul(fmpz_t x, const fmpz_t a, const fmpz_t b) { put(x, get(a) * get(b)); }
void fmpz_mul_si(fmpz_t x, const fmpz_t a, slong b) { put(x, get(a) * native(b)); }
void fmpz_mul_ui(fmpz_t x, const fmpz_t a, ulong b) { put(x, get(a) * native(static_cast<slong>(b))); }
void fmpz_addmul(fmpz_t x, const fmpz_t a, const fmpz_t b) { put(x, get(x) + get(a) * get(b)); }
void fmpz_addmul_si(fmpz_t x, const fmpz_t a, slong b) { put(x, get(x) + get(a) * native(b)); }
void fmpz_submul(fmpz_t x, const fmpz_t a, const fmpz_t b) { put(x, get(x) - get(a) * get(b)); }
void fmpz_submul_si(fmpz_t x, const fmpz_t a, slong b) { put(x, get(x) - get(a) * native(b)); }
void fmpz_divexact(fmpz_t x, const fmpz_t a, const fmpz_t b) { put(x, num::divexact(get(a), get(b))); }
void fmpz_divexact_si(fmpz_t x, const fmpz_t a, slong b) { put(x, num::divexact(get(a), native(b))); }
int fmpz_divisible(const fmpz_t a, const fmpz_t b) { return num::divisible(get(a), get(b)) ? 1 : 0; }
void fmpz_tdiv_q(fmpz_t x, const fmpz_t a, const fmpz_t b) { put(x, num::quotient(get(a), get(b), false)); }
void fmpz_fdiv_q(fmpz_t x, const fmpz_t a, const fmpz_t b) { put(x, num::quotient(get(a), get(b), true)); }
void fmpz_gcd(fmpz_t x, const fmpz_t a, const fmpz_t b) { put(x, num::gcd(get(a), get(b))); }
void fmpz_lcm(fmpz_t x, const fmpz_t a, const fmpz_t b) {
    auto p = get(a);
    auto q = get(b);
    if (is_zero(p) || is_zero(q)) {
        put(x, LP());
        return;
    }
    auto g = num::gcd(p, q);
    auto r = num::divexact(p, g) * q;
    put(x, sign(r) < 0 ? -r : r);
}
int fmpz_cmp(const fmpz_t a, const fmpz_t b) { return sign(get(a) - get(b)); }
int fmpz_cmp_si(const fmpz_t a, slong b) { return sign(get(a) - native(b)); }
int fmpz_cmp_ui(const fmpz_t a, ulong b) { return sign(get(a) - native(static_cast<slong>(b))); }
int fmpz_cmpabs(const fmpz_t a, const fmpz_t b) {
    auto p = get(a);
    auto q = get(b);
    return sign((sign(p) < 0 ? -p : p) - (sign(q) < 0 ? -q : q));
}
int fmpz_equal(const fmpz_t a, const fmpz_t b) { return num::equal(get(a), get(b)) ? 1 : 0; }
int fmpz_equal_si(const fmpz_t a, slong b) { return num::equal(get(a), native(b)) ? 1 : 0; }
int fmpz_equal_ui(const fmpz_t a, ulong b) { return num::equal(get(a), native(static_cast<slong>(b))) ? 1 : 0; }
int fmpz_sgn(const fmpz_t a) { return sign(get(a)); }
int fmpz_is_zero(const fmpz_t a) { return num::equal(get(a), LP()) ? 1 : 0; }
int fmpz_is_one(const fmpz_t a) { return num::equal(get(a), LP(1)) ? 1 : 0; }
int fmpz_is_pm1(const fmpz_t a) { return num::equal(get(a), LP(1)) || num::equal(get(a), LP(-1)) ? 1 : 0; }

void fmpq_init(fmpq_t x) { x->num = 0; x->den = 1; }
void fmpq_clear(fmpq_t x) { release(&x->num); release(&x->den); }
void fmpq_set(fmpq_t x, const fmpq_t y) { fmpz_set(&x->num, &y->num); fmpz_set(&x->den, &y->den); }
void fmpq_swap(fmpq_t x, fmpq_t y) { std::swap(x->num, y->num); std::swap(x->den, y->den); }
void fmpq_zero(fmpq_t x) { put(x, RF(0)); }
void fmpq_one(fmpq_t x) { put(x, RF(1)); }
void fmpq_set_si(fmpq_t x, slong p, ulong q) { put(x, RF(native(p), native(static_cast<slong>(q)))); }
void fmpq_set_fmpz(fmpq_t x, const fmpz_t p) { put(x, RF(get(p))); }
void fmpq_set_fmpz_frac(fmpq_t x, const fmpz_t p, const fmpz_t q) { put(x, RF(get(p), get(q))); }
int fmpq_set_str(fmpq_t x, const char *s, int base) {
    // like FLINT: [-]digits[/[-]digits], canonicalised; zero denominator is an error
    auto bs = symrt::bytes(s);
    if (!bs.empty() && bs[0].id == 0 && bs[0].v == '@') {
        RF v;
        if (!parse_number(s, v)) {
            return -1;
        }
        put(x, v);
        return 0;
    }
    size_t pos = 0;
    while (pos < bs.size() && !symrt::is(bs[pos], '/')) {
        ++pos;
    }
    LP n;
    LP d = 1;
    if (!num::parse_int(std::vector<symrt::Byte>(bs.begin(), bs.begin() + pos), base, n)) {
        return -1;
    }
    if (pos < bs.size() && !num::parse_int(std::vector<symrt::Byte>(bs.begin() + pos + 1, bs.end()), base, d)) {
        return -1;
    }
    // FLINT 3.0.1 neither diagnoses a zero denominator nor reduces the fraction
    put(&x->num, n);
    put(&x->den, d);
    return 0;
}
char *fmpq_get_str(char *buf, int, const fmpq_t x) { return dup(tagged_string(get(x)), buf); }
void fmpq_canonicalise(fmpq_t x) { put(x, get(x)); }
int fmpq_is_canonical(const fmpq_t x) {
    auto v = get(x);
    auto w = v;
    num::normalize(w);
    return v.n == w.n && v.d == w.d ? 1 : 0;
}
void fmpq_neg(fmpq_t x, const fmpq_t y) { auto v = get(y); put(&x->num, -v.n); put(&x->den, v.d); }
void fmpq_abs(fmpq_t x, const fmpq_t y) {
    auto v = get(y);
    put(&x->num, sign(v.n) < 0 ? -v.n : v.n);
    put(&x->den, v.d);
}
void fmpq_inv(fmpq_t x, const fmpq_t y) { auto v = get(y); put(x, RF(v.d, v.n)); }

static RF rdiv(RF const &a, RF const &b) { return {a.n * b.d, a.d * b.n}; }
void fmpq_add(fmpq_t x, const fmpq_t a, const fmpq_t b) { put(x, get(a) + get(b)); }
void fmpq_sub(fmpq_t x, const fmpq_t a, const fmpq_t b) { put(x, get(a) - get(b)); }
void fmpq_mul(fmpq_t x, const fmpq_t a, const fmpq_t b) { put(x, get(a) * get(b)); }
void fmpq_div(fmpq_t x, const fmpq_t a, const fmpq_t b) { put(x, rdiv(get(a), get(b))); }
void fmpq_add_fmpz(fmpq_t x, const fmpq_t a, const fmpz_t b) { put(x, get(a) + RF(get(b))); }
void fmpq_sub_fmpz(fmpq_t x, const fmpq_t a, const fmpz_t b) { put(x, get(a) - RF(get(b))); }
void fmpq_mul_fmpz(fmpq_t x, const fmpq_t a, const fmpz_t b) { put(x, get(a) * RF(get(b))); }
void fmpq_div_fmpz(fmpq_t x, const fmpq_t a, const fmpz_t b) { put(x, rdiv(get(a), RF(get(b)))); }
void fmpq_add_si(fmpq_t x, const fmpq_t a, slong b) { put(x, get(a) + RF(native(b))); }
void fmpq_add_ui(fmpq_t x, const fmpq_t a, ulong b) { put(x, get(a) + RF(native(static_cast<slong>(b)))); }
void fmpq_sub_si(fmpq_t x, const fmpq_t a, slong b) { put(x, get(a) - RF(native(b))); }
void fmpq_sub_ui(fmpq_t x, const fmpq_t a, ulong b) { put(x, get(a) - RF(native(static_cast<slong>(b)))); }
void fmpq_mul_si(fmpq_t x, const fmpq_t a, slong b) { put(x, get(a) * RF(native(b))); }
void fmpq_mul_ui(fmpq_t x, const fmpq_t a, ulong b) { put(x, get(a) * RF(native(static_cast<slong>(b)))); }
void fmpq_addmul(fmpq_t x, const fmpq_t a, const fmpq_t b) { put(x, get(x) + get(a) * get(b)); }
void fmpq_submul(fmpq_t x, const fmpq_t a, const fmpq_t b) { put(x, get(x) - get(a) * get(b)); }
int fmpq_cmp(const fmpq_t a, const fmpq_t b) { return cmp(get(a), get(b)); }
int fmpq_cmp_fmpz(const fmpq_t a, const fmpz_t b) { return cmp(get(a), RF(get(b))); }
int fmpq_cmp_si(const fmpq_t a, slong b) { return cmp(get(a), RF(native(b))); }
int fmpq_cmp_ui(const fmpq_t a, ulong b) { return cmp(get(a), RF(native(static_cast<slong>(b)))); }
static int same(RF const &a, RF const &b) {
    if (a.n.is_const() && a.d.is_const() && b.n.is_const() && b.d.is_const()) {
        return a.n == b.n && a.d == b.d ? 1 : 0; // FLINT compares components
    }
    return num::equal(a.n * b.d, b.n * a.d) ? 1 : 0;
}
int fmpq_equal(const fmpq_t a, const fmpq_t b) { return same(get(a), get(b)); }
int fmpq_equal_fmpz(const fmpq_t a, const fmpz_t b) { return same(get(a), RF(get(b))); }
int fmpq_equal_si(const fmpq_t a, slong b) { return same(get(a), RF(native(b))); }
int fmpq_equal_ui(const fmpq_t a, ulong b) { return same(get(a), RF(native(static_cast<slong>(b)))); }
int fmpq_sgn(const fmpq_t a) { return sign(get(&a->num)); }
int fmpq_is_zero(const fmpq_t a) { return fmpz_is_zero(&a->num); }
int fmpq_is_one(const fmpq_t a) { return same(get(a), RF(1)); }
}
