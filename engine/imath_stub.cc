// Symbolic stand-in for IMath's documented contract.
#include "sym.hh"
#include "num.hh"

#include <imath.h>
#include <imrat.h>

#include <algorithm>
#include <cctype>
#include <cstring>

using namespace se;

extern "C" {
extern const mp_result MP_OK = 0;
extern const mp_result MP_FALSE = 0;
extern const mp_result MP_TRUE = -1;
extern const mp_result MP_MEMORY = -2;
extern const mp_result MP_RANGE = -3;
extern const mp_result MP_UNDEF = -4;
extern const mp_result MP_TRUNC = -5;
extern const mp_result MP_BADARG = -6;
extern const mp_result MP_MINERR = -6;
}

namespace {

struct Obj {
    LP p;
    bool used = false;
};
std::vector<Obj> &objs() {
    static auto *v = new std::vector<Obj>(1);
    return *v;
}
std::vector<unsigned> &freelist() {
    static auto *v = new std::vector<unsigned>();
    return *v;
}
constexpr unsigned magic = 0x1a7b;

Obj &at(mp_int x) {
    if (x == nullptr || x->alloc != magic || x->single == 0 || x->single >= objs().size() || !objs()[x->single].used) {
        fail("use of a dead or corrupted number object");
    }
    return objs()[x->single];
}
LP get(mp_int x) { return at(x).p; }
mp_result put(mp_int x, LP p) {
    op_tick();
    at(x).p = std::move(p);
    return MP_OK;
}
RF get(mp_rat x) { return {get(&x->num), get(&x->den)}; }
mp_result put(mp_rat x, RF v) {
    num::normalize(v);
    put(&x->num, v.n);
    return put(&x->den, v.d);
}
//! Numbers and known divisors.
std::vector<std::pair<LP, LP>> &known() {
    static auto *v = new std::vector<std::pair<LP, LP>>();
    return *v;
}
bool exact(LP const &a, LP const &b) {
    if (b == LP(1) || b == LP(-1) || a.is_zero() || a == b) {
        return true;
    }
    for (auto const &[x, y] : known()) {
        if (x == a && y == b) {
            return true;
        }
    }
    if (b.t.size() == 1 && !a.is_const()) {
        auto q = num::divexact(a, b);
        for (auto const &[m, c] : q.t) {
            if (c.get_den() != 1) {
                return false;
            }
            for (auto const &[v, e] : m) {
                if (e < 0) {
                    return false;
                }
            }
        }
        return true;
    }
    return false;
}
RF rdiv(RF const &a, RF const &b) { return {a.n * b.d, a.d * b.n}; }
mp_result out(std::string const &s, char *str, int limit) {
    if (limit < static_cast<int>(s.size()) + 1) {
        return MP_TRUNC;
    }
    std::strcpy(str, s.c_str());
    return MP_OK;
}
//! Reads a number and returns the remaining text; nullptr if there is none.
char const *read(mp_int z, mp_size radix, char const *str) {
    while (std::isspace(static_cast<unsigned char>(*str)) != 0) {
        ++str;
    }
    char const *e = str;
    if (std::strchr(str, '@') != nullptr) {
        e += std::strcspn(str, "/");
        std::string txt(str, e);
        LP r;
        if (!num::parse_int(txt.c_str(), static_cast<int>(radix), r)) {
            unsupported("number text " + txt);
        }
        put(z, r);
        return e;
    }
    if (*e == '-' || *e == '+') {
        ++e;
    }
    char const *b = e;
    while (*e >= '0' && *e <= '9' && *e - '0' < static_cast<int>(radix)) {
        ++e;
    }
    if (radix != 10) {
        unsupported("radix");
    }
    Q v = b == e ? Q(0) : Q(std::string(b, e), 10);
    put(z, LP(*str == '-' ? Q(-v) : v));
    return e;
}

} // namespace

extern "C" {

mp_result mp_int_init(mp_int z) {
    unsigned i = 0;
    if (!freelist().empty()) {
        i = freelist().back();
        freelist().pop_back();
    } else {
        i = objs().size();
        objs().emplace_back();
    }
    objs()[i].used = true;
    objs()[i].p = LP();
    z->single = i;
    z->digits = &z->single;
    z->alloc = magic;
    z->used = 1;
    z->sign = 0;
    return MP_OK;
}
mp_int mp_int_alloc() {
    auto *z = new se_imath_mpz_t;
    mp_int_init(z);
    return z;
}
mp_result mp_int_init_copy(mp_int z, mp_int old) { mp_int_init(z); return put(z, get(old)); }
mp_result mp_int_init_value(mp_int z, mp_small v) { mp_int_init(z); return put(z, from_native(v)); }
mp_result mp_int_set_value(mp_int z, mp_small v) { return put(z, from_native(v)); }
mp_result mp_int_set_uvalue(mp_int z, mp_usmall v) { return put(z, from_native(static_cast<mp_small>(v))); }
void mp_int_clear(mp_int z) {
    if (z == nullptr) {
        return;
    }
    if (z->digits == nullptr && z->alloc == magic) {
        return; // clearing twice is allowed
    }
    at(z).used = false;
    freelist().push_back(z->single);
    z->digits = nullptr;
    z->single = 0;
}
void mp_int_free(mp_int z) { mp_int_clear(z); delete z; }
mp_result mp_int_copy(mp_int a, mp_int c) { return a == c ? MP_OK : put(c, get(a)); }
void mp_int_swap(mp_int a, mp_int c) {
    at(a);
    at(c);
    std::swap(a->single, c->single);
}
void mp_int_zero(mp_int z) { put(z, LP()); }
mp_result mp_int_abs(mp_int a, mp_int c) { auto p = get(a); return put(c, sign(p) < 0 ? -p : p); }
mp_result mp_int_neg(mp_int a, mp_int c) { return put(c, -get(a)); }
mp_result mp_int_add(mp_int a, mp_int b, mp_int c) { return put(c, get(a) + get(b)); }
mp_result mp_int_add_value(mp_int a, mp_small v, mp_int c) { return put(c, get(a) + from_native(v)); }
mp_result mp_int_sub(mp_int a, mp_int b, mp_int c) { return put(c, get(a) - get(b)); }
mp_result mp_int_sub_value(mp_int a, mp_small v, mp_int c) { return put(c, get(a) - from_native(v)); }
mp_result mp_int_mul(mp_int a, mp_int b, mp_int c) { return put(c, get(a) * get(b)); }
mp_result mp_int_mul_value(mp_int a, mp_small v, mp_int c) { return put(c, get(a) * from_native(v)); }
mp_result mp_int_sqr(mp_int a, mp_int c) { return put(c, get(a) * get(a)); }
mp_result mp_int_div(mp_int a, mp_int b, mp_int q, mp_int r) {
    auto x = get(a);
    auto y = get(b);
    if (is_zero(y)) {
        return MP_UNDEF;
    }
    auto d = exact(x, y) ? num::divexact(x, y) : num::quotient(x, y, false);
    if (q != nullptr) {
        put(q, d);
    }
    if (r != nullptr) {
        put(r, x - d * y);
    }
    return MP_OK;
}
mp_result mp_int_div_value(mp_int, mp_small, mp_int, mp_small *) { unsupported("mp_int_div_value"); }
int mp_int_compare(mp_int a, mp_int b) { return sign(get(a) - get(b)); }
int mp_int_compare_unsigned(mp_int a, mp_int b) {
    auto p = get(a);
    auto q = get(b);
    return sign((sign(p) < 0 ? -p : p) - (sign(q) < 0 ? -q : q));
}
int mp_int_compare_zero(mp_int z) { return sign(get(z)); }
int mp_int_compare_value(mp_int z, mp_small v) { return sign(get(z) - from_native(v)); }
mp_result mp_int_gcd(mp_int a, mp_int b, mp_int c) {
    auto x = get(a);
    auto y = get(b);
    if (is_zero(x) && is_zero(y)) {
        return MP_UNDEF;
    }
    auto g = num::gcd(x, y);
    auto &kn = known();
    auto learn = [&kn](LP const &p, LP const &q) {
        if (!(p == q) && !(q == LP(1)) &&
            std::none_of(kn.begin(), kn.end(), [&](auto const &k) { return k.first == p && k.second == q; })) {
            kn.emplace_back(p, q);
        }
    };
    // what x and y divide is also divided by their divisor
    for (size_t i = 0, n = kn.size(); i < n; ++i) {
        if (kn[i].second == x || kn[i].second == y) {
            auto p = kn[i].first;
            learn(p, g);
        }
    }
    learn(x, g);
    learn(y, g);
    return put(c, g);
}
mp_result mp_int_lcm(mp_int a, mp_int b, mp_int c) {
    auto x = get(a);
    auto y = get(b);
    if (is_zero(x) && is_zero(y)) {
        return MP_UNDEF;
    }
    return put(c, num::divexact(x, num::gcd(x, y)) * y);
}
mp_result mp_int_to_int(mp_int z, mp_small *out) {
    auto p = get(z);
    if (!num::fits(p, 64)) {
        return MP_RANGE;
    }
    if (out != nullptr) {
        *out = num::to_native(p, 64);
    }
    return MP_OK;
}
mp_result mp_int_to_string(mp_int z, mp_size, char *str, int limit) { return out(tagged_string(RF(get(z))), str, limit); }
mp_result mp_int_string_len(mp_int z, mp_size) { return static_cast<int>(tagged_string(RF(get(z))).size()) + 2; }
mp_result mp_int_read_string(mp_int z, mp_size radix, const char *str) {
    return *read(z, radix, str) == '\0' ? MP_OK : MP_TRUNC;
}
const char *mp_error_string(mp_result) { return "error"; }

mp_result mp_rat_init(mp_rat r) {
    mp_int_init(&r->num);
    mp_int_init(&r->den);
    return put(&r->den, LP(1));
}
mp_result mp_rat_init_copy(mp_rat r, mp_rat old) { mp_rat_init(r); return put(r, get(old)); }
mp_result mp_rat_set_value(mp_rat r, mp_small n, mp_small d) {
    if (d == 0) {
        return MP_UNDEF;
    }
    return put(r, RF(from_native(n), from_native(d)));
}
void mp_rat_clear(mp_rat r) { mp_int_clear(&r->num); mp_int_clear(&r->den); }
mp_result mp_rat_reduce(mp_rat r) {
    auto v = get(r);
    if (is_zero(v.d)) {
        return MP_UNDEF;
    }
    return put(r, v);
}
mp_result mp_rat_copy(mp_rat a, mp_rat c) {
    if (a != c) {
        put(&c->num, get(&a->num));
        put(&c->den, get(&a->den));
    }
    return MP_OK;
}
void mp_rat_zero(mp_rat r) { put(r, RF(0)); }
mp_result mp_rat_numer(mp_rat r, mp_int z) { return put(z, get(&r->num)); }
mp_int mp_rat_numer_ref(mp_rat r) { return &r->num; }
mp_result mp_rat_denom(mp_rat r, mp_int z) { return put(z, get(&r->den)); }
mp_int mp_rat_denom_ref(mp_rat r) { return &r->den; }
mp_sign mp_rat_sign(mp_rat r) { return sign(get(&r->num)) < 0 ? 1 : 0; }
mp_result mp_rat_abs(mp_rat a, mp_rat c) { auto v = get(a); return put(c, sign(v.n) < 0 ? -v : v); }
mp_result mp_rat_neg(mp_rat a, mp_rat c) { auto v = get(a); put(&c->num, -v.n); return put(&c->den, v.d); }
mp_result mp_rat_recip(mp_rat a, mp_rat c) {
    auto v = get(a);
    if (is_zero(v.n)) {
        return MP_UNDEF;
    }
    return put(c, RF(v.d, v.n));
}
mp_result mp_rat_add(mp_rat a, mp_rat b, mp_rat c) { return put(c, get(a) + get(b)); }
mp_result mp_rat_sub(mp_rat a, mp_rat b, mp_rat c) { return put(c, get(a) - get(b)); }
mp_result mp_rat_mul(mp_rat a, mp_rat b, mp_rat c) { return put(c, get(a) * get(b)); }
mp_result mp_rat_div(mp_rat a, mp_rat b, mp_rat c) {
    auto v = get(b);
    if (is_zero(v.n)) {
        return MP_UNDEF;
    }
    return put(c, rdiv(get(a), v));
}
mp_result mp_rat_add_int(mp_rat a, mp_int b, mp_rat c) { return put(c, get(a) + RF(get(b))); }
mp_result mp_rat_sub_int(mp_rat a, mp_int b, mp_rat c) { return put(c, get(a) - RF(get(b))); }
mp_result mp_rat_mul_int(mp_rat a, mp_int b, mp_rat c) { return put(c, get(a) * RF(get(b))); }
mp_result mp_rat_div_int(mp_rat a, mp_int b, mp_rat c) {
    auto v = get(b);
    if (is_zero(v)) {
        return MP_UNDEF;
    }
    return put(c, rdiv(get(a), RF(v)));
}
int mp_rat_compare(mp_rat a, mp_rat b) { return cmp(get(a), get(b)); }
int mp_rat_compare_unsigned(mp_rat a, mp_rat b) {
    auto v = get(a);
    auto w = get(b);
    return cmp(sign(v.n) < 0 ? -v : v, sign(w.n) < 0 ? -w : w);
}
int mp_rat_compare_zero(mp_rat r) { return sign(get(&r->num)); }
int mp_rat_compare_value(mp_rat r, mp_small n, mp_small d) { return cmp(get(r), RF(from_native(n), from_native(d))); }
int mp_rat_is_integer(mp_rat r) { return num::equal(get(&r->den), LP(1)) ? 1 : 0; }
mp_result mp_rat_to_string(mp_rat r, mp_size, char *str, int limit) {
    auto s = tagged_string(get(r));
    // numerator and denominator are always printed
    if (s.find('/') == std::string::npos && s.find('@') == std::string::npos) {
        s += "/1";
    }
    return out(s, str, limit);
}
mp_result mp_rat_string_len(mp_rat r, mp_size) { return static_cast<int>(tagged_string(get(r)).size()) + 4; }
mp_result mp_rat_read_string(mp_rat r, mp_size radix, const char *str) {
    if (std::strchr(str, '@') != nullptr) {
        RF v;
        if (!parse_number(str, v)) {
            unsupported(std::string("number text ") + str);
        }
        return put(r, v);
    }
    auto const *e = read(&r->num, radix, str);
    while (std::isspace(static_cast<unsigned char>(*e)) != 0) {
        ++e;
    }
    if (*e != '/') {
        put(&r->den, LP(1));
        return *e == '\0' ? MP_OK : MP_TRUNC;
    }
    e = read(&r->den, radix, e + 1);
    if (get(&r->den).is_zero()) {
        return MP_UNDEF;
    }
    auto v = get(r);
    put(r, v);
    return *e == '\0' ? MP_OK : MP_TRUNC;
}
}
