#include "num.hh"

namespace se::num {

int max_gcd = 1000;

static Z lcm(Z const &a, Z const &b) { Z r; mpz_lcm(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Z gcdz(Z const &a, Z const &b) { Z r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }

static void monomial_content(LP const &p, std::map<int, int> &mn, bool &first) {
    for (auto const &[m, c] : p.t) {
        std::map<int, int> es(m.begin(), m.end());
        if (first) {
            mn = es;
            first = false;
            continue;
        }
        for (auto &[v, e] : mn) {
            auto it = es.find(v);
            e = std::min(e, it == es.end() ? 0 : it->second);
        }
        for (auto const &[v, e] : es) {
            if (mn.find(v) == mn.end()) {
                mn[v] = std::min(0, e);
            }
        }
    }
}

//! Exact gcd of an integer polynomial and a small constant denominator.
static void reduce(RF &v, int m) {
    std::vector<int> divs;
    for (int g = 1; g <= m; ++g) {
        if (m % g == 0) {
            divs.push_back(g);
        }
    }
    int g = divs[internal_choose(static_cast<int>(divs.size()))];
    LP q = fresh("quot", Kind::Int);
    assume(rel(RF(v.n), "=", RF(LP(g) * q)), false);
    int rest = m / g;
    for (int p = 2; p <= rest; ++p) {
        bool prime = true;
        for (int k = 2; k < p; ++k) {
            prime = prime && p % k != 0;
        }
        if (prime && rest % p == 0) {
            LP k = fresh("quot", Kind::Int);
            LP r = fresh("rem", Kind::Int);
            assume(rel(RF(q), "=", RF(LP(p) * k + r)) && rel(RF(r), ">=", RF(1)) && rel(RF(r), "<", RF(p)), false);
        }
    }
    LP n = scale(v.n, Q(1, g));
    v.n = integral(n) ? n : q;
    v.d = LP(rest);
}

void normalize(RF &v) {
    if (v.d.is_const()) {
        Q d = v.d.cval();
        if (d == 0) {
            fail("division by zero in the number library (FLINT aborts the process)");
        }
        LP n = scale(v.n, Q(1) / d);
        Z l = 1;
        for (auto const &[m, c] : n.t) {
            l = lcm(l, c.get_den());
        }
        v.n = scale(n, Q(l));
        v.d = LP(l);
        if (l > 1 && l <= 64 && !v.n.is_const() && integral(v.n)) {
            reduce(v, static_cast<int>(l.get_si()));
        }
        return;
    }
    int s = sign(v.d);
    if (s == 0) {
        fail("division by zero in the number library (FLINT aborts the process)");
    }
    if (s < 0) {
        v.n = -v.n;
        v.d = -v.d;
    }
    if (v.n.is_zero()) {
        v.d = LP(1);
        return;
    }
    // common monomial factors (the denominator is not zero, so neither are they)
    std::map<int, int> mn;
    bool first = true;
    monomial_content(v.n, mn, first);
    monomial_content(v.d, mn, first);
    Mono f;
    bool even = true;
    for (auto const &[x, e] : mn) {
        if (e != 0) {
            f.emplace_back(x, -e);
        }
    }
    (void)even;
    if (!f.empty()) {
        LP fl;
        fl.t[f] = 1;
        v.n = v.n * fl;
        v.d = v.d * fl;
        if (sign(v.d) < 0) {
            v.n = -v.n;
            v.d = -v.d;
        }
    }
    // exact multiples
    Q ratio = v.n.t.begin()->second / v.d.t.begin()->second;
    if (v.n == scale(v.d, ratio)) {
        v.n = LP(ratio);
        v.d = LP(1);
        normalize(v);
        return;
    }
    // numeric content
    Z ln = 1;
    for (auto const &[m, c] : v.n.t) { ln = lcm(ln, c.get_den()); }
    for (auto const &[m, c] : v.d.t) { ln = lcm(ln, c.get_den()); }
    Z g = 0;
    for (auto const &[m, c] : v.n.t) { g = gcdz(g, Q(c * ln).get_num()); }
    for (auto const &[m, c] : v.d.t) { g = gcdz(g, Q(c * ln).get_num()); }
    Q f2(ln, g);
    f2.canonicalize();
    v.n = scale(v.n, f2);
    v.d = scale(v.d, f2);
}

bool parse_int(std::vector<symrt::Byte> const &bs, int base, LP &out) {
    // blanks, an optional minus sign, a digit, digits and blanks (as GMP and FLINT)
    if (base != 10) {
        unsupported("base of a number");
    }
    static auto const blank = symrt::chars(" \t\n\v\f\r");
    static auto const digit = symrt::range('0', '9');
    size_t i = 0;
    while (i < bs.size() && symrt::is(bs[i], blank)) {
        ++i;
    }
    bool neg = i < bs.size() && symrt::is(bs[i], '-');
    if (neg) {
        ++i;
    }
    if (i >= bs.size() || !symrt::is(bs[i], digit)) {
        return false;
    }
    LP r;
    for (; i < bs.size(); ++i) {
        if (symrt::is(bs[i], digit)) {
            r = scale(r, Q(10)) + symrt::value(bs[i]) - LP(static_cast<long>('0'));
        } else if (!symrt::is(bs[i], blank)) {
            return false;
        }
    }
    out = neg ? -r : r;
    return true;
}

bool parse_int(char const *s, int base, LP &out) {
    if (symrt::at(s).id == 0 && *s == '@') {
        RF v;
        if (!parse_number(s, v) || !(v.d == LP(1))) {
            return false;
        }
        out = v.n;
        return true;
    }
    return parse_int(symrt::bytes(s), base, out);
}

bool fits(LP const &p, int bits) {
    Z lim = Z(1) << (bits - 1);
    return sign(p - LP(lim)) < 0 && sign(p + LP(lim)) >= 0;
}

//! Natives outside of int range are represented by values beyond int range with
//! the right sign so that native range checks and truncations behave as for the
//! value they stand for.
long to_native(LP const &p, int bits) {
    if (p.is_const()) {
        Q q = p.cval();
        if (q.get_den() != 1) {
            unsupported("conversion of a fraction to a native integer");
        }
        if (!fits(p, bits)) {
            Z m = q.get_num() % (Z(1) << 64);
            return static_cast<long>(mpz_get_ui(m.get_mpz_t()));
        }
        return q.get_num().get_si();
    }
    if (!fits(p, 32)) {
        // some value beyond int range
        static long const big = (1L << 40) + 77777;
        return sign(p) > 0 ? big : -big;
    }
    // canonical representative: equal values get equal natives
    static std::vector<std::pair<LP, long>> known;
    for (auto const &[q, t] : known) {
        if (equal(q, p)) {
            return t;
        }
    }
    for (long c : {0L, 1L, -1L, 2L, 3L}) {
        if (equal(p, LP(c))) {
            return c;
        }
    }
    long t = native_tag(p);
    known.emplace_back(p, t);
    return t;
}

bool equal(LP const &a, LP const &b) {
    if (a == b) {
        return true;
    }
    return is_zero(a - b);
}

LP divexact(LP const &a, LP const &b) {
    if (b.is_const()) {
        Q c = b.cval();
        if (c == 0) {
            fail("division by zero in the number library (FLINT aborts the process)");
        }
        if (a.is_const() && a.cval().get_den() == 1 && c.get_den() == 1 && Q(a.cval() / c).get_den() != 1) {
            fail("exact integer division of numbers that do not divide");
        }
        return scale(a, Q(1) / c);
    }
    if (is_zero(b)) {
        fail("division by zero in the number library (FLINT aborts the process)");
    }
    if (b.t.size() == 1) {
        LP f;
        Mono m;
        for (auto const &[v, e] : b.t.begin()->first) {
            m.emplace_back(v, -e);
        }
        f.t[m] = Q(1) / b.t.begin()->second;
        return a * f;
    }
    if (a.t.size() == b.t.size() && !a.t.empty()) {
        Q ratio = a.t.begin()->second / b.t.begin()->second;
        if (a == scale(b, ratio)) {
            return LP(ratio);
        }
    }
    LP x = fresh("quot");
    assume(rel(RF(x * b), "=", RF(a)));
    return x;
}

bool divisible(LP const &a, LP const &b) {
    if (a.is_const() && b.is_const()) {
        return b.cval() == 0 ? a.cval() == 0 : Q(a.cval() / b.cval()).get_den() == 1;
    }
    return internal_choose(2) == 0;
}

LP quotient(LP const &a, LP const &b, bool floor) {
    if (a.is_const() && b.is_const()) {
        if (b.cval() == 0) {
            fail("division by zero in the number library (FLINT aborts the process)");
        }
        Z r;
        Z n = a.cval().get_num();
        Z d = b.cval().get_num();
        if (floor) {
            mpz_fdiv_q(r.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t());
        } else {
            mpz_tdiv_q(r.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t());
        }
        return LP(r);
    }
    int s = sign(b);
    if (s == 0) {
        fail("division by zero in the number library (FLINT aborts the process)");
    }
    // a = b*q + r; only exact or truncated cases distinguished
    LP q = fresh("quot", Kind::Int);
    LP r = a - b * q;
    LP ab = s < 0 ? -b : b;
    if (floor) {
        LP sr = s < 0 ? -r : r;
        assume(rel(RF(sr), ">=", RF(0)) && rel(RF(sr), "<", RF(ab)));
    } else {
        int sa = sign(a);
        LP sr = sa < 0 ? -r : r;
        assume(rel(RF(sr), ">=", RF(0)) && rel(RF(sr), "<", RF(ab)));
    }
    return q;
}

LP gcd(LP const &a, LP const &b) {
    if (a.is_const() && b.is_const()) {
        return LP(gcdz(a.cval().get_num(), b.cval().get_num()));
    }
    auto abs = [](LP const &p) { return sign(p) < 0 ? -p : p; };
    auto unit = [](LP const &p) { return p == LP(1) || p == LP(-1); };
    if (unit(a) || unit(b)) {
        return LP(1);
    }
    if (is_zero(a)) {
        return abs(b);
    }
    if (is_zero(b)) {
        return abs(a);
    }
    if (a == b || a == -b) {
        return abs(a);
    }
    static int n = 0;
    if (++n > max_gcd) {
        count("gcd taken as one");
        return LP(1);
    }
    // Any positive common divisor is considered: one, or some G > 1.
    if (internal_choose(2) == 0) {
        return LP(1);
    }
    LP g = fresh_pos("gcd");
    return g;
}

} // namespace se::num
