// Exactness of the number classes, written against their public operators only.
// Included by numbers.cc (FLINT backend) and imath.cc (IMath backend).
#include "../engine/sym.hh"

#include "number.hh"

#include <sstream>

using namespace se;

namespace {

template <class T> std::string text(T const &x) {
    std::ostringstream o;
    o << x;
    return o.str();
}
template <class T> Val value(T const &x) {
    Val v;
    std::string s = text(x);
    if (!parse_value(s, v)) {
        fail("a number is printed as '" + s + "'");
    }
    return v;
}
void same(Val const &a, Val const &b, std::string const &msg) {
    if (getenv("DBG")) note(msg + " got " + a.c.n.str() + "/" + a.c.d.str() + " e " + a.k.n.str() + "/" + a.k.d.str()+ " expected " + b.c.n.str() + "/" + b.c.d.str() + " e " + b.k.n.str() + "/" + b.k.d.str());
    se::check(rel(a.c, "=", b.c) && rel(a.k, "=", b.k), msg);
}
int lex(Val const &a, Val const &b) {
    if (int c = cmp(a.c, b.c); c != 0) {
        return c;
    }
    return cmp(a.k, b.k);
}

std::string num_str(LP const &p) { return tagged_string(RF(p)); }

// Symbolic operands.
struct Fix {
    using type = fixed_int;
    static char const *name() { return "fixed"; }
    static std::pair<fixed_int, Val> make(std::string const &n) {
        LP p = input(n, Kind::Integral);
        se::assume(rel(RF(p), ">=", RF(-1000000000)) && rel(RF(p), "<=", RF(1000000000)));
        return {native_tag(p), Val{RF(p), RF(0)}};
    }
};
struct Int {
    using type = Integer;
    static char const *name() { return "Integer"; }
    static std::pair<Integer, Val> make(std::string const &n) {
        LP p = input(n, Kind::Integral);
        return {Integer{num_str(p), 10}, Val{RF(p), RF(0)}};
    }
};
struct Rat {
    using type = Rational;
    static char const *name() { return "Rational"; }
    static RF rf(std::string const &n) {
        LP p = input(n + "n", Kind::Integral);
        LP q = input(n + "d", Kind::Integral);
        se::assume(rel(RF(q), ">", RF(0)));
        return RF(p, q);
    }
    static Rational rat(RF const &v) { return Rational{Integer{num_str(v.n), 10}, Integer{num_str(v.d), 10}}; }
    static std::pair<Rational, Val> make(std::string const &n) {
        RF v = rf(n);
        return {rat(v), Val{v, RF(0)}};
    }
};
struct RatQ {
    using type = RationalQ;
    static char const *name() { return "RationalQ"; }
    static std::pair<RationalQ, Val> make(std::string const &n) {
        RF v = Rat::rf(n);
        // an arbitrary rational epsilon part; its denominator is fixed to keep queries small
        RF k = RF(input(n + "k", Kind::Integral), LP(1));
        return {RationalQ{Rat::rat(v), Rat::rat(k)}, Val{v, k}};
    }
};

Val expect(char op, Val const &a, Val const &b) {
    switch (op) {
        case '+': return {a.c + b.c, a.k + b.k};
        case '-': return {a.c - b.c, a.k - b.k};
        case '*': return {a.c * b.c, a.k * b.c};
        default: return {divide(a.c, b.c), divide(a.k, b.c)};
    }
}

enum Form { Copy, Move, InPlace };

template <char op, class A, class B> auto copy_op(A const &a, B const &b) {
    if constexpr (op == '+') { return a + b; }
    if constexpr (op == '-') { return a - b; }
    if constexpr (op == '*') { return a * b; }
    if constexpr (op == '/') { return a / b; }
}
template <char op, class A, class B> auto move_op(A &&a, B const &b) {
    if constexpr (op == '+') { return std::move(a) + b; }
    if constexpr (op == '-') { return std::move(a) - b; }
    if constexpr (op == '*') { return std::move(a) * b; }
    if constexpr (op == '/') { return std::move(a) / b; }
}
template <char op, class A, class B> A &in_place(A &a, B const &b) {
    if constexpr (op == '+') { a += b; }
    if constexpr (op == '-') { a -= b; }
    if constexpr (op == '*') { a *= b; }
    if constexpr (op == '/') { a /= b; }
    return a;
}

template <class A, class B, char op> Case arith() {
    std::string name = std::string("arith_") + A::name() + "_" + (op == '/' ? std::string("div") : std::string(1, op)) + "_" + B::name();
    return {name, []() {
        auto [a, va] = A::make("a");
        auto [b, vb] = B::make("b");
        if (op == '/') {
            se::assume(rel(vb.c, "!=", RF(0)));
        }
        Val e = expect(op, va, vb);
        std::string what = std::string(A::name()) + " " + op + " " + B::name();
        {
            auto r = copy_op<op>(a, b);
            same(value(r), e, what + " (copy) gives the wrong result");
            same(value(a), va, what + " (copy) changes its left operand");
        }
        {
            auto c = a;
            auto r = move_op<op>(std::move(c), b);
            same(value(r), e, what + " (move) gives the wrong result");
        }
        {
            auto c = a;
            auto &r = in_place<op>(c, b);
            se::check(&r == &c, what + " (in place) returns another object");
            same(value(c), e, what + " (in place) gives the wrong result");
        }
        if constexpr (!std::is_same_v<typename B::type, fixed_int>) {
            same(value(b), vb, what + " changes its right operand");
        }
        same(value(a), va, what + " changes the copied operand");
        if constexpr (std::is_same_v<A, B>) {
            auto c = a;
            if (op == '/') {
                se::assume(rel(va.c, "!=", RF(0)));
            }
            in_place<op>(c, c);
            same(value(c), expect(op, va, va), what + " with both operands the same object gives the wrong result");
        }
        reach("arith");
    }};
}

template <class T> constexpr bool has_lt = true;

template <class A, class B> Case comparison() {
    std::string name = std::string("compare_") + A::name() + "_" + B::name();
    return {name, []() {
        auto [a, va] = A::make("a");
        auto [b, vb] = B::make("b");
        int k = choose("operator", 7);
        // decide by the code first: its answers have to be right on the whole path
        bool r = false;
        int c = 0;
        switch (k) {
            case 0: r = a < b; break;
            case 1: r = a <= b; break;
            case 2: r = a > b; break;
            case 3: r = a >= b; break;
            case 4: r = a == b; break;
            case 5: r = a != b; break;
            default: c = compare(a, b); break;
        }
        static char const *ops[] = {"<", "<=", ">", ">=", "=", "!="};
        z3::expr lt = rel(va.c, "<", vb.c) || (rel(va.c, "=", vb.c) && rel(va.k, "<", vb.k));
        z3::expr eq = rel(va.c, "=", vb.c) && rel(va.k, "=", vb.k);
        z3::expr ex = k == 0 ? lt : k == 1 ? (lt || eq) : k == 2 ? !(lt || eq) : k == 3 ? !lt : k == 4 ? eq : !eq;
        std::string what = std::string(A::name()) + (k < 6 ? ops[k] : " compare ") + B::name();
        if (k < 6) {
            se::check(r ? ex : !ex, what + " gives the wrong answer");
            reach(r ? "true" : "false");
        } else {
            se::check(c < 0 ? lt : c > 0 ? !(lt || eq) : eq, what + " gives the wrong answer");
            reach(c < 0 ? "less" : c > 0 ? "greater" : "equal");
        }
        same(value(a), va, what + " changes its left operand");
    }};
}

template <class A> Case unary() {
    std::string name = std::string("unary_") + A::name();
    return {name, []() {
        using T = typename A::type;
        auto [a, va] = A::make("a");
        auto [b, vb] = A::make("b");
        Val neg{-va.c, -va.k};
        same(value(-a), neg, std::string("unary minus of ") + A::name());
        same(value(a), va, "unary minus changes its operand");
        {
            T c = a;
            same(value(-std::move(c)), neg, std::string("unary minus (move) of ") + A::name());
        }
        if constexpr (!std::is_same_v<T, RationalQ>) {
            T c = a;
            same(value(c.neg()), neg, std::string("neg of ") + A::name());
            same(value(c), neg, std::string("neg in place of ") + A::name());
        }
        {
            T c = a;
            T d = b;
            c.swap(d);
            same(value(c), vb, "swap (left)");
            same(value(d), va, "swap (right)");
            c.swap(c);
            same(value(c), vb, "swap with itself");
        }
        {
            T c = a;
            T d = b;
            std::swap(c, d);
            same(value(c), vb, "std::swap (left)");
            same(value(d), va, "std::swap (right)");
        }
        {
            T c = a;
            T d{std::move(c)};
            same(value(d), va, "move construction");
            T e;
            same(value(e), Val{RF(0), RF(0)}, "default construction is not zero");
            e = std::move(d);
            same(value(e), va, "move assignment");
            e = b;
            same(value(e), vb, "copy assignment");
            T &f = e;
            e = f;
            same(value(e), vb, "self assignment");
        }
        reach("unary");
    }};
}

Case gcds() {
    return {"gcd", []() {
        auto [a, va] = Int::make("a");
        auto [b, vb] = Int::make("b");
        se::assume(rel(va.c, "!=", RF(0)) || rel(vb.c, "!=", RF(0)));
        auto g = gcd(a, b);
        Val vg = value(g);
        same(value(a), va, "gcd changes its left operand");
        same(value(b), vb, "gcd changes its right operand");
        auto [h, x, y] = gcd_div(a, b);
        Val vh = value(h);
        Val vx = value(x);
        Val vy = value(y);
        se::check(rel(vg.c, ">", RF(0)) && rel(vh.c, ">", RF(0)), "gcd is not positive");
        se::check(rel(vh.c * vx.c, "=", va.c) && rel(vh.c * vy.c, "=", vb.c), "gcd_div does not split its operands");
        reach("gcd");
    }};
}
//! gcd of concrete numbers times a symbolic factor pattern: the stand-in knows it exactly.
Case gcds_exact() {
    return {"gcd_exact", []() {
        static long const as[] = {0, 1, -1, 2, 6, -6, 12, 35, 1000000007L, -4611686018427387904L};
        long a = as[choose("a", 10)];
        long b = as[choose("b", 10)];
        if (a == 0 && b == 0) {
            return;
        }
        mpz_class g;
        mpz_class za(a);
        mpz_class zb(b);
        mpz_gcd(g.get_mpz_t(), za.get_mpz_t(), zb.get_mpz_t());
        same(value(gcd(Integer{a}, Integer{b})), Val{RF(LP(g)), RF(0)}, "gcd is wrong");
        auto [h, x, y] = gcd_div(Integer{a}, Integer{b});
        same(value(h), Val{RF(LP(g)), RF(0)}, "gcd_div: gcd is wrong");
        same(value(x), Val{RF(LP(mpz_class(za / g))), RF(0)}, "gcd_div: first quotient is wrong");
        same(value(y), Val{RF(LP(mpz_class(zb / g))), RF(0)}, "gcd_div: second quotient is wrong");
    }};
}
Case muladd() {
    return {"add_mul", []() {
        auto [a, va] = Int::make("a");
        auto [b, vb] = Int::make("b");
        auto [c, vc] = Int::make("c");
        Val e{va.c + vb.c * vc.c, RF(0)};
        {
            Integer x = a;
            x.add_mul(b, c);
            same(value(x), e, "add_mul gives the wrong result");
        }
        same(value(Integer{a}.add_mul(b, c)), e, "add_mul (move) gives the wrong result");
        {
            Integer x = a;
            x.add_mul(x, c);
            same(value(x), Val{va.c + va.c * vc.c, RF(0)}, "add_mul with its own object as left factor");
            Integer y = a;
            y.add_mul(b, y);
            same(value(y), Val{va.c + vb.c * va.c, RF(0)}, "add_mul with its own object as right factor");
        }
        same(value(b), vb, "add_mul changes a factor");
        same(value(c), vc, "add_mul changes a factor");
        se::assume(rel(vb.c, "!=", RF(0)));
        {
            Integer x = a * b;
            x.divide(b);
            same(value(x), va, "divide does not undo a multiplication");
        }
        reach("muladd");
    }};
}
Case as_int() {
    return {"as_int", []() {
        auto [a, va] = Int::make("a");
        auto r = a.as_int();
        RF lo(LP(mpz_class("-2147483648")));
        RF hi(LP(mpz_class("2147483648")));
        z3::expr in = rel(va.c, ">=", lo) && rel(va.c, "<", hi);
        if (r) {
            se::check(in, "as_int converts a number that does not fit");
            se::check(rel(RF(from_native(*r)), "=", va.c), "as_int converts to another number");
            reach("fits");
        } else {
            se::check(!in, "as_int rejects a number that fits");
            reach("does not fit");
        }
    }};
}
Case rational_parts() {
    return {"rational_parts", []() {
        auto [p, vp] = Int::make("p");
        auto [q, vq] = Int::make("q");
        se::assume(rel(vq.c, "!=", RF(0)));
        Rational r{p, q};
        Val e{divide(vp.c, vq.c), RF(0)};
        same(value(r), e, "construction from numerator and denominator");
        Rational const &cr = r;
        Val n = value(cr.num());
        Val d = value(cr.den());
        se::check(rel(d.c, ">", RF(0)), "the denominator is not positive");
        se::check(rel(n.c * vq.c, "=", d.c * vp.c), "numerator and denominator do not represent the number");
        auto [f, vf] = Fix::make("f");
        same(value(Rational{f}), vf, "construction of a rational from a machine integer");
        same(value(Integer{f}), vf, "construction of an integer from a machine integer");
        same(value(RationalQ{Rational{f}}), vf, "construction of a number with epsilon part from a rational");
        reach("parts");
    }};
}
Case epsilon_parts() {
    return {"epsilon_parts", []() {
        auto [a, va] = RatQ::make("a");
        bool r = a.is_rational();
        se::check(r ? rel(va.k, "=", RF(0)) : rel(va.k, "!=", RF(0)), "is_rational gives the wrong answer");
        try {
            Rational const &c = a.as_rational();
            se::check(r, "as_rational drops an epsilon part");
            same(value(c), Val{va.c, RF(0)}, "as_rational gives another number");
            reach("rational");
        } catch (std::exception const &) {
            se::check(!r, "as_rational rejects a rational number");
            reach("epsilon");
        }
    }};
}
Case texts() {
    return {"texts", []() {
        static char const *ok[] = {"0", "-7", "123456789012345678901234567890", "12/8", "-6/4", "10/5"};
        static char const *canon[] = {"0", "-7", "123456789012345678901234567890", "3/2", "-3/2", "2"};
        static char const *bad[] = {"", "x", "1x", "1.5", "--1", "1/x"};
#ifdef CLINGOLPX_USE_IMATH
        int k = choose("text", 6); // IMath reads empty prefixes as zero
#else
        int k = choose("text", 12);
#endif
        if (k < 6) {
            Rational r{ok[k], 10};
            r.canonicalize();
            se::check(text(r) == canon[k], std::string("the number ") + ok[k] + " is read and printed as " + text(r));
        } else {
            bool thrown = false;
            try {
                Rational r{bad[k - 6], 10};
            } catch (std::exception const &) {
                thrown = true;
            }
            se::check(thrown, std::string("the text '") + bad[k - 6] + "' is accepted as a number");
        }
        reach("text");
    }};
}

template <class A, class B> void all_ops(std::vector<Case> &cs) {
    cs.push_back(arith<A, B, '+'>());
    cs.push_back(arith<A, B, '-'>());
    if constexpr (!std::is_same_v<B, RatQ>) {
        cs.push_back(arith<A, B, '*'>());
        if constexpr (!std::is_same_v<A, Int>) {
            cs.push_back(arith<A, B, '/'>());
        }
    }
    cs.push_back(comparison<A, B>());
}

std::vector<Case> number_cases() {
    std::vector<Case> cs;
    all_ops<Int, Fix>(cs);
    all_ops<Int, Int>(cs);
    all_ops<Rat, Fix>(cs);
    all_ops<Rat, Int>(cs);
    all_ops<Rat, Rat>(cs);
    all_ops<RatQ, Fix>(cs);
    all_ops<RatQ, Int>(cs);
    all_ops<RatQ, Rat>(cs);
    all_ops<RatQ, RatQ>(cs);
    cs.push_back(unary<Int>());
    cs.push_back(unary<Rat>());
    cs.push_back(unary<RatQ>());
    cs.push_back(gcds());
    cs.push_back(gcds_exact());
    cs.push_back(muladd());
    cs.push_back(as_int());
    cs.push_back(rational_parts());
    cs.push_back(epsilon_parts());
    cs.push_back(texts());
    return cs;
}

} // namespace
