// Number theory shared by the number library stand-ins.
#pragma once
#include "sym.hh"
#include "symrt.hh"
namespace se::num {
void normalize(RF &v); //!< fails on zero denominators; denominator positive, content removed
bool parse_int(char const *s, int base, LP &out);
bool parse_int(std::vector<symrt::Byte> const &bs, int base, LP &out);
bool fits(LP const &p, int bits);
long to_native(LP const &p, int bits);
LP divexact(LP const &a, LP const &b);
bool divisible(LP const &a, LP const &b);
LP quotient(LP const &a, LP const &b, bool floor);
LP gcd(LP const &a, LP const &b);
bool equal(LP const &a, LP const &b);
extern int max_gcd; //!< number of symbolic gcds introduced per path (beyond: taken as one)
} // namespace se::num
