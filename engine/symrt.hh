// Symbolic bytes in native memory: shadow expressions maintained by code that was compiled with the
// pass in pass/SymPass.cc.
#pragma once
#include "sym.hh"

#include <bitset>

namespace symrt {

using Set = std::bitset<256>;

//! A byte of a string: concrete (id zero) or an expression over one input byte.
struct Byte {
    int id = 0;
    unsigned char v = 0;
};

//! Turn the byte at p into the named input with the given values (replay: its concrete value).
void symbolic_byte(char *p, std::string const &name, Set const &values);
//! Read a byte with its shadow.
Byte at(void const *p);
//! Store a byte with its shadow.
void put(void *p, Byte b);
//! Decide on this path whether the byte is in a set; forks.
bool is(Byte b, Set const &s);
inline bool is(Byte b, char c) { return is(b, Set().set(static_cast<unsigned char>(c))); }
//! Formula for the byte being in a set.
z3::expr in(Byte b, Set const &s);
//! The byte as a number.
se::LP value(Byte b);
//! The single value of the byte on this path; forks over all of them.
unsigned char concrete(Byte b);
//! Length of a string whose end is decided on this path.
std::vector<Byte> bytes(char const *s);
//! Placeholder for a string with symbolic bytes (the string itself if all are concrete); decides on this path which of the
//! earlier strings of the same kind it is equal to.
std::string import_string(char const *s, int kind);
//! Decide whether two strings agree; forks.
bool equal(std::vector<Byte> const &a, std::vector<Byte> const &b);
//! Memory of a string that may be a placeholder.
char const *export_string(std::string const &s);
bool is_placeholder(std::string const &s);
std::vector<Byte> const &content(std::string const &placeholder);
//! Placeholder for the given bytes.
std::string make_string(std::vector<Byte> const &bs);
//! Show a string of bytes.
std::string show(std::vector<Byte> const &bs);
Set range(int from, int to);
Set chars(char const *s);

} // namespace symrt
