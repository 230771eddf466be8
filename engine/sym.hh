// Boundary symbolic execution engine.
//
// The code under test is compiled natively and unmodified.  Everything numeric
// that crosses the boundary of the arbitrary precision number library is a
// Laurent polynomial over input symbols; whenever the number library has to
// return a decision to native code (sign, comparison, equality, ...) the engine
// asks the SMT solver which outcomes are possible under the current path
// condition and forks the process, one child per possible outcome.
#pragma once
#include <gmpxx.h>
#include <z3++.h>

#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace se {

using Q = mpq_class;
using Z = mpz_class;

//! Monomial: sorted list of (symbol, exponent), exponents may be negative.
using Mono = std::vector<std::pair<int, int>>;

//! Laurent polynomial with rational coefficients.
struct LP {
    std::map<Mono, Q> t;
    LP() = default;
    LP(long v);
    LP(int v) : LP(static_cast<long>(v)) {}
    LP(Q const &v);
    LP(Z const &v) : LP(Q(v)) {}
    static LP sym(int id);
    bool is_const() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
    bool is_zero() const { return t.empty(); }
    Q cval() const { return t.empty() ? Q(0) : t.begin()->second; }
    bool operator<(LP const &b) const { return t < b.t; }
    bool operator==(LP const &b) const { return t == b.t; }
    std::string str() const;
};
LP operator+(LP const &a, LP const &b);
LP operator-(LP const &a, LP const &b);
LP operator-(LP const &a);
LP operator*(LP const &a, LP const &b);
LP scale(LP const &a, Q const &c);

//! Fraction n/d with d > 0 on the current path.
struct RF {
    LP n;
    LP d{1};
    RF() = default;
    RF(long v) : n(v) {}
    RF(int v) : n(v) {}
    RF(Q const &v) : n(v) {}
    RF(LP n) : n(std::move(n)) {}
    RF(LP n, LP d) : n(std::move(n)), d(std::move(d)) {}
};
RF operator+(RF const &a, RF const &b);
RF operator-(RF const &a, RF const &b);
RF operator*(RF const &a, RF const &b);
RF operator-(RF const &a);
//! a/b deciding the sign of b by forking (b must not be zero).
RF divide(RF const &a, RF const &b);

//! Integral: treated as a real by the solver (a relaxation), but counterexamples and
//! sampled paths are only handed out with integer values.
enum class Kind { Real, Int, Integral };

struct Config {
    bool replay = false;
    bool thorough = false;
    int jobs = 8;
    double deadline = 600;
    std::string out;
    std::string harness;
    std::string only;                 // restrict to one case
    unsigned long seed = 1;
};
Config const &cfg();

// ---- symbolic primitives -------------------------------------------------
//! Create (or in replay mode: read) a named input.
LP input(std::string const &name, Kind kind = Kind::Real);
//! Native integer in int range that stands for the value of the given polynomial.
long native_tag(LP const &p);
//! Decode a native integer into the polynomial it stands for.
LP from_native(long v);
bool is_tag(long v);
//! Nondeterministic choice (recorded and replayed).
int choose(std::string const &what, int n);
//! Internal nondeterminism of the number library (not recorded).
int internal_choose(int n);
//! Sign of the polynomial on this path; forks.
int sign(LP const &p);
//! Is the polynomial zero on this path; forks.
bool is_zero(LP const &p);
inline int cmp(RF const &a, RF const &b) { return sign(a.n * b.d - b.n * a.d); }
//! Continue with one of the given outcomes (mutually exclusive, exhaustive); forks. `which` maps the value of an
//! integer symbol in a model of the path to the outcome it belongs to.
int pick(std::vector<z3::expr> const &es, int symbol, std::function<int(long)> const &which);
//! Is the formula true on this path; forks.
bool decided(z3::expr const &e);
//! Fresh symbol known to be positive.
LP fresh_pos(std::string const &name);
LP fresh(std::string const &name, Kind k = Kind::Real);
//! All symbols are integers for the solver (and the polynomial has integer coefficients).
bool integral(LP const &p);

// ---- formulas ------------------------------------------------------------
z3::context &ctx();
z3::expr z(LP const &p);
z3::expr tru();
z3::expr fls();
z3::expr rel(RF const &a, std::string const &op, RF const &b); // "<","<=","=","!=",">=",">"
z3::expr fresh_real(std::string const &name);
//! Formulas built by hand contain products of symbols.
void set_nonlinear();

//! Restrict the path; ends the path if infeasible.
void assume(z3::expr const &e, bool input_domain = true);
//! Violation if the negation is satisfiable together with the path condition.
void check(z3::expr const &prop, std::string const &msg);
//! Violation if false (the path is feasible by construction).
void check(bool prop, std::string const &msg);
//! Report a violation on this path and end it.
[[noreturn]] void fail(std::string const &msg);
[[noreturn]] void end_path();
//! Reachability witness.
void reach(std::string const &what);
void note(std::string const &what);
//! Limit the number of number-library operations until the next call.
void op_budget(long n, std::string const &what);
void op_tick();
void count(char const *what, long n = 1); // evidence counter
//! Error outside of the model: the run is inconclusive, never a violation.
[[noreturn]] void unsupported(std::string const &msg);

// printing of symbolic numbers
std::string tagged_string(RF const &v);
bool parse_number(std::string const &s, RF &out); // "p/q" or "@i@"
struct Val { RF c, k; };                          // c + k*e
bool parse_value(std::string const &s, Val &out);

//! A named case of a harness; `run` explores all of them.
struct Case {
    std::string name;
    std::function<void()> fn;
    bool thorough_only = false;
};
int run_main(int argc, char **argv, char const *harness, std::vector<Case> const &cases);

} // namespace se
