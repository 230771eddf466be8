// The sparse tableau against a dense exact matrix.
#include "../engine/num.hh"
#include "../engine/sym.hh"

#include "tableau.hh"

#include <sstream>

using namespace se;

namespace {

using Dense = std::vector<std::vector<RF>>;

template <class T> RF value(T const &x) {
    std::ostringstream o;
    o << x;
    RF v;
    if (!parse_number(o.str(), v)) {
        fail("a number is printed as '" + o.str() + "'");
    }
    return v;
}

Rational rat(RF const &v) {
    if (v.n.is_const() && v.d.is_const()) {
        return Rational{tagged_string(v), 10};
    }
    return Rational{Integer{tagged_string(RF(v.n)), 10}, Integer{tagged_string(RF(v.d)), 10}};
}

void same(RF const &a, RF const &b, std::string const &msg) { se::check(rel(a, "=", b), msg); }

//! Compare everything that can be observed of the tableau with the dense matrix.
void compare(Tableau &t, Dense const &d, std::string const &when, bool columns = true) {
    size_t m = d.size();
    size_t n = d[0].size();
    std::vector<std::vector<bool>> seen_r(m, std::vector<bool>(n, false));
    std::vector<std::vector<bool>> seen_c(m, std::vector<bool>(n, false));
    size_t count = 0;
    for (index_t i = 0; i < m; ++i) {
        t.update_row(i, [&](index_t j, Integer const &a, Integer const &den) {
            se::check(j < n, "a row has a column out of range " + when);
            se::check(!seen_r[i][j], "a row iteration visits an entry twice " + when);
            seen_r[i][j] = true;
            ++count;
            se::check(rel(value(den), "!=", RF(0)), "a row has denominator zero " + when);
            se::check(rel(value(a), "!=", RF(0)), "a row iteration visits a zero " + when);
            se::check(rel(value(a), "=", value(den) * d[i][j]), "a row iteration yields a wrong value " + when);
        });
        for (index_t j = 0; j < n; ++j) {
            if (!seen_r[i][j]) {
                se::check(rel(d[i][j], "=", RF(0)), "a row iteration misses a non-zero entry " + when);
            }
        }
    }
    // the iteration over columns drops entries that became zero
    for (index_t j = 0; j < n && columns; ++j) {
        t.update_col(j, [&](index_t i, Integer const &a, Integer const &den) {
            se::check(i < m, "a column has a row out of range " + when);
            se::check(!seen_c[i][j], "a column iteration visits an entry twice " + when);
            seen_c[i][j] = true;
            se::check(rel(value(a), "=", value(den) * d[i][j]), "a column iteration yields a wrong value " + when);
        });
        for (index_t i = 0; i < m; ++i) {
            se::check(seen_c[i][j] == seen_r[i][j], "a column iteration visits other entries than the row iteration " + when);
        }
    }
    for (index_t i = 0; i < m; ++i) {
        for (index_t j = 0; j < n; ++j) {
            same(value(t.get(i, j)), d[i][j], "get returns a wrong value " + when);
        }
    }
    se::check(t.size() == count, "size is not the number of non-zero entries " + when);
    se::check(t.empty() == (count == 0), "empty is wrong " + when);
}

//! Both outcomes (coprime or not) for the first gcds of symbolic numbers.
void limit_gcd() { num::max_gcd = cfg().thorough ? 4 : 2; }

Dense zeros(size_t m, size_t n) { return Dense(m, std::vector<RF>(n, RF(0))); }

//! A symbolic rational with the given denominators.
RF entry(std::string const &name, bool frac) {
    LP p = input(name, Kind::Integral);
    if (!frac) {
        return RF(p);
    }
    LP q = input(name + "d", Kind::Integral);
    se::assume(rel(RF(q), ">", RF(0)));
    return RF(p, q);
}

//! Any sequence of assignments to a row and its neighbours, fractions and zeros included.
Case sets(int m, int n, int k, bool frac, bool thorough) {
    return {"set_" + std::to_string(m) + "x" + std::to_string(n) + "_" + std::to_string(k) + (frac ? "_fractions" : ""),
            [=]() {
                limit_gcd();
                Tableau t;
                Dense d = zeros(m, n);
                for (int s = 0; s < k; ++s) {
                    int i = choose("row", m);
                    int j = choose("column", n);
                    RF v = entry("v" + std::to_string(s), frac);
                    t.set(i, j, rat(v));
                    d[i][j] = v;
                }
                compare(t, d, "after setting entries");
                reach("set");
                t.clear();
                compare(t, zeros(m, n), "after clear");
            },
            thorough};
}

//! Clear the denominators: symbolic equality without division.
void pivot_step(Tableau &t, Dense &d, int i, int j, std::string const &when) {
    size_t m = d.size();
    size_t n = d[0].size();
    Integer *a = nullptr;
    Integer *den = nullptr;
    t.unsafe_get(i, j, a, den);
    se::check(rel(value(*a), "=", value(*den) * d[i][j]), "unsafe_get refers to a wrong entry " + when);
    t.pivot(i, j, *a, *den);
    // y_i = sum a_il x_l  solved for x_j and substituted in the other rows
    RF p = d[i][j];
    // only equalities are decided: the sign of denominators does not matter
    auto divide = [](RF const &a, RF const &b) { return RF(a.n * b.d, a.d * b.n); };
    Dense r = d;
    r[i][j] = divide(RF(1), p);
    for (size_t l = 0; l < n; ++l) {
        if (static_cast<int>(l) != j) {
            r[i][l] = -divide(d[i][l], p);
        }
    }
    for (size_t k = 0; k < m; ++k) {
        if (static_cast<int>(k) == i) {
            continue;
        }
        for (size_t l = 0; l < n; ++l) {
            r[k][l] = static_cast<int>(l) == j ? d[k][j] * r[i][j] : d[k][l] + d[k][j] * r[i][l];
        }
    }
    d = r;
}

//! One pivot of a matrix with the given non-zero pattern and symbolic entries.
Case pivots(int m, int n, bool frac, bool thorough) {
    return {"pivot_" + std::to_string(m) + "x" + std::to_string(n) + (frac ? "_fractions" : ""), [=]() {
                limit_gcd();
                Tableau t;
                Dense d = zeros(m, n);
                int i = choose("pivot-row", m);
                int j = choose("pivot-column", n);
                for (int k = 0; k < m; ++k) {
                    for (int l = 0; l < n; ++l) {
                        if ((k == i && l == j) || choose("nonzero", 2) == 1) {
                            std::string nm = "a" + std::to_string(k) + std::to_string(l);
                            d[k][l] = entry(nm, frac && k == i && l == j);
                            se::assume(rel(d[k][l], "!=", RF(0)));
                            t.set(k, l, rat(d[k][l]));
                        }
                    }
                }
                pivot_step(t, d, i, j, "before the pivot");
                compare(t, d, "after a pivot");
                reach("pivot");
            },
            thorough};
}

//! A concrete matrix with symbolic entries at some places: long pivot sequences.
//! Columns are compared after each step or, to leave their bookkeeping alone, after the last one.
Case sequence(std::string const &name, std::vector<std::vector<std::string>> const &src, int steps, bool thorough, bool lazy = false) {
    return {(lazy ? "lazy_" : "sequence_") + name, [=]() {
                limit_gcd();
                int m = static_cast<int>(src.size());
                int n = static_cast<int>(src[0].size());
                limit_gcd();
                Tableau t;
                Dense d = zeros(m, n);
                for (int k = 0; k < m; ++k) {
                    for (int l = 0; l < n; ++l) {
                        auto const &s = src[k][l];
                        if (s == "0") {
                            continue;
                        }
                        if (isalpha(s[0])) {
                            d[k][l] = RF(input(s, Kind::Integral));
                            se::assume(rel(d[k][l], "!=", RF(0)));
                        } else {
                            if (!parse_number(s, d[k][l])) {
                                unsupported("bad matrix");
                            }
                        }
                        t.set(k, l, rat(d[k][l]));
                    }
                }
                compare(t, d, "after building the matrix", !lazy);
                for (int s = 0; s < steps; ++s) {
                    std::vector<std::pair<int, int>> cand;
                    for (int k = 0; k < m; ++k) {
                        t.update_row(k, [&](index_t l, Integer const &, Integer const &) { cand.emplace_back(k, l); });
                    }
                    if (cand.empty()) {
                        break;
                    }
                    auto [i, j] = cand[choose("pivot", static_cast<int>(cand.size()))];
                    pivot_step(t, d, i, j, "in a sequence of pivots");
                    if (!lazy || s + 1 == steps) {
                        compare(t, d, "in a sequence of pivots");
                    }
                    if (s > 0) {
                        reach("second pivot");
                    }
                }
            },
            thorough};
}

} // namespace

int main(int argc, char **argv) {
    std::vector<Case> cs;
    cs.push_back(sets(1, 3, 3, true, false));
    cs.push_back(sets(2, 2, 3, false, false));
    cs.push_back(sets(2, 2, 3, true, true));
    cs.push_back(sets(1, 3, 4, true, true));
    cs.push_back(pivots(2, 2, true, false));
    cs.push_back(pivots(2, 3, false, false));
    cs.push_back(pivots(3, 2, false, false));
    cs.push_back(pivots(3, 3, false, true));
    cs.push_back(sequence("integers", {{"1", "a"}, {"2", "3"}, {"0", "1"}}, 2, false));
    cs.push_back(sequence("fractions", {{"1/2", "a", "1"}, {"2/3", "0", "-1"}}, 2, false));
    cs.push_back(sequence("sparse", {{"a", "0", "2"}, {"0", "1", "3"}, {"1", "1", "0"}}, 2, true));
    cs.push_back(sequence("long", {{"1", "-2", "1"}, {"a", "1", "0"}, {"3", "1", "1"}}, 3, true));
    cs.push_back(sequence("integers", {{"1", "a"}, {"2", "3"}, {"0", "1"}}, 3, false, true));
    cs.push_back(sequence("wide", {{"1", "0", "2"}, {"0", "1", "a"}}, 4, false, true));
    cs.push_back(sequence("sparse", {{"a", "0", "2"}, {"0", "1", "3"}, {"1", "1", "0"}}, 3, false, true));
    cs.push_back(sequence("permuted", {{"0", "1", "1"}, {"1", "0", "a"}, {"1", "1", "0"}}, 4, true, true));
    cs.push_back(sequence("filled", {{"0", "-1"}, {"0", "a"}, {"2", "2"}}, 4, false, true));
    cs.push_back(sequence("spread", {{"1", "0", "0"}, {"a", "0", "0"}, {"1", "3", "0"}}, 4, false, true));
    cs.push_back(sequence("diagonal", {{"1", "0", "0"}, {"0", "a", "0"}, {"1", "1", "1"}}, 4, false, true));
    cs.push_back(sequence("border", {{"1", "1", "1"}, {"1", "0", "0"}, {"a", "0", "2"}}, 4, true, true));
    cs.push_back(sequence("rows", {{"1", "0"}, {"0", "1"}, {"a", "1"}, {"1", "-1"}}, 4, true, true));
    cs.push_back(sequence("zeros", {{"0", "0", "1"}, {"0", "1", "0"}, {"1", "0", "0"}, {"a", "1", "1"}}, 4, true, true));
    return run_main(argc, argv, "tableau", cs);
}
