// Search properties of the propagator.
#include "search.hh"

using namespace lpx;

namespace {

using Build = std::function<void(Prog &)>;
using Opts = std::vector<std::pair<std::string, std::string>>;

Build with(Build b, Opts o) {
    return [b, o](Prog &p) {
        for (auto const &[k, v] : o) {
            p.set(k, v);
        }
        b(p);
    };
}

Case make(std::string name, Build b, How how, bool thorough = false) {
    return {std::move(name), [b, how]() {
                auto *p = new Prog();
                b(*p);
                explore(*p, how);
            }, thorough};
}

// ---- programs ----

//! two rows over the same variables and a bound on a non-basic variable
void t_pair(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("x+y", "<=", "$a", a);
    p.sum("x-y", ">=", "$b", b);
    p.sum("x", "=", "$c", c);
}
//! bounds of every direction on one variable
void t_bounds(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("2*x", "<=", "$a", a);
    p.sum("-3*x", "<=", "$b", b);
    p.sum("x", "=", "$c", c);
}
//! bounds of the same direction on one variable, which also occurs in a row
void t_nested(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("x", ">=", "$a", a);
    p.sum("x", ">=", "$b", b);
    p.sum("x-y", "<=", "$c", c);
    p.sum("y", "<=", "0", p.w.true_lit());
}
void t_rows(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("x+y", ">=", "$a", a);
    p.sum("x-2*y", "<=", "$b", b);
    p.sum("-x+3*y", "=", "$c", c);
}
//! intervals and differences sharing literals
void t_dom(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.dom("$a", "$b", "x", a);
    p.diff("x", "y", "<=", "$c", b);
    p.dom("0", "10", "y", p.w.true_lit());
}
//! dependent rows
void t_dup(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("x+y", "<=", "$a", a);
    p.sum("x+y", ">=", "$b", b);
    p.sum("2*x+2*y", "=", "$c", c);
}
//! both signs of literals
void t_signs(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.sum("x+y", "<=", "$a", a);
    p.sum("x+y", ">=", "$b", -a);
    p.sum("x-y", "=", "$c", b);
    p.sum("x", "<=", "$d", -b);
}
//! one literal for several constraints
void t_shared(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.sum("x+y", "<=", "$a", a);
    p.sum("x-y", "<=", "$b", a);
    p.sum("x", ">=", "$c", b);
    p.sum("y", "=", "1", b);
}
//! no variables
void t_const(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("$a-x+x", "<=", "$b", a);
    p.sum("$a", "=", "$b", b);
    p.sum("$b", "<=", "3", c);
}
void t_facts(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.sum("x+y", "<=", "$a", p.w.true_lit());
    p.sum("x", ">=", "$b", p.w.true_lit());
    p.sum("x-y", "=", "$c", a);
    p.sum("y", ">=", "1", b);
    p.w.clause({a, b});
}
//! a conditional variable
void t_cond(Prog &p) {
    auto a = p.lit(), c = p.lit();
    p.sum(std::vector<Elem>{{"x", c}, {"2*y", 0}}, ">=", "$a", a);
    p.sum("x", "<=", "$b", p.w.true_lit());
    p.sum("y", "<=", "1", p.w.true_lit());
}
//! three variables
void t_three(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.sum("x+y+z", ">=", "$a", a);
    p.sum("x-y", "<=", "$b", b);
    p.sum("x+2*z", "<=", "$c", p.w.true_lit());
    p.sum("y", "<=", "0", p.w.true_lit());
}
//! symbolic coefficients
void t_coef1(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.sum("$p*x", "<=", "$a", a);
    p.sum("x", ">=", "1", b);
}
void t_coef2(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.sum("$p*x+y", "<=", "1", a);
    p.sum("x-y", ">=", "$q", b);
    p.dom("0", "2", "x", p.w.true_lit());
}
void t_coef3(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.sum("$p*x+$q*y", "<=", "1", a);
    p.sum("x+y", ">=", "2", b);
}
//! strict relations
void t_strict(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("x", "<", "$a", a);
    p.sum("x", ">=", "$b", b);
    p.sum("2*x", ">", "$c", c);
}
void t_strict_rows(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("x+y", "<", "$a", a);
    p.sum("x-y", ">=", "$b", b);
    p.sum("y", ">", "$c", c);
}
void t_strict_eq(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.sum("x+y", "<", "$a", a);
    p.sum("x+y", ">", "$b", b);
    p.sum("x", "=", "$c", b);
    p.sum("y", "<=", "1", p.w.true_lit());
}
void t_strict_const(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.sum("$a", "<", "$b", a);
    p.sum("$a", ">", "1", b);
    p.sum("x", ">", "$a", b);
}
void t_strict_diff(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.diff("x", "y", "<", "$a", a);
    p.diff("y", "x", ">", "$b", -a);
    p.sum("x+y", "=", "$c", b);
    p.dom("0", "1", "y", p.w.true_lit());
}
//! negative and arbitrary coefficients
void t_strict_neg(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("-2*x", "<", "$a", a);
    p.sum("-x", ">", "$b", b);
    p.sum("x", "=", "$c", c);
}
void t_strict_coef(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.sum("$p*x", "<", "$a", a);
    p.sum("x", ">", "1", b);
    p.sum("y-x", ">", "0", p.w.true_lit());
}

//! an atom over one variable given by a row that is pushed to its bound by another one
void t_chain(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("x+y", "<=", "$a", a);
    p.sum("x", ">=", "1", b);
    p.sum("y", ">=", "$b", b);
    p.sum("2*x+2*y", "<=", "$c", c);
}
//! bounds of one row at several values
void t_levels(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("x+y", "<=", "$a", a);
    p.sum("x", "<=", "$b", b);
    p.sum("y", "=", "$c", c);
    p.sum("x+y", ">=", "2", p.w.true_lit());
}
//! equalities over rows
void t_eqs(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("x+y", "=", "$a", a);
    p.sum("x-y", "=", "$b", b);
    p.sum("x", "=", "$c", c);
}
//! Several bounds become active at once.
void t_implied(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("x", "=", "$a", a);
    p.sum("x", "<=", "$b", b);
    p.sum("x", ">=", "$c", c);
    p.w.clause({-a, b});
}
void t_together(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.sum("x+y", "=", "$a", a);
    p.sum("x+y", ">=", "$b", b);
    p.sum("x-y", "<=", "$c", c);
    p.sum("x", ">=", "1", -c);
    p.w.clause({-a, b});
    p.w.clause({-a, c});
}
void t_coef4(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.sum("$p*x", ">=", "$a", a);
    p.sum("$q*x", "=", "$b", b);
}

// ---- objectives ----
void o_box(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.opt(true, {{"x+y", 0}});
    p.sum("x", "<=", "$a", a);
    p.sum("y", "<=", "$b", b);
    p.sum("x+y", "<=", "$c", c);
}
void o_min(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(false, {{"2*x-y", 0}});
    p.sum("x-y", ">=", "$a", a);
    p.sum("x+y", "<=", "$b", b);
    p.sum("x", ">=", "$c", p.w.true_lit());
}
void o_eq(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(true, {{"x-2*y", 0}});
    p.sum("x+y", "=", "$a", a);
    p.dom("$b", "3", "x", b);
    p.sum("y", ">=", "$c", b);
}
void o_cond(Prog &p) {
    auto a = p.lit(), c = p.lit();
    p.opt(true, {{"x", c}, {"-y", 0}});
    p.sum("x", "<=", "$a", a);
    p.sum("x-y", "<=", "$b", p.w.true_lit());
    p.sum("y", ">=", "0", p.w.true_lit());
}
void o_poly(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(true, {{"3*x+2*y", 0}});
    p.sum("x+y", "<=", "$a", p.w.true_lit());
    p.sum("x-y", "<=", "$b", a);
    p.sum("2*x+y", "<=", "$c", b);
    p.sum("x", ">=", "0", p.w.true_lit());
    p.sum("y", ">=", "0", p.w.true_lit());
}
void o_two(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(true, {{"x", 0}});
    p.opt(false, {{"y", 0}, {"x/2", 0}});
    p.sum("x+y", "<=", "$a", a);
    p.sum("x", "<=", "$b", b);
    p.sum("y", ">=", "$c", p.w.true_lit());
}
void o_cancel(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(true, {{"x", 0}, {"y", 0}});
    p.opt(false, {{"x", 0}});
    p.sum("x+y", "<=", "$a", a);
    p.sum("x", ">=", "$b", b);
}
void o_coef(Prog &p) {
    auto a = p.lit();
    p.opt(true, {{"$p*x+$q*y", 0}});
    p.dom("0", "2", "x", p.w.true_lit());
    p.dom("-1", "1", "y", a);
    p.sum("x+y", "<=", "$a", p.w.true_lit());
}
void o_dup(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(true, {{"x+y", 0}});
    p.sum("x+y", "<=", "$a", a);
    p.sum("2*x+2*y", "<=", "$b", b);
    p.sum("x-y", "=", "$c", p.w.true_lit());
}
void o_three(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(true, {{"x+y+z", 0}});
    p.sum("x+y", "<=", "$a", p.w.true_lit());
    p.sum("y+z", "<=", "$b", a);
    p.sum("x+z", "<=", "$c", b);
    p.sum("z", "<=", "1", p.w.true_lit());
}
void o_strict(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(true, {{"x+y", 0}});
    p.sum("x", "<", "$a", a);
    p.sum("y", "<=", "$b", b);
    p.sum("2*x+y", "<", "$c", p.w.true_lit());
}
void o_strict_min(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(false, {{"x", 0}});
    p.sum("x", ">", "$a", a);
    p.sum("x-y", ">=", "$b", b);
    p.sum("y", ">", "$c", b);
}
//! Values of the objective in several steps: enumeration towards the optimum.
void g_bounds(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(true, {{"x", 0}});
    p.sum("x", "<=", "$a", a);
    p.sum("x", "<=", "$b", b);
    p.sum("x", "<=", "$c", p.w.true_lit());
}
void g_unbounded(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(true, {{"x+y", 0}});
    p.sum("x", "<=", "$a", a);
    p.sum("y", "<=", "$b", b);
}
void g_rows(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(false, {{"x+2*y", 0}});
    p.sum("x+y", ">=", "$a", a);
    p.sum("x+2*y", ">=", "$b", b);
    p.dom("0", "$c", "x", p.w.true_lit());
    p.dom("0", "4", "y", p.w.true_lit());
}
void g_excl(Prog &p) {
    auto a = p.lit(), b = p.lit(), c = p.lit();
    p.opt(true, {{"x", 0}});
    p.sum("x", "=", "$a", a);
    p.sum("x", "=", "$b", b);
    p.sum("x", "=", "$c", c);
    p.w.clause({a, b, c});
}
void g_strict(Prog &p) {
    auto a = p.lit(), b = p.lit();
    p.opt(true, {{"x", 0}});
    p.sum("x", "<", "$a", a);
    p.sum("x", "<=", "$b", -a);
    p.sum("x", "<", "$c", b);
    p.sum("x", "<=", "9", p.w.true_lit());
}

Case global(std::string name, Build b, std::string const &mode, How how, bool thorough = false) {
    return {std::move(name), [b, mode, how]() {
                auto *p = new Prog();
                p->set("objective", mode);
                b(*p);
                int n = p->w.vars;
                hooks(*p, how, n);
                p->start();
                Global g{*p, {}, 0, 0};
                if (auto pos = mode.find(','); pos != std::string::npos) {
                    if (mode.substr(pos + 1) == "e") {
                        g.step_k = 1;
                    } else {
                        g.step_c = Q(mode.substr(pos + 1));
                    }
                }
                Searcher s(*p, how, 0, n);
                s.model = [&](unsigned m) {
                    auto o = p->report(0);
                    g.accept(o);
                    check_objective(*p, truth(m), p->values(0), *o);
                };
                s.s.run();
                g.finish(n);
            }, thorough};
}

// ---- heuristics ----
//! The documented preference for literals with exactly one constraint.
void preference(Prog &p, Searcher &s, std::string const &mode) {
    s.s.on_decide = [&p, &s, mode](lit_t l, lit_t d) {
        if (d == 0) {
            d = l;
        }
        se::check(d == l || d == -l, "the heuristic decides on another variable");
        if (mode == "none") {
            se::check(d == l, "the fallback is changed without heuristic");
            return;
        }
        Con const *c = nullptr;
        auto condition = [&l](std::vector<Part> const &ps) {
            return std::any_of(ps.begin(), ps.end(), [&l](Part const &q) { return std::abs(q.cond) == std::abs(l); });
        };
        if (condition(p.objective)) {
            return;
        }
        for (auto const &x : p.cons) {
            if (condition(x.parts)) {
                return; // conditions have constraints of their own
            }
            if (std::abs(x.lit) == std::abs(l)) {
                if (c != nullptr) {
                    return;
                }
                c = &x;
            }
        }
        if (c == nullptr) {
            se::check(d == l, "the fallback is changed for a literal without constraint");
            return;
        }
        bool any = false;
        std::map<std::string, RF> co;
        for (auto const &q : c->parts) {
            any = any || q.cond != 0;
            for (auto const &[v, x] : q.lin.co) {
                co[v] = co[v] + x;
            }
        }
        bool vars = false;
        for (auto const &[v, x] : co) {
            vars = vars || !se::is_zero(x.n);
        }
        if (any || !vars) {
            return; // not decided by the values of the variables alone
        }
        auto v = Prog::value(c->parts, s.s.t.total() ? truth(s.s.t) : Truth([](lit_t) { return 1; }), p.values(0));
        bool pos = d == c->lit; // the constraint's literal is made true
        auto holds = Prog::lex(v, c->rel);
        se::check(pos == (mode == "match") ? holds : !holds,
                  "the heuristic does not follow its preference for " + c->text);
        reach(pos ? "decided true" : "decided false");
    };
}

Case options(std::string name, Build b, std::vector<std::pair<std::string, std::vector<std::string>>> opts, How how,
             bool thorough = false) {
    return {std::move(name), [b, opts, how]() {
                auto *p = new Prog();
                std::string select = "none";
                for (auto const &[k, vs] : opts) {
                    auto v = vs[choose(k, static_cast<int>(vs.size()))];
                    p->set(k, v);
                    if (k == "select") {
                        select = v;
                    }
                }
                b(*p);
                int n = p->w.vars;
                hooks(*p, how, n);
                p->start();
                Searcher s(*p, how, 0, n);
                if (select != "none") {
                    se::check(p->w.prop.decide != nullptr, "no decide callback with a heuristic");
                }
                preference(*p, s, select);
                s.s.run();
                s.finish();
            }, thorough};
}

//! Number of bases of the tableau times the positions of the non-basic variables.
Case pivots(std::string name, Build b, int vars, int rows, bool local, bool thorough = false) {
    return {std::move(name), [b, vars, rows, local]() {
                auto *p = new Prog();
                p->track_pivots = true;
                long n = 1;
                for (int i = 1; i <= rows; ++i) {
                    n = n * (vars + i) / i;
                }
                p->pivot_bound = n << vars;
                How how;
                how.clauses = false;
                how.complete = false;
                how.values = local;
                how.local = local;
                b(*p);
                explore(*p, how);
            }, thorough};
}

// ---- systems on which pivoting rules other than Bland's cycle ----

struct Bnd {
    char const *lo; // nullptr: none
    char const *up;
};
using Row = std::vector<int>;

std::string row_text(Row const &r) {
    std::string txt;
    for (size_t j = 0; j < r.size(); ++j) {
        if (r[j] != 0) {
            txt += (r[j] > 0 && !txt.empty() ? "+" : "") + std::to_string(r[j]) + "*x" + std::to_string(j);
        }
    }
    return txt;
}

void bound_text(Prog &p, std::string const &txt, Bnd b, lit_t l) {
    if (b.lo != nullptr && b.up != nullptr && std::string(b.lo) == b.up) {
        p.sum(txt, "=", b.lo, l);
        return;
    }
    if (b.lo != nullptr) {
        p.sum(txt, ">=", b.lo, l);
    }
    if (b.up != nullptr) {
        p.sum(txt, "<=", b.up, l);
    }
}

//! bounds of the variables and then of the rows, all of them facts (or: guarded by one literal)
Build feasibility(std::vector<Row> rows, std::vector<Bnd> bounds, bool guarded) {
    return [rows, bounds, guarded](Prog &p) {
        lit_t l = guarded ? p.lit() : p.w.true_lit();
        size_t n = rows.front().size();
        for (size_t j = 0; j < n; ++j) {
            bound_text(p, "x" + std::to_string(j), bounds[j], l);
        }
        for (size_t i = 0; i < rows.size(); ++i) {
            bound_text(p, row_text(rows[i]), bounds[n + i], l);
        }
    };
}

//! maximise the last row subject to bounds 0 of the variables and rows: lower bounds (0) or upper bounds (1)
Build degenerate(std::vector<Row> rows, std::string sides, std::vector<char const *> rhs) {
    return [rows, sides, rhs](Prog &p) {
        lit_t l = p.w.true_lit();
        size_t n = rows.front().size();
        for (size_t j = 0; j < n; ++j) {
            p.sum("x" + std::to_string(j), sides[j] == '0' ? ">=" : "<=", "0", l);
        }
        for (size_t i = 0; i + 1 < rows.size(); ++i) {
            p.sum(row_text(rows[i]), sides[n + i] == '0' ? ">=" : "<=", rhs[i], l);
        }
        p.opt(true, {{row_text(rows.back()), 0}});
    };
}

#define N_ nullptr
std::vector<std::pair<std::string, Build>> cycling() {
    using B = std::vector<Bnd>;
    using R = std::vector<Row>;
    std::vector<std::pair<std::string, Build>> r;
    auto feas = [&r](std::string const &n, R const &rows, B const &b, B const &s) {
        r.emplace_back("feasible_" + n, feasibility(rows, b, false));
        r.emplace_back("feasible_arbitrary_" + n, feasibility(rows, s, true));
    };
    // the largest entering index
    feas("enter_last1", {{-2, 1, -2, -1}, {-1, 1, 2, 1}, {2, 2, 2, -1}, {-1, 1, -2, -2}},
         {{"0", N_}, {N_, "1"}, {"0", N_}, {"-1", N_}, {N_, "-1"}, {"-1", N_}, {N_, "-1"}, {"1", N_}},
         {{"0", N_}, {N_, "1"}, {"0", N_}, {"-1", N_}, {N_, "$a"}, {"-1", N_}, {N_, "-1"}, {"$b", N_}});
    feas("enter_last2", {{1, 1, 2, 0}, {2, 1, -1, 1}, {-1, -2, 2, 2}, {2, -2, -1, 2}},
         {{N_, "1"}, {N_, "1"}, {N_, "1"}, {N_, "1"}, {N_, "1"}, {N_, "-1"}, {N_, "-1"}, {"1", "1"}},
         {{N_, "1"}, {N_, "1"}, {N_, "1"}, {N_, "1"}, {N_, "1"}, {N_, "$a"}, {N_, "-1"}, {"$b", "$b"}});
    // the largest leaving index
    feas("leave_last1", {{-1, -1, -2, -1}, {1, -2, -1, -2}, {-2, -2, -2, -1}, {0, 1, -1, -1}},
         {{N_, "0"}, {N_, "0"}, {N_, "-1"}, {"0", N_}, {N_, "0"}, {N_, "1"}, {"-1", N_}, {"0", "0"}},
         {{N_, "0"}, {N_, "0"}, {N_, "$a"}, {"0", N_}, {N_, "0"}, {N_, "1"}, {"$b", N_}, {"0", "0"}});
    feas("leave_last2", {{2, 2, 1, 1}, {-2, -1, -2, -1}, {1, 2, 0, -1}, {-1, 2, 2, -1}},
         {{N_, "-1"}, {N_, "-1"}, {"1", N_}, {"0", N_}, {"1", N_}, {N_, "1"}, {N_, "0"}, {N_, "0"}},
         {{N_, "-1"}, {N_, "-1"}, {"$a", N_}, {"0", N_}, {"$b", N_}, {N_, "1"}, {N_, "0"}, {N_, "0"}});
    // the first entry of the row
    feas("enter_first1", {{-2, -1, -2, -2}, {0, 2, 2, 1}, {1, 0, 1, 2}, {1, -2, 1, -2}},
         {{N_, "-1"}, {"0", "0"}, {"-1", N_}, {"0", N_}, {"-1", N_}, {N_, "0"}, {"1", N_}, {"-1", N_}},
         {{N_, "-1"}, {"0", "0"}, {"$a", N_}, {"0", N_}, {"-1", N_}, {N_, "0"}, {"$b", N_}, {"-1", N_}});
    feas("enter_first2", {{2, 1, 0, 3, -2}, {-3, 2, 1, 2, 3}, {1, -1, 1, 0, -3}, {3, 2, -3, 2, 2}},
         {{N_, "-1"}, {N_, "1"}, {"-1", N_}, {"-1", N_}, {N_, "1"}, {N_, "-1"}, {N_, "0"}, {"0", N_}, {"0", N_}},
         {{N_, "-1"}, {N_, "1"}, {"-1", N_}, {"-1", N_}, {N_, "$a"}, {N_, "$b"}, {N_, "0"}, {"0", N_}, {"0", N_}});
    // the last entry of the row
    feas("enter_end1", {{-2, 2, -2, 1}, {-1, -2, 0, 0}, {0, 0, -1, 2}, {1, 2, 0, -2}},
         {{"-1", N_}, {N_, "1"}, {N_, "0"}, {"-1", N_}, {N_, "1"}, {"0", N_}, {"1", N_}, {"1", N_}},
         {{"-1", N_}, {N_, "1"}, {N_, "0"}, {"-1", N_}, {N_, "1"}, {"0", N_}, {"$a", N_}, {"$b", N_}});
    feas("enter_end2", {{2, -1, 0, -2}, {1, 1, 0, 0}, {0, -2, -1, 1}, {2, 2, -2, 1}},
         {{"-1", N_}, {"-1", N_}, {N_, "0"}, {"1", N_}, {N_, "1"}, {N_, "-1"}, {N_, "0"}, {N_, "1"}},
         {{"-1", N_}, {"-1", N_}, {N_, "0"}, {"$a", N_}, {N_, "1"}, {N_, "$b"}, {N_, "0"}, {N_, "1"}});
    auto opt = [&r](std::string const &n, R const &rows, std::string const &sides = "0000111") {
        r.emplace_back("degenerate_" + n, degenerate(rows, sides, {"0", "0", "0"}));
        r.emplace_back("degenerate_arbitrary_" + n, degenerate(rows, sides, {"$a", "0", "$b"}));
    };
    opt("enter_last", {{4, -4, 1, -2}, {-4, 1, 3, 1}, {3, 3, -2, 4}, {3, 2, 4, -4}});
    opt("enter_first", {{-3, 1, -2, 2}, {-2, 3, -2, 1}, {3, 1, -3, 4}, {4, 4, 1, 1}});
    opt("enter_end", {{-2, 1, -1, -4}, {1, 3, -4, 4}, {0, 3, -2, -2}, {-2, 4, -3, 1}});
    opt("leave_last1", {{4, 2, 2, 1}, {-3, 0, 3, -2}, {1, -4, -3, -2}, {-2, 1, 4, 3}});
    opt("leave_last2", {{1, 4, 3, 3}, {1, -1, 0, 2}, {4, 1, -1, -3}, {-3, 2, 4, -4}});
    opt("leave_first", {{-4, -4, -1, 4}, {-4, -3, -3, 3}, {3, 4, -4, 1}, {2, 3, 2, -4}});
    opt("both_first", {{-4, 1, 2, 4}, {-3, 1, -1, -3}, {-4, 3, -1, 2}, {-4, 3, 1, -4}});
    opt("first_last", {{1, -3, 0, 3}, {2, -4, -1, 2}, {4, -3, -1, 1}, {-3, -2, -2, 3}});
    // rules that differ from Bland's only if the entering variable increases or only if it decreases
    opt("increase_last1", {{-2, 1, 3, -2}, {-2, -1, 0, 2}, {2, 2, 2, 0}, {-3, -3, -2, -2}}, "1101111");
    opt("increase_last2", {{-2, -1, -3, -2}, {3, 3, 2, 1}, {-1, 1, -2, 0}, {-3, -2, 3, 3}}, "0101101");
    opt("increase_first1", {{0, 2, 0, -2}, {2, 0, 0, 3}, {3, -1, 1, -1}, {1, 0, 1, -3}}, "0100011");
    opt("increase_first2", {{0, -1, -3, -3}, {2, 3, -1, 0}, {3, 3, 2, 1}, {-2, 2, 3, -1}}, "0011001");
    opt("decrease_last1", {{-2, 1, 2, 3}, {3, 0, 1, 1}, {0, -2, 3, 2}, {3, -2, 2, -1}}, "0101000");
    opt("decrease_last2", {{-2, -2, 1, 1}, {-3, -1, 2, 0}, {-2, 3, 2, 3}, {-2, -3, -1, -2}}, "0110111");
    opt("decrease_first1", {{-1, 0, -2, 2}, {-3, 0, 3, 2}, {-1, -2, -3, 1}, {-1, 0, -3, 0}}, "0111111");
    opt("decrease_first2", {{-1, 3, -1, 0}, {-1, 1, -2, 3}, {2, -3, -3, 2}, {-2, 1, 1, -2}}, "0101110");
    opt("decrease_largest1", {{-2, -1, 1, 3}, {-3, 2, -1, -1}, {2, 3, -3, -1}, {-3, -3, -2, -3}}, "1010100");
    // first in, first out and last in, first out; rules that differ from Bland's only if the violated bound is a lower or only if it is an upper bound
    feas("leave_fifo1", {{-2, 0, -2, -1}, {1, 0, -1, 2}, {1, -2, -2, 1}, {-1, 1, -1, 1}},
         {{"0", N_}, {N_, "-1"}, {N_, "1"}, {"1", N_}, {N_, "-1"}, {N_, "1"}, {"0", "0"}, {N_, "1"}},
         {{"0", N_}, {N_, "-1"}, {N_, "1"}, {"1", N_}, {N_, "$a"}, {N_, "$b"}, {"0", "0"}, {N_, "1"}});
    feas("leave_fifo2", {{1, 2, 0, 1}, {1, -1, 2, 1}, {0, 0, -2, -1}, {0, -2, -1, -2}},
         {{N_, "1"}, {"0", N_}, {N_, "0"}, {N_, "0"}, {N_, "1"}, {"1", "1"}, {"-1", N_}, {"1", N_}},
         {{N_, "1"}, {"0", N_}, {N_, "0"}, {N_, "0"}, {N_, "$a"}, {"1", "1"}, {"$b", N_}, {"1", N_}});
    feas("leave_lifo1", {{-2, 0, 2, -1}, {0, -2, -2, 1}, {1, 1, -1, 2}, {2, 1, -1, 1}},
         {{N_, "0"}, {N_, "1"}, {"0", N_}, {N_, "0"}, {N_, "-1"}, {N_, "-1"}, {"-1", "-1"}, {N_, "1"}},
         {{N_, "0"}, {N_, "1"}, {"0", N_}, {N_, "0"}, {N_, "$a"}, {N_, "$b"}, {"-1", "-1"}, {N_, "1"}});
    feas("leave_lifo2", {{2, -1, 0, -1}, {0, 2, 1, 0}, {-1, 0, 1, 1}, {1, 2, -1, -2}},
         {{N_, "-1"}, {"-1", N_}, {N_, "1"}, {N_, "0"}, {"1", "1"}, {"1", N_}, {N_, "1"}, {"0", "0"}},
         {{N_, "-1"}, {"-1", N_}, {N_, "1"}, {N_, "0"}, {"1", "1"}, {"$a", N_}, {N_, "$b"}, {"0", "0"}});
    feas("lower_enter_end1", {{2, -1, 2, 2}, {2, -1, 0, -1}, {0, 2, 2, 0}, {0, 2, -1, 0}},
         {{"1", N_}, {"-1", N_}, {N_, "0"}, {"1", N_}, {N_, "1"}, {"-1", N_}, {"-1", N_}, {N_, "0"}},
         {{"1", N_}, {"-1", N_}, {N_, "0"}, {"1", N_}, {N_, "$a"}, {"$b", N_}, {"-1", N_}, {N_, "0"}});
    feas("lower_enter_end2", {{1, 1, -2, -1}, {0, -1, 2, -1}, {-1, 0, 1, 2}, {-1, 0, 1, -1}},
         {{"-1", N_}, {N_, "1"}, {"0", N_}, {N_, "1"}, {"1", "1"}, {N_, "-1"}, {"1", N_}, {"1", N_}},
         {{"-1", N_}, {N_, "1"}, {"0", N_}, {N_, "1"}, {"1", "1"}, {N_, "$a"}, {"$b", N_}, {"1", N_}});
    feas("upper_enter_end1", {{1, 1, 2, 2}, {-1, -2, 2, -1}, {0, 0, -1, 2}, {1, 1, 1, 1}},
         {{"-1", N_}, {"0", N_}, {N_, "0"}, {"0", N_}, {N_, "0"}, {"-1", "-1"}, {N_, "0"}, {N_, "-1"}},
         {{"-1", N_}, {"0", N_}, {N_, "0"}, {"0", N_}, {N_, "$a"}, {"-1", "-1"}, {N_, "$b"}, {N_, "-1"}});
    feas("upper_enter_end2", {{-2, -1, 2, -2}, {0, -2, 1, 1}, {-2, -2, -1, 2}, {-1, -1, -2, 0}},
         {{"0", N_}, {N_, "-1"}, {N_, "1"}, {"-1", N_}, {N_, "0"}, {N_, "1"}, {"0", "0"}, {N_, "-1"}},
         {{"0", N_}, {N_, "-1"}, {N_, "1"}, {"-1", N_}, {N_, "$a"}, {N_, "$b"}, {"0", "0"}, {N_, "-1"}});
    feas("lower_enter_last2", {{-2, -1, 1, -1}, {1, -2, 1, -1}, {0, -2, 1, -2}, {1, 2, -2, 0}},
         {{N_, "1"}, {"-1", N_}, {"1", N_}, {"0", N_}, {"0", N_}, {"-1", "-1"}, {"1", N_}, {"1", N_}},
         {{N_, "1"}, {"-1", N_}, {"1", N_}, {"0", N_}, {"$a", N_}, {"-1", "-1"}, {"$b", N_}, {"1", N_}});
    feas("upper_enter_last2", {{0, 0, 1, 1}, {-1, -2, 1, 1}, {1, 1, 2, -2}, {2, -1, 1, -2}},
         {{N_, "0"}, {N_, "-1"}, {N_, "1"}, {N_, "0"}, {N_, "0"}, {N_, "1"}, {"0", N_}, {N_, "-1"}},
         {{N_, "0"}, {N_, "-1"}, {N_, "1"}, {N_, "0"}, {N_, "$a"}, {N_, "$b"}, {"0", N_}, {N_, "-1"}});
    feas("lower_enter_first1", {{1, -1, -2, -2}, {1, -2, 2, -2}, {-1, 0, -1, 2}, {1, 1, -1, 1}},
         {{N_, "1"}, {"-1", N_}, {"-1", N_}, {N_, "-1"}, {N_, "-1"}, {"1", N_}, {"0", N_}, {"-1", N_}},
         {{N_, "1"}, {"-1", N_}, {"-1", N_}, {N_, "-1"}, {N_, "$a"}, {"$b", N_}, {"0", N_}, {"-1", N_}});
    feas("lower_enter_first2", {{1, 1, -1, 2}, {2, -1, 0, 1}, {-1, 1, 1, 1}, {-2, 0, -2, 2}},
         {{"-1", N_}, {"0", N_}, {"1", N_}, {"0", N_}, {N_, "1"}, {"0", "0"}, {N_, "1"}, {"1", N_}},
         {{"-1", N_}, {"0", N_}, {"1", N_}, {"0", N_}, {N_, "$a"}, {"0", "0"}, {N_, "$b"}, {"1", N_}});
    feas("upper_enter_first1", {{1, -2, 0, -2}, {1, 2, -1, -1}, {-1, 1, 2, -2}, {0, -1, 2, 0}},
         {{N_, "1"}, {"-1", N_}, {"1", N_}, {"0", N_}, {"-1", N_}, {"-1", N_}, {N_, "0"}, {N_, "1"}},
         {{N_, "1"}, {"-1", N_}, {"1", N_}, {"0", N_}, {"$a", N_}, {"$b", N_}, {N_, "0"}, {N_, "1"}});
    return r;
}
#undef N_

} // namespace

int main(int argc, char **argv) {
    std::vector<Case> cs;
    How all;               // all orders and signs
    How one;               // one order, all signs
    one.order = false;
    How jump = one;        // one backjump
    jump.jumps = 1;
    How jumps = all;
    jumps.jumps = 1;
    How jump2 = one;
    jump2.jumps = 2;
    auto strict = [](Build b) { return with(b, {{"strict", "yes"}}); };
    std::vector<std::pair<std::string, Build>> ts{
        {"pair", t_pair},     {"bounds", t_bounds}, {"nested", t_nested}, {"rows", t_rows},   {"dom", t_dom},
        {"dup", t_dup},       {"signs", t_signs},   {"shared", t_shared}, {"const", t_const}, {"facts", t_facts},
        {"cond", t_cond},     {"three", t_three},   {"coef1", t_coef1},   {"coef2", t_coef2}, {"coef3", t_coef3},
        {"implied", t_implied}, {"together", t_together}, {"coef4", t_coef4},   {"chain", t_chain},   {"levels", t_levels}, {"eqs", t_eqs}};
    std::vector<std::pair<std::string, Build>> ss{{"strict", t_strict},
                                                  {"strict_rows", t_strict_rows},
                                                  {"strict_eq", t_strict_eq},
                                                  {"strict_const", t_strict_const},
                                                  {"strict_diff", t_strict_diff},
                                                  {"strict_neg", t_strict_neg},
                                                  {"strict_coef", t_strict_coef}};
    std::vector<std::pair<std::string, Build>> os{{"box", o_box},       {"min", o_min}, {"eq", o_eq},     {"cond", o_cond}, {"poly", o_poly},
                                                  {"two", o_two},       {"cancel", o_cancel}, {"coef", o_coef}, {"dup", o_dup},   {"three", o_three}};
    std::vector<std::pair<std::string, Build>> gs{{"bounds", g_bounds}, {"unbounded", g_unbounded}, {"rows", g_rows},
                                                  {"excl", g_excl},     {"box", o_box},             {"cond", o_cond}};
    auto only = [](How h, bool values, bool clauses, bool complete) {
        h.values = values;
        h.clauses = clauses;
        h.complete = complete;
        return h;
    };
    auto heu = [](How h) {
        h.decide = true;
        return h;
    };
    auto local = [](How h) {
        h.local = true;
        return h;
    };
    using Choice = std::vector<std::pair<std::string, std::vector<std::string>>>;
    Choice stores{{"store", {"partial", "total"}}};
    Choice props{{"propagate-bounds", {"changed", "full"}}, {"propagate-conflicts", {"no", "yes"}}};
    Choice heus{{"select", {"match", "conflict"}}};
    Choice every{{"store", {"no", "partial", "total"}}, {"propagate-bounds", {"none", "changed", "full"}}, {"select", {"none", "match", "conflict"}}};
    for (auto &[n, b] : ss) {
        b = strict(b);
    }
    std::vector<std::pair<std::string, Build>> both = ts;
    both.insert(both.end(), ss.begin(), ss.end());
    // templates on which backjumps are explored in the quick tier, too
    auto jumping = [](std::string const &n) {
        return n != "chain" && n != "pair" && n != "coef2" && n != "const" && n != "strict";
    };
    std::vector<std::pair<std::string, Build>> stored{{"nested", t_nested}, {"levels", t_levels}, {"signs", t_signs},
                                                      {"eqs", t_eqs}, {"strict_rows", strict(t_strict_rows)}};
    // C01: values of accepted assignments
    How v = only(all, true, false, false);
    for (auto &[n, b] : both) {
        cs.push_back(make("C01/" + n, b, v));
        cs.push_back(options("C01/options_" + n, b, every, heu(only(one, true, false, false)), true));
        cs.push_back(make("C01/jump_" + n, b, only(jump, true, false, false), !jumping(n)));
    }
    for (auto &[n, b] : os) {
        cs.push_back(make("C01/optimum_" + n, b, only(one, true, false, false)));
    }
    for (auto &[n, b] : std::vector<std::pair<std::string, Build>>{{"levels", t_levels}, {"eqs", t_eqs}, {"nested", t_nested}, {"strict_rows", strict(t_strict_rows)}}) {
        cs.push_back(options("C01/store_" + n, b, stores, only(one, true, false, false)));
    }
    for (auto &[n, b] : stored) {
        cs.push_back(options("C01/store_jump_" + n, b, stores, only(jump, true, false, false)));
    }
    // C02: clauses
    for (auto &[n, b] : both) {
        cs.push_back(make("C02/" + n, b, only(all, false, true, false)));
        cs.push_back(options("C02/propagate_" + n, b, props, only(one, false, true, false)));
        cs.push_back(options("C02/propagate_all_" + n, b, props, only(all, false, true, false), true));
        cs.push_back(make("C02/jump_" + n, b, only(jump, false, true, false), !jumping(n)));
    }
    // C03: backtracking
    for (auto &[n, b] : both) {
        cs.push_back(make("C03/" + n, b, jump, !jumping(n)));
        cs.push_back(make("C03/two_" + n, b, jump2, true));
    }
    for (auto &[n, b] : stored) {
        cs.push_back(options("C03/store_" + n, b, stores, jump));
    }
    // values are changed by the optimisation at the last level, too
    for (auto &[n, b] : os) {
        cs.push_back(make("C03/optimum_" + n, b, local(jump)));
        cs.push_back(options("C03/optimum_store_" + n, b, stores, local(jump), true));
    }
    // C04: local optima
    for (auto &[n, b] : os) {
        cs.push_back(make("C04/" + n, b, local(only(all, true, false, false))));
        cs.push_back(options("C04/store_" + n, b, stores, local(only(one, true, false, false))));
        cs.push_back(make("C04/jump_" + n, b, local(only(jump, true, false, false))));
    }
    cs.push_back(make("C04/strict", strict(o_strict), local(only(all, true, false, false))));
    cs.push_back(make("C04/strict_min", strict(o_strict_min), local(only(all, true, false, false))));
    // C05: global optima
    How g = only(all, true, false, false);
    for (auto &[n, b] : gs) {
        cs.push_back(global("C05/" + n, b, "global", g));
        cs.push_back(global("C05/" + n + "_step", b, "global,3/2", g));
    }
    cs.push_back(global("C05/strict", strict(g_strict), "global", g));
    cs.push_back(global("C05/strict_e", strict(g_strict), "global,e", g));
    cs.push_back(global("C05/strict_step", strict(g_strict), "global,1", g));
    cs.push_back(global("C05/excl_e", strict(g_excl), "global,e", g));
    // C06: strict inequalities
    for (auto &[n, b] : ss) {
        cs.push_back(make("C06/" + n, b, all));
        cs.push_back(options("C06/propagate_" + n, b, props, one));
        cs.push_back(make("C06/jump_" + n, b, jump, n == "strict" || n == "strict_rows"));
        cs.push_back(options("C06/store_" + n, b, stores, jump, true));
    }
    for (auto &[n, b] : std::vector<std::pair<std::string, Build>>{{"bounds", t_bounds}, {"pair", t_pair}, {"signs", t_signs}}) {
        cs.push_back(make("C06/nonstrict_" + n, strict(b), one));
    }
    // C14: options
    How c = only(one, false, false, true);
    for (auto &[n, b] : both) {
        bool quick = n != "chain" && n != "rows" && n != "strict" && n != "dup";
        cs.push_back(options("C14/select_" + n, b, heus, heu(c)));
        cs.push_back(options("C14/propagate_" + n, b, props, c, !quick));
        cs.push_back(options("C14/store_" + n, b, stores, only(one, false, false, true), !quick));
        cs.push_back(options("C14/store_jump_" + n, b, stores, only(jump, false, false, true), !jumping(n)));
        cs.push_back(options("C14/all_" + n, b, every, heu(c), true));
        cs.push_back(options("C14/jump_" + n, b, every, heu(only(jump, false, false, true)), true));
    }
    // C20: pivots
    for (auto &[n, b] : ts) {
        bool quick = n != "chain" && n != "pair" && n != "bounds";
        cs.push_back(pivots("C20/" + n, b, 3, 3, false, !quick));
    }
    for (auto &[n, b] : os) {
        cs.push_back(pivots("C20/optimum_" + n, b, 3, 3, true));
    }
    for (auto &[n, b] : cycling()) {
        cs.push_back(pivots("C20/" + n, b, 5, 4, false));
    }
    return run_main(argc, argv, "lpx", cs);
}
