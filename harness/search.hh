// Complete searches over all schedules of decisions and backjumps.
#pragma once
#include "lpx.hh"

namespace lpx {

struct How {
    bool order = true;    // all orders of decisions (else: fixed order, both signs)
    bool signs = true;    // all signs
    int jumps = 0;        // backjumps to arbitrary levels at arbitrary fixpoints
    bool values = true;   // accepted values satisfy the constraints
    bool clauses = true;  // clauses are implied
    bool complete = true; // exactly the satisfiable assignments are accepted
    bool local = false;   // check the local objective
    bool decide = false;  // ask the decision heuristic
};

inline std::string choice(char const *a, int n) { return a + std::to_string(n); }

//! Exactness of a reported local optimum.
inline void check_objective(Prog &p, Truth const &tv, Values const &vals, Prog::Obj const &o) {
    auto got = Prog::value(p.objective, tv, vals);
    se::check(rel(got.c, "=", o.v.c) && rel(got.k, "=", o.v.k), "the reported objective is not attained by the reported values");
    auto none = [](lit_t) -> z3::expr { unsupported("undefined literal"); };
    if (o.bounded) {
        reach("bounded optimum");
        // the value is the supremum; a negative epsilon part tells that it is not attained
        auto xs = p.fresh_vars();
        auto obj = Prog::sum_of(p.objective, tv, none, xs);
        auto c = rat(o.v.c);
        auto f = p.in_force(tv, xs) && (obj > c || (obj >= c && rel(o.v.k, "<", RF(0))));
        se::check(!f, "the reported objective is not optimal");
        se::check(rel(o.v.k, "<=", RF(0)), "the reported objective exceeds the optimum by an epsilon");
    } else {
        reach("unbounded objective");
        // an unbounded ray exists iff the objective is no combination of the constraints
        z3::expr f = tru();
        std::map<std::string, z3::expr> sum;
        for (auto const &n : p.names) {
            sum.emplace(n, ctx().real_val(0));
        }
        for (auto const &c : p.cons) {
            if (tv(c.lit) <= 0) {
                continue;
            }
            auto y = fresh_real("y");
            if (c.rel[0] == '<') {
                f = f && y >= 0;
            } else if (c.rel[0] == '>') {
                f = f && y <= 0;
            }
            for (auto const &q : c.parts) {
                if (q.cond != 0 && tv(q.cond) <= 0) {
                    continue;
                }
                for (auto const &[v, co] : q.lin.co) {
                    if (!co.n.is_const() || !co.d.is_const()) {
                        set_nonlinear();
                    }
                    if (!co.n.is_zero()) {
                        sum.at(v) = sum.at(v) + rat(co) * y;
                    }
                }
            }
        }
        for (auto const &q : p.objective) {
            if (q.cond != 0 && tv(q.cond) <= 0) {
                continue;
            }
            for (auto const &[v, co] : q.lin.co) {
                if (!co.n.is_zero()) {
                    sum.at(v) = sum.at(v) - rat(co);
                }
            }
        }
        for (auto const &[n, e] : sum) {
            f = f && e == ctx().real_val(0);
        }
        se::check(!f, "the objective is flagged unbounded but it is bounded");
    }
}

struct Searcher {
    Prog &p;
    How how;
    int thread;
    int nvars;
    int jumps;
    sim::Search s;
    std::set<unsigned> found;
    std::vector<lit_t> ranking;
    std::set<lit_t> negative;
    std::function<void(unsigned)> model; // additional checks per model

    Searcher(Prog &prog, How h, int th, int n) : p{prog}, how{h}, thread{th}, nvars{n}, jumps{h.jumps}, s{prog.w, th} {
        s.pick = [this](std::vector<lit_t> const &free) {
            // the order and the preferred signs are fixed when first needed
            for (auto v : ranking) {
                if (std::find(free.begin(), free.end(), v) != free.end()) {
                    return decision(v);
                }
            }
            int k = how.order ? choose("decide", static_cast<int>(free.size())) : 0;
            ranking.push_back(free[k]);
            if (how.signs && choose("sign", 2) == 1) {
                negative.insert(free[k]);
            }
            return decision(free[k]);
        };
        if (jumps > 0) {
            s.jump = [this](int level) {
                if (jumps <= 0 || level == 0) {
                    return -1;
                }
                int k = choose("jump", level + 1);
                if (k == level) {
                    return -1;
                }
                --jumps;
                note("backjump to level " + std::to_string(k));
                reach("backjump");
                return k;
            };
        }
        s.heuristic = how.decide;
        s.on_model = [this]() {
            unsigned b = bits(p.w.thr[thread], nvars);
            std::string txt;
            for (int v = 2; v <= nvars; ++v) {
                txt += (b >> v & 1U) != 0 ? " " + std::to_string(v) : " -" + std::to_string(v);
            }
            note("model" + txt);
            if (how.values) {
                auto vals = p.values(thread);
                p.check_values(truth(b), vals, "");
                if (how.local && p.has_objective) {
                    auto o = p.report(thread);
                    if (!o) {
                        // nothing is reported if all coefficients cancel
                        std::map<std::pair<lit_t, std::string>, RF> sum;
                        for (auto const &q : p.objective) {
                            for (auto const &[v, co] : q.lin.co) {
                                auto &x = sum[{q.cond, v}];
                                x = x + co;
                            }
                        }
                        for (auto const &[k, co] : sum) {
                            se::check(rel(co, "=", RF(0)), "no objective is reported");
                        }
                    } else {
                        check_objective(p, truth(b), vals, *o);
                    }
                }
            }
            reach("model");
            if (model) {
                model(b);
            }
            se::check(found.insert(b).second || !s.blocking, "an assignment is reported twice");
            return true;
        };
    }
    lit_t decision(lit_t v) {
        lit_t l = negative.count(v) != 0 ? -v : v;
        note("decide " + std::to_string(l));
        return l;
    }
    void finish() {
        if (!how.complete) {
            return;
        }
        for (unsigned b : assignments(p.w, nvars)) {
            if (found.count(b) != 0) {
                continue;
            }
            auto xs = p.fresh_vars();
            std::string txt;
            for (int v = 2; v <= nvars; ++v) {
                txt += (b >> v & 1U) != 0 ? " " + std::to_string(v) : " -" + std::to_string(v);
            }
            se::check(!p.in_force(truth(b), xs), "a satisfiable assignment is not accepted:" + txt);
            reach("rejected assignment");
        }
    }
};

inline void hooks(Prog &p, How const &how, int nvars) {
    if (how.clauses) {
        p.w.on_clause = [&p, nvars](sim::Thr &, sim::Clause const &c) { p.check_clause(c, "a clause added during search", nvars); };
        p.w.on_init_clause = [&p, nvars](sim::Clause const &c) { p.check_clause(c, "a clause added during initialisation", nvars); };
    }
}

//! Initialise, search everything and compare with the reference.
inline std::set<unsigned> explore(Prog &p, How how) {
    int n = p.w.vars;
    hooks(p, how, n);
    p.start();
    Searcher s(p, how, 0, n);
    s.s.run();
    s.finish();
    return s.found;
}

inline std::string lits(unsigned b, int n) {
    std::string txt;
    for (int v = 2; v <= n; ++v) {
        txt += (b >> v & 1U) != 0 ? " " + std::to_string(v) : " -" + std::to_string(v);
    }
    return txt;
}

//! Global optimisation.
struct Global {
    Prog &p;
    std::optional<Prog::Obj> best;
    Q step_c, step_k;
    static z3::expr at_least(Val const &a, Val const &b) { // lexicographic a >= b
        return rel(a.c, ">", b.c) || (rel(a.c, "=", b.c) && rel(a.k, ">=", b.k));
    }
    void accept(std::optional<Prog::Obj> const &o) {
        if (!o) {
            fail("no objective is reported");
        }
        if (best) {
            if (!best->bounded) {
                se::check(!o->bounded, "a bounded answer is reported after an unbounded one");
            } else if (o->bounded) {
                Val b = best->v;
                b.c = b.c + RF(step_c);
                b.k = b.k + RF(step_k);
                se::check(at_least(o->v, b), "a reported answer does not improve on the best one by the step");
                reach("improved");
            } else {
                reach("unbounded improves");
            }
        }
        best = o;
    }
    //! Every remaining answer improves by less than the step.
    void finish(int n) {
        for (unsigned b : assignments(p.w, n)) {
            auto xs = p.fresh_vars();
            auto tv = truth(b);
            auto f = p.in_force(tv, xs);
            if (best) {
                if (!best->bounded) {
                    return;
                }
                auto ob = Prog::sum_of(p.objective, tv, [](lit_t) -> z3::expr { unsupported("undefined literal"); }, xs);
                Val lim = best->v;
                lim.c = lim.c + RF(step_c);
                lim.k = lim.k + RF(step_k);
                // improving by the step: above lim, or equal if lim is not above a real value
                auto c = rat(lim.c);
                f = f && (ob > c || (ob >= c && rel(lim.k, "<=", RF(0))));
                if (step_c == 0 && step_k == 0) {
                    f = f && (ob > c || rel(best->v.k, "<", RF(0)));
                }
            }
            se::check(!f, best ? "an answer that improves on the last one was lost:" + lits(b, n)
                               : "a satisfiable assignment is not accepted:" + lits(b, n));
            reach("optimum");
        }
    }
};

} // namespace lpx
