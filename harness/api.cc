// Multi-shot solving, solver threads, the C interface and statistics.
#include "search.hh"

#include "tableau.hh"

using namespace lpx;

namespace se {
void count_calls(void *fn);
long calls();
} // namespace se

namespace {

using Build = std::function<void(Prog &)>;
using Opts = std::vector<std::pair<std::string, std::string>>;

bool counting = false;

//! The literals shared by the steps of a program.
std::map<std::string, lit_t> named;
lit_t L(Prog &p, std::string const &n) {
    auto it = named.find(n);
    if (it == named.end()) {
        it = named.emplace(n, p.lit()).first;
    }
    return it->second;
}

// ---- multi-shot ----

struct Shots {
    How how;
    bool optimum = false; // local objective
    std::vector<std::pair<std::string, std::vector<std::string>>> opts;
};

void multi(std::vector<Build> const &steps, Shots const &sh) {
    auto *p = new Prog();
    named.clear();
    for (auto const &[k, vs] : sh.opts) {
        p->set(k, vs.size() == 1 ? vs[0] : vs[choose(k, static_cast<int>(vs.size()))]);
    }
    size_t shown = 0;
    sim::Stats accu;
    double pivots = 0;
    double bounds = 0;
    for (size_t i = 0; i < steps.size(); ++i) {
        note("step " + std::to_string(i));
        p->w.atoms.clear();
        steps[i](*p);
        p->w.begin_step();
        for (; shown < p->cons.size(); ++shown) {
            note(p->cons[shown].text);
        }
        int n = p->w.vars;
        hooks(*p, sh.how, n);
        if (i == 0) {
            p->create();
        }
        p->w.init();
        How how = sh.how;
        how.local = sh.optimum;
        Searcher s(*p, how, 0, n);
        s.s.root = 1;
        s.s.run();
        s.finish();
        p->w.end_step();
        reach(i == 0 ? "first step" : i == 1 ? "second step" : "third step");
        if (!s.found.empty() && i > 0) {
            reach("model in a later step");
        }
        if (i > 0 && s.found.empty()) {
            reach("later step without model");
        }
        sim::Stats st;
        if (!clingolpx_on_statistics(p->t, sim::statistics(st), sim::statistics(accu))) {
            fail("clingolpx_on_statistics failed: " + sim::last_error());
        }
        pivots += st.at("Simplex", "Pivots");
        bounds += st.at("Simplex", "Bounds propagated");
        se::check(accu.at("Simplex", "Pivots") == pivots, "the accumulated pivots are not the sum over the steps");
        se::check(accu.at("Simplex", "Bounds propagated") == bounds, "the accumulated propagated bounds are not the sum over the steps");
    }
}

Case shots(std::string name, std::vector<Build> steps, Shots sh, bool thorough = false) {
    return {std::move(name), [steps, sh]() { multi(steps, sh); }, thorough};
}

Build fact_row(std::string const &term, std::string const &rel, std::string const &rhs) {
    return [=](Prog &p) { p.sum(term, rel, rhs, p.w.true_lit()); };
}

struct Template {
    std::string name;
    std::vector<Build> steps;
    bool objective = false;
};

std::vector<Template> templates() {
    std::vector<Template> r;
    // facts on one variable, with later choices
    r.push_back({"bound", {[](Prog &p) { p.sum("x", "<=", "$a", p.w.true_lit()); },
                           [](Prog &p) { p.sum("x", ">=", "$b", L(p, "a")); },
                           [](Prog &p) { p.sum("x", "=", "$c", L(p, "b")); }}});
    // a choice of the first step becomes a fact in the second
    r.push_back({"late", {[](Prog &p) {
                              p.sum("x+y", "<=", "$a", L(p, "a"));
                              p.sum("x", ">=", "1", p.w.true_lit());
                          },
                          [](Prog &p) {
                              p.w.clause({L(p, "a")});
                              p.sum("y", ">=", "$b", L(p, "b"));
                          },
                          [](Prog &p) { p.sum("x-y", "=", "$c", L(p, "c")); }}});
    // a new fact literal in the first step
    r.push_back({"unit", {[](Prog &p) {
                              p.sum("x-y", ">=", "$a", L(p, "a"));
                              p.w.clause({L(p, "a")});
                              p.sum("x", "<=", "$b", L(p, "b"));
                          },
                          [](Prog &p) { p.sum("y", ">=", "$c", L(p, "c")); }}});
    // facts that are found during the search of the first step
    r.push_back({"learned", {[](Prog &p) {
                                 p.sum("x", ">=", "$a", p.w.true_lit());
                                 p.sum("x", "<=", "$b", L(p, "a"));
                                 p.sum("y", ">=", "$c", L(p, "b"));
                                 p.w.clause({L(p, "a"), L(p, "b")});
                             },
                             [](Prog &p) { p.sum("y", "<=", "0", L(p, "c")); }}});
    // a fact which holds in both phases of a literal
    r.push_back({"phases", {[](Prog &p) {
                                p.sum("x", ">=", "$a", -L(p, "a"));
                                p.sum("y", ">=", "0", p.w.true_lit());
                            },
                            [](Prog &p) {
                                p.w.clause({-L(p, "a")});
                                p.sum("x+y", "<=", "$b", L(p, "b"));
                            },
                            [](Prog &p) { p.sum("x", "<=", "$c", L(p, "c")); }}});
    // steps that add no constraints
    r.push_back({"again", {[](Prog &p) {
                               p.sum("x", "<=", "$a", L(p, "a"));
                               p.sum("x", "<=", "$b", p.w.true_lit());
                               p.sum("x+y", ">=", "$c", L(p, "b"));
                           },
                           [](Prog &) {},
                           [](Prog &p) { p.w.clause({L(p, "a")}); }}});
    // several facts in several steps
    r.push_back({"steps", {fact_row("x+y", "<=", "$a"), fact_row("x", ">=", "$b"),
                           [](Prog &p) { p.sum("y", ">=", "$c", L(p, "a")); }}});
    // equalities and differences
    r.push_back({"eq", {[](Prog &p) {
                            p.sum("x+y", "=", "$a", p.w.true_lit());
                            p.diff("x", "y", "<=", "$b", L(p, "a"));
                        },
                        [](Prog &p) { p.dom("$c", "2", "x", L(p, "b")); }}});
    // nothing at first
    r.push_back({"empty", {[](Prog &p) { L(p, "z"); },
                           [](Prog &p) { p.sum("x+y", ">=", "$a", p.w.true_lit()); p.sum("x", "<=", "$b", L(p, "a")); },
                           [](Prog &p) { p.sum("y", "<=", "$c", L(p, "b")); }}});
    // conditional elements, again in a later step
    r.push_back({"cond", {[](Prog &p) {
                              p.sum(std::vector<Elem>{{"x", L(p, "c")}, {"y", 0}}, ">=", "$a", p.w.true_lit());
                              p.sum("y", "<=", "0", p.w.true_lit());
                          },
                          [](Prog &p) {
                              p.sum(std::vector<Elem>{{"2*x", L(p, "c")}}, "<=", "$b", L(p, "a"));
                              p.sum("x", "<=", "$c", p.w.true_lit());
                          }}});
    // the ids of conjunctions are reused
    r.push_back({"conj", {[](Prog &p) {
                              p.sum(std::vector<Elem>{{"x", L(p, "c"), true}, {"y", 0}}, ">=", "$a", p.w.true_lit());
                              p.sum("y", "<=", "0", p.w.true_lit());
                          },
                          [](Prog &p) {
                              p.sum(std::vector<Elem>{{"x", L(p, "d"), true}, {"y", 0}}, "<=", "$b", p.w.true_lit());
                              p.sum("x", "=", "$c", p.w.true_lit());
                          }}});
    // constraints without variables
    r.push_back({"const", {[](Prog &p) { p.sum("$a", "<=", "0", L(p, "a")); p.sum("x", ">=", "$b", L(p, "a")); },
                           [](Prog &p) { p.w.clause({L(p, "a")}); p.sum("x", "<=", "$c", L(p, "b")); }}});
    // objectives
    r.push_back({"max", {[](Prog &p) {
                             p.opt(true, {{"x", 0}});
                             p.sum("x", "<=", "$a", p.w.true_lit());
                         },
                         [](Prog &p) { p.sum("x+y", "<=", "$b", L(p, "a")); },
                         [](Prog &p) {
                             p.opt(false, {{"y", 0}});
                             p.sum("y", ">=", "$c", p.w.true_lit());
                         }},
                 true});
    r.push_back({"maxfact", {[](Prog &p) {
                                 p.sum("x+y", "<=", "$a", p.w.true_lit());
                                 p.sum("x", "<=", "$b", L(p, "a"));
                             },
                             [](Prog &p) {
                                 p.opt(true, {{"2*x+y", 0}});
                                 p.sum("y", ">=", "$c", p.w.true_lit());
                             }},
                 true});
    return r;
}

//! Each step is optimised globally on its own.
Case shots_global(std::string name, std::vector<Build> steps, bool thorough = false) {
    return {std::move(name), [steps]() {
                auto *p = new Prog();
                named.clear();
                p->set("objective", "global");
                size_t shown = 0;
                for (size_t i = 0; i < steps.size(); ++i) {
                    note("step " + std::to_string(i));
                    p->w.atoms.clear();
                    steps[i](*p);
                    p->w.begin_step();
                    for (; shown < p->cons.size(); ++shown) {
                        note(p->cons[shown].text);
                    }
                    int n = p->w.vars;
                    if (i == 0) {
                        p->create();
                    }
                    p->w.init();
                    How how;
                    how.order = false;
                    how.complete = false;
                    Searcher s(*p, how, 0, n);
                    s.s.root = 1;
                    std::optional<Prog::Obj> best;
                    s.model = [&](unsigned m) {
                        auto o = p->report(0);
                        if (!o) {
                            fail("no objective is reported");
                        }
                        check_objective(*p, truth(m), p->values(0), *o);
                        if (best && best->bounded && o->bounded) {
                            se::check(rel(o->v.c, ">=", best->v.c), "a reported answer is worse than the best one of the step");
                            reach("improved");
                        }
                        se::check(!best || best->bounded || !o->bounded, "a bounded answer is reported after an unbounded one");
                        best = o;
                    };
                    s.s.run();
                    for (unsigned b : assignments(p->w, n)) {
                        auto xs = p->fresh_vars();
                        auto tv = truth(b);
                        auto f = p->in_force(tv, xs);
                        if (best && !best->bounded) {
                            break;
                        }
                        if (best) {
                            auto ob = Prog::sum_of(p->objective, tv, [](lit_t) -> z3::expr { unsupported("undefined literal"); }, xs);
                            f = f && ob > rat(best->v.c);
                        }
                        se::check(!f, "an answer that improves on the last one of the step was lost");
                        reach("optimum of a step");
                    }
                    p->w.end_step();
                }
            }, thorough};
}

// ---- threads ----

struct Two {
    Prog &p;
    std::vector<std::unique_ptr<Searcher>> s;
    std::vector<bool> done{false, false};
    int switches; // preemptions left
    bool master = false; // the first thread propagates before the others start
    bool stop = false;   // the step ends
    Two(Prog &p, How how, int n, int switches = 3) : p{p}, switches{switches} {
        for (int i = 0; i < 2; ++i) {
            s.push_back(std::make_unique<Searcher>(p, how, i, n));
            s.back()->s.split = true;
        }
    }
    //! All interleavings of the steps of the two searches within the bound on preemptions.
    void run(int max = 400) {
        int last = -1;
        for (int k = 0; k < max; ++k) {
            int i = 0;
            if (done[0] && done[1]) {
                return;
            }
            if (done[0] || done[1]) {
                i = done[0] ? 1 : 0;
            } else if (master && k == 0) {
                i = 0;
            } else if (last < 0 || (master && k == 1)) {
                i = choose("thread", 2);
            } else if (switches > 0 && choose("preempt", 2) == 1) {
                i = 1 - last;
                --switches;
            } else {
                i = last;
            }
            if (i != last) {
                note("thread " + std::to_string(i));
                reach("switch");
            }
            last = i;
            if (!s[i]->s.step()) {
                done[i] = true;
            }
            if (stop) {
                reach("step ends early");
                return;
            }
        }
        fail("the searches do not terminate within the step bound");
    }
};

//! Threads with a fixed (different) order and signs; all interleavings.
void fix_order(Searcher &s, int thread, int variant) {
    s.s.pick = [&s, thread, variant](std::vector<lit_t> const &free) {
        lit_t v = ((variant >> thread) & 1) == 0 ? free.front() : free.back();
        lit_t l = ((variant >> (2 + thread)) & 1) == 0 ? v : -v;
        note("decide " + std::to_string(l));
        return l;
    };
}

Case threads(std::string name, Build b, Opts opts, bool stats, bool thorough = false, int variants = 2, int switches = 2) {
    return {std::move(name), [b, opts, stats, variants, switches]() {
                auto *p = new Prog();
                named.clear();
                for (auto const &[k, v] : opts) {
                    p->set(k, v);
                }
                b(*p);
                p->w.n_threads = 2;
                int n = p->w.vars;
                How how;
                how.clauses = how.values = how.complete = !stats;
                hooks(*p, how, n);
                p->start();
                Two two(*p, how, n, switches);
                static int const vs[] = {6, 9, 0, 15, 3, 5};
                int v = vs[choose("variant", variants)];
                for (int i = 0; i < 2; ++i) {
                    fix_order(*two.s[i], i, v);
                }
                long bounds = 0;
                long conflicts = 0;
                if (stats) {
                    auto f = p->w.on_clause;
                    p->w.on_clause = [f, &bounds, &conflicts](sim::Thr &t, sim::Clause const &c) {
                        if (std::any_of(c.begin(), c.end(), [&t](lit_t l) { return t.value(l) >= 0; })) {
                            ++bounds;
                        } else {
                            ++conflicts;
                        }
                        if (f) {
                            f(t, c);
                        }
                    };
                }
                long c0 = calls();
                two.run();
                two.s[0]->finish();
                two.s[1]->finish();
                if (two.s[0]->found != two.s[1]->found) {
                    fail("the threads accept different assignments");
                }
                reach("both threads");
                if (stats) {
                    sim::Stats st;
                    sim::Stats ac;
                    if (!clingolpx_on_statistics(p->t, sim::statistics(st), sim::statistics(ac))) {
                        fail("clingolpx_on_statistics failed: " + sim::last_error());
                    }
                    // a propagated bound may turn out to be conflicting
                    auto counted = st.at("Simplex", "Bounds propagated");
                    se::check(counted >= static_cast<double>(bounds) && counted <= static_cast<double>(bounds + conflicts),
                              "the propagated bounds are not the sum over the threads");
                    se::check(!counting || st.at("Simplex", "Pivots") == static_cast<double>(calls() - c0),
                              "the pivots are not the sum over the threads");
                    se::check(ac.at("Simplex", "Pivots") == st.at("Simplex", "Pivots") &&
                                  ac.at("Simplex", "Bounds propagated") == st.at("Simplex", "Bounds propagated"),
                              "the accumulated statistics differ from those of the only step");
                    if (bounds > 0) {
                        reach("bounds propagated");
                    }
                    if (calls() > c0) {
                        reach("pivots");
                    }
                }
            }, thorough};
}

//! Several steps with two threads; a step may end with any model.
Case shots_threads(std::string name, std::vector<Build> steps, Shots sh, bool thorough = false, int variants = 1, int switches = 0) {
    return {std::move(name), [steps, sh, variants, switches]() {
                auto *p = new Prog();
                named.clear();
                for (auto const &[k, vs] : sh.opts) {
                    p->set(k, vs.size() == 1 ? vs[0] : vs[choose(k, static_cast<int>(vs.size()))]);
                }
                p->w.n_threads = 2;
                size_t shown = 0;
                sim::Stats accu;
                double pivots = 0;
                double bounds = 0;
                static int const vs[] = {6, 9, 0, 15, 3, 5};
                int v = vs[choose("variant", variants)];
                for (size_t i = 0; i < steps.size(); ++i) {
                    note("step " + std::to_string(i));
                    p->w.atoms.clear();
                    steps[i](*p);
                    p->w.begin_step();
                    for (; shown < p->cons.size(); ++shown) {
                        note(p->cons[shown].text);
                    }
                    int n = p->w.vars;
                    hooks(*p, sh.how, n);
                    if (i == 0) {
                        p->create();
                    }
                    p->w.init();
                    How how = sh.how;
                    how.local = sh.optimum;
                    Two two(*p, how, n, switches);
                    two.master = true;
                    for (int t = 0; t < 2; ++t) {
                        fix_order(*two.s[t], t, v);
                        two.s[t]->s.root = 1;
                        two.s[t]->s.units = true;
                        two.s[t]->model = [&](unsigned) {
                            if (i + 1 < steps.size() && two.s[0]->found.empty() && two.s[1]->found.empty() && choose("stop", 2) == 1) {
                                two.stop = true;
                            }
                        };
                    }
                    two.run();
                    if (!two.stop) {
                        two.s[0]->finish();
                        two.s[1]->finish();
                        if (two.s[0]->found != two.s[1]->found) {
                            fail("the threads accept different assignments");
                        }
                    }
                    if (i > 0 && !two.s[1]->found.empty()) {
                        reach("model of the second thread in a later step");
                    }
                    p->w.end_step();
                    sim::Stats st;
                    if (!clingolpx_on_statistics(p->t, sim::statistics(st), sim::statistics(accu))) {
                        fail("clingolpx_on_statistics failed: " + sim::last_error());
                    }
                    pivots += st.at("Simplex", "Pivots");
                    bounds += st.at("Simplex", "Bounds propagated");
                    se::check(accu.at("Simplex", "Pivots") == pivots, "the accumulated pivots are not the sum over the steps");
                    se::check(accu.at("Simplex", "Bounds propagated") == bounds, "the accumulated propagated bounds are not the sum over the steps");
                }
            }, thorough};
}

//! Global optimisation with two threads.
Case threads_global(std::string name, Build b, std::string const &mode, Opts opts, bool thorough = false, int variants = 2) {
    return {std::move(name), [b, mode, opts, variants]() {
                auto *p = new Prog();
                named.clear();
                p->set("objective", mode);
                for (auto const &[k, v] : opts) {
                    p->set(k, v);
                }
                Q step_c = 0;
                Q step_k = 0;
                if (auto pos = mode.find(','); pos != std::string::npos) {
                    if (mode.substr(pos + 1) == "e") {
                        step_k = 1;
                    } else {
                        step_c = Q(mode.substr(pos + 1));
                    }
                }
                b(*p);
                p->w.n_threads = 2;
                int n = p->w.vars;
                p->start();
                How how;
                how.complete = false;
                Two two(*p, how, n);
                static int const vs[] = {6, 9, 0, 15, 3, 5};
                int v = vs[choose("variant", variants)];
                std::optional<Prog::Obj> best;          // best reported
                std::optional<Prog::Obj> known[2];      // best reported before the last check of the thread
                for (int i = 0; i < 2; ++i) {
                    fix_order(*two.s[i], i, v);
                    two.s[i]->model = [&, i](unsigned m) {
                        auto vals = p->values(i);
                        auto o = p->report(i);
                        if (!o) {
                            fail("no objective is reported");
                        }
                        check_objective(*p, truth(m), vals, *o);
                        auto const &k = known[i];
                        if (k) {
                            if (!k->bounded) {
                                se::check(!o->bounded, "a bounded answer is accepted although an unbounded one was known");
                            } else if (o->bounded) {
                                auto c = k->v.c + RF(step_c);
                                auto e = k->v.k + RF(step_k);
                                se::check(rel(o->v.c, ">", c) || (rel(o->v.c, "=", c) && rel(o->v.k, ">=", e)),
                                          "an accepted answer does not improve on the best one that was known");
                                reach("improves on the known best");
                            }
                        }
                        if (best && best->bounded && o->bounded) {
                            bool better = !(cmp(o->v.c, best->v.c) < 0 ||
                                            (cmp(o->v.c, best->v.c) == 0 && cmp(o->v.k, best->v.k) < 0));
                            if (!better) {
                                reach("a worse answer is reported late");
                                return;
                            }
                        }
                        if (best && !best->bounded) {
                            return;
                        }
                        best = o;
                    };
                }
                // the check of a total assignment sees what was reported before
                auto wrapped = p->w.prop.check;
                static decltype(wrapped) inner;
                static std::function<void(int)> before;
                inner = wrapped;
                before = [&](int t) { known[t] = best; };
                p->w.prop.check = [](clingo_propagate_control_t *c, void *d) {
                    before(static_cast<int>(clingo_propagate_control_thread_id(c)));
                    return inner(c, d);
                };
                two.run();
                for (unsigned bits : assignments(p->w, n)) {
                    if (best && !best->bounded) {
                        break;
                    }
                    auto xs = p->fresh_vars();
                    auto tv = truth(bits);
                    auto f = p->in_force(tv, xs);
                    if (best) {
                        auto ob = Prog::sum_of(p->objective, tv, [](lit_t) -> z3::expr { unsupported("undefined literal"); }, xs);
                        Val lim = best->v;
                        lim.c = lim.c + RF(step_c);
                        lim.k = lim.k + RF(step_k);
                        auto c = rat(lim.c);
                        f = f && (ob > c || (ob >= c && rel(lim.k, "<=", RF(0))));
                        if (step_c == 0 && step_k == 0) {
                            f = f && (ob > c || rel(best->v.k, "<", RF(0)));
                        }
                    }
                    se::check(!f, "an answer that improves on the best one was lost");
                    reach("optimum");
                }
            }, thorough};
}

// ---- interface ----

std::string value_string(Prog &p, uint32_t thread, size_t i) {
    clingolpx_value_t v{};
    clingolpx_assignment_get_value(p.t, thread, i, &v);
    char const *str = nullptr;
    if (v.type != clingolpx_value_type_symbol || !clingo_symbol_string(v.symbol, &str)) {
        fail("a value is not a string symbol");
    }
    return str;
}

//! The interface shows exactly the variables and values.
void interface(Prog &p, std::set<std::string> const &vars, int first, int end) {
    for (int th = first; th < end; ++th) {
        std::map<std::string, std::string> seen;
        std::set<size_t> idx;
        size_t i = 0;
        clingolpx_assignment_begin(p.t, th, &i);
        while (clingolpx_assignment_next(p.t, th, &i)) {
            if (!idx.insert(i).second) {
                fail("an index is iterated twice");
            }
            auto s = clingolpx_get_symbol(p.t, i);
            auto name = sim::symbol_str(s);
            if (vars.count(name) == 0) {
                fail("the iteration shows " + name + ", which is no variable of the program");
            }
            if (!clingolpx_assignment_has_value(p.t, th, i)) {
                fail(name + " has no value");
            }
            size_t j = 0;
            if (!clingolpx_lookup_symbol(p.t, s, &j) || j != i) {
                fail("looking up " + name + " does not return its index");
            }
            if (!seen.emplace(name, value_string(p, th, i)).second) {
                fail(name + " is iterated twice");
            }
            if (idx.size() > 50) {
                fail("the iteration does not end");
            }
        }
        se::check(true, "iteration");
        for (auto const &n : vars) {
            if (seen.count(n) == 0) {
                fail("the iteration misses " + n);
            }
        }
        reach("iterated");
        clingo_symbol_t other{};
        size_t j = 0;
        if (!clingo_symbol_create_id("not_a_variable", true, &other) || clingolpx_lookup_symbol(p.t, other, &j)) {
            fail("an unknown symbol is found");
        }
        // the model shows the same values
        p.w.model_symbols.clear();
        p.w.model_thread = th;
        if (!clingolpx_on_model(p.t, sim::model(p.w))) {
            fail("clingolpx_on_model failed: " + sim::last_error());
        }
        std::map<std::string, std::string> shown;
        for (auto s : p.w.model_symbols) {
            char const *name = nullptr;
            clingo_symbol_t const *args = nullptr;
            size_t n = 0;
            char const *str = nullptr;
            if (!clingo_symbol_name(s, &name) || !clingo_symbol_arguments(s, &args, &n)) {
                fail("the model is extended by something that is no function");
            }
            if (std::strcmp(name, "__lpx") == 0) {
                if (n != 2 || !clingo_symbol_string(args[1], &str)) {
                    fail("a value is shown as " + sim::symbol_str(s));
                }
                if (!shown.emplace(sim::symbol_str(args[0]), str).second) {
                    fail("a variable is shown twice: " + sim::symbol_str(s));
                }
            } else if (std::strcmp(name, "__lpx_objective") != 0 || !p.has_objective) {
                fail("the model is extended by " + sim::symbol_str(s));
            }
        }
        if (shown.size() != seen.size()) {
            fail("the model does not show all variables");
        }
        for (auto const &[n, str] : seen) {
            auto it = shown.find(n);
            if (it == shown.end()) {
                fail("the model does not show " + n);
            }
            Val a;
            Val b;
            if (!parse_value(str, a) || !parse_value(it->second, b)) {
                fail("the value of " + n + " is printed as " + str + " and " + it->second);
            }
            se::check(rel(a.c, "=", b.c) && rel(a.k, "=", b.k), "the model shows another value for " + n);
        }
        reach("shown");
    }
}

struct Want {
    std::string var;
    std::string c;      // rational part
    std::string k = "0"; // epsilon part
};

RF number(Prog &p, std::string const &t) {
    auto l = p.lin(t);
    return l->c;
}

//! Programs that determine values.
//! The version, of which each part may be left out.
void version() {
    int v[3] = {-1, -1, -1};
    int which = choose("version", 8);
    clingolpx_version((which & 1) != 0 ? v : nullptr, (which & 2) != 0 ? v + 1 : nullptr,
                      (which & 4) != 0 ? v + 2 : nullptr);
    int const want[3] = {CLINGOLPX_VERSION_MAJOR, CLINGOLPX_VERSION_MINOR, CLINGOLPX_VERSION_REVISION};
    for (int i = 0; i < 3; ++i) {
        se::check(v[i] == ((which >> i & 1) != 0 ? want[i] : -1), "the version is wrong");
    }
}

Case iface(std::string name, Build b, std::set<std::string> vars, std::vector<Want> want, bool exists = false, Opts opts = {}, int threads = 1) {
    return {std::move(name), [=]() {
                auto *p = new Prog();
                named.clear();
                for (auto const &[k, v] : opts) {
                    p->set(k, v);
                }
                b(*p);
                p->w.n_threads = threads;
                int n = p->w.vars;
                p->start();
                int models = 0;
                auto seen = [&](int th, unsigned m) {
                    ++models;
                    static_cast<void>(m);
                    auto vals = p->values(th);
                    for (auto const &w : want) {
                        Val v;
                        if (w.var == "objective of the values") {
                            auto o = p->report(th);
                            if (!o) {
                                fail("no objective is shown");
                            }
                            auto x = vals.at(w.c);
                            se::check(o->bounded && rel(o->v.c, "=", x.c) && rel(o->v.k, "=", x.k),
                                      "the objective shown is not that of the values of the thread");
                            continue;
                        }
                        if (w.var == "objective") {
                            auto o = p->report(th);
                            if (!o) {
                                fail("no objective is shown");
                            }
                            v = o->v;
                            se::check(o->bounded, "the objective is shown as unbounded");
                        } else {
                            v = vals.at(w.var);
                        }
                        se::check(rel(v.c, "=", number(*p, w.c)) && rel(v.k, "=", number(*p, w.k)),
                                  "another value is reported for " + w.var);
                        reach("determined value");
                    }
                };
                How how;
                how.complete = false;
                how.clauses = false;
                Two *two = nullptr;
                if (threads == 2) {
                    two = new Two(*p, how, n);
                    for (int i = 0; i < 2; ++i) {
                        fix_order(*two->s[i], i, 8);
                        two->s[i]->model = [&, i](unsigned m) {
                            seen(i, m);
                            interface(*p, vars, i, i + 1);
                        };
                    }
                    two->run();
                    if (two->s[0]->found.empty()) {
                        return;
                    }
                } else {
                    Searcher s(*p, how, 0, n);
                    s.model = [&](unsigned m) {
                        seen(0, m);
                        interface(*p, vars, 0, 1);
                    };
                    s.s.run();
                }
                if (exists && models == 0) {
                    fail("the program has no model");
                }
            }, false};
}

} // namespace

namespace {
//! The number of pivots is the number of entries of the tableau's function.
template <class T> auto count_pivots(int) -> decltype(static_cast<void>(&T::pivot)) {
    auto pv = &T::pivot;
    void *f[2]{};
    static_assert(sizeof(pv) == sizeof(f));
    std::memcpy(f, &pv, sizeof(pv));
    se::count_calls(f[0]);
    counting = true;
}
template <class T> void count_pivots(long) {}
} // namespace

int main(int argc, char **argv) {
    count_pivots<Tableau>(0);
    std::vector<Case> cs;
    How all;
    How one;
    one.order = false;
    How jump = one;
    jump.jumps = 1;
    for (auto const &t : templates()) {
        Shots s;
        s.how = one;
        s.optimum = t.objective;
        s.how.complete = true;
        cs.push_back(shots("C15/" + t.name, t.steps, s));
        Shots o = s;
        o.how = all;
        cs.push_back(shots("C15/order_" + t.name, t.steps, o, t.steps.size() > 2));
        o = s;
        o.how = jump;
        cs.push_back(shots("C15/jump_" + t.name, t.steps, o, true));
        cs.push_back(shots_threads("C15/threads_" + t.name, t.steps, s));
        o = s;
        o.opts = {{"propagate-bounds", {"full"}}, {"propagate-conflicts", {"yes"}}, {"store", {"partial", "total"}}};
        cs.push_back(shots_threads("C15/threads_options_" + t.name, t.steps, o, true, 2));
        if (t.name == "learned" || t.name == "unit" || t.name == "phases" || t.name == "late") {
            cs.push_back(shots_threads("C15/threads_switches_" + t.name, t.steps, s, true, 1, 1));
        }
        o = s;
        o.opts = {{"propagate-bounds", {"changed", "full"}}, {"propagate-conflicts", {"yes"}}, {"store", {"partial", "total"}}};
        cs.push_back(shots("C15/options_" + t.name, t.steps, o, t.name != "learned" && t.name != "phases" && t.name != "late"));
        if (!t.objective && t.name != "const") {
            auto steps = t.steps;
            auto first = steps[0];
            steps[0] = [first](Prog &p) {
                p.opt(true, {{"x", 0}});
                first(p);
            };
            cs.push_back(shots_global("C15/global_" + t.name, steps, t.name == "cond" || t.name == "steps"));
        }
        Shots st = s;
        st.how.values = false;
        st.how.complete = false;
        st.how.clauses = false;
        st.optimum = false;
        st.opts = {{"propagate-bounds", {"full"}}};
        cs.push_back(shots("C21/steps_" + t.name, t.steps, st));
    }

    // ---- C19, C21: threads ----
    auto pair = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.sum("x+y", "<=", "$a", a);
        p.sum("x", ">=", "$b", b);
        p.sum("y", "=", "1", p.w.true_lit());
    };
    auto rows = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.sum("x+y", ">=", "$a", a);
        p.sum("x-2*y", "<=", "$b", b);
        p.sum("x", "<=", "3", p.w.true_lit());
    };
    auto signs = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.sum("x", ">=", "$a", a);
        p.sum("x", "<=", "$b", -a);
        p.sum("x-y", "=", "1", b);
        p.sum("y", ">=", "0", p.w.true_lit());
    };
    auto prop = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.sum("x+y", ">=", "$a", a);
        p.sum("x", "<=", "$b", b);
        p.sum("y", "<=", "2", p.w.true_lit());
        p.dom("-9", "9", "x", p.w.true_lit());
    };
    // a propagated bound is in conflict with the program
    auto clash = [](Prog &p) {
        auto a = p.lit(), c = p.lit(), b = p.lit();
        p.sum("x+y", ">=", "$a", a);
        p.sum("x", "<=", "$b", b);
        p.sum("y", "<=", "2", p.w.true_lit());
        p.w.clause({a, c});
        p.w.clause({a, -c});
    };
    auto cond = [](Prog &p) {
        auto a = p.lit(), c = p.lit();
        p.sum(std::vector<Elem>{{"x", c}, {"y", 0}}, ">=", "$a", a);
        p.sum("x", "<=", "$b", p.w.true_lit());
        p.sum("y", "<=", "0", p.w.true_lit());
    };
    // bounds of a variable that exclude each other, also with a fact
    auto apart = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.sum("x", ">=", "$a", a);
        p.sum("x", "<=", "$b", b);
        p.sum("x", "=", "1", p.w.true_lit());
        p.sum("y", ">=", "0", a);
    };
    std::vector<std::pair<std::string, Build>> ts{{"apart", apart}, {"pair", pair}, {"rows", rows}, {"signs", signs}, {"prop", prop}, {"clash", clash}, {"cond", cond}};
    for (auto &[n, b] : ts) {
        cs.push_back(threads("C19/" + n, b, {}, false, false, 1));
        cs.push_back(threads("C19/options_" + n, b, {{"propagate-bounds", "changed"}, {"store", "partial"}}, false, n != "cond" && n != "clash", 1));
        cs.push_back(threads("C19/variants_" + n, b, {{"propagate-bounds", "full"}, {"store", "total"}}, false, true, 6, 2));
        cs.push_back(threads("C19/conflicts_" + n, b, {{"propagate-conflicts", "yes"}}, false, n != "apart" && n != "signs", 1, 1));
        cs.push_back(threads("C19/switches_" + n, b, {}, false, true, 2, 3));
        cs.push_back(threads("C21/switches_" + n, b, {{"propagate-bounds", "full"}}, true, true, 2, 2));
        cs.push_back(threads("C21/" + n, b, {{"propagate-bounds", "full"}}, true, false, 1, n == "prop" || n == "clash" ? 1 : 2));
        cs.push_back(threads("C21/changed_" + n, b, {{"propagate-bounds", "changed"}}, true, n != "prop", 1, 1));
    }
    auto g_bounds = [](Prog &p) {
        auto a = p.lit();
        p.opt(true, {{"x", 0}});
        p.sum("x", "<=", "$a", a);
        p.sum("x", "<=", "$b", -a);
    };
    auto g_free = [](Prog &p) {
        auto a = p.lit();
        p.opt(true, {{"x", 0}});
        p.sum("x", "<=", "$a", a);
    };
    auto g_two = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.opt(false, {{"x", 0}});
        p.sum("x", ">=", "$a", a);
        p.sum("x", ">=", "$b", b);
        p.sum("x", ">=", "0", p.w.true_lit());
    };
    auto g_row = [](Prog &p) {
        auto a = p.lit();
        p.opt(true, {{"x+y", 0}});
        p.sum("x", "<=", "$a", p.w.true_lit());
        p.sum("y", "<=", "$b", a);
        p.sum("x+y", "<=", "$c", -a);
    };
    auto g_strict = [](Prog &p) {
        auto a = p.lit();
        p.opt(true, {{"x", 0}});
        p.sum("x", "<", "$a", a);
        p.sum("x", "<=", "$b", -a);
    };
    for (auto &[n, b] : std::vector<std::pair<std::string, Build>>{{"bounds", g_bounds}, {"free", g_free}, {"row", g_row}}) {
        cs.push_back(threads_global("C19/global_" + n, b, "global", {}));
        cs.push_back(threads_global("C19/step_" + n, b, "global,3/2", {}, n == "row"));
        cs.push_back(threads_global("C19/store_" + n, b, "global", {{"store", "total"}, {"propagate-bounds", "changed"}}, true, 6));
    }
    cs.push_back(threads_global("C19/global_two", g_two, "global", {}, true));
    cs.push_back(threads_global("C19/global_strict", g_strict, "global,e", {{"strict", "yes"}}));

    // ---- C16: interface ----
    cs.push_back({"C16/version", version});
    cs.push_back(iface("C16/eq", [](Prog &p) {
        p.sum("x", "=", "$a", p.w.true_lit());
        p.sum("x+y", "=", "$b", p.w.true_lit());
    }, {"x", "y"}, {{"x", "$a"}, {"y", "$b-$a"}}, true));
    cs.push_back(iface("C16/scaled", [](Prog &p) {
        p.sum("3*x", "=", "$a", p.w.true_lit());
        p.sum("x-2*y", "=", "$b", p.w.true_lit());
    }, {"x", "y"}, {{"x", "$a/3"}, {"y", "($a/3-$b)/2"}}, true));
    cs.push_back(iface("C16/names", [](Prog &p) {
        p.sum("x(1)", "=", "$a", p.w.true_lit());
        p.sum("(x,1)", "=", "$b", p.w.true_lit());
        p.sum("\"foo\"", "=", "$c", p.w.true_lit());
        p.sum("f(g(1),\"a\")-x(2)", "=", "0", p.w.true_lit());
        p.sum("x(2)", "=", "$d", p.w.true_lit());
    }, {"x(1)", "(x,1)", "\"foo\"", "f(g(1),\"a\")", "x(2)"},
       {{"x(1)", "$a"}, {"(x,1)", "$b"}, {"\"foo\"", "$c"}, {"f(g(1),\"a\")", "$d"}, {"x(2)", "$d"}}, true));
    cs.push_back(iface("C16/cond", [](Prog &p) {
        auto c = L(p, "c");
        p.sum(std::vector<Elem>{{"x", c}, {"y", 0}, {"5", c}}, "=", "$a", p.w.true_lit());
        p.sum("x", "=", "$b", p.w.true_lit());
    }, {"x", "y"}, {{"x", "$b"}}, true));
    cs.push_back(iface("C16/condition", [](Prog &p) {
        auto c = L(p, "c"), d = L(p, "d");
        p.w.clause({c});
        p.w.clause({-d});
        p.sum(std::vector<Elem>{{"2*x", c}, {"y", 0}, {"z", d}}, "=", "$a", p.w.true_lit());
        p.sum("x", "=", "$b", p.w.true_lit());
    }, {"x", "y", "z"}, {{"x", "$b"}, {"y", "$a-2*$b"}}, true));
    cs.push_back(iface("C16/strict", [](Prog &p) {
        p.opt(true, {{"x", 0}, {"-y", 0}});
        p.sum("x", "<", "$a", p.w.true_lit());
        p.sum("y", ">", "$b", p.w.true_lit());
    }, {"x", "y"}, {{"x", "$a", "-1"}, {"y", "$b", "1"}, {"objective", "$a-$b", "-2"}}, true, {{"strict", "yes"}}));
    cs.push_back(iface("C16/strict_scaled", [](Prog &p) {
        p.opt(false, {{"3*x", 0}});
        p.sum("2*x", ">", "$a", p.w.true_lit());
    }, {"x"}, {{"x", "$a/2", "1"}, {"objective", "-3*$a/2", "-3"}}, false, {{"strict", "yes"}}));
    cs.push_back(iface("C16/objective", [](Prog &p) {
        p.opt(true, {{"x", 0}, {"z", 0}});
        p.sum("x", "<=", "$a", p.w.true_lit());
        p.sum("z", "=", "$b", p.w.true_lit());
    }, {"x", "z"}, {{"x", "$a"}, {"objective", "$a+$b"}}, true));
    cs.push_back(iface("C16/choices", [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.opt(false, {{"x", 0}});
        p.sum("x-y", ">=", "$a", a);
        p.sum("y", "=", "$b", b);
        p.sum("w", "=", "$c", p.w.true_lit());
    }, {"x", "y", "w"}, {{"w", "$c"}}));
    cs.push_back(iface("C16/only_objective", [](Prog &p) {
        p.opt(true, {{"v", L(p, "c")}, {"x", 0}});
        p.sum("x", "=", "$a", p.w.true_lit());
    }, {"v", "x"}, {{"x", "$a"}}, true));
    cs.push_back(iface("C16/threads", [](Prog &p) {
        auto a = p.lit();
        p.sum("x", "=", "$a", a);
        p.sum("x", "=", "$b", -a);
        p.sum("y", "=", "$c", p.w.true_lit());
    }, {"x", "y"}, {{"y", "$c"}}, false, {}, 2));
    cs.push_back(iface("C16/threads_objective", [](Prog &p) {
        auto a = p.lit();
        p.opt(true, {{"x", 0}});
        p.sum("x", "<=", "$a", a);
        p.sum("x", "=", "$b", -a);
        p.sum("y", "=", "$c", p.w.true_lit());
    }, {"x", "y"}, {{"y", "$c"}, {"objective of the values", "x"}}, false, {}, 2));
    cs.push_back(iface("C16/escapes", [](Prog &p) {
        p.sum("\"a\\nb\"", "=", "$a", p.w.true_lit());
        p.sum("\"anb\"", "=", "$b", p.w.true_lit());
        p.sum("f(\"q\\\"r\\\\n\")", "=", "$c", p.w.true_lit());
        p.sum("f(\"\\n\")", "=", "$d", p.w.true_lit());
    }, {"\"a\\nb\"", "\"anb\"", "f(\"q\\\"r\\\\n\")", "f(\"\\n\")"},
       {{"\"a\\nb\"", "$a"}, {"\"anb\"", "$b"}, {"f(\"q\\\"r\\\\n\")", "$c"}, {"f(\"\\n\")", "$d"}}, true));
    return run_main(argc, argv, "api", cs);
}
