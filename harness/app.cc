// The command-line program: options, parsing, solving, printing of answers and statistics.
#include "search.hh"
#include <iostream>
#include <sstream>

int lpx_app_main(int argc, char **argv);

using namespace lpx;

namespace {

using Args = std::vector<std::string>;

int launch(Args const &args) {
    std::vector<std::string> store{"clingo-lpx"};
    store.insert(store.end(), args.begin(), args.end());
    std::vector<char *> ptrs;
    for (auto &a : store) {
        ptrs.push_back(a.data());
    }
    std::string txt;
    for (auto const &a : args) {
        txt += " " + a;
    }
    note("arguments" + txt);
    return lpx_app_main(static_cast<int>(store.size()), ptrs.data());
}

//! Words separated by blanks outside of strings and parentheses.
std::vector<std::string> words(std::string const &line) {
    std::vector<std::string> r;
    std::string cur;
    int depth = 0;
    bool quote = false;
    for (size_t i = 0; i < line.size(); ++i) {
        char c = line[i];
        if (quote) {
            cur += c;
            if (c == '\\' && i + 1 < line.size()) {
                cur += line[++i];
            } else if (c == '"') {
                quote = false;
            }
            continue;
        }
        if (c == ' ' && depth == 0) {
            if (!cur.empty()) {
                r.push_back(cur);
            }
            cur.clear();
            continue;
        }
        if (c == '"') {
            quote = true;
        } else if (c == '(') {
            ++depth;
        } else if (c == ')') {
            --depth;
        }
        cur += c;
    }
    if (!cur.empty()) {
        r.push_back(cur);
    }
    return r;
}

struct Printed {
    std::multiset<std::string> atoms;
    Values values;
    std::optional<Prog::Obj> objective;
};

Printed parse(std::string const &out) {
    Printed r;
    std::vector<std::string> lines;
    std::istringstream in{out};
    for (std::string l; std::getline(in, l);) {
        lines.push_back(l);
    }
    if (lines.size() < 2 || lines[1] != "Assignment:") {
        fail("an answer is printed as '" + out + "'");
    }
    for (auto const &x : words(lines[0])) {
        r.atoms.insert(x);
    }
    if (lines.size() > 2) {
        for (auto const &x : words(lines[2])) {
            // the value follows the last equality sign outside of the name
            auto pos = x.rfind('=');
            Val v;
            if (pos == std::string::npos || pos == 0 || !se::parse_value(x.substr(pos + 1), v)) {
                fail("a value is printed as '" + x + "'");
            }
            if (!r.values.emplace(x.substr(0, pos), v).second) {
                fail("two values are printed for " + x.substr(0, pos));
            }
        }
    }
    bool more = false;
    for (size_t i = 3; i < lines.size(); ++i) {
        auto ws = words(lines[i]);
        if (ws.size() != 3 || ws[0] != "Optimization:" || more) {
            fail("an objective is printed as '" + lines[i] + "'");
        }
        Prog::Obj o;
        if (!se::parse_value(ws[1], o.v) || (ws[2] != "[bounded]" && ws[2] != "[unbounded]")) {
            fail("an objective is printed as '" + lines[i] + "'");
        }
        o.bounded = ws[2] == "[bounded]";
        r.objective = o;
        more = true;
    }
    return r;
}

struct Capture {
    std::ostringstream out;
    std::streambuf *old;
    Capture() : old{std::cout.rdbuf(out.rdbuf())} {}
    ~Capture() { std::cout.rdbuf(old); }
};

using Build = std::function<void(Prog &)>;
enum class Mode { values, local, global };

clingo_symbol_t make(std::string const &name, std::vector<clingo_symbol_t> const &args = {}, bool positive = true) {
    clingo_symbol_t s = 0;
    clingo_symbol_create_function(name.c_str(), args.data(), args.size(), positive, &s);
    return s;
}
clingo_symbol_t number(int n) {
    clingo_symbol_t s = 0;
    clingo_symbol_create_number(n, &s);
    return s;
}
clingo_symbol_t string(std::string const &x) {
    clingo_symbol_t s = 0;
    clingo_symbol_create_string(x.c_str(), &s);
    return s;
}

//! The shown atoms of a model.
std::vector<clingo_symbol_t> atoms(unsigned b, int n) {
    std::vector<clingo_symbol_t> r;
    for (int v = n; v >= 2; --v) {
        if ((b >> v & 1U) != 0) {
            switch (v % 3) {
                case 0: {
                    r.push_back(make("a", {number(v), string("b c=\"1")}));
                    break;
                }
                case 1: {
                    r.push_back(make("", {number(v), make("__lpx", {number(1), string("2")})}));
                    break;
                }
                default: {
                    r.push_back(make("__lpx", {make("x"), string("7")}));
                    r.push_back(make("p", {number(v)}, false));
                    break;
                }
            }
        }
    }
    return r;
}

//! Run the program on its arguments and compare each answer it prints with the reference.
void session(Prog &p, Args args, Mode mode, How how) {
    how.values = false;
    how.local = false;
    how.complete = mode != Mode::global;
    auto &w = p.w;
    sim::application() = &w;
    int n = w.vars;
    hooks(p, how, n);
    for (auto const &c : p.cons) {
        note(c.text);
    }
    // texts of the variables
    std::set<std::string> used;
    for (auto const &c : p.cons) {
        for (auto const &q : c.parts) {
            for (auto const &[v, co] : q.lin.co) {
                used.insert(v);
            }
        }
    }
    for (auto const &q : p.objective) {
        for (auto const &[v, co] : q.lin.co) {
            used.insert(v);
        }
    }
    Args files{"a.lp", "b.lp"};
    w.statements = choose("statements", 3) + 1;
    sim::Stats first, second;
    w.on_solve = [&](std::function<bool(clingo_solve_event_type_t, void *)> const &event) {
        std::vector<int> want;
        for (int i = 1; i <= w.statements; ++i) {
            want.push_back(i);
        }
        if (w.added != want || w.builder != 2) {
            fail("the statements of the files are not passed on");
        }
        if (w.files != files) {
            fail("other files are parsed");
        }
        if (w.grounded != 1) {
            fail("the program is not grounded once before it is solved");
        }
        reach("solved");
        w.init();
        Global g{p, {}, 0, 0};
        for (auto const &a : args) {
            if (a.compare(0, 19, "--objective=global,") == 0) {
                if (a.substr(19) == "e") {
                    g.step_k = 1;
                } else {
                    g.step_c = Q(a.substr(19));
                }
            }
        }
        Searcher s(p, how, 0, n);
        s.model = [&](unsigned b) {
            w.shown = atoms(b, n);
            std::multiset<std::string> want;
            for (auto x : w.shown) {
                want.insert(sim::symbol_str(x));
            }
            w.model_symbols.clear();
            w.model_thread = 0;
            if (!event(clingo_solve_event_type_model, sim::model(w))) {
                fail("the program stops after an answer");
            }
            std::string txt;
            {
                Capture c;
                auto none = [](void *) { return true; };
                if (w.app->printer == nullptr || !w.app->printer(sim::model(w), none, nullptr, w.app_data)) {
                    fail("an answer is not printed");
                }
                txt = c.out.str();
            }
            note("printed " + txt);
            auto r = parse(txt);
            if (r.atoms != want) {
                fail("the shown atoms are printed as '" + txt + "'");
            }
            for (auto const &[v, x] : r.values) {
                if (p.names.count(v) == 0) {
                    fail("a value is printed for " + v + ", which is no variable");
                }
            }
            for (auto const &v : used) {
                if (r.values.count(v) == 0) {
                    fail("no value is printed for " + v);
                }
            }
            p.check_values(truth(b), r.values, "");
            if (r.values.size() == used.size()) {
                reach("printed");
            }
            if (mode == Mode::values) {
                if (r.objective) {
                    fail("an objective is printed without objective");
                }
                return;
            }
            if (!r.objective) {
                fail("no objective is printed");
            }
            check_objective(p, truth(b), r.values, *r.objective);
            if (mode == Mode::global) {
                g.accept(r.objective);
            }
        };
        s.s.run();
        if (mode == Mode::global) {
            g.finish(n);
        } else {
            s.finish();
        }
        clingo_statistics_t *st[] = {sim::statistics(first), sim::statistics(second)};
        event(clingo_solve_event_type_statistics, st);
        if (first.at("Simplex", "Pivots") != second.at("Simplex", "Pivots")) {
            fail("the accumulated statistics differ from those of the only step");
        }
        clingo_solve_result_bitset_t res = clingo_solve_result_satisfiable | clingo_solve_result_exhausted;
        event(clingo_solve_event_type_finish, &res);
    };
    for (auto const &f : files) {
        args.push_back(f);
    }
    int rc = launch(args);
    if (rc != 0) {
        fail("the program fails: " + sim::last_error());
    }
    if (w.solved != 1) {
        fail("the program is not solved once");
    }
}

Case run(std::string name, Build b, Args args, Mode mode, How how, bool strict = false, bool thorough = false) {
    return {std::move(name), [b, args, mode, how, strict]() {
                auto *p = new Prog();
                p->strict = strict;
                b(*p);
                session(*p, args, mode, how);
            }, thorough};
}

//! Each combination of further options.
Case options(std::string name, Build b, std::vector<Args> const &opts, Mode mode, How how, bool strict = false, bool thorough = false) {
    return {std::move(name), [b, opts, mode, how, strict]() {
                auto *p = new Prog();
                p->strict = strict;
                b(*p);
                Args args;
                for (auto const &o : opts) {
                    auto const &x = o[choose("option", static_cast<int>(o.size()))];
                    if (!x.empty()) {
                        args.push_back(x);
                    }
                }
                session(*p, args, mode, how);
            }, thorough};
}

//! Options that are rejected before anything is solved.
Case rejected(std::string name, std::vector<Args> const &all) {
    return {std::move(name), [all]() {
                auto *p = new Prog();
                auto a = p->lit();
                p->opt(true, {{"x", 0}});
                p->sum("x", "<", "$a", a);
                sim::application() = &p->w;
                p->w.on_solve = [](auto const &) { fail("the program solves despite invalid options"); };
                auto args = all[choose("arguments", static_cast<int>(all.size()))];
                args.push_back("a.lp");
                int rc = launch(args);
                if (rc == 0) {
                    fail("invalid options are not reported");
                }
                if (p->w.solved != 0 || p->w.grounded != 0 || !p->w.added.empty()) {
                    fail("the program runs despite invalid options");
                }
                reach("rejected");
            }};
}

} // namespace

int main(int argc, char **argv) {
    std::vector<Case> cs;
    How one;
    one.order = false;
    How all;
    How heu = one;
    heu.decide = true;
    Build eq = [](Prog &p) {
        auto a = p.lit();
        p.sum("x+y", "=", "$a", p.w.true_lit());
        p.sum("x-y", "=", "$b", a);
        p.sum("x", "<=", "$c", -a);
    };
    Build choices = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.sum("x-2*y", "<=", "$a", a);
        p.dom("$b", "3", "x", b);
        p.sum("y", ">=", "$c", b);
    };
    Build names = [](Prog &p) {
        auto a = p.lit();
        p.sum("f(1,\"a b\")", "=", "$a", p.w.true_lit());
        p.sum("(x,y)-\"q=\\\"1 \"", ">=", "$b", a);
        p.sum("\"q=\\\"1 \"-g((x,),2)", "=", "$c", p.w.true_lit());
    };
    Build cond = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.sum({{"x", 0}, {"y", a}}, "<=", "$a", p.w.true_lit());
        p.sum("x", ">=", "$b", b);
        p.sum("y", "=", "$c", p.w.true_lit());
    };
    Build strict = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.sum("x", "<", "$a", a);
        p.sum("x-y", ">", "$b", b);
        p.sum("y", "=", "$c", p.w.true_lit());
    };
    Build objective = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.opt(true, {{"3*x+2*y", 0}});
        p.sum("x+y", "<=", "$a", p.w.true_lit());
        p.sum("x-y", "<=", "$b", a);
        p.sum("y", ">=", "$c", b);
    };
    Build minimize = [](Prog &p) {
        auto a = p.lit();
        p.opt(false, {{"x", 0}, {"z", a}});
        p.sum("x", ">=", "$a", p.w.true_lit());
        p.sum("z", ">=", "$b", p.w.true_lit());
        p.sum("x+z", ">=", "$c", a);
    };
    Build strict_objective = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.opt(true, {{"x", 0}});
        p.sum("x", "<", "$a", a);
        p.sum("x", "<=", "$b", -a);
        p.sum("x", "<", "$c", b);
        p.sum("x", "<=", "9", p.w.true_lit());
    };
    Build excl = [](Prog &p) {
        auto a = p.lit(), b = p.lit();
        p.opt(true, {{"x", 0}});
        p.sum("x", "=", "$a", a);
        p.sum("x", "=", "$b", b);
        p.w.clause({a, b});
    };
    cs.push_back(run("C23/eq", eq, {}, Mode::values, one));
    cs.push_back(run("C23/choices", choices, {}, Mode::values, all));
    cs.push_back(run("C23/names", names, {}, Mode::values, one));
    cs.push_back(run("C23/cond", cond, {}, Mode::values, one));
    cs.push_back(run("C23/empty", [](Prog &p) { p.lit(); }, {}, Mode::values, one));
    cs.push_back(run("C23/strict", strict, {"--strict"}, Mode::values, one, true));
    cs.push_back(run("C23/objective", objective, {}, Mode::local, one));
    cs.push_back(run("C23/local", minimize, {"--objective=local"}, Mode::local, one));
    cs.push_back(run("C23/strict_objective", strict_objective, {"--strict", "--objective=local"}, Mode::local, one, true));
    cs.push_back(run("C23/global", objective, {"--objective=global"}, Mode::global, one));
    cs.push_back(run("C23/step", excl, {"--objective=global,3/2"}, Mode::global, all));
    cs.push_back(run("C23/epsilon", strict_objective, {"--objective=global,e", "--strict"}, Mode::global, one, true));
    std::vector<Args> opts{{"", "--select=none", "--select=match", "--select=conflict"},
                           {"", "--store=no", "--store=partial", "--store=total"},
                           {"", "--propagate-bounds=none", "--propagate-bounds=changed", "--propagate-bounds=full"},
                           {"", "--propagate-conflicts"}};
    for (size_t i = 0; i < opts.size(); ++i) {
        static char const *which[] = {"select", "store", "bounds", "conflicts"};
        cs.push_back(options(std::string("C23/") + which[i], objective, {opts[i]}, Mode::local, heu));
    }
    cs.push_back(options("C23/options", cond, opts, Mode::values, heu, false, true));
    cs.push_back(rejected("C23/rejected", {{"--select=no"}, {"--store=none"}, {"--store="}, {"--propagate-bounds=yes"}, {"--objective=globe"},
                                           {"--objective=global,"}, {"--objective=global,1/0"}, {"--objective=global,e"},
                                           {"--objective=local,1"}, {"--objectives=global"}, {"--strict=no", "--objective=global,e"},
                                           {"--strict", "--objective=global,f"}, {"--objective=global,e", "--select=match"}}));
    return run_main(argc, argv, "app", cs);
}
