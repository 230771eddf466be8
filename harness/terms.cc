// Translation of theory atoms: linear constraints, intervals, differences, objectives and errors.
#include "lpx.hh"

#include "parsing.hh"

#include <sstream>

using namespace lpx;

namespace {

constexpr int SHIFT = 100; // mapped literals
lit_t mapped(lit_t l) { return l > 0 ? l + SHIFT : l - SHIFT; }

//! One theory atom in text form.
struct Spec {
    std::string name = "sum";
    std::vector<sim::World::Elem> elems;
    std::string rel;
    std::string guard;
    lit_t lit = 1;
};

//! The meaning of the atoms: constraints (conjunction per literal) and the objective.
struct Ref {
    std::vector<Con> cons;
    std::vector<Part> objective;
    bool ill = false;
};

void reference(Spec const &s, Ref &r) {
    auto bad = [&r]() { r.ill = true; };
    Con c;
    c.rel = s.rel;
    c.lit = s.lit;
    if (s.name == "sum" || s.name == "minimize" || s.name == "maximize") {
        if (s.name == "sum" && s.rel.empty()) {
            return bad();
        }
        for (auto const &e : s.elems) {
            if (e.tuple.size() != 1) {
                return bad();
            }
            auto l = sum_term(sim::parse_term(e.tuple[0]));
            if (!l) {
                return bad();
            }
            if (s.name == "minimize") {
                l = scale(*l, RF(-1));
            }
            (s.name == "sum" ? c.parts : r.objective).push_back({e.cond_lit, *l});
        }
        if (s.name != "sum") {
            return;
        }
        auto g = sum_term(sim::parse_term(s.guard));
        if (!g) {
            return bad();
        }
        c.parts.push_back({0, scale(*g, RF(-1))});
        if (s.rel != "<=" && s.rel != ">=" && s.rel != "=" && s.rel != "<" && s.rel != ">") {
            return bad();
        }
        r.cons.push_back(c);
        return;
    }
    if (s.elems.size() != 1 || s.elems[0].tuple.size() != 1 || !s.elems[0].cond.empty() || s.rel.empty()) {
        return bad();
    }
    auto n = sim::parse_term(s.elems[0].tuple[0]);
    if (s.name == "dom") {
        if (n->kind != sim::Node::Op || n->name != ".." || n->args.size() != 2) {
            return bad();
        }
        auto v = term_value(sim::parse_term(s.guard), false);
        auto a = term_value(n->args[0], true);
        auto b = term_value(n->args[1], true);
        if (!v || v->num || !a || !b || !a->num || !b->num) {
            return bad();
        }
        Lin x;
        x.co[v->text] = RF(1);
        auto bound = [&](std::string const &rel, RF const &at) {
            Lin l = x;
            l.c = -at;
            r.cons.push_back({{{0, l}}, rel, s.lit, ""});
        };
        bound(">=", a->v);
        bound("<=", b->v);
        return;
    }
    if (s.name == "diff") {
        if (n->kind != sim::Node::Op || n->name != "-" || n->args.size() != 2) {
            return bad();
        }
        Lin l;
        for (int i = 0; i < 2; ++i) {
            auto v = term_value(n->args[i], true);
            if (!v) {
                return bad();
            }
            Lin x;
            if (v->num) {
                x.c = v->v;
            } else {
                x.co[v->text] = RF(1);
            }
            l = add(l, x, i == 0 ? 1 : -1);
        }
        auto g = sum_term(sim::parse_term(s.guard));
        if (!g) {
            return bad();
        }
        if (s.rel != "<=" && s.rel != ">=" && s.rel != "=" && s.rel != "<" && s.rel != ">") {
            return bad();
        }
        c.parts = {{0, add(l, *g, -1)}};
        r.cons.push_back(c);
        return;
    }
}

RF number(Rational const &x) {
    std::ostringstream o;
    o << x;
    RF v;
    if (!parse_number(o.str(), v)) {
        fail("a number is printed as '" + o.str() + "'");
    }
    return v;
}
std::string relation(Relation r) {
    std::ostringstream o;
    o << r;
    return o.str();
}

//! Run the real translation and compare.
struct Run {
    VarMap vars;
    std::vector<Inequality> iqs;
    std::vector<Term> objective;

    //! An inequality in the reference's form.
    static Con con(Inequality const &q) {
        Con c;
        Lin l;
        for (auto const &t : q.lhs) {
            std::string v = sim::symbol_str(t.var.to_c());
            auto [it, ins] = l.co.emplace(v, number(t.co));
            if (!ins) {
                it->second = it->second + number(t.co);
            }
        }
        l.c = -number(q.rhs);
        c.parts = {{0, l}};
        c.rel = relation(q.rel);
        c.lit = q.lit;
        return c;
    }
};

using Names = std::set<std::string>;
void names(Lin const &l, Names &ns) {
    for (auto const &[v, c] : l.co) {
        ns.insert(v);
    }
}
bool identical(Lin const &a, Lin const &b, Names const &ns) {
    auto same = [](RF const &x, RF const &y) { return (x.n * y.d - y.n * x.d).is_zero(); };
    for (auto const &n : ns) {
        auto get = [&n](Lin const &l) {
            auto it = l.co.find(n);
            return it == l.co.end() ? RF(0) : it->second;
        };
        if (!same(get(a), get(b))) {
            return false;
        }
    }
    return same(a.c, b.c);
}

Lin flat(std::vector<Part> const &ps) {
    Lin r;
    for (auto const &p : ps) {
        r = add(r, p.lin);
    }
    return r;
}

//! An auxiliary variable and the expression it is equal to.
using Defs = std::vector<std::pair<z3::expr, z3::expr>>;
z3::expr subst(z3::expr e, Defs const &ds) {
    for (auto const &[v, t] : ds) {
        z3::expr_vector a(ctx());
        z3::expr_vector b(ctx());
        a.push_back(v);
        b.push_back(t);
        e = e.substitute(a, b);
    }
    return e;
}
//! Solve the equations in force for the auxiliary variables: replacing them in order by the expressions is the same as
//! asking for values of the variables.
template <class T> Defs eliminate(std::vector<Con> const &impl, T const &truth, Names const &aux, Vars const &xs) {
    Defs ds;
    Names left = aux;
    for (bool more = true; more;) {
        more = false;
        for (auto const &c : impl) {
            if (c.rel != "=" || truth(c.lit) <= 0) {
                continue;
            }
            auto l = flat(c.parts);
            for (auto const &[v, k] : l.co) {
                if (left.count(v) == 0 || !k.n.is_const() || !k.d.is_const() || k.n.is_zero()) {
                    continue;
                }
                z3::expr t = rat(l.c);
                for (auto const &[u, j] : l.co) {
                    if (u != v) {
                        t = t + rat(j) * xs.at(u);
                    }
                }
                t = subst(-t / rat(k), ds);
                // the expression still mentions the variable: the equation says nothing new
                auto zero = subst(t, {{xs.at(v), ctx().real_val(0)}});
                if (!z3::eq(zero, t)) {
                    continue;
                }
                ds.emplace_back(xs.at(v), t);
                left.erase(v);
                more = true;
                break;
            }
        }
    }
    se::check(left.empty(), "an auxiliary variable is not determined");
    return ds;
}

bool strict_theory = false;
//! The registered theory.
void define(sim::World &w, bool strict) {
    static std::map<bool, std::string> texts;
    auto &text = texts[strict];
    if (text.empty()) {
        sim::World x;
        clingolpx_theory_t *t = nullptr;
        if (!clingolpx_create(&t) || !clingolpx_configure(t, "strict", strict ? "yes" : "no") || !clingolpx_register(t, sim::control(x))) {
            fail("the theory is not registered");
        }
        text = x.theory_text;
        clingolpx_destroy(t);
    }
    w.define(text);
}

//! Translate the atoms and decide that the result means what the reference says.
void compare_steps(std::vector<std::vector<Spec>> const &steps, bool stop = false) {
    auto *w = new sim::World();
    Ref ref;
    std::set<lit_t> conds;
    int top = 1;
    std::vector<Spec> specs;
    for (auto const &step : steps) {
        specs.insert(specs.end(), step.begin(), step.end());
    }
    for (auto const &s : specs) {
        for (auto const &e : s.elems) {
            if (e.cond_lit != 0) {
                conds.insert(std::abs(e.cond_lit));
                top = std::max(top, std::abs(e.cond_lit));
            }
        }
        top = std::max(top, std::abs(s.lit));
    }
    while (w->vars < top) {
        w->new_lit();
    }
    bool strict = std::any_of(specs.begin(), specs.end(), [](Spec const &s) { return s.rel == "<" || s.rel == ">"; });
    define(*w, strict || strict_theory);
    auto *run = new Run();
    std::string error;
    bool thrown = false;
    op_budget(20000, "translation");
    try {
        for (auto const &step : steps) {
            w->atoms.clear();
            for (auto const &s : step) {
                w->atom(s.name, s.elems, s.rel, s.guard, s.lit);
            }
            Clingo::TheoryAtoms atoms{reinterpret_cast<clingo_theory_atoms_t *>(w)};
            evaluate_theory(atoms, [w](lit_t l) { return mapped(w->solver_literal(l)); }, run->vars, run->iqs, run->objective);
        }
    } catch (std::exception const &e) {
        thrown = true;
        error = e.what();
    }
    op_budget(-1, "");
    for (auto const &s : specs) {
        if (!ref.ill) {
            reference(s, ref);
        }
    }
    if (!ref.ill) {
        // the constant part of the objective (elements without condition)
        RF c{0};
        for (auto const &p : ref.objective) {
            if (p.cond == 0) {
                c = c + p.lin.c;
            }
        }
        if (!se::is_zero(c.n)) {
            ref.ill = true;
            reach("constant objective");
        }
    }
    if (!ref.ill && !w->rejected.empty()) {
        fail("clingo rejects a well-formed atom: " + w->rejected.front());
    }
    if (thrown || ref.ill) {
        se::check(ref.ill, "a well-formed atom is rejected: " + error);
        se::check(thrown, "an ill-formed atom is accepted");
        reach("rejected");
        return;
    }
    reach("accepted");
    if (stop) {
        return;
    }
    // variables
    Names ns;
    Names aux;
    for (auto const &c : ref.cons) {
        for (auto const &p : c.parts) {
            names(p.lin, ns);
        }
    }
    for (auto const &p : ref.objective) {
        names(p.lin, ns);
    }
    std::vector<Con> impl;
    auto note_var = [&](Clingo::Symbol const &s) {
        auto v = sim::symbol_str(s.to_c());
        if (s.type() == Clingo::SymbolType::Number) {
            aux.insert(v);
        } else {
            se::check(ns.count(v) != 0, "the unknown variable " + v + " occurs in the translation");
        }
    };
    for (auto const &q : run->iqs) {
        std::set<std::string> seen;
        for (auto const &t : q.lhs) {
            note_var(t.var);
            se::check(seen.insert(sim::symbol_str(t.var.to_c())).second, "a variable is repeated in a translated constraint");
            se::check(rel(number(t.co), "!=", RF(0)), "a cancelled term is left in a translated constraint");
        }
        impl.push_back(Run::con(q));
    }
    Lin obj;
    {
        std::set<std::string> seen;
        for (auto const &t : run->objective) {
            note_var(t.var);
            auto v = sim::symbol_str(t.var.to_c());
            se::check(seen.insert(v).second, "a variable is repeated in the objective");
            se::check(rel(number(t.co), "!=", RF(0)), "a cancelled term is left in the objective");
            obj.co.emplace(v, number(t.co));
        }
    }
    auto none = [](lit_t) -> z3::expr { unsupported("undefined literal"); };
    if (conds.empty()) {
        se::check(aux.empty(), "auxiliary variables without conditions");
        // fast path: the same constraints
        bool same = impl.size() == ref.cons.size();
        auto left = ref.cons;
        for (auto const &c : impl) {
            bool found = false;
            for (auto it = left.begin(); it != left.end() && !found; ++it) {
                if (mapped(it->lit) == c.lit && it->rel == c.rel && identical(flat(it->parts), flat(c.parts), ns)) {
                    left.erase(it);
                    found = true;
                    break;
                }
            }
            same = same && found;
        }
        if (!same || !left.empty()) {
            // equivalence of the conjunctions for each literal
            std::set<lit_t> lits;
            for (auto const &c : impl) {
                lits.insert(c.lit);
            }
            for (auto const &c : ref.cons) {
                lits.insert(mapped(c.lit));
            }
            Vars xs;
            for (auto const &n : ns) {
                xs.emplace(n, fresh_real("x"));
            }
            for (auto l : lits) {
                z3::expr a = tru();
                z3::expr b = tru();
                auto tv = [](lit_t) { return 1; };
                for (auto const &c : impl) {
                    if (c.lit == l) {
                        a = a && Prog::rel0(Prog::sum_of(c.parts, tv, none, xs), c.rel);
                    }
                }
                for (auto const &c : ref.cons) {
                    if (mapped(c.lit) == l) {
                        b = b && Prog::rel0(Prog::sum_of(c.parts, tv, none, xs), c.rel);
                    }
                }
                se::check(z3::implies(a, b), "the translation is weaker than the atom");
                se::check(z3::implies(b, a), "the translation is stronger than the atom");
            }
        } else {
            se::check(tru(), "translation");
        }
        Lin want = flat(ref.objective);
        for (auto const &n : ns) {
            auto get = [&n](Lin const &l) {
                auto it = l.co.find(n);
                return it == l.co.end() ? RF(0) : it->second;
            };
            se::check(rel(get(obj), "=", get(want)), "the objective coefficient of " + n + " is wrong");
        }
        return;
    }
    // with conditions: compare under every truth assignment of them and of the atoms
    std::set<lit_t> all = conds;
    for (auto const &s : specs) {
        if (std::abs(s.lit) != 1) {
            all.insert(std::abs(s.lit));
        }
    }
    Vars xs;
    for (auto const &n : ns) {
        xs.emplace(n, fresh_real("x"));
    }
    for (auto const &n : aux) {
        xs.emplace(n, fresh_real("aux"));
    }
    std::vector<lit_t> cs(all.begin(), all.end());
    for (unsigned m = 0; m < (1U << cs.size()); ++m) {
        std::map<lit_t, int> val;
        for (size_t i = 0; i < cs.size(); ++i) {
            val[cs[i]] = (m >> i & 1U) != 0 ? 1 : -1;
        }
        auto tv = [&val](lit_t l) {
            auto it = val.find(std::abs(l));
            int v = it == val.end() ? 1 : it->second;
            return l > 0 ? v : -v;
        };
        auto mtv = [&tv](lit_t l) { return tv(l > 0 ? l - SHIFT : l + SHIFT); };
        auto one = [](lit_t) { return 1; };
        z3::expr a = tru();
        for (auto const &c : impl) {
            if (mtv(c.lit) > 0) {
                a = a && Prog::rel0(Prog::sum_of(c.parts, one, none, xs), c.rel);
            }
        }
        z3::expr b = tru();
        for (auto const &c : ref.cons) {
            if (tv(c.lit) > 0) {
                b = b && Prog::rel0(Prog::sum_of(c.parts, tv, none, xs), c.rel);
            }
        }
        // there have to be values of the auxiliary variables: eliminate them with the equations they occur in
        auto defs = eliminate(impl, mtv, aux, xs);
        se::check(z3::implies(a, b), "the translation is weaker than the atoms");
        se::check(z3::implies(b, subst(a, defs)), "the translation is stronger than the atoms");
        if (!ref.objective.empty()) {
            auto x = Prog::sum_of({{0, obj}}, one, none, xs);
            auto y = Prog::sum_of(ref.objective, tv, none, xs);
            se::check(z3::implies(a, x == y), "the objective differs from the statements");
        }
        reach("condition");
    }
}

void compare(std::vector<Spec> const &specs, bool stop = false) { compare_steps({specs}, stop); }

// ---- shapes ----
using Shapes = std::vector<std::string>;
Shapes grow(Shapes const &l, Shapes const &r, Shapes const &un, Shapes const &ops) {
    Shapes res;
    for (auto const &a : l) {
        for (auto const &b : r) {
            for (auto const &o : ops) {
                res.push_back("(" + a + ")" + o + "(" + b + ")");
            }
        }
    }
    for (auto const &a : un) {
        res.push_back("-(" + a + ")");
    }
    return res;
}
Shapes join(Shapes a, Shapes const &b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
//! Give each placeholder a number of its own.
std::string fill(std::string const &s, int &n) {
    std::string r;
    for (char c : s) {
        if (c == '#') {
            r += "$n" + std::to_string(n++);
        } else {
            r += c;
        }
    }
    return r;
}
Shapes const OPS{"+", "-", "*", "/"};
Shapes const LEAVES{"#", "x", "y"};
Shapes const RELS{"<=", ">=", "=", "<", ">"};

Spec sum(Shapes const &es, std::string const &rel, std::string const &guard, std::string const &name = "sum") {
    Spec s;
    s.name = name;
    int n = 0;
    for (auto const &e : es) {
        sim::World::Elem x;
        x.tuple = {fill(e, n)};
        s.elems.push_back(x);
    }
    s.rel = rel;
    if (!rel.empty()) {
        s.guard = fill(guard, n);
    }
    return s;
}
sim::World::Elem conditional(std::string const &t, lit_t c) {
    sim::World::Elem x;
    x.tuple = {t};
    if (c != 0) {
        x.cond = {c};
        x.cond_lit = c;
    }
    return x;
}
std::string pick(char const *what, Shapes const &s) {
    auto t = s[choose(what, static_cast<int>(s.size()))];
    note(std::string(what) + " " + t);
    return t;
}
//! A piece of a list to keep the number of children per fork small.
std::string pick2(char const *what, Shapes const &s) {
    int n = static_cast<int>(s.size());
    int k = 1;
    while (k * k < n) {
        ++k;
    }
    int a = choose(what, (n + k - 1) / k);
    int lo = a * k;
    int b = choose(what, std::min(k, n - lo));
    note(std::string(what) + " " + s[lo + b]);
    return s[lo + b];
}

} // namespace

int main(int argc, char **argv) {
    std::vector<Case> cs;
    Shapes one = grow(LEAVES, LEAVES, LEAVES, OPS);
    Shapes upto1 = join(LEAVES, one);
    Shapes two = grow(upto1, upto1, one, OPS);
    Shapes nums1 = join({"#"}, grow({"#"}, {"#"}, {"#"}, OPS));
    Shapes nums2 = join(nums1, grow(nums1, nums1, nums1, OPS));
    Shapes vars{"x", "y", "f(1)", "f(x,2)", "-x", "-f(3)", "(1,2)", "(x,)", "\"a\"", "\"a b\\\"c\"", "\"back\\\\slash\"", "f(1+2)", "f(6/2)", "f(2*3-7)",
                "f(-1)", "f(-x)", "f(\"1.5\")", "f((x,y))", "f(g(h(2)))", "\"1.\"", "\".5\"", "\"+1\"", "\"1e3\"", "\"\"", "\" 1\"", "\"--1\"", "f(-(-1))", "f()", "\"a\\nb\"", "\"anb\"", "f(\"\\n\")"};
    Shapes decs{"\"0\"", "\"1\"", "\"-1\"", "\"1.5\"", "\"-0.25\"", "\"007.500\"", "\"123456789012345678901234567890.5\"", "\"0.0\"", "\"-0\"", "\"10.010\""};
    // C09
    cs.push_back({"C09/nested", [&]() {
                      auto t = pick2("term", two);
                      compare({sum({t}, "<=", "#")});
                  }});
    cs.push_back({"C09/guard", [&]() {
                      auto t = pick("term", upto1);
                      auto g = pick("guard", upto1);
                      compare({sum({t}, ">=", g)});
                  }});
    // operators without parentheses; programs with strict relations have a theory of their own
    Shapes flat_terms;
    for (auto const &a : OPS) {
        for (auto const &b : OPS) {
            for (auto const &t : Shapes{"#", "x"}) {
                flat_terms.push_back(t + " " + a + " # " + b + " #");
                flat_terms.push_back("# " + a + " " + t + " " + b + " #");
                flat_terms.push_back("# " + a + " # " + b + " " + t);
                flat_terms.push_back("- " + t + " " + a + " # " + b + " #");
                flat_terms.push_back("# " + a + " - " + t + " " + b + " #");
            }
        }
    }
    Shapes flat_nums;
    for (auto const &a : OPS) {
        for (auto const &b : OPS) {
            flat_nums.push_back("# " + a + " # " + b + " #");
            flat_nums.push_back("- # " + a + " # " + b + " #");
            flat_nums.push_back("# " + a + " - # " + b + " #");
        }
    }
    cs.push_back({"C09/precedence", [&]() {
                      strict_theory = choose("strict", 2) == 1;
                      auto t = pick2("term", flat_terms);
                      auto where = choose("where", 3);
                      if (where == 2) {
                          compare({sum({t}, "", "", "minimize"), sum({t}, "", "", "maximize")});
                          return;
                      }
                      compare({where == 0 ? sum({t}, "<=", "#") : sum({"x"}, "=", t)});
                  }});
    cs.push_back({"C09/elements", [&]() {
                      Shapes few{"#", "x", "-y", "#*x", "y*#", "x/#", "-(#*x)", "y-x"};
                      compare({sum({pick("first", few), pick("second", few), pick("third", few)}, "=", "#*x")});
                  }});
    cs.push_back({"C09/relations", [&]() {
                      auto r = pick("relation", RELS);
                      Shapes gs{"#", "y", "#-y", "-x"};
                      auto g = pick("guard", gs);
                      Shapes ts{"x", "-x", "#*x", "x-y", "#", "(x-x)*#"};
                      auto s = sum({pick("term", ts)}, r, g);
                      s.lit = choose("sign", 2) == 0 ? 2 : -2;
                      compare({s});
                  }});
    cs.push_back({"C09/names", [&]() {
                      auto v = pick("variable", vars);
                      auto u = pick("variable", vars);
                      compare({sum({"#*" + v, u}, "<=", u)});
                  }});
    cs.push_back({"C09/decimals", [&]() {
                      auto v = pick("number", decs);
                      Shapes ts{"?", "?*x", "x/?", "-?", "(x+?)*#", "?-?*y", "#/(?+1)"};
                      auto t = pick("term", ts);
                      for (size_t i; (i = t.find('?')) != std::string::npos;) {
                          t.replace(i, 1, v);
                      }
                      compare({sum({t}, ">=", choose("guard", 2) == 0 ? v : "#")});
                  }});
    cs.push_back({"C09/empty", [&]() {
                      Shapes gs{"#", "x", "#*x-y"};
                      compare({sum({}, pick("relation", RELS), pick("guard", gs))});
                  }});
    cs.push_back({"C09/several", [&]() {
                      Shapes ts{"x", "#*y", "x-#*y", "#-x"};
                      auto a = sum({pick("first", ts)}, pick("relation", {"<=", "="}), "#");
                      int n = 50;
                      Spec b = sum({fill(pick("second", ts), n), "x"}, ">=", fill("#", n));
                      b.lit = 3;
                      a.lit = 2;
                      Spec c = sum({"y"}, "=", fill("#", n));
                      c.lit = choose("shared", 2) == 0 ? 2 : -3;
                      compare({a, b, c});
                  }});
    cs.push_back({"C09/deep", [&]() {
                      Shapes tail{"#", "x", "-x", "x*#", "#-x"};
                      auto t = pick2("term", two);
                      auto o = pick("operator", OPS);
                      auto u = pick("operand", tail);
                      auto s = choose("side", 2) == 0 ? "(" + t + ")" + o + "(" + u + ")" : "(" + u + ")" + o + "(" + t + ")";
                      compare({sum({s}, "<=", "#")});
                  }, true});
    cs.push_back({"C09/elements_deep", [&]() {
                      compare({sum({pick("first", upto1), pick("second", upto1)}, "=", pick("guard", {"#", "x", "#*y", "x/#"}))});
                  }, true});
    // C10
    auto dom = [](std::string const &a, std::string const &b, std::string const &v) {
        Spec s;
        s.name = "dom";
        int n = 0;
        s.elems = {conditional("(" + fill(a, n) + ")..(" + fill(b, n) + ")", 0)};
        s.rel = "=";
        s.guard = fill(v, n);
        s.lit = 2;
        return s;
    };
    auto diff = [](std::string const &a, std::string const &b, std::string const &rel, std::string const &g) {
        Spec s;
        s.name = "diff";
        int n = 0;
        s.elems = {conditional("(" + fill(a, n) + ")-(" + fill(b, n) + ")", 0)};
        s.rel = rel;
        s.guard = fill(g, n);
        s.lit = -2;
        return s;
    };
    cs.push_back({"C10/dom_bounds", [&]() {
                      compare({dom(pick2("lower", nums2), pick("upper", {"#", "\"2.5\"", "-#"}), "x")});
                  }});
    cs.push_back({"C10/precedence", [&]() {
                      strict_theory = choose("strict", 2) == 1;
                      if (choose("diff", 2) == 1) {
                          auto s = diff("x", "y", pick("relation", {"<=", ">=", "="}), pick2("guard", flat_terms));
                          s.elems = {conditional("x - y", 0)};
                          compare({s});
                          return;
                      }
                      auto t = pick2("term", flat_nums);
                      auto s = dom("#", "#", "x");
                      int n = 0;
                      s.elems = {conditional(fill(choose("side", 2) == 0 ? t + " .. #" : "# .. " + t, n), 0)};
                      compare({s});
                  }});
    cs.push_back({"C10/dom_upper", [&]() {
                      compare({dom(pick("lower", {"#", "\"-2.5\"", "#/#"}), pick2("upper", nums2), "f(x)")});
                  }});
    cs.push_back({"C10/dom_names", [&]() { compare({dom("#", "#", pick("variable", join(vars, {"1", "x+1", "\"1.5\"", "$g"})))}); }});
    Shapes sides{"x", "y", "f(1)", "#", "-#", "#+#", "#*#", "#/#", "\"1.5\"", "\"a\"", "(x,1)", "x+y", "2*x", "x-y", "x/2"};
    cs.push_back({"C10/diff_sides", [&]() {
                      compare({diff(pick("left", sides), pick("right", sides), pick("relation", RELS), pick("guard", {"#", "x"}))});
                  }});
    cs.push_back({"C10/diff_guard", [&]() {
                      Shapes gs = join(upto1, {"-(#*y)", "(x+y)*#", "x/#-y", "\"-1.25\""});
                      compare({diff("x", pick("right", {"y", "x", "#"}), pick("relation", {"<=", ">=", "="}), pick("guard", gs))});
                  }});
    cs.push_back({"C10/both", [&]() {
                      auto a = dom("#", "#", "x");
                      auto b = diff("x", "y", pick("relation", RELS), "$g*x");
                      b.lit = pick("literal", {"2", "3", "-2"})[0] == '3' ? 3 : 2;
                      compare({a, b});
                  }});
    cs.push_back({"C10/dom_both_deep", [&]() { compare({dom(pick2("lower", nums2), pick2("upper", nums2), "x")}); }, true});
    cs.push_back({"C10/diff_deep", [&]() {
                      compare({diff(pick("left", {"x", "#", "f(2)"}), pick("right", {"x", "y", "#/#"}), "<=", pick2("guard", two))});
                  }, true});
    // C11: conditional elements
    Shapes ct{"x", "#*x", "#", "x-y", "#-x", "-#*y", "x+x", "x-x+#", "\"1.5\""};
    cs.push_back({"C11/sum", [&]() {
                      int n = 0;
                      Spec s = sum({}, pick("relation", RELS), "$g");
                      s.elems = {conditional(fill(pick("first", ct), n), 2), conditional(fill(pick("second", ct), n), pick("condition", {"2", "-2", "3", "0"}) == "0" ? 0 : 3)};
                      s.lit = 4;
                      compare({s});
                  }});
    auto cond = [](std::string const &c) { return static_cast<lit_t>(std::stoi(c)); };
    cs.push_back({"C11/shared", [&]() {
                      // the same term and condition in several elements and atoms
                      Shapes k{"2", "-2", "3", "0"};
                      Shapes t{"x", "$p", "$q*x", "y-$p"};
                      Spec s = sum({}, "<=", "$g");
                      s.elems = {conditional(pick("first", t), 2), conditional(pick("second", t), cond(pick("condition", k)))};
                      s.lit = 4;
                      Spec u = sum({}, "=", "y");
                      u.elems = {conditional(pick("third", t), cond(pick("condition", k))), conditional("x", 0)};
                      u.lit = -5;
                      compare({s, u});
                  }});
    cs.push_back({"C11/objective", [&]() {
                      int n = 0;
                      Shapes k{"2", "-2", "3", "0"};
                      Spec s = sum({}, "", "", pick("direction", {"minimize", "maximize"}));
                      s.elems = {conditional(fill(pick("first", ct), n), 2), conditional(fill(pick("second", ct), n), cond(pick("condition", k)))};
                      Spec u = sum({}, "", "", pick("direction", {"minimize", "maximize"}));
                      u.elems = {conditional("x", 2), conditional("y", 0)};
                      compare({s, u});
                  }});
    cs.push_back({"C11/guard", [&]() {
                      int n = 0;
                      Spec s = sum({}, "=", fill(pick("guard", {"#", "x", "#*x", "x-y"}), n));
                      s.elems = {conditional(fill(pick("term", ct), n), pick("condition", {"2", "-2"}) == "2" ? 2 : -2)};
                      s.lit = choose("literal", 2) == 0 ? 2 : 4;
                      compare({s});
                  }});
    cs.push_back({"C11/three", [&]() {
                      int n = 0;
                      Spec s = sum({}, "<=", "$g*y");
                      s.elems = {conditional(fill(pick("first", ct), n), 2), conditional(fill(pick("second", ct), n), 3), conditional(fill(pick("third", ct), n), -2)};
                      s.lit = 4;
                      compare({s});
                  }, true});
    // conditions in several steps; the ids of conjunctions are reused
    cs.push_back({"C11/steps", [&]() {
                      Shapes k{"2", "-2", "3", "0"};
                      Shapes t{"x", "$p", "$q*x", "y-$p"};
                      auto both = [](sim::World::Elem e) {
                          e.cond = {e.cond_lit, e.cond_lit};
                          return e;
                      };
                      Spec s = sum({}, "<=", "$g");
                      s.elems = {both(conditional(pick("first", t), 2)), conditional("y", cond(pick("condition", k)))};
                      s.lit = 4;
                      Spec u = sum({}, "=", "y");
                      u.elems = {both(conditional(pick("second", t), 3))};
                      if (choose("conjunction", 2) == 0) {
                          u.elems.push_back(both(conditional("x", 2)));
                      } else {
                          u.elems.push_back(conditional("x", 2));
                      }
                      u.lit = -5;
                      Spec o = sum({}, "", "", "maximize");
                      o.elems = {both(conditional("x", choose("last", 2) == 0 ? 3 : -2))};
                      compare_steps({{s}, {u}, {o}});
                  }});
    // C12: errors
    Shapes odd{"#", "x", "f(1)", "\"a\"", "\"1.5\"", "(1,2)", "0", "f(1/2)", "f(1/0)", "f(2147483647+1)", "f(-2147483647-1)", "f(0-2147483647-2)", "f(2..3)",
               "f(x+1)", "f(\"1\"+1)", "-\"a\"", "-(1,2)", "1..2", "f((1,2)+1)", "#/0", "#/(1-1)", "x/x", "x/f(1)", "x/(y-y)", "f(-\"a\")"};
    cs.push_back({"C12/terms", [&]() {
                      auto a = pick("left", odd);
                      auto b = pick("right", odd);
                      auto o = pick("operator", OPS);
                      compare({sum({"(" + a + ")" + o + "(" + b + ")"}, "<=", "#")});
                  }});
    cs.push_back({"C12/guards", [&]() { compare({sum({pick("term", odd)}, ">=", pick("guard", odd))}); }});
    cs.push_back({"C12/objective", [&]() { compare({sum({pick("term", odd)}, "", "", pick("direction", {"minimize", "maximize"}))}); }});
    cs.push_back({"C12/dom", [&]() {
                      auto k = pick("shape", {"?..#", "#..?", "?", "?+(1..2)", "(1..?)..3", "-?..1"});
                      auto t = pick("term", odd);
                      for (size_t i; (i = k.find('?')) != std::string::npos;) {
                          k.replace(i, 1, "(" + t + ")");
                      }
                      int n = 0;
                      Spec s;
                      s.name = "dom";
                      s.elems = {conditional(fill(k, n), 0)};
                      s.rel = "=";
                      s.guard = "x";
                      compare({s});
                  }});
    cs.push_back({"C12/strict_relations", [&]() {
                      sim::World w;
                      define(w, false);
                      auto name = pick("atom", {"sum", "diff"});
                      auto r = pick("relation", {"<", ">", "!="});
                      w.atom(name, {conditional(name == "sum" ? "x" : "x-y", 0)}, r, "$g", 1);
                      se::check(!w.rejected.empty(), "strict relations are accepted without option strict");
                      reach("rejected");
                  }});
    cs.push_back({"C12/dom_guard", [&]() { compare({dom("#", "#", pick("guard", join(odd, {"-x", "x+y", "2*x", "$g"})))}); }});
    cs.push_back({"C12/diff", [&]() {
                      auto a = pick("left", odd);
                      auto b = pick("right", join({"x"}, odd));
                      compare({diff(a, b, "<=", pick("guard", {"#", "x/0", "x*y"}))});
                  }});
    cs.push_back({"C12/division", [&]() {
                      auto d = pick2("divisor", nums2);
                      auto k = pick("shape", {"x/(?)", "1/(?)", "f(1/(?))", "x*(1/(?))", "(x-x)/(?)"});
                      if (k[0] == 'f') {
                          for (auto &c : d) { // arguments of functions are fixed numbers
                              c = c == '#' ? "123"[choose("digit", 3)] : c;
                          }
                      }
                      k.replace(k.find('?'), 1, d);
                      compare({sum({k}, "<=", "#")});
                  }});
    cs.push_back({"C12/shape", [&]() {
                      Spec s;
                      s.name = pick("atom", {"sum", "dom", "diff", "minimize", "maximize"});
                      auto k = pick("elements", {"none", "one", "two", "empty", "pair", "condition", "nested"});
                      std::string t = s.name == "dom" ? "1..2" : s.name == "diff" ? "x-y" : "x";
                      if (k != "none") {
                          s.elems = {conditional(t, k == "condition" ? 2 : 0)};
                      }
                      if (k == "two") {
                          s.elems.push_back(conditional(t, 0));
                      }
                      if (k == "empty") {
                          s.elems[0].tuple.clear();
                      }
                      if (k == "pair") {
                          s.elems[0].tuple.push_back("y");
                      }
                      if (k == "nested") {
                          s.elems[0].tuple = {"(" + t + ",1)"};
                      }
                      if (s.name == "sum" || s.name == "dom" || s.name == "diff") {
                          s.rel = pick("guard", {"", "=", "<=", "!="});
                          if (s.name == "dom" && s.rel != "" && s.rel != "=") {
                              s.rel = "="; // the grammar admits nothing else
                          }
                          s.guard = s.name == "dom" ? "x" : "3";
                      }
                      compare({s});
                  }});
    cs.push_back({"C12/integers", [&]() {
                      // function arguments have to be integers within the range of int
                      auto k = pick("shape", {"$#a+5", "3-$#a", "$#a*2", "-$#a", "$#a-1", "$#a/2", "(1-$#a)/3", "$#a*3/2"});
                      auto *w = new sim::World();
                      w->atom("sum", {{{"f(" + k + ")"}, {}, 0}}, "<=", "1", 1);
                      auto v = term_value(sim::parse_term(k), true);
                      auto small = [](char const *n) {
                          auto x = RF(input(n, Kind::Int));
                          se::assume(rel(x, ">=", RF(-2147483647)) && rel(x, "<=", RF(2147483647)));
                      };
                      small("a");
                      auto *run = new Run();
                      bool thrown = false;
                      try {
                          Clingo::TheoryAtoms atoms{reinterpret_cast<clingo_theory_atoms_t *>(w)};
                          evaluate_theory(atoms, [](lit_t l) { return mapped(l - 1000); }, run->vars, run->iqs, run->objective);
                      } catch (std::exception const &) {
                          thrown = true;
                      }
                      auto num = z(v->v.n) / z(v->v.d);
                      auto in = num >= ctx().real_val("-2147483648") && num <= ctx().real_val("2147483647");
                      if (thrown) {
                          se::check(!(in && num == z(fresh("integer", Kind::Int))), "an integer within the range is rejected");
                          reach("rejected");
                          return;
                      }
                      se::check(in, "a number out of range is accepted");
                      auto args = run->iqs.at(0).lhs.at(0).var.arguments();
                      se::check(args.size() == 1 && args[0].type() == Clingo::SymbolType::Number, "the argument is no number");
                      auto got = from_native(args[0].number());
                      se::check(rel(RF(got), "=", v->v), "the argument has another value");
                      se::check(got.is_const() || integral(got), "a number that is no integer is accepted");
                      reach("accepted");
                  }});
    // C13
    Shapes ot{"x", "#*x", "x-y", "#*y-x", "#", "x+#", "-(#*x)", "y/#", "#-#", "\"1.5\"*x", "0*y"};
    auto direction = [](char const *w) { return pick(w, {"minimize", "maximize"}); };
    cs.push_back({"C13/one", [&]() { compare({sum({pick("first", ot), pick("second", ot)}, "", "", direction("direction"))}); }});
    cs.push_back({"C13/two", [&]() {
                      auto a = sum({pick("first", ot)}, "", "", direction("direction"));
                      auto b = sum({}, "", "", direction("direction"));
                      int n = 60;
                      b.elems = {conditional(fill(pick("second", ot), n), 0)};
                      compare({a, b});
                  }});
    cs.push_back({"C13/constants", [&]() {
                      auto a = sum({"x+$a", "$b"}, "", "", direction("direction"));
                      auto b = sum({"y-$c", "$d*$a"}, "", "", direction("direction"));
                      compare({a, b});
                  }});
    cs.push_back({"C13/nested", [&]() { compare({sum({pick2("term", two)}, "", "", direction("direction"))}); }});
    cs.push_back({"C13/mixed", [&]() {
                      // constraints between the statements
                      auto a = sum({pick("first", ot)}, "", "", direction("direction"));
                      int n = 60;
                      auto b = sum({fill("#*x", n)}, "<=", fill("#", n));
                      b.lit = 2;
                      auto c = sum({}, "", "", direction("direction"));
                      c.elems = {conditional(fill(pick("second", ot), n), 3)};
                      compare({a, b, c});
                  }});
    cs.push_back({"C13/three", [&]() {
                      int n = 0;
                      std::vector<Spec> v;
                      for (char const *w : {"first", "second", "third"}) {
                          auto a = sum({}, "", "", direction("direction"));
                          a.elems = {conditional(fill(pick(w, ot), n), 0)};
                          v.push_back(a);
                      }
                      compare(v);
                  }, true});
    return run_main(argc, argv, "terms", cs);
}
