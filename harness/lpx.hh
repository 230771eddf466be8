// Programs with linear constraints run through the real library on the simulated
// clingo, with an independent reference semantics of the theory atoms.
#pragma once
#include "../engine/num.hh"
#include "../engine/sim.hh"
#include "../engine/sym.hh"

#include <clingo-lpx.h>

#include <algorithm>
#include <cstring>
#include <set>

namespace lpx {

using namespace se;
using sim::lit_t;
using sim::NodeP;

// ---- reference semantics of terms -----------------------------------------

struct Lin {
    std::map<std::string, RF> co;
    RF c{0};
    bool vars = false; // mentions a variable (syntactically)
};

inline Lin scale(Lin const &a, RF const &f) {
    Lin r;
    r.vars = a.vars;
    r.c = a.c * f;
    for (auto const &[v, x] : a.co) {
        r.co[v] = x * f;
    }
    return r;
}
inline Lin add(Lin const &a, Lin const &b, int sign = 1) {
    Lin r = a;
    r.vars = a.vars || b.vars;
    r.c = r.c + RF(sign) * b.c;
    for (auto const &[v, x] : b.co) {
        auto it = r.co.find(v);
        if (it == r.co.end()) {
            r.co[v] = RF(sign) * x;
        } else {
            it->second = it->second + RF(sign) * x;
        }
    }
    return r;
}

inline std::string unquote(std::string const &s) {
    std::string r;
    for (size_t i = 1; i + 1 < s.size(); ++i) {
        if (s[i] == '\\') {
            ++i;
            r += s[i] == 'n' ? '\n' : s[i];
        } else {
            r += s[i];
        }
    }
    return r;
}
inline std::string quote(std::string const &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '\n') {
            r += "\\n";
        } else if (c == '\\' || c == '"') {
            r += '\\';
            r += c;
        } else {
            r += c;
        }
    }
    return r + "\"";
}

//! The number written in a quoted string.
inline std::optional<Q> decimal(std::string const &quoted) {
    std::string s = quoted.substr(1, quoted.size() - 2);
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && s[i] == '-') {
        neg = true;
        ++i;
    }
    size_t b = i;
    Q v = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
        v = v * 10 + (s[i++] - '0');
    }
    if (i == b) {
        return {};
    }
    if (i < s.size() && s[i] == '.') {
        b = ++i;
        Q f(1, 10);
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
            v += f * (s[i++] - '0');
            f /= 10;
        }
        if (i == b) {
            return {};
        }
    }
    if (i != s.size()) {
        return {};
    }
    return neg ? Q(-v) : v;
}

//! A term evaluated to a number or to the text of a symbol.
struct TV {
    bool num = false;
    RF v{0};
    std::string text;
    bool fun = false; // (possibly negated) named function
};

inline std::optional<TV> term_value(NodeP const &n, bool num_str) {
    using sim::Node;
    TV r;
    switch (n->kind) {
        case Node::Num: {
            r.num = true;
            r.v = RF(n->num);
            return r;
        }
        case Node::Sym: {
            r.text = n->name;
            r.fun = true;
            return r;
        }
        case Node::Str: {
            if (auto d = num_str ? decimal(n->name) : std::nullopt; d) {
                r.num = true;
                r.v = RF(*d);
                return r;
            }
            r.text = quote(unquote(n->name));
            return r;
        }
        case Node::Op: {
            if (n->args.size() == 1) {
                auto a = term_value(n->args[0], num_str);
                if (!a || n->name != "-") {
                    return {};
                }
                if (a->num) {
                    a->v = -a->v;
                    return a;
                }
                if (!a->fun) {
                    return {};
                }
                a->text = a->text[0] == '-' ? a->text.substr(1) : "-" + a->text;
                return a;
            }
            if (n->name == "..") {
                return {};
            }
            auto a = term_value(n->args[0], num_str);
            auto b = term_value(n->args[1], num_str);
            if (!a || !b || !a->num || !b->num) {
                return {};
            }
            r.num = true;
            if (n->name == "+") {
                r.v = a->v + b->v;
            } else if (n->name == "-") {
                r.v = a->v - b->v;
            } else if (n->name == "*") {
                r.v = a->v * b->v;
            } else if (n->name == "/") {
                if (se::is_zero(b->v.n)) {
                    return {};
                }
                r.v = divide(a->v, b->v);
            } else {
                return {};
            }
            return r;
        }
        case Node::Fun:
        case Node::Tup: {
            r.text = n->name + "(";
            r.fun = n->kind == Node::Fun;
            for (size_t i = 0; i < n->args.size(); ++i) {
                auto a = term_value(n->args[i], false);
                if (!a) {
                    return {};
                }
                if (a->num) {
                    if (!a->v.n.is_const() || !a->v.d.is_const()) {
                        unsupported("symbolic number in a variable name");
                    }
                    Q q = a->v.n.cval() / a->v.d.cval();
                    if (q.get_den() != 1 || !q.get_num().fits_sint_p()) {
                        return {};
                    }
                    a->text = q.get_str();
                }
                r.text += (i > 0 ? "," : "") + a->text;
            }
            if (n->kind == Node::Tup && n->args.size() == 1) {
                r.text += ",";
            }
            r.text += ")";
            if (n->kind == Node::Fun && n->args.empty()) {
                r.text = n->name;
            }
            return r;
        }
    }
    return {};
}

//! The linear form denoted by a sum term; nothing if the term is ill-formed.
inline std::optional<Lin> sum_term(NodeP const &n) {
    using sim::Node;
    Lin r;
    auto var = [&]() -> std::optional<Lin> {
        auto v = term_value(n, false);
        if (!v || v->num) {
            return {};
        }
        r.co[v->text] = RF(1);
        r.vars = true;
        return r;
    };
    switch (n->kind) {
        case Node::Num: {
            r.c = RF(n->num);
            return r;
        }
        case Node::Str: {
            if (auto d = decimal(n->name); d) {
                r.c = RF(*d);
                return r;
            }
            return var();
        }
        case Node::Sym:
        case Node::Fun:
        case Node::Tup: {
            return var();
        }
        case Node::Op: {
            if (n->name != "+" && n->name != "-" && n->name != "*" && n->name != "/") {
                return {};
            }
            auto a = sum_term(n->args[0]);
            if (!a) {
                return {};
            }
            if (n->args.size() == 1) {
                if (n->name == "-") {
                    return scale(*a, RF(-1));
                }
                if (n->name == "+") {
                    return a;
                }
                return {};
            }
            if (n->name == "/") {
                auto b = term_value(n->args[1], true);
                if (!b || !b->num || se::is_zero(b->v.n)) {
                    return {};
                }
                return scale(*a, divide(RF(1), b->v));
            }
            auto b = sum_term(n->args[1]);
            if (!b) {
                return {};
            }
            if (n->name == "+") {
                return add(*a, *b);
            }
            if (n->name == "-") {
                return add(*a, *b, -1);
            }
            if (a->vars && b->vars) {
                return {};
            }
            if (a->vars) {
                return scale(*a, b->c);
            }
            auto s = scale(*b, a->c);
            return s;
        }
    }
    return {};
}

// ---- constraints -----------------------------------------------------------

struct Part {
    lit_t cond = 0; // 0: always
    Lin lin;
};
//! lit implies sum of parts rel 0
struct Con {
    std::vector<Part> parts;
    std::string rel;
    lit_t lit = 1;
    std::string text;
};
struct Elem {
    std::string term;
    lit_t cond = 0;
    bool conj = false; // the condition is given by several literals
};

using Vars = std::map<std::string, z3::expr>;
using Truth = std::function<int(lit_t)>; // 1, -1 or 0
using Values = std::map<std::string, Val>;

inline z3::expr rat(RF const &v) {
    if (v.d.is_const()) {
        return z(se::scale(v.n, Q(1) / v.d.cval()));
    }
    set_nonlinear();
    return z(v.n) / z(v.d); // denominators are not zero on this path
}

struct Prog {
    sim::World w;
    clingolpx_theory_t *t = nullptr;
    std::vector<Con> cons;
    std::vector<Part> objective; // to be maximised
    bool has_objective = false;
    bool strict = false;
    bool ill_formed = false;
    std::set<std::string> names; // variables the user mentions
    std::vector<std::pair<std::string, std::string>> config;
    std::map<lit_t, Part> aux_meaning; // literal of global objective
    bool track_pivots = false;
    long pivot_bound = 0;

    Prog() = default;
    Prog(Prog const &) = delete;
    ~Prog() = default;

    lit_t lit() { return w.new_lit(); }

    std::optional<Lin> lin(std::string const &term) {
        auto n = sim::parse_term(term);
        auto l = sum_term(n);
        if (!l) {
            ill_formed = true;
            return {};
        }
        mention(*l);
        return l;
    }
    void mention(Lin const &l) {
        for (auto const &[v, c] : l.co) {
            names.insert(v);
        }
    }
    static std::vector<sim::World::Elem> elems(std::vector<Elem> const &es) {
        std::vector<sim::World::Elem> r;
        for (auto const &e : es) {
            sim::World::Elem x;
            x.tuple = {e.term};
            if (e.cond != 0) {
                x.cond = {e.cond};
                if (e.conj) {
                    x.cond.push_back(1);
                }
                x.cond_lit = e.cond;
            }
            r.push_back(x);
        }
        return r;
    }
    std::vector<Part> parts(std::vector<Elem> const &es, int sign = 1) {
        std::vector<Part> r;
        for (auto const &e : es) {
            if (auto l = lin(e.term); l) {
                r.push_back({e.cond, scale(*l, RF(sign))});
            }
        }
        return r;
    }
    void sum(std::vector<Elem> const &es, std::string const &rel, std::string const &guard, lit_t l) {
        w.atom("sum", elems(es), rel, guard, l);
        Con c;
        c.parts = parts(es);
        if (auto g = lin(guard); g) {
            c.parts.push_back({0, scale(*g, RF(-1))});
        }
        c.rel = rel;
        c.lit = l;
        for (auto const &e : es) {
            c.text += (c.text.empty() ? "" : "; ") + e.term + (e.cond != 0 ? ":" + std::to_string(e.cond) : "");
        }
        c.text = "&sum{" + c.text + "}" + rel + guard + " [" + std::to_string(l) + "]";
        cons.push_back(c);
    }
    void sum(std::string const &term, std::string const &rel, std::string const &guard, lit_t l) {
        sum(std::vector<Elem>{{term, 0}}, rel, guard, l);
    }
    void dom(std::string const &lo, std::string const &up, std::string const &var, lit_t l) {
        w.atom("dom", elems({{"(" + lo + ")..(" + up + ")", 0}}), "=", var, l);
        auto v = lin(var);
        auto a = lin(lo);
        auto b = lin(up);
        if (v && a && b) {
            Con c;
            c.lit = l;
            c.text = "&dom{" + lo + ".." + up + "}=" + var + " [" + std::to_string(l) + "]";
            c.rel = ">=";
            c.parts = {{0, add(*v, *a, -1)}};
            cons.push_back(c);
            c.rel = "<=";
            c.parts = {{0, add(*v, *b, -1)}};
            cons.push_back(c);
        }
    }
    void diff(std::string const &a, std::string const &b, std::string const &rel, std::string const &guard, lit_t l) {
        w.atom("diff", elems({{a + "-" + b, 0}}), rel, guard, l);
        auto x = lin(a + "-" + b);
        auto g = lin(guard);
        if (x && g) {
            Con c;
            c.lit = l;
            c.rel = rel;
            c.parts = {{0, add(*x, *g, -1)}};
            c.text = "&diff{" + a + "-" + b + "}" + rel + guard + " [" + std::to_string(l) + "]";
            cons.push_back(c);
        }
    }
    void opt(bool maximize, std::vector<Elem> const &es) {
        has_objective = true;
        w.atom(maximize ? "maximize" : "minimize", elems(es), "", "", w.true_lit());
        for (auto &p : parts(es, maximize ? 1 : -1)) {
            objective.push_back(p);
        }
    }
    void set(std::string const &k, std::string const &v) {
        config.emplace_back(k, v);
        if (k == "strict" && v == "yes") {
            strict = true;
        }
    }

    void create() {
        if (!clingolpx_create(&t)) {
            fail("clingolpx_create failed");
        }
        for (auto const &[k, v] : config) {
            if (!clingolpx_configure(t, k.c_str(), v.c_str())) {
                fail("clingolpx_configure(" + k + "," + v + ") failed: " + sim::last_error());
            }
            note("option " + k + "=" + v);
        }
        if (!clingolpx_register(t, sim::control(w))) {
            fail("clingolpx_register failed: " + sim::last_error());
        }
        if (!clingolpx_prepare(t, sim::control(w))) {
            fail("clingolpx_prepare failed");
        }
        wrap();
    }
    void start() {
        for (auto const &c : cons) {
            note(c.text);
        }
        create();
        w.init();
    }

    // ---- pivots ----
    sim::Stats step_stats, accu_stats;
    clingo_propagator_t inner{};
    static Prog *&self() {
        static Prog *p = nullptr;
        return p;
    }
    long pivots() {
        sim::Stats s;
        sim::Stats a;
        if (!clingolpx_on_statistics(t, sim::statistics(s), sim::statistics(a))) {
            fail("clingolpx_on_statistics failed: " + sim::last_error());
        }
        return static_cast<long>(s.at("Simplex", "Pivots"));
    }
    void limit(char const *what, long before) {
        if (!track_pivots) {
            return;
        }
        long n = pivots() - before;
        se::check(n <= pivot_bound, std::string("more pivots than there are bases in one ") + what + " call");
        if (n > 0) {
            reach("pivot");
        }
        if (n > 1) {
            reach("several pivots in one call");
        }
    }
    void wrap() {
        self() = this;
        inner = w.prop;
        w.prop.propagate = [](clingo_propagate_control_t *c, clingo_literal_t const *l, size_t n, void *d) {
            Prog &p = *self();
            long b = p.track_pivots ? p.pivots() : 0;
            bool r = p.inner.propagate(c, l, n, d);
            p.limit("propagate", b);
            return r;
        };
        w.prop.check = [](clingo_propagate_control_t *c, void *d) {
            Prog &p = *self();
            long b = p.track_pivots ? p.pivots() : 0;
            bool r = p.inner.check(c, d);
            p.limit("check", b);
            return r;
        };
    }

    // ---- results ----
    Values values(int thread) {
        Values r;
        size_t i = 0;
        clingolpx_assignment_begin(t, thread, &i);
        while (clingolpx_assignment_next(t, thread, &i)) {
            std::string name = sim::symbol_str(clingolpx_get_symbol(t, i));
            if (!clingolpx_assignment_has_value(t, thread, i)) {
                fail("variable " + name + " has no value");
            }
            clingolpx_value_t v{};
            clingolpx_assignment_get_value(t, thread, i, &v);
            if (v.type != clingolpx_value_type_symbol) {
                fail("the value of " + name + " is not a symbol");
            }
            char const *str = nullptr;
            if (!clingo_symbol_string(v.symbol, &str)) {
                fail("the value of " + name + " is not a string");
            }
            Val x;
            if (!parse_value(str, x)) {
                fail("the value of " + name + " is printed as '" + str + "'");
            }
            if (!r.emplace(name, x).second) {
                fail("variable " + name + " is iterated twice");
            }
        }
        for (auto const &n : names) {
            if (r.count(n) == 0) {
                // variables that cancel everywhere do not have to be known
                bool used = false;
                auto scan = [&](std::vector<Part> const &ps) {
                    for (auto const &p : ps) {
                        if (p.lin.co.count(n) != 0) {
                            used = true;
                        }
                    }
                };
                for (auto const &c : cons) {
                    scan(c.parts);
                }
                scan(objective);
                if (used) {
                    r.emplace(n, Val{RF(0), RF(0)});
                }
            }
        }
        return r;
    }
    struct Obj {
        Val v;
        bool bounded = true;
    };
    //! Report a model: the symbols shown and the shared best objective.
    std::optional<Obj> report(int thread) {
        w.model_symbols.clear();
        w.model_thread = thread;
        if (!clingolpx_on_model(t, sim::model(w))) {
            fail("clingolpx_on_model failed: " + sim::last_error());
        }
        std::optional<Obj> r;
        for (auto s : w.model_symbols) {
            char const *name = nullptr;
            clingo_symbol_t const *args = nullptr;
            size_t n = 0;
            if (!clingo_symbol_name(s, &name) || !clingo_symbol_arguments(s, &args, &n)) {
                fail("the model is extended by something that is no function");
            }
            if (std::strcmp(name, "__lpx_objective") == 0) {
                char const *str = nullptr;
                int b = 0;
                Obj o;
                if (r || n != 2 || !clingo_symbol_string(args[0], &str) || !clingo_symbol_number(args[1], &b) ||
                    !parse_value(str, o.v) || (b != 0 && b != 1)) {
                    fail("the objective is shown as " + sim::symbol_str(s));
                }
                o.bounded = b == 1;
                r = o;
            }
        }
        return r;
    }

    // ---- formulas ----
    static Val value(std::vector<Part> const &ps, Truth const &tv, Values const &vals) {
        Val r{RF(0), RF(0)};
        for (auto const &p : ps) {
            if (p.cond != 0 && tv(p.cond) <= 0) {
                continue;
            }
            r.c = r.c + p.lin.c;
            for (auto const &[v, co] : p.lin.co) {
                auto it = vals.find(v);
                if (it == vals.end()) {
                    fail("variable " + v + " has no value");
                }
                r.c = r.c + co * it->second.c;
                r.k = r.k + co * it->second.k;
            }
        }
        return r;
    }
    static z3::expr lex(Val const &v, std::string const &op) {
        auto r = [&](RF const &x, char const *o) { return rel(x, o, RF(0)); };
        if (op == "=") {
            return r(v.c, "=") && r(v.k, "=");
        }
        if (op == "!=") {
            return r(v.c, "!=") || r(v.k, "!=");
        }
        std::string s = op.substr(0, 1);
        return r(v.c, s.c_str()) || (r(v.c, "=") && r(v.k, op.c_str()));
    }
    //! All true constraints hold for the values.
    void check_values(Truth const &tv, Values const &vals, std::string const &when) {
        for (auto const &c : cons) {
            if (tv(c.lit) > 0) {
                auto v = value(c.parts, tv, vals);
                se::check(lex(v, c.rel), "an accepted assignment violates " + c.text + " " + when);
                reach("constraint holds");
                if (!strict) {
                    se::check(rel(v.k, "=", RF(0)), "epsilon in non-strict mode " + when);
                }
            }
        }
    }
    Vars fresh_vars(std::string const &pre = "x") const {
        Vars r;
        for (auto const &n : names) {
            r.emplace(n, fresh_real(pre));
        }
        return r;
    }
    static z3::expr sum_of(std::vector<Part> const &ps, Truth const &tv, std::function<z3::expr(lit_t)> const &bl,
                           Vars const &xs, bool homogeneous = false) {
        z3::expr r = ctx().real_val(0);
        for (auto const &p : ps) {
            int b = p.cond == 0 ? 1 : tv(p.cond);
            if (b < 0) {
                continue;
            }
            z3::expr s = homogeneous ? ctx().real_val(0) : rat(p.lin.c);
            for (auto const &[v, co] : p.lin.co) {
                if (co.n.is_zero()) {
                    continue;
                }
                if (!co.n.is_const() || !co.d.is_const()) {
                    set_nonlinear();
                }
                s = s + rat(co) * xs.at(v);
            }
            r = r + (b > 0 ? s : z3::ite(bl(p.cond), s, ctx().real_val(0)));
        }
        return r;
    }
    static z3::expr rel0(z3::expr const &e, std::string const &op) {
        auto zero = ctx().real_val(0);
        if (op == "<=") {
            return e <= zero;
        }
        if (op == ">=") {
            return e >= zero;
        }
        if (op == "=") {
            return e == zero;
        }
        if (op == "<") {
            return e < zero;
        }
        if (op == ">") {
            return e > zero;
        }
        unsupported("relation " + op);
    }
    //! Conjunction of the constraints in force over real variables.
    z3::expr in_force(Truth const &tv, std::function<z3::expr(lit_t)> const &bl, Vars const &xs) const {
        z3::expr r = tru();
        for (auto const &c : cons) {
            int b = tv(c.lit);
            if (b < 0) {
                continue;
            }
            auto f = rel0(sum_of(c.parts, tv, bl, xs), c.rel);
            r = r && (b > 0 ? f : z3::implies(bl(c.lit), f));
        }
        return r;
    }
    z3::expr in_force(Truth const &tv, Vars const &xs) const {
        return in_force(tv, [](lit_t) -> z3::expr { unsupported("undefined literal"); }, xs);
    }
    //! Clauses are implied by the constraints (and the program's clauses).
    void check_clause(sim::Clause const &c, std::string const &what, int nvars) {
        std::map<int, int> fixed;
        fixed[1] = 1;
        std::string txt;
        for (auto l : c) {
            txt += " " + std::to_string(l);
        }
        for (auto l : c) {
            if (aux_meaning.count(std::abs(l)) == 0 && std::abs(l) > nvars) {
                return; // literals of the global objective, see the search
            }
            int v = l > 0 ? -1 : 1;
            auto [it, ins] = fixed.emplace(std::abs(l), v);
            if (!ins && it->second != v) {
                return; // tautology
            }
        }
        std::map<int, z3::expr> bools;
        for (int v = 1; v <= nvars; ++v) {
            if (fixed.count(v) == 0) {
                bools.emplace(v, ctx().bool_const(("!b" + std::to_string(v)).c_str()));
            }
        }
        auto tv = [&](lit_t l) {
            auto it = fixed.find(std::abs(l));
            return it == fixed.end() ? 0 : (l > 0 ? it->second : -it->second);
        };
        auto bl = [&](lit_t l) -> z3::expr {
            auto const &b = bools.at(std::abs(l));
            return l > 0 ? b : !b;
        };
        z3::expr f = tru();
        for (auto const &cl : w.clauses) {
            z3::expr d = fls();
            bool sat = false;
            for (auto l : cl) {
                if (tv(l) > 0) {
                    sat = true;
                }
                if (tv(l) == 0) {
                    d = d || bl(l);
                }
            }
            if (!sat) {
                f = f && d;
            }
        }
        auto xs = fresh_vars();
        se::check(!(f && in_force(tv, bl, xs)), what + " removes a satisfiable assignment: clause" + txt);
        reach("clause");
    }
};

//! Assignment of the problem variables 1..n as bits.
inline unsigned bits(sim::Thr const &t, int n) {
    unsigned r = 0;
    for (int v = 1; v <= n; ++v) {
        if (t.value(v) > 0) {
            r |= 1U << v;
        }
    }
    return r;
}
inline Truth truth(unsigned b) {
    return [b](lit_t l) {
        bool v = (b >> std::abs(l) & 1U) != 0;
        return (l > 0) == v ? 1 : -1;
    };
}
inline Truth truth(sim::Thr const &t) {
    return [&t](lit_t l) { return t.value(l); };
}
//! All assignments satisfying the clauses of the program.
inline std::vector<unsigned> assignments(sim::World const &w, int n) {
    std::vector<unsigned> r;
    for (unsigned b = 0; b < (1U << (n + 1)); b += 2) {
        auto tv = truth(b);
        if (tv(1) < 0 || (w.step != 0 && tv(w.step) < 0)) {
            continue;
        }
        bool ok = true;
        for (auto const &c : w.clauses) {
            bool sat = false;
            for (auto l : c) {
                sat = sat || tv(l) > 0;
            }
            ok = ok && sat;
        }
        if (ok) {
            r.push_back(b);
        }
    }
    return r;
}

} // namespace lpx
