// Strings of symbolic bytes: quoted decimals (C18) and option values (C17).
#include "search.hh"
#include "../engine/symrt.hh"

#include "parsing.hh"

#include <sstream>

using namespace lpx;
using symrt::Byte;
using symrt::Set;

extern "C" {
void _sym_begin(void *);
int _sym_result();
int _sym_decide(int, int);
}

namespace {

using Bytes = std::vector<Byte>;

//! n symbolic bytes named b0, b1, ...
Bytes symbolic(int n, Set const &values, std::string const &prefix = "b") {
    Bytes r;
    for (int i = 0; i < n; ++i) {
        auto *p = new char[1];
        symrt::symbolic_byte(p, prefix + std::to_string(i), values);
        r.push_back(symrt::at(p));
    }
    return r;
}
Byte byte(char c) { return {0, static_cast<unsigned char>(c)}; }
Bytes text(std::string const &s) {
    Bytes r;
    for (char c : s) {
        r.push_back(byte(c));
    }
    return r;
}
Bytes operator+(Bytes a, Bytes const &b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
z3::expr eq(Byte b, char c) { return symrt::in(b, Set().set(static_cast<unsigned char>(c))); }
z3::expr same(Byte a, Byte b) {
    z3::expr r = tru();
    if (a.id == 0 || b.id == 0) {
        return a.id == 0 ? eq(b, static_cast<char>(a.v)) : eq(a, static_cast<char>(b.v));
    }
    if (a.id == b.id) {
        return r;
    }
    for (int c = 1; c < 256; ++c) {
        r = r && (eq(a, static_cast<char>(c)) == eq(b, static_cast<char>(c)));
    }
    return r;
}
std::string printable(Bytes const &bs) {
    std::string r;
    if (cfg().replay) {
        for (auto b : bs) {
            char buf[8];
            std::snprintf(buf, sizeof buf, b.v > 32 && b.v < 127 ? "%c" : "<%02x>", b.v);
            r += buf;
        }
    } else {
        r = symrt::show(bs);
    }
    return r;
}

// ---- quoted decimals ----

struct Form {
    z3::expr holds;
    RF value;
};
//! The forms of a decimal with the given bytes.
std::vector<Form> forms(Bytes const &bs) {
    static auto const digit = symrt::range('0', '9');
    std::vector<Form> r;
    int n = static_cast<int>(bs.size());
    for (int neg = 0; neg < 2; ++neg) {
        for (int dot = neg; dot < n; ++dot) {
            // dot == neg: no fraction
            bool fraction = dot > neg;
            if (fraction && dot + 1 >= n) {
                continue;
            }
            if (!fraction && neg >= n) {
                continue;
            }
            z3::expr f = neg != 0 ? eq(bs[0], '-') : tru();
            LP v;
            Z den = 1;
            for (int i = neg; i < n; ++i) {
                if (fraction && i == dot) {
                    f = f && eq(bs[i], '.');
                    continue;
                }
                f = f && symrt::in(bs[i], digit);
                v = scale(v, Q(10)) + symrt::value(bs[i]) - LP(static_cast<long>('0'));
                if (fraction && i > dot) {
                    den *= 10;
                }
            }
            r.push_back({f, RF(scale(neg != 0 ? -v : v, Q(1) / Q(den)))});
        }
    }
    return r;
}
z3::expr is_number(Bytes const &bs) {
    z3::expr r = fls();
    for (auto const &f : forms(bs)) {
        r = r || f.holds;
    }
    return r;
}
//! clingo only hands out strings with complete escapes and without quotes or line breaks.
void well_formed(Bytes const &bs) {
    z3::expr esc = fls();
    z3::expr ok = tru();
    for (auto b : bs) {
        auto slash = eq(b, '\\');
        ok = ok && z3::implies(esc, symrt::in(b, symrt::chars("n\\\"")));
        ok = ok && z3::implies(!esc, !symrt::in(b, symrt::chars("\"\n")));
        esc = !esc && slash;
    }
    assume(ok && !esc);
}
//! The content of a string, deciding the escapes.
Bytes unquoted(Bytes const &bs) {
    Bytes r;
    for (size_t i = 0; i < bs.size(); ++i) {
        if (symrt::is(bs[i], '\\')) {
            ++i;
            if (i < bs.size() && symrt::is(bs[i], 'n')) {
                r.push_back(byte('\n'));
            } else if (i < bs.size()) {
                r.push_back(bs[i]);
            }
        } else {
            r.push_back(bs[i]);
        }
    }
    return r;
}

RF number(Rational const &x) {
    std::ostringstream o;
    o << x;
    RF v;
    if (!parse_number(o.str(), v)) {
        fail("a number is printed as '" + o.str() + "'");
    }
    return v;
}

struct Out {
    bool thrown = false;
    std::vector<Inequality> iqs;
    std::vector<Term> objective;
};
//! Translate one atom in which "\"%\"" stands for the string ("\"%2\"" for another one).
Out translate(std::string const &name, std::vector<std::string> const &terms, std::string const &rl, std::string const &guard, Bytes const &bs, Bytes const &cs = {}) {
    auto *w = new sim::World();
    std::vector<sim::World::Elem> es;
    for (auto const &t : terms) {
        sim::World::Elem e;
        e.tuple = {t};
        es.push_back(e);
    }
    w->atom(name, es, rl, guard, 1);
    auto str = symrt::make_string(text("\"") + bs + text("\""));
    auto str2 = symrt::make_string(text("\"") + cs + text("\""));
    for (auto &t : w->terms) {
        if (t.name == "\"%\"") {
            t.name = str;
        }
        if (t.name == "\"%2\"") {
            t.name = str2;
        }
    }
    Out o;
    auto *vars = new VarMap();
    op_budget(40000, "translation");
    try {
        Clingo::TheoryAtoms atoms{reinterpret_cast<clingo_theory_atoms_t *>(w)};
        evaluate_theory(atoms, [](lit_t l) { return l; }, *vars, o.iqs, o.objective);
    } catch (std::exception const &e) {
        o.thrown = true;
    }
    op_budget(-1, "");
    return o;
}

bool is_name(Clingo::Symbol const &s, char const *n) { return s.type() == Clingo::SymbolType::Function && std::strcmp(s.name(), n) == 0 && s.arguments().empty(); }
//! The symbol is the string with the given content.
z3::expr is_string(Clingo::Symbol const &s, Bytes const &want) {
    char const *p = nullptr;
    if (!clingo_symbol_string(s.to_c(), &p)) {
        return fls();
    }
    auto got = symrt::bytes(p);
    if (got.size() != want.size()) {
        return fls();
    }
    z3::expr r = tru();
    for (size_t i = 0; i < got.size(); ++i) {
        r = r && same(got[i], want[i]);
    }
    return r;
}

//! a*x + b*s <= c with the variables x and the string s.
struct Shape {
    RF x, s, c;
    bool ok = true;
    std::optional<Clingo::Symbol> str;
};
Shape shape(Out const &o) {
    Shape r;
    if (o.iqs.size() != 1) {
        r.ok = false;
        return r;
    }
    auto const &q = o.iqs[0];
    std::ostringstream rs;
    rs << q.rel;
    r.ok = rs.str() == "<=";
    r.c = number(q.rhs);
    for (auto const &t : q.lhs) {
        if (is_name(t.var, "x")) {
            r.x = r.x + number(t.co);
        } else if (!r.str || *r.str == t.var) {
            r.str = t.var;
            r.s = r.s + number(t.co);
        } else {
            r.ok = false;
        }
    }
    return r;
}

void decimal(int n, std::string const &context, bool full = true) {
    auto bs = symbolic(n, full ? symrt::range(1, 255) : symrt::chars("-.019\\"));
    note("string \"" + printable(bs) + "\" in " + context);
    well_formed(bs);
    Out o;
    if (context == "sum") {
        o = translate("sum", {"x", "\"%\""}, "<=", "3", bs);
    } else if (context == "guard") {
        o = translate("sum", {"x"}, "<=", "\"%\"", bs);
    } else if (context == "product") {
        o = translate("sum", {"2*\"%\"*3", "x"}, "<=", "1", bs);
    } else if (context == "diff") {
        o = translate("diff", {"x-\"%\""}, "<=", "4", bs);
    } else if (context == "dom") {
        o = translate("dom", {"\"%\"..9"}, "=", "x", bs);
    } else if (context == "domvar") {
        o = translate("dom", {"2..9"}, "=", "\"%\"", bs);
    } else if (context == "argument") {
        o = translate("sum", {"f(\"%\")"}, "<=", "2", bs);
    }
    auto fs = forms(bs);
    auto num = is_number(bs);
    if (context == "argument" || context == "domvar") {
        // always a string
        se::check(!o.thrown, "a string as a variable or argument is rejected");
        auto u = unquoted(bs);
        auto sym = [&](Clingo::Symbol s) {
            if (context == "argument") {
                if (s.type() != Clingo::SymbolType::Function || std::strcmp(s.name(), "f") != 0 || s.arguments().size() != 1) {
                    return fls();
                }
                s = s.arguments()[0];
            }
            return is_string(s, u);
        };
        se::check(!o.iqs.empty(), "no constraint");
        for (auto const &q : o.iqs) {
            se::check(q.lhs.size() == 1 && q.lhs.size() == 1, "wrong constraint over a string variable");
            se::check(sym(q.lhs[0].var), "wrong variable for a quoted string");
        }
        reach("string");
        return;
    }
    if (context == "dom") {
        // numbers only
        if (o.thrown) {
            se::check(!num, "a quoted decimal is rejected as a bound");
            reach("rejected");
            return;
        }
        se::check(num, "a string that is no decimal is accepted as a bound");
        reach("number");
        z3::expr found = fls();
        for (auto const &q : o.iqs) {
            se::check(q.lhs.size() == 1 && is_name(q.lhs[0].var, "x"), "wrong variable");
            auto co = number(q.lhs[0].co);
            auto b = number(q.rhs);
            // lower bounds: x >= b or -x <= -b
            std::ostringstream rs;
            rs << q.rel;
            z3::expr lower = rs.str() == ">=" ? rel(co, ">", RF(0)) : rel(co, "<", RF(0));
            z3::expr at = fls();
            for (auto const &f : fs) {
                at = at || (f.holds && rel(b, "=", co * f.value));
            }
            found = found || (lower && at);
        }
        se::check(found, "the bound is not the decimal that is written");
        return;
    }
    se::check(!o.thrown, "a string is rejected");
    auto s = shape(o);
    se::check(s.ok, "wrong shape of the translated constraint");
    // x + k*string <= c
    RF k = context == "sum" ? RF(1) : context == "guard" ? RF(-1) : context == "product" ? RF(6) : RF(-1);
    RF c = context == "sum" ? RF(3) : context == "guard" ? RF(0) : context == "product" ? RF(1) : RF(4);
    se::check(rel(s.x, ">", RF(0)), "wrong coefficient");
    if (s.str) {
        reach("string");
        se::check(!num, "a quoted decimal is taken for a variable");
        se::check(rel(s.s, "=", s.x * k), "wrong coefficient of a string variable");
        se::check(rel(s.c, "=", s.x * c), "wrong right hand side");
        se::check(is_string(*s.str, unquoted(bs)), "wrong variable for a quoted string");
    } else {
        reach("number");
        z3::expr f = fls();
        for (auto const &x : fs) {
            f = f || (x.holds && rel(s.c, "=", s.x * (c - k * x.value)));
        }
        se::check(num, "a string that is no decimal is taken for a number");
        se::check(f, "the value is not the decimal that is written");
    }
}

//! Two strings are the same variable exactly if their contents agree.
void two(int n, int m) {
    auto bs = symbolic(n, symrt::range(1, 255), "b");
    auto cs = symbolic(m, symrt::range(1, 255), "c");
    note("strings \"" + printable(bs) + "\" and \"" + printable(cs) + "\"");
    well_formed(bs);
    well_formed(cs);
    auto o = translate("sum", {"2*\"%\"", "3*\"%2\"", "5*x"}, "<=", "0", bs, cs);
    se::check(!o.thrown, "strings are rejected");
    se::check(o.iqs.size() == 1, "wrong number of constraints");
    auto const &q = o.iqs[0];
    std::ostringstream rs;
    rs << q.rel;
    se::check(rs.str() == "<=", "wrong relation");
    RF x;
    std::vector<std::pair<Clingo::Symbol, RF>> strs;
    for (auto const &t : q.lhs) {
        if (is_name(t.var, "x")) {
            x = x + number(t.co);
        } else {
            strs.emplace_back(t.var, number(t.co));
        }
    }
    se::check(rel(x, ">", RF(0)), "wrong coefficient");
    RF norm = x; // the coefficients are scaled by x/5
    auto co = [&](RF const &a, long k) { return rel(a * RF(5), "=", norm * RF(k)); };
    auto bn = is_number(bs);
    auto cn = is_number(cs);
    auto ub = unquoted(bs);
    auto uc = unquoted(cs);
    // the right hand side
    std::vector<Form> fb = forms(bs);
    std::vector<Form> fc = forms(cs);
    fb.push_back({!bn, RF(0)});
    fc.push_back({!cn, RF(0)});
    z3::expr sum = fls();
    for (auto const &f : fb) {
        for (auto const &g : fc) {
            sum = sum || (f.holds && g.holds && rel(number(q.rhs) * RF(5), "=", RF(0) - norm * (RF(2) * f.value + RF(3) * g.value)));
        }
    }
    se::check(sum, "the constant is not the sum of the decimals");
    z3::expr agree = ub.size() == uc.size() ? tru() : fls();
    for (size_t i = 0; i < ub.size() && ub.size() == uc.size(); ++i) {
        agree = agree && same(ub[i], uc[i]);
    }
    if (strs.empty()) {
        se::check(bn && cn, "a string is no variable");
        reach("two numbers");
    } else if (strs.size() == 2) {
        se::check(!bn && !cn && !agree, "two variables for strings that are no different variables");
        se::check(is_string(strs[0].first, ub) && co(strs[0].second, 2) && is_string(strs[1].first, uc) && co(strs[1].second, 3) ||
                  is_string(strs[0].first, uc) && co(strs[0].second, 3) && is_string(strs[1].first, ub) && co(strs[1].second, 2),
                  "wrong variables for two strings");
        reach("two variables");
    } else {
        se::check(strs.size() == 1, "too many variables");
        auto const &[v, k] = strs[0];
        se::check(z3::implies(!bn && !cn, agree && is_string(v, ub) && co(k, 5)), "different strings are the same variable");
        se::check(z3::implies(!bn && cn, is_string(v, ub) && co(k, 2)), "wrong variable for the first string");
        se::check(z3::implies(bn && !cn, is_string(v, uc) && co(k, 3)), "wrong variable for the second string");
        se::check(!(bn && cn), "a quoted decimal is taken for a variable");
        reach("one variable");
    }
}

// ---- options ----

char *buffer(Bytes const &bs) {
    auto *p = new char[bs.size() + 1];
    for (size_t i = 0; i < bs.size(); ++i) {
        symrt::put(p + i, bs[i]);
    }
    p[bs.size()] = 0;
    return p;
}

//! Call instrumented code: its result may be an expression over bytes.
template <class F> bool call(F f) {
    _sym_begin(nullptr);
    bool r = f();
    int id = _sym_result();
    return id == 0 ? r : _sym_decide(0, id) != 0;
}

struct Setting {
    bool option = false; // through the option parser, else through configure
    char const *key = nullptr;
    char const *value = nullptr;
};
struct Theory {
    clingolpx_theory_t *t = nullptr;
    sim::Options opts;
    Theory() {
        if (!clingolpx_create(&t) || !clingolpx_register_options(t, sim::options(opts))) {
            fail("clingolpx_create or clingolpx_register_options failed");
        }
    }
    bool set(Setting const &s) {
        if (!s.option) {
            clingo_set_error(0, "");
            bool r = call([&]() { return clingolpx_configure(t, s.key, s.value); });
            se::check(r || clingo_error_code() != 0, "configure fails without an error");
            return r;
        }
        auto it = opts.find(s.key);
        se::check(it != opts.end(), std::string("option ") + s.key + " does not exist");
        if (it->second.flag) {
            *it->second.target = std::strcmp(s.value, "yes") == 0;
            return true;
        }
        return call([&]() { return it->second.parse(s.value, it->second.data); });
    }
};

//! The configuration as it shows in the behaviour.
struct Config {
    bool strict = false;
    bool conflicts = false;
    int bounds = 0; // none, changed, full
    int select = 0; // none, match, conflict
    int store = 0;  // no, partial, total
    bool global = false;
    RF step;
    bool epsilon = false;
};

struct Probe {
    sim::World *w = new sim::World();
    Theory th;
    void register_() {
        if (!clingolpx_register(th.t, sim::control(*w))) {
            fail("clingolpx_register failed: " + sim::last_error());
        }
    }
    void sum(char const *lhs, char const *r, char const *rhs, lit_t l) {
        sim::World::Elem e;
        e.tuple = {lhs};
        w->atom("sum", {e}, r, rhs, l);
    }
    void maximize(char const *lhs) {
        sim::World::Elem e;
        e.tuple = {lhs};
        w->atom("maximize", {e}, "", "", w->true_lit());
    }
    Val value(char const *name) {
        size_t i = 0;
        clingolpx_assignment_begin(th.t, 0, &i);
        while (clingolpx_assignment_next(th.t, 0, &i)) {
            if (sim::symbol_str(clingolpx_get_symbol(th.t, i)) == name) {
                clingolpx_value_t v{};
                clingolpx_assignment_get_value(th.t, 0, i, &v);
                char const *str = nullptr;
                Val x;
                if (!clingo_symbol_string(v.symbol, &str) || !parse_value(str, x)) {
                    fail("unreadable value");
                }
                return x;
            }
        }
        fail(std::string("variable ") + name + " has no value");
    }
    bool is(char const *name, long v) {
        auto x = value(name);
        return se::cmp(x.c, RF(v)) == 0 && se::cmp(x.k, RF(0)) == 0;
    }
    lit_t decide(lit_t l) {
        lit_t d = l;
        if (w->prop.decide != nullptr && !w->prop.decide(0, reinterpret_cast<clingo_assignment_t const *>(&w->thr[0]), l, w->data, &d)) {
            fail("decide failed");
        }
        return d == 0 ? l : d;
    }
};

using Settings = std::vector<Setting>;
bool put_all(Theory &t, Settings const &ss) {
    bool r = true;
    for (auto const &s : ss) {
        r = t.set(s);
    }
    return r;
}

void observe(Settings const &ss, Config const &want, bool full_objective) {
    auto says = [](char const *field, auto got, auto exp) {
        se::check(got == exp, std::string("option ") + field + " has not the documented value");
    };
    {
        // strict mode, conflicting bounds, bound propagation and the heuristic
        Probe p;
        put_all(p.th, ss);
        auto a = p.w->new_lit();
        auto b = p.w->new_lit();
        auto c = p.w->new_lit();
        auto d = p.w->new_lit();
        auto e = p.w->new_lit();
        p.sum("u", "<=", "9", 1);
        auto g = p.w->new_lit();
        p.sum("u", ">=", "0", g);
        p.sum("v", ">=", "0", 1);
        p.sum("u+v", "<=", "-1", c); // follows from bounds that change no value
        p.sum("x", ">=", "1", a);
        p.sum("x", "<=", "0", b);
        p.sum("x+y", "<=", "0", d); // follows once x and y change
        p.sum("y", ">=", "1", e);
        p.register_();
        std::vector<sim::Clause> init;
        p.w->on_init_clause = [&](sim::Clause const &cl) { init.push_back(cl); };
        p.w->init();
        bool strict = false;
        std::string txt = p.w->theory_text;
        for (size_t i = txt.find('{'); i != std::string::npos; i = txt.find('{', i + 1)) {
            std::string tok;
            for (size_t k = i + 1; k < txt.size(); ++k) {
                if (txt[k] == ',' || txt[k] == '}') {
                    strict = strict || tok == "<" || tok == ">";
                    tok.clear();
                    if (txt[k] == '}') {
                        break;
                    }
                } else if (!std::isspace(static_cast<unsigned char>(txt[k]))) {
                    tok += txt[k];
                }
            }
        }
        says("strict", strict, want.strict);
        bool conf = false;
        for (auto cl : init) {
            std::sort(cl.begin(), cl.end());
            conf = conf || cl == sim::Clause{-b, -a};
        }
        says("propagate-conflicts", conf, want.conflicts);
        // at the initial assignment x = 0: x >= 1 is violated and x <= 0 is not
        auto &t = p.w->thr[0];
        bool sel[8] = {};
        auto ask = [&](lit_t l) { return p.decide(l); };
        sel[0] = ask(a) == a;
        sel[1] = ask(-a) == -a;
        sel[2] = ask(b) == b;
        sel[3] = ask(-b) == -b;
        int select = -1;
        if (sel[0] && sel[1] && sel[2] && sel[3]) {
            select = 0;
        } else if (!sel[0] && sel[1] && sel[2] && !sel[3]) {
            select = 1;
        } else if (sel[0] && !sel[1] && !sel[2] && sel[3]) {
            select = 2;
        }
        says("select", select, want.select);
        bool first = false;
        bool second = false;
        t.propagate();
        t.new_level(g);
        t.propagate();
        first = t.value(c) < 0;
        t.new_level(a);
        t.propagate();
        t.new_level(e);
        t.propagate();
        second = t.value(d) < 0;
        note(std::string("first ") + (first?"1":"0") + " second " + (second?"1":"0"));
        says("propagate-bounds", !second ? (first ? -1 : 0) : (first ? 2 : 1), want.bounds);
    }
    {
        // values kept when backtracking
        Probe p;
        put_all(p.th, ss);
        auto a = p.w->new_lit();
        auto b = p.w->new_lit();
        p.sum("x", ">=", "1", a);
        p.sum("y", ">=", "1", b);
        p.register_();
        p.w->init();
        auto &t = p.w->thr[0];
        t.propagate();
        t.new_level(a);
        t.propagate();
        t.backtrack(0);
        bool partial = p.is("x", 1);
        t.propagate();
        t.new_level(b);
        t.propagate();
        t.new_level(a);
        t.propagate();
        t.model_check();
        t.backtrack(0);
        bool total = p.is("y", 1);
        says("store", !total ? (partial ? -1 : 0) : (partial ? 1 : 2), want.store);
    }
    {
        // the second model must improve by the step
        Probe p;
        put_all(p.th, ss);
        auto a = p.w->new_lit();
        auto gap = full_objective ? input("gap") : LP(-1L);
        p.sum("z", "<=", "0", a);
        if (full_objective) {
            p.sum("z", "<=", "$gap", -a);
        } else {
            p.sum("z", "<=", "-1", -a);
        }
        p.maximize("z");
        p.register_();
        p.w->init();
        auto &t = p.w->thr[0];
        auto run = [&](lit_t l) {
            bool ok = t.propagate();
            if (ok) {
                t.new_level(l);
                ok = t.propagate();
            }
            return ok && t.total() && t.model_check() && t.total();
        };
        se::check(run(a), "the first model is not accepted");
        if (!clingolpx_on_model(p.th.t, sim::model(*p.w))) {
            fail("clingolpx_on_model failed");
        }
        t.backtrack(0);
        bool ok = run(-a);
        if (!want.global) {
            se::check(ok, "option objective has not the documented value");
        } else if (want.epsilon) {
            se::check(rel(RF(gap), ok ? ">" : "<=", RF(0)), "option objective has not the documented step");
        } else {
            se::check(rel(RF(gap), ok ? ">=" : "<", want.step), "option objective has not the documented step");
        }
        reach(ok ? "second model" : "no second model");
    }
}

struct Spelling {
    std::string text;
    std::function<void(Config &)> set;
};
std::vector<Spelling> spellings(std::string const &key) {
    std::vector<Spelling> r;
    auto on = [&](std::vector<char const *> const &ts, std::function<void(Config &)> f) {
        for (auto const *t : ts) {
            r.push_back({t, f});
        }
    };
    if (key == "strict") {
        on({"no", "off", "0"}, [](Config &c) { c.strict = false; });
        on({"yes", "on", "1"}, [](Config &c) { c.strict = true; });
    } else if (key == "propagate-conflicts") {
        on({"no", "off", "0"}, [](Config &c) { c.conflicts = false; });
        on({"yes", "on", "1"}, [](Config &c) { c.conflicts = true; });
    } else if (key == "propagate-bounds") {
        on({"none"}, [](Config &c) { c.bounds = 0; });
        on({"changed"}, [](Config &c) { c.bounds = 1; });
        on({"full"}, [](Config &c) { c.bounds = 2; });
    } else if (key == "select") {
        on({"none"}, [](Config &c) { c.select = 0; });
        on({"match"}, [](Config &c) { c.select = 1; });
        on({"conflict"}, [](Config &c) { c.select = 2; });
    } else if (key == "store") {
        on({"no"}, [](Config &c) { c.store = 0; });
        on({"partial"}, [](Config &c) { c.store = 1; });
        on({"total"}, [](Config &c) { c.store = 2; });
    } else if (key == "objective") {
        on({"local"}, [](Config &c) { c.global = false; });
        on({"global"}, [](Config &c) { c.global = true; c.step = RF(0); c.epsilon = false; });
        on({"global,e"}, [](Config &c) { c.global = true; c.step = RF(0); c.epsilon = true; });
    }
    return r;
}
//! Equal up to the case of letters.
z3::expr iequal(Bytes const &bs, std::string const &t, bool exact = false) {
    if (bs.size() != t.size()) {
        return fls();
    }
    z3::expr r = tru();
    for (size_t i = 0; i < t.size(); ++i) {
        Set s;
        s.set(static_cast<unsigned char>(t[i]));
        if (!exact) {
            s.set(static_cast<unsigned char>(std::toupper(static_cast<unsigned char>(t[i]))));
        }
        r = r && symrt::in(bs[i], s);
    }
    return r;
}

//! A configuration that differs from the defaults everywhere.
Config preset(Settings &ss, int which) {
    Config c;
    if (which == 1) {
        ss.push_back({false, "strict", "yes"});
        ss.push_back({false, "propagate-conflicts", "yes"});
        ss.push_back({false, "propagate-bounds", "changed"});
        ss.push_back({false, "select", "match"});
        ss.push_back({false, "store", "partial"});
        ss.push_back({false, "objective", "global,1/2"});
        c.strict = c.conflicts = c.global = true;
        c.bounds = c.select = c.store = 1;
        c.step = RF(Q(1, 2));
    } else if (which == 2) {
        ss.push_back({true, "strict", "yes"});
        ss.push_back({true, "propagate-conflicts", "yes"});
        ss.push_back({true, "propagate-bounds", "full"});
        ss.push_back({true, "select", "conflict"});
        ss.push_back({true, "store", "total"});
        ss.push_back({true, "objective", "global,3"});
        c.strict = c.conflicts = c.global = true;
        c.bounds = c.select = c.store = 2;
        c.step = RF(3);
    }
    return c;
}

//! A decimal number without sign.
struct Nat {
    z3::expr holds;
    LP value;
};
Nat natural(Bytes const &bs, size_t from, size_t to) {
    Nat r{fls(), LP(0L)};
    if (from >= to) {
        return r;
    }
    r.holds = tru();
    for (size_t i = from; i < to; ++i) {
        r.holds = r.holds && symrt::in(bs[i], symrt::range('0', '9'));
    }
    return r;
}
LP number_of(Bytes const &bs, size_t from, size_t to) {
    LP v;
    for (size_t i = from; i < to; ++i) {
        v = scale(v, Q(10)) + symrt::value(bs[i]) - LP(static_cast<long>('0'));
    }
    return v;
}

//! A value of n arbitrary bytes for an option.
void value(std::string const &key, bool option, int n, int pre, std::string const &prefix = "") {
    auto bs = text(prefix) + symbolic(n, symrt::range(1, 255));
    note((option ? "option " : "configure ") + key + "=" + printable(bs));
    Settings ss;
    auto want = preset(ss, pre);
    auto before = want;
    auto *val = buffer(bs);
    ss.push_back({option, strdup(key.c_str()), val});
    bool ok = false;
    {
        Theory t;
        ok = put_all(t, ss);
    }
    reach(ok ? "accepted" : "rejected");
    auto sp = spellings(key);
    z3::expr any = fls();
    for (auto const &s : sp) {
        any = any || iequal(bs, s.text);
    }
    size_t head = 7;
    bool step = false;
    if (key == "objective" && bs.size() > head && decided(iequal(Bytes(bs.begin(), bs.begin() + head), "global,"))) {
        // blanks and signs are not documented
        z3::expr odd = fls();
        for (size_t i = head; i < bs.size(); ++i) {
            odd = odd || symrt::in(bs[i], symrt::chars(" \t\n\v\f\r-+"));
        }
        assume(!odd);
        z3::expr nat = natural(bs, head, bs.size()).holds;
        for (size_t k = head; k < bs.size(); ++k) {
            auto den = natural(bs, k + 1, bs.size());
            z3::expr nz = fls();
            for (size_t i = k + 1; i < bs.size(); ++i) {
                nz = nz || !eq(bs[i], '0');
            }
            nat = nat || (natural(bs, head, k).holds && eq(bs[k], '/') && den.holds && nz);
        }
        any = any || nat;
        step = ok;
    }
    se::check(ok ? any : !any, ok ? "an undocumented value is accepted" : "a documented value is rejected");
    if (ok) {
        bool found = false;
        for (auto const &s : sp) {
            if (decided(iequal(bs, s.text))) {
                s.set(want);
                found = true;
                break;
            }
        }
        if (!found && step) {
            size_t k = head;
            while (k < bs.size() && !symrt::is(bs[k], '/')) {
                ++k;
            }
            want.global = true;
            want.epsilon = false;
            want.step = RF(number_of(bs, head, k));
            if (k < bs.size()) {
                want.step = divide(want.step, RF(number_of(bs, k + 1, bs.size())));
            }
            reach("step");
        }
    }
    {
        Theory t;
        put_all(t, ss);
        bool valid = call([&]() { return clingolpx_validate_options(t.t); });
        se::check(valid == (want.strict || !want.global || !want.epsilon), "validation of options");
        if (!valid) {
            reach("invalid");
            return;
        }
    }
    observe(ss, want, key == "objective" && ok);
}

//! A key of n arbitrary bytes.
void key(int n, std::string const &v) {
    auto bs = symbolic(n, symrt::range(1, 255));
    note("configure " + printable(bs) + "=" + v);
    Settings ss;
    auto want = preset(ss, 0);
    ss.push_back({false, buffer(bs), strdup(v.c_str())});
    bool ok = false;
    {
        Theory t;
        ok = put_all(t, ss);
    }
    reach(ok ? "accepted" : "rejected");
    z3::expr any = fls();
    z3::expr variant = fls();
    std::vector<std::string> keys{"strict", "objective", "propagate-conflicts", "propagate-bounds", "select", "store"};
    std::optional<Spelling> hit;
    for (auto const &k : keys) {
        variant = variant || (iequal(bs, k) && !iequal(bs, k, true));
        for (auto const &s : spellings(k)) {
            if (s.text == v) {
                any = any || iequal(bs, k, true);
                if (ok && decided(iequal(bs, k, true))) {
                    hit = s;
                }
            }
        }
    }
    assume(!variant); // the case of keys is not documented
    se::check(ok ? any : !any, ok ? "an undocumented key is accepted" : "a documented key is rejected");
    if (hit) {
        hit->set(want);
    }
    if (want.strict || !want.epsilon) {
        observe(ss, want, false);
    }
}

} // namespace

int main(int argc, char **argv) {
    std::vector<Case> cs;
    auto add = [&](std::string const &n, std::function<void()> f, bool thorough = false) { cs.push_back({n, std::move(f), thorough}); };
    for (auto const *ctx : {"sum", "guard", "product", "diff", "dom", "domvar", "argument"}) {
        std::string c = ctx;
        for (int n = 0; n <= 9; ++n) {
            bool main = c == "sum";
            add("C18/" + c + "_" + std::to_string(n), [n, c]() { decimal(n, c); }, n > (main ? 7 : 5));
        }
    }
    for (int n = 0; n <= 4; ++n) {
        for (int m = 0; m <= 4; ++m) {
            add("C18/two_" + std::to_string(n) + "_" + std::to_string(m), [n, m]() { two(n, m); }, n > 3 || m > 3);
        }
    }
    for (auto const *k : {"strict", "propagate-conflicts", "propagate-bounds", "select", "store", "objective"}) {
        std::string key = k;
        bool flag = key == "strict" || key == "propagate-conflicts";
        for (int n = 0; n <= 14; ++n) {
            for (int pre = 0; pre < 3; ++pre) {
                for (int option = 0; option < (flag ? 1 : 2); ++option) {
                    add("C17/" + key + (option != 0 ? "_option" : "_configure") + "_" + std::to_string(n) + "_" + std::to_string(pre),
                        [key, option, n, pre]() { value(key, option != 0, n, pre); }, n > 9 || (pre == 2) != (option != 0));
                }
            }
        }
    }
    for (int n = 0; n <= 7; ++n) {
        add("C17/step_" + std::to_string(n), [n]() { value("objective", n % 2 == 1, n, 1, n % 3 == 0 ? "GLOBAL," : "global,"); }, n > 5);
    }
    for (int n = 0; n <= 20; ++n) {
        for (auto const *v : {"yes", "none", "full", "match", "total", "global"}) {
            std::string w = v;
            add(std::string("C17/key_") + v + "_" + std::to_string(n), [n, w]() { key(n, w); });
        }
    }
    for (auto const *k : {"strict", "propagate-conflicts"}) {
        for (auto const *v : {"no", "yes"}) {
            add(std::string("C17/flag_") + k + "_" + v, [k, v]() {
                for (int pre = 0; pre < 3; ++pre) {
                    Settings ss;
                    auto want = preset(ss, pre);
                    ss.push_back({true, k, v});
                    (std::strcmp(k, "strict") == 0 ? want.strict : want.conflicts) = std::strcmp(v, "yes") == 0;
                    observe(ss, want, true);
                }
            });
        }
    }
    return run_main(argc, argv, "strings", cs);
}
