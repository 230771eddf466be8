#include "sim.hh"
#include "symrt.hh"

#include <algorithm>
#include <cstring>
#include <unordered_map>

namespace sim {

using se::LP;

// {{{ symbols

namespace {

struct Symb {
    int type = 0;
    int number = 0;
    std::string name;
    bool positive = true;
    std::vector<clingo_symbol_t> args;
};

std::deque<Symb> &symtab() {
    static auto *v = new std::deque<Symb>();
    return *v;
}

clingo_symbol_t intern(Symb const &s) {
    auto &tab = symtab();
    for (size_t i = 0; i < tab.size(); ++i) {
        auto const &o = tab[i];
        if (o.type == s.type && o.number == s.number && o.positive == s.positive && o.name == s.name &&
            o.args == s.args) {
            return i + 1;
        }
    }
    tab.push_back(s);
    return tab.size();
}

Symb const &sym(clingo_symbol_t s) {
    auto &tab = symtab();
    if (s == 0 || s > tab.size()) {
        se::fail("invalid symbol used");
    }
    return tab[s - 1];
}

std::string err_msg;
clingo_error_t err_code = 0;

std::string quote(std::string const &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '\n') {
            r += "\\n";
        } else if (c == '\\') {
            r += "\\\\";
        } else if (c == '"') {
            r += "\\\"";
        } else {
            r += c;
        }
    }
    return r + "\"";
}

int cmp_sym(clingo_symbol_t x, clingo_symbol_t y) {
    if (x == y) {
        return 0;
    }
    auto const &a = sym(x);
    auto const &b = sym(y);
    if (a.type != b.type) {
        return a.type < b.type ? -1 : 1;
    }
    if (a.number != b.number) {
        return a.number < b.number ? -1 : 1;
    }
    if (a.positive != b.positive) {
        return a.positive ? -1 : 1;
    }
    if (a.args.size() != b.args.size()) {
        return a.args.size() < b.args.size() ? -1 : 1;
    }
    if (int c = a.name.compare(b.name); c != 0) {
        return c < 0 ? -1 : 1;
    }
    for (size_t i = 0; i < a.args.size(); ++i) {
        if (int c = cmp_sym(a.args[i], b.args[i]); c != 0) {
            return c;
        }
    }
    return 0;
}

} // namespace

std::string symbol_str(clingo_symbol_t s) {
    auto const &x = sym(s);
    switch (x.type) {
        case clingo_symbol_type_number: {
            return std::to_string(x.number);
        }
        case clingo_symbol_type_string: {
            return quote(x.name);
        }
        case clingo_symbol_type_infimum: {
            return "#inf";
        }
        case clingo_symbol_type_supremum: {
            return "#sup";
        }
        default: {
            std::string r = (x.positive ? "" : "-") + x.name;
            if (!x.args.empty() || x.name.empty()) {
                r += "(";
                for (size_t i = 0; i < x.args.size(); ++i) {
                    r += (i > 0 ? "," : "") + symbol_str(x.args[i]);
                }
                if (x.name.empty() && x.args.size() == 1) {
                    r += ",";
                }
                r += ")";
            }
            return r;
        }
    }
}

World *&application() {
    static World *w = nullptr;
    return w;
}

std::string last_error() { return err_msg; }

// }}}
// {{{ term templates

namespace {

struct Parser {
    std::string s;
    TermDef const *def = nullptr;
    std::vector<std::string> *errors = nullptr;
    size_t i = 0;
    void error(std::string const &msg) {
        if (errors != nullptr) {
            errors->push_back(msg);
        }
    }
    void ws() {
        while (i < s.size() && s[i] == ' ') {
            ++i;
        }
    }
    bool eat(char const *t) {
        ws();
        size_t n = std::strlen(t);
        if (s.compare(i, n, t) == 0) {
            i += n;
            return true;
        }
        return false;
    }
    static NodeP mk(Node::Kind k, std::string name, std::vector<NodeP> args = {}) {
        auto n = std::make_shared<Node>();
        n->kind = k;
        n->name = std::move(name);
        n->args = std::move(args);
        return n;
    }
    std::string peek_op() {
        ws();
        if (s.compare(i, 2, "..") == 0) {
            return "..";
        }
        for (char const *o : {"+", "-", "*", "/"}) {
            if (s.compare(i, 1, o) == 0) {
                return o;
            }
        }
        if (s.compare(i, 1, "^") == 0 || s.compare(i, 1, "?") == 0) {
            return s.substr(i, 1);
        }
        return "";
    }
    std::pair<int, bool> prec(std::string const &o) {
        if (def != nullptr) {
            if (auto it = def->binary.find(o); it != def->binary.end()) {
                return it->second;
            }
            if (!o.empty()) {
                error("operator " + o + " is not defined");
            }
        }
        return {documented(o), true};
    }
    static int documented(std::string const &o) {
        return o == ".." ? 0 : (o == "+" || o == "-") ? 1 : (o == "*" || o == "/" || o == "^" || o == "?") ? 2 : -1;
    }
    NodeP expr(int p) {
        NodeP l = unary();
        while (true) {
            auto o = peek_op();
            if (o.empty()) {
                return l;
            }
            auto [q, left] = prec(o);
            // the operator before takes the term on ties with left associative operators
            if (q < p || (q == p && left)) {
                return l;
            }
            i += o.size();
            NodeP r = expr(q);
            l = mk(Node::Op, o, {l, r});
        }
    }
    NodeP unary() {
        ws();
        if (i < s.size() && (s[i] == '-' || s[i] == '+') ) {
            std::string o = s.substr(i, 1);
            ++i;
            if (def != nullptr) {
                if (auto it = def->unary.find(o); it != def->unary.end()) {
                    return mk(Node::Op, o, {expr(it->second)});
                }
                error("operator " + o + " is not defined as unary operator");
            }
            return mk(Node::Op, o, {unary()});
        }
        return primary();
    }
    std::vector<NodeP> args(char close, bool &comma) {
        std::vector<NodeP> r;
        comma = false;
        ws();
        if (s[i] == close) {
            ++i;
            return r;
        }
        while (true) {
            r.push_back(expr(-1));
            ws();
            if (s[i] == ',') {
                comma = true;
                ++i;
                ws();
                if (s[i] == close) {
                    ++i;
                    return r;
                }
                continue;
            }
            if (s[i] != close) {
                se::unsupported("template syntax: " + s);
            }
            ++i;
            return r;
        }
    }
    NodeP primary() {
        ws();
        if (i >= s.size()) {
            se::unsupported("template syntax: " + s);
        }
        char c = s[i];
        bool comma = false;
        if (isdigit(c)) {
            size_t b = i;
            while (i < s.size() && isdigit(s[i])) {
                ++i;
            }
            auto n = mk(Node::Num, "");
            n->num = LP(se::Z(s.substr(b, i - b)));
            return n;
        }
        if (c == '$') {
            size_t b = ++i;
            bool integer = false;
            if (s[i] == '#') {
                integer = true;
                b = ++i;
            }
            while (i < s.size() && (isalnum(s[i]) || s[i] == '_')) {
                ++i;
            }
            auto n = mk(Node::Num, "");
            n->num = se::input(s.substr(b, i - b), integer ? se::Kind::Int : se::Kind::Real);
            return n;
        }
        if (c == '"') {
            size_t b = i++;
            while (s[i] != '"') {
                if (s[i] == '\\') {
                    ++i;
                }
                ++i;
            }
            ++i;
            return mk(Node::Str, s.substr(b, i - b));
        }
        if (c == '(') {
            ++i;
            auto a = args(')', comma);
            if (a.size() == 1 && !comma) {
                return a[0];
            }
            return mk(Node::Tup, "", a);
        }
        if (isalpha(c) || c == '_') {
            size_t b = i;
            while (i < s.size() && (isalnum(s[i]) || s[i] == '_')) {
                ++i;
            }
            auto name = s.substr(b, i - b);
            if (i < s.size() && s[i] == '(') {
                ++i;
                auto a = args(')', comma);
                return mk(Node::Fun, name, a);
            }
            return mk(Node::Sym, name);
        }
        se::unsupported("template syntax: " + s);
    }
};

} // namespace

Theory parse_theory_definition(std::string const &text) {
    Theory t;
    size_t i = 0;
    auto bad = [&]() { se::unsupported("theory definition: " + text.substr(i, 40)); };
    auto next = [&]() {
        while (i < text.size()) {
            if (isspace(text[i])) {
                ++i;
            } else if (text[i] == '%') {
                while (i < text.size() && text[i] != '\n') {
                    ++i;
                }
            } else {
                break;
            }
        }
        if (i >= text.size()) {
            return std::string();
        }
        size_t b = i;
        auto is = [&](char const *set) { return i < text.size() && std::strchr(set, text[i]) != nullptr; };
        if (isalnum(text[i]) || text[i] == '_' || text[i] == '#') {
            ++i;
            while (i < text.size() && (isalnum(text[i]) || text[i] == '_')) {
                ++i;
            }
        } else if (is("/!<=>+-*\\?&@|:~^.")) {
            while (is("/!<=>+-*\\?&@|:~^.")) {
                ++i;
            }
        } else {
            ++i;
        }
        return text.substr(b, i - b);
    };
    auto expect = [&](std::string const &x) {
        if (next() != x) {
            bad();
        }
    };
    expect("#theory");
    next();
    expect("{");
    for (auto x = next(); x != "}"; x = next()) {
        if (x == ";") {
            continue;
        }
        if (x.empty()) {
            bad();
        }
        if (x == "&") {
            auto name = next();
            expect("/");
            expect("0");
            expect(":");
            AtomDef a;
            a.term = next();
            expect(",");
            auto y = next();
            if (y == "{") {
                a.has_guard = true;
                for (y = next(); y != "}"; y = next()) {
                    if (y != ",") {
                        a.rels.insert(y);
                    }
                    if (y.empty()) {
                        bad();
                    }
                }
                expect(",");
                a.guard = next();
                expect(",");
                next();
            }
            t.atoms[name] = a;
            continue;
        }
        auto &d = t.terms[x];
        expect("{");
        for (auto o = next(); o != "}"; o = next()) {
            if (o == ";") {
                continue;
            }
            expect(":");
            int prio = std::atoi(next().c_str());
            expect(",");
            auto kind = next();
            if (kind == "unary") {
                d.unary[o] = prio;
            } else if (kind == "binary") {
                expect(",");
                d.binary[o] = {prio, next() == "left"};
            } else {
                bad();
            }
        }
    }
    return t;
}

NodeP parse_term(std::string const &text, TermDef const *def, std::vector<std::string> *errors) {
    Parser p{text, def, errors};
    auto n = p.expr(-1);
    p.ws();
    if (p.i != text.size()) {
        se::unsupported("template syntax: " + text);
    }
    return n;
}

std::string show(NodeP const &n) {
    switch (n->kind) {
        case Node::Num: {
            return n->num.str();
        }
        case Node::Sym:
        case Node::Str: {
            return n->name;
        }
        case Node::Op: {
            if (n->args.size() == 1) {
                return n->name + show(n->args[0]);
            }
            return "(" + show(n->args[0]) + n->name + show(n->args[1]) + ")";
        }
        default: {
            std::string r = n->name + "(";
            for (size_t i = 0; i < n->args.size(); ++i) {
                r += (i > 0 ? "," : "") + show(n->args[i]);
            }
            return r + ")";
        }
    }
}

// }}}
// {{{ world

World::World() = default;
World::~World() = default;

lit_t World::new_lit() {
    ++vars;
    for (auto &t : thr) {
        t.add_var();
    }
    return vars;
}

clingo_id_t World::term(NodeP const &n) {
    TTerm t;
    auto push = [&](TTerm x) {
        terms.push_back(std::move(x));
        return static_cast<clingo_id_t>(terms.size() - 1);
    };
    auto number = [&](se::Z const &v) {
        TTerm x;
        if (v.fits_sint_p()) {
            x.type = clingo_theory_term_type_number;
            x.number = static_cast<int>(v.get_si());
        } else {
            x.type = clingo_theory_term_type_symbol;
            x.name = "\"" + v.get_str() + "\"";
        }
        return push(x);
    };
    switch (n->kind) {
        case Node::Num: {
            if (n->num.is_const()) {
                se::Q q = n->num.cval();
                if (q.get_den() == 1) {
                    return number(q.get_num());
                }
                auto a = number(q.get_num());
                auto b = number(q.get_den());
                t.type = clingo_theory_term_type_function;
                t.name = "/";
                t.args = {a, b};
                return push(t);
            }
            t.type = clingo_theory_term_type_number;
            t.number = static_cast<int>(se::native_tag(n->num));
            return push(t);
        }
        case Node::Sym:
        case Node::Str: {
            t.type = clingo_theory_term_type_symbol;
            t.name = n->name;
            return push(t);
        }
        case Node::Op:
        case Node::Fun:
        case Node::Tup: {
            t.type = n->kind == Node::Tup ? clingo_theory_term_type_tuple : clingo_theory_term_type_function;
            t.name = n->name;
            for (auto const &a : n->args) {
                t.args.push_back(term(a));
            }
            return push(t);
        }
    }
    return 0;
}

clingo_literal_t World::condition_id(Elem const &e) {
    if (e.cond.size() < 2) {
        return e.cond_lit + LIT;
    }
    return cond_ids.emplace(e.cond_lit, CONJ + static_cast<clingo_literal_t>(cond_ids.size())).first->second;
}

lit_t World::solver_literal(clingo_literal_t l) const {
    if (l >= CONJ) {
        for (auto const &[s, id] : cond_ids) {
            if (id == l) {
                return s;
            }
        }
        se::fail("the id of a condition of an earlier step is mapped to a literal");
    }
    return l - LIT;
}

void World::atom(std::string const &name, std::vector<Elem> const &es, std::string const &rel,
                 std::string const &guard, lit_t lit) {
    if (atoms.empty()) {
        cond_ids.clear(); // a new step
    }
    TermDef const *left = nullptr;
    TermDef const *right = nullptr;
    if (theory_text.empty()) {
        sources.push_back({name, es, rel, guard, lit});
    } else if (auto it = theory.atoms.find(name); it == theory.atoms.end()) {
        rejected.push_back("the theory does not define &" + name);
    } else {
        left = &theory.terms[it->second.term];
        right = &theory.terms[it->second.guard];
        if (!rel.empty() && it->second.rels.count(rel) == 0) {
            rejected.push_back("the theory does not define &" + name + " with guard " + rel);
        }
    }
    TAtom a;
    TTerm t;
    t.type = clingo_theory_term_type_symbol;
    t.name = name;
    terms.push_back(t);
    a.term = terms.size() - 1;
    for (auto const &e : es) {
        TElem x;
        for (auto const &s : e.tuple) {
            x.tuple.push_back(term(parse_term(s, left, &rejected)));
        }
        for (auto l : e.cond) {
            x.cond.push_back(l + LIT);
        }
        x.cond_id = condition_id(e);
        elems.push_back(x);
        a.elems.push_back(elems.size() - 1);
    }
    if (!rel.empty()) {
        a.has_guard = true;
        a.rel = rel;
        a.guard = term(parse_term(guard, right, &rejected));
    }
    a.lit = lit;
    atoms.push_back(a);
}

void World::define(std::string const &text) {
    theory_text = text;
    theory = parse_theory_definition(text);
    auto again = std::move(sources);
    sources.clear();
    if (again.empty()) {
        return;
    }
    atoms.clear();
    elems.clear();
    terms.clear();
    for (auto const &s : again) {
        atom(s.name, s.elems, s.rel, s.guard, s.lit);
    }
}

void World::init() {
    if (!rejected.empty()) {
        se::fail("clingo rejects the program: " + rejected.front());
    }
    bool attached = !thr.empty();
    if (thr.empty()) {
        for (int i = 0; i < n_threads; ++i) {
            thr.emplace_back();
            Thr &t = thr.back();
            t.w = this;
            t.id = i;
            t.val.assign(1, 0);
            t.lvl.assign(1, 0);
            for (int v = 1; v <= vars; ++v) {
                t.add_var();
            }
            t.assign(1);
        }
    }
    for (auto &t : thr) {
        while (t.nvars() < vars) {
            t.add_var();
        }
        t.front = -1;
        if (!t.bcp()) {
            top_conflict = true;
            return;
        }
    }
    // facts found by one solver reach the first one between the steps, which passes them on when the others are attached
    for (int i = 1; attached && i < 2 * n_threads - 1; ++i) {
        Thr &from = thr[i < n_threads ? i : 0];
        Thr &to = thr[i < n_threads ? 0 : i - n_threads + 1];
        for (auto l : from.trail) {
            if (to.value(l) == 0) {
                to.assign(l);
            } else if (to.value(l) < 0) {
                top_conflict = true;
                return;
            }
        }
        if (!to.bcp()) {
            top_conflict = true;
            return;
        }
    }
    check_mode = clingo_propagator_check_mode_total;
    new_watches.clear();
    in_init = true;
    se::op_budget(budget, "init");
    bool ok = prop.init(reinterpret_cast<clingo_propagate_init_t *>(this), data);
    se::op_budget(-1, "");
    in_init = false;
    if (!ok) {
        throw Error(err_msg);
    }
    for (auto &[l, th] : new_watches) {
        for (auto &t : thr) {
            if (th != UINT32_MAX && static_cast<int>(th) != t.id) {
                continue;
            }
            if (!t.watches.insert(l).second) {
                continue;
            }
            if (t.value(l) > 0) {
                bool queued = std::find(t.trail.begin() + t.seen, t.trail.end(), l) != t.trail.end();
                bool in = std::find(t.ptrail.begin(), t.ptrail.end(), l) != t.ptrail.end();
                if (!queued && !in) {
                    t.ptrail.push_back(l);
                }
            }
        }
    }
    if (top_conflict) {
        return;
    }
    for (auto &t : thr) {
        t.front = (check_mode & clingo_propagator_check_mode_fixpoint) != 0 ? -1 : INT32_MAX;
    }
}

void World::begin_step() { step = new_lit(); }

void World::end_step() {
    lit_t s = step;
    for (auto &t : thr) {
        t.backtrack(0);
        t.pending.reset();
        std::vector<Clause> keep;
        for (auto const &c : t.db) {
            bool drop = false;
            for (auto l : c) {
                drop = drop || l == -s || t.aux.count(std::abs(l)) != 0;
            }
            if (!drop) {
                keep.push_back(c);
            }
        }
        t.db = keep;
        for (auto l : t.aux) {
            if (t.value(l) != 0) {
                se::unsupported("an auxiliary literal is assigned on level zero");
            }
            t.watches.erase(l);
            t.watches.erase(-l);
        }
        t.val.resize(vars + 1);
        t.lvl.resize(vars + 1);
        t.aux.clear();
    }
    clauses.push_back({-s});
    step = 0;
}

// }}}
// {{{ threads

int Thr::value(lit_t l) const {
    int v = l < 0 ? -l : l;
    if (v <= 0 || v >= static_cast<int>(val.size())) {
        se::fail("propagator used the invalid literal " + std::to_string(l));
    }
    return l < 0 ? -val[v] : val[v];
}

void Thr::add_var() {
    val.push_back(0);
    lvl.push_back(0);
}

bool Thr::total() const {
    for (size_t v = 1; v < val.size(); ++v) {
        if (val[v] == 0) {
            return false;
        }
    }
    return true;
}

void Thr::assign(lit_t l) {
    int v = l < 0 ? -l : l;
    val[v] = l < 0 ? -1 : 1;
    lvl[v] = level();
    trail.push_back(l);
}

bool Thr::bcp() {
    bool changed = true;
    while (changed) {
        changed = false;
        for (auto const *cs : {&w->clauses, &w->init_clauses, &db}) {
            for (auto const &c : *cs) {
                int free = 0;
                lit_t u = 0;
                bool sat = false;
                for (auto l : c) {
                    int x = value(l);
                    if (x > 0) {
                        sat = true;
                        break;
                    }
                    if (x == 0 && l != u) {
                        ++free;
                        u = l;
                    }
                }
                if (sat) {
                    continue;
                }
                if (free == 0) {
                    conflict = true;
                    conflict_clause = c;
                    return false;
                }
                if (free == 1) {
                    assign(u);
                    changed = true;
                }
            }
        }
    }
    return true;
}

//! Returns false if the propagation has to stop.
bool Thr::add_clause(Clause const &given, bool in_ctl) {
    int free = 0;
    lit_t u = 0;
    int mx = 0;
    Clause c = given;
    for (auto l : given) {
        if (w->step != 0 && aux.count(std::abs(l)) != 0) {
            c.push_back(-w->step);
            break;
        }
    }
    for (auto l : c) {
        int x = value(l);
        if (x > 0) {
            db.push_back(c);
            return true;
        }
        if (x == 0) {
            if (l != u) {
                ++free;
                u = l;
            }
        } else {
            mx = std::max(mx, lvl[std::abs(l)]);
        }
    }
    if (free > 1) {
        db.push_back(c);
        return true;
    }
    if (mx < level()) {
        if (in_ctl) {
            pending = c;
            return false;
        }
        backtrack(mx);
    }
    db.push_back(c);
    if (free == 1) {
        assign(u);
        return true;
    }
    conflict = true;
    conflict_clause = c;
    return false;
}

bool Thr::resolve_pending() {
    if (conflict) {
        pending.reset();
        return false;
    }
    if (!pending) {
        return true;
    }
    Clause c = *pending;
    pending.reset();
    return add_clause(c, false);
}

bool Thr::propagate() {
    while (true) {
        if (conflict || !bcp()) {
            return false;
        }
        for (; seen < trail.size(); ++seen) {
            if (watches.count(trail[seen]) != 0 &&
                std::find(ptrail.begin(), ptrail.end(), trail[seen]) == ptrail.end()) {
                ptrail.push_back(trail[seen]);
            }
        }
        if (prop < ptrail.size()) {
            std::vector<lit_t> changes(ptrail.begin() + prop, ptrail.end());
            prop = ptrail.size();
            Ctl ctl{this, true};
            ++w->callbacks;
            se::op_budget(w->budget, "propagate");
            bool ok = w->prop.propagate(reinterpret_cast<clingo_propagate_control_t *>(&ctl), changes.data(),
                                        changes.size(), w->data);
            se::op_budget(-1, "");
            if (!ok) {
                throw Error(err_msg);
            }
            if (!resolve_pending()) {
                return false;
            }
            continue;
        }
        if (front < static_cast<int>(trail.size()) && (w->check_mode & clingo_propagator_check_mode_fixpoint) != 0) {
            front = static_cast<int>(trail.size());
            Ctl ctl{this, true};
            ++w->callbacks;
            se::op_budget(w->budget, "check");
            bool ok = w->prop.check(reinterpret_cast<clingo_propagate_control_t *>(&ctl), w->data);
            se::op_budget(-1, "");
            if (!ok) {
                throw Error(err_msg);
            }
            if (!resolve_pending()) {
                return false;
            }
            continue;
        }
        return true;
    }
}

bool Thr::model_check() {
    if ((w->check_mode & clingo_propagator_check_mode_total) == 0) {
        return true;
    }
    Ctl ctl{this, false};
    ++w->callbacks;
    size_t n = trail.size();
    se::op_budget(w->budget, "check");
    bool ok = w->prop.check(reinterpret_cast<clingo_propagate_control_t *>(&ctl), w->data);
    se::op_budget(-1, "");
    if (!ok) {
        throw Error(err_msg);
    }
    return resolve_pending() && total() && trail.size() == n;
}

void Thr::new_level(lit_t decision) {
    lim.push_back(trail.size());
    plim.push_back(ptrail.size());
    assign(decision);
}

void Thr::backtrack(int target) {
    while (level() > target) {
        size_t b = lim.back();
        while (trail.size() > b) {
            val[std::abs(trail.back())] = 0;
            trail.pop_back();
        }
        size_t pb = plim.back();
        if (prop > pb) {
            std::vector<lit_t> changes(ptrail.begin() + pb, ptrail.begin() + prop);
            if (w->prop.undo != nullptr) {
                Ctl ctl{this, false};
                ++w->callbacks;
                w->prop.undo(reinterpret_cast<clingo_propagate_control_t *>(&ctl), changes.data(), changes.size(),
                             w->data);
            }
            prop = pb;
        }
        ptrail.resize(pb);
        lim.pop_back();
        plim.pop_back();
    }
    seen = std::min(seen, trail.size());
    if (front != INT32_MAX) {
        front = -1;
    }
    conflict = false;
    conflict_clause.clear();
}

// }}}
// {{{ search

Search::Search(World &w, int thread) : w{w}, t{w.thr[thread]} {
    pick = [](std::vector<lit_t> const &free) { return free.front(); };
}

bool Search::handle_conflict() {
    ++conflicts;
    int m = 0;
    for (auto l : t.conflict_clause) {
        m = std::max(m, t.lvl[std::abs(l)]);
    }
    if (m == 0 || m <= root) {
        return false;
    }
    if (units) {
        lit_t u = 0;
        int n = 0;
        for (auto l : t.conflict_clause) {
            if (t.lvl[std::abs(l)] > 0 && l != u) {
                u = l;
                ++n;
            }
        }
        if (n == 1) {
            t.backtrack(0);
            t.assign(u);
            return true;
        }
    }
    // decision clause up to level m
    Clause c;
    for (int l = m; l > 0; --l) {
        c.push_back(-t.trail[t.lim[l - 1]]);
    }
    t.backtrack(m - 1);
    t.db.push_back(c);
    if (t.value(c[0]) == 0) {
        t.assign(c[0]);
    }
    return true;
}

bool Search::step() {
    if (w.top_conflict) {
        return false;
    }
    if (waiting) {
        // exclude the model
        waiting = false;
        int m = t.level();
        if (m <= root) {
            return false;
        }
        Clause c;
        for (int l = m; l > 0; --l) {
            c.push_back(-t.trail[t.lim[l - 1]]);
        }
        t.backtrack(m - 1);
        if (blocking) {
            t.db.push_back(c);
        }
        t.assign(c[0]);
        return true;
    }
    if (!t.propagate()) {
        return handle_conflict();
    }
    if (jump) {
        int k = jump(t.level());
        if (k >= root && k < t.level()) {
            t.backtrack(k);
            return true;
        }
    }
    if (unreported) {
        unreported = false;
        ++models;
        waiting = true;
        return !on_model || on_model();
    }
    if (w.step != 0 && t.value(w.step) == 0) {
        t.new_level(w.step);
        return true;
    }
    std::vector<lit_t> free;
    for (int v = 1; v <= t.nvars(); ++v) {
        if (t.val[v] == 0) {
            free.push_back(v);
        }
    }
    if (!free.empty()) {
        lit_t l = pick(free);
        if (heuristic && w.prop.decide != nullptr) {
            lit_t d = 0;
            se::op_budget(w.budget, "decide");
            if (!w.prop.decide(t.id, reinterpret_cast<clingo_assignment_t const *>(&t), l, w.data, &d)) {
                throw Error(err_msg);
            }
            se::op_budget(-1, "");
            se::check(d == 0 || t.value(d) == 0, "decide returned a literal that is already assigned");
            if (on_decide) {
                on_decide(l, d);
            }
            if (d != 0) {
                l = d;
            }
        }
        t.new_level(l);
        return true;
    }
    if (!t.model_check()) {
        return !t.conflict || handle_conflict();
    }
    if (split) {
        unreported = true;
        return true;
    }
    ++models;
    waiting = true;
    return !on_model || on_model();
}

void Search::run(long max_steps) {
    for (long i = 0; i < max_steps; ++i) {
        if (!step()) {
            return;
        }
    }
    se::fail("the search does not terminate within the step bound");
}

Stats::Stats() {
    static uint64_t serial = 0;
    base = ++serial << 32;
    nodes[0].type = clingo_statistics_type_map;
}

Stats::N *Stats::node(uint64_t key) {
    if (key < base || key - base >= nodes.size()) {
        clingo_set_error(clingo_error_logic, "invalid statistics key");
        return nullptr;
    }
    return &nodes[key - base];
}

double Stats::at(std::string const &a, std::string const &b) {
    auto it = nodes[0].kids.find(a);
    if (it == nodes[0].kids.end()) {
        se::fail("statistics key " + a + " missing");
    }
    auto &n = nodes[it->second];
    auto jt = n.kids.find(b);
    if (jt == n.kids.end()) {
        se::fail("statistics key " + b + " missing");
    }
    return nodes[jt->second].v;
}

// }}}

} // namespace sim

// {{{ C API

using namespace sim;

namespace {
World &W(void const *p) { return *static_cast<World *>(const_cast<void *>(p)); }
Ctl &C(void const *p) { return *static_cast<Ctl *>(const_cast<void *>(p)); }
Thr &T(void const *p) { return *static_cast<Thr *>(const_cast<void *>(p)); }
bool err(clingo_error_t c, char const *m) {
    clingo_set_error(c, m);
    return false;
}
} // namespace

extern "C" {

// errors
void clingo_set_error(clingo_error_t code, char const *message) {
    err_code = code;
    err_msg = message == nullptr ? "" : message;
}
clingo_error_t clingo_error_code(void) { return err_code; }
char const *clingo_error_message(void) { return err_msg.c_str(); }
char const *clingo_error_string(clingo_error_t) { return "error"; }
void clingo_version(int *a, int *b, int *c) { *a = 5; *b = 7; *c = 0; }

// symbols
void clingo_symbol_create_number(int n, clingo_symbol_t *s) {
    Symb x;
    x.type = clingo_symbol_type_number;
    x.number = n;
    *s = intern(x);
}
void clingo_symbol_create_infimum(clingo_symbol_t *s) { Symb x; x.type = clingo_symbol_type_infimum; *s = intern(x); }
void clingo_symbol_create_supremum(clingo_symbol_t *s) { Symb x; x.type = clingo_symbol_type_supremum; *s = intern(x); }
bool clingo_symbol_create_string(char const *str, clingo_symbol_t *s) {
    Symb x;
    x.type = clingo_symbol_type_string;
    x.name = symrt::import_string(str, 0);
    *s = intern(x);
    return true;
}
bool clingo_symbol_create_id(char const *name, bool positive, clingo_symbol_t *s) {
    Symb x;
    x.type = clingo_symbol_type_function;
    x.name = symrt::import_string(name, 1);
    x.positive = positive;
    *s = intern(x);
    return true;
}
bool clingo_symbol_create_function(char const *name, clingo_symbol_t const *args, size_t n, bool positive,
                                   clingo_symbol_t *s) {
    Symb x;
    x.type = clingo_symbol_type_function;
    x.name = symrt::import_string(name, 1);
    x.positive = positive;
    x.args.assign(args, args + n);
    *s = intern(x);
    return true;
}
bool clingo_symbol_number(clingo_symbol_t s, int *n) {
    if (sym(s).type != clingo_symbol_type_number) {
        return err(clingo_error_runtime, "unexpected");
    }
    *n = sym(s).number;
    return true;
}
bool clingo_symbol_name(clingo_symbol_t s, char const **name) {
    if (sym(s).type != clingo_symbol_type_function) {
        return err(clingo_error_runtime, "unexpected");
    }
    *name = symrt::export_string(sym(s).name);
    return true;
}
bool clingo_symbol_string(clingo_symbol_t s, char const **name) {
    if (sym(s).type != clingo_symbol_type_string) {
        return err(clingo_error_runtime, "unexpected");
    }
    *name = symrt::export_string(sym(s).name);
    return true;
}
bool clingo_symbol_is_positive(clingo_symbol_t s, bool *p) {
    if (sym(s).type != clingo_symbol_type_function) {
        return err(clingo_error_runtime, "unexpected");
    }
    *p = sym(s).positive;
    return true;
}
bool clingo_symbol_is_negative(clingo_symbol_t s, bool *p) {
    if (sym(s).type != clingo_symbol_type_function) {
        return err(clingo_error_runtime, "unexpected");
    }
    *p = !sym(s).positive;
    return true;
}
bool clingo_symbol_arguments(clingo_symbol_t s, clingo_symbol_t const **args, size_t *n) {
    if (sym(s).type != clingo_symbol_type_function) {
        return err(clingo_error_runtime, "unexpected");
    }
    *args = sym(s).args.data();
    *n = sym(s).args.size();
    return true;
}
clingo_symbol_type_t clingo_symbol_type(clingo_symbol_t s) { return sym(s).type; }
bool clingo_symbol_to_string_size(clingo_symbol_t s, size_t *n) {
    *n = symbol_str(s).size() + 1;
    return true;
}
bool clingo_symbol_to_string(clingo_symbol_t s, char *str, size_t n) {
    auto r = symbol_str(s);
    if (n < r.size() + 1) {
        return err(clingo_error_bad_alloc, "size");
    }
    std::strcpy(str, r.c_str());
    return true;
}
bool clingo_symbol_is_equal_to(clingo_symbol_t a, clingo_symbol_t b) { return a == b; }
bool clingo_symbol_is_less_than(clingo_symbol_t a, clingo_symbol_t b) { return cmp_sym(a, b) < 0; }
size_t clingo_symbol_hash(clingo_symbol_t s) { return s * 11400714819323198485ULL; }

// theory atoms
bool clingo_theory_atoms_size(clingo_theory_atoms_t const *a, size_t *n) {
    *n = W(a).atoms.size();
    return true;
}
bool clingo_theory_atoms_term_type(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_theory_term_type_t *type) {
    *type = W(a).terms[t].type;
    return true;
}
bool clingo_theory_atoms_term_number(clingo_theory_atoms_t const *a, clingo_id_t t, int *n) {
    if (W(a).terms[t].type != clingo_theory_term_type_number) {
        return err(clingo_error_runtime, "not a number");
    }
    *n = W(a).terms[t].number;
    return true;
}
bool clingo_theory_atoms_term_name(clingo_theory_atoms_t const *a, clingo_id_t t, char const **n) {
    auto ty = W(a).terms[t].type;
    if (ty != clingo_theory_term_type_symbol && ty != clingo_theory_term_type_function) {
        return err(clingo_error_runtime, "no name");
    }
    *n = symrt::export_string(W(a).terms[t].name);
    return true;
}
bool clingo_theory_atoms_term_arguments(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_id_t const **args,
                                        size_t *n) {
    *args = W(a).terms[t].args.data();
    *n = W(a).terms[t].args.size();
    return true;
}
bool clingo_theory_atoms_element_tuple(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_id_t const **t, size_t *n) {
    *t = W(a).elems[e].tuple.data();
    *n = W(a).elems[e].tuple.size();
    return true;
}
bool clingo_theory_atoms_element_condition(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_literal_t const **c,
                                           size_t *n) {
    *c = W(a).elems[e].cond.data();
    *n = W(a).elems[e].cond.size();
    return true;
}
bool clingo_theory_atoms_element_condition_id(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_literal_t *c) {
    *c = W(a).elems[e].cond_id;
    return true;
}
bool clingo_theory_atoms_atom_term(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_id_t *t) {
    *t = W(a).atoms[x].term;
    return true;
}
bool clingo_theory_atoms_atom_elements(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_id_t const **e, size_t *n) {
    *e = W(a).atoms[x].elems.data();
    *n = W(a).atoms[x].elems.size();
    return true;
}
bool clingo_theory_atoms_atom_has_guard(clingo_theory_atoms_t const *a, clingo_id_t x, bool *g) {
    *g = W(a).atoms[x].has_guard;
    return true;
}
bool clingo_theory_atoms_atom_guard(clingo_theory_atoms_t const *a, clingo_id_t x, char const **c, clingo_id_t *t) {
    if (!W(a).atoms[x].has_guard) {
        return err(clingo_error_runtime, "no guard");
    }
    *c = W(a).atoms[x].rel.c_str();
    *t = W(a).atoms[x].guard;
    return true;
}
bool clingo_theory_atoms_atom_literal(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_literal_t *l) {
    *l = W(a).atoms[x].lit + LIT;
    return true;
}

// init
bool clingo_propagate_init_solver_literal(clingo_propagate_init_t const *i, clingo_literal_t l, clingo_literal_t *s) {
    *s = W(i).solver_literal(l);
    return true;
}
bool clingo_propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    W(i).new_watches.emplace_back(l, UINT32_MAX);
    return true;
}
bool clingo_propagate_init_add_watch_to_thread(clingo_propagate_init_t *i, clingo_literal_t l, clingo_id_t t) {
    W(i).new_watches.emplace_back(l, t);
    return true;
}
bool clingo_propagate_init_remove_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    auto &ws = W(i).new_watches;
    ws.erase(std::remove_if(ws.begin(), ws.end(), [l](auto &x) { return x.first == l; }), ws.end());
    return true;
}
bool clingo_propagate_init_freeze_literal(clingo_propagate_init_t *, clingo_literal_t) { return true; }
bool clingo_propagate_init_theory_atoms(clingo_propagate_init_t const *i, clingo_theory_atoms_t const **a) {
    *a = reinterpret_cast<clingo_theory_atoms_t const *>(i);
    return true;
}
int clingo_propagate_init_number_of_threads(clingo_propagate_init_t const *i) { return W(i).n_threads; }
void clingo_propagate_init_set_check_mode(clingo_propagate_init_t *i, clingo_propagator_check_mode_t m) { W(i).check_mode = m; }
clingo_propagator_check_mode_t clingo_propagate_init_get_check_mode(clingo_propagate_init_t const *i) { return W(i).check_mode; }
clingo_assignment_t const *clingo_propagate_init_assignment(clingo_propagate_init_t const *i) {
    return reinterpret_cast<clingo_assignment_t const *>(&W(i).thr[0]);
}
bool clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool, clingo_literal_t *r) {
    *r = W(i).new_lit();
    return true;
}
bool clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *c, size_t n, bool *r) {
    World &w = W(i);
    if (w.top_conflict) {
        *r = false;
        return true;
    }
    Clause cl(c, c + n);
    if (w.on_init_clause) {
        long b = w.budget;
        se::op_budget(-1, "");
        w.on_init_clause(cl);
        se::op_budget(b, "init");
    }
    w.init_clauses.push_back(cl);
    // unit clauses take effect immediately, everything else on propagate
    int free = 0;
    lit_t u = 0;
    for (auto l : cl) {
        int x = w.thr[0].value(l);
        if (x > 0) {
            *r = true;
            return true;
        }
        if (x == 0) {
            ++free;
            u = l;
        }
    }
    if (free == 0) {
        w.top_conflict = true;
        *r = false;
        return true;
    }
    if (free == 1) {
        w.thr[0].assign(u);
    }
    *r = true;
    return true;
}
bool clingo_propagate_init_propagate(clingo_propagate_init_t *i, bool *r) {
    World &w = W(i);
    *r = !w.top_conflict && w.thr[0].bcp();
    if (!*r) {
        w.top_conflict = true;
    }
    return true;
}

// control
clingo_id_t clingo_propagate_control_thread_id(clingo_propagate_control_t const *c) { return C(c).t->id; }
clingo_assignment_t const *clingo_propagate_control_assignment(clingo_propagate_control_t const *c) {
    return reinterpret_cast<clingo_assignment_t const *>(C(c).t);
}
bool clingo_propagate_control_add_literal(clingo_propagate_control_t *c, clingo_literal_t *r) {
    Thr &t = *C(c).t;
    t.add_var();
    *r = t.nvars();
    t.aux.insert(*r);
    if (t.w->on_new_lit) {
        t.w->on_new_lit(t, *r);
    }
    return true;
}
bool clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) {
    C(c).t->value(l);
    C(c).t->watches.insert(l);
    return true;
}
bool clingo_propagate_control_has_watch(clingo_propagate_control_t const *c, clingo_literal_t l) {
    return C(c).t->watches.count(l) != 0;
}
void clingo_propagate_control_remove_watch(clingo_propagate_control_t *c, clingo_literal_t l) { C(c).t->watches.erase(l); }
bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *cl, size_t n,
                                         clingo_clause_type_t, bool *r) {
    Thr &t = *C(c).t;
    Clause x(cl, cl + n);
    for (auto l : x) {
        t.value(l);
    }
    if (t.w->on_clause) {
        long b = t.w->budget;
        se::op_budget(-1, "");
        t.w->on_clause(t, x);
        se::op_budget(b, "propagate");
    }
    if (t.conflict) {
        *r = false;
        return true;
    }
    if (t.pending) {
        return err(clingo_error_logic, "Assignment not propagated");
    }
    *r = t.add_clause(x, true);
    return true;
}
bool clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *r) {
    Thr &t = *C(c).t;
    if (t.conflict || t.pending) {
        *r = false;
        return true;
    }
    if (!C(c).prop) {
        // total checks: nothing may be queued
        bool queued = t.seen < t.trail.size();
        *r = !queued;
        return true;
    }
    *r = t.bcp();
    return true;
}

// assignment
uint32_t clingo_assignment_decision_level(clingo_assignment_t const *a) { return T(a).level(); }
uint32_t clingo_assignment_root_level(clingo_assignment_t const *) { return 0; }
bool clingo_assignment_has_conflict(clingo_assignment_t const *a) { return T(a).conflict; }
bool clingo_assignment_has_literal(clingo_assignment_t const *a, clingo_literal_t l) {
    return l != 0 && std::abs(l) <= T(a).nvars();
}
bool clingo_assignment_level(clingo_assignment_t const *a, clingo_literal_t l, uint32_t *r) {
    T(a).value(l);
    *r = T(a).lvl[std::abs(l)];
    return true;
}
bool clingo_assignment_decision(clingo_assignment_t const *a, uint32_t level, clingo_literal_t *l) {
    *l = level == 0 ? 1 : T(a).trail[T(a).lim[level - 1]];
    return true;
}
bool clingo_assignment_is_fixed(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    *r = T(a).value(l) != 0 && T(a).lvl[std::abs(l)] == 0;
    return true;
}
bool clingo_assignment_is_true(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    *r = T(a).value(l) > 0;
    return true;
}
bool clingo_assignment_is_false(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    *r = T(a).value(l) < 0;
    return true;
}
bool clingo_assignment_truth_value(clingo_assignment_t const *a, clingo_literal_t l, clingo_truth_value_t *r) {
    int v = T(a).value(l);
    *r = v == 0 ? clingo_truth_value_free : (v > 0 ? clingo_truth_value_true : clingo_truth_value_false);
    return true;
}
size_t clingo_assignment_size(clingo_assignment_t const *a) { return T(a).val.size(); }
bool clingo_assignment_at(clingo_assignment_t const *a, size_t o, clingo_literal_t *l) {
    (void)a;
    *l = static_cast<lit_t>(o);
    return true;
}
bool clingo_assignment_is_total(clingo_assignment_t const *a) { return T(a).total(); }
bool clingo_assignment_trail_size(clingo_assignment_t const *a, uint32_t *n) { *n = T(a).trail.size(); return true; }
bool clingo_assignment_trail_begin(clingo_assignment_t const *a, uint32_t l, uint32_t *o) {
    *o = l == 0 ? 0 : T(a).lim[l - 1];
    return true;
}
bool clingo_assignment_trail_end(clingo_assignment_t const *a, uint32_t l, uint32_t *o) {
    *o = l == static_cast<uint32_t>(T(a).level()) ? T(a).trail.size() : T(a).lim[l];
    return true;
}
bool clingo_assignment_trail_at(clingo_assignment_t const *a, uint32_t o, clingo_literal_t *l) { *l = T(a).trail[o]; return true; }

// control
bool clingo_control_add(clingo_control_t *c, char const *, char const *const *, size_t, char const *program) {
    W(c).define(program);
    return true;
}
bool clingo_control_register_propagator(clingo_control_t *c, clingo_propagator_t const *p, void *data, bool) {
    W(c).prop = *p;
    W(c).data = data;
    W(c).registered = true;
    return true;
}

// models
bool clingo_model_thread_id(clingo_model_t const *m, clingo_id_t *id) {
    *id = W(m).model_thread;
    return true;
}
bool clingo_model_extend(clingo_model_t *m, clingo_symbol_t const *s, size_t n) {
    W(m).model_symbols.insert(W(m).model_symbols.end(), s, s + n);
    return true;
}

// statistics
bool clingo_statistics_root(clingo_statistics_t const *s, uint64_t *r) {
    *r = reinterpret_cast<Stats const *>(s)->base;
    return true;
}
bool clingo_statistics_map_add_subkey(clingo_statistics_t *s, uint64_t k, char const *name,
                                      clingo_statistics_type_t type, uint64_t *sub) {
    auto &st = *reinterpret_cast<Stats *>(s);
    auto *n = st.node(k);
    if (n == nullptr) {
        return false;
    }
    if (n->type != clingo_statistics_type_map) {
        return err(clingo_error_logic, "not a map of statistics");
    }
    auto it = n->kids.find(name);
    if (it != n->kids.end()) {
        if (st.nodes[it->second].type != type) {
            return err(clingo_error_logic, "statistics key has another type");
        }
        *sub = st.base + it->second;
        return true;
    }
    st.nodes.emplace_back();
    st.nodes.back().type = type;
    n->kids[name] = static_cast<int>(st.nodes.size() - 1);
    *sub = st.base + st.nodes.size() - 1;
    return true;
}
bool clingo_statistics_value_get(clingo_statistics_t const *s, uint64_t k, double *v) {
    auto *n = const_cast<Stats *>(reinterpret_cast<Stats const *>(s))->node(k);
    if (n == nullptr || n->type != clingo_statistics_type_value) {
        return err(clingo_error_logic, "not a statistics value");
    }
    *v = n->v;
    return true;
}
bool clingo_statistics_value_set(clingo_statistics_t *s, uint64_t k, double v) {
    auto *n = reinterpret_cast<Stats *>(s)->node(k);
    if (n == nullptr || n->type != clingo_statistics_type_value) {
        return err(clingo_error_logic, "not a statistics value");
    }
    n->v = v;
    return true;
}

// options
bool clingo_options_add(clingo_options_t *o, char const *, char const *option, char const *,
                        bool (*parse)(char const *, void *), void *data, bool, char const *) {
    sim::Option x;
    x.parse = parse;
    x.data = data;
    (*reinterpret_cast<sim::Options *>(o))[option] = x;
    return true;
}
bool clingo_options_add_flag(clingo_options_t *o, char const *, char const *option, char const *, bool *target) {
    sim::Option x;
    x.flag = true;
    x.target = target;
    (*reinterpret_cast<sim::Options *>(o))[option] = x;
    return true;
}

// applications
bool clingo_control_ground(clingo_control_t *c, clingo_part_t const *parts, size_t n, clingo_ground_callback_t, void *) {
    if (n != 1 || std::strcmp(parts[0].name, "base") != 0 || parts[0].size != 0) {
        se::fail("the application grounds another part than base");
    }
    if (W(c).builder == 1) {
        se::fail("the application grounds while building the program");
    }
    ++W(c).grounded;
    return true;
}
bool clingo_control_solve(clingo_control_t *c, clingo_solve_mode_bitset_t, clingo_literal_t const *, size_t n,
                          clingo_solve_event_callback_t notify, void *data, clingo_solve_handle_t **handle) {
    auto &w = W(c);
    if (n != 0) {
        se::fail("the application solves under assumptions");
    }
    ++w.solved;
    bool ok = true;
    w.on_solve([&](clingo_solve_event_type_t type, void *event) {
        bool goon = true;
        if (notify != nullptr && !notify(type, event, data, &goon)) {
            ok = false;
            return false;
        }
        return goon;
    });
    *handle = reinterpret_cast<clingo_solve_handle_t *>(&w);
    return ok;
}
bool clingo_solve_handle_get(clingo_solve_handle_t *, clingo_solve_result_bitset_t *r) {
    *r = clingo_solve_result_satisfiable | clingo_solve_result_exhausted;
    return true;
}
bool clingo_solve_handle_close(clingo_solve_handle_t *) { return true; }
void clingo_control_free(clingo_control_t *) {}
bool clingo_control_symbolic_atoms(clingo_control_t const *c, clingo_symbolic_atoms_t const **a) {
    *a = reinterpret_cast<clingo_symbolic_atoms_t const *>(c);
    return true;
}
bool clingo_symbolic_atoms_end(clingo_symbolic_atoms_t const *, clingo_symbolic_atom_iterator_t *i) {
    *i = 0;
    return true;
}
bool clingo_symbolic_atoms_find(clingo_symbolic_atoms_t const *, clingo_symbol_t, clingo_symbolic_atom_iterator_t *) { se::unsupported("symbolic atoms"); }
bool clingo_symbolic_atoms_literal(clingo_symbolic_atoms_t const *, clingo_symbolic_atom_iterator_t, clingo_literal_t *) { se::unsupported("symbolic atoms"); }
bool clingo_symbolic_atoms_iterator_is_equal_to(clingo_symbolic_atoms_t const *, clingo_symbolic_atom_iterator_t, clingo_symbolic_atom_iterator_t, bool *) { se::unsupported("symbolic atoms"); }
bool clingo_model_symbols_size(clingo_model_t const *m, clingo_show_type_bitset_t show, size_t *n) {
    *n = 0;
    if ((show & clingo_show_type_shown) != 0) {
        *n += W(m).shown.size();
    }
    if ((show & clingo_show_type_theory) != 0) {
        *n += W(m).model_symbols.size();
    }
    return true;
}
bool clingo_model_symbols(clingo_model_t const *m, clingo_show_type_bitset_t show, clingo_symbol_t *out, size_t n) {
    size_t k = 0;
    clingo_model_symbols_size(m, show, &k);
    if (k > n) {
        return err(clingo_error_bad_alloc, "not enough space");
    }
    if ((show & clingo_show_type_shown) != 0) {
        out = std::copy(W(m).shown.begin(), W(m).shown.end(), out);
    }
    if ((show & clingo_show_type_theory) != 0) {
        std::copy(W(m).model_symbols.begin(), W(m).model_symbols.end(), out);
    }
    return true;
}
bool clingo_program_builder_init(clingo_control_t *c, clingo_program_builder_t **b) {
    *b = reinterpret_cast<clingo_program_builder_t *>(c);
    return true;
}
bool clingo_program_builder_begin(clingo_program_builder_t *b) {
    W(b).builder = 1;
    return true;
}
bool clingo_program_builder_add(clingo_program_builder_t *b, clingo_ast_t *ast) {
    if (W(b).builder != 1) {
        se::fail("a statement is added to a program builder that is not open");
    }
    W(b).added.push_back(static_cast<int>(reinterpret_cast<intptr_t>(ast)));
    return true;
}
bool clingo_program_builder_end(clingo_program_builder_t *b) {
    W(b).builder = 2;
    return true;
}
bool clingo_ast_parse_files(char const *const *files, size_t n, clingo_ast_callback_t cb, void *data, clingo_control_t *c,
                            clingo_logger_t, void *, unsigned) {
    auto &w = W(c);
    w.files.assign(files, files + n);
    for (int i = 1; i <= w.statements; ++i) {
        if (!cb(reinterpret_cast<clingo_ast_t *>(static_cast<intptr_t>(i)), data)) {
            return false;
        }
    }
    return true;
}
bool clingo_ast_parse_string(char const *, clingo_ast_callback_t, void *, clingo_control_t *, clingo_logger_t, void *, unsigned) {
    se::unsupported("parsing strings");
}
int clingo_main(clingo_application_t *app, char const *const *args, size_t n, void *data) {
    auto &w = *sim::application();
    w.app = app;
    w.app_data = data;
    if (app->register_options != nullptr && !app->register_options(options(w.opts), data)) {
        return 1;
    }
    std::vector<char const *> files;
    for (size_t i = 0; i < n; ++i) {
        std::string a = args[i];
        if (a.compare(0, 2, "--") != 0) {
            files.push_back(args[i]);
            continue;
        }
        auto eq = a.find('=');
        auto it = w.opts.find(a.substr(2, eq == std::string::npos ? eq : eq - 2));
        if (it == w.opts.end()) {
            return 1;
        }
        if (it->second.flag) {
            *it->second.target = eq == std::string::npos || a.substr(eq + 1) != "no";
        } else if (eq == std::string::npos || !it->second.parse(args[i] + eq + 1, it->second.data)) {
            return 1;
        }
    }
    if (app->validate_options != nullptr && !app->validate_options(data)) {
        return 1;
    }
    return app->main(control(w), files.data(), files.size(), data) ? 0 : 65;
}
}

// }}}
