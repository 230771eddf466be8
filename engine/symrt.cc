#include "symrt.hh"

#include <algorithm>
#include <cstring>
#include <deque>
#include <malloc.h>
#include <set>
#include <unordered_map>
#include <unordered_set>

using u64 = uint64_t;

namespace symrt {

namespace {

struct Var {
    se::LP num;
    int sym = -1;
    Set dom;
    std::string name;
};
struct Part {
    int id = 0;          // zero: concrete byte
    unsigned char off = 0; // byte within the expression or the concrete value
};
struct Ex {
    enum Kind { Const, Tab, Cat } kind = Const;
    int bits = 0;
    u64 val = 0;                // Const
    int var = 0;                // Tab
    std::vector<u64> tab;       // Tab
    std::vector<Part> parts;    // Cat, least significant first
};

std::vector<Var> vars;
std::deque<Ex> exs(1);
std::unordered_map<uintptr_t, Part> mem;
unsigned char filter[1 << 16];

u64 mask(int bits) { return bits >= 64 ? ~u64(0) : (u64(1) << bits) - 1; }
int64_t sext(u64 v, int bits) { return bits >= 64 ? static_cast<int64_t>(v) : static_cast<int64_t>(v << (64 - bits)) >> (64 - bits); }

int add(Ex e) {
    exs.push_back(std::move(e));
    return static_cast<int>(exs.size()) - 1;
}
int constant(u64 v, int bits) {
    Ex e;
    e.bits = bits;
    e.val = v & mask(bits);
    return add(std::move(e));
}
//! Table expression; a constant if all values agree.
int table(int var, int bits, std::vector<u64> tab) {
    auto const &dom = vars[var].dom;
    bool first = true;
    bool same = true;
    u64 v = 0;
    for (int i = 0; i < 256 && same; ++i) {
        if (dom[i]) {
            if (first) {
                v = tab[i];
                first = false;
            } else {
                same = tab[i] == v;
            }
        }
    }
    if (same) {
        return constant(v, bits);
    }
    Ex e;
    e.kind = Ex::Tab;
    e.bits = bits;
    e.var = var;
    e.tab = std::move(tab);
    return add(std::move(e));
}

z3::expr formula(int var, Set const &s) {
    z3::expr x = z3::expr(se::ctx(), Z3_mk_real2int(se::ctx(), se::z(vars[var].num)));
    auto zx = se::z(vars[var].num);
    if (zx.is_app() && zx.decl().decl_kind() == Z3_OP_TO_REAL) {
        x = zx.arg(0);
    }
    z3::expr_vector ors(se::ctx());
    // values outside of the domain do not matter: merge intervals over them
    auto const &dom = vars[var].dom;
    int i = 0;
    while (i < 256) {
        if (!(dom[i] && s[i])) {
            ++i;
            continue;
        }
        int from = i;
        int to = i;
        while (i < 256 && (s[i] || !dom[i])) {
            if (dom[i]) {
                to = i;
            }
            ++i;
        }
        if (from == to) {
            ors.push_back(x == from);
        } else {
            ors.push_back(x >= from && x <= to);
        }
    }
    return ors.empty() ? se::fls() : (ors.size() == 1 ? ors[0] : z3::mk_or(ors));
}

//! Restrict the variable to one of the given disjoint sets covering the domain; forks.
int pick(int var, std::vector<Set> const &sets) {
    std::vector<z3::expr> es;
    std::vector<int> idx;
    for (size_t i = 0; i < sets.size(); ++i) {
        if ((sets[i] & vars[var].dom).any()) {
            es.push_back(formula(var, sets[i]));
            idx.push_back(static_cast<int>(i));
        }
    }
    int k = 0;
    if (es.size() > 1) {
        k = se::pick(es, vars[var].sym, [&](long v) {
            for (size_t i = 0; i < idx.size(); ++i) {
                if (v >= 0 && v < 256 && sets[idx[i]][v]) {
                    return static_cast<int>(i);
                }
            }
            return -1;
        });
    }
    vars[var].dom &= sets[idx[k]];
    return idx[k];
}

Ex narrow(int id) { return exs[id]; }

u64 conc(int id) {
    Ex e = exs[id];
    switch (e.kind) {
        case Ex::Const: {
            return e.val;
        }
        case Ex::Tab: {
            std::map<u64, Set> groups;
            for (int i = 0; i < 256; ++i) {
                if (vars[e.var].dom[i]) {
                    groups[e.tab[i]].set(i);
                }
            }
            std::vector<Set> sets;
            std::vector<u64> vals;
            for (auto const &[v, s] : groups) {
                vals.push_back(v);
                sets.push_back(s);
            }
            if (sets.size() > 1) {
                se::count("values of bytes enumerated", static_cast<long>(sets.size()));
            }
            return vals[sets.size() == 1 ? 0 : pick(e.var, sets)];
        }
        default: {
            u64 r = 0;
            for (size_t k = 0; k < e.parts.size(); ++k) {
                u64 b = e.parts[k].id == 0 ? e.parts[k].off : (conc(e.parts[k].id) >> (8 * e.parts[k].off)) & 0xff;
                r |= b << (8 * k);
            }
            return r & mask(e.bits);
        }
    }
}

//! Single valued or table expression.
int flat(int id) {
    if (exs[id].kind != Ex::Cat) {
        if (exs[id].kind == Ex::Tab) {
            // collapse to a constant where possible
            Ex e = exs[id];
            return table(e.var, e.bits, e.tab);
        }
        return id;
    }
    Ex e = exs[id];
    int var = -1;
    for (auto &p : e.parts) {
        if (p.id != 0) {
            Ex q = exs[flat(p.id)];
            if (q.kind == Ex::Tab) {
                if (var >= 0 && var != q.var) {
                    // more than one byte: one of them becomes concrete
                    conc(p.id);
                } else {
                    var = q.var;
                }
            }
        }
    }
    if (var < 0) {
        return constant(conc(id), e.bits);
    }
    std::vector<u64> tab(256);
    for (size_t k = 0; k < e.parts.size(); ++k) {
        auto const &p = e.parts[k];
        for (int v = 0; v < 256; ++v) {
            u64 b = 0;
            if (p.id == 0) {
                b = p.off;
            } else {
                Ex q = exs[flat(p.id)];
                b = ((q.kind == Ex::Tab ? q.tab[v] : q.val) >> (8 * p.off)) & 0xff;
            }
            tab[v] |= b << (8 * k);
        }
    }
    return table(var, e.bits, tab);
}

size_t image(Ex const &e) {
    std::set<u64> s;
    for (int i = 0; i < 256; ++i) {
        if (vars[e.var].dom[i]) {
            s.insert(e.tab[i]);
        }
    }
    return s.size();
}

struct Op {
    Ex e; // Const or Tab
    u64 at(int v) const { return e.kind == Ex::Tab ? e.tab[v] : e.val; }
};
Op operand(u64 v, int id, int bits) {
    Op r;
    if (id == 0) {
        r.e.val = v & mask(bits);
        r.e.bits = bits;
    } else {
        r.e = exs[flat(id)];
    }
    return r;
}

//! Apply a function to two operands.
template <class F> int apply(Op a, Op b, int bits, F f) {
    if (a.e.kind == Ex::Tab && b.e.kind == Ex::Tab && a.e.var != b.e.var) {
        Op &x = image(a.e) <= image(b.e) ? a : b;
        int id = add(x.e);
        u64 v = conc(id);
        x.e = Ex{};
        x.e.val = v;
    }
    if (a.e.kind == Ex::Const && b.e.kind == Ex::Const) {
        return constant(f(a.e.val, b.e.val), bits);
    }
    int var = a.e.kind == Ex::Tab ? a.e.var : b.e.var;
    std::vector<u64> tab(256);
    for (int v = 0; v < 256; ++v) {
        if (vars[var].dom[v]) {
            tab[v] = f(a.at(v), b.at(v)) & mask(bits);
        }
    }
    return table(var, bits, std::move(tab));
}

bool may(uintptr_t a, u64 n) {
    if (mem.empty()) {
        return false;
    }
    for (u64 p = a >> 6; p <= (a + n - 1) >> 6; ++p) {
        if (filter[p & 0xffff] != 0) {
            return true;
        }
        if (((a + n - 1) >> 6) - p > 0x20000) {
            return true;
        }
    }
    return false;
}
void set(uintptr_t a, Part p) {
    if (p.id == 0) {
        mem.erase(a);
    } else {
        mem[a] = p;
        filter[(a >> 6) & 0xffff] = 1;
    }
}
void clear(uintptr_t a, u64 n) {
    if (n == 0 || !may(a, n)) {
        return;
    }
    if (n > mem.size()) {
        for (auto it = mem.begin(); it != mem.end();) {
            it = it->first >= a && it->first < a + n ? mem.erase(it) : std::next(it);
        }
        return;
    }
    for (u64 k = 0; k < n; ++k) {
        mem.erase(a + k);
    }
}

int load(uintptr_t a, int sz) {
    if (!may(a, sz)) {
        return 0;
    }
    std::vector<Part> ps(sz);
    bool any = false;
    for (int k = 0; k < sz; ++k) {
        auto it = mem.find(a + k);
        if (it != mem.end()) {
            ps[k] = it->second;
            any = true;
        } else {
            ps[k].off = reinterpret_cast<unsigned char const *>(a)[k];
        }
    }
    if (!any) {
        return 0;
    }
    bool whole = ps[0].id != 0 && exs[ps[0].id].bits == 8 * sz;
    for (int k = 0; k < sz && whole; ++k) {
        whole = ps[k].id == ps[0].id && ps[k].off == k;
    }
    if (whole) {
        return ps[0].id;
    }
    Ex e;
    e.kind = Ex::Cat;
    e.bits = 8 * sz;
    e.parts = std::move(ps);
    if (sz == 1) {
        return flat(add(std::move(e)));
    }
    return add(std::move(e));
}

void store(uintptr_t a, int sz, int id) {
    if (id == 0) {
        clear(a, sz);
        return;
    }
    Ex const &e = exs[id];
    for (int k = 0; k < sz; ++k) {
        if (e.kind == Ex::Cat) {
            Part p = k < static_cast<int>(e.parts.size()) ? e.parts[k] : Part{};
            if (p.id == 0) {
                // the native value of the whole is not to be trusted
                p = Part{constant(p.off, 8), 0};
            }
            set(a + k, p);
        } else {
            set(a + k, Part{id, static_cast<unsigned char>(k)});
        }
    }
}

struct Pending {
    void *callee = nullptr;
    int ids[24] = {};
};
Pending pending;
int ret = 0;
std::unordered_set<void *> &known() {
    static auto *s = new std::unordered_set<void *>();
    return *s;
}

std::vector<std::vector<Byte>> strings;
std::vector<std::string> names;

} // namespace

Set range(int from, int to) {
    Set s;
    for (int i = from; i <= to; ++i) {
        s.set(i);
    }
    return s;
}
Set chars(char const *s) {
    Set r;
    for (; *s != 0; ++s) {
        r.set(static_cast<unsigned char>(*s));
    }
    return r;
}

void symbolic_byte(char *p, std::string const &name, Set const &values) {
    se::LP n = se::input(name, se::Kind::Int);
    if (n.is_const()) {
        *p = static_cast<char>(n.cval().get_num().get_si());
        return;
    }
    Var v;
    v.num = n;
    v.sym = n.t.begin()->first.front().first;
    v.dom = values;
    v.name = name;
    vars.push_back(v);
    int var = static_cast<int>(vars.size()) - 1;
    // the formula merges over values outside of the domain
    vars[var].dom.set();
    auto f = formula(var, values);
    vars[var].dom = values;
    se::assume(f);
    std::vector<u64> tab(256);
    for (int i = 0; i < 256; ++i) {
        tab[i] = i;
    }
    set(reinterpret_cast<uintptr_t>(p), Part{table(var, 8, tab), 0});
    *p = '?';
}

Byte at(void const *p) {
    int id = load(reinterpret_cast<uintptr_t>(p), 1);
    if (id != 0) {
        id = flat(id);
        if (exs[id].kind == Ex::Const) {
            return {0, static_cast<unsigned char>(exs[id].val)};
        }
        return {id, 0};
    }
    return {0, *static_cast<unsigned char const *>(p)};
}
void put(void *p, Byte b) {
    set(reinterpret_cast<uintptr_t>(p), Part{b.id, 0});
    *static_cast<unsigned char *>(p) = b.v;
}

static Set preimage(Byte b, Set const &s) {
    Ex e = exs[b.id];
    Set r;
    for (int i = 0; i < 256; ++i) {
        if (s[e.tab[i] & 0xff]) {
            r.set(i);
        }
    }
    return r;
}
bool is(Byte b, Set const &s) {
    if (b.id == 0 || exs[b.id].kind == Ex::Const) {
        return s[b.id == 0 ? b.v : exs[b.id].val];
    }
    auto t = preimage(b, s);
    return pick(exs[b.id].var, {t, ~t}) == 0;
}
z3::expr in(Byte b, Set const &s) {
    if (b.id == 0 || exs[b.id].kind == Ex::Const) {
        return se::ctx().bool_val(s[b.id == 0 ? b.v : exs[b.id].val]);
    }
    return formula(exs[b.id].var, preimage(b, s));
}
se::LP value(Byte b) {
    if (b.id == 0) {
        return se::LP(static_cast<long>(b.v));
    }
    Ex e = exs[flat(b.id)];
    if (e.kind == Ex::Const) {
        return se::LP(static_cast<long>(e.val));
    }
    bool first = true;
    bool linear = true;
    long off = 0;
    for (int i = 0; i < 256; ++i) {
        if (vars[e.var].dom[i]) {
            long o = static_cast<long>(e.tab[i]) - i;
            linear = linear && (first || o == off);
            off = o;
            first = false;
        }
    }
    if (linear) {
        return vars[e.var].num + se::LP(off);
    }
    return se::LP(static_cast<long>(conc(b.id)));
}
unsigned char concrete(Byte b) { return b.id == 0 ? b.v : static_cast<unsigned char>(conc(b.id)); }

std::vector<Byte> bytes(char const *s) {
    std::vector<Byte> r;
    for (;; ++s) {
        auto b = at(s);
        if (is(b, '\0')) {
            return r;
        }
        r.push_back(b);
    }
}

bool is_placeholder(std::string const &s) { return s.size() > 2 && s.front() == '\x01'; }
std::string make_string(std::vector<Byte> const &bs) {
    bool sym = std::any_of(bs.begin(), bs.end(), [](Byte b) { return b.id != 0; });
    if (!sym) {
        std::string r;
        for (auto b : bs) {
            r += static_cast<char>(b.v);
        }
        return r;
    }
    for (size_t i = 0; i < strings.size(); ++i) {
        if (strings[i].size() != bs.size()) {
            continue;
        }
        bool same = true;
        for (size_t k = 0; k < bs.size() && same; ++k) {
            auto const &x = strings[i][k];
            auto const &y = bs[k];
            if (x.id == 0 || y.id == 0) {
                same = x.id == y.id && x.v == y.v;
            } else {
                auto const &ex = exs[x.id];
                auto const &ey = exs[y.id];
                same = ex.kind == ey.kind && ex.val == ey.val && ex.var == ey.var && ex.tab == ey.tab;
            }
        }
        if (same) {
            return names[i];
        }
    }
    strings.push_back(bs);
    names.push_back("\x01" "string" + std::to_string(names.size()));
    return names.back();
}
bool equal(std::vector<Byte> const &a, std::vector<Byte> const &b) {
    if (a.size() != b.size()) {
        return false;
    }
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].id == 0 && b[i].id == 0) {
            if (a[i].v != b[i].v) {
                return false;
            }
        } else if (a[i].id == 0 || b[i].id == 0) {
            auto const &x = a[i].id == 0 ? b[i] : a[i];
            if (!is(x, static_cast<char>(a[i].id == 0 ? a[i].v : b[i].v))) {
                return false;
            }
        } else if (a[i].id != b[i].id && !se::is_zero(value(a[i]) - value(b[i]))) {
            return false;
        }
    }
    return true;
}
std::string import_string(char const *s, int kind) {
    static std::vector<std::pair<int, std::string>> imported;
    if (mem.empty()) {
        imported.emplace_back(kind, s);
        return s;
    }
    auto bs = bytes(s);
    auto n = make_string(bs);
    for (auto const &[k, m] : imported) {
        if (k == kind && m == n) {
            return n;
        }
    }
    // strings are the same symbol exactly if their bytes agree
    for (auto const &[k, m] : imported) {
        if (k != kind || (!is_placeholder(n) && !is_placeholder(m))) {
            continue;
        }
        std::vector<Byte> other;
        if (is_placeholder(m)) {
            other = content(m);
        } else {
            for (char c : m) {
                other.push_back({0, static_cast<unsigned char>(c)});
            }
        }
        if (equal(bs, other)) {
            return m;
        }
    }
    imported.emplace_back(kind, n);
    return n;
}
std::vector<Byte> const &content(std::string const &p) {
    for (size_t i = 0; i < names.size(); ++i) {
        if (names[i] == p) {
            return strings[i];
        }
    }
    se::unsupported("unknown string");
}
char const *export_string(std::string const &s) {
    if (!is_placeholder(s)) {
        return s.c_str();
    }
    static std::map<std::string, char *> buffers;
    auto &b = buffers[s];
    if (b == nullptr) {
        auto const &bs = content(s);
        b = static_cast<char *>(malloc(bs.size() + 1));
        for (size_t i = 0; i < bs.size(); ++i) {
            put(b + i, bs[i]);
        }
        put(b + bs.size(), Byte{0, 0});
    }
    return b;
}
std::string show(std::vector<Byte> const &bs) {
    std::string r;
    for (auto b : bs) {
        if (b.id == 0) {
            r += static_cast<char>(b.v);
        } else {
            Ex const &e = exs[b.id];
            r += "<" + (e.kind == Ex::Tab ? vars[e.var].name : std::to_string(e.val)) + ">";
        }
    }
    return r;
}

} // namespace symrt

using namespace symrt;

namespace {
u64 binop(unsigned op, u64 a, u64 b, int bits) {
    enum { Add = 13, FAdd, Sub, FSub, Mul, FMul, UDiv, SDiv, FDiv, URem, SRem, FRem, Shl, LShr, AShr, And, Or, Xor };
    a &= mask(bits);
    b &= mask(bits);
    switch (op) {
        case Add: return a + b;
        case Sub: return a - b;
        case Mul: return a * b;
        case UDiv: return b == 0 ? 0 : a / b;
        case SDiv: return b == 0 ? 0 : static_cast<u64>(sext(a, bits) / sext(b, bits));
        case URem: return b == 0 ? 0 : a % b;
        case SRem: return b == 0 ? 0 : static_cast<u64>(sext(a, bits) % sext(b, bits));
        case Shl: return b >= static_cast<u64>(bits) ? 0 : a << b;
        case LShr: return b >= static_cast<u64>(bits) ? 0 : a >> b;
        case AShr: return static_cast<u64>(sext(a, bits) >> std::min<u64>(b, bits - 1));
        case And: return a & b;
        case Or: return a | b;
        case Xor: return a ^ b;
        default: se::unsupported("binary instruction over symbolic bytes");
    }
}
bool cmpop(unsigned p, u64 a, u64 b, int bits) {
    a &= mask(bits);
    b &= mask(bits);
    auto x = sext(a, bits);
    auto y = sext(b, bits);
    switch (p) {
        case 32: return a == b;
        case 33: return a != b;
        case 34: return a > b;
        case 35: return a >= b;
        case 36: return a < b;
        case 37: return a <= b;
        case 38: return x > y;
        case 39: return x >= y;
        case 40: return x < y;
        case 41: return x <= y;
        default: se::unsupported("comparison over symbolic bytes");
    }
}
} // namespace

extern "C" {

int _sym_bin(int op, u64 a, int ia, u64 b, int ib, int bits) {
    if (ia == 0 && ib == 0) {
        return 0;
    }
    return apply(operand(a, ia, bits), operand(b, ib, bits), bits, [&](u64 x, u64 y) { return binop(op, x, y, bits); });
}
int _sym_cmp(int p, u64 a, int ia, u64 b, int ib, int bits) {
    if (ia == 0 && ib == 0) {
        return 0;
    }
    return apply(operand(a, ia, bits), operand(b, ib, bits), 1, [&](u64 x, u64 y) { return u64(cmpop(p, x, y, bits)); });
}
int _sym_cast(int op, int id, int from, int to) {
    enum { Trunc = 38, ZExt = 39, SExt = 40 };
    if (id == 0) {
        return 0;
    }
    if (exs[id].kind == Ex::Cat && op != SExt && to % 8 == 0) {
        Ex e = exs[id];
        e.bits = to;
        e.parts.resize(to / 8);
        return add(std::move(e));
    }
    return apply(operand(0, id, from), operand(0, 0, 64), to, [&](u64 x, u64) { return op == SExt ? static_cast<u64>(sext(x, from)) : x & mask(from); });
}
int _sym_decide(int native, int id) {
    if (id == 0) {
        return native;
    }
    id = flat(id);
    if (exs[id].kind == Ex::Const) {
        return static_cast<int>(exs[id].val & 1);
    }
    se::op_tick();
    Ex const &e = exs[id];
    Set t;
    for (int i = 0; i < 256; ++i) {
        if ((e.tab[i] & 1) != 0) {
            t.set(i);
        }
    }
    return pick(e.var, {t, ~t}) == 0 ? 1 : 0;
}
u64 _sym_conc(u64 native, int id, int bits) { return id == 0 ? native : conc(id) & mask(bits); }
int _sym_select(u64 c, int ic, u64 a, int ia, u64 b, int ib, int bits) {
    if (ic == 0) {
        return (c & 1) != 0 ? ia : ib;
    }
    auto cc = operand(c, ic, 1);
    auto chosen = [&](bool yes) {
        int id = yes ? ia : ib;
        return id != 0 ? id : constant(yes ? a : b, bits);
    };
    if (cc.e.kind == Ex::Const) {
        return chosen((cc.e.val & 1) != 0);
    }
    auto plain = [&](int id) { return id == 0 || exs[id].kind == Ex::Const || (exs[id].kind == Ex::Tab && exs[id].var == cc.e.var); };
    if (plain(ia) && plain(ib)) {
        auto x = operand(a, ia, bits);
        auto y = operand(b, ib, bits);
        std::vector<u64> tab(256);
        for (int v = 0; v < 256; ++v) {
            tab[v] = (cc.e.tab[v] & 1) != 0 ? x.at(v) : y.at(v);
        }
        return table(cc.e.var, bits, std::move(tab));
    }
    return chosen(_sym_decide(0, ic) != 0);
}
int _sym_load(void *p, int id, int sz) {
    if (id == 0) {
        return load(reinterpret_cast<uintptr_t>(p), sz);
    }
    id = flat(id);
    if (exs[id].kind == Ex::Const) {
        auto a = exs[id].val;
        if (int r = load(a, sz); r != 0) {
            return r;
        }
        u64 v = 0;
        std::memcpy(&v, reinterpret_cast<void *>(a), sz);
        return constant(v, 8 * sz);
    }
    Ex const e = exs[id];
    std::vector<u64> tab(256);
    for (int v = 0; v < 256; ++v) {
        if (!vars[e.var].dom[v]) {
            continue;
        }
        auto a = e.tab[v];
        int s = load(a, sz);
        if (s != 0) {
            s = flat(s);
            if (exs[s].kind == Ex::Tab && exs[s].var != e.var) {
                // symbolic memory at a symbolic address
                conc(id);
                return _sym_load(p, id, sz);
            }
            tab[v] = exs[s].kind == Ex::Tab ? exs[s].tab[v] : exs[s].val;
        } else {
            std::memcpy(&tab[v], reinterpret_cast<void *>(a), sz);
        }
    }
    return table(e.var, 8 * sz, std::move(tab));
}
void *_sym_addr(void *p, int id) {
    if (id == 0) {
        return p;
    }
    id = flat(id);
    auto const &e = exs[id];
    if (e.kind == Ex::Const) {
        return reinterpret_cast<void *>(e.val);
    }
    for (int v = 0; v < 256; ++v) {
        if (vars[e.var].dom[v]) {
            return reinterpret_cast<void *>(e.tab[v]);
        }
    }
    return p;
}
void _sym_store(void *p, int sz, int id) { store(reinterpret_cast<uintptr_t>(p), sz, id); }
void _sym_clear(void *p, u64 n) { clear(reinterpret_cast<uintptr_t>(p), n); }
void _sym_freed(void *p) {
    if (p != nullptr && !mem.empty()) {
        clear(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
    }
}
void _sym_copy(void *d, void *s, u64 n) {
    auto to = reinterpret_cast<uintptr_t>(d);
    auto from = reinterpret_cast<uintptr_t>(s);
    if (n == 0 || mem.empty() || to == from || (!may(from, n) && !may(to, n))) {
        return;
    }
    std::vector<Part> ps(n);
    for (u64 k = 0; k < n; ++k) {
        auto it = mem.find(from + k);
        if (it != mem.end()) {
            ps[k] = it->second;
        }
    }
    for (u64 k = 0; k < n; ++k) {
        set(to + k, ps[k]);
    }
}
void _sym_fill(void *d, int id, u64 n) {
    auto a = reinterpret_cast<uintptr_t>(d);
    if (id == 0) {
        clear(a, n);
        return;
    }
    for (u64 k = 0; k < n; ++k) {
        set(a + k, Part{id, 0});
    }
}
void _sym_begin(void *callee) {
    pending = Pending{};
    pending.callee = callee;
    ret = 0;
}
u64 _sym_setarg(void *callee, int k, u64 v, int id, int bits) {
    if (id == 0) {
        return v;
    }
    if (k < 24 && known().count(callee) != 0) {
        pending.ids[k] = id;
        return v;
    }
    return conc(id) & mask(bits);
}
int _sym_param(void *f, int k) { return pending.callee == f && k < 24 ? pending.ids[k] : 0; }
void __cyg_profile_func_enter(void *, void *);
void _sym_enter(void *f) { __cyg_profile_func_enter(f, nullptr); }
void _sym_reset() { pending.callee = nullptr; }
int _sym_getret(void *callee) {
    int r = known().count(callee) != 0 ? ret : 0;
    ret = 0;
    return r;
}
int _sym_result() {
    int r = ret;
    ret = 0;
    return r;
}
void _sym_setret(int id) { ret = id; }
void _sym_ptrarg(void *callee, void *p) {
    if (p == nullptr || mem.empty() || (callee != nullptr && known().count(callee) != 0)) {
        return;
    }
    auto a = reinterpret_cast<uintptr_t>(p);
    if (!may(a, 16)) {
        return;
    }
    for (int k = 0; k < 16; ++k) {
        if (mem.count(a + k) != 0) {
            char msg[96];
            std::snprintf(msg, sizeof msg, "symbolic memory handed to code outside of the model (%p)", callee);
            se::unsupported(msg);
        }
    }
}
void _sym_register(void *f) { known().insert(f); }
}
