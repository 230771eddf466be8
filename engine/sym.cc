#include "sym.hh"

#include <execinfo.h>
#include <csignal>
#include <fcntl.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <iostream>
#include <sstream>

namespace se {

// {{{ polynomials

LP::LP(long v) {
    if (v != 0) {
        t[Mono{}] = Q(v);
    }
}
LP::LP(Q const &v) {
    if (v != 0) {
        t[Mono{}] = v;
    }
}
LP LP::sym(int id) {
    LP r;
    r.t[Mono{{id, 1}}] = 1;
    return r;
}
LP operator+(LP const &a, LP const &b) {
    LP r = a;
    for (auto const &[m, c] : b.t) {
        auto [it, ins] = r.t.emplace(m, c);
        if (!ins) {
            it->second += c;
            if (it->second == 0) {
                r.t.erase(it);
            }
        }
    }
    return r;
}
LP operator-(LP const &a) {
    LP r = a;
    for (auto &[m, c] : r.t) {
        c = -c;
    }
    return r;
}
LP operator-(LP const &a, LP const &b) { return a + (-b); }
static Mono mul(Mono const &a, Mono const &b) {
    Mono r;
    auto i = a.begin();
    auto j = b.begin();
    while (i != a.end() || j != b.end()) {
        if (j == b.end() || (i != a.end() && i->first < j->first)) {
            r.push_back(*i++);
        } else if (i == a.end() || j->first < i->first) {
            r.push_back(*j++);
        } else {
            if (int e = i->second + j->second; e != 0) {
                r.emplace_back(i->first, e);
            }
            ++i;
            ++j;
        }
    }
    return r;
}
LP operator*(LP const &a, LP const &b) {
    if (a.is_const()) {
        return scale(b, a.cval());
    }
    if (b.is_const()) {
        return scale(a, b.cval());
    }
    LP r;
    for (auto const &[ma, ca] : a.t) {
        for (auto const &[mb, cb] : b.t) {
            auto m = mul(ma, mb);
            auto [it, ins] = r.t.emplace(m, Q(ca * cb));
            if (!ins) {
                it->second += ca * cb;
                if (it->second == 0) {
                    r.t.erase(it);
                }
            }
        }
    }
    return r;
}
LP scale(LP const &a, Q const &c) {
    if (c == 0) {
        return {};
    }
    LP r = a;
    for (auto &[m, v] : r.t) {
        v *= c;
    }
    return r;
}

RF operator+(RF const &a, RF const &b) {
    if (a.d == b.d) {
        return {a.n + b.n, a.d};
    }
    return {a.n * b.d + b.n * a.d, a.d * b.d};
}
RF operator-(RF const &a) { return {-a.n, a.d}; }
RF operator-(RF const &a, RF const &b) { return a + (-b); }
RF operator*(RF const &a, RF const &b) { return {a.n * b.n, a.d * b.d}; }
RF divide(RF const &a, RF const &b) {
    int s = sign(b.n);
    if (s == 0) {
        fail("harness: division by zero");
    }
    LP n = a.n * b.d;
    LP d = a.d * b.n;
    if (s < 0) {
        n = -n;
        d = -d;
    }
    return {n, d};
}

// }}}
// {{{ state

namespace {

constexpr int MAXTAB = 96;
constexpr int MAXCASE = 1200;

struct Counter {
    char name[72];
    std::atomic<long> n;
};

struct CaseStat {
    std::atomic<long> paths, checks, cut, sampled;
};

struct Shm {
    sem_t tokens;
    sem_t lock;
    std::atomic<int> stop;
    std::atomic<long> live, paths, cut, incomplete, forks, branches, queries, qtime_us, unknown, unsupported;
    std::atomic<long> checks, unsat, trivial, check_unknown, violations, maxdepth, samples;
    Counter reach[MAXTAB];
    Counter counters[MAXTAB];
    CaseStat cs[MAXCASE];
    std::atomic<unsigned long> fn[4096];
    char unsupported_msg[256];
    char undecided_msg[256];
};

struct Symbol {
    std::string name;
    bool positive = false;
    bool input = false;
    Kind kind = Kind::Real;
};

Config config;
Shm *shm = nullptr;
double t_end = 0;
int case_index = 0;
std::string case_name;
bool owns_token = false;
int depth = 0;

z3::context *zc = nullptr;
z3::solver *zs = nullptr;
std::vector<z3::expr> *zsyms = nullptr;
std::vector<z3::expr> *pc = nullptr;
bool linear = true;
std::vector<Symbol> syms;
std::map<std::string, int> by_name;
std::vector<LP> natives;
std::vector<RF> strings;
std::map<LP, int> signs;
std::set<LP> nonzeros;
std::vector<Q> model;
bool model_ok = false;
std::vector<std::string> trace;
std::vector<std::pair<std::string, std::pair<int, int>>> choices;
long ops_left = -1;
std::string ops_what;
volatile int in_engine = 0;

// replay data
std::map<std::string, Q> r_inputs;
std::vector<std::pair<std::string, std::pair<int, int>>> r_choices;
size_t r_next = 0;

double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Guard {
    Guard() { ++in_engine; }
    ~Guard() { --in_engine; }
};

void bump(Counter *tab, std::string const &what, long n) {
    for (int i = 0; i < MAXTAB; ++i) {
        if (tab[i].name[0] != 0 && std::strncmp(tab[i].name, what.c_str(), 71) == 0) {
            tab[i].n += n;
            return;
        }
        if (tab[i].name[0] == 0) {
            while (sem_wait(&shm->lock) != 0) {
            }
            if (tab[i].name[0] == 0) {
                std::strncpy(tab[i].name, what.c_str(), 71);
                sem_post(&shm->lock);
                tab[i].n += n;
                return;
            }
            sem_post(&shm->lock);
            --i;
        }
    }
}

} // namespace

Config const &cfg() { return config; }
z3::context &ctx() { return *zc; }
z3::expr tru() { return zc->bool_val(true); }
z3::expr fls() { return zc->bool_val(false); }

std::string LP::str() const {
    if (t.empty()) {
        return "0";
    }
    std::string s;
    for (auto const &[m, c] : t) {
        if (!s.empty()) {
            s += " + ";
        }
        s += c.get_str();
        for (auto const &[v, e] : m) {
            s += "*" + syms[v].name;
            if (e != 1) {
                s += "^" + std::to_string(e);
            }
        }
    }
    return s;
}

// }}}
// {{{ process handling

[[noreturn]] static void leave() {
    if (owns_token) {
        owns_token = false;
        sem_post(&shm->tokens);
    }
    _exit(0);
}

static bool out_of_time() { return shm->stop.load() != 0 || now() > t_end; }

[[noreturn]] void end_path() {
    shm->paths++;
    shm->cs[case_index].paths++;
    long d = depth;
    long m = shm->maxdepth.load();
    while (d > m && !shm->maxdepth.compare_exchange_weak(m, d)) {
    }
    if (config.replay) {
        std::cout << "REPLAY-OK: no violation" << std::endl;
        _exit(0);
    }
    leave();
}

[[noreturn]] static void cut_path() {
    shm->cut++;
    shm->cs[case_index].cut++;
    leave();
}

[[noreturn]] static void incomplete_path() {
    shm->incomplete++;
    leave();
}

[[noreturn]] void unsupported(std::string const &msg) {
    if (config.replay) {
        std::cout << "REPLAY-UNSUPPORTED: " << msg << std::endl;
        _exit(3);
    }
    shm->unsupported++;
    std::strncpy(shm->unsupported_msg, msg.c_str(), 255);
    leave();
}

//! Returns the index of the outcome to continue with in the current process.
static int do_fork(int n) {
    if (n == 1) {
        return 0;
    }
    Guard g;
    shm->branches++;
    for (int i = 0; i + 1 < n; ++i) {
        if (out_of_time()) {
            incomplete_path();
        }
        bool par = sem_trywait(&shm->tokens) == 0;
        shm->forks++;
        std::cout.flush();
        pid_t pid = fork();
        if (pid < 0) {
            if (par) {
                sem_post(&shm->tokens);
            }
            unsupported("fork failed");
        }
        if (pid == 0) {
            if (par) {
                owns_token = true;
            } else {
                owns_token = false;
            }
            ++depth;
            return i;
        }
        if (!par) {
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
            }
            if (WIFSIGNALED(st)) {
                shm->unsupported++;
                std::snprintf(shm->unsupported_msg, 255, "worker killed by signal %d", WTERMSIG(st));
            }
        }
    }
    ++depth;
    return n - 1;
}

// }}}
// {{{ solver

static Q numeral(z3::expr const &v, bool &ok) {
    if (v.is_numeral()) {
        Q q(Z3_get_numeral_string(*zc, v));
        q.canonicalize();
        return q;
    }
    ok = false;
    return 0;
}

static void take_model(z3::model const &m) {
    model.assign(syms.size(), Q(0));
    model_ok = true;
    for (size_t i = 0; i < syms.size(); ++i) {
        bool ok = true;
        auto v = m.eval((*zsyms)[i], true);
        model[i] = numeral(v, ok);
        if (!ok) {
            model_ok = false;
            return;
        }
    }
}

static void set_rlimit(z3::solver &s) {
    z3::params p(*zc);
    p.set("rlimit", 40000000U);
    s.set(p);
}

//! Interrupt the solver after a while; if it does not listen the path is given up.
static volatile int watch_hits = 0;
static void on_alarm(int) {
    if (++watch_hits > 1) {
        kill(getpid(), SIGKILL);
    }
    Z3_interrupt(*zc);
    alarm(10);
}
struct Watch {
    Watch() {
        watch_hits = 0;
        signal(SIGALRM, on_alarm);
        alarm(config.thorough ? 60 : 25);
    }
    ~Watch() { alarm(0); }
};

//! Check pc and extra; on sat optionally hands out the model.
static z3::check_result query(z3::expr const &extra, z3::model *out = nullptr) {
    Guard g;
    Watch watch;
    double t0 = now();
    shm->queries++;
    z3::check_result r = z3::unknown;
    if (linear) {
        zs->push();
        zs->add(extra);
        if (char const *d = getenv("SE_DUMP"); d != nullptr) {
            std::ofstream(d + std::to_string(getpid())) << zs->to_smt2();
        }
        try {
            r = zs->check();
            if (r == z3::sat && out != nullptr) {
                *out = zs->get_model();
            }
        } catch (z3::exception const &e) {
            r = z3::unknown;
        }
        zs->pop();
    }
    if (r == z3::unknown) {
        // nonlinear: fresh solver
        try {
            z3::solver s = z3::tactic(*zc, "qfnra-nlsat").mk_solver();
            bool ints = std::any_of(syms.begin(), syms.end(), [](auto const &x) { return x.kind == Kind::Int; });
            if (ints) {
                s = z3::solver(*zc);
            }
            set_rlimit(s);
            for (auto const &e : *pc) {
                s.add(e);
            }
            s.add(extra);
            if (char const *d = getenv("SE_DUMP"); d != nullptr) {
                std::ofstream(d + std::to_string(getpid())) << s.to_smt2();
            }
            r = s.check();
            if (r == z3::sat && out != nullptr) {
                *out = s.get_model();
            }
            if (r == z3::unknown && !ints) {
                z3::solver s2(*zc);
                set_rlimit(s2);
                for (auto const &e : *pc) {
                    s2.add(e);
                }
                s2.add(extra);
                r = s2.check();
                if (r == z3::sat && out != nullptr) {
                    *out = s2.get_model();
                }
            }
        } catch (z3::exception const &e) {
            r = z3::unknown;
        }
    }
    shm->qtime_us += static_cast<long>((now() - t0) * 1e6);
    if (r == z3::unknown) {
        shm->unknown++;
    }
    return r;
}

static void add_pc(z3::expr const &e) {
    Guard g;
    pc->push_back(e);
    zs->add(e);
}

static int new_symbol(std::string const &name, Kind kind, bool positive, bool is_input) {
    Guard g;
    int id = static_cast<int>(syms.size());
    syms.push_back({name, positive, is_input, kind});
    if (kind == Kind::Int) {
        z3::expr c = zc->int_const(name.c_str());
        zsyms->push_back(z3::expr(*zc, Z3_mk_int2real(*zc, c)));
    } else {
        zsyms->push_back(zc->real_const(name.c_str()));
    }
    model.emplace_back(positive ? 1 : 0);
    return id;
}

static z3::expr zq(Q const &q) { return zc->real_val(q.get_str().c_str()); }

z3::expr z(LP const &p) {
    Guard g;
    if (!p.is_const() && integral(p)) {
        // sums of integers are left to the integer solver
        z3::expr r = zc->int_val(0);
        for (auto const &[m, c] : p.t) {
            z3::expr x = zc->int_val(c.get_num().get_str().c_str());
            int vars = 0;
            for (auto const &[v, e] : m) {
                for (int i = 0; i < e; ++i) {
                    x = x * (*zsyms)[v].arg(0);
                    ++vars;
                }
            }
            if (vars > 1) {
                linear = false;
            }
            r = r + x;
        }
        return z3::expr(*zc, Z3_mk_int2real(*zc, r));
    }
    z3::expr_vector sum(*zc);
    for (auto const &[m, c] : p.t) {
        z3::expr_vector prod(*zc);
        if (c != 1 || m.empty()) {
            prod.push_back(zq(c));
        }
        int vars = 0;
        for (auto const &[v, e] : m) {
            if (e < 0) {
                unsupported("negative exponent in formula");
            }
            for (int i = 0; i < e; ++i) {
                prod.push_back((*zsyms)[v]);
                ++vars;
            }
        }
        if (vars > 1) {
            linear = false;
        }
        z3::expr x = prod[0];
        if (prod.size() > 1) {
            std::vector<Z3_ast> as;
            for (unsigned i = 0; i < prod.size(); ++i) {
                as.push_back(prod[i]);
            }
            x = z3::expr(*zc, Z3_mk_mul(*zc, as.size(), as.data()));
        }
        sum.push_back(x);
    }
    if (sum.empty()) {
        return zc->real_val(0);
    }
    if (sum.size() == 1) {
        return sum[0];
    }
    return z3::sum(sum);
}

//! Multiply with a positive monomial to clear negative exponents.
static LP clear(LP const &p) {
    std::map<int, int> mn;
    for (auto const &[m, c] : p.t) {
        for (auto const &[v, e] : m) {
            if (e < 0) {
                mn[v] = std::min(mn[v], e);
            }
        }
    }
    if (mn.empty()) {
        return p;
    }
    Mono f;
    for (auto const &[v, e] : mn) {
        int k = -e;
        if (!syms[v].positive && k % 2 != 0) {
            ++k;
        }
        f.emplace_back(v, k);
    }
    LP r;
    for (auto const &[m, c] : p.t) {
        r.t[mul(m, f)] = c;
    }
    return r;
}

z3::expr rel(RF const &a, std::string const &op, RF const &b) {
    Guard g;
    z3::expr e = z(clear(a.n * b.d - b.n * a.d));
    auto zero = zc->real_val(0);
    if (op == "<") {
        return e < zero;
    }
    if (op == "<=") {
        return e <= zero;
    }
    if (op == "=") {
        return e == zero;
    }
    if (op == "!=") {
        return e != zero;
    }
    if (op == ">=") {
        return e >= zero;
    }
    if (op == ">") {
        return e > zero;
    }
    unsupported("bad relation " + op);
}

z3::expr fresh_real(std::string const &name) {
    Guard g;
    static int n = 0;
    return zc->real_const(("!" + name + "_" + std::to_string(n++)).c_str());
}

void set_nonlinear() { linear = false; }

static Q eval(LP const &p, bool &ok) {
    Q r = 0;
    for (auto const &[m, c] : p.t) {
        Q v = c;
        for (auto const &[s, e] : m) {
            Q const &b = model[s];
            if (e < 0 && b == 0) {
                ok = false;
                return 0;
            }
            for (int i = 0; i < std::abs(e); ++i) {
                if (e > 0) {
                    v *= b;
                } else {
                    v /= b;
                }
            }
        }
        r += v;
    }
    return r;
}

static void ensure_model() {
    if (model_ok) {
        return;
    }
    z3::model m(*zc);
    if (query(tru(), &m) == z3::sat) {
        take_model(m);
    }
}

// }}}
// {{{ branching

int internal_choose(int n) {
    if (n <= 1) {
        return 0;
    }
    return do_fork(n);
}

int choose(std::string const &what, int n) {
    if (n <= 0) {
        unsupported("empty choice " + what);
    }
    int r = 0;
    if (config.replay) {
        if (n > 1) {
            if (r_next >= r_choices.size() || r_choices[r_next].first != what || r_choices[r_next].second.first != n) {
                std::cout << "REPLAY-DIVERGED at choice " << what << "/" << n << std::endl;
                _exit(3);
            }
            r = r_choices[r_next++].second.second;
        }
    } else {
        r = internal_choose(n);
    }
    if (n > 1) {
        choices.push_back({what, {n, r}});
    }
    return r;
}

//! Sign of a polynomial; with zero_only just zero or not (one).
static int sign_rec(LP const &p0, bool zero_only = false) {
    if (p0.is_const()) {
        int c = sgn(p0.cval());
        return zero_only && c != 0 ? 1 : c;
    }
    LP p = p0;
    int factor = 1;
    // split off common factors
    std::map<int, int> mn;
    bool first = true;
    for (auto const &[m, c] : p.t) {
        std::map<int, int> es(m.begin(), m.end());
        if (first) {
            mn = es;
            first = false;
            // symbols missing later count as exponent zero
        } else {
            for (auto &[v, e] : mn) {
                auto it = es.find(v);
                e = std::min(e, it == es.end() ? 0 : it->second);
            }
            for (auto const &[v, e] : es) {
                if (mn.find(v) == mn.end()) {
                    mn[v] = std::min(0, e);
                }
            }
        }
    }
    Mono f;
    std::vector<std::pair<int, int>> factors;
    for (auto const &[v, e] : mn) {
        if (e != 0) {
            f.emplace_back(v, -e);
            factors.emplace_back(v, e);
        }
    }
    if (!f.empty() && !(p.t.size() == 1 && factors.size() == 1 && factors[0].second == 1 && !syms[factors[0].first].positive)) {
        LP r;
        for (auto const &[m, c] : p.t) {
            r.t[mul(m, f)] = c;
        }
        for (auto const &[v, e] : factors) {
            if (syms[v].positive) {
                continue;
            }
            int s = sign_rec(LP::sym(v), zero_only);
            if (s == 0) {
                return 0;
            }
            if (s < 0 && e % 2 != 0) {
                factor = -factor;
            }
        }
        p = r;
        if (p.is_const()) {
            return zero_only ? (p.is_zero() ? 0 : 1) : factor * sgn(p.cval());
        }
    }
    // normalize leading coefficient
    Q lc = p.t.rbegin()->second;
    if (lc < 0) {
        factor = -factor;
    }
    p = scale(p, Q(1) / lc);
    if (auto it = signs.find(p); it != signs.end()) {
        return zero_only ? (it->second != 0 ? 1 : 0) : factor * it->second;
    }
    if (zero_only && nonzeros.count(p) != 0) {
        return 1;
    }
    // trivially positive
    bool pos = true;
    for (auto const &[m, c] : p.t) {
        if (c < 0) {
            pos = false;
        }
        for (auto const &[v, e] : m) {
            if (!syms[v].positive && e % 2 != 0) {
                pos = false;
            }
            if (!syms[v].positive && e % 2 == 0) {
                pos = false; // might be zero
            }
        }
    }
    if (pos) {
        signs[p] = 1;
        return zero_only ? 1 : factor;
    }
    if (out_of_time()) {
        incomplete_path();
    }
    Guard g;
    z3::expr e = z(p);
    auto zero = zc->real_val(0);
    int known = 2;
    ensure_model();
    if (model_ok) {
        bool ok = true;
        Q v = eval(p, ok);
        if (ok) {
            known = sgn(v);
        }
    }
    bool skip_zero = nonzeros.count(p) != 0;
    if (zero_only && (known == -1)) {
        known = 1;
    }
    auto cond = [&](int s) {
        return s < 0 ? e < zero : (s == 0 ? e == zero : zero_only ? e != zero : e > zero);
    };
    struct Out {
        int s;
        bool ok;
        std::vector<Q> m;
    };
    std::vector<Out> outs;
    for (int s : {0, -1, 1}) {
        if ((zero_only && s < 0) || (skip_zero && s == 0)) {
            continue;
        }
        if (s == known) {
            outs.push_back({s, true, model});
            continue;
        }
        z3::model m(*zc);
        auto r = query(cond(s), &m);
        if (r == z3::unsat) {
            continue;
        }
        if (r == z3::sat) {
            auto old = model;
            auto oldok = model_ok;
            take_model(m);
            outs.push_back({s, model_ok, model});
            model = old;
            model_ok = oldok;
        } else {
            outs.push_back({s, false, {}});
        }
    }
    if (outs.empty()) {
        cut_path(); // only after an earlier unknown
    }
    int k = do_fork(static_cast<int>(outs.size()));
    int s = outs[k].s;
    if (outs.size() > 1) {
        add_pc(cond(s));
        model_ok = outs[k].ok;
        if (model_ok) {
            model = outs[k].m;
        }
    }
    if (zero_only && s != 0) {
        nonzeros.insert(p);
        return 1;
    }
    signs[p] = s;
    return factor * s;
}

bool is_zero(LP const &p) {
    op_tick();
    return sign_rec(p, true) == 0;
}

int sign(LP const &p) {
    op_tick();
    return sign_rec(p);
}

bool decided(z3::expr const &f) {
    z3::expr e(*zc);
    {
        Guard g;
        e = f.simplify();
        if (e.is_true() || e.is_false()) {
            return e.is_true();
        }
    }
    return pick({e, !e}, -1, nullptr) == 0;
}

int pick(std::vector<z3::expr> const &es, int symbol, std::function<int(long)> const &which) {
    if (out_of_time()) {
        incomplete_path();
    }
    Guard g;
    int known = -1;
    ensure_model();
    if (model_ok && symbol >= 0 && model[symbol].get_den() == 1) {
        known = which(model[symbol].get_num().get_si());
    }
    struct Out {
        int s;
        bool ok;
        std::vector<Q> m;
    };
    std::vector<Out> outs;
    for (int s = 0; s < static_cast<int>(es.size()); ++s) {
        if (s == known) {
            outs.push_back({s, true, model});
            continue;
        }
        z3::model m(*zc);
        auto r = query(es[s], &m);
        if (r == z3::unsat) {
            continue;
        }
        if (r == z3::sat) {
            auto old = model;
            auto oldok = model_ok;
            take_model(m);
            outs.push_back({s, model_ok, model});
            model = old;
            model_ok = oldok;
        } else {
            outs.push_back({s, false, {}});
        }
    }
    if (outs.empty()) {
        cut_path(); // only after an earlier unknown
    }
    int k = do_fork(static_cast<int>(outs.size()));
    if (outs.size() > 1) {
        add_pc(es[outs[k].s]);
        model_ok = outs[k].ok;
        if (model_ok) {
            model = outs[k].m;
        }
    }
    return outs[k].s;
}

LP fresh_pos(std::string const &name) {
    int id = new_symbol("!" + name + std::to_string(syms.size()), Kind::Real, true, false);
    add_pc((*zsyms)[id] > zc->real_val(0));
    signs[LP::sym(id)] = 1;
    return LP::sym(id);
}

LP fresh(std::string const &name, Kind k) {
    int id = new_symbol("!" + name + std::to_string(syms.size()), k, false, false);
    return LP::sym(id);
}

bool integral(LP const &p) {
    for (auto const &[m, c] : p.t) {
        if (c.get_den() != 1) {
            return false;
        }
        for (auto const &[v, e] : m) {
            if (syms[v].kind != Kind::Int || e < 0) {
                return false;
            }
        }
    }
    return true;
}

LP input(std::string const &name, Kind kind) {
    if (auto it = by_name.find(name); it != by_name.end()) {
        return config.replay ? LP(r_inputs[name]) : LP::sym(it->second);
    }
    if (config.replay) {
        auto it = r_inputs.find(name);
        Q v = it == r_inputs.end() ? Q(0) : it->second;
        r_inputs[name] = v;
        by_name[name] = -1;
        return LP(v);
    }
    int id = new_symbol(name, kind, false, true);
    by_name[name] = id;
    return LP::sym(id);
}

constexpr long TAG0 = 1500000000L;
constexpr long TAGSTEP = 1000;
constexpr long TAGOFF = 400;

long native_tag(LP const &p) {
    if (p.is_const() && p.cval().get_den() == 1) {
        if (!p.cval().get_num().fits_slong_p()) {
            unsupported("native integer out of range");
        }
        return p.cval().get_num().get_si();
    }
    for (size_t i = 0; i < natives.size(); ++i) {
        if (natives[i] == p) {
            return TAG0 + static_cast<long>(i) * TAGSTEP;
        }
    }
    natives.push_back(p);
    return TAG0 + static_cast<long>(natives.size() - 1) * TAGSTEP;
}

bool is_tag(long v) {
    long a = v < 0 ? -v : v;
    if (a < TAG0 - TAGOFF) {
        return false;
    }
    long i = (a - TAG0 + TAGSTEP / 2) / TAGSTEP;
    long o = a - TAG0 - i * TAGSTEP;
    return i >= 0 && i < static_cast<long>(natives.size()) && o >= -TAGOFF && o <= TAGOFF;
}

LP from_native(long v) {
    if (!is_tag(v)) {
        return LP(v);
    }
    long a = v < 0 ? -v : v;
    long i = (a - TAG0 + TAGSTEP / 2) / TAGSTEP;
    long o = a - TAG0 - i * TAGSTEP;
    LP r = natives[i] + LP(o);
    return v < 0 ? -r : r;
}

// }}}
// {{{ properties

void note(std::string const &what) { trace.push_back(what); }

//! Write inputs, choices and notes of the current path in replayable form.
static void write_path(std::string const &base, std::string const &msg, z3::model *m) {
    std::string tmp = base + ".tmp";
    {
        std::ofstream f(tmp);
        f << "harness " << config.harness << "\n";
        f << "case " << case_name << "\n";
        std::string one = msg;
        std::replace(one.begin(), one.end(), '\n', ' ');
        f << "msg " << one << "\n";
        for (size_t i = 0; i < syms.size(); ++i) {
            if (!syms[i].input) {
                continue;
            }
            std::string v = "0";
            if (m != nullptr) {
                bool ok = true;
                auto e = m->eval((*zsyms)[i], true);
                Q q = numeral(e, ok);
                if (!ok) {
                    std::string d = Z3_get_numeral_decimal_string(*zc, e, 12);
                    if (!d.empty() && d.back() == '?') {
                        d.pop_back();
                    }
                    f << "approx " << syms[i].name << " " << d << "\n";
                    continue;
                }
                v = q.get_str();
            }
            f << "input " << syms[i].name << " " << v << "\n";
        }
        for (auto const &c : choices) {
            f << "choice " << c.first << " " << c.second.first << " " << c.second.second << "\n";
        }
        for (auto const &t : trace) {
            f << "note " << t << "\n";
        }
        f << "path " << pc->size() << " conjuncts\n";
    }
    std::rename(tmp.c_str(), (base + ".txt").c_str());
}

static void write_violation(std::string const &msg, z3::model *m) {
    shm->violations++;
    write_path(config.out + "/viol-" + std::to_string(getpid()) + "-" + std::to_string(shm->violations.load()), msg, m);
    if (shm->violations.load() >= 24) {
        shm->stop = 1;
    }
}

//! Find a model for the path and the extra condition whose integral inputs are integers,
//! preferring small integers everywhere.
static z3::check_result nice_model(z3::expr const &extra, z3::model &m) {
    Guard g;
    z3::expr must = extra;
    z3::expr want = extra;
    z3::expr small = extra;
    bool any = false;
    bool need = false;
    for (size_t i = 0; i < syms.size(); ++i) {
        if (!syms[i].input) {
            continue;
        }
        any = true;
        auto const &x = (*zsyms)[i];
        if (syms[i].kind == Kind::Integral) {
            must = must && z3::is_int(x);
            need = true;
        }
        if (syms[i].kind != Kind::Int) {
            want = want && z3::is_int(x);
        }
        small = small && x <= zc->real_val(6) && x >= zc->real_val(-6);
    }
    if (!any) {
        return query(extra, &m);
    }
    std::vector<z3::expr> tries{want && small, want};
    if (need) {
        tries.push_back(must);
    } else {
        tries.push_back(extra);
    }
    z3::check_result last = z3::unknown;
    for (auto const &e : tries) {
        if (!need && z3::eq(e, extra)) {
            return query(extra, &m);
        }
        try {
            z3::solver s(*zc);
            z3::params p(*zc);
            p.set("rlimit", linear ? 10000000U : 3000000U);
            s.set(p);
            for (auto const &x : *pc) {
                s.add(x);
            }
            s.add(e);
            shm->queries++;
            Watch watch;
            last = s.check();
            if (last == z3::sat) {
                m = s.get_model();
                return last;
            }
        } catch (z3::exception const &) {
            last = z3::unknown;
        }
    }
    return last;
}

static void undecided(std::string const &msg) {
    if (shm->check_unknown.fetch_add(1) == 0) {
        std::snprintf(shm->undecided_msg, 255, "%s: %s", case_name.c_str(), msg.c_str());
    }
}

static void write_sample() {
    z3::model m(*zc);
    Guard g;
    if (nice_model(tru(), m) == z3::sat) {
        write_path(config.out + "/sample-" + std::to_string(getpid()), "", &m);
    }
}

static void report(z3::expr const &extra, std::string const &msg) {
    Guard g;
    z3::model m(*zc);
    if (nice_model(extra, m) == z3::sat) {
        write_violation(msg, &m);
        return;
    }
    // only a counterexample outside of the inputs' domain, or none was found in time
    undecided(msg + " (no counterexample with integer inputs found)");
}

void assume(z3::expr const &e, bool) {
    Guard g;
    if (out_of_time()) {
        incomplete_path();
    }
    z3::model m(*zc);
    if (linear) {
        // fast path: the cached model may already satisfy it; otherwise query
    }
    auto r = query(e, &m);
    if (r == z3::unsat) {
        if (config.replay) {
            std::cout << "REPLAY-OK: assumption not met" << std::endl;
            _exit(0);
        }
        cut_path();
    }
    add_pc(e);
    if (r == z3::sat) {
        take_model(m);
    } else {
        model_ok = false;
    }
}

void check(z3::expr const &prop, std::string const &msg) {
    Guard g;
    shm->checks++;
    shm->cs[case_index].checks++;
    z3::expr neg = (!prop).simplify();
    if (neg.is_false()) {
        shm->trivial++;
        return;
    }
    auto r = query(neg);
    if (r == z3::unsat) {
        shm->unsat++;
        return;
    }
    if (r == z3::unknown) {
        undecided(msg);
        return;
    }
    if (config.replay) {
        std::cout << "REPLAYED: " << msg << std::endl;
        for (auto const &t : trace) {
            std::cout << "  " << t << "\n";
        }
        std::cout.flush();
        _exit(1);
    }
    report(neg, msg);
    // continue on the part of the path where the property holds
    assume(prop);
}

void check(bool prop, std::string const &msg) {
    shm->checks++;
    shm->cs[case_index].checks++;
    if (prop) {
        shm->trivial++;
        return;
    }
    fail(msg);
}

[[noreturn]] void fail(std::string const &msg) {
    if (config.replay) {
        std::cout << "REPLAYED: " << msg << std::endl;
        for (auto const &t : trace) {
            std::cout << "  " << t << "\n";
        }
        std::cout.flush();
        _exit(1);
    }
    report(tru(), msg);
    end_path();
}

void reach(std::string const &what) { bump(shm->reach, what, 1); }
void count(char const *what, long n) { bump(shm->counters, what, n); }

void op_budget(long n, std::string const &what) {
    ops_left = n;
    ops_what = what;
}

static void arm(int sec) {
    itimerval tv{};
    tv.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

void op_tick() {
    static int k = 0;
    if ((++k & 1023) == 0 && out_of_time()) {
        incomplete_path();
    }
    if (ops_left >= 0 && --ops_left < 0) {
        ops_left = -1;
        fail("no termination: more number operations than the bound allows in " + ops_what);
    }
}

std::string tagged_string(RF const &v) {
    if (v.n.is_const() && v.d.is_const()) {
        Q q = v.n.cval() / v.d.cval();
        return q.get_str();
    }
    strings.push_back(v);
    return "@" + std::to_string(strings.size() - 1) + "@";
}

bool parse_number(std::string const &s, RF &out) {
    if (s.size() >= 3 && s[0] == '@' && s.back() == '@') {
        size_t i = std::stoul(s.substr(1));
        if (i >= strings.size()) {
            return false;
        }
        out = strings[i];
        return true;
    }
    size_t i = 0;
    auto digits = [&]() {
        size_t b = i;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
            ++i;
        }
        return i > b;
    };
    if (i < s.size() && s[i] == '-') {
        ++i;
    }
    if (!digits()) {
        return false;
    }
    if (i < s.size() && s[i] == '/') {
        ++i;
        if (!digits()) {
            return false;
        }
    }
    if (i != s.size()) {
        return false;
    }
    Q q(s);
    if (q.get_den() == 0) {
        return false;
    }
    q.canonicalize();
    out = RF(q);
    return true;
}

bool parse_value(std::string const &s, Val &out) {
    out = Val{RF(0), RF(0)};
    std::string rest = s;
    auto eps = [&](std::string const &e) {
        if (e == "e") {
            out.k = RF(1);
            return true;
        }
        if (e.size() > 2 && e.substr(e.size() - 2) == "*e") {
            return parse_number(e.substr(0, e.size() - 2), out.k);
        }
        return false;
    };
    if (auto p = rest.find('+'); p != std::string::npos) {
        return parse_number(rest.substr(0, p), out.c) && eps(rest.substr(p + 1));
    }
    if (!rest.empty() && rest.back() == 'e') {
        return eps(rest);
    }
    return parse_number(rest, out.c);
}

// }}}
// {{{ main

static void on_signal(int sig) {
    if (getenv("SE_TRACE") != nullptr) {
        void *bt[40];
        backtrace_symbols_fd(bt, backtrace(bt, 40), 2);
    }
    signal(sig, SIG_DFL);
    if (in_engine > 0) {
        if (sig == SIGPROF) { // long solver call, not the code under test
            signal(SIGPROF, on_signal);
            arm(15);
            return;
        }
        unsupported("signal inside the engine");
    }
    if (sig == SIGPROF) {
        fail("no termination: 15 s of processor time without progress");
    }
    fail(std::string("the process crashed: signal ") + strsignal(sig));
}

static std::string json(std::string const &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (static_cast<unsigned char>(c) < 32) {
            r += ' ';
        } else {
            r += c;
        }
    }
    return r + "\"";
}

static void setup_process() {
    Guard g;
    static char stack[1 << 16];
    stack_t ss{};
    ss.ss_sp = stack;
    ss.ss_size = sizeof(stack);
    sigaltstack(&ss, nullptr);
    for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) {
        struct sigaction sa {};
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_NODEFER | (sig == SIGSEGV ? SA_ONSTACK : 0);
        sigaction(sig, &sa, nullptr);
    }
    std::set_terminate([]() {
        if (in_engine > 0) {
            unsupported("exception inside the engine");
        }
        std::string what = "unknown exception";
        if (auto e = std::current_exception(); e) {
            try {
                std::rethrow_exception(e);
            } catch (std::exception const &x) {
                what = x.what();
            } catch (...) {
            }
        }
        fail("the process terminated (std::terminate): " + what);
    });
}

static void run_case(Case const &c, int index) {
    case_index = index;
    case_name = c.name;
    setup_process();
    zc = new z3::context();
    zs = new z3::solver(*zc, z3::solver::simple());
    set_rlimit(*zs);
    zsyms = new std::vector<z3::expr>();
    pc = new std::vector<z3::expr>();
    model_ok = true;
    arm(15);
    try {
        c.fn();
    } catch (std::exception const &e) {
        fail(std::string("unexpected exception: ") + e.what());
    }
    if (config.replay) {
        end_path();
    }
    if (shm->cs[case_index].sampled.fetch_add(1) == 0 || (shm->paths.load() % 97) == 0) {
        if (shm->samples.fetch_add(1) < 40) {
            write_sample();
        }
    }
    end_path();
}

static void write_stats(std::vector<Case> const &cases, double t0) {
    std::ofstream f(config.out + "/stats.json");
    f << "{\n";
    auto num = [&](char const *n, long v) { f << json(n) << ": " << v << ",\n"; };
    num("paths", shm->paths);
    num("cut_by_assumption", shm->cut);
    num("incomplete", shm->incomplete);
    num("forks", shm->forks);
    num("branches", shm->branches);
    num("queries", shm->queries);
    num("solver_us", shm->qtime_us);
    num("unknown", shm->unknown);
    num("check_unknown", shm->check_unknown);
    num("checks", shm->checks);
    num("checks_by_solver", shm->unsat);
    num("checks_by_simplification", shm->trivial);
    num("violations", shm->violations);
    num("max_depth", shm->maxdepth);
    num("unsupported", shm->unsupported);
    f << "\"unsupported_msg\": " << json(shm->unsupported_msg) << ",\n";
    f << "\"undecided_msg\": " << json(shm->undecided_msg) << ",\n";
    f << "\"wall\": " << now() - t0 << ",\n";
    auto tab = [&](char const *name, Counter *t) {
        f << json(name) << ": {";
        for (int i = 0; i < MAXTAB && t[i].name[0] != 0; ++i) {
            f << (i > 0 ? ", " : "") << json(t[i].name) << ": " << t[i].n.load();
        }
        f << "},\n";
    };
    tab("reach", shm->reach);
    tab("counters", shm->counters);
    f << "\"cases\": {";
    bool first = true;
    for (size_t i = 0; i < cases.size() && i < MAXCASE; ++i) {
        if (shm->cs[i].paths == 0 && shm->cs[i].cut == 0) {
            continue;
        }
        f << (first ? "" : ", ") << json(cases[i].name) << ": [" << shm->cs[i].paths << ", " << shm->cs[i].checks << "]";
        first = false;
    }
    f << "},\n\"functions\": [";
    first = true;
    for (auto &x : shm->fn) {
        if (x != 0) {
            f << (first ? "" : ", ") << x.load();
            first = false;
        }
    }
    f << "]\n}\n";
}

int run_main(int argc, char **argv, char const *harness, std::vector<Case> const &cases) {
    config.harness = harness;
    std::string replay;
    std::string select;
    std::string skip;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--replay") {
            config.replay = true;
            replay = argv[++i];
        } else if (a == "--out") {
            config.out = argv[++i];
        } else if (a == "--thorough") {
            config.thorough = true;
        } else if (a == "--jobs") {
            config.jobs = atoi(argv[++i]);
        } else if (a == "--deadline") {
            config.deadline = atof(argv[++i]);
        } else if (a == "--seed") {
            config.seed = strtoul(argv[++i], nullptr, 10);
        } else if (a == "--select") {
            select = argv[++i];
        } else if (a == "--skip") {
            skip = argv[++i];
        } else if (a == "--case") {
            config.only = argv[++i];
        } else if (a == "--list") {
            for (auto const &c : cases) {
                std::cout << c.name << (c.thorough_only ? " (thorough)" : "") << "\n";
            }
            return 0;
        }
    }
    shm = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::memset(static_cast<void *>(shm), 0, sizeof(Shm));
    sem_init(&shm->tokens, 1, config.jobs);
    sem_init(&shm->lock, 1, 1);
    double t0 = now();
    t_end = t0 + config.deadline;
    if (config.replay) {
        std::ifstream f(replay);
        std::string line;
        std::string cname;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "case") {
                is >> cname;
            } else if (k == "input" || k == "approx") {
                std::string n;
                std::string v;
                is >> n >> v;
                if (k == "approx") {
                    auto p = v.find('.');
                    Q q(v.substr(0, p) + (p == std::string::npos ? "" : v.substr(p + 1)));
                    if (p != std::string::npos) {
                        for (size_t j = p + 1; j < v.size(); ++j) {
                            q /= 10;
                        }
                    }
                    r_inputs[n] = q;
                } else {
                    Q q(v);
                    q.canonicalize();
                    r_inputs[n] = q;
                }
            } else if (k == "choice") {
                std::string n;
                int m = 0;
                int c = 0;
                is >> n >> m >> c;
                r_choices.push_back({n, {m, c}});
            }
        }
        for (size_t i = 0; i < cases.size(); ++i) {
            if (cases[i].name == cname) {
                run_case(cases[i], static_cast<int>(i));
            }
        }
        std::cout << "REPLAY-NOCASE" << std::endl;
        return 3;
    }
    // a child in its own process group manages the workers; it is ended if they do not come to an end
    pid_t manager = fork();
    if (manager > 0) {
        setpgid(manager, manager);
        bool killed = false;
        int status = 0;
        while (waitpid(manager, &status, WNOHANG) == 0) {
            usleep(10000);
            if (!killed && now() > t_end + 100) {
                killed = true;
                kill(-manager, SIGKILL);
            }
        }
        if (killed || !WIFEXITED(status)) {
            shm->unsupported++;
            std::snprintf(shm->unsupported_msg, 255, "workers did not come to an end");
        }
        write_stats(cases, t0);
        return 0;
    }
    setpgid(0, 0);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    for (size_t i = 0; i < cases.size() && i < MAXCASE; ++i) {
        if (cases[i].thorough_only && !config.thorough && config.only.empty()) {
            continue;
        }
        if (!config.only.empty() && cases[i].name.find(config.only) == std::string::npos) {
            continue;
        }
        if (cases[i].name.compare(0, select.size(), select) != 0 ||
            (!skip.empty() && cases[i].name.find(skip) != std::string::npos)) {
            continue;
        }
        while (sem_wait(&shm->tokens) != 0) {
        }
        pid_t pid = fork();
        if (pid == 0) {
            owns_token = true;
            run_case(cases[i], static_cast<int>(i));
        }
    }
    int st = 0;
    pid_t pid;
    while ((pid = wait(&st)) > 0 || errno == EINTR) {
        if (pid > 0 && WIFSIGNALED(st)) {
            shm->unsupported++;
            std::snprintf(shm->unsupported_msg, 255, "worker killed by signal %d", WTERMSIG(st));
            sem_post(&shm->tokens);
        }
    }
    _exit(0);
}

// }}}

} // namespace se

// coverage of the code under test (compiled with -finstrument-functions)
static void *counted_fn = nullptr;
static long counted = 0;
namespace se {
void count_calls(void *fn) { counted_fn = fn; }
long calls() { return counted; }
} // namespace se
extern "C" {
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void *fn, void *) {
    using namespace se;
    if (fn == counted_fn) {
        ++counted;
    }
    if (shm == nullptr) {
        return;
    }
    auto x = reinterpret_cast<unsigned long>(fn);
    unsigned long h = (x >> 4) * 2654435761UL;
    for (int i = 0; i < 16; ++i) {
        auto &s = shm->fn[(h + i) & 4095];
        unsigned long c = s.load(std::memory_order_relaxed);
        if (c == x) {
            return;
        }
        if (c == 0) {
            if (s.compare_exchange_strong(c, x) || c == x) {
                return;
            }
        }
    }
}
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void *, void *) {}

// The library code runs on one thread of control in a process that is forked while locks are held: the
// thread id stored by the original functions is useless then.
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept {
    auto *s = reinterpret_cast<int *>(l);
    if (*s < 0) {
        se::fail("deadlock: a lock held for writing is locked again");
    }
    ++*s;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept {
    auto *s = reinterpret_cast<int *>(l);
    if (*s != 0) {
        se::fail("deadlock: a lock that is held is locked for writing");
    }
    *s = -1;
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
    auto *s = reinterpret_cast<int *>(l);
    *s = *s < 0 ? 0 : *s - 1;
    return 0;
}

[[noreturn]] void __assert_fail(char const *expr, char const *file, unsigned line, char const *) noexcept {
    std::string f = file;
    if (auto p = f.rfind('/'); p != std::string::npos) {
        f = f.substr(p + 1);
    }
    se::fail(std::string("assertion failed in ") + f + ": " + expr);
}
}
