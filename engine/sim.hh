// Simulated clingo: symbols, theory atoms, propagator contract and search.
#pragma once
#include "sym.hh"

#include <clingo.h>

#include <deque>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>

namespace sim {

using lit_t = int32_t;
using Clause = std::vector<lit_t>;

// ---- theory terms --------------------------------------------------------
struct Node; // parsed template term
using NodeP = std::shared_ptr<Node>;
struct Node {
    enum Kind { Num, Sym, Str, Fun, Tup, Op } kind = Num;
    se::LP num;                 // Num
    std::string name;           // Sym/Str(with quotes)/Fun/Op
    std::vector<NodeP> args;
};
//! Parse a theory term; `$name` is the symbolic number `name`.
//! A theory definition: operators of terms and the guards of atoms.
struct TermDef {
    std::map<std::string, int> unary;
    std::map<std::string, std::pair<int, bool>> binary; // priority and left associativity
};
struct AtomDef {
    std::string term;
    bool has_guard = false;
    std::set<std::string> rels;
    std::string guard;
};
struct Theory {
    std::map<std::string, TermDef> terms;
    std::map<std::string, AtomDef> atoms;
};
Theory parse_theory_definition(std::string const &text);
//! Parse with the documented operators, or as clingo does with a term definition.
NodeP parse_term(std::string const &text, TermDef const *def = nullptr, std::vector<std::string> *errors = nullptr);
std::string show(NodeP const &n);

//! Registered options: name -> (kind, parser/flag)
struct Option {
    bool flag = false;
    bool *target = nullptr;
    bool (*parse)(char const *, void *) = nullptr;
    void *data = nullptr;
};
using Options = std::map<std::string, Option>;

struct World;

struct TTerm {
    int type = 0;
    int number = 0;
    std::string name;
    std::vector<clingo_id_t> args;
};
struct TElem {
    std::vector<clingo_id_t> tuple;
    std::vector<clingo_literal_t> cond;
    clingo_literal_t cond_id = 0;
};
struct TAtom {
    clingo_id_t term = 0;
    std::vector<clingo_id_t> elems;
    bool has_guard = false;
    std::string rel;
    clingo_id_t guard = 0;
    lit_t lit = 0;
};

// ---- solver threads ------------------------------------------------------
struct Thr {
    World *w = nullptr;
    int id = 0;
    std::vector<signed char> val; // per variable
    std::vector<int> lvl;
    std::vector<lit_t> trail;
    std::vector<size_t> lim; // trail size at the start of each level
    std::vector<Clause> db;  // thread local clauses
    std::set<lit_t> watches;
    std::vector<lit_t> ptrail; // watched literals seen by the propagator
    std::vector<size_t> plim;  // ptrail size at the start of each level
    size_t prop = 0;           // delivered
    size_t seen = 0;           // trail prefix already scanned for watches
    int front = -1;
    bool conflict = false;
    Clause conflict_clause;
    std::optional<Clause> pending;
    std::set<lit_t> aux;

    int level() const { return static_cast<int>(lim.size()); }
    int nvars() const { return static_cast<int>(val.size()) - 1; }
    int value(lit_t l) const;
    bool total() const;
    void add_var();
    void assign(lit_t l);
    bool bcp();
    bool add_clause(Clause const &c, bool in_ctl);
    bool resolve_pending();
    //! Returns false on conflict.
    bool propagate();
    //! Total check (isModel); true if the assignment is accepted as a model.
    bool model_check();
    void backtrack(int level);
    void new_level(lit_t decision);
};

struct Ctl {
    Thr *t;
    bool prop;
};

//! Raised when a propagator callback reports an error.
struct Error : std::runtime_error {
    using std::runtime_error::runtime_error;
};

constexpr clingo_literal_t LIT = 1000;     // program literals differ from solver literals
constexpr clingo_literal_t CONJ = 500000; // ids of conjunctions

struct World {
    World();
    ~World();
    // building programs
    lit_t new_lit();                        // new problem variable
    lit_t true_lit() const { return 1; }
    clingo_id_t term(NodeP const &n);
    //! elements "term : cond , term2" given as pairs (term, condition literal or 0)
    struct Elem {
        std::vector<std::string> tuple;
        std::vector<lit_t> cond; // several literals: a conjunction
        lit_t cond_lit = 0;      // solver literal of the whole condition
    };
    void atom(std::string const &name, std::vector<Elem> const &elems, std::string const &rel, std::string const &guard,
              lit_t lit);
    void clause(Clause c) { clauses.push_back(std::move(c)); }
    //! Call the propagator's init; false on top-level conflict.
    void init();
    //! Incremental solving: searches assume a step literal, so that clauses about auxiliary literals and models
    //! do not outlive the step.
    void begin_step();
    //! Forget auxiliary literals and the clauses that depend on the step.
    void end_step();

    int n_threads = 1;
    int vars = 1; // variable 1 is the true literal
    bool symbolic_terms = true;
    lit_t step = 0;
    // Conditions that are conjunctions have ids that are valid within one step only; clasp numbers them anew for each
    // program step, while the ids of literals stay.
    std::map<lit_t, clingo_literal_t> cond_ids; // solver literal -> id
    clingo_literal_t condition_id(Elem const &e);
    lit_t solver_literal(clingo_literal_t l) const;
    std::deque<TTerm> terms;
    std::deque<TElem> elems;
    std::deque<TAtom> atoms;
    std::vector<Clause> clauses;      // program
    std::vector<Clause> init_clauses; // added by the propagator during init
    std::set<lit_t> init_watches;
    std::vector<std::pair<lit_t, unsigned>> new_watches;
    int check_mode = clingo_propagator_check_mode_total;
    bool top_conflict = false;
    bool in_init = false;
    std::deque<Thr> thr;
    clingo_propagator_t prop{};
    void *data = nullptr;
    bool registered = false;
    std::string theory_text;
    Theory theory;                    // as registered
    std::vector<std::string> rejected; // what clingo rejects in the atoms
    struct Source {
        std::string name;
        std::vector<Elem> elems;
        std::string rel;
        std::string guard;
        lit_t lit;
    };
    std::vector<Source> sources; // atoms added before the theory is known
    void define(std::string const &text);
    std::vector<std::vector<clingo_literal_t>> dead;
    std::vector<clingo_symbol_t> model_symbols;
    int model_thread = 0;
    // applications
    std::vector<clingo_symbol_t> shown; // shown atoms of the model
    std::vector<std::string> arguments; // of the application, --key=value or files
    int statements = 3;                 // parsed from the files
    std::vector<int> added;             // statements handed to the program builder
    int builder = 0;                    // 0: not begun, 1: begun, 2: ended
    int grounded = 0;
    int solved = 0;
    Options opts;
    clingo_application_t const *app = nullptr;
    void *app_data = nullptr;
    std::function<void(std::function<bool(clingo_solve_event_type_t, void *)> const &)> on_solve;
    std::vector<std::string> files; // parsed
    // hooks
    std::function<void(Thr &, Clause const &)> on_clause;
    std::function<void(Clause const &)> on_init_clause;
    std::function<void(Thr &, lit_t)> on_new_lit;
    long budget = 60000; // number operations per callback
    int callbacks = 0;
};

//! Complete search over one thread (chronological backtracking with decision clauses).
struct Search {
    World &w;
    Thr &t;
    std::function<lit_t(std::vector<lit_t> const &free)> pick; // decision literal among the unassigned
    std::function<bool()> on_model;                             // false: stop
    int root = 0;                                               // assumption levels
    bool heuristic = false;
    std::function<int(int level)> jump;                          // backjump target (negative: none) at a fixpoint
    std::function<void(lit_t fallback, lit_t decision)> on_decide;
    bool waiting = false;                                        // a model was just reported
    bool blocking = true;                                        // exclude models by clauses
    bool split = false;                                          // models are reported in a step of their own
    bool unreported = false;
    bool units = false;                                          // facts among conflicts are assigned on level zero
    long models = 0;
    long conflicts = 0;
    Search(World &w, int thread = 0);
    //! Runs until exhausted or stopped.
    void run(long max_steps = 2000);
    //! One step: propagation and a decision, conflict or model; false if done.
    bool step();
    bool handle_conflict();
};

// statistics trees; keys are not interchangeable between trees
struct Stats {
    struct N {
        std::map<std::string, int> kids;
        int type = 0;
        double v = 0;
    };
    Stats();
    std::deque<N> nodes{1};
    uint64_t base;
    N *node(uint64_t key);
    double at(std::string const &a, std::string const &b);
};

std::string symbol_str(clingo_symbol_t s);
std::string last_error();
inline clingo_control_t *control(World &w) { return reinterpret_cast<clingo_control_t *>(&w); }
inline clingo_options_t *options(Options &o) { return reinterpret_cast<clingo_options_t *>(&o); }
inline clingo_statistics_t *statistics(Stats &s) { return reinterpret_cast<clingo_statistics_t *>(&s); }
//! The world in which an application runs.
World *&application();
inline clingo_model_t *model(World &w) { return reinterpret_cast<clingo_model_t *>(&w); }

} // namespace sim
