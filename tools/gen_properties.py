#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the statements are kept)."""
import json, os
S = "libclingo-lpx/src/"
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": [f if "/" in f else S + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
props = [
P("C01", "Reported assignments satisfy every constraint that holds",
  "Whenever the propagator accepts a total assignment, the rational values it reports for the variables satisfy, exactly, every linear constraint whose theory atom is true (including bounds on single variables and constraints over constants only).",
  ["inputs", "programs", "schedules"], "for all right-hand sides and bounds (any rationals), all truth assignments to the theory atoms and all orders in which they are decided, over a family of constraint systems",
  "Tests solve a few fixed programs; a wrong pivot, bound update or comparison only shows for particular numeric relations between bounds and particular decision orders.",
  ["solving.cc", "tableau.cc"], [("simplex main loop", "Solver::solve/select_/pivot_/update_"), ("bound registration", "Solver::prepare")],
  ["clingolpx_assignment_get_value after an accepted check"]),
P("C02", "Clauses handed to the solver never remove an answer",
  "Every clause the propagator adds while searching - for conflicts and for bound propagation in every propagation mode - is implied by the linear constraints: whenever all literals of such a clause are false, the constraints and bounds then in force have no rational solution.",
  ["inputs", "programs", "schedules", "configurations"], "for all rational right-hand sides/bounds, all decision orders and propagation settings",
  "An invalid clause silently drops answers; tests compare answers for a handful of numeric instances only.",
  ["solving.cc"], [("conflict clause", "Solver::select_, Solver::update_bound_"), ("bound propagation", "Solver::propagate_"), ("pairwise conflicting bounds", "Solver::prepare")],
  ["clauses passed to clingo_propagate_control_add_clause / clingo_propagate_init_add_clause"]),
P("C03", "Backtracking restores the bounds in force",
  "After any sequence of decisions, conflicts and backjumps, exactly the bounds of the literals that are currently true are in force: later acceptance, conflict reports and values do not depend on assignments that have been undone.",
  ["histories", "inputs", "schedules"], "for all rational data and all histories of decide / backjump steps up to the bound",
  "Tests never drive undo directly, and a full solve visits only the histories one clasp configuration produces.",
  ["solving.cc"], [("bound trail", "Solver::Variable::update_lower/update_upper, Solver::undo"), ("assignment trail", "Solver::Variable::set_value, Solver::undo, store_sat_assignment")]),
P("C04", "Local objective value and boundedness are exact",
  "With a &maximize/&minimize statement and local optimisation, the objective value reported for an accepted total assignment is the exact optimum over all rational solutions of the constraints that hold (negated for minimisation), the reported variable values attain it, and it is flagged unbounded exactly when no finite optimum exists.",
  ["inputs", "programs", "schedules"], "for all rational right-hand sides/bounds over a family of objectives and constraint systems, including degenerate ones",
  "Optimality is a statement over all solutions; tests check a few optima.",
  ["solving.cc"], [("primal simplex", "Solver::optimize"), ("objective row", "Solver::prepare"), ("sign of minimize", "parse_theory")]),
P("C05", "Global optimisation reaches the optimum over all answers",
  "With global optimisation and no step (or the strict epsilon step) each new model is at least as good (strictly better) than the best reported so far, no answer that would improve on the last reported model is discarded, and the last model's objective is the optimum over all answers (unbounded if some answer is unbounded); with a positive step, an improvement of at least the step over the best is never lost.",
  ["inputs", "histories", "configurations"], "for all rational data and all enumeration orders over small sets of answers",
  "Tests check final optima of a few programs in one enumeration order.",
  ["solving.cc"], [("objective exchange", "ObjectiveState"), ("bound from best objective", "Solver::integrate_objective"), ("unbounded handling", "Solver::discard_bounded")]),
P("C06", "Strict inequalities are exact in strict mode",
  "In strict mode accepted values satisfy every true strict and non-strict constraint for all sufficiently small positive values of the symbolic epsilon, and a conflict is reported only if the real-valued strict/non-strict system has no solution.",
  ["inputs", "programs", "schedules"], "for all rational right-hand sides and all truth assignments over a family of systems mixing <, <=, =, >=, >",
  "Strictness only matters at exact ties of symbolic bounds, which sampled tests almost never hit.",
  ["solving.cc", "number.hh"], [("epsilon encoding", "bound_val<RationalQ>"), ("ordered pairs", "RationalQ compare")]),
P("C07", "Number operations are exact",
  "Every arithmetic operator, comparison, negation, swap, gcd and multiply-add on integers, rationals and rationals with an epsilon part - in all operand mixes, in-place, copying and moving forms - computes the exact mathematical result, comparisons form one consistent total order (lexicographic for epsilon), and operands that are only read keep their value.",
  ["inputs"], "for all integer/rational operand values, of any size",
  "Tests try a few small values; wrong operand, aliasing or large-number errors need particular values.",
  ["number.hh", "number_flint.hh"], [("FLINT wrappers", "number_flint.hh"), ("epsilon pairs", "number.hh")]),
P("C08", "The sparse tableau behaves as an exact matrix",
  "Setting, reading, iterating and pivoting the sparse tableau agree with dense exact matrix algebra: a get returns what was last set, row/column iteration visits each non-zero entry exactly once, and a pivot solves row i for column j and substitutes it into all other rows.",
  ["inputs", "histories"], "for all rational entries (including ones that cancel to zero) in all shapes up to the bound and sequences of operations",
  "Cancellation, fill-in and lazily deleted column entries arise only for special coefficient relations.",
  ["tableau.hh", "tableau.cc"], [("pivot", "Tableau::pivot"), ("row simplification", "Tableau::simplify_"), ("lazy column deletion", "Tableau::update_col")]),
P("C09", "&sum atoms mean the linear constraint they spell",
  "A &sum atom is translated to exactly the linear (in)equality obtained by evaluating both sides: nested +, -, unary -, scalar products and divisions, repeated variables, constants on either side and the relation are preserved, and terms that cancel disappear.",
  ["inputs", "programs"], "for all numeric constants in a family of term shapes",
  "Sign and distribution mistakes only show for particular nestings; tests cover some fixed terms.",
  ["parsing.cc"], [("term translation", "parse_sum_elem"), ("normalisation", "simplify")]),
P("C10", "&dom and &diff atoms mean their interval / difference",
  "&dom { l..u } = x means l <= x <= u, and &diff { a - b } rel c means a - b rel c, for every variable or constant a, b and every guard expression, with exact constants.",
  ["inputs", "programs"], "for all numeric constants and term shapes in the family",
  "Only a few fixed atoms are tested.", ["parsing.cc"], [("dom/diff translation", "parse_theory, parse_diff_elem")]),
P("C11", "Conditional elements contribute exactly when their condition holds",
  "In &sum, &minimize and &maximize, an element with a condition contributes its full term - variable or constant, with its coefficient - when the condition is true and zero when it is false.",
  ["inputs", "programs", "schedules"], "for all rational data, all truth values of the conditions and sharing of (variable, condition) pairs",
  "Tests contain a handful of conditional programs.",
  ["parsing.cc"], [("auxiliary variables", "parse_sum_elems")]),
P("C12", "Ill-formed theory atoms are rejected with an error",
  "Non-linear products, division by zero or by a variable, arithmetic over non-numbers, wrong arity, missing guards, unsupported operators and out-of-range integers raise an error; they never crash the process and are never silently interpreted.",
  ["inputs", "programs"], "for all numeric constants (in particular zero and values outside the integer range) in a family of term shapes",
  "Which constant makes a term ill-formed is data dependent.", ["parsing.cc", "util.hh"], [("syntax checks", "check_syntax, evaluate, AS, EU, EB")]),
P("C13", "Objective statements accumulate and reject constants",
  "All &maximize and &minimize elements are summed into one objective, minimisation contributing negated coefficients; an objective whose constant part is not zero is rejected and coefficients that cancel leave no trace.",
  ["inputs", "programs"], "for all coefficients in a family of statement combinations",
  "Tests use fixed objectives.", ["parsing.cc"], [("objective accumulation", "parse_theory")]),
P("C14", "Heuristic and storage options never change what is accepted",
  "The select, store, propagate-bounds and propagate-conflicts options influence only the search: a decision heuristic returns the suggested literal or its complement and, for a literal with exactly one constraint over variables, follows its documented preference with respect to the current values, and for every history the accepted total assignments remain exactly the satisfiable ones.",
  ["configurations", "inputs", "histories"], "for all option combinations, rational data and histories up to the bound",
  "Tests run few option combinations on fixed programs.", ["solving.cc"], [("phase selection", "Solver::adjust"), ("stored assignments", "Solver::store_sat_assignment"), ("queues", "Solver::propagate_")]),
P("C15", "Constraints from earlier solve calls stay in force",
  "In multi-shot solving, constraints whose atoms became facts in earlier steps remain enforced in every later step, together with the ones added later.",
  ["histories", "inputs"], "for all rational data and two- and three-step histories within the bound",
  "Tests run one or two multi-shot programs.", ["solving.cc"], [("remembered facts", "Propagator::facts_, facts_offset_, check")]),
P("C16", "The C API exposes exactly the program's variables and values",
  "Assignment iteration yields each user variable exactly once and no auxiliary variable; lookup and get_symbol are inverse; every iterated variable has a value; values and the model extension print the exact rational (and epsilon) value of the right variable and the objective with its bounded flag.",
  ["inputs", "programs", "histories"], "for all values and families of programs",
  "Tests check printed values of fixed programs.", ["clingo-lpx.cc", "solving.cc"], [("facade", "LPXPropagatorFacade"), ("printing", "operator<<")]),
P("C17", "Option strings are accepted exactly as documented",
  "Command-line callbacks and configure accept exactly the documented values (case-insensitively), set exactly the documented field, agree with each other, and reject everything else with an error leaving no undefined state.",
  ["inputs", "configurations"], "for all strings up to the length bound",
  "The space of strings is not sampled by tests at all.", ["clingo-lpx.cc"], [("string parsing", "iequals, parse_*"), ("configure", "clingolpx_configure")]),
P("C18", "Quoted decimal numbers are read exactly",
  "A quoted string is read as a number exactly when it has the form of an optional minus sign, digits and an optional fraction; the value is exactly the decimal written; every other string is a variable name (string symbol).",
  ["inputs"], "for all strings up to the length bound",
  "Tests try three or four strings.", ["parsing.cc"], [("decimal strings", "as_num"), ("unquoting", "unquote")]),
P("C19", "Solver threads stay independent and share only the best objective",
  "With several solver threads every thread's accepted assignment satisfies its own true constraints regardless of how the threads' callbacks interleave, and the shared best objective only improves.",
  ["schedules", "inputs"], "for all rational data and all interleavings of the callbacks of two threads up to the bound",
  "Thread interleavings are not controlled by tests.", ["solving.cc"], [("per-thread solvers", "Propagator::slvs_"), ("objective exchange", "ObjectiveState")]),
P("C20", "Every propagation and optimisation call terminates",
  "Each propagate and check call returns after finitely many pivots: the number of pivots never exceeds the number of simplex configurations (bases times bound positions of the non-basic variables), for degenerate systems too.",
  ["inputs", "schedules"], "for all rational data and decision orders within the family",
  "Cycling needs degenerate ties that tests do not contain.", ["solving.cc"], [("Bland's rule", "Solver::select_, Solver::optimize")]),
P("C21", "Statistics count what happened",
  "The step statistics are the sums over all threads of the pivots and propagated bounds of the step, and accumulated statistics are the sum of the step statistics so far.",
  ["histories", "inputs"], "for all statistics values reachable in the bounded runs and two threads",
  "No test looks at statistics with several threads or calls.", ["solving.cc", "clingo-lpx.cc"], [("statistics", "Propagator::on_statistics")]),
P("C22", "The IMath number backend computes exactly",
  "The alternative IMath based number classes compute exact results for every operator, comparison and conversion in all operand mixes, given IMath's documented contract, and the library built on them accepts, values and optimises programs as exactly as with the default backend.",
  ["inputs", "configurations"], "for all operand values",
  "The IMath backend is not even built by the test configuration.", ["number_imath.hh"], [("IMath wrappers", "number_imath.hh")]),
P("C23", "The program prints each answer with a correct assignment and objective",
  "For every answer the command-line program prints exactly the shown atoms, one value for every variable of the constraints such that all constraints that hold are satisfied, and with an objective its exact value and whether it is bounded; with global optimisation each printed objective improves on the one before and the last one is optimal. Every parsed statement is passed on before the program is grounded and solved once, and invalid options are rejected before anything is solved.",
  ["inputs", "programs", "configurations", "schedules"], "for all rational data, option combinations and answers of families of programs",
  "Tests call the library, never the program; its printing is not tested at all.", ["app/src/main.cc", "app/lib/src/app.cc", "clingo-lpx.cc"],
  [("printing", "App::print_model"), ("passing answers to the theory", "App::on_model, on_statistics"), ("main function", "App::main, Rewriter")],
  ["standard output of the program"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
