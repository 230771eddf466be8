"""Harnesses and properties."""
LIB = ["solving.cc", "parsing.cc", "problem.cc", "tableau.cc", "clingo-lpx.cc"]
HARNESSES = {
    "numbers": {"repo": [], "sim": False},
    "tableau": {"repo": ["tableau.cc"], "sim": False},
    "lpx": {"repo": LIB},
    "terms": {"repo": LIB},
    "api": {"repo": LIB},
    "strings": {"repo": LIB, "pass": True},
    "app": {"repo": LIB + ["../../app/src/main.cc", "../../app/lib/src/app.cc"], "repo_flags": ["-Dmain=lpx_app_main"], "include": ["app/lib"]},
    "lpx_imath": {"repo": LIB, "src": "lpx.cc", "backend": "imath"},
    "terms_imath": {"repo": LIB, "src": "terms.cc", "backend": "imath"},
    "tableau_imath": {"repo": ["tableau.cc"], "sim": False, "src": "tableau.cc", "backend": "imath"},
    "imath": {"repo": [], "sim": False, "backend": "imath"},
}
NUM = ("FLINT is replaced by its documented contract (exact integers and rationals); integers are treated as reals "
       "where only field operations and order matter; a symbolic gcd is one or an arbitrary positive number.")
SIM = ("clingo is replaced by a simulation of its documented propagator interface (theory atoms, literals, watches, "
       "propagate/undo/check/decide, clauses, backjumping); search schedules are nondeterministic choices.")
PROGS = ("Programs are fixed templates (at most 3 program literals, 3 variables, 4 constraints over 2-3 rows) whose right-hand "
         "sides, and in the coef templates whose coefficients, are arbitrary rationals; ")
BYTES = ("Characters are symbolic: the library is compiled with an LLVM pass that computes expressions over bytes beside the native "
         "values; the C locale, and comparisons and searches of the C library in plain C.")
BIG = "Larger programs and tableaus, other shapes of constraints."


def lpx(prefix, reach, bounds, outside=BIG, deadline=300):
    return {
        "runs": [{"harness": "lpx", "cases": prefix + "/", "deadline": deadline}],
        "reach": reach,
        "bounds": PROGS + bounds,
        "outside": outside,
        "assumptions": [NUM, SIM],
    }


TERMS = ("Texts are theory terms over fresh symbolic numbers (one per occurrence, arbitrary rationals) and variables; the shapes of "
         "the terms are enumerated, the numbers decided by the solver; ")
DEEP = "Deeper terms; characters of decimal strings are fixed (see C18)."


def terms(prefix, reach, bounds, outside=DEEP, deadline=150):
    r = lpx(prefix, reach, "", outside, deadline)
    r["runs"][0]["harness"] = "terms"
    r["bounds"] = TERMS + bounds
    return r


def api(prefix, reach, bounds, outside=BIG, deadline=300):
    r = lpx(prefix, reach, bounds, outside, deadline)
    r["runs"][0]["harness"] = "api"
    return r


PROPS = {
    "C15": api("C15", ["first step", "second step", "third step", "model in a later step", "later step without model", "optimum of a step",
                       "model of the second thread in a later step", "step ends early"],
               "sequences of two or three solve calls (14 templates, some calls add nothing) on one propagator, with a step literal as in "
               "clingo; all decision signs and a full enumeration of models in every call; facts, choices that become facts, "
               "conditions, objectives, global optimisation per step; two threads, one after the other, facts found by either, calls "
               "that end with any first model (thorough: all orders, one backjump, all options, one preemption).",
               "More preemptions within several calls; externals and removal of constraints."),
    "C16": api("C16", ["iterated", "shown", "determined value"],
               "11 programs that determine values, with variables of all term forms, conditional and cancelling elements, objectives, "
               "auxiliary variables, strict bounds and two threads; iteration, lookup, values and model extension of every model.",
               "Values printed by the decimal conversion of the number library itself."),
    "C19": api("C19", ["both threads", "switch", "optimum", "improves on the known best"],
               "two threads with different decision orders and signs; all interleavings of their search steps (propagation, decision, "
               "conflict, total check, model) with at most two preemptions (global optimisation: three; thorough: three and six orders).",
               "Data races within a callback; more than two threads; more preemptions."),
    "C21": api("C21", ["both threads", "bounds propagated", "pivots", "third step"],
               "two threads with all interleavings within one or two preemptions, and two or three solve calls; the pivots are compared with the "
               "number of entries of the tableau's pivot function, the propagated bounds with the clauses the solver received.",
               "More than two threads or three steps."),
    "C01": lpx("C01", ["constraint holds", "model"],
               "all static decision orders and signs and a full enumeration of models for each; thorough: one backjump to any "
               "level at any fixpoint and all combinations of select/store/propagate-bounds."),
    "C02": lpx("C02", ["clause", "model"],
               "all static decision orders and signs, every clause added in a full enumeration of models is decided to be "
               "implied; all propagate-bounds and propagate-conflicts modes; thorough: with one backjump and all orders in all modes."),
    "C03": lpx("C03", ["backjump", "constraint holds", "clause", "rejected assignment"],
               "one backjump to any level at any fixpoint of a full enumeration of models for all decision signs (thorough: two); "
               "values, clauses and the set of accepted assignments are compared with the reference afterwards; store modes."),
    "C04": lpx("C04", ["bounded optimum", "unbounded objective", "model"],
               "one objective with up to 3 variables, conditions and cancelling terms, all decision orders and signs, all store "
               "modes; optimality is decided against all real points, unboundedness by linear duality."),
    "C05": lpx("C05", ["improved", "optimum", "bounded optimum", "unbounded objective"],
               "one objective, all decision orders and signs until the search is exhausted, steps 0, 3/2, 1 and e; "
               "the last reported model is compared with every assignment."),
    "C06": lpx("C06", ["constraint holds", "clause", "rejected assignment", "backjump"],
               "strict relations over single variables, rows, differences and constants; all decision orders and signs, one "
               "backjump, all propagation modes (thorough: store modes)."),
    "C09": terms("C09", ["accepted", "rejected"],
                 "all terms of depth 2 with the operators +, -, unary -, * and / over a number and two variables, guards and pairs and "
                 "triples of elements of depth 1, variable names of 28 forms, decimal strings, five relations (thorough: terms of depth 3)."),
    "C10": terms("C10", ["accepted", "rejected"],
                 "&dom with numeric terms of depth 2 as lower or upper bound and all variable names, &diff with 15 forms of sides, "
                 "five relations and guards of depth 1 (thorough: both bounds and guards of depth 2)."),
    "C11": terms("C11", ["condition", "accepted"],
                 "one to three conditional elements, shared and complementary conditions, in one or two atoms or objectives, compared "
                 "under every truth assignment of the conditions."),
    "C12": terms("C12", ["accepted", "rejected"],
                 "pairs of 25 odd terms under each operator, in guards, objectives, intervals and differences; divisors of depth 2; "
                 "arities and guards of every atom; integer function arguments decided for all machine integers.",
                 "Other shapes; errors raised by clingo itself."),
    "C13": terms("C13", ["accepted", "rejected", "constant objective"],
                 "one or two (thorough: three) statements in both directions with elements of 11 forms, a single element of depth 2, "
                 "conditional elements, constants over four arbitrary numbers."),
    "C14": lpx("C14", ["model", "rejected assignment", "decided true", "decided false"],
               "all values of select, store, propagate-bounds and propagate-conflicts separately (thorough: jointly and with a "
               "backjump) for all decision signs."),
    "C20": lpx("C20", ["pivot", "several pivots in one call"],
               "the number of pivots of each call is compared with the number of configurations (bases times positions of the non-basic "
               "variables) and each path has an operation budget; all decision orders and signs."),
    "C08": {
        "runs": [{"harness": "tableau", "deadline": 90}],
        "reach": ["set", "pivot", "second pivot"],
        "bounds": "Up to four assignments to matrices of up to 2x2 or 1x3 entries with arbitrary rational values; one pivot "
                  "on every position and zero pattern of 2x3 and 3x2 (thorough: 3x3) matrices with arbitrary integer "
                  "entries; all sequences of two to four pivots on matrices of up to 3x3 (thorough: 4x3) with one arbitrary "
                  "entry, with columns iterated after each pivot or only at the end.",
        "outside": "Larger matrices and longer sequences of pivots over arbitrary entries.",
        "assumptions": [NUM],
    },
    "C22": {
        "runs": [{"harness": "imath", "deadline": 60}] +
                [{"harness": "tableau_imath", "cases": c, "deadline": 90} for c in ("set_2x2", "pivot_2x2", "sequence_")] +
                [{"harness": "terms_imath", "cases": "C09/", "deadline": 90}] +
                [{"harness": "lpx_imath", "cases": c + "/", "skip": "jump_", "deadline": 150} for c in ("C01", "C04", "C06")],
        "reach": ["arith", "less", "equal", "greater", "unary", "gcd", "muladd", "fits", "does not fit", "pivot", "accepted", "constraint holds", "bounded optimum"],
        "bounds": "One operation on one to three operands; integers and numerators/denominators unbounded, machine "
                  "integers within +-10^9, division by non-zero operands, base 10 texts from a fixed list. Besides, the library "
                  "is compiled with the IMath backend and decided on 2x2 matrices and the sequences of pivots of C08, "
                  "the terms of C09 and the programs of C01, C04 and C06.",
        "outside": "IMath itself is not part of the tree: counterexamples are replayed on the compiled code over the "
                   "stand-in with concrete numbers. Other programs and options with this backend.",
        "assumptions": ["IMath is replaced by its documented contract (exact integers and reduced rationals, error codes)."],
    },
    "C17": {
        "runs": [{"harness": "strings", "cases": "C17/", "deadline": 240}],
        "reach": ["accepted", "rejected", "step", "invalid", "second model", "no second model"],
        "bounds": "Values of up to 9 (thorough: 14) arbitrary bytes for every option, through configure and through the option "
                  "parsers, steps of up to 5 (thorough: 7) further bytes after 'global,', keys of up to 20 bytes with six values; on "
                  "the default configuration and two others. The configuration that results is read off the behaviour of the "
                  "library on three small programs (one with an arbitrary gap between objective values).",
        "outside": "Longer values; blanks and signs in steps and the case of keys, which are not documented.",
        "assumptions": [NUM, SIM, BYTES],
    },
    "C18": {
        "runs": [{"harness": "strings", "cases": "C18/", "deadline": 240}],
        "reach": ["number", "string", "rejected", "two numbers", "two variables", "one variable"],
        "bounds": "Strings of up to 7 arbitrary bytes in a sum and up to 5 in guards, products, differences, domains and arguments "
                  "(thorough: up to 9), pairs of strings of up to 3 (thorough: 4) bytes.",
        "outside": "Longer strings; the parser of clingo, which only hands out well-formed escapes.",
        "assumptions": [NUM, BYTES],
    },
    "C23": {
        "runs": [{"harness": "app", "deadline": 150}],
        "reach": ["solved", "printed", "rejected", "bounded optimum", "unbounded objective", "improved", "optimum", "rejected assignment"],
        "bounds": PROGS + "16 programs run by the program's own main function with its options on the command line (13 rejected "
                  "combinations), one to three statements, all decision signs and a full enumeration of answers; each printed answer is "
                  "read back and compared with the constraints, the objective and the shown atoms.",
        "outside": "The command-line parser, the parser and the grounder of clingo, which are simulated; the text of error messages; "
                   "other lines that clingo prints.",
        "assumptions": [NUM, SIM],
    },
    "C07": {
        "runs": [{"harness": "numbers", "deadline": 60}],
        "reach": ["arith", "less", "equal", "greater", "unary", "gcd", "muladd", "fits", "does not fit"],
        "bounds": "One operation on one to three operands; integers and numerators/denominators unbounded, machine "
                  "integers within +-10^9, division by non-zero operands, base 10 texts from a fixed list.",
        "assumptions": [NUM],
    },
}
NOT_APPLICABLE = {}
