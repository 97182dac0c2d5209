#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Python front end: verification conditions capture every run",
 "For every Python program in the supported subset (functions over integers, integer lists and integer sets with assignments, if/elif/else, while, early returns, append/add/remove, arithmetic, chained comparisons, and/or, len, indexing, tuples and uninterpreted functions, in which no collection has two names), the verification conditions the Python front end collects are all true under a given meaning of the summary and loop-invariant predicates exactly when, for all argument values, every obligation of the source program holds under that meaning: each invariant holds on loop entry, is kept by the body under the loop test, and the summary holds of the arguments and returned value at each return, assuming the summaries of the calls made before and the stated preconditions. No path, guard, side of a chained comparison or loop obligation is lost, added or stated about the wrong variable values. Analysing one function leaves no trace in the analysis of another, every variable the conditions mention is declared, and the invariant and its grammar are given exactly the variables the loop writes, reads and has in scope.",
 ["programs", "inputs"], "all programs of the supported subset (nested ifs, loops, assignments, chained comparisons, list reads and appends, tuples), all argument values, all predicate meanings",
 "A test runs one program with one specification; a lost path condition still lets the solver accept the right summary, it merely also accepts wrong ones, so the tests keep passing.",
 ["metalift/frontend/python.py", "metalift/vc_util.py", "metalift/analysis.py", "metalift/ir.py"],
 [("statement and expression visitor", "metalift/frontend/python.py"), ("state merge after branches and loops", "metalift/frontend/python.py visit_if_stmt / visit_while_stmt / visit_for_stmt"), ("driver assertions and assumptions", "metalift/frontend/python.py Driver")],
 "driver.asserts / driver.var_tracker after calling the analysed function")
prop("P02", "LLVM front end: verification conditions capture every run",
 "For every C/C++ function in the supported subset compiled to LLVM, the verification conditions the LLVM front end collects are all true under a given meaning of the summary and loop-invariant predicates exactly when, for all argument values, every obligation of the compiled control-flow graph holds under that meaning: each invariant holds on loop entry, is kept along every path through the body back to the loop head, and the summary holds of the arguments and returned value at each return. Branch conditions, joins and stores to memory are attributed to the right path. The supported subset is functions over integers, Booleans, the functional lists and sets of llvm_headers and std::vector<int> passed by value, compiled with the repository's own pipeline (clang -O0, the block-splitting pass); integers are mathematical.",
 ["programs", "inputs"], "all loop-structured programs over integers and integer lists, all argument values, all predicate meanings",
 "Wrong conditions are visible only for some path and some predicate meaning; end-to-end examples use one program and the one correct summary.",
 ["metalift/frontend/llvm.py", "metalift/analysis.py", "metalift/vc_util.py"],
 [("block-by-block symbolic execution", "metalift/frontend/llvm.py VCVisitor"), ("loop discovery and invariant wiring", "metalift/frontend/llvm.py find_loops, setupBlocks in metalift/analysis.py")])
prop("P03", "SMT text means the expression it was printed from",
 "For every well-typed expression or function declaration of the intermediate language, the SMT-LIB text emitted for it is well-sorted under the shipped theories and, for every assignment of values to its free variables on which the expression is defined, evaluates to the same value as the expression. Operand order, nesting, negative literals, empty collections, tuples, sets, nested lists and functions of any arity are all covered.",
 ["programs", "inputs"], "all well-typed expressions and declarations, all variable assignments",
 "The repository compares a handful of printed strings; meaning under all operators, nestings and values is never evaluated.",
 ["metalift/ir.py", "metalift/utils/list-axioms.smt", "metalift/utils/tuples.smt"],
 [("SMT printer of each expression class", "metalift/ir.py toSMT"), ("SMT sort names", "metalift/ir.py toSMTType")], "return value of toSMT()")
prop("P04", "Rosette text means the expression it was printed from",
 "For every well-typed expression or function declaration of the intermediate language, the Rosette text emitted for it, run with the shipped runtime library, evaluates to the same value as the expression for every assignment of values to its free variables on which the expression is defined. This covers list, matrix, tensor, slice, set and tuple operations and bounded recursive functions.",
 ["programs", "inputs"], "all well-typed expressions and declarations, all variable assignments",
 "No Racket run is part of the tests; printed strings are compared for a few expressions only.",
 ["metalift/ir.py", "metalift/utils/utils.rkt", "metalift/utils/bounded.rkt"],
 [("Rosette printer of each expression class", "metalift/ir.py to_rosette"), ("operator to runtime-function map", "metalift/ir.py get_list_fn / get_integer_fn")], "return value of to_rosette()")
prop("P05", "Generated Python means the expression it was printed from",
 "For every well-typed expression or function declaration that the Python generator supports, the generated Python source parses with the intended structure and computes, for every assignment of values on which the expression is defined, the value of the expression. In particular mixed nestings of arithmetic, comparison, boolean, conditional, list and slice operators keep their grouping.",
 ["programs", "inputs"], "all supported expressions and declarations, all variable assignments",
 "Grouping mistakes show only for particular operator nestings, and the generator has no test that executes its output.",
 ["metalift/ir.py"], [("Python printer of each expression class", "metalift/ir.py to_python")], "return value of to_python()")
prop("P06", "Simplification, substitution and traversal preserve meaning",
 "Simplifying an expression never changes its value, substituting expressions for variables gives exactly the value of the original under the substituted values, mapping the identity over an expression rebuilds an equal one of the same type, and variable-use counts and structural equality are exact. None of these operations changes the expression it was given.",
 ["programs", "inputs", "histories"], "all expressions, substitutions and assignments, and sequences of these operations",
 "The tests never compare meanings before and after; a wrong rewrite is visible only for particular literals, nestings or shared subterms.",
 ["metalift/ir.py"], [("simplify / rewrite / map_args / count_variable_uses / equality", "metalift/ir.py Expr")])
prop("P07", "Equality propagation keeps the verdict of a verification condition",
 "Optimising a verification condition by propagating and dropping equalities yields a condition that is valid if and only if the original is valid, for every interpretation of the uninterpreted predicates in it. The optimisation always terminates normally.",
 ["programs", "inputs"], "all verification conditions built from implications, conjunctions, equalities and predicate calls; all interpretations",
 "It runs only behind an option of the synthesis entry points, with no test on the optimised condition.",
 ["metalift/ir.py", "metalift/synthesize_rosette.py", "metalift/synthesize_cvc5.py"],
 [("equality elimination", "metalift/ir.py optimize_useless_equality / collectKnowledge")])
prop("P08", "The emitted search space is exactly the declared choices",
 "The set of bodies derivable from an emitted grammar (the Rosette grammar, the SyGuS grammar, and the enumerated candidates) for a function to be synthesised equals the set of bodies obtained by resolving every choice in the declared grammar, each occurrence of a shared choice being resolvable independently, and choosing arbitrarily yields one of them. No declared candidate is unreachable and no undeclared one is reachable.",
 ["programs"], "all grammars built from choices, including nested and repeated ones",
 "An unreachable candidate only shows as a synthesis failure on some future benchmark.",
 ["metalift/ir.py", "metalift/synthesize_rosette.py", "metalift/synthesize_cvc5.py", "metalift/rosette_translator.py"],
 [("grammar emission", "metalift/ir.py Synth, Choose, findCommonExprs, replaceExprs"), ("candidate enumeration", "metalift/synthesize_cvc5.py generateCandidates")])
prop("P09", "A solver's solution is read back unchanged",
 "For every solution text the synthesiser can print for a problem, the expression reconstructed from it has the meaning of the printed text: every operator, literal, list, set, tuple, call and user-function node maps to the corresponding operation with its arguments in order, function arguments are bound to the declared ones, and nothing is dropped.",
 ["programs", "inputs"], "all well-formed solution texts over the emitted operators",
 "Parsing is exercised only when Racket runs, on the solution it happens to find.",
 ["metalift/synthesize_rosette.py", "metalift/ir.py"],
 [("s-expression to expression translation", "metalift/synthesize_rosette.py to_expr / toExpr"), ("solution file parsing", "metalift/synthesize_rosette.py parse_output")])
prop("P10", "Rosette synthesis returns only verified candidates",
 "The synthesis loop that drives Rosette returns a set of synthesised functions only after the verifier has answered that the verification conditions hold for exactly those functions; a candidate whose verification is refuted or undecided is never returned and not verified again, and the search goes on with the next one; every round asks for an answer different from all earlier ones and rules out nothing else. If the synthesiser answers that there is no solution, or dies, the loop ends with a failure instead of returning, hanging or reporting success.",
 ["histories", "fault_sequences"], "all sequences of synthesiser answers (solution, unsat, crash, timeout) and verifier answers (proved, refuted, unknown, error)",
 "The loop needs external solvers; tests see only the all-goes-well sequence if they run at all.",
 ["metalift/synthesize_rosette.py", "metalift/synthesis_common.py", "metalift/process_tracker.py"],
 [("guess/verify loop", "metalift/synthesize_rosette.py synthesize, run_synthesis"), ("verification verdict", "metalift/synthesis_common.py verify_synth_result")])
prop("P11", "CVC5 synthesis returns only verified candidates",
 "The synthesis entry point that drives CVC5 accepts what the front ends pass to it and returns only the candidate the synthesiser settled on, with one function of the declared signature for every function to synthesise and the meaning the synthesiser's text has, and only after the verification query for exactly those functions was answered unsatisfiable. In every other case (no solution, refuted, undecided, solver errors or deaths at any point) it ends with a failure; it always ends.",
 ["histories", "fault_sequences"], "all sequences of solver answers over the candidate list",
 "No test runs this back end.",
 ["metalift/synthesize_cvc5.py", "metalift/synthesis_common.py"],
 [("candidate loop", "metalift/synthesize_cvc5.py synthesize, check_solution")])
prop("P12", "A verification query is complete, ordered and keeps function meanings",
 "The SMT query assembled for a candidate declares each needed function before it is used and exactly once, includes every target function and synthesised function the condition depends on, asserts the negation of the conjunction of all conditions, and specialises higher-order functions to copies whose meaning is that of the original applied to the given function argument. The query is therefore unsatisfiable exactly when the conditions are valid for the candidate.",
 ["programs", "inputs"], "all sets of target functions (call graphs, including mutual use and higher-order calls), candidates and conditions",
 "A query that is missing or mis-specialises a definition only misbehaves for particular call graphs.",
 ["metalift/smt_util.py", "metalift/synthesis_common.py"],
 [("query assembly", "metalift/smt_util.py toSMT"), ("dependency order", "metalift/smt_util.py topological_sort, get_dependency_graph"), ("higher-order specialisation", "metalift/smt_util.py")])
prop("P13", "Background theories are true of real lists, tuples and sets",
 "Every axiom in the shipped SMT background theories is true of finite integer lists and matrices, every function they define computes its documented list, slice, matrix, tuple or integer operation, and the Rosette runtime computes the same result for every operation and in-range argument. No definition is circular in a way that would make the theory inconsistent.",
 ["inputs"], "all lists, matrices, sets, indices and bounds",
 "The theory files are only ever fed to external solvers; an unsound axiom makes wrong programs verify rather than a test fail.",
 ["metalift/utils/list-axioms.smt", "metalift/utils/integer-fn-axioms.smt", "metalift/utils/map-axioms.smt", "metalift/utils/tuples.smt", "metalift/utils/utils.rkt", "metalift/utils/bounded.rkt"],
 [("list, matrix and integer theory", "metalift/utils/list-axioms.smt"), ("Rosette runtime", "metalift/utils/utils.rkt")])
prop("P14", "The tensor operator library computes its operators",
 "Each operator of the shipped tensor target library computes the vector or matrix operation its name states (element-wise and scalar operations, reductions, selection, matrix-vector product, transpose) on all lists of matching shape, and every axiom the library supplies to the verifier about these operators is true of them for every index the axiom quantifies over.",
 ["inputs"], "all vectors, matrices, scalars and prefix lengths",
 "The library is data for external solvers; a false axiom proves wrong translations without failing a test.",
 ["metalift/utils/tenspiler/tenspiler_common.py", "metalift/utils/tenspiler/axioms.py", "metalift/utils/tenspiler/constants.py"],
 [("operator definitions", "metalift/utils/tenspiler/tenspiler_common.py"), ("operator axioms", "metalift/utils/tenspiler/axioms.py")])
prop("P15", "The LLVM block-splitting pass preserves behaviour",
 "For every LLVM function, the pass that inserts empty blocks yields a well-formed function with the same input/output behaviour in which every edge of a conditional branch goes through its own, initially empty block.",
 ["programs", "inputs"], "all control-flow graphs, including switches, self loops, multi-way joins and value merges",
 "The pass runs on a few structured examples only.",
 ["llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp"], [("block insertion and value-merge update", "llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp")])
prop("P16", "LLM-proposed Python is read with its Python meaning",
 "Whenever the reader of LLM-proposed solutions accepts a Python expression or function over the supported operators, the expression it builds computes the value Python computes; anything it cannot represent faithfully is rejected rather than misread. (`/` between integers is taken for integer division by design; division of negative numbers and run-time negative subscripts are left open by the intermediate language.)",
 ["programs", "inputs"], "all Python expressions and functions offered to the reader",
 "The reader sees arbitrary model output; stored examples cover a few shapes.",
 ["llmlift_scripts/parser.py", "llmlift_scripts/dsl.py"], [("AST to expression translation", "llmlift_scripts/parser.py mypy_parse"), ("conditional rewriting", "llmlift_scripts/utils.py replace_ite")])
prop("P17", "An LLM-proposed translation is accepted only when proved",
 "A proposed summary and invariants are reported as verified only when the configured verifier proved the conditions for exactly the accepted proposal; a refuted, unknown, timed-out or crashed verification is never reported as success, and the retry loop stays within its attempt limits.",
 ["histories", "fault_sequences"], "all sequences of model answers, parse outcomes and verifier outcomes",
 "Needs remote models and solvers; no test exercises failing verifiers.",
 ["llmlift_scripts/synthesis.py"], [("verdict computation", "llmlift_scripts/synthesis.py verify_benchmark_*"), ("retry loop", "llmlift_scripts/synthesis.py run_llm_synthesis_algorithm")])
prop("P18", "Bounded synthesis inputs cover exactly the intended domain",
 "The symbolic inputs emitted for bounded synthesis and bounded verification range over exactly the values of each declared variable's type within the configured bounds: every integer (of the configured bit width, or any integer when unbounded integers are asked for), both truth values, every list of every length up to the bound with every nested combination of lengths, every set of integers up to that size, every matrix with any number of rows up to the bound and rows of the bound's width, and every combination of tuple components. Every variable is declared exactly once and varies independently of the others, is quantified over where the program synthesises or verifies, and nothing else restricts it.",
 ["configurations", "inputs"], "all sets of typed variables and all bounds",
 "A missing corner of the domain lets wrong candidates through only for particular programs.",
 ["metalift/rosette_translator.py"], [("input generation", "metalift/rosette_translator.py generate_vars"), ("program assembly", "metalift/rosette_translator.py to_rosette")])
prop("P19", "Variable and object sets: exact set algebra and fresh names",
 "Every variable the analysis tracker gives out has the requested type and a name no other variable of that analysis has, for any sequence of plain names, groups and group variable names: a plain name is kept (asking again for the same name and type means the same variable, a conflicting request is an error), a group's variable gets a fresh name, and the tracker lists exactly the variables given out. The sets of symbolic objects used by the analysis contain exactly the structurally distinct objects put in, with addition, union, difference, membership and iteration as for mathematical sets and without changing their operands; wrapped objects and expressions count and compare structurally in Python sets.",
 ["histories"], "all sequences of tracker and set operations",
 "Collisions need particular name sequences.",
 ["metalift/analysis.py", "metalift/vc_util.py", "metalift/frontend/utils.py"], [("fresh variable names", "metalift/analysis.py VariableTracker"), ("object sets", "metalift/frontend/utils.py ObjectSet")])
prop("P20", "Construction accepts exactly well-typed operations and types them",
 "Building an expression from well-typed operands succeeds and yields the declared operation on those operands with the declared result type; building an arithmetic, order, Boolean, conditional, choice, element-insertion, concatenation or set operation, or a wrapper object, from operands of the wrong type or number raises an error instead of producing a term (comparisons by equality, calls, and list indices take any operand). In-place list operations update only the object they are called on, and operators written with plain Python integers or with operands in reversed position mean the same as with wrapped ones.",
 ["programs", "histories"], "all operators, operand-type combinations and sequences of in-place operations",
 "Only a few operator/type pairs are ever built by the tests.",
 ["metalift/ir.py"], [("operator overloads and factory functions", "metalift/ir.py Object classes"), ("constructor checks", "metalift/ir.py Expr classes")])
prop("P21", "The tensor library's search spaces hold every intended candidate",
 "The builders of search spaces for tensor programs give spaces that hold what they promise. A depth-bounded expression space holds every expression over the given variables, constants, operators and comparisons whose nesting is at most the bound (and, up to depth two, nothing else). The element-wise selection functions range over the pixel functions of both branch orders; a loop-bound space can be resolved to exactly the indices the loop visits, for each form of loop; index, bound and selection functions are declared, synthesised and called with the same parameters. The computation, selection and dissolve families contain, for every kernel of the family, an invariant that is inductive and a postcondition that is true of its result, and every function a candidate calls is defined in the target language or is searched for.",
 ["programs", "inputs"], "all depths, operand lists, operator sets, kernels of the three families and argument values",
 "A space that lost a candidate makes synthesis fail or take another program; the tests never run a synthesiser.",
 ["metalift/utils/tenspiler/tenspiler_common.py"],
 [("depth-bounded expressions", "metalift/utils/tenspiler/tenspiler_common.py get_int_expr_with_depth, get_matrix_or_vec_expr_eq_or_below_depth"), ("loop bounds", "metalift/utils/tenspiler/tenspiler_common.py get_matrix_computation_*_search_space, get_loop_fns"), ("families", "metalift/utils/tenspiler/tenspiler_common.py get_*_search_space")])
prop("P22", "Drivers hand over the stated problem and keep each function's answer",
 "For every history of analysing functions, calling them, adding helpers and synthesising: the driver asks for exactly the summary and invariants of each called function plus the added helpers, each with the grammar the user gave applied to its own variables (results and loop variables written, arguments read, variables in scope), over the union of the target languages given, with only summaries and invariants declared as predicates and all of them mentioned by the conditions. After a successful synthesis, the code generator receives for each function exactly the expression the answer states for its result (and the generated declaration has its arguments and type), also after later syntheses; a failed synthesis is reported, and code for a function without an answer is an error.",
 ["histories"], "all sequences of driver calls over any functions, names and answers",
 "The tests synthesise at most one function per driver.",
 ["metalift/frontend/python.py", "metalift/frontend/llvm.py"],
 [("problem assembly", "metalift/frontend/python.py Driver.synthesize, metalift/frontend/llvm.py Driver.synthesize"), ("answers and code", "metalift/frontend/python.py MetaliftFunc.codegen, metalift/frontend/llvm.py MetaliftFunc.codegen")])
prop("P23", "The query verified for an LLM proposal states exactly that proposal",
 "For every summary and invariants a language model proposes and the reader accepts, in every attempt of a session: the query given to the external verifier (SMT or Rosette) is well formed, defines the proposed functions, the functions given in place, the language functions they need and declares the benchmark's variables with their types, assumes only the axioms supplied (all those of functions the proposal uses), and asks for the benchmark's conditions with each predicate meaning what that proposal means in Python -- the summary that the output equals the proposed expression, each loop's invariant the one proposed for it; nothing of earlier attempts remains. An accepted proposal never makes the search end with an internal error instead of a query.",
 ["correctness", "soundness"], "every proposal the reader accepts, every history of refuted proposals, one or two loops, both verifiers",
 "The tests never run the search around a language model.",
 ["llmlift_scripts/synthesis.py", "llmlift_scripts/parser.py", "metalift/smt_util.py"],
 [("query assembly", "llmlift_scripts/synthesis.py verify_benchmark_smt, verify_benchmark_rosette"), ("predicates of a proposal", "llmlift_scripts/synthesis.py process_synthesized_fn_decls, replace_in_calls")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
