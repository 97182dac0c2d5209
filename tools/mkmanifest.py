"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TXT = "TLA+ reference semantics; TLC enumerates terms, the real library prints them, TLC evaluates the printed text against the semantics"
CHECKS = {
 # property: (command, technique, note)
 "P01": ("pyfront.py", "TLA+ cut-point machine of source programs; TLC generates programs and call scenarios, the real front end analyses their Python source, TLC compares the collected conditions with the program's obligations under meanings of the predicates derived from the obligations", "About 460 programs (thorough: several thousand) with nested branches and loops, early returns and one or two calls; values from small domains."),
 "P02": ("llvmfront.py", "TLA+ cut-point machine of source programs; TLC generates C++ programs, clang and the repository's pass compile them, the real LLVM front end analyses the result, TLC compares the collected conditions with the program's obligations under meanings of the predicates derived from the obligations", "About 620 programs (thorough: several thousand) over integers, functional lists and vectors with nested for/while/do loops, break, continue and early returns; values from small domains."),
 "P03": ("text.py P03", TXT, "Exhaustive over operator pairs plus TLC-simulated deeper terms; the SMT-LIB reader and semantics are the specification's own."),
 "P04": ("text.py P04", TXT, "As P03; the Rosette text runs on the shipped utils.rkt as interpreted by the specification (no Racket here)."),
 "P05": ("text.py P05", TXT, "As P03 for generated Python, parsed by CPython's own grammar."),
 "P06": ("exprops.py", "TLA+ reference semantics; TLC enumerates terms and substitutions, the real operations run on them, TLC decides value preservation", "Exhaustive over operator pairs (integer and Boolean skeletons for simplify) plus TLC-simulated deeper terms."),
 "P07": ("vceq.py", "TLC enumerates verification conditions and finite structures; the real optimisation loop of both synthesis entry points runs on each; TLC compares validity in every structure", "Every meaning of the predicates over a two-element domain (thorough: also three elements)."),
 "P08": ("grammar.py", "TLC generates functions to synthesise whose bodies hold shared and nested choices; the real writers emit them as SyGuS and Rosette grammars; TLC computes the resolutions of the declared body and the derivations of the emitted grammar and compares the sets of their values", "1500 generated grammars (thorough: 20000), nesting of choices up to depth four, values at fixed assignments."),
 "P09": ("readsol.py", "TLC generates terms and walks the printer machine that lays out solution files; the real synthesis loop reads each file back; TLC compares the meaning of the printed text with that of the function returned, and of its SMT text", "Exhaustive over operator pairs plus TLC-simulated deeper terms; file layouts (order, functions left out, line breaks, name prefixes, parameters renamed across types) from the printer machine; a stand-in for racket writes the file."),
 "P10": ("rosloop.py", "TLA+ machine of the guess-and-verify loop and its environment, checked with TLC for safety and termination; its behaviours are replayed into the real loop with in-process stand-ins for the solvers and judged by TLC", "The machine exhaustively with up to two (thorough: three) rounds; about 900 (thorough: 6000) replayed behaviours with synthesiser and verifier faults at chosen points of the loop."),
 "P11": ("cvcloop.py", "TLA+ machine of the loop and its environment, checked with TLC for safety and termination; its behaviours are replayed into the real loop and judged by TLC; TLC-generated candidates in CVC5's printed form are read by the real loop and compared in meaning", "The machine exhaustively for outputs of up to four (thorough: six) lines; about 1000 replayed outputs; a third of the operator pairs (thorough: all) as candidates."),
 "P12": ("query.py", "TLC draws verification problems (call graphs, functions taking functions, candidates, axioms); the real assembler writes the query; a TLA+ reader executes it command by command and compares its assertions with the problem", "300 problems (thorough: 3000) over three first-order functions or up to nine functions with function parameters; six assignments each."),
 "P13": ("theory.py", "TLA+ standard model of lists, matrices, tuples, sets, maps and integer functions; TLC evaluates every shipped axiom, definition and runtime function against it, and checks that the axioms determine the declared functions", "Lists up to length three over three values, matrices up to 3x3, indices -1..4 (thorough: larger)."),
 "P14": ("tensor.py", "TLA+ model of the vector and matrix operations; TLC evaluates the definitions the three real back ends print for every shipped operator, and every shipped axiom, against it", "Lists up to length three, matrices up to 3x3, all shapes; indices -1..4 (thorough: larger)."),
 "P15": ("blocks.py", "TLC generates control-flow graphs in SSA form; the real pass transforms them; TLC executes both graphs on all inputs of a small domain and judges well-formedness and the shape of every split edge", "Seeded generation of CFGs with joins, merges of values, equal targets, switches, self loops; inputs from a small domain."),
 "P16": ("pyread.py", "TLC generates typed Python proposals (functions, lambdas, keyword calls, slices, recursion, statements); the real reader reads them through the model client; TLC evaluates the Python syntax tree and the expression read under every assignment and compares", "1000 random proposals (thorough: 8000) over a library of 15 functions, six assignments each."),
 "P17": ("llmloop.py", "TLA+ machine of the attempt loop with the model's and verifier's answers as environment, checked with TLC for safety and termination; its behaviours are replayed into the real loop with scripted models and verifiers and judged by TLC", "The machine exhaustively for two attempts of each kind; about 3800 replayed behaviours with up to three."),
 "P18": ("domain.py", "TLA+ definition of the bounded domain of each type; TLC interprets the Rosette text the real generator declares for a variable over all values of its symbolic constants and compares the set of values with the domain", "All types, list bounds and integer bounds of 309 configurations."),
 "P19": ("varsets.py", "TLC enumerates histories of name requests and of object-set operations; the real tracker and sets replay them; TLC judges every step", "All request histories up to length three over colliding names plus simulated longer ones (thorough: four)."),
 "P21": ("space.py", "The real builders' search spaces are exported as graphs; TLC computes the set of value vectors each denotes and compares it with the specification's set of candidates, pixel functions, loop bounds and valid invariants of a TLA+ kernel machine", "Exact sets to nesting two, sampled terms at three and four; six kernels in both loop orders on up to five inputs."),
 "P20": ("construct.py", "TLC enumerates operations x operand types and in-place histories; the real constructors run on each; TLC compares acceptance, built term and type with the specification", "Exhaustive over operand types up to arity three (operands are leaves)."),
 "P23": ("llmquery.py", "TLC generates sessions of typed Python proposals (summaries, invariants, refinements); the real search with the real reader runs them and its queries are captured; a TLA+ reader executes each SMT query command by command (Rosette queries through the TLA+ Rosette semantics) and compares it with the conditions under the proposal's Python meaning", "180 sessions (thorough: 1200) with up to two queries each, one or two loops, three shapes of conditions, six assignments."),
 "P22": ("driver.py", "A TLA+ machine of the driver (model checked) generates histories of API calls; they are replayed on the real Python and LLVM drivers with a scripted synthesiser; TLC judges the problem handed over, the code generated and the errors at every step", "Seeded histories of up to 34 steps over six functions per front end, among them names that resemble generated ones."),
}
PROPS = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TODO = "Not claimed yet: its specification and conformance check are under construction."
REASONS = {}
m = {"version": 1, "setup_cmd": "python3 checks/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 checks/" + CHECKS[p][0], "thorough_cmd": "VERIF_TIER=thorough python3 checks/" + CHECKS[p][0],
                 "technique": CHECKS[p][1], "level": "model_checking", "level_note": CHECKS[p][2]} for p in PROPS if p in CHECKS],
     "not_applicable": [{"property": p, "reason": REASONS.get(p, TODO)} for p in PROPS if p not in CHECKS],
     "notes": "Specifications in spec/ (TLA+, checked with TLC); harness/ replays generated behaviours into the code of /repo under PyPy."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
