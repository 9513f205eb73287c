#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.dont_write_bytecode = True
import props

TV = "TLA+ (TLC) trace validation of the real code"
PROPS = []
def P(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   observe_at=list(observe), hook_needed=None), technique=technique, note=note))
CC = "circuitcompiler/"
P("C01", "The constraint system has exactly the program's meaning",
  "For every well-formed program and every input vector, the generated constraint system is satisfiable with these inputs exactly if all equalities the program asserts hold and it divides no non-zero number by zero; the remaining wires are then determined (except for the bit forms of a split number). Programs whose evaluation has a meaning are compiled, not refused.",
  ["programs", "inputs"], "all programs of the language (arithmetic, variables, arrays, functions, conditionals, loops, equality assertions), all input vectors of field elements",
  "The tests compile a dozen programs and run the solver on the inputs they list; that no other assignment satisfies the constraints is never looked at.",
  [CC + "Programm.go", CC + "circuit.go", CC + "factorHandling.go", CC + "gate.go"],
  [("expression to gates", CC + "Programm.go: compile"), ("factor arithmetic", CC + "factorHandling.go"), ("gates to rows", CC + "Programm.go: GatesToR1CS, GatesToSparseR1CS")],
  TV + " against a big-step semantics, with all satisfying assignments enumerated over small fields",
  "Over fields of 5 and 7 elements TLC enumerates every assignment of every input vector of each program; over the real field the solver's witness is judged. Programs are sampled, not enumerated, except for those of the exhaustive tiny-program model.",
  ["constraint matrices", "witness vector"])
P("C02", "Conditionals and loops follow the static control flow",
  "Of an if/else-if/else chain exactly the first branch whose condition holds is executed (the else branch if none does, nothing if there is none), a loop runs its body and then its increment while its condition holds, and a return leaves the enclosing function at once from any nesting depth. Assertions in code which is not executed impose nothing, assignments in executed blocks are visible afterwards, names declared in a block are not.",
  ["programs", "inputs"], "all nestings of conditionals, loops, returns and assignments whose conditions are constant expressions",
  "The tests contain a handful of loops and conditionals, each with one shape and few inputs.",
  [CC + "Programm.go", CC + "circuit.go", CC + "parser.go"],
  [("splitting of chains", CC + "circuit.go: preCompile"), ("static conditions", CC + "circuit.go: checkStaticCondition"), ("loop execution", CC + "Programm.go: compile")],
  TV + " against a big-step semantics", "Sampled programs biased to control flow, judged on all input vectors over F7 and on chosen vectors over the real field.")
P("C03", "Functions, closures, partial application, arrays and scopes",
  "A call evaluates its arguments in the caller's scope and binds them by value; inner names shadow outer ones, functions see later assignments to the variables they capture, functions can be passed as arguments and recurse, and applying a function to some of its arguments yields a function of the others which keeps those bound. Array elements, whatever expression of constants addresses them, behave as separate variables.",
  ["programs", "inputs"], "all programs made of (nested, higher-order, recursive, partially applied) functions, shadowed names and arrays",
  "The tests contain few higher-order programs; the combinations of capture, shadowing and partial application are unbounded.",
  [CC + "Programm.go", CC + "circuit.go"],
  [("argument binding", CC + "Programm.go: getsLoadedWith, setFunctionInputs"), ("copy of a function per call", CC + "circuit.go: flatCopy"), ("scope lookup", CC + "circuit.go: findFunctionInBloodline"), ("array names", CC + "Programm.go: resolveArrayName")],
  TV + " against a big-step semantics", "Sampled programs biased to functions, judged on all input vectors over F7 and on chosen vectors over the real field.")
P("C04", "Repeated and commuted products share one constraint, distinct ones do not",
  "Multiplying the same two factors again - in either order, in another function, scaled by integer constants - adds no further product constraint, and neither does the same quotient; operations which differ in an operand or in kind are never merged. A product with a constant, a sum or a difference costs no multiplication constraint of its own.",
  ["programs"], "all programs which repeat products and quotients in different spellings and scopes",
  "The tests compare gate counts of a few programs; merging too much or too little shows only in particular combinations.",
  [CC + "Programm.go", CC + "factorHandling.go", CC + "gate.go"],
  [("gate identity", CC + "gate.go: ID"), ("constant extraction", CC + "factorHandling.go: extractConstant"), ("gate reuse", CC + "Programm.go: gateContainer.Add")],
  TV + ": structural judgement of the emitted rows plus the semantics", "Rows are compared structurally: two product rows with the same factors (up to order and integer content) or two equal quotient rows are an alarm; the number of product rows of directed programs is compared with the number of distinct products in the specification.")
P("C05", "Compilation depends on the source text only",
  "Compiling a source text yields the same constraint system, inputs and verdict (accepted or refused) every time: in a fresh process, after any history of other compilations, solver runs and failures, and while other programs are compiled concurrently.",
  ["histories", "schedules", "programs"], "all histories of compilations and witness computations, sequential and concurrent, in one process",
  "The tests compile each program once per process.",
  [CC + "Programm.go", CC + "parser.go", CC + "circuit.go", CC + "lexer.go"],
  [("ordering of gates independent of map order", CC + "Programm.go: Execute"), ("no package state", CC + "factorHandling.go")],
  TV + ": a history machine that fixes the first result per source", "Random histories over a pool of programs; concurrency with the schedules the Go runtime produces.")
P("C06", "Wire layout and public inputs",
  "Wire 0 is the constant one, followed by the declared public inputs in declaration order, then the remaining inputs in parameter order (array parameters expanded row by row); the number of public wires is the number of public inputs plus one, and every witness carries the given values, reduced into the field, on these wires. Giving too few, too many or unknown inputs, an input twice, a value for a wire that is no input, or declaring an input public twice is an error.",
  ["programs", "configurations", "inputs"], "all parameter lists (with arrays of any dimension) and all public declarations",
  "The tests declare public inputs in one or two programs and never compare positions.",
  [CC + "Programm.go", CC + "ER1CS.go", CC + "parser.go"],
  [("wire indices", CC + "Programm.go: GatesToR1CS"), ("array parameters", CC + "parser.go: ArrayStringBuild"), ("input combination", CC + "Programm.go: CombineInputs")],
  TV, "Sampled parameter lists and public declarations.")
P("C07", "The witness solver is sound and complete",
  "Whenever the witness computation succeeds, the vector it returns is a vector of reduced field elements which satisfies every constraint and carries the given inputs; whenever the constraints of a compiled program can be satisfied with the given inputs (zero divided by zero aside), it succeeds. Otherwise it reports an error.",
  ["programs", "inputs"], "all compiled programs, all input vectors, including zeros, values beyond the field order and inputs which violate the program",
  "The tests check the solver's result for a few good inputs; the inputs a program does not accept are hardly tried.",
  [CC + "ER1CS.go"],
  [("row by row solving", CC + "ER1CS.go: CalculateWitness, CalculateSparseWitness")],
  TV + " against the set of all satisfying assignments", "Exact over F5 and F7; over the real field soundness is exact per run, completeness is judged by the program's meaning.")
P("C08", "Dense and sparse compilation and solving agree",
  "The dense and the sparse constraint system of a program have the same rows, number of gates and witness length, and the two witness computations accept the same inputs and return the same vector; transposing and interpolating them yields the same polynomials.",
  ["programs", "inputs"], "all programs, all inputs",
  "The tests run both forms on a few programs but do not compare the matrices.",
  [CC + "Programm.go", CC + "ER1CS.go", "utils/sparsePolynomial.go"],
  [("two translations of gates", CC + "Programm.go: GatesToR1CS, GatesToSparseR1CS"), ("two solvers", CC + "ER1CS.go"), ("transposition", CC + "ER1CS.go: Transpose, TransposeSparse")],
  TV, "Every emitted cell and every witness entry is compared in the specification.")
P("C09", "Splitting a number yields its bits and nothing else",
  "Splitting a value introduces one wire per bit of the field order which the constraints force to be 0 or 1 and whose weighted sum is the value (modulo the field order); splitting accepts every field element, changes no verdict, and the bits the solver fills in are the binary digits of the value.",
  ["programs", "inputs"], "all field elements, all programs that split values",
  "The tests split one value; a missing or wrong bit constraint goes unnoticed with an honest solver.",
  [CC + "Programm.go", CC + "ER1CS.go"],
  [("bit gates", CC + "Programm.go: SPLIT"), ("bit extraction", CC + "ER1CS.go: CalculateWitness")],
  TV + " with all satisfying assignments enumerated over small fields", "Exact over small fields (number of solutions = number of bit forms); over the real field the witness is judged.")
P("C10", "Group exponentiation gates compute the abscissa of e*G",
  "A base scalar multiplication in a program yields the first coordinate of e times the generator of the first group, reduced into the scalar field, for every field element e (the constraint refuses every other value), and it composes with arithmetic, functions and repeated use.",
  ["programs", "inputs"], "all exponents, all programs which combine exponentiation with the rest of the language",
  "The tests check two exponents.",
  [CC + "Programm.go", CC + "ER1CS.go", "pairing/bn256.go"],
  [("exponentiation gate", CC + "Programm.go: scalarBaseMultiply"), ("E column", CC + "ER1CS.go")],
  TV + " with curve arithmetic in TLA+", "The curve arithmetic of the specification is an independent affine implementation over TLC with big-number overrides.")
P("C11", "Expressions are read by the usual grammar, layout does not matter",
  "An expression of numbers, names, calls, array elements and brackets with + - * / is read with * and / binding stronger than + and -, operators of the same strength associating to the left, and brackets overriding; redundant brackets, blanks, tabs, comments and empty lines between statements change nothing.",
  ["programs"], "all token strings up to the bound (enumerated) and random longer ones; all layouts",
  "The tests parse a few expressions.",
  [CC + "parser.go", CC + "lexer.go"],
  [("operator splitting", CC + "parser.go: splitAtFirstHighestTokenType, operatorPrecedence"), ("lexer states", CC + "lexer.go")],
  "TLA+ (TLC) model of the grammar: its enumerated token strings are replayed into the real parser", "Exhaustive for token strings up to the bound, sampled beyond.")
P("C12", "Ill-formed programs are refused, and the compiler always terminates",
  "Compiling any source text terminates, unless the text is a program that loops or recurses without end while it is evaluated. A text that is no program (illegal characters, brackets that do not match, missing or surplus operands, statements outside of functions, no main) is refused, and so is a program that has no meaning: wherever it is executed, it uses a name that is not declared, gives a function too many arguments or something that is no number, lets a condition or an array index depend on the inputs, or divides by the constant zero; and anywhere, it declares a name twice in a block, or public inputs outside of main or twice. Refusal is an error the caller can handle. No such text is ever compiled into a constraint system, and what is accepted means what it says.",
  ["programs"], "all source texts: systematic mutations of well-formed programs and random text",
  "The tests contain a couple of erroneous sources.",
  [CC + "lexer.go", CC + "parser.go", CC + "circuit.go", CC + "Programm.go"],
  [("lexer errors", CC + "lexer.go: Error"), ("syntax errors", CC + "parser.go: error"), ("semantic checks", CC + "circuit.go: contextCheck, preCompile")],
  TV + " against the semantics of ill-formed programs", "Sampled mutations and texts; a hang is reported after a generous time limit in a fresh process.")
P("C13", "Interpolated polynomials represent the constraint system",
  "The polynomials made from a constraint system take, at the point of each gate, the value of the corresponding matrix entry and have lower degree than there are gates; combined with a vector that satisfies the system, left times right minus output is divisible by the domain polynomial, and with a vector that violates some row it is not.",
  ["programs", "inputs"], "all constraint systems, all assignments, satisfying or not, in dense and sparse form",
  "The tests multiply back the division for satisfying assignments of a few programs.",
  [CC + "ER1CS.go", "utils/polynomialField.go", "utils/sparsePolynomial.go", "zkSNARK/wol19.go"],
  [("interpolation", CC + "ER1CS.go: ER1CSToEAP, ER1CSToEAPSparse"), ("combination", "zkSNARK/wol19.go: CombinePolynomials2, CombineSparsePolynomials")],
  TV + " with polynomial arithmetic in TLA+", "Sampled systems; values at every gate point are compared.")
P("C14", "The proving key has the structure the scheme prescribes",
  "Every element a trusted setup publishes is in the prescribed linear and pairing relation to the others: powers of the secret point, per-wire combinations of the interpolated columns, domain multiples, public and private parts divided by their own toxic value; the secrets behind it are non-zero and different from each other, and two setups - also concurrent ones - share none of them.",
  ["configurations", "programs"], "all constraint systems, dense and sparse setup, all random choices",
  "The tests only see that some proof verifies.",
  ["zkSNARK/wol19.go"],
  [("dense setup", "zkSNARK/wol19.go: GenerateTrustedSetup"), ("sparse setup", "zkSNARK/wol19.go: GenerateTrustedSetupSparse")],
  TV + " with curve arithmetic and the pairing defined in TLA+", "Linear relations are recomputed on the curve by TLC, quadratic ones with the pairing of the specification (not the code's), many at once under fixed coefficients. Sampled systems.")
P("C15", "Honest proofs verify",
  "For every program without group exponentiation, and every input vector that satisfies it, the proof made with the dense or the sparse prover from the solver's witness verifies against the program's public inputs under the key it was made with, every time, however many proofs and keys were made before.",
  ["programs", "inputs", "histories"], "all programs with a private wire, all satisfying inputs, all splits into public and private inputs",
  "The tests prove a few programs, most of them with one set of public inputs.",
  ["zkSNARK/wol19.go", CC + "ER1CS.go"],
  [("provers", "zkSNARK/wol19.go: GenerateProofs, GenerateProof_Sparse"), ("verifier", "zkSNARK/wol19.go: VerifyProof")],
  "TLA+ (TLC) protocol model; its behaviours are replayed into the real prover and verifier", "Sampled programs and inputs.")
P("C16", "The verifier accepts nothing else",
  "The verifier accepts exactly what satisfies the verification equation: it refuses a proof if a public signal that occurs in the constraints differs in the field, if signals are missing or extra, if a proof element is exchanged, negated, shifted or taken from a proof of another statement, or under a key of another setup, unless the change is one the equation admits (as exchanging equal elements); it always answers.",
  ["inputs", "histories"], "all proofs, all modifications of signals, proof elements and keys",
  "The tests contain one or two negative cases.",
  ["zkSNARK/wol19.go", "pairing/bn256.go"],
  [("verification equation", "zkSNARK/wol19.go: VerifyProof")],
  "TLA+ (TLC) protocol model; its behaviours are replayed into the real prover and verifier", "The algebraic model of the scheme (generic group) decides which forgeries must fail; sampled on real proofs.")
P("C17", "The prover refuses vectors which are no witness",
  "Given a vector that violates some constraint, or has the wrong length (missing trailing zeros aside), the prover refuses or its proof does not verify - also when the vector differs from a witness in one wire or violates one row only, and also against the public signals of another, valid statement.",
  ["inputs", "programs"], "all constraint systems, all non-witness vectors",
  "The tests only prove honest witnesses.",
  ["zkSNARK/wol19.go"],
  [("divisibility test of the provers", "zkSNARK/wol19.go: GenerateProofs, GenerateProof_Sparse")],
  "TLA+ (TLC) protocol model; its behaviours are replayed into the real prover and verifier", "Sampled corruptions of real witnesses; whether the vector is a witness is decided by the R1CS specification.")
P("C18", "The sparse vector is a finite map in a balanced search tree",
  "Any sequence of insertions, accumulating puts, removals and clones leaves exactly the entries of a finite map from index to value: lookups, membership, size, smallest and largest key, ordered enumeration in both directions and conversion to and from arrays agree with it, keys stay ordered and subtree heights differ by at most one.",
  ["histories"], "all operation sequences",
  "The tests insert and remove a few random keys without comparing the whole structure.",
  ["utils/avl.go", "utils/sparsePolynomial.go"],
  [("rebalancing", "utils/avl.go: balance, rotate_left, rotate_right"), ("removal", "utils/avl.go: Remove, pop_node, push_node")],
  "TLA+ (TLC) model of the tree; exhaustive operation graph replayed into the real tree, plus validation of long random traces", "Exhaustive over small key sets, sampled beyond.")
P("C19", "Polynomial arithmetic is the polynomial ring, dense or sparse",
  "Addition, subtraction, multiplication, scalar multiplication, linear combination, evaluation, interpolation, domain polynomials, transposition and conversion of coefficient vectors and of sparse vectors compute the operations of the ring of polynomials over the field, whatever the lengths, zeros, leading zeros and supports.",
  ["inputs"], "all polynomials, both representations",
  "The tests compare a few examples and one random case.",
  ["utils/polynomialField.go", "utils/sparsePolynomial.go", "utils/finiteField.go"],
  [("dense operations", "utils/polynomialField.go"), ("sparse operations", "utils/sparsePolynomial.go")],
  TV + ": register machine over dense and sparse polynomials", "Sampled operation sequences over small and real fields; every register is compared after every step.")
P("C20", "Polynomial division satisfies its defining identity",
  "Dividing a polynomial by a non-zero polynomial yields quotient and remainder with dividend = quotient * divisor + remainder and a remainder that is zero or of lower degree than the divisor, in dense and in sparse form, and both forms agree; it terminates on every input and dividing by zero is refused.",
  ["inputs"], "all dividends and divisors: zero, constant, of higher degree, with leading zeros",
  "The tests divide polynomials that divide evenly.",
  ["utils/polynomialField.go", "utils/sparsePolynomial.go"],
  [("dense division", "utils/polynomialField.go: Div"), ("sparse division", "utils/sparsePolynomial.go: DivideSparse")],
  TV + " against the division identity; exhaustive over F3 up to a degree bound", "Exhaustive for small fields and degrees, sampled beyond.")
P("C21", "Field arithmetic is arithmetic modulo the prime",
  "All field operations return the canonical representative of the mathematical result for all operands, also unreduced or negative ones; inversion and division are exact for every non-zero operand, exponentiation holds for every integer exponent, and sums of products and evaluation of polynomials agree with it.",
  ["inputs"], "all operands, several prime orders",
  "The tests use a handful of constants.",
  ["utils/finiteField.go"],
  [("modular operations", "utils/finiteField.go")],
  TV + " with big-number arithmetic; exhaustive over small primes", "Exhaustive over small fields including unreduced operands; edge and random values over the real orders.")
P("C22", "Concurrent enumeration of a sparse vector is consistent",
  "Any number of concurrent enumerations, lookups and arithmetic reads of the same unmodified sparse vector each see exactly its entries in key order, in every interleaving, also when several enumerations are abandoned half-way or interleaved by one reader.",
  ["schedules"], "all interleavings of several enumerations and reads over one vector",
  "The tests enumerate one vector at a time.",
  ["utils/avl.go", "utils/sparsePolynomial.go"],
  [("enumeration through channels", "utils/avl.go: ChannelNodes")],
  "TLA+ (TLC) model of concurrent iterators; its schedules are replayed into the real code, race detector on", "Exhaustive schedules over small vectors in the model; the replay fixes the order in which the readers receive.")
P("C23", "Operations leave their operands alone",
  "Compilation, witness computation, setup, proving, verification and all polynomial, sparse vector, field and group operations that return a new value leave their arguments with the values they had, and a result does not change when an operand is modified later through the operations of its type or by assigning one of its slots (the numbers inside vectors and maps are themselves immutable values; in-place operations change their receiver only).",
  ["histories", "inputs"], "all operation sequences in which values are reused after having been operands",
  "The tests use each value once.",
  ["utils/polynomialField.go", "utils/sparsePolynomial.go", "utils/finiteField.go", "utils/avl.go", CC + "ER1CS.go", "zkSNARK/wol19.go", "pairing/bn256.go"],
  [("fresh results", "utils/finiteField.go: Add, Mul, ..."), ("clones", "utils/sparsePolynomial.go: Clone")],
  TV + ": register machines that log every register after every operation", "Sampled operation sequences; every live value is compared with the specification's after every step.")
P("C24", "Group operations implement the groups, also in place",
  "Addition, negation, doubling and scalar multiplication in both source groups and the target group obey the group laws for all elements including the neutral one and for all integer scalars (negative, zero, beyond the order), and give the same result when the receiver is also an operand.",
  ["inputs", "histories"], "all group elements, all scalars, all aliasing patterns, sequences of operations",
  "The tests cover a few random scalars and no aliasing.",
  ["pairing/bn256.go", "pairing/curve.go", "pairing/twist.go", "pairing/gfp2.go", "pairing/gfp6.go", "pairing/gfp12.go"],
  [("Jacobian arithmetic", "pairing/curve.go, pairing/twist.go"), ("tower arithmetic", "pairing/gfp12.go")],
  TV + ": register machine with affine curve arithmetic in TLA+", "All programs of two operations (sampled in the quick tier) over three registers with every aliasing, and random longer ones; elements are recomputed by TLC from coordinates in all three groups.")
P("C25", "The pairing is bilinear and non-degenerate",
  "Pairing a*G1 with b*G2 yields the (a*b)-th power of the pairing of the generators for all integers a, b, it is one exactly if a or b is zero modulo the order, and the product check of several pairs answers whether the sum of the products of the scalars is zero - for every number and order of the pairs, with neutral elements among them.",
  ["inputs"], "all scalars, all lists of pairs",
  "The tests try a few random scalars and one product.",
  ["pairing/optate.go", "pairing/bn256.go", "pairing/gfp12.go"],
  [("Miller loop and final exponentiation", "pairing/optate.go"), ("product check", "pairing/bn256.go: PairingCheck")],
  TV + ": register machine on exponents, target group recomputed in TLA+", "Sampled scalars and decoded points; TLC recomputes the pairing from its definition (Miller loop over affine points, full final power) and powers of it in the tower field.")
P("C26", "Encodings are canonical and decoding rejects what is no element",
  "Encoding any group element and decoding the bytes gives the element back, equal elements have equal encodings however they were computed, encodings are the coordinates the curve prescribes, and decoding refuses input of the wrong length, coordinates beyond the field order and, in the source groups, points off the curve or outside the subgroup.",
  ["inputs"], "all elements of the three groups, all byte strings",
  "The tests encode one element per group.",
  ["pairing/bn256.go", "pairing/curve.go", "pairing/twist.go"],
  [("encoding", "pairing/bn256.go: Marshal"), ("decoding", "pairing/bn256.go: Unmarshal")],
  TV + " with curve equations in TLA+", "Sampled elements and systematic corruptions of encodings.")

P("C27", "A blinding gate leaves the program as it is",
  "Compiled with randomisation, a program has the same constraints, on the same wires, as without, and one more gate on two more wires which no other constraint knows; the witness computations accept the same inputs, put the same values on the other wires, and draw the value of the blinding wire afresh from the whole field for every witness, such that the blinding gate is satisfied.",
  ["programs", "inputs", "histories"], "all programs, all inputs, both forms, any number of witnesses",
  "No reliable test compiles with randomisation.",
  [CC + "Programm.go", CC + "ER1CS.go", "utils/finiteField.go"],
  [("blinding gate", CC + "Programm.go: GatesToR1CS, GatesToSparseR1CS"), ("random wire", CC + "ER1CS.go: CalculateWitness"), ("random element", "utils/finiteField.go: Rand")],
  TV + ": the blinded system is stripped by the specification and judged as the plain one", "Sampled programs; freshness is judged by the values of the witnesses of one program.")

P("C28", "Secrets are drawn afresh, from the whole field",
  "Every secret of a setup, every blinding value of a witness and every random element of the field or of a group is a new one: it neither repeats, nor lies near, nor is near the negative of one drawn before, in the same setup or an earlier one, in this form or the other, also when they are drawn at the same time; taken together they take every binary digit, in a small field every value; the published elements are those of the secrets; what is drawn from a given source of bytes is the first non-zero number below the order it yields, and an error if it yields none.",
  ["histories", "schedules"], "all histories and schedules of setups, witnesses and draws; all sources of bytes",
  "Tests look at no two setups, and a bias or a reuse shows in no single one.",
  ["zkSNARK/wol19.go", "utils/finiteField.go", CC + "ER1CS.go", "pairing/bn256.go"],
  [("secrets of a setup", "zkSNARK/wol19.go: GenerateTrustedSetup, GenerateTrustedSetupSparse"), ("random element", "utils/finiteField.go: Rand"), ("random wire", CC + "ER1CS.go: CalculateWitness"), ("random group element", "pairing/bn256.go: RandomG1, RandomG2")],
  TV, "Sampled histories. Freshness is observed, not unpredictability: a deterministic generator that never repeats would pass.")

P("C29", "An imported file stands in the place of its import",
  "Where a statement of a program is the import of a file, at any depth of blocks and functions and at any depth of imports, the program means what it means with the statements of the file in that place; an import of a file that does not exist, that is no part of a program, or that takes part in its own import is refused.",
  ["programs", "sets of files"], "all programs and sets of files they import",
  "No test has an import.",
  [CC + "parser.go", CC + "lexer.go"],
  [("import statement", CC + "parser.go: statementMode"), ("quoted names", CC + "lexer.go")],
  TV + ": the specification splices the tokens of the files, parses and evaluates", "Sampled programs, cut into files at random places. Files whose brackets do not match, and unquoted names, are left open.")

SUB = os.environ.get("ONLY", "")
def main():
    with open(V + "/properties.jsonl", "w") as h:
        for p in PROPS:
            h.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks = [dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                   thorough_cmd="python3 run.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                   technique=p["technique"], level=props.CHECKS[p["id"]].level, level_note=p["note"])
              for p in PROPS if p["id"] in props.CHECKS]
    na = [dict(property=p["id"], reason="the machinery for this property is not built yet") for p in PROPS if p["id"] not in props.CHECKS]
    m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
             notes="TLA+ checked with TLC; no hooks in /repo, the machinery drives the exported API. See DESIGN.md.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    for p in PROPS: assert len(p["title"]) <= 80, p["id"]
main()
