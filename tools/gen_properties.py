"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable as text)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=list(observe), hook_needed=hook)))
I="src/simpy/integration.py"; X="src/simpy/expr.py"; T="src/simpy/transforms.py"; R="src/simpy/regex.py"; U="src/simpy/utils.py"
L="src/simpy/debug/logger.py"; TR="src/simpy/debug/tree.py"; SM="src/simpy/simplify/simplify.py"; PTS="src/simpy/simplify/product_to_sum.py"
TB="src/simpy/integral_table.py"

prop("C01","A deadline can withhold an integral but never change it",
 "For every integrand and every behaviour of the clock during the call (running fast, stalling, jumping at any instant), indefinite and definite integration return either exactly the answer that the same search gives when it is never short of time, or None. The time limit never makes the call return a partial, unsimplified or different answer, and never makes it raise. When the clock shows that less than the limit (two seconds by default) has elapsed, the answer is not withheld.",
 ["schedules","inputs","fault_sequences"],
 "all integrands and integration options; all monotone readings of the clock, including jumps of any size at any read, and wall-clock steps in both directions",
 "The tests run on one idle machine where the clock never expires mid-search for the integrals they try; no test makes time pass between two search steps, so every exit through the deadline is unexercised.",
 [I,T],[("deadline check in the search loop",I+": Integration.integrate"),("solution assembly after the loop",I+": Integration._go_backwards")],
 [("search tree","AND/OR tree of sub-integrals with their status",T+": Node")],["return value of integrate()"])
prop("C02","Integration gives up promptly once its time budget is spent",
 "Whatever integral is requested, once the clock shows that the time budget (two seconds by default) has elapsed since the search began, the search ends after at most the step in progress and the call returns. Setting the computer's wall clock backwards or forwards during the call neither prolongs nor shortens the budget. A failing integral therefore costs a bounded amount of further work, however large the search tree is.",
 ["schedules","inputs","fault_sequences"],
 "all integrands, in particular those whose search never exhausts; the budget running out at any search step; wall-clock steps of any size and sign at any instant",
 "A test cannot make the clock jump mid-search, and the endless integrands that need the budget are avoided by the suite because each costs two real seconds.",
 [I],[("deadline check once per search cycle",I+": Integration.integrate"),("choice of the next node",I+": Integration._get_next_node_post_heuristic_depth_first")],
 [],["amount of work executed after the budget is spent","return of integrate()"])
prop("C03","A failed integration is reported truthfully",
 "Whenever integration returns None it issues exactly one warning that names the integrand and the variable, and whenever it returns an answer it issues no such warning. The warning says the search timed out if and only if possibilities were left untried when the time budget ran out; a search that tried everything is never reported as timed out, and a search that was cut short is never reported as exhausted.",
 ["schedules","inputs"],
 "all integrands (solvable, unsolvable, endless) and all instants at which the time budget may run out relative to the progress of the search, including the very last step",
 "The suite has one integral that fails, only at one speed, and does not look at the warning.",
 [I],[("outcome message",I+": Integration.integrate")],[("node status","solved / failed / unfinished",T+": Node")],["warnings issued by integrate()"])
prop("C04","Answers do not depend on random names, hash seeds or the process",
 "Integration, simplification, differentiation, printing and pattern queries give the same result for the same input whatever the state of the process-wide random generator (including a generator reset to the same seed before every call) and whatever order sets iterate in, in every process. No internally generated name ever appears in a result: an answer mentions only symbols that occur in the input, for any choice of the user's symbol names.",
 ["schedules","inputs","configurations"],
 "all random generator states at import and during calls, all set iteration orders (hash seeds), all user symbol names, all inputs",
 "The suite sees one hash seed and one arbitrary random state per run, and on the interpreter used here sets are insertion-ordered, so order dependence cannot show at all.",
 [U,T,R,X],[("random substitution names",U+": random_id; "+T+": generate_intermediate_var"),("random pattern keys",R+": Any_, Eq"),("set-based symbol collection",X+": Expr._symbols; "+R+": get_anys"),("canonical ordering of terms",X+": Associative._sort_terms")],
 [],["printed and structural form of results"])
prop("C05","Every integral returned is an antiderivative, in any exploration order",
 "Whenever integration returns an answer, differentiating that answer numerically reproduces the integrand wherever both are defined, and a definite answer equals the numerical value of the integral when the integrand is continuous on the interval. This holds for every order in which the search may explore its alternatives: depth first or breadth first, any complexity threshold for switching between them, any choice among open sub-problems, any subset and order of the heuristics, and any timing.",
 ["schedules","inputs","configurations"],
 "all integrands in the supported families (polynomials, rational functions, trigonometric, exponential and logarithmic functions and products of them, with symbolic parameters) and all exploration schedules of the search",
 "Tests compare ~90 integrals along the single default exploration path; alternatives that the default order never reaches are never executed to a solution.",
 [I,T,TB,SM,PTS,"src/simpy/polynomial.py","src/simpy/linalg.py"],[("heuristic and safe transforms with forward/backward steps",T),("assembly of the solution",I+": Integration._go_backwards"),("integral table",TB)],
 [("search tree","AND/OR tree",T+": Node")],["return value of integrate()"])
prop("C06","Threads sharing expressions get the same results as one thread",
 "When several threads expand, simplify, differentiate, substitute into, print, compare, factor or combine the same expression objects at the same time, every call returns what it would return if it ran alone, and none fails. Afterwards the shared expressions still behave as freshly built ones.",
 ["schedules","inputs"],
 "all interleavings of the threads at the granularity at which the interpreter can switch (between any two operations inside the library), all shared expressions whose cached facts are cold, warm or partly computed",
 "The suite is single-threaded; races on lazily filled caches have windows of one or two bytecodes.",
 [X,R,SM],[("lazily cached facts stored on expressions",X+": nesting, expand, expandable, symbols, remove_const_factor, numerator_denominator, _deconstruct_prod, deconstruct_power"),("pattern cache",R+": get_anys"),("per-class special values",X+": TrigFunction.special_values"),("rule that expressions are never mutated",X+": module docstring")],
 [("per-expression caches","derived facts memoised on shared immutable objects",X)],["results and exceptions in each thread"])
prop("C07","Concurrent integrations do not influence each other",
 "Integrations running at the same time in different threads, whether of the same expression objects or of different ones and with their own options, each return exactly what they return when run alone, with their own warning if they fail. The same holds for integrations run one after another in one process in any order.",
 ["schedules","histories","inputs"],
 "all interleavings of two or more searches at any instant, including inside transforms and while solutions are assembled, and all sequences of earlier integrations (successful, failed, timed out)",
 "No test runs two integrations at once, and each test process runs one fixed order.",
 [I,T,R],[("per-search tree and per-step transform objects",T+": Node, Transform subclasses"),("search driver",I+": Integration"),("pattern matcher state",R+": Eq")],
 [("transform state","facts a transform found in check() and uses in forward()/backward()",T)],["return values, exceptions and warnings of integrate()"])
prop("C08","An interrupted computation leaves no trace",
 "If a computation is cut off at any instant by a keyboard interrupt, memory exhaustion or stack exhaustion, that error reaches the caller and is not turned into an answer, into 'no answer' or into a different error. Every later computation, on the same expression objects or on new ones, in that thread, gives the same result as if the interrupted call had never been made.",
 ["crash_points","histories","fault_sequences"],
 "all instants inside any operation (construction, expansion, simplification, differentiation, printing, pattern matching, integration), all three kinds of asynchronous failure, and any number of consecutive interruptions",
 "No test raises inside the library; a half-filled cache or a flag left set needs the failure to land between two particular instructions.",
 [X,I,R,SM,T],[("lazily cached facts stored on expressions",X),("search driver",I)],
 [("per-expression and per-class caches","must be absent or complete at every instant",X)],["exception seen by the caller","results of later calls"])
prop("C09","Operations never alter their operands, and history does not matter",
 "No operation changes an expression that already exists: after any sequence of operations every expression previously obtained is still structurally equal to what it was and prints the same. The result of an operation depends only on the values of its operands: it is the same in a process that has computed anything else before, or has used the operands in any way, as in a fresh process.",
 ["histories","inputs"],
 "all sequences of operations over a pool of shared sub-expressions (results feeding later operations), interleaved with restarts that drop every cache",
 "Each test builds its own fresh expressions and performs one or two operations; sharing and long histories are not exercised.",
 [X,R,SM,T,"src/simpy/polynomial.py"],[("documented immutability rule",X+": module docstring"),("constructors returning existing objects",X+": Sum/Prod/Power/log/TrigFunction/Abs __new__ and __init__"),("caches",X)],
 [("shared sub-expressions","referenced from several expressions and caches",X)],["structure and printed form of earlier expressions","results"])
prop("C10","The integration log is faithful and survives disk errors",
 "With a log attached, every integration that runs to an end, in any thread, is recorded under its printed integrand with the time it took on the clock, the latest entry winning. Dumping the log writes every entry with its time, slowest first, followed by the trees of the slowest one, whatever its outcome; if the disk fails at any point (cannot open, no space, error on write or close) the error is reported to the caller, no entry is lost from memory, and a later dump to a healthy disk writes the complete log.",
 ["histories","fault_sequences","schedules"],
 "all sequences of integrations (solved, failed, timed out) and dumps, all clock behaviours, an I/O error or an interrupt at any point of any dump, and all interleavings of integrating and dumping threads",
 "The log has no tests; disk errors and the clock are outside any test's control.",
 [L,TR,I],[("record keeping and dump",L+": Logger"),("tree printer",TR+": print_tree"),("call after each search",I+": Integration.integrate")],
 [("log entries","printed integrand -> (expression, time, tree)",L)],["integration_log.txt","logger.data"])
prop("C11","Watching a search never changes it",
 "Attaching a log, asking for debug output, or printing the search tree to any writer (working, slow, or failing at any line) gives the same answer as not doing so, and leaves the expressions and the search tree unchanged so that printing again gives the same text. Any search tree - solved, exhausted or cut off by the clock at any step - can be printed, and a failing writer's error is what the caller sees.",
 ["schedules","fault_sequences","inputs"],
 "all integrands, all instants at which a search may be cut off, all lines at which the writer may fail",
 "Debug output is excluded from the tests; trees cut off by the clock cannot be produced on purpose.",
 [TR,L,I],[("tree printers",TR),("debug flag of integrate",I+": Integration.integrate")],[],["text passed to the writer","return value of integrate()"])
prop("C12","A search's bookkeeping only moves forward and stays consistent",
 "Between any two steps of a search no sub-problem is both solved and failed, a sub-problem once solved or failed stays so, an unfinished search always has an open sub-problem to work on, and no sub-problem is explored below an ancestor that poses the same integral. When the search ends with an answer, every sub-problem on the path of that answer carries a solution whose derivative is that sub-problem's integrand.",
 ["schedules","inputs","configurations"],
 "all integrands, all exploration orders, all instants of the search",
 "Tests look only at the final answer of the default exploration order.",
 [T,I],[("node status",T+": Node.is_solved, is_failed, add_child"),("next-node choice",I),("assembly of solutions",I+": Integration._go_backwards")],
 [("search tree","AND/OR tree",T+": Node")],["the search tree handed to an attached log"])

# ---- properties that are pure functions of their input: stated, not claimed --------------------------------
prop("C13","Integration never ends in an internal error or an infinite answer",
 "Integrating any finite real function that the language can express, in any exploration order and with any timing, ends in an answer or in None; it never fails with an error from inside the search, whatever dead ends, degenerate cases or coincidences of coefficients the search runs into on the way. An answer is made of finite quantities: it never contains an infinity or an undefined value. Only integrands whose derivative the library does not implement may be refused, explicitly.",
 ["schedules","inputs","configurations"],
 "all integrands (including repeated roots, vanishing coefficients, decimals, compositions of any functions), with and without bounds, all exploration schedules, all clock behaviours",
 "Whether a degenerate sub-problem is met depends on the order of exploration and on coincidences of constants; the tests follow one order for integrands that work.",
 [I,T,X,"src/simpy/linalg.py","src/simpy/polynomial.py"],[("applicability tests of the transforms",T+": check methods"),("forward and backward steps",T)],[],["exceptions and return value of integrate()"])
prop("C20","Differentiation is correct",
 "The derivative of any expression with respect to any symbol is the mathematical derivative wherever both are defined, and an unsupported case is refused rather than answered wrongly.",
 ["inputs"],"all expressions and symbols","The tests differentiate a few dozen expressions.",[X],[("derivative rules",X+": diff methods")],[],["result of diff"])
prop("C21","Simplification and expansion preserve value",
 "Simplifying, expanding, factoring, expanding logarithms, and applying trigonometric identities never change the value of an expression where it is defined.",
 ["inputs"],"all expressions and assignments of their symbols","The tests compare a few dozen expected forms.",[SM,PTS,X],[("rewrites",SM),("expand, factor",X)],[],["value of the result"])
prop("C22","Construction is canonical and value preserving",
 "Building sums, products, powers and functions of expressions gives the mathematically equal canonical form, independent of the order and grouping in which terms are supplied; exact rational arithmetic stays exact.",
 ["inputs"],"all terms, orders and groupings","The tests try a few combinations.",[X],[("constructors",X+": Sum, Prod, Power, log, TrigFunction, Abs")],[],["structure of the result"])
prop("C23","Substitution and numeric evaluation agree with the mathematics",
 "Substituting expressions for symbols is simultaneous and capture free, and numeric evaluation returns the value of the expression to floating-point accuracy.",
 ["inputs"],"all expressions and substitutions","The tests evaluate special angles and a few numbers.",[X],[("subs, evalf",X)],[],["result"])
prop("C24","Printed and LaTeX forms are unambiguous",
 "The printed form of any expression parses back, under the usual precedence rules, to an expression of the same value, and the LaTeX form denotes the same value.",
 ["inputs"],"all expressions","The tests compare a few dozen strings.",[X,"src/simpy/latex.py"],[("__repr__, latex",X)],[],["strings"])
prop("C25","Pattern queries are sound",
 "When a pattern query succeeds, putting the reported matches, factor and remainder back into the pattern gives an expression equal to the queried one.",
 ["inputs"],"all expressions and patterns","The tests run about ten queries.",[R],[("eq, Eq, divide_anys",R)],[],["query result"])
prop("C26","Polynomial and matrix helpers are exact",
 "Conversion of an expression to coefficients and back, polynomial division and 2x2 inversion are exact, and non-polynomials are recognised as such.",
 ["inputs"],"all expressions","The tests convert two polynomials.",["src/simpy/polynomial.py","src/simpy/linalg.py"],[("to_const_polynomial",  "src/simpy/polynomial.py")],[],["coefficients"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
