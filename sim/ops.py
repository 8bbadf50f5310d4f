"""Operations over a pool of expressions: sources for the caller threads, histories and probes.

An operation is {"f": <source over the namespace; P, Q are pool members>, "p": i, "q": j}.  Its result is compared
structurally.  An operation the library refuses has the outcome exc:<Type>.
"""
from . import exprs as E
from . import gen as G
from . import kernel as K

# name: (source, weight).  "heavy" ones are bounded by the step limit of the run.
OPS = {
    "expand": ("P.expand() if P.expandable() else P", 5), "expandable": ("P.expandable()", 2), "simplify": ("P.simplify()", 4),
    "simplify_fn": ("simplify(Q)", 1), "diff": ("P.diff(x)", 5), "diff_fn": ("diff(P, y)", 1), "diff2": ("P.diff(x).diff(x)", 1),
    "subs": ("P.subs({'x': Q})", 3), "subs_num": ("P.subs({'x': Rat(2)})", 2), "subs_swap": ("P.subs({'x': y, 'y': x})", 2),
    "repr": ("repr(P)", 4), "latex": ("P.latex()", 2), "eq": ("P == Q", 2), "eq_self": ("P == P", 1), "symbols": ("P.symbols()", 3),
    "contains": ("P.contains(x)", 1), "has": ("P.has(TrigFunction)", 1), "evalf": ("P.evalf({'x': Rat(F(1,2)), 'y': Rat(2), 'a': Rat(3)})", 2),
    "evalf_f": ("P.evalf({'x': Float(0.5), 'y': Float(2.25), 'a': Float(1.5), 'b': Float(0.7)})", 1),
    "nesting": ("nesting(P)", 3), "nesting_x": ("nesting(P, x)", 4), "nesting_y": ("nesting(P, y)", 1), "nesting_a": ("nesting(P, a)", 1), "nesting_b": ("nesting(P, b)", 1),
    "const_factor": ("remove_const_factor(P, include_factor=True)", 5), "const_factor1": ("remove_const_factor(P)", 3),
    "decon_power": ("deconstruct_power(P)", 2), "decon_prod": ("_deconstruct_prod(P)", 2), "numden": ("P.numerator_denominator", 3),
    "factor": ("P.factor()", 3), "add": ("P + Q", 5), "sub": ("P - Q", 3), "mul": ("P * Q", 5), "div": ("P / Q", 4), "pow2": ("P ** 2", 3),
    "powh": ("P ** F(1, 2)", 1), "powm": ("P ** -1", 2), "neg": ("-P", 2), "abs": ("abs(P)", 2), "pow1": ("Power(P, 1)", 3),
    "sum3": ("Sum([P, Q, x])", 2), "prod3": ("Prod([P, Q, x])", 2), "sum_pp": ("P + P", 2), "mul_pp": ("P * P", 1), "div_pp": ("P / P", 1),
    "sub_pp": ("P - P", 1), "radd": ("3 + P", 1), "rmul": ("F(2, 3) * P", 2), "rpow": ("2 ** P", 1), "epow": ("e ** P", 2),
    "sin": ("sin(P)", 2), "cos": ("cos(P)", 1), "tan": ("tan(P)", 1), "sec": ("sec(P)", 1), "log": ("log(P)", 2), "log2": ("log(P, 2)", 2),
    "asin": ("asin(P)", 1), "sinpi": ("sin(pi/6) + cos(pi/4) * tan(5*pi/3) - sec(pi/3)", 1), "trig_special": ("[f(pi*F(k,12)) if False else f(pi/4) for k in (1, 2) for f in (sin, cos, tan, csc, sec, cot)]", 1),
    "match_sin": ("eq(P, sin(any_) ** 2 + cos(any_) ** 2, up_to_factor=True)", 1), "match_tan": ("eq(P, 1 + tan(any_) ** 2, up_to_factor=True)", 2),
    "match_lin": ("eq(P, Any_('k') * x + Any_('m'))", 1), "match_self": ("eq(P, P)", 1), "match_any": ("eq(P, any_)", 1),
    "match_mul": ("eq(P, Any_('k') * Q)", 2), "match_sum": ("eq(P, 1 - sin(any_) ** 2, up_to_sum=True)", 1), "count": ("count(P, Q)", 1),
    "count_x": ("count(P, x)", 1), "replace": ("replace(P, x, Q)", 3), "replace2": ("replace(P, Q, y)", 2), "expand_logs": ("expand_logs(P)", 2),
    "pyth": ("pythagorean_simplification(P)", 2), "trig_simplify": ("trig_simplify(P)", 2), "recip": ("reciprocate_trigs(P)", 1),
    "onefrac": ("rewrite_as_one_fraction(P)", 2), "pts": ("product_to_sum(P)", 1), "is_poly": ("is_polynomial(P, x)", 2),
    "to_poly": ("to_const_polynomial(P, x)", 2), "issub": ("P.is_subtraction", 1), "debug_repr": ("debug_repr(P)", 1), "csym": ("count_symbols(P)", 1),
    "eqvar": ("eq_with_var((P, x), (Q, y))", 1), "anys": ("get_anys(P * sin(Any_('m')) + Any_('k'))", 1), "is_int": ("P.is_int", 1), "children": ("P.children()", 1),
    "anys_w": ("get_anys(W)", 2), "match_w": ("eq(P, W)", 2), "match_wf": ("eq(P, W, up_to_factor=True)", 2), "match_ws": ("eq(P, W, up_to_sum=True)", 1), "mul_w": ("get_anys(W * P)", 1), "eq_w": ("repr(W), W == W", 1),
    "evalf2": ("P.evalf({'x': Rat(F(1,3)), 'y': Rat(5), 'a': Rat(7)})", 1), "evalf_f2": ("P.evalf({'x': Float(1.5), 'y': Float(0.25), 'a': Float(2.5), 'b': Float(0.3)})", 1), "subs_num2": ("P.subs({'x': Rat(3)})", 1),
    "contains_y": ("P.contains(y)", 1), "count_y": ("count(P, y)", 1), "is_poly_y": ("is_polynomial(P, y)", 1), "to_poly_y": ("to_const_polynomial(P, y)", 1),
    "has2": ("P.has(log)", 1), "match_lin_y": ("eq(P, Any_('k') * y + Any_('m'))", 1), "replace3": ("replace(P, y, Q)", 1), "log3": ("log(P, 3)", 1),
    "const_factor2": ("remove_const_factor(P, include_factor=False)", 1), "prod_skip": ("P * Q * F(1, 2)", 1), "diff_a": ("P.diff(a)", 1),
    "isclose": ("(P - Q).simplify() == 0", 1), "nested": ("nesting(P * Q + sin(P), x)", 1), "mixed": ("(P * x + Q * y).expand() if (P * x + Q * y).expandable() else 0", 2),
}
_NAMES = sorted(OPS)
# operations that fill or read lazily kept facts: the races and interruptions worth aiming at
CACHED = ["expand", "expandable", "simplify", "symbols", "nesting", "nesting_x", "const_factor", "const_factor1", "decon_power", "decon_prod",
          "numden", "pow1", "sum_pp", "add", "mul", "div", "match_tan", "match_mul", "anys", "anys_w", "match_w", "match_wf", "to_poly", "factor", "log2", "sinpi", "repr", "diff", "subs"]
QUICK = [n for n in CACHED if n not in ("simplify", "expand", "diff", "subs", "sinpi", "factor", "to_poly", "match_tan")] + ["pow1", "const_factor", "symbols", "expandable", "eq"]

# operations that keep what they found in the same place, under different keys
FAMILIES = [["nesting", "nesting_x", "nesting_y", "nesting_a", "nesting_b"], ["const_factor", "const_factor1", "const_factor2"], ["symbols", "csym", "contains", "contains_y", "is_poly"],
            ["expandable", "expand", "mixed", "simplify"], ["anys", "anys_w", "match_w", "match_wf", "match_lin", "match_mul"], ["evalf", "evalf2", "evalf_f", "subs_num", "subs_num2"],
            ["pow1", "nesting_x", "nesting", "symbols"], ["decon_power", "decon_prod", "numden", "div", "mul"], ["diff", "diff_fn", "diff_a", "diff2"], ["repr", "latex", "debug_repr", "eq"],
            ["sin", "cos", "tan", "sec", "sinpi", "trig_special"], ["to_poly", "to_poly_y", "is_poly", "is_poly_y", "factor"]]


def _weighted(r, names):
    tot = sum(OPS[n][1] for n in names)
    k = r.random() * tot
    for n in names:
        k -= OPS[n][1]
        if k < 0:
            return n
    return names[-1]


def pick_op(r, npool, names=None, p=None):
    n = _weighted(r, names or _NAMES)
    op = {"n": n, "p": r.randrange(npool) if p is None else p, "q": r.randrange(npool)}
    if n.endswith(("_w", "_wf", "_ws")):
        op["w"] = r.randrange(len(PATTERNS))
    return op

# operations that spend their time outside expr.py
OUTER = ["simplify", "simplify_fn", "match_sin", "match_tan", "match_lin", "match_self", "match_any", "match_mul", "match_sum", "count", "replace", "replace2",
         "expand_logs", "pyth", "trig_simplify", "recip", "onefrac", "pts", "is_poly", "to_poly", "factor", "latex", "anys", "debug_repr", "eqvar", "csym"]


_ATOMS = ["x", "y", "a", "b", "2", "3", "F(1,2)", "(-1)", "pi", "e", "x**2", "sqrt(x)", "sin(x)", "cos(x)", "tan(x)", "e**x", "log(x)", "(x+1)",
          "(x-y)", "sec(x)", "1/x", "(2*x+3)", "x*y", "atan(x)", "csc(2*x)", "cot(x)", "(a*x+b)", "log(2**log(x))", "sqrt(2)"]


def rand_expr(r, d=3):
    k = r.random()
    if d == 0 or k < 0.2:
        return r.choice(_ATOMS)
    if k < 0.45:
        return "(" + " + ".join(rand_expr(r, d - 1) for _ in range(r.randint(2, 3))) + ")"
    if k < 0.75:
        return "(" + " * ".join(rand_expr(r, d - 1) for _ in range(r.randint(2, 3))) + ")"
    if k < 0.85:
        return "(%s)**%s" % (rand_expr(r, d - 1), r.choice(["2", "3", "(-1)", "F(1,2)", "(-2)"]))
    if k < 0.92:
        return "%s(%s)" % (r.choice(["sin", "cos", "tan", "log", "sec"]), rand_expr(r, d - 1))
    return "(%s)/(%s)" % (rand_expr(r, d - 1), rand_expr(r, d - 1))


SPECIAL = ["2*pi*x*y", "3*x*(y+1)*pi", "(x+1)**3*(y-2)", "a*b*x**2/3", "1+tan(x)**2", "3-3*sin(2*x)**2", "4*sin(x)**2+4*cos(x)**2", "2**log(x)",
           "Power(2, log(x), skip_checks=True)", "log(x, 3)", "e**x*e**y", "log(x*y**2)", "log((x+1)/(y-2))", "x/(x+1)+1/(x-1)", "(x+1)**4",
           "sec(x)**2-1", "x**3+2*x**2-x+5", "3*x", "x*(-1)", "-(x+y)", "sqrt(x)*sqrt(y)", "sin(x)*cos(y)", "abs(x-1)", "(x*y)**F(1,2)", "5",
           "sin(x)**2*cos(x)**3", "2*(x+y)*(x-y)", "x**a*x**b", "e**(2*log(x))", "2.5*x+1", "sin(x+2*pi)", "sin(asin(x)+y)", "-3*x*y/(2*a)",
           "log(x+1)/(y-2)", "Symbol('e')**x", "Symbol('pi')*x + pi*y", "2.0*x+1", "cos(x*y)*x"]

# pairs that are easily taken for one another: they print alike, or differ in a name, a number's type, a variable
ALIKE = [("log((x+1)/(y-2))", "log(x+1)/(y-2)"), ("log(x/(x+y))", "log(x)/(x+y)"), ("e**x", "Symbol('e')**x"), ("sin(pi/6)*x", "sin(Symbol('pi')/6)*x"),
         ("x*e**x", "x*Symbol('e')**x"), ("2*x+1", "2.0*x+1"), ("x**2/2", "x**2*0.5"), ("x*cos(x*y)", "y*cos(x*y)"), ("x*y**2", "y*x**2"), ("sin(a*x)", "sin(b*x)"),
         ("log(x+3)*2", "log((x+3)**2)"), ("sin(x)**2", "sin(x**2)"), ("(2*x)**a", "2*x**a"), ("log(x, 2)", "log(x)"), ("x**(y**2)", "(x**y)**2"), ("abs(x)", "x"),
         ("log((x-1)/(x+1))", "log(x-1)/(x+1)"), ("cos(x)+Symbol('pi')", "cos(x)+pi"), ("3*x*e**(2*x)", "3*x*Symbol('e')**(2*x)")]
# operations that differ only in an argument
KIN = [("evalf", "evalf2"), ("evalf_f", "evalf_f2"), ("subs_num", "subs_num2"), ("subs", "subs_num"), ("integrate", "integrate_y"), ("integrate_def", "integrate_def2"),
       ("integrate", "integrate_bf"), ("integrate", "integrate_def"), ("diff", "diff_fn"), ("diff", "diff_a"), ("nesting_x", "nesting_y"), ("nesting", "nesting_x"), ("contains", "contains_y"),
       ("count_x", "count_y"), ("is_poly", "is_poly_y"), ("to_poly", "to_poly_y"), ("has", "has2"), ("match_lin", "match_lin_y"), ("replace", "replace3"), ("log2", "log3"),
       ("const_factor", "const_factor2"), ("log", "log2"), ("expand", "simplify"), ("factor", "expand"), ("pow2", "powh"), ("integrate_bf", "integrate_def")]


def pool(r, n=None, small=False):
    """Sources of the shared expressions; later ones may be built from earlier ones (shared sub-objects)."""
    out = []
    for i in range(n or r.choice([1, 2, 2, 3, 4])):
        k = r.random()
        if i and k < 0.3:
            out.append(r.choice(["p%d*x + sin(p%d)", "p%d * p%d", "(p%d + y)**2 + p%d", "2*pi*p%d/(1+p%d)", "p%d - a*p%d", "e**(p%d) * log(p%d)", "cos(p%d)**2*(p%d+1)"]) %
                       (r.randrange(i), r.randrange(i)))
        elif k < 0.5:
            out.append(r.choice(SPECIAL))
        elif k < 0.75 and not small:
            out.append(G.integrand(r))
        else:
            out.append(rand_expr(r, r.choice([1, 1, 2]) if small else r.choice([2, 3, 3])))
    return out


def deep(r, n=None):
    """One thing inside another inside another."""
    s = r.choice(["x", "x+1", "2*x", "x*y"])
    for _ in range(n or r.randint(3, 9)):
        s = r.choice(["sin(%s)", "cos(%s)+a", "e**(%s)", "log(%s+2)", "(%s)**2+1", "x*(%s)+y", "1/(%s+3)", "tan(%s)"]) % s
    return s


def namespace():
    ns = E.namespace()
    import importlib

    for mod, names in (("simpy.simplify", "simplify expand_logs pythagorean_simplification trig_simplify"),
                       ("simpy.simplify.simplify", "reciprocate_trigs rewrite_as_one_fraction"),
                       ("simpy.simplify.product_to_sum", "product_to_sum"), ("simpy.regex", "get_anys"),
                       ("simpy.polynomial", "is_polynomial to_const_polynomial polynomial_to_expr"),
                       ("simpy.utils", "eq_with_var count_symbols"), ("simpy.debug.utils", "debug_repr"),
                       ("simpy.expr", "_deconstruct_prod TrigFunction")):
        try:
            m = importlib.import_module(mod)
        except ImportError:
            continue
        for n in names.split():
            if hasattr(m, n):
                ns[n] = getattr(m, n)
    return ns


_code = {}


def code(src):
    c = _code.get(src)
    if c is None:
        c = _code[src] = compile(src, "<op>", "eval")
    return c


# patterns that are shared objects like the members of the pool
PATTERNS = ["sin(any_)**2 + 1", "Any_('k') * x + Any_('m')", "Any_('k') * sin(Any_('m'))", "1 + tan(any_)**2", "Any_('p')**2 - y", "(Any_('k') + 1) * (x + y)",
            "Any_('k') * x**Any_('n')", "log(any_) + x"]


def build_patterns(ns):
    ns["_pats"] = pats = []
    for src in PATTERNS:
        try:
            pats.append(eval(code(src), ns))
        except Exception:
            pats.append(ns["x"])


def build_pool(srcs, ns):
    """Evaluates pool sources in order; one that cannot be built becomes x.  -> list of expressions."""
    from simpy.expr import _cast

    build_patterns(ns)
    ps = []
    for i, s in enumerate(srcs):
        try:
            with K.limits(400_000):
                p = _cast(eval(code(s), ns))
            if E.size(p) > 70:
                p = ns["x"]
        except (Exception, K.SimStop):
            p = ns["x"]
        ns["p%d" % i] = p
        ps.append(p)
    return ps


def call(op, ps, ns):
    """The raw result of an operation (exceptions pass through)."""
    n2 = dict(ns)
    n2["P"] = ps[op["p"] % len(ps)]
    n2["Q"] = ps[op["q"] % len(ps)]
    pats = ns.get("_pats")
    if pats:
        n2["W"] = pats[op["q"] % len(pats)] if op.get("w") is None else pats[op["w"] % len(pats)]
    return eval(code(OPS[op["n"]][0]), n2)


def outcome(fn):
    """-> text of what the caller sees."""
    try:
        r = fn()
    except K.SimStop:
        return "stop"
    except Exception as ex:
        return "exc:" + type(ex).__name__
    return "ok:" + E.dump(r)


def run_op(op, ps, ns):
    return outcome(lambda: call(op, ps, ns))


PROBES = ["repr", "expandable", "symbols", "nesting", "nesting_x", "const_factor", "decon_power", "decon_prod", "numden", "expand", "diff", "sum_pp",
          "simplify", "match_tan"]


def probe(ps, ns, limit=15_000, names=PROBES):
    """How every pool member behaves, and that it still is what it was.  (A probe that takes too long says so.)"""
    out = []
    for i in range(len(ps)):
        out.append(E.dump(ps[i]))
        for n in names:
            with K.limits(limit):
                out.append(n + " " + run_op({"n": n, "p": i, "q": i}, ps, ns))
    return out

# whole integrations, for the engines that ask for them by name
SEARCH = {"integrate": "integrate(P, x)", "integrate_y": "integrate(P, y)", "integrate_bf": "integrate(P, x, breadth_first=True)",
          "integrate_def": "integrate(P, (x, 1, 2))", "integrate_def2": "integrate(P, (x, 0, 3))", "integrate_in": "integrate(P)"}
for _n, _s in SEARCH.items():
    OPS[_n] = (_s, 1)



# state that belongs to no expression of the pool: classes, modules, counters
GLOBALS = ["[f(pi/4) for f in (sin, cos, tan, csc, sec, cot)]", "sin(pi/6) + cos(5*pi/6) * tan(pi/3)", "simplify((x+1)**2 - x**2 + sin(x)**2 + cos(x)**2)",
           "integrate(x*cos(x), x)", "integrate(1/(x**2+2*x+10), x)", "eq(3 + 3*tan(y)**2, 1 + tan(any_)**2, up_to_factor=True)", "repr(symbols('x y z'))",
           "nesting(x**2*sin(y+1), x)", "((x+y)**3).expand()", "[diff(f(x**2), x) for f in (sin, tan, log, sqrt)]", "product_to_sum(sin(x)*cos(3*x))",
           "remove_const_factor(6*x*sin(y), include_factor=True)", "log(x**3) + log(8, 2)", "integrate(x**2*e**(-x), x)", "sin(x)**2 + cos(x)**2 == 1",
           "integrate(sec(x)**2*tan(x)**2, (x, 0, 1))", "integrate(sin(x)*sec(x), x)", "integrate(log(x**2) - 2*log(x) + x, x)", "integrate(sqrt(1 - sin(x)**2) + x, x)", "(x**3-1).factor()", "to_const_polynomial(3*x**2 - x + 2, x)", "pythagorean_simplification(1 - sin(x)**2)"]


def global_probe(names=None):
    ns = namespace()
    out = []
    for g in names or GLOBALS:
        with K.limits(300_000):
            out.append(g + " -> " + outcome(lambda: eval(code(g), ns)))
    return out
