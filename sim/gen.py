"""Workload generators: integrands and operations as source strings over the namespace of exprs.namespace()."""

# Integrands of the repository's own tests (known to be within reach), with the variable x.
CORPUS = """
x**F(7,3) | 3*x**2-2*x | (x+1)**2 | x**12 | 1/x | y | tan(y) | (x/90*(x-5)**2/350) |
(F(1,15)-F(1,360)*(x-6))*(x-5)**2/350 | (F(1,15)-F(1,360)*(x-6))*(1-(40-x)**2/875) | x**2/sqrt(1-x**3) |
-5*x**4/(1-x**2)**F(5,2) | cos(w*x-a)*cos(w*x) | sin(x)**2 | cos(x)**2 | sin(2*x)/cos(2*x) | sin(w*x)*cos(w*x) |
log(x) | log(x+6)/x**2 | sqrt(x**2+11) | cos(x)*cos(2*x) | 1/sqrt(-(x**2)+10*x+11) | (1+sin(x))**2 |
sin(x)*cos(2*x)*sin(2*x) | 6*e**x | x*cos(x) | (x+8)/(x*(x+6)) | (18-12*x)/(4*x-1)/(x-4) | (2*x+3)/(x-3)/(x+3) |
(x-2)/(2*x+1)/(x+3) | x*e**(-x) | log(x)/x**2 | x*sqrt(x-y) | x*e**(4*x) | -x*cos(x) | e**x*sin(x) |
x**2*sin(pi*x) | asin(x) | acos(x) | atan(x) | sec(2*x)*tan(2*x) | 4*sec(x)**2 | sec(x)**2*tan(x)**2 |
5/x-3*e**x | sec(x) | 2*cos(2*x-5) | 3*x**5-x**3+6 | x**3*e**(x**4) | e**x/(1+e**x) | 8*x/sqrt(1-4*x**2) | sin(4*x) |
5*csc(x)**2 | 2*csc(x)*cot(x) | (2*x-5)**10 | 3*x**2*(x**3+1)**6 | (x-5)/(-2*x+2) | (x**3-1)/(x+2) |
(x-1)/(2*x+4) | (2*x**3+4*x**2-5)/(x+3) | 1/(3*x**2+6*x+78) | 1/(x**2-8*x+65) | 1/sqrt(-(x**2)-6*x+40) | -(e**x) |
e**(-x) | x**2*e**(-x) | sin(x)**4 | sin(x)**6 | sin(x)**2*cos(x)**3 | sin(x)**3 | cos(x)**5 | tan(x)**4 |
tan(x)**5*sec(x)**4 | sin(x)*cos(x)*tan(x) |
log(abs(x))/x | sqrt(1-cos(x)**2)*cos(x) | abs(sin(x))*cos(x) | log(abs(x))**2/x | tan(x)*log(abs(cos(x))) | abs(tan(x))*sec(x)**2 | abs(x-2)*x
"""
CORPUS = [s.strip() for s in CORPUS.replace("\n", " ").split("|")]

# Integrands whose search ends only by exhaustion (None quickly on the reference tree), and endless ones.
EXHAUST = ["sqrt(x**2+11)", "e**(x**2)", "sin(x**2)", "1/(x**3+x+1)", "x**x", "asin(x)**2", "1/(x**3+x)", "(x**2+a)*log(x)",
           "1/(x**2+a**2)", "sqrt(sin(x))", "e**(x**2)*x**2", "sqrt(x**2+a)", "1/log(x)", "atan(x)/x", "asin(x)*x**2"]
ENDLESS = ["sin(x)/x", "cos(x)/x", "sin(x)*log(x)", "sin(x)/(x+1)", "sec(x)*e**x", "sqrt(sin(x))", "sqrt(x)*cos(x)", "log(x)*cos(2*x-5)",
           "e**x*sqrt(x+4)", "sin(x)*log(x)+x", "a*cos(x)/x", "x+sin(x)/x", "e**(2*x)*log(x)"]



def _pick(r, xs):
    return xs[r.randrange(len(xs))]


def _int(r, lo=-6, hi=6, nz=True):
    while True:
        v = r.randint(lo, hi)
        if v or not nz:
            return v


def coef(r, sym=0.15):
    k = r.random()
    if k < sym:
        return _pick(r, ["a", "b", "c", "k", "w", "(a+1)", "a*b", "a**2", "sqrt(a)", "2*a", "1/a"])
    if k < sym + 0.15:
        return "F(%d,%d)" % (_int(r), r.randint(2, 7))
    if k < sym + 0.2:
        return _pick(r, ["pi", "e", "sqrt(2)", "pi/2", "log(2)"])
    return "(%d)" % _int(r)


def lin(r, sym=0.15):
    k = r.random()
    if k < 0.3:
        return "x"
    if k < 0.6:
        return "%s*x" % coef(r, sym)
    if k < 0.8:
        return "(x+%s)" % coef(r, sym)
    return "(%s*x+%s)" % (coef(r, sym), coef(r, sym))


def poly(r, deg=4, sym=0.1):
    n = r.randint(1, 3)
    ts = []
    for _ in range(n):
        d = r.randint(0, deg)
        ts.append("%s*x**%d" % (coef(r, sym), d) if d else coef(r, sym))
    return "(" + "+".join(ts) + "+x**%d)" % r.randint(1, deg)


TRIG = ["sin", "cos", "tan", "sec", "csc", "cot"]


def trigpow(r):
    k = r.randrange(8)
    L = lin(r)
    if k == 7:
        return r.choice(["%s(%s)**%d", "%s(%s)**%d", "cos(x)*%s(%s)**%d", "%s(%s)**%d*cos(x)**3"]) % (_pick(r, TRIG[:2] if r.random() < 0.7 else TRIG), L, r.randint(5, 11))
    if k == 0:
        return "sin(%s)**%d*cos(%s)**%d" % (L, r.randint(0, 4), L, r.randint(1, 4))
    if k == 1:
        return "tan(%s)**%d*sec(%s)**%d" % (L, r.randint(0, 4), L, r.randint(1, 4))
    if k == 2:
        return "cot(%s)**%d*csc(%s)**%d" % (L, r.randint(0, 3), L, r.randint(1, 3))
    if k == 3:
        return "%s(%s)*%s(%s)" % (_pick(r, ["sin", "cos"]), lin(r), _pick(r, ["sin", "cos"]), lin(r))
    if k == 4:
        return "%s(%s)**%d" % (_pick(r, TRIG), L, r.randint(1, 4))
    if k == 5:
        return "%s(%s)/%s(%s)" % (_pick(r, TRIG), L, _pick(r, TRIG), L)
    return "(%s+%s(%s))**2" % (coef(r), _pick(r, ["sin", "cos", "tan", "sec"]), L)


def rational(r):
    k = r.randrange(11)
    if k == 8:  # a quadratic whose terms share a factor
        g = r.choice([1, 2, 3, -2, 4])
        return "(%s*x+%s)/(%d*x**2+%d*x)" % (coef(r, 0), coef(r, 0), g * _int(r, -3, 3), g * _int(r, -5, 5))
    if k == 9:  # a product of two linear factors, written out
        p, q, s, t = (_int(r, -3, 3) for _ in range(4))
        return "(%d*x+%d)/(%d*x**2+%d*x+%d)" % (r.randint(-3, 3), _int(r), p * s, p * t + q * s, q * t)
    if k == 10:
        return "(%s)/(%s)" % (poly(r, r.randint(1, 2), 0), poly(r, r.randint(1, 3), 0.05))
    if k == 0:
        return "%s/((x+%s)*(x+%s))" % (coef(r), coef(r, 0), coef(r, 0))
    if k == 1:
        return "(%s*x+%s)/((%s*x+%s)*(x+%s))" % (coef(r, 0), coef(r, 0), coef(r, 0), coef(r, 0), coef(r, 0))
    if k == 2:
        return "%s/%s" % (poly(r, 3, 0), lin(r, 0))
    if k == 3:
        return "%s/(x**2+%d*x+%d)" % (coef(r), 2 * r.randint(-4, 4), r.randint(17, 40))
    if k == 4:
        return "%s/(%s*x**2+%d)" % (coef(r), r.randint(1, 9), r.randint(1, 16))
    if k == 5:
        return "x/(x**2+%s)" % coef(r)
    if k == 6:
        return "%s/(x**2-%d)" % (coef(r, 0), r.randint(1, 5) ** 2)
    return "%s/%s**%d" % (coef(r), lin(r), r.randint(1, 4))


def radical(r):
    k = r.randrange(9)
    if k == 0:
        return "sqrt(%s)" % lin(r)
    if k == 1:
        return "x*sqrt(%s)" % lin(r)
    if k == 2:
        return "x/sqrt(%s)" % lin(r)
    if k == 3:
        return "%s/sqrt(%d-%dx**2)".replace("%dx", "%d*x") % (coef(r), r.randint(1, 3) ** 2, r.randint(1, 3) ** 2)
    if k == 4:
        return "sqrt(%d-x**2)" % (r.randint(1, 3) ** 2)
    if k == 5:
        n = r.randint(2, 4)
        return "%s*x**%d*(%s+x**%d)**F(%d,%d)" % (coef(r), n - 1, coef(r), n, _int(r, -3, 3), 2)
    if k == 6:
        return "%s**F(%d,%d)" % (lin(r), _int(r, -5, 5), r.randint(2, 3))
    if k == 7:
        return "%s/sqrt(-(x**2)+%d*x+%d)" % (coef(r, 0), 2 * r.randint(1, 4), r.randint(1, 12))
    return "x**2/sqrt(%d-x**2)" % (r.randint(1, 2) ** 2)


def expo(r):
    k = r.randrange(8)
    if k == 0:
        return "%s*e**(%s)" % (coef(r), lin(r))
    if k == 1:
        return "x**%d*e**(%s)" % (r.randint(1, 3), lin(r))
    if k == 2:
        return "e**(%s)*%s(%s)" % (lin(r), _pick(r, ["sin", "cos"]), lin(r))
    if k == 3:
        return "%d**(%s)" % (r.randint(2, 5), lin(r, 0))
    if k == 4:
        return "e**x/(e**x+%s)" % coef(r)
    if k == 5:
        n = r.randint(2, 4)
        return "x**%d*e**(%s*x**%d)" % (n - 1, coef(r), n)
    if k == 6:
        return "e**(%s)*e**(%s)" % (lin(r), lin(r))
    return "(e**x+%s)**%d" % (coef(r), r.randint(2, 3))


def logs(r):
    k = r.randrange(7)
    if k == 0:
        return "log(%s)" % lin(r)
    if k == 1:
        return "x**%d*log(%s)" % (_int(r, -3, 3), _pick(r, ["x", "2*x", "x+1", "a*x"]))
    if k == 2:
        return "log(x)**%d/x" % r.randint(1, 3)
    if k == 3:
        return "1/(x*log(x))"
    if k == 4:
        return "%s*log(x)+%s" % (coef(r), coef(r))
    if k == 5:
        return "log(x)*%s" % lin(r)
    return "log(x+%d)/x**2" % r.randint(1, 7)


def inverse(r):
    k = r.randrange(5)
    f = _pick(r, ["asin", "acos", "atan"])
    if k == 0:
        return "%s*%s(%s)" % (coef(r), f, _pick(r, ["x", "2*x", "x/3", "a*x", "x+1"]))
    if k == 1:
        return "x*%s(x)" % f
    if k == 2:
        return "%s(x)+%s" % (f, coef(r))
    if k == 3:
        return "atan(x)**%d/(1+x**2)" % r.randint(1, 3)
    return "x**2*%s(x)" % f


INNER = ["x**2", "x**3", "sin(x)", "cos(x)", "tan(x)", "e**x", "log(x)", "x**2+1", "3*x+2", "a*x", "sqrt(x)", "1/x", "x**2+x",
         "e**x+1", "1-x**2"]
OUTER = ["(%s)**%d", "sin(%s)", "cos(%s)", "e**(%s)", "1/(%s)", "sec(%s)**2", "sqrt(%s)", "log(%s)", "1/(1+(%s)**2)", "abs(%s)",
         "(%s)*e**(%s)", "tan(%s)"]


def usub(r):
    g = _pick(r, INNER)
    f = _pick(r, OUTER)
    if f == "(%s)**%d":
        fs = f % (g, r.randint(2, 4))
    else:
        fs = f.replace("%s", g)
    if r.random() < 0.3:
        return "%s*(%s)*diff(%s,x)" % (coef(r), fs, g)
    return "(%s)*diff(%s,x)" % (fs, g)


def derived(r):
    """The derivative of something: certainly integrable, perhaps not by this program."""
    k = r.randrange(4)
    if k == 0:
        return "diff(x**%d*%s(%s),x)" % (r.randint(1, 3), _pick(r, ["sin", "cos", "log"]), _pick(r, ["x", "2*x", "a*x"]))
    if k == 1:
        return "diff(e**(%s)*%s,x)" % (lin(r), poly(r, 2))
    if k == 2:
        return "diff(%s(%s)**%d,x)" % (_pick(r, ["sin", "cos", "tan"]), lin(r), r.randint(2, 3))
    return "diff(atan(%s),x)" % _pick(r, ["x", "x/2", "2*x", "x+1"])


def decimal(r):
    """Integrands with decimal numbers."""
    k = r.randrange(8)
    d = "%.2f" % (r.choice((-1, 1, 1)) * r.randint(1, 16) / 4)
    whole = _pick(r, ("1.0", "2.0", "-1.0", "-2.0", "3.0", "0.5", "-0.5", "0.0", "-1.0", "1.5"))
    if k == 6:  # a decimal where a whole number is meant
        return _pick(r, ("%s*x**(W)", "%s+x**(W)", "%s*e**(W*x)", "%s*sin(W*x)", "%s*(x+3)**(W)", "%s*(2*x+1)**(W)", "%s*cos(x)**(W)", "%s*log(x)**(W)",
                         "%s/(x**2+W)", "%s/(W*x**2+2*x+5)", "%s*x*(x**2+1)**(W)", "%s*sin(x)*cos(x)**(W)", "%s*e**x*(e**x)**(W)")).replace("W", whole) % coef(r)
    if k == 7:
        return "(%s*x+%s)/((x+%s)*(x-%s))" % (whole, _pick(r, ("1", "2.0", "0.5")), _pick(r, ("1.0", "2.0", "3")), _pick(r, ("1.0", "2", "0.5")))
    if k == 0:
        return "%s*x**%d+%s*x" % (d, r.randint(2, 4), coef(r))
    if k == 1:
        return "%s(%s*x)" % (_pick(r, ("sin", "cos", "tan", "atan", "asin", "log")), d)
    if k == 2:
        return "1/(%s*x+%s)" % (d, coef(r, 0))
    if k == 3:
        return "x*e**(%s*x)" % d
    if k == 4:
        return "(%s*x+%d)**%s" % (d, r.randint(1, 5), _pick(r, ("2", "3", "0.5", "-1", "-2", "1.5")))
    return "log(%s*%s+%s)" % (d, _pick(r, ("x", "y", "x*y")), coef(r, 0))


def repeated(r):
    """Coincidences: repeated roots, equal factors, arguments shifted by a parameter or negated."""
    k = r.randrange(10)
    n = _int(r, -5, 5)
    if k > 7:  # linear factors that are multiples of one another, in different dress
        p, q = r.randint(1, 3), _int(r, -5, 5)
        g = _pick(r, ("2", "3", "-2", "-1", "F(1,2)", "pi", "sqrt(2)", "5", "-3"))
        return "%s/((%d*x%+d)*(%s*x+%s)%s)" % (_pick(r, ("1", "x", "(x+1)", "a", "(2*x-3)")), p, q, "(%s*%d)" % (g, p), "(%s*%d)" % (g, q), _pick(r, ("", "", "", "*x", "**2")))
    if k == 0:
        return "%s/(x**2%+d*x%+d)" % (_pick(r, ("1", "x", "a", "(x+1)", "log(x)")), -2 * n, n * n)
    if k == 1:
        return "%s/(x%+d)**%d" % (_pick(r, ("1", "x", "x**2", "e**x", "log(x)", "a")), n, r.randint(2, 4))
    if k == 2:
        return "1/sqrt(x**2%+d*x%+d)" % (-2 * n, n * n)
    if k == 3:
        return "%s/((x%+d)*(x%+d)%s)" % (_pick(r, ("1", "x", "(x+1)")), n, _pick(r, (n, -n, n + 1)), _pick(r, ("", "*x", "*(x+1)", "**2")))
    if k == 4:
        return "e**(%s)*%s(%s)" % (_pick(r, ("x", "-x", "a*x", "x+a", "2*x", "-4*x")), _pick(r, ("sin", "cos")),
                                   _pick(r, ("x", "-x", "x+a", "a-x", "a*x", "3*x")))
    if k == 5:
        return "%s(x)*%s(%s)" % (_pick(r, TRIG), _pick(r, TRIG), _pick(r, ("x", "-x", "x+a", "2*x", "x-1")))
    if k == 6:
        return "x**%d*log(x%+d)" % (_int(r, -3, 3), n)
    return "%s/(x**3%+d*x**2)" % (_pick(r, ("1", "x+1", "x**2+1")), n)


_ATOM = ("x", "x", "x", "x", "a", "y", "2", "F(1,2)", "pi", "e", "3", "-1", "0.5", "1", "0")
_FUN = ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "log", "sqrt", "Abs")


def wild(r, d=None):
    """Any composition of what the language offers."""
    d = r.choice((2, 2, 3, 3, 4)) if d is None else d
    k = r.random()
    if d == 0 or k < 0.12:
        return _pick(r, _ATOM)
    if k < 0.4:
        return "%s(%s)" % (_pick(r, _FUN), wild(r, d - 1))
    if k < 0.6:
        return "(%s)+(%s)" % (wild(r, d - 1), wild(r, d - 1))
    if k < 0.8:
        return "(%s)*(%s)" % (wild(r, d - 1), wild(r, d - 1))
    if k < 0.88:
        return "(%s)/(%s)" % (wild(r, d - 1), wild(r, d - 1))
    return "(%s)**(%s)" % (wild(r, d - 1), _pick(r, ("2", "-1", "-2", "3", "F(1,2)", "F(-1,2)", "a", "x", "0.5", "4", "0")))


FAMILIES = {"decimal": decimal, "repeated": repeated, "wild": wild, "poly": lambda r: "%s*%s" % (coef(r), poly(r)), "polyprod": lambda r: "%s*%s" % (poly(r, 2), poly(r, 2)),
            "linpow": lambda r: "%s**%d" % (lin(r), _int(r, -4, 7)), "trigpow": trigpow, "rational": rational,
            "radical": radical, "expo": expo, "logs": logs, "inverse": inverse, "usub": usub, "derived": derived,
            "corpus": lambda r: _pick(r, CORPUS), "free": lambda r: _pick(r, ["y", "y*x", "sin(a)*x", "x/y", "a**2", "log(y)"])}
_W = {"poly": 1, "polyprod": 1, "linpow": 1, "trigpow": 3, "rational": 3, "radical": 3, "expo": 3, "logs": 2, "inverse": 1.5,
      "usub": 3, "derived": 1, "corpus": 5, "free": 0.3, "decimal": 0.5, "repeated": 1.5, "wild": 0.7}
_NAMES = sorted(_W)
_CUM = []
_s = 0.0
for _n in _NAMES:
    _s += _W[_n]
    _CUM.append(_s)


def family(r):
    k = r.random() * _s
    for n, c in zip(_NAMES, _CUM):
        if k < c:
            return n
    return _NAMES[-1]


def integrand(r, mutate=0.25):
    """-> source text of an integrand in x (possibly with parameters)."""
    s = FAMILIES[family(r)](r)
    k = r.random()
    if k < mutate * 0.4:
        s = "(%s)+(%s)" % (s, FAMILIES[family(r)](r))
    elif k < mutate * 0.6:
        s = "%s*(%s)" % (coef(r), s)
    elif k < mutate * 0.75:
        s = "(%s)*(%s)" % (s, _pick(r, ["x", "sin(x)", "e**x", "cos(x)", "1/x", "log(x)"]))
    return s


def cheap(r):
    """Integrands that are solved in few steps (for interleaving runs)."""
    return _pick(r, _CHEAP)


_CHEAP = ["x**2", "3*x**2-2*x", "sin(x)", "e**(2*x)", "1/x", "x*cos(x)", "x*e**(-x)", "log(x)", "tan(x)", "sec(x)**2", "1/(1+x**2)",
          "a*x**2+b*x", "x*sqrt(x+1)", "x/(x**2+1)", "cos(a*x+b)", "2**x", "sqrt(x)", "(x+8)/(x*(x+6))", "(x-5)/(-2*x+2)",
          "x**2*e**x", "sin(2*x)*cos(3*x)", "e**x/(1+e**x)", "x*e**(x**2)", "log(x)/x**2", "sin(x)**2", "1/(x**2-4)", "e**x*sin(x)",
          "8*x/sqrt(1-4*x**2)", "1/(x**2-8*x+65)", "cos(x)*cos(2*x)", "5*csc(x)**2", "2*csc(x)*cot(x)", "sin(x)*sec(x)", "log(x**2)-2*log(x)+x",
          "tan(x)*cos(x)", "3*sin(2*x)/cos(2*x)"]

# name assignments: python identifier -> Symbol name
ODD_NAMES = ["u", "u_0", "u_1", "t", "v", "X", "e", "i", "u_aaaaaaaaaa", "any_x", "factor_a", "f", "pi", "theta", "x1", "\\phi", "uu", "z",
             "any_find", "U", "u_Zz9", "s i", "_", "x_1"]


def long(r):
    """Integrands whose search takes many steps and ends, two in three of them with an answer."""
    n, m = r.randint(2, 6), r.choice([1, 2, 3, 3])
    u = _pick(r, ["x", "x", "x", "2*x-1", "x/2", "a*x", "3*x+1"])
    if r.random() < 0.67:
        f = _pick(r, ["sec(U)**N*tan(U)**3", "csc(U)**N*cot(U)**3", "sin(U)**3*cos(U)**-N", "sin(U)*cos(U)**-N", "sin(U)**M*cos(U)**-M", "cot(U)**3", "cot(U)**5",
                      "tan(U)**N", "csc(U)**2", "x*sec(U)**2", "x**N*sin(U)", "x**N*cos(U)", "x**N*e**(U)", "x**N*e**(-x)", "x**3/sqrt(x**2+1)", "x**5/sqrt(x**2+M)",
                      "x**M*(x+3)**F(1,2)", "x**N*(x-N)**F(1,2)", "x*sin(U)**3*cos(U)**-3", "cot(U)**3+x**M*e**x", "csc(U)**2+tan(U)**3", "e**x*cot(e**x)**3"])
    else:
        f = _pick(r, ["csc(U)**3", "sec(U)**3", "e**x*sin(U)**2", "e**x*cos(U)**3", "x*tan(U)**3", "x**3*sqrt(1-x**2)", "x*cot(U)**5", "sec(U)**4", "csc(U)**4", "x**2/sqrt(x**2+1)",
                      "x*sin(U)**3", "x**M*sec(U)", "e**x*tan(U)**2", "sin(U)**2*cos(U)**-3", "csc(U)**2*cot(U)**2", "cot(U)**4", "x*csc(U)**3", "x**N*sqrt(1-x**2)"])
    return f.replace("U", "(%s)" % u if u != "x" else "x").replace("N", str(n)).replace("M", str(m))


def exhausting(r):
    """Sums of parts each of which is a dead end, at once or after some steps; now and then with one that is solved."""
    parts = [_pick(r, EXHAUST) if r.random() < 0.75 else long(r) for _ in range(r.choice([2, 2, 3, 4, 5]))]
    if r.random() < 0.3:
        parts.insert(r.randrange(len(parts) + 1), _pick(r, _CHEAP))
    return "+".join("%s(%s)" % (r.choice(["", "", "2*", "-3*", "a*"]), p) for p in parts)


def nested(r):
    """A sum, some of whose parts are dead ends or long, below a substitution."""
    ps = [_pick(r, _CHEAP) if r.random() < 0.55 else _pick(r, EXHAUST) if r.random() < 0.6 else long(r) for _ in range(r.choice([2, 2, 3]))]
    u, du = _pick(r, [("e**x", "e**x"), ("sin(x)", "cos(x)"), ("x**2", "2*x"), ("log(x)", "1/x"), ("tan(x)", "sec(x)**2"), ("x**3", "x**2"), ("sqrt(x)", "1/sqrt(x)"), ("x", "x"), ("x", "log(x)"), ("x", "sin(x)")])
    body = "+".join("(%s)" % p for p in ps)
    return "(lambda x: %s)(%s)*%s" % (body, u, du)


def endless(r):
    """Integrands whose search goes on and on; some of them next to parts that are solved quickly."""
    src = _pick(r, ENDLESS)
    if r.random() < 0.5:
        parts = [_pick(r, _CHEAP if r.random() < 0.6 else EXHAUST) for _ in range(r.choice([1, 1, 2, 3]))]
        parts.insert(r.randrange(len(parts) + 1), src)
        src = "+".join("%s(%s)" % (r.choice(["", "", "2*", "-3*"]), p) for p in parts)
    return src


_WIDE = ["sin(x)/x", "cos(x)/x", "sin(x)*log(x)", "sin(x)/(x+1)", "sqrt(x)*cos(x)", "log(x)*cos(x)", "cos(x)/(x-2)", "sqrt(x)*sin(x)", "x**F(1,3)*cos(x)"]


def endless_wide(r):
    """A sum of many parts none of which is ever solved: open possibilities pile up."""
    ps = list(_WIDE)
    r.shuffle(ps)
    return "+".join("%s%s" % (r.choice(["", "", "2*", "-3*", "a*"]), p) for p in ps[:r.randint(3, len(ps))])


def many(r):
    """A sum of parts each of which takes a step of its own."""
    ps = list(_CHEAP) + ["sec(x)*tan(x)**3", "sin(x)**4", "x**2*cos(x)", "x*log(x)", "e**x*sin(x)"]
    r.shuffle(ps)
    return "+".join("%s(%s)" % (r.choice(["", "", "2*", "-3*"]), p) for p in ps[:r.randint(2, 6)])


def rename(r, p=0.35):
    if r.random() > p:
        return {}
    ids = ["x", "y", "a", "b", "c", "k", "w"]
    pool = list(ODD_NAMES)
    r.shuffle(pool)
    out = {}
    for i in ids:
        if r.random() < 0.6 and pool:
            out[i] = pool.pop()
    return out
