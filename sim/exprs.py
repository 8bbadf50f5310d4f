"""Structural dumps, an independent numeric evaluator, and expression building from source text."""
import cmath
import math
from fractions import Fraction

from .kernel import quiet


def namespace():
    """Fresh public namespace (new symbol objects) of the currently booted package."""
    import simpy
    from simpy import expr as X
    from simpy import regex as RX

    ns = {"F": Fraction, "sp": simpy}
    for n in ("sin cos tan sec csc cot asin acos atan log sqrt e pi inf Rat Float Const Symbol symbols Abs Sum Prod "
              "Power diff nesting latex deconstruct_power remove_const_factor").split():
        if hasattr(X, n):
            ns[n] = getattr(X, n)
    for n in ("integrate",):
        ns[n] = getattr(simpy, n)
    for n in ("eq", "Any_", "any_", "count", "replace", "contains_cls", "general_count"):
        if hasattr(RX, n):
            ns[n] = getattr(RX, n)
    for s in ("x", "y", "z", "t", "w", "a", "b", "c", "k", "u", "v"):
        ns[s] = X.Symbol(s)
    return ns


def build(src, ns=None):
    return eval(src, ns if ns is not None else namespace())


_LEAF = {"Pi": "pi", "E": "e", "Infinity": "inf", "NegInfinity": "-inf", "NaN": "nan"}


def dump(x, depth=0):
    """Structural text of any result; two results are the same iff their dumps are."""
    if depth == 0:
        with quiet():
            return _dump(x, 1)
    return _dump(x, depth)


def _dump(x, d):
    if d > 120:
        return "<too deep>"
    if x is None or isinstance(x, (bool, int, str)):
        return repr(x) if not isinstance(x, int) or x.bit_length() < 5000 else "%x" % x
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, Fraction):
        return "Fr(%x/%x)" % (x.numerator, x.denominator)
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "[" + ", ".join(_dump(i, d + 1) for i in x) + "]"
    if isinstance(x, (set, frozenset)):
        return "set[" + ", ".join(sorted(_dump(i, d + 1) for i in x)) + "]"
    if isinstance(x, dict):
        return "dict{" + ", ".join(sorted("%s: %s" % (_dump(k, d + 1), _dump(v, d + 1)) for k, v in x.items())) + "}"
    n = type(x).__name__
    if n in _LEAF:
        return _LEAF[n]
    if n == "Rat":
        v = x.value
        return "Rat(%s)" % v if v.numerator.bit_length() + v.denominator.bit_length() < 5000 else "Rat(%x/%x)" % (v.numerator, v.denominator)
    if n == "Float":
        return "Float(%r)" % x.value
    if n == "Symbol":
        return "Sym(%s)" % x.name
    if n == "Any_":
        return "Any(%s)" % x.key
    if n == "ndarray":
        return "array[" + ", ".join(_dump(i, d + 1) for i in x.tolist()) + "]"
    if hasattr(x, "children") and callable(x.children):
        return n + "(" + ", ".join(_dump(c, d + 1) for c in x.children()) + ")"
    if isinstance(x, type):
        return "class " + n
    return "<%s>" % n


def size(x):
    with quiet():
        return 1 + sum(size(c) for c in x.children())


class Undef(Exception):
    pass


def names(x):
    """Symbol names that occur in x, by walking the structure (not x.symbols())."""
    out = set()

    def w(e, d):
        if d > 200:
            return
        n = type(e).__name__
        if n == "Symbol":
            out.add(e.name)
        elif n == "Any_":
            out.add("any:" + e.key)
        for c in e.children():
            w(c, d + 1)

    with quiet():
        w(x, 0)
    return out


def neval(x, env):
    """Real value of x, by an evaluator that shares nothing with the library's own numeric evaluation."""
    with quiet():
        return _nev(x, env)


def _root(b, p):
    """b ** p for Fraction p, undefined for fractional powers of negatives."""
    if b == 0:
        if p > 0:
            return 0.0
        raise Undef("0**neg")
    if b > 0:
        return math.exp(float(p) * math.log(b)) if p.denominator != 1 else b ** int(p)
    if p.denominator == 1:
        return b ** int(p)
    raise Undef("fractional power of a negative number")


def _nev(x, env):
    n = type(x).__name__
    if n == "Rat":
        return float(x.value)
    if n == "Float":
        return x.value
    if n == "Symbol":
        return env[x.name]
    if n == "Pi":
        return math.pi
    if n == "E":
        return math.e
    if n in ("Infinity", "NegInfinity", "NaN"):
        raise Undef(n)
    try:
        if n == "Sum":
            return math.fsum(_nev(t, env) for t in x.terms)
        if n == "Prod":
            r = 1.0
            for t in x.terms:
                r *= _nev(t, env)
            return r
        if n == "Power":
            b = _nev(x.base, env)
            ex = x.exponent
            if type(ex).__name__ == "Rat":
                return _root(b, ex.value)
            p = _nev(ex, env)
            if b <= 0:
                raise Undef("non-positive base")
            return math.exp(p * math.log(b))
        if n == "log":
            i = _nev(x.inner, env)
            b = _nev(x.base, env)
            if i <= 0 or b <= 0 or b == 1:
                raise Undef("log")
            return math.log(i) / math.log(b)
        if n == "Abs":
            return abs(_nev(x.inner, env))
        i = _nev(x.inner, env)
        if n == "sin":
            return math.sin(i)
        if n == "cos":
            return math.cos(i)
        if n == "tan":
            return math.tan(i)
        if n == "sec":
            return 1 / math.cos(i)
        if n == "csc":
            return 1 / math.sin(i)
        if n == "cot":
            return 1 / math.tan(i)
        if n == "asin":
            return math.asin(i)
        if n == "acos":
            return math.acos(i)
        if n == "atan":
            return math.atan(i)
    except (ValueError, ZeroDivisionError, OverflowError) as e:
        raise Undef(str(e))
    raise Undef("unknown node " + n)


_EPS = 2.3e-16


def nerr(x, env):
    """-> (value, bound of its rounding error): cancellation makes large errors out of harmless ones."""
    with quiet():
        return _nerr(x, env)


def _nerr(x, env):
    n = type(x).__name__
    if n == "Sum":
        ts = [_nerr(t, env) for t in x.terms]
        v = math.fsum(t[0] for t in ts)
        return v, sum(t[1] for t in ts) + _EPS * abs(v)
    if n == "Prod":
        v, e = 1.0, 0.0
        for t in x.terms:
            v2, e2 = _nerr(t, env)
            e = e * abs(v2) + abs(v) * e2
            v *= v2
            e += _EPS * abs(v)
        return v, e
    v = _nev(x, env)
    if n in ("Rat", "Float", "Symbol", "Pi", "E"):
        return v, _EPS * abs(v)
    try:
        if n == "Power":
            b, eb = _nerr(x.base, env)
            p, ep = _nerr(x.exponent, env)
            if b == 0:
                return v, eb
            lb = abs(math.log(abs(b)))
            return v, abs(v) * (abs(p) * eb / abs(b) + lb * ep + 4 * _EPS * (1 + abs(p) * lb))
        i, e = _nerr(x.inner, env)
        if n == "log":
            b, eb = _nerr(x.base, env)
            k = abs(1 / math.log(b))
            return v, k * (e / abs(i) + abs(v) * eb / b) + 4 * _EPS * (abs(v) + k * _EPS)
        if n in ("tan", "cot", "sec", "csc"):
            e *= 1 + v * v
        elif n in ("asin", "acos"):
            e /= max(1e-8, math.sqrt(max(0.0, 1 - i * i)))
    except (ValueError, ZeroDivisionError, OverflowError) as ex:
        raise Undef(str(ex))
    return v, e + 2 * _EPS * (1 + abs(v))


def ndiff(x, var, env):
    """Numeric derivative -> (value, error estimate), or Undef.  5-point rule at two step sizes."""
    v0 = env[var]
    big = [0.0]

    def f(t):
        e2 = dict(env)
        e2[var] = t
        y = neval(x, e2)
        if abs(y) > big[0]:
            big[0] = abs(y)
        return y

    def d(h):
        return (f(v0 - 2 * h) - 8 * f(v0 - h) + 8 * f(v0 + h) - f(v0 + 2 * h)) / (12 * h)

    h = 1e-3 * max(0.05, min(1.0, abs(v0)))
    a = d(h)
    b = d(h * 0.5)
    if not (math.isfinite(a) and math.isfinite(b)):
        raise Undef("not finite")
    err = 4 * abs(a - b) + 1e-14 * big[0] / h * 8 + 6 * nerr(x, env)[1] / h
    if err > 1e-3 * max(1e-3, abs(b)):
        raise Undef("not smooth (or not precise) here")
    return b, err


def antiderivative_disagreement(F_, f, var, points):
    """-> (number of usable points, list of (env, dF, f) where they disagree)."""
    bad = []
    used = 0
    for env in points:
        try:
            want, werr = nerr(f, env)
            got, err = ndiff(F_, var, env)
        except Undef:
            continue
        if not math.isfinite(want):
            continue
        used += 1
        if abs(got - want) > 20 * (err + werr) + 1e-6 * abs(want) + 1e-9:
            bad.append((env, got, want))
    return used, bad


def quad(f, var, a, b, env, n=400):
    """Composite Gauss-Legendre(5) value of the integral of f, or Undef if f is undefined/huge on the interval."""
    xs = (0.0, 0.5384693101056831, -0.5384693101056831, 0.906179845938664, -0.906179845938664)
    ws = (0.5688888888888889, 0.47862867049936647, 0.47862867049936647, 0.23692688505618908, 0.23692688505618908)
    tot = 0.0
    h = (b - a) / n
    e2 = dict(env)
    for i in range(n):
        m = a + (i + 0.5) * h
        for xx, ww in zip(xs, ws):
            e2[var] = m + xx * h / 2
            val = neval(f, e2)
            if not math.isfinite(val) or abs(val) > 2000:
                raise Undef("unbounded")
            tot += ww * val * h / 2
    return tot
