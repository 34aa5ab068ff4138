"""Interval abstract interpretation of value graphs.

Used (a) to certify that two value graphs differ on a whole box of inputs before
a formula mismatch is reported as a violation, (b) to decide comparisons between
constants.  Endpoints are 160-bit floats, rounded outward after every operation.
Result of eval(): (lo, hi) | True | False | None (unknown truth) |
NANV (certainly undefined) | UNK (could not bound).
"""
from mpmath import mp, mpf
import math
import mpmath
from fractions import Fraction
import nodes as N

mp.prec = 160
EPS = mpf(2) ** -140
TINY = mpf(2) ** -900


class _T:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NANV = _T("NAN")
UNK = _T("UNK")
INFV = _T("INF")       # infinite, sign not tracked


def out(lo, hi):
    return (lo - abs(lo) * EPS - TINY, hi + abs(hi) * EPS + TINY)


def frac(f):
    v = mpf(f.numerator) / f.denominator
    if f.denominator & (f.denominator - 1) == 0 and abs(f.numerator).bit_length() < 150:
        return (v, v)
    return out(v, v)


def box(center, rel=mpf(10) ** -18):
    c = center if isinstance(center, mpf) else mpf(center.numerator) / center.denominator if isinstance(center, Fraction) else mpf(center)
    if c == 0:
        return (c, c)
    w = abs(c) * rel
    return (c - w, c + w)


def _bad(*v):
    if any(x is UNK or x is None for x in v):
        return UNK
    if any(x is NANV for x in v):
        return NANV
    return None


def imul(a, b):
    if a[0] == a[1] == 0 or b[0] == b[1] == 0:
        return (mpf(0), mpf(0))
    p = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return out(min(p), max(p))


def iadd(a, b):
    return out(a[0] + b[0], a[1] + b[1])


def isub(a, b):
    if a[0] == a[1] == b[0] == b[1]:
        return (mpf(0), mpf(0))
    return out(a[0] - b[1], a[1] - b[0])


def idiv(a, b):
    if b[0] <= 0 <= b[1]:
        if b[0] == b[1] == 0:
            return INFV if not a[0] <= 0 <= a[1] else UNK
        return UNK
    return imul(a, out(1 / b[1], 1 / b[0]))


def ipow(a, e):
    """e: Fraction"""
    if e.denominator == 1:
        n = int(e)
        if n < 0:
            r = ipow(a, Fraction(-n))
            return idiv((mpf(1), mpf(1)), r) if not isinstance(r, _T) else r
        lo, hi = a[0] ** n, a[1] ** n
        if n % 2 == 0:
            if a[0] <= 0 <= a[1]:
                return out(mpf(0), max(lo, hi))
            return out(min(lo, hi), max(lo, hi))
        return out(lo, hi)
    if e < 0:
        r = ipow(a, -e)
        return idiv((mpf(1), mpf(1)), r) if not isinstance(r, _T) else r
    if e.denominator == 3 and a[1] < 0:      # cbrt is handled as fn; pow(neg, 1/3) is nan
        return NANV
    if a[1] < 0:
        return NANV
    if a[0] < 0:
        return UNK
    x = mpf(e.numerator) / e.denominator
    f = (lambda t: mpmath.sqrt(t) ** e.numerator) if e.denominator == 2 else (lambda t: t ** x if t > 0 else mpf(0))
    return out(f(a[0]), f(a[1]))


def mono_inc(f):
    return lambda a: out(f(a[0]), f(a[1]))


def _sin(a):
    w = (a[1] - a[0]) / 2
    if w > 1:
        return (mpf(-1), mpf(1))
    m = (a[0] + a[1]) / 2
    s = mpmath.sin(m)
    w = w + abs(m) * EPS + EPS
    return (max(s - w, mpf(-1)), min(s + w, mpf(1)))


def _cos(a):
    w = (a[1] - a[0]) / 2
    if w > 1:
        return (mpf(-1), mpf(1))
    m = (a[0] + a[1]) / 2
    s = mpmath.cos(m)
    w = w + abs(m) * EPS + EPS
    return (max(s - w, mpf(-1)), min(s + w, mpf(1)))


def _cosh(a):
    lo, hi = mpmath.cosh(a[0]), mpmath.cosh(a[1])
    if a[0] <= 0 <= a[1]:
        return out(mpf(1), max(lo, hi))
    return out(min(lo, hi), max(lo, hi))


def _abs(a):
    if a[0] >= 0:
        return a
    if a[1] <= 0:
        return (-a[1], -a[0])
    return (mpf(0), max(-a[0], a[1]))


def _dom(f, lo, hi, strict=True):
    def g(a):
        if (lo is not None and a[1] < lo) or (hi is not None and a[0] > hi):
            return NANV
        if (lo is not None and (a[0] < lo or (strict and a[0] == lo))) or (hi is not None and (a[1] > hi or (strict and a[1] == hi))):
            return UNK
        return f(a)
    return g


def _atan2(y, x):
    if x[0] > 0 or y[0] > 0 or y[1] < 0:
        c = [mpmath.atan2(q, p) for q in y for p in x]
        return out(min(c), max(c))
    return UNK


def _floor(f):
    def g(a):
        lo, hi = f(a[0]), f(a[1])
        return (mpf(lo), mpf(hi)) if lo == hi else UNK
    return g


def _mod(a, b):
    if b[0] <= 0 <= b[1]:
        return UNK
    q = idiv(a, b)
    lo, hi = mpmath.floor(q[0]), mpmath.floor(q[1])
    if lo != hi:
        return UNK
    return isub(a, imul((lo, lo), b))


def _sign(a):
    if a[0] > 0:
        return (mpf(1), mpf(1))
    if a[1] < 0:
        return (mpf(-1), mpf(-1))
    if a[0] == a[1] == 0:
        return (mpf(0), mpf(0))
    return UNK


def _cbrt(a):
    f = lambda t: mpmath.cbrt(t) if t >= 0 else -mpmath.cbrt(-t)
    return out(f(a[0]), f(a[1]))


def _tan(a):
    c = _cos(a)
    if c[0] <= 0 <= c[1]:
        return UNK
    return idiv(_sin(a), c)


def _exp(a):
    if a[1] > 5000 or a[0] < -5000:
        return UNK
    return out(mpmath.exp(a[0]), mpmath.exp(a[1]))


def _guard(f, lim=5000):
    return lambda a: UNK if max(abs(a[0]), abs(a[1])) > lim else f(a)


FN = {
    "sin": _sin, "cos": _cos, "tan": _tan, "cosh": _guard(_cosh), "sinh": _guard(mono_inc(mpmath.sinh)),
    "tanh": _guard(mono_inc(mpmath.tanh)), "exp": _exp, "expm1": _guard(mono_inc(mpmath.expm1)),
    "log": _dom(mono_inc(mpmath.log), mpf(0), None), "log1p": _dom(mono_inc(mpmath.log1p), mpf(-1), None),
    "arcsin": _dom(mono_inc(mpmath.asin), mpf(-1), mpf(1), False),
    "arccos": _dom(lambda a: out(mpmath.acos(a[1]), mpmath.acos(a[0])), mpf(-1), mpf(1), False),
    "arctan": mono_inc(mpmath.atan), "arcsinh": mono_inc(mpmath.asinh),
    "arccosh": _dom(mono_inc(mpmath.acosh), mpf(1), None, False),
    "arctanh": _dom(mono_inc(mpmath.atanh), mpf(-1), mpf(1)),
    "abs": _abs, "sign": _sign, "floor": _floor(mpmath.floor), "ceil": _floor(mpmath.ceil),
    "round": _floor(mpmath.nint), "trunc": _floor(lambda t: mpmath.floor(t) if t >= 0 else mpmath.ceil(t)),
    "cbrt": _cbrt,
    "max": lambda a, b: (max(a[0], b[0]), max(a[1], b[1])),
    "min": lambda a, b: (min(a[0], b[0]), min(a[1], b[1])),
    "mod": _mod, "arctan2": _atan2,
}


def _cmp(op, a, b):
    if op == "<":
        return True if a[1] < b[0] else False if a[0] >= b[1] else None
    if op == "<=":
        return True if a[1] <= b[0] else False if a[0] > b[1] else None
    if a[0] == a[1] == b[0] == b[1]:
        return True
    return False if (a[1] < b[0] or b[1] < a[0]) else None


class PiM:
    """exact value c * pi**k, c rational and nonzero, k a nonzero integer"""
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c, self.k = c, k

    def __eq__(self, o):
        return isinstance(o, PiM) and (self.c, self.k) == (o.c, o.k)

    def __hash__(self):
        return hash((self.c, self.k))

    def __repr__(self):
        return "%s*pi^%d" % (self.c, self.k)

    def iv(self):
        return imul(frac(self.c), ipow(out(+mp.pi, +mp.pi), Fraction(self.k)))

    def __float__(self):
        return float(self.c) * math.pi ** self.k


def pim(c, k):
    return PiM(c, k) if c != 0 and k != 0 else Fraction(c)


def pparts(v):
    return (v.c, v.k) if isinstance(v, PiM) else (v, 0)


def iv(v):
    """interval of an exact value"""
    return frac(v) if isinstance(v, Fraction) else v.iv() if isinstance(v, PiM) else v


def pi_step(x, a):
    """exact semantics of values c * pi**k, or None"""
    o = x.op
    P = [pparts(v) for v in a]
    if o in ("add", "sub"):
        (c, k), (d, l) = P
        if d == 0:
            return a[0]
        if c == 0:
            return pim(d if o == "add" else -d, l)
        return pim(c + d if o == "add" else c - d, k) if k == l else None
    if o == "neg":
        return pim(-P[0][0], P[0][1])
    if o == "mul":
        return pim(P[0][0] * P[1][0], P[0][1] + P[1][1])
    if o == "div":
        return None if P[1][0] == 0 else pim(P[0][0] / P[1][0], P[0][1] - P[1][1])
    if o == "cmp":
        (c, k), (d, l) = P
        if k == l:
            return {"<": c < d, "<=": c <= d, "==": c == d}[x.attr]
        return None
    if o == "pow" and P[1][1] == 0:
        (c, k), e = P[0], P[1][0]
        if e.denominator == 1 and abs(e) <= 40:
            return pim(c ** int(e), k * int(e))
        if e.denominator == 2 and abs(e) <= 40 and c > 0 and k % 2 == 0:
            p, q = _isqrt(c.numerator), _isqrt(c.denominator)
            if p is not None and q is not None:
                return pim(Fraction(p, q) ** int(2 * e), k // 2 * int(2 * e))
        return None
    if o == "fn":
        t = x.attr
        c, k = P[0]
        if t == "abs":
            return pim(abs(c), k)
        if t == "sign":
            return Fraction((c > 0) - (c < 0))
        if t == "mod" and P[1][1] == k and P[1][0] != 0:
            d = P[1][0]
            return pim(c - d * (c / d).__floor__(), k)
        if t in ("sin", "cos") and k == 1 and (2 * c).denominator == 1:
            q = int(2 * c) % 4
            return Fraction((0, 1, 0, -1)[q] if t == "sin" else (1, 0, -1, 0)[q])
    return None


def pi_exact_fn(x, a):
    """inverse functions of rational values that are multiples of pi, or None"""
    t, v = x.attr, a[0]
    if t == "arccos":
        return {-1: pim(Fraction(1), 1), 0: pim(Fraction(1, 2), 1), 1: Fraction(0)}.get(v)
    if t == "arcsin":
        return {-1: pim(Fraction(-1, 2), 1), 0: Fraction(0), 1: pim(Fraction(1, 2), 1)}.get(v)
    if t == "arctan":
        return {-1: pim(Fraction(-1, 4), 1), 0: Fraction(0), 1: pim(Fraction(1, 4), 1)}.get(v)
    if t == "arctan2":
        w = a[1]
        if v == 0 and w < 0:
            y = x.args[0]
            if y.op == "fn" and y.attr == "abs" or y.op == "pow" and N.isconst(y.args[1]) and y.args[1].attr == Fraction(1, 2):
                return pim(Fraction(1), 1)      # a norm is +0
            return UNK          # +pi or -pi, by the sign of the zero
        if w == 0 and v != 0:
            return pim(Fraction(1 if v > 0 else -1, 2), 1)
        if w != 0 and abs(v) == abs(w):
            return pim(Fraction(1 if v > 0 else -1, 4) * (1 if w > 0 else 3), 1)
    return None


def _small(f):
    return f if f.numerator.bit_length() + f.denominator.bit_length() < 4000 else frac(f)


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def exact_step(x, a):
    """exact rational semantics, or None"""
    o = x.op
    if o == "add":
        return _small(a[0] + a[1])
    if o == "sub":
        return _small(a[0] - a[1])
    if o == "mul":
        return _small(a[0] * a[1])
    if o == "neg":
        return -a[0]
    if o == "div":
        if a[1] == 0:
            return INFV if a[0] != 0 else NANV
        return _small(a[0] / a[1])
    if o == "cmp":
        return {"<": a[0] < a[1], "<=": a[0] <= a[1], "==": a[0] == a[1]}[x.attr]
    if o == "pow":
        e = a[1]
        if e.denominator == 1 and abs(e) <= 40:
            if a[0] == 0 and e < 0:
                return INFV
            return _small(a[0] ** int(e))
        if e.denominator == 2 and abs(e) <= 40:
            if a[0] < 0:
                return NANV
            if a[0] == 0:
                return INFV if e < 0 else Fraction(0)
            p, q = _isqrt(a[0].numerator), _isqrt(a[0].denominator)
            if p is not None and q is not None:
                return _small(Fraction(p, q) ** int(e * 2))
        return None
    if o == "fn":
        t = x.attr
        v = a[0]
        if t == "abs":
            return abs(v)
        if t == "sign":
            return Fraction((v > 0) - (v < 0))
        if t == "max":
            return max(a)
        if t == "min":
            return min(a)
        if t == "floor":
            return Fraction(v.__floor__())
        if t == "ceil":
            return Fraction(v.__ceil__())
        if t == "trunc":
            return Fraction(v.__trunc__())
        if t == "round":
            return Fraction(round(v))
        if t == "mod" and a[1] != 0:
            return v - a[1] * (v / a[1]).__floor__()
        if v == 0 and t in N._FOLD0:
            return Fraction(N._FOLD0[t])
        if t == "arctan2" and v == 0 and a[1] > 0:
            return Fraction(0)
        if t in ("arccos", "log", "arccosh") and v == 1:
            return Fraction(0)
        return pi_exact_fn(x, a)
    return None


class Eval:
    strict = False  # 0 * infinity is NaN (otherwise: unknown)

    def __init__(self, env):
        """env: sym name -> (lo, hi) ; Node id -> value (for loops / opaque)"""
        self.env, self.memo = env, {}

    def __call__(self, n):
        memo = self.memo
        if n.id in memo:
            return memo[n.id]
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op == "sel":
                c = x.args[0]
                if c.id not in memo:
                    stack.append(c)
                    continue
                cv = memo[c.id]
                if cv is True or cv is False:
                    t = x.args[1] if cv else x.args[2]
                    if t.id not in memo:
                        stack.append(t)
                        continue
                    memo[x.id] = memo[t.id]
                else:
                    ab = [a for a in x.args[1:] if a.id not in memo]
                    if ab:
                        stack.extend(ab)
                        continue
                    u, v = memo[x.args[1].id], memo[x.args[2].id]
                    u, v = iv(u), iv(v)
                    if isinstance(u, tuple) and isinstance(v, tuple):
                        memo[x.id] = (min(u[0], v[0]), max(u[1], v[1]))
                    elif isinstance(u, bool) and u is v or u is NANV and v is NANV:
                        memo[x.id] = u
                    else:
                        memo[x.id] = None if N.is_bool(x) else UNK
                stack.pop()
                continue
            if x.id in self.env or x.op in ("loop", "opq"):
                memo[x.id] = self.env[x.id] if x.id in self.env else self.outside(x)
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x.id] = self.step(x, [memo[a.id] for a in x.args])
            stack.pop()
        return memo[n.id]

    def outside(self, x):
        """value of a loop or of an opaque call"""
        return UNK

    def inf_step(self, x, a):
        o = x.op
        fin = [v for v in a if v is not INFV]
        if o in ("cmp", "and", "or", "not", "beq"):
            return None
        if o == "fn" and x.attr in ("isnan", "isfinite", "isinf"):
            return x.attr == "isinf"
        if any(v is NANV for v in fin):
            return NANV
        if not all(isinstance(v, tuple) for v in fin):
            return UNK
        if o in ("add", "sub") and len(fin) == 1:
            return INFV
        if o == "neg":
            return INFV
        if o == "mul" and len(fin) == 1 and not fin[0][0] <= 0 <= fin[0][1]:
            return INFV
        if self.strict and o == "mul" and not fin:
            return INFV
        if self.strict and (o == "mul" and fin[0] == (0, 0) or o == "div" and not fin):
            return NANV
        if o == "div" and len(fin) == 1:
            return Fraction(0) if a[1] is INFV else INFV
        if o == "pow" and a[0] is INFV and x.args[1].op == "const" and x.args[1].attr.denominator == 1:
            return INFV if x.args[1].attr > 0 else Fraction(0)
        return UNK

    def step(self, x, a):
        o = x.op
        if o == "const":
            return x.attr
        if o == "sym":
            return self.env.get(x.attr, UNK)
        if o == "pi":
            return PiM(Fraction(1), 1)
        if o == "bool":
            return x.attr
        if o == "nan":
            return NANV
        if o in ("inf", "neginf"):
            return INFV
        if o == "mark":
            return a[0]
        if a and all(isinstance(v, Fraction) for v in a):
            r = exact_step(x, a)
            if r is not None:
                return r
        elif a and all(isinstance(v, (Fraction, PiM)) for v in a):
            r = pi_step(x, a)
            if r is not None:
                return r
        elif o in ("add", "sub", "mul", "div", "pow", "fn") and a and all(isinstance(v, (Fraction, bool)) for v in a):
            r = exact_step(x, [Fraction(int(v)) if isinstance(v, bool) else v for v in a])
            if r is not None:
                return r
        if o == "mul" and any(isinstance(v, Fraction) and v == 0 for v in a) and all(isinstance(v, (tuple, Fraction, PiM)) for v in a):
            return Fraction(0)
        if o == "add" and isinstance(a[0], Fraction) and a[0] == 0:
            return a[1]
        if o in ("add", "sub") and isinstance(a[1], Fraction) and a[1] == 0:
            return a[0]
        if o == "div" and isinstance(a[0], Fraction) and a[0] == 0 and isinstance(a[1], tuple) and not a[1][0] <= 0 <= a[1][1]:
            return Fraction(0)
        a = [iv(v) for v in a]
        if any(v is INFV for v in a):
            return self.inf_step(x, a)
        if o == "cmp":
            if any(v is NANV for v in a):
                return False
            if _bad(*a) is not None:
                return None
            return _cmp(x.attr, a[0], a[1])
        if o == "and":
            if a[0] is False or a[1] is False:
                return False
            return True if a[0] is True and a[1] is True else None
        if o == "or":
            if a[0] is True or a[1] is True:
                return True
            return False if a[0] is False and a[1] is False else None
        if o == "not":
            return (not a[0]) if isinstance(a[0], bool) else None
        if o == "beq":
            return (a[0] == a[1]) if isinstance(a[0], bool) and isinstance(a[1], bool) else None
        if o == "fn" and x.attr in ("isnan", "isfinite", "isinf"):
            if a[0] is NANV:
                return x.attr == "isnan"
            if isinstance(a[0], tuple):
                return x.attr == "isfinite"
            return None
        bad = _bad(*a)
        if bad is not None:
            return bad
        if any(isinstance(v, bool) for v in a):
            a = [(mpf(int(v)),) * 2 if isinstance(v, bool) else v for v in a]
        if o == "add":
            return iadd(*a)
        if o == "sub":
            return isub(*a)
        if o == "mul":
            if x.args[0] is x.args[1]:
                return ipow(a[0], Fraction(2))
            return imul(*a)
        if o == "neg":
            return (-a[0][1], -a[0][0])
        if o == "div":
            return idiv(*a)
        if o == "pow":
            e = x.args[1]
            if e.op == "const":
                return ipow(a[0], e.attr)
            if a[0][0] > 0:
                l = FN["log"](a[0])
                if isinstance(l, _T):
                    return l
                return _exp(imul(a[1], l))
            return UNK
        if o == "fn":
            f = FN.get(x.attr)
            if f is None:
                return UNK
            if any(max(abs(v[0]), abs(v[1])) > mpf(10) ** 60 for v in a) and x.attr in ("sin", "cos", "tan"):
                return UNK
            return f(*a)
        return UNK


def const_value(n):
    """interval of a constant node, or None"""
    v = iv(Eval({})(n))
    return v if isinstance(v, tuple) else (v if isinstance(v, bool) else None)


def separated(u, v):
    """True if the two abstract values certainly denote different results"""
    if isinstance(u, bool) and isinstance(v, bool):
        return u != v
    if isinstance(u, (Fraction, PiM)) and isinstance(v, (Fraction, PiM)):
        return u != v
    u, v = iv(u), iv(v)
    if u in (NANV, INFV) and isinstance(v, tuple) or v in (NANV, INFV) and isinstance(u, tuple):
        return True
    if isinstance(u, tuple) and isinstance(v, tuple):
        return u[1] < v[0] or v[1] < u[0]
    return False


class Strict(Eval):
    strict = True
