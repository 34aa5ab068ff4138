"""C28 single-precision range: the unit system alone never drives an intermediate value out of the range of 32-bit floats."""
from fractions import Fraction
import math
import random

import mpmath
import numpy as np

import decide
import grade
import ival
import nodes as N
import spec
from checks_solver import unit_sigma
from checks_formula import loc_of
from framework import Skip

# length and time unit of canonical (mu = 1) coordinates
UNITS = {"an Earth orbit in metres": (Fraction(6378000), Fraction(807)), "an Earth orbit in kilometres": (Fraction(6378), Fraction(807)),
         "a geostationary orbit in metres": (Fraction(42164000), Fraction(13713)),
         "a heliocentric orbit in kilometres": (Fraction(149600000), Fraction(5023000))}
ZONAL = {"J2": Fraction(1, 1000), "J3": Fraction(1, 10 ** 6), "J4": Fraction(1, 10 ** 6)}
BUDGET = 36                   # decades left to dimension alone, of the 38 available


def units_of(F):
    """unit systems in which F is used: a body with an equatorial radius is only orbited nearby"""
    near = any(isinstance(a.role, tuple) and "R_eq" in a.role[1] for a in F.args)
    return {u: v for u, v in UNITS.items() if not (near and ("heliocentric" in u or "geostationary" in u))}


def shifts(ty, xs, units):
    """[(decades, dimension, node, unit)] of every typed node outside loops"""
    g = grade.Grader(ty, with_exit=False)
    for x in xs:
        g(x)
    out, gaps = [], 0
    for x in N.walk(xs, False):
        if N.is_bool(x) or x.op in ("const", "pi", "bool"):
            continue
        t = g.memo.get(x.id)
        if t is grade.ANY:
            continue
        if t is None:
            gaps += 1
            continue
        for u, (L, T) in units.items():
            out.append((float(t[0]) * math.log10(L) + float(t[1]) * math.log10(T), t[:2], x, u))
    return out, gaps


def canon(rng, dom):
    def pick(a, b):
        return Fraction(round(rng.uniform(a, b) * 2 ** 12), 2 ** 12)
    k = dom.kind
    if k == "range":
        return pick(float(dom.lo) + 0.1 * float(min(dom.hi - dom.lo, 3)), float(dom.lo) + 0.9 * float(min(dom.hi - dom.lo, 3)))
    if k == "int":
        return Fraction(5)
    v = pick(0.3, 3)
    if k == "neg" or k in ("real", "nonzero") and rng.random() < 0.5:
        v = -v
    return v


def env_of(F, rng, L, T, top=False):
    """(environment in the units, environment in canonical units): point boxes"""
    si, ca = {}, {}

    def put(s, dom, dim, size=1):
        v = canon(rng, dom) * size
        a, b = (Fraction(dim[0]), Fraction(dim[1])) if dim is not None else (0, 0)
        if (a, b) == (0, 1):
            v *= 2      # up to a full period of the unit orbit
        if top and (a, b) == (1, 0):
            v /= 3      # no larger than the unit
        elif top and (a, b) == (3, -2):
            v = Fraction(1)
        for d, f in ((si, rat(L, a) * rat(T, b)), (ca, Fraction(1))):
            d[s] = ival.iv(v * f)
    for a in F.args:
        if isinstance(a.role, tuple):
            for q in a.role[1]:
                put(q, *spec.DICT_DOM[q][:2], size=ZONAL.get(q, 1))
            continue
        for i in np.ndindex(*a.shape):
            dim = a.dim
            if dim == "state":
                dim = spec.L1 if i[0] < 3 else spec.V1
            put(a.name + "".join("_%d" % q for q in i), a.dom, dim)
    return si, ca


def rat(x, q):
    """x**q, rounded to a rational where the root is irrational"""
    q = Fraction(q)
    if q.denominator == 1:
        return x ** int(q)
    return Fraction(float(x) ** float(q)).limit_denominator(10 ** 9)


def certain(v, lo, hi):
    """|v| certainly within [lo, hi]"""
    v = ival.iv(v)
    if not isinstance(v, tuple):
        return False
    a, b = v
    try:
        m, M = (a, b) if a > 0 else ((-b, -a) if b < 0 else (None, None))
        return m is not None and m >= lo and M <= hi
    except TypeError:
        return False


def outside(F, xs, ty, seed, n):
    """[(node, unit system, point, effect, value)], one per dimension: nodes certainly outside the range of float32
    although their canonical value is ordinary and their operands are inside the range"""
    from mpmath import mpf
    rng = random.Random(seed)
    order = [x for x in N.walk(xs, False) if x.op in ("mul", "div", "pow", "add", "sub", "fn") and not N.is_bool(x)]
    hi, lo = mpf(2) ** 128, mpf(2) ** -126
    big = mpf(10) ** 4000
    g = grade.Grader(ty, with_exit=False)
    found = {}
    for u, (L, T) in units_of(F).items():
        for _ in range(n):
            si, ca = env_of(F, rng, L, T, "geostationary" in u)
            es, ec = ival.Eval(si), ival.Eval(ca)
            for x in order:
                if not certain(ec(x), mpf(10) ** -6, mpf(10) ** 6):
                    continue
                s = es(x)
                what = "overflows" if certain(s, hi, big) else "underflows" if certain(s, 1 / big, lo) else None
                if what is None or any(certain(es(y), hi, big) or certain(es(y), 1 / big, lo) for y in x.args):
                    continue
                t = g(x)
                k = (what, "L^%s T^%s" % t[:2] if t not in (None, grade.ANY) else "no dimension", u)
                if k not in found:
                    found[k] = (x, u, si, what, s)
    return found


def c28(run):
    rule = "no intermediate value leaves the range of 32-bit floats because of the unit system"

    def build(F, loc):
        o = run.outs(F)
        xs = [x for a in o for x in a.reshape(-1)]
        ty = {}
        unit_sigma(F, ty)

        bad, sh = [], []

        def thunk(u):
            if not sh:
                sh.append(shifts(ty, xs, units_of(F)))
                bad.append(outside(F, xs, ty, run.seed * 1000 + len(F.name), 3 if run.tier == "quick" else 20))
            w = [v for k, v in bad[0].items() if k[2] == u]
            if w:
                x, u, env, what, val = w[0]
                return "refuted", "interval evaluation at an admissible point", dict(units=u, construct=N.show(x, 4), at=x.loc, effect=what, value=str(mpmath.nstr(val[0], 5)),
                                                                                   box={s: mpmath.nstr(v[0], 8) for s, v in env.items()})
            l, gaps = sh[0]
            m = [t for t in l if abs(t[0]) > BUDGET and t[3] == u]
            if m:
                m = max(m, key=lambda t: abs(t[0]))
                return "open", "", dict(reason="dimension L^%s T^%s shifts %s by %.1f decades" % (m[1][0], m[1][1], N.show(m[2], 3), m[0]))
            if gaps:
                return "open", "", dict(reason="%d intermediate values without a dimension" % gaps)
            return "proved", "dimension exponents of every intermediate within budget", None
        for u in units_of(F):
            run.ob("%s in %s" % (F.name, u), loc, rule, lambda u=u: thunk(u))
    run.each(spec.FUNCS, build)
    run.extra["unit_systems"] = list(UNITS)
    run.extra["explanation"] = ("dimension exponents (L, T) are inferred for every intermediate of every public function outside solver loops; in each unit system the power L^a T^b must stay "
                                "within %d of the 38 decades of a 32-bit float; a violation is an intermediate certainly outside the range at an admissible point whose canonical value is ordinary" % BUDGET)
