"""Operations with a restricted domain (roots, inverse functions) under rounding.

safe():   bounds of the *computed* value of a graph.  Rounding is monotone, so interval bounds taken operation by
          operation hold for the floating-point result too, and bounds like 0 and 1 are met exactly; the same holds for a
          component divided by a norm that contains it.  Facts of the branches on the way to the operation are used.
Edge:     an admissible point at which the argument certainly comes to the edge of the domain within less than one
          32-bit rounding error of the terms it is the difference of, although rounding the inputs would move it by
          far less: there its sign (and half of the digits of a root or an inverse cosine) is arbitrary.
"""
from fractions import Fraction
import math
import random
import time

import nodes as N
import ival
import guide
import decide

INF = math.inf
INVERSE = {"arccos": (-1.0, 1.0), "arcsin": (-1.0, 1.0), "arccosh": (1.0, INF), "arctanh": (-1.0, 1.0), "log": (0.0, INF), "log1p": (-1.0, INF)}
TINY = Fraction(1, 10 ** 8)   # below half a 32-bit unit roundoff


def facts_of(c, val):
    """comparisons (op, a, b) that hold"""
    if c.op == "not":
        return facts_of(c.args[0], not val)
    if c.op == "and" and val or c.op == "or" and not val:
        return [f for a in c.args for f in facts_of(a, val)]
    if c.op != "cmp":
        return []
    a, b = c.args
    if val:
        return [(c.attr, a, b)]
    if c.attr == "==":
        return []
    return [("<=" if c.attr == "<" else "<", b, a)]


def squares(s):
    """the terms of a sum of squares, as ids of their bases; None if it is not one"""
    out, st = [], [s]
    while st:
        x = st.pop()
        if x.op == "add":
            st.extend(x.args)
            continue
        if x.op == "mark":
            st.append(x.args[0])
            continue
        b = base2(x)
        if b is None:
            return None
        out.append(b)
    return out


def base2(x):
    if x.op == "pow" and x.args[1] is N.TWO:
        y = x.args[0]
    elif x.op == "mul" and strip(x.args[0]) is strip(x.args[1]):
        y = x.args[0]
    else:
        return None
    return strip(y).id


def strip(x):
    while x.op in ("neg", "mark") or x.op == "fn" and x.attr == "abs":
        x = x.args[0]
    return x


def norm_of(x):
    x = strip(x)
    if x.op == "pow" and x.args[1] is N.HALF:
        return squares(x.args[0])
    return None


class Bounds:
    def __init__(self, dom):
        self.dom, self.memo = dom, {}

    def __call__(self, x, fs=frozenset()):
        k = (x.id, fs)
        if k not in self.memo:
            self.memo[k] = (-INF, INF)
            lo, hi = self.step(x, fs)
            for op, a, b in fs:
                if a is x and b is not x:
                    hi = min(hi, self.weak(b)[1])
                elif b is x and a is not x:
                    lo = max(lo, self.weak(a)[0])
            if lo != lo or hi != hi:
                lo, hi = -INF, INF
            self.memo[k] = (lo, hi)
        return self.memo[k]

    def weak(self, x):
        return self(x)

    def sym(self, name):
        d = self.dom.dom.get(name)
        if d is None:
            return (-INF, INF)
        if d.kind == "range":
            return (float(d.lo), float(d.hi))
        return {"pos": (0.0, INF), "nonneg": (0.0, INF), "int": (0.0, INF), "neg": (-INF, 0.0)}.get(d.kind, (-INF, INF))

    def step(self, x, fs):
        o = x.op
        if o == "const":
            try:
                v = float(x.attr)
            except OverflowError:
                v = INF if x.attr > 0 else -INF
            return (v, v)
        if o == "sym":
            return self.sym(x.attr)
        if o == "pi":
            return (3.1415925, 3.1415928)
        if o == "inf":
            return (INF, INF)
        if o == "neginf":
            return (-INF, -INF)
        if o == "neg":
            a = self(x.args[0], fs)
            return (-a[1], -a[0])
        if o == "mark":
            return self(x.args[0], fs)
        if o in ("add", "sub"):
            a, b = self(x.args[0], fs), self(x.args[1], fs)
            if o == "sub":
                b = (-b[1], -b[0])
                r = [(op, p, q) for op, p, q in fs if {p, q} == set(x.args)]
                lo, hi = add(a[0], b[0], -INF), add(a[1], b[1], INF)
                for op, p, q in r:
                    if q is x.args[0]:
                        lo = max(lo, 0.0)
                    else:
                        hi = min(hi, 0.0)
                return (lo, hi)
            return (add(a[0], b[0], -INF), add(a[1], b[1], INF))
        if o == "mul":
            if strip(x.args[0]) is strip(x.args[1]) and x.args[0].op != "neg" and x.args[1].op != "neg" and even(x.args[0]) == even(x.args[1]):
                a = self(x.args[0], fs)
                return (0.0, max(prod(a[0], a[0]), prod(a[1], a[1])))
            return times(self(x.args[0], fs), self(x.args[1], fs))
        if o == "div":
            r = self.part(x.args[0], x.args[1])
            q = times(self(x.args[0], fs), recip(self(x.args[1], fs)))
            return (max(q[0], r[0]), min(q[1], r[1])) if r else q
        if o == "pow" and x.args[1].op == "const":
            return self.power(self(x.args[0], fs), x.args[1].attr)
        if o == "sel":
            c, a, b = x.args
            u = self(a, fs | frozenset(facts_of(c, True)))
            v = self(b, fs | frozenset(facts_of(c, False)))
            return (min(u[0], v[0]), max(u[1], v[1]))
        if o == "fn":
            f = x.attr
            if f in ("sin", "cos", "tanh"):
                return (-1.0, 1.0)
            a = self(x.args[0], fs)
            if f == "abs":
                return (0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])), max(abs(a[0]), abs(a[1])))
            if f in ("max", "min"):
                b = self(x.args[1], fs)
                g = max if f == "max" else min
                return (g(a[0], b[0]), g(a[1], b[1]))
            if f == "exp":
                return (0.0, INF)
            if f == "cosh":
                return (1.0, INF)
            if f in ("sinh", "arcsinh", "arctan", "expm1", "cbrt", "sign", "tan"):
                if f == "tan":
                    return (-INF, INF)
                return (0.0 if a[0] >= 0 else -INF, 0.0 if a[1] <= 0 else INF)
            if f in ("arccos", "arccosh"):
                return (0.0, INF)
            if f == "mod":
                b = self(x.args[1], fs)
                return (0.0, b[1]) if b[0] >= 0 else (-INF, INF)
            if f == "arctan2":
                return (0.0 if a[0] >= 0 else -3.15, 3.15)
            if f in ("floor", "ceil", "round", "trunc"):
                g = lambda v: v if math.isinf(v) else {"floor": math.floor, "ceil": math.ceil, "round": round, "trunc": math.trunc}[f](v)
                return (float(g(a[0])), float(g(a[1])))
        return (-INF, INF)

    def part(self, a, b):
        """a quotient of a part by the whole: component or partial norm by a norm containing it"""
        den = strip(b)
        if den.op == "fn" and den.attr == "max":
            return self.part(a, den.args[0]) or self.part(a, den.args[1])
        n = norm_of(b)
        if n is not None:
            if strip(a).id in n:
                return (-1.0, 1.0)
            m = norm_of(a)
            if m is not None and sub(m, n):
                return (-1.0, 1.0)
        s, t = squares(a), squares(b)
        if s is not None and t is not None and sub(s, t):
            return (0.0, 1.0)
        return None

    def power(self, a, e):
        if e.denominator % 2 == 0:
            a = (max(a[0], 0.0), max(a[1], 0.0))
            return (a[0] ** float(e), pw(a[1], e)) if e > 0 else recip((a[0] ** float(-e), pw(a[1], -e)))
        if e.denominator != 1:
            return (0.0 if a[0] >= 0 else -INF, INF)
        if e < 0:
            return recip(self.power(a, -e))
        if e.numerator % 2 == 0:
            lo = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
            return (pw(lo, e), pw(max(abs(a[0]), abs(a[1])), e))
        return (math.copysign(pw(abs(a[0]), e), a[0]), math.copysign(pw(abs(a[1]), e), a[1]))


def even(x):
    """sign changes stripped off, up to parity"""
    k = 0
    while x.op in ("neg", "mark") or x.op == "fn" and x.attr == "abs":
        if x.op == "neg":
            k += 1
        elif x.op == "fn":
            return "abs"
        x = x.args[0]
    return k % 2


def sub(m, n):
    n = list(n)
    for i in m:
        if i not in n:
            return False
        n.remove(i)
    return True


def add(a, b, d):
    r = a + b
    return d if r != r else r


def prod(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


def times(a, b):
    v = [prod(p, q) for p in a for q in b]
    return (min(v), max(v))


def recip(a):
    if a[0] >= 0:
        return (1 / a[1] if a[1] else INF, 1 / a[0] if a[0] else INF)
    if a[1] <= 0:
        return (1 / a[1] if a[1] else -INF, 1 / a[0] if a[0] else -INF)
    return (-INF, INF)


def pw(v, e):
    try:
        return v ** float(e)
    except OverflowError:
        return INF


# ------------------------------------------------------------------ sites
def sites(roots):
    """(node, facts, conditions) of every operation with a restricted domain, on every kind of path to it"""
    out, seen = [], set()
    st = [(r, frozenset(), ()) for r in roots]
    while st and len(seen) < 60000:
        x, fs, cs = st.pop()
        k = (x.id, fs)
        if k in seen:
            continue
        seen.add(k)
        if x.op == "pow" and x.args[1].op == "const" and x.args[1].attr.denominator % 2 == 0 or x.op == "fn" and x.attr in INVERSE:
            out.append((x, fs, cs))
        if x.op == "sel" and not N.is_bool(x):
            c, a, b = x.args
            st.append((c, fs, cs))
            st.append((a, fs | frozenset(facts_of(c, True)), cs + ((c, True),)))
            st.append((b, fs | frozenset(facts_of(c, False)), cs + ((c, False),)))
        elif x.op == "loop":
            p = N.loop_parts(x)
            free = frozenset(f for f in fs)
            for a in x.args:
                st.append((a, free, cs))
        else:
            st.extend((a, fs, cs) for a in x.args)
    return out


def inside(x, fs, bounds):
    lo, hi = bounds(x.args[0], fs)
    if x.op == "pow":
        return lo >= 0
    a, b = INVERSE[x.attr]
    return lo >= a and hi <= b


def gaps(x, fs, bounds):
    """distances from the edge of the domain, each as a difference: (p, q) stands for p - q >= 0; sums of terms of one
    sign are none"""
    return [(p, q, c) for p, q, c in raw_gaps(x) if not (bounds(p, fs)[0] >= 0 >= bounds(q, fs)[1] or bounds(p, fs)[1] <= 0 <= bounds(q, fs)[0])]


def raw_gaps(x):
    a = x.args[0]
    if x.op == "pow":
        return differences(a)
    lo, hi = INVERSE[x.attr]
    out = []
    if lo != -INF:
        out.append((a, N.const(int(lo)), ())) if lo else out.extend(differences(a))
    if hi != INF:
        out.append((N.const(int(hi)), a, ()))
    return out


def differences(a, cs=(), depth=0):
    """the factors of a that are differences, with the conditions under which they count"""
    if depth > 6:
        return []
    if a.op == "sub":
        return [(a.args[0], a.args[1], cs)]
    if a.op == "add":
        u, v = a.args
        return [(u, N.neg(v), cs)]
    if a.op in ("mul", "div"):
        return differences(a.args[0], cs, depth + 1) + differences(a.args[1], cs, depth + 1)
    if a.op in ("neg", "mark", "pow") or a.op == "fn" and a.attr == "abs":
        return differences(a.args[0], cs, depth + 1)
    if a.op == "fn" and a.attr in ("max", "min"):
        u, v = a.args
        c = N.cmp("<=", v, u) if a.attr == "max" else N.cmp("<=", u, v)
        return differences(u, cs + ((c, True),), depth + 1) + differences(v, cs + ((c, False),), depth + 1)
    if a.op == "sel":
        return differences(a.args[1], cs + ((a.args[0], True),), depth + 1) + differences(a.args[2], cs + ((a.args[0], False),), depth + 1)
    return []


def margin(c, val, e):
    """the condition holds at the point with room to spare"""
    if c.op == "not":
        return margin(c.args[0], not val, e)
    if c.op == "and" and val or c.op == "or" and not val:
        return all(margin(a, val, e) for a in c.args)
    if e(c) is not val:
        return False
    if c.op == "cmp":
        a, b = number(e(c.args[0])), number(e(c.args[1]))
        return a is not None and b is not None and abs(a - b) > 1e-3 * max(abs(a), abs(b))
    return c.op == "bool"


def number(v):
    if isinstance(v, (Fraction, ival.PiM)):
        return float(v)
    i = ival.iv(v)
    if isinstance(i, tuple) and abs(i[1] - i[0]) <= 1e-9 * (abs(i[0]) + 1e-30) or isinstance(i, tuple) and max(abs(i[0]), abs(i[1])) < 1e-9:
        return float(i[0] if abs(i[0]) > abs(i[1]) else i[1])
    return None


def steep(x):
    """the operation turns a rounding error at the edge into a much larger one"""
    return x.op == "fn" and x.attr not in ("log", "log1p", "arctanh") or x.op == "pow" and x.args[1].attr < 1


def degree(x, s, memo=None):
    """degree of homogeneity in the symbol s alone, or None"""
    memo = {} if memo is None else memo
    if s not in N.deps(x):
        return Fraction(0)
    if x.id in memo:
        return memo[x.id]
    o, r = x.op, None
    if o == "sym":
        r = Fraction(1)
    elif o in ("neg", "mark") or o == "fn" and x.attr == "abs":
        r = degree(x.args[0], s, memo)
    elif o in ("add", "sub", "sel") or o == "fn" and x.attr in ("max", "min"):
        a = x.args[1:] if o == "sel" else x.args
        if o != "sel" or s not in N.deps(x.args[0]):
            d = [degree(y, s, memo) for y in a]
            r = d[0] if None not in d and len(set(d)) == 1 else None
    elif o in ("mul", "div"):
        a, b = degree(x.args[0], s, memo), degree(x.args[1], s, memo)
        if a is not None and b is not None:
            r = a + b if o == "mul" else a - b
    elif o == "pow" and x.args[1].op == "const":
        a = degree(x.args[0], s, memo)
        r = None if a is None else a * x.args[1].attr
    memo[x.id] = r
    return r


def anchored(p, q):
    """an input on which p and q depend with different powers: rounding it alone moves p - q by a like share of its terms
    wherever they cancel, so what cancellation leaves is no worse than the input"""
    for s in sorted(N.deps(p) | N.deps(q)):
        a, b = degree(p, s), degree(q, s)
        if a is not None and b is not None and abs(a - b) >= Fraction(1, 4):
            return s
    return None


def undone(x, parents):
    """every use raises the root to a power that takes the loss back (a square, the cosine of an arc cosine)"""
    ps = parents.get(x.id, ())
    if not ps:
        return False
    for y in ps:
        if x.op == "pow":
            if y.op == "pow" and y.args[0] is x and y.args[1].op == "const" and y.args[1].attr * x.args[1].attr >= 1:
                continue
            if y.op == "mul" and y.args[0] is x and y.args[1] is x:
                continue
            if y.op == "fn" and y.attr in ("cos", "cosh"):
                continue
        elif x.attr in ("arccos", "arcsin", "arccosh") and y.op == "fn" and y.attr in {"arccos": ("cos",), "arcsin": ("sin",), "arccosh": ("cosh",)}[x.attr]:
            continue
        elif x.attr in ("arccos", "arccosh") and y.op == "fn" and y.attr in ("cos", "cosh"):
            continue
        return False
    return True


def parents_of(roots):
    out = {}
    for y in N.walk(roots):
        for a in y.args:
            out.setdefault(a.id, []).append(y)
    return out


class Edge:
    """admissible points at which an operation stands closer to the edge of its domain than one rounding error of the
    terms its argument is the difference of, while the inputs, each changed by its own rounding error, would not
    move the argument by nearly that much: what is computed there is noise that is not in the inputs"""

    def __init__(self, x, fs, cs, dom, salt, bounds, parents):
        self.x, self.cs, self.dom = x, cs, dom
        self.rng = random.Random(salt)
        self.gaps = gaps(x, fs, bounds) if steep(x) and not undone(x, parents) or not inside(x, fs, bounds) else []
        self.anchors = [anchored(p, q) for p, q, c in self.gaps]
        self.gaps = [g for g, s in zip(self.gaps, self.anchors) if s is None]
        self.anchors = [s for s in self.anchors if s]
        self.ok = bool(self.gaps) and not any(z.op in ("loop", "opq") for z in N.walk([x]))
        roots = [x] + [c for c, v in cs] + list(dom.constraints)
        self.syms = sorted({s for r in roots for s in N.deps(r)})
        self.tried = 0
        if any(s.startswith(("$", "?")) for s in self.syms):
            self.ok = False
        self.pts = None

    def good(self, pt, p, q, act, g, size, slopes):
        e = ival.Eval(pt)
        if any(e(c) is not v for c, v in act):
            return False
        if any(e(c) is not True for c in self.dom.constraints):
            return False
        if not all(margin(c, v, e) for c, v in self.cs):
            return False
        s = number(e(size))
        if s is None or s == 0 or s != s or math.isinf(s):
            return False
        d = ival.iv(e(g))
        if not isinstance(d, tuple) or not max(abs(float(d[0])), abs(float(d[1]))) < float(TINY) * s or float(d[1]) < 0:
            return False
        if not float(d[0]) > 0:
            return None
        total = 0.0
        for v, y in slopes.items():
            w = ival.iv(e(y))
            if not isinstance(w, tuple):
                return False
            total += abs(float(pt[v])) * max(abs(float(w[0])), abs(float(w[1])))
        return total < 0.02 * s

    def beside(self, pt, *a):
        """the point, or one beside it if it lies exactly on the edge (where nothing need be rounded)"""
        r = self.good(pt, *a)
        if r is None:
            for k in range(12):
                h = 10.0 ** self.rng.uniform(-5.5, -4.3)
                qt = {s: v + Fraction(self.rng.uniform(-h, h)) * (abs(v) or 1) for s, v in pt.items()}
                if all(spec_ok(self.dom, s, v) for s, v in qt.items()) and self.good(qt, *a):
                    return qt
            return None
        return pt if r else None

    def search(self, budget):
        if not self.ok:
            return None
        end = time.process_time() + budget
        dom, syms, rng = self.dom, self.syms, self.rng
        if self.pts is None:
            self.pts = list(decide.structured([self.x] + [c for c, v in self.cs] + list(dom.constraints), dom, syms, 150, rng))
        for p, q, act in self.gaps:
            g = N.sub(p, q)
            size = N.add(N.fn("abs", p), N.fn("abs", q))
            small = N.cmp("<", N.fn("abs", g), N.mul(N.const(TINY), size))
            try:
                slopes = {v: N.diff(g, N.sym(v)) for v in sorted(N.deps(g))}
            except NotImplementedError:
                continue
            for pt in self.pts:
                if time.process_time() > end:
                    break
                self.tried += 1
                w = self.beside(pt, p, q, act, g, size, slopes)
                if w:
                    return witness(self.x, p, q, w)
            env = decide.proposals(syms, dom, [], 240, rng)
            for k in range(2):
                if time.process_time() > end:
                    break
                goals = [small] + [c if v else N.lnot(c) for c, v in tuple(self.cs) + act] + list(dom.constraints)
                f = guide.climb(decide.feval, goals, env, 240, syms, dom, [], rng, decide.REAL, gens=60, want=8)
                self.tried += 240
                if f:
                    for i in range(len(f[syms[0]])):
                        pt = {s: Fraction(f[s][i]) for s in syms}
                        w = self.beside(pt, p, q, act, g, size, slopes)
                        if w:
                            return witness(self.x, p, q, w)
                env = decide.proposals(syms, dom, [], 240, rng)
        return None


def spec_ok(dom, s, v):
    d = dom.dom.get(s)
    if d is None:
        return True
    if d.kind == "range":
        return d.lo <= v <= d.hi
    return {"pos": v > 0, "nonneg": v >= 0, "neg": v < 0, "int": v.denominator == 1}.get(d.kind, True)


def witness(x, p, q, pt):
    return dict(operation=N.show(x, 5), at=str(x.loc), difference_of=[N.show(p, 4), N.show(q, 4)], point={s: str(v) for s, v in pt.items()})
