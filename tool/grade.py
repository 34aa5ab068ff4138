"""Homogeneity types of value graphs (units of measure and parity).

A symmetry maps every symbol s to g(s)*s with g(s) = sign * lam^a * tau^b.  The
type of a node n is the factor g with n[symmetry] = g*n, derived bottom up;
None means no such factor was derived (which proves nothing).
"""
from fractions import Fraction
import nodes as N

ONE = (Fraction(0), Fraction(0), 1)
ANY = "any"      # the constant zero has every type

ODD = {"sin", "tan", "sinh", "tanh", "arcsin", "arctan", "arcsinh", "arctanh", "expm1x"}
EVEN = {"cos", "cosh"}


def gmul(p, q):
    return (p[0] + q[0], p[1] + q[1], p[2] * q[2])


def ginv(p):
    return (-p[0], -p[1], p[2])


def nodim(g):
    return g is not ANY and g is not None and g[0] == 0 and g[1] == 0


class Grader:
    def __init__(self, env, with_exit=True):
        """env: symbol name -> type"""
        self.env, self.with_exit = dict(env), with_exit
        self.memo = {}
        self.why = None

    def fail(self, x, why):
        if self.why is None:
            self.why = (x, why)
        return None

    def __call__(self, n):
        stack = [n]
        memo = self.memo
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op == "loop":
                memo[x.id] = self.loop(x)
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x.id] = self.step(x, [memo[a.id] for a in x.args])
            stack.pop()
        return memo[n.id]

    def step(self, x, g):
        o = x.op
        if o == "const":
            return ANY if x.attr == 0 else ONE
        if o in ("pi",):
            return ONE
        if o in ("inf", "neginf", "nan", "bool"):
            return ONE if o != "nan" else ANY
        if o == "sym":
            return self.env.get(x.attr, ONE)
        if any(v is None for v in g):
            return None
        if o == "mark":
            return g[0]
        if o == "neg":
            return g[0]
        if o == "mul":
            if ANY in g:
                return ANY
            return gmul(g[0], g[1])
        if o == "div":
            if g[0] is ANY:
                return ANY
            if g[1] is ANY:
                return None
            return gmul(g[0], ginv(g[1]))
        if o in ("add", "sub"):
            return self.same(x, g)
        if o == "pow":
            e = x.args[1]
            if e.op != "const":
                return ONE if g[0] == ONE and g[1] == ONE else self.fail(x, "power with a variable exponent")
            if g[0] is ANY:
                return ANY
            q = e.attr
            s = g[0][2]
            if s < 0:
                if q.denominator == 1:
                    s = 1 if q.numerator % 2 == 0 else -1
                else:
                    return self.fail(x, "root of a quantity that changes sign")
            return (g[0][0] * q, g[0][1] * q, s)
        if o == "fn":
            return self.func(x, g)
        if o == "cmp":
            if x.attr == "==":
                r = self.same(x, g)
                return None if r is None else ONE
            r = self.same(x, g)
            if r is None:
                return None
            if r is ANY or r[2] > 0:
                return ONE
            return self.fail(x, "comparison flips sign")
        if o in ("and", "or", "not", "beq"):
            return ONE if all(v == ONE or v is ANY for v in g) else None
        if o == "sel":
            if g[0] != ONE and g[0] is not ANY:
                return None
            return self.same(x, g[1:])
        return self.fail(x, "not understood")

    def same(self, x, g):
        k = [v for v in g if v is not ANY]
        if not k:
            return ANY
        if all(v == k[0] for v in k):
            return k[0]
        return self.fail(x, "terms of different type %s" % (k,))

    def func(self, x, g):
        f = x.attr
        if f in ODD:
            if g[0] is ANY:
                return ANY
            return g[0] if nodim(g[0]) else self.fail(x, "%s of a dimensional quantity" % f)
        if f in EVEN:
            return ONE if g[0] is ANY or nodim(g[0]) else self.fail(x, "%s of a dimensional quantity" % f)
        if f == "abs":
            return g[0] if g[0] is ANY else (g[0][0], g[0][1], 1)
        if f == "sign":
            return g[0] if g[0] is ANY else (Fraction(0), Fraction(0), g[0][2])
        if f == "cbrt":
            return g[0] if g[0] is ANY else (g[0][0] / 3, g[0][1] / 3, g[0][2])
        if f in ("max", "min"):
            r = self.same(x, g)
            return r if r is None or r is ANY or r[2] > 0 else self.fail(x, "max/min of odd quantities")
        if f == "arctan2":
            r = self.same(x, g)
            if r is None:
                return None
            return ONE if r is ANY or r[2] > 0 else self.fail(x, "arctan2 of odd quantities")
        if f == "mod":
            r = self.same(x, g)
            return r if r is None or r is ANY or r[2] > 0 else self.fail(x, "mod of odd quantities")
        if f in ("isnan", "isfinite", "isinf"):
            return ONE
        if all(v == ONE or v is ANY for v in g):
            return ONE
        return self.fail(x, "%s of a quantity with units or parity" % f)

    # ------------------------------------------------------------ loops
    def loop(self, x):
        p = N.loop_parts(x)
        n, d = p["n"], p["depth"]
        need = {p["k"]}
        cn = ["$c%d_%d" % (d, i) for i in range(n)]
        m = {N.carry_sym(d, i): p["body"][i] for i in range(n)}
        V1 = N.subst(p["cond"], m) if p["kind"] == "while" else None
        if V1 is not None and self.with_exit:
            need |= {i for i in range(n) if cn[i] in N.deps(V1)}
        while True:
            more = {i for j in need for i in range(n) if cn[i] in N.deps(p["body"][j])} - need
            if not more:
                break
            need |= more
        gi = {i: self(p["init"][i]) for i in need}
        if any(v is None for v in gi.values()):
            return None
        # zero starting values: type from the body
        for _ in range(3):
            sub = Grader(dict(self.env, **{cn[i]: gi[i] for i in need}), self.with_exit)
            sub.env["$i%d" % d] = ONE
            new = {i: sub(p["body"][i]) for i in need}
            ch = False
            for i in need:
                if new[i] is None:
                    self.why = self.why or sub.why
                    return None
                if gi[i] is ANY and new[i] is not ANY:
                    gi[i] = new[i]
                    ch = True
                elif gi[i] is not ANY and new[i] is not ANY and new[i] != gi[i]:
                    return self.fail(p["body"][i], "loop component changes type from %s to %s" % (gi[i], new[i]))
            if not ch:
                break
        if self.with_exit and V1 is not None:
            sub = Grader(dict(self.env, **{cn[i]: gi[i] for i in need}), self.with_exit)
            m0 = {N.carry_sym(d, i): p["init"][i] for i in range(n)}
            if sub(V1) != ONE or self(N.subst(p["cond"], m0)) != ONE:
                self.why = self.why or sub.why
                return self.fail(V1, "exit test depends on units or direction")
        if p["kind"] == "fori":
            if self(p["lo"]) not in (ONE, ANY) or self(p["hi"]) not in (ONE, ANY):
                return None
        return gi[p["k"]]
