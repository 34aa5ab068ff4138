"""Derivatives on branch surfaces (C16).

Where a comparison of the value graph switches branches, the derivative chosen exactly on the surface must be the
limit of the derivatives beside it, whenever those agree in every direction.  Points exactly on the surface are
constructed (solving the compared quantities for one argument); the derivative graph is evaluated there and beside it
with interval semantics.
"""
from fractions import Fraction as Q
import random
import time

import nodes as N
import ival
import decide
import guide

BLOCK = ("loop", "opq")
INVERSE = ("arccos", "arcsin", "arctan2", "arccosh")


def surfaces(y):
    out = list(guide.conditions([y], 40))
    seen = {x.id for x in out}
    for x in N.walk([y]):
        b = None
        if x.op == "div" and N.deps(x.args[1]):
            b = x.args[1]
        elif x.op == "pow" and N.deps(x.args[0]) and x.args[1].op == "const" and x.args[1].attr < 1:
            b = x.args[0]
        elif x.op == "fn" and x.attr == "log" and N.deps(x.args[0]):
            b = x.args[0]
        if b is not None:
            c = N.cmp("==", b, N.ZERO)
            if c.op == "cmp" and c.id not in seen:
                seen.add(c.id)
                out.append(c)
    return [c for c in out if not any(z.op in BLOCK for z in N.walk([c]))]


def square(b):
    return b.op == "fn" and b.attr == "abs" or b.op == "pow" and b.args[1].op == "const" and b.args[1].attr % 2 == 0 or b.op == "mul" and b.args[0] is b.args[1]


def number(v):
    if isinstance(v, (Q, ival.PiM)):
        return float(v)
    i = ival.iv(v)
    if isinstance(i, tuple) and abs(i[1] - i[0]) <= 1e-9 * (1 + abs(i[0])):
        return float(i[0])
    return None


def is_zero(v):
    return isinstance(v, Q) and v == 0


def on_surface(c, y, dom, syms, rng, want=10):
    st = list(decide.structured([y], dom, syms, 120, rng))
    env = decide.proposals(syms, dom, [], 8, rng)
    st += [{s: Q("%.3g" % env[s][i]) for s in syms} for i in range(8)]
    for a in guide.atoms(c)[:3]:
        g = N.sub(*a.args)
        n = 0
        for p in st:
            if n >= want:
                break
            if any(not dom.dom.get(s, decide.REAL).ok(float(v)) for s, v in p.items()):
                continue
            r = ival.Eval(p)(g)
            if not (isinstance(r, Q) and r == 0):
                ss = sorted(N.deps(g))
                rng.shuffle(ss)
                for s in ss:
                    v = guide.solve(g, p, s, dom.dom.get(s, decide.REAL)) if s in p and isinstance(p[s], Q) else None
                    if v is not None:
                        p = dict(p)
                        p[s] = v
                        break
                else:
                    continue
            if all(ival.Eval(p)(q) is True for q in dom.constraints):
                n += 1
                yield g, p


def directions(g, p, rng):
    """single-argument moves first, then mixed ones"""
    free = [s for s in sorted(p) if isinstance(p[s], Q)]
    near = [s for s in free if s in N.deps(g)]
    rng.shuffle(near)
    for s in near[:4]:
        yield {s: Q(1, 10 ** 7) * (abs(p[s]) or 1)}
    if len(free) > 1:
        for _ in range(3):
            yield {s: Q(rng.choice((-3, -2, -1, 1, 2, 3)), 2 * 10 ** 7) * (abs(p[s]) or 1) for s in free}


PLAIN = ("add", "sub", "mul", "div", "neg", "pow", "fn", "mark")


def always(roots):
    """nodes whose value takes part in the result whichever branches are taken"""
    memo = {}

    def parts(x):
        if x.op == "loop":
            p = N.loop_parts(x)
            return list(p["init"]) + list(p["body"])
        return list(x.args[1:]) if x.op == "sel" else list(x.args) if x.op in PLAIN else []

    def comp(x):
        ps = [memo[a.id] for a in parts(x)]
        if x.op == "sel":
            m = {k: v for k, v in ps[0].items() if k in ps[1]}
        else:
            m = {}
            for q in ps:
                m.update(q)
        m[x.id] = x
        return m
    for r in roots:
        st = [r]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            todo = [a for a in parts(x) if a.id not in memo]
            if todo:
                st.extend(todo)
            else:
                memo[x.id] = comp(x)
                st.pop()
    out = {}
    for r in roots:
        out.update(memo[r.id])
    return list(out.values())


def frontier(roots):
    """what can be judged: the outputs that contain no loop; in the others, the values that feed the loops; and the
    reciprocals of quotients, which pass through infinity where the value itself is regular"""
    def free(x):
        return not any(z.op in BLOCK for z in N.walk([x])) and N.deps(x) and not any(s.startswith(("$", "?")) for s in N.deps(x))
    out = {x.id: x for x in roots if free(x)}
    rest = [x for x in roots if x.id not in out]
    use = always(roots)
    seen = {x.id for x in use}
    for x in always(rest) if rest else []:
        if x.op == "loop":
            out.update({a.id: a for a in N.loop_parts(x)["init"] if free(a)})
    for z in use:
        if z.op == "div" and z.args[1].op == "div" and N.deps(z.args[1].args[1]) and z.args[1].id in seen and free(z):
            out[z.id] = z
    return [x for x in out.values() if x.op not in ("sym", "const")]


def search(y, dom, seed, budget):
    """(witness or None, points examined)"""
    if any(x.op in BLOCK for x in N.walk([y])):
        return None, 0
    syms = sorted(N.deps(y))
    if not syms or any(s.startswith(("$", "?")) for s in syms):
        return None, 0
    cs = surfaces(y)
    nans = not any(x.op == "fn" and x.attr in INVERSE for x in N.walk([y]))  # angles at 0 and pi
    if not cs:
        return None, 0
    # the norm of a vector that vanishes is singular in itself; the root of the square (or size) of one number is not
    roots = [x.args[0] for x in N.walk([y]) if x.op == "pow" and x.args[1].op == "const" and x.args[1].attr.denominator != 1 and not square(x.args[0])]
    end = time.process_time() + budget
    rng = random.Random(seed)
    D = {}
    pts = 0
    for c in cs:
        for g, p in on_surface(c, y, dom, syms, rng):
            if time.process_time() > end:
                return None, pts
            e0 = ival.Strict(p)
            if number(e0(y)) is None:
                continue
            sides = []
            for mv in directions(g, p, rng):
                pair = []
                for sg in (1, -1):
                    q = dict(p, **{s: p[s] + sg * h for s, h in mv.items()})
                    e = ival.Strict(q)
                    if any(not dom.dom.get(s, decide.REAL).ok(float(q[s])) for s in mv) or any(e(k) is not True for k in dom.constraints):
                        break
                    pair.append(e)
                if len(pair) == 2:
                    sides += pair
            if len(sides) < 2:
                continue
            pts += 1
            for t in syms:
                if time.process_time() > end:
                    return None, pts
                if t not in D:
                    D[t] = N.diff(y, N.sym(t))
                v = []
                for e in sides:
                    a = number(e(D[t]))
                    if a is None or abs(a) > 1e6 or v and abs(a - v[0]) > 1e-3 * max(abs(a), abs(v[0]), 1e-3):
                        v = None
                        break
                    v.append(a)
                if not v:
                    continue
                w = e0(D[t])
                z = number(w)
                nan = nans and not any(is_zero(e0(b)) for b in roots) and (w is ival.NANV or w is ival.INFV)
                if nan or z is not None and abs(z - v[0]) > 1e-2 * max(abs(z), abs(v[0]), 1e-3):
                    return dict(surface=N.show(c, 3), with_respect_to=t, derivative_there="undefined" if nan else z, derivative_beside=v[0],
                                point={k: str(x) for k, x in p.items()}, at=str(c.loc)), pts
    return None, pts
