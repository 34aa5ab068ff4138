"""Proposing points for conditions that random proposals do not reach.

For every condition of a case split that has the same value at all proposals, walk towards its boundary (branch
distance); for equalities, solve for one symbol exactly.  Nothing is decided here: the points go to the interval
semantics in decide.confirm.
"""
from fractions import Fraction
import random

import numpy as np

import nodes as N
import ival


def conditions(roots, lim=24):
    out, seen = [], set()

    def put(c):
        while c.op == "not":
            c = c.args[0]
        if c.id in seen or c.op == "bool" or not N.deps(c):
            return
        seen.add(c.id)
        out.append(c)
    for r in roots:
        if N.is_bool(r):
            put(r)
        for x in N.walk([r]):
            if x.op == "sel":
                put(x.args[0])
            elif x.op == "fn" and x.attr in ("max", "min"):
                put(N.cmp("<", *x.args))
            elif x.op == "fn" and x.attr in ("abs", "sign"):
                put(N.cmp("<", x.args[0], N.ZERO))
                if x.attr == "sign":
                    put(N.cmp("==", x.args[0], N.ZERO))
    return out[:lim]


def atoms(c):
    """comparisons a condition is made of"""
    out, st, seen = [], [c], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "cmp":
            out.append(x)
        elif x.op in ("and", "or", "not", "beq") or x.op == "sel" and N.is_bool(x):
            st.extend(x.args)
    return out


def slog(x):
    x = np.asarray(x, float)
    return np.sign(x) * np.log1p(np.abs(x) * 1e12)


def rho(c, val, n):
    """> 0 where the condition holds, its size the distance from the boundary; val: node -> array"""
    o = c.op
    if o == "bool":
        return np.full(n, 9.0 if c.attr else -9.0)
    with np.errstate(all="ignore"):
        if o == "cmp":
            l, r = val(c.args[0]), val(c.args[1])
            if l.dtype == bool or r.dtype == bool:
                v = np.where(val(c), 1.0, -1.0)
            elif c.attr == "==":
                v = -np.abs(slog(l) - slog(r))
            else:
                v = slog(r) - slog(l)
                if c.attr == "<=":
                    v = np.where(np.asarray(l) == np.asarray(r), 1e-300, v)
            return np.broadcast_to(np.where(np.isnan(v), -99.0, v), (n,))
        if o == "and":
            return np.minimum(rho(c.args[0], val, n), rho(c.args[1], val, n))
        if o == "or":
            return np.maximum(rho(c.args[0], val, n), rho(c.args[1], val, n))
        if o == "not":
            return -rho(c.args[0], val, n)
        if o == "sel":
            p = rho(c.args[0], val, n)
            a, b = rho(c.args[1], val, n), rho(c.args[2], val, n)
            return np.maximum(np.minimum(p, a), np.minimum(-p, b))
    return np.broadcast_to(np.where(val(c), 1.0, -1.0), (n,))


def scorer(feval, goals):
    """function env, n -> sum of the unmet parts (0 where all goals hold)"""
    need = []
    for g in goals:
        st, seen = [g], set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            need.append(x)
            if x.op == "cmp":
                need.extend(x.args)
            elif x.op in ("and", "or", "not") or x.op == "sel" and N.is_bool(x):
                st.extend(x.args)
    need = list({x.id: x for x in need}.values())

    def score(env, n):
        vals = {x.id: v for x, v in zip(need, feval(need, env, n))}
        tot = np.zeros(n)
        for g in goals:
            r = rho(g, lambda x: vals[x.id], n)
            tot = tot + np.where(r > 0, 0.0, np.minimum(r, -1e-9))
        return tot
    return score


def mutate(env, idx, syms, domain, consts, rng, n, real):
    out = {s: env[s][idx].copy() for s in syms}
    for i in range(n):
        for s in rng.sample(syms, min(len(syms), rng.choice((1, 1, 1, 2, 3)))):
            d = domain.dom.get(s, real)
            x = out[s][i]
            if d.kind == "range":
                lo, hi = float(d.lo), float(d.hi)
                u = (x - lo) / (hi - lo) if hi > lo else 0.0
                k = rng.random()
                if k < 0.5:
                    u = min(1.0, max(0.0, u + rng.gauss(0, 10.0 ** rng.uniform(-5, 0))))
                elif k < 0.7:
                    u = u * 10.0 ** rng.uniform(-3, 0)
                elif k < 0.9:
                    u = 1 - (1 - u) * 10.0 ** rng.uniform(-3, 0)
                else:
                    u = rng.random()
                x = lo + u * (hi - lo)
            elif d.kind == "int":
                x = max(0.0, x + rng.choice((-1, 1, 5, -5, 50)))
            else:
                k = rng.random()
                if k < 0.75:
                    x = x * 10.0 ** rng.gauss(0, rng.choice((0.003, 0.05, 0.5, 2.0, 5.0)))
                elif k < 0.85 and consts:
                    x = rng.choice(consts) * (1 + rng.gauss(0, 10.0 ** rng.uniform(-6, -1)))
                elif k < 0.93:
                    x = out[rng.choice(syms)][i] * (1 + rng.gauss(0, 10.0 ** rng.uniform(-6, -1)))
                else:
                    x = 10.0 ** rng.uniform(-1, 1)
                if d.kind in ("real", "nonzero") and rng.random() < 0.2:
                    x = -x
                if d.kind == "pos":
                    x = abs(x) or 1.0
                elif d.kind == "nonneg":
                    x = abs(x)
                elif d.kind == "neg":
                    x = -abs(x) or -1.0
                elif d.kind == "nonzero":
                    x = x or 1.0
                if not np.isfinite(x) or abs(x) > 1e12 or 0 < abs(x) < 1e-14:
                    x = 1.0 if d.kind != "neg" else -1.0
            out[s][i] = x
    return out


def climb(feval, goals, env, n, syms, domain, consts, rng, real, gens=30, pop=160, want=12):
    """points at which all goals hold, or None"""
    sc = scorer(feval, goals)
    cur = sc(env, n)
    found = {s: [] for s in syms}
    cnt = 0
    for g in range(gens):
        hit = np.nonzero(cur == 0)[0]
        if len(hit):
            take = hit[:want]
            for s in syms:
                found[s].extend(env[s][take].tolist())
            cnt += len(take)
            if cnt >= want:
                break
        order = np.argsort(-cur)[:40]
        if not len(order) or cur[order[0]] <= -90:
            return None if not cnt else found
        par = np.array([order[min(int(rng.expovariate(0.15)), len(order) - 1)] for _ in range(pop)])
        ch = mutate(env, par, syms, domain, consts, rng, pop, real)
        cc = sc(ch, pop)
        env = {s: np.concatenate([env[s][order], ch[s]]) for s in syms}
        cur = np.concatenate([cur[order], cc])
        # distinct parents: drop exact ties beyond the first few
    hit = np.nonzero(cur == 0)[0]
    if not cnt and len(hit):
        for s in syms:
            found[s].extend(env[s][hit[:want]].tolist())
        cnt = len(hit[:want])
    return found if cnt else None


def flip_points(feval, code, ref, domain, env, n, syms, consts, rng, real, lim=8):
    """points at which conditions of the code take the value they do not have at the proposals"""
    cons = list(domain.constraints)
    roots = [code, ref]
    cs = conditions(roots)
    cs = [c for c in cs if not any(x.op in ("loop", "opq") for x in N.walk([c]))]
    if not cs:
        return []
    ok = np.ones(n, bool)
    vals = feval(cs + cons, env, n)
    for v in vals[len(cs):]:
        ok &= np.asarray(v, bool)
    out, done = [], 0
    for c, v in zip(cs, vals):
        v = np.asarray(v, bool)[ok]
        for target in (True, False):
            if (v == target).sum() >= 3:
                continue
            if done >= lim:
                return out
            if all(a.attr == "==" for a in atoms(c)) and c.op == "cmp" and target:
                continue
            done += 1
            p = climb(feval, [c if target else N.lnot(c)] + cons, env, n, syms, domain, consts, rng, real)
            if p:
                out.append(p)
    return out


# ------------------------------------------------------------------ exact equalities
def solve(g, p, s, dom):
    """value of s making g zero exactly at the rational point p, if g is linear in s there (or in s squared)"""
    def at(v):
        q = dict(p)
        q[s] = v
        r = ival.Eval(q)(g)
        return r if isinstance(r, Fraction) else None
    x = [Fraction(1), Fraction(2), Fraction(3)]
    y = [at(v) for v in x]
    if None in y:
        return None
    a = y[1] - y[0]
    if a != 0 and y[2] - y[1] == a:
        v = x[0] - y[0] / a
        return v if dom.ok(float(v)) and at(v) == 0 else None
    # a + b s^2, a + b / s
    b = (y[1] - y[0]) / 3
    if b != 0 and (y[2] - y[0]) / 8 == b:
        v2 = 1 - y[0] / b
        if v2 > 0:
            num, den = int(v2.numerator ** 0.5 + 0.5), int(v2.denominator ** 0.5 + 0.5)
            if num * num == v2.numerator and den * den == v2.denominator:
                v = Fraction(num, den)
                for w in (v, -v):
                    if dom.ok(float(w)) and at(w) == 0:
                        return w
        return None
    b = (y[0] - y[1]) * 2
    if b != 0 and (y[0] - y[2]) * Fraction(3, 2) == b:
        a = y[0] - b
        if a != 0:
            v = -b / a
            return v if dom.ok(float(v)) and at(v) == 0 else None
    return None


def equality_points(feval, code, ref, domain, env, n, syms, consts, rng, real, lim=10):
    """exact points on the surfaces where compared quantities are equal"""
    cons = list(domain.constraints)
    cs = [c for c in conditions([code, ref]) if not any(x.op in ("loop", "opq") for x in N.walk([c]))]
    cs.sort(key=lambda c: not any(a.attr == "==" for a in atoms(c)))
    out = []
    for c in cs[:lim]:
        ats = atoms(c)
        eqs = [a for a in ats if a.attr == "=="]
        use = eqs or ats[:3]
        rel = N.subst(c, {a: N.boolean(True) for a in eqs}) if eqs else N.boolean(True)
        goals = ([rel] if rel.op != "bool" and eqs else []) + cons
        base = climb(feval, goals, env, n, syms, domain, consts, rng, real, gens=15, want=8) if goals else {s: env[s][:8].tolist() for s in syms}
        if not base:
            continue
        for i in range(min(8, len(base[syms[0]]))):
            p0 = {}
            for s in syms:
                v = base[s][i]
                d = domain.dom.get(s, real)
                q = Fraction("%.3g" % v)
                p0[s] = q if d.ok(float(q)) else Fraction(v)
            for order in range(2):
                p, fixed, good = dict(p0), set(), True
                for a in use if eqs else use[i % len(use):][:1]:
                    g = N.sub(a.args[0], a.args[1])
                    r = ival.Eval(p)(g)
                    if isinstance(r, Fraction) and r == 0:
                        continue
                    ss = sorted(N.deps(g) - fixed)
                    rng.shuffle(ss)
                    for s in ss:
                        if s not in p:
                            continue
                        v = solve(g, p, s, domain.dom.get(s, real))
                        if v is not None:
                            p[s] = v
                            fixed |= N.deps(g)
                            break
                    else:
                        good = False
                        break
                if good:
                    out.append(p)
    return out
