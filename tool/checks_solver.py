"""Checks of the iterative solvers (loop-carried value graphs) and of the dimensional structure."""
from fractions import Fraction
import itertools
import numpy as np

import nodes as N
from nodes import sym, const as C, sub, add, mul, div, neg, sqrt, power, fn, cmp, land, lor, lnot, sel
import decide
import grade
import ival
import nf
import spec
from spec import BYNAME, dot, norm, vec, two_body, sq
from decide import REAL, POS, NONNEG, RANGE, Dom, Domain
from framework import Skip, Run
from checks_formula import unwrap, outer_loops, loc_of, scalar, one, kepler_rows
from values import Func, Wrapped, Partial, AbsRaise, Incomplete

S = sym


class Loop:
    """the loop(s) an output expression is computed from, as a transition system"""

    def __init__(self, out):
        L = outer_loops([out])
        if not L:
            raise Skip("no loop in the value graph")
        if len({(l.args, l.attr[0], l.attr[2], l.attr[3]) for l in L}) != 1:
            raise Skip("several different loops in the value graph")
        self.out_node, self.L = out, L
        p = N.loop_parts(L[0])
        self.kind, self.n, self.depth = p["kind"], p["n"], p["depth"]
        self.init, self.body = list(p["init"]), list(p["body"])
        self.cond = p.get("cond")
        self.lo, self.hi = p.get("lo"), p.get("hi")
        self.c = [N.carry_sym(self.depth, i) for i in range(self.n)]
        self.idx = N.index_sym(self.depth)
        self.used = sorted({l.attr[1] for l in L})

    def at(self, x, state, t=None):
        m = {c: s for c, s in zip(self.c, state)}
        if t is not None and self.kind == "fori":
            m[self.idx] = add(self.lo, C(t))
        return N.subst(x, m)

    def step(self, state, t):
        return [self.at(b, state, t) for b in self.body]

    def V(self, state, t):
        if self.kind == "while":
            return self.at(self.cond, state)
        return cmp("<", add(self.lo, C(t)), self.hi)

    def out(self, state):
        return N.subst(self.out_node, {l: state[l.attr[1]] for l in self.L})

    def states(self, T):
        s = [self.init]
        for t in range(T):
            s.append(self.step(s[-1], t))
        return s

    def horizon(self):
        """iterations to unroll: beyond every constant the iteration count is compared with"""
        j = self.counter()
        if j is None:
            return 3
        T = 3
        for x in N.walk([self.body[k] for k in self.used] + ([self.cond] if self.cond is not None else []), False):
            if x.op == "cmp" and self.c[j].attr in N.deps(x):
                for a in x.args:
                    if a.op == "const" and 0 <= a.attr <= 12:
                        T = max(T, int(a.attr) + 2)
        return T

    def counter(self):
        """index of a component that counts iterations from 0"""
        for j in range(self.n):
            if self.init[j] is C(0) and (self.body[j] is add(self.c[j], C(1)) or self.body[j] is add(C(1), self.c[j])):
                return j
        return None


def multi(run, name, loc, rule, refutes, prove, construct=None, n=None, late=None):
    """refuted if any (code, want, domain) is separated on a box; proved if prove() succeeds"""
    k = run._k()
    salt = len(run.obs)

    def thunk():
        boxes = 0
        for j, (c, w, d) in enumerate(refutes):
            if c is w:
                continue
            v = decide.search(c, w, d, n or k["n"], False, k["rounds"], salt + j)
            boxes += v.boxes
            if v.status == "refuted":
                decide.STATS["boxes"] += boxes
                return "refuted", v.how, Run._det(v, c)
        decide.STATS["boxes"] += boxes
        try:
            how = prove()
        except Skip as e:
            return "open", "", dict(reason=str(e))
        if how:
            return "proved", how if isinstance(how, str) else "induction over the loop", None
        w = late() if late else None
        if w:
            return "refuted", w[0], w[1]
        return "open", "", dict(reason="neither proved nor refuted", boxes=boxes)
    run.ob(name, loc, rule, thunk)


def valid(goal, domain, budget, limit=400):
    """boolean graph true everywhere (sign partition)"""
    if goal.op == "bool":
        return goal.attr

    def test(c):
        a = nf.truth(c, goal)
        if a is None:
            raise nf.NeedSplit(nf.pick_split(c, goal))
        return a
    try:
        return nf.prove(test, domain.ctx(), limit, budget).ok
    except (nf.Blowup, RecursionError, OverflowError, ZeroDivisionError, KeyError, AssertionError):
        return False


def implies(a, b):
    return lor(lnot(a), b)


# ---------------------------------------------------------------------- C03
def solver_specs():
    M, e, Nn = S("M"), S("e"), S("N")
    dt, al, r0, s0, mu = S("deltat"), S("alpha"), S("r0"), S("sigma0"), S("mu")
    return {
        "solve_kepler_elps": (lambda x: spec.kep_elps(x, e, M), lambda x: C(1) - e * spec.cos(x), True),
        "solve_kepler_hypb": (lambda x: spec.kep_hypb(x, e, Nn), lambda x: e * fn("cosh", x) - C(1), False),
        "solve_kepler_uni": (lambda x: spec.kep_uni(x, al, r0, s0, dt, mu), lambda x: spec.dkep_uni(x, al, r0, s0), False),
    }


def check_solver(run, tag, loc, out, dom, f, df, corr, tol, max_iter):
    lv = Loop(out)
    T = lv.horizon()
    st = lv.states(T)
    x = [lv.out(s) for s in st]
    newton = lambda a: sub(a, div(f(a), df(a)))
    nonneg_it = []
    # --- Newton step
    refs = []
    for t in range(T):
        if lv.kind == "while":
            con = [lv.V(st[i], i) for i in range(t + 1)]
        else:
            con = [cmp("<", tol, fn("abs", f(x[i]))) for i in range(t + 1)]
            if corr:
                con += [cmp("<", tol, fn("abs", sub(x[i + 1], x[i]))) for i in range(t)]
        refs.append((x[t + 1], newton(x[t]), dom.restrict(*con)))

    X = S("$x")

    def prove_step():
        if lv.kind != "while" or len(lv.used) != 1 or lv.out_node.op != "loop":
            # general output or fori loop: only with guards, not proved
            if lv.kind == "fori" and lv.out_node.op == "loop":
                k = lv.used[0]
                b = lv.body[k]
                if decide.proof(b, newton(lv.c[k]), dom2(dom, lv), 20, 300):
                    return "induction over the loop (normal form)"
            raise Skip("output is not a single loop component")
        k = lv.used[0]
        if decide.proof(lv.body[k], newton(lv.c[k]), dom2(dom, lv), 30, 400) or decide.sweep(lv.body[k], newton(lv.c[k]), dom2(dom, lv), 20, 400):
            return "induction over the loop (normal form)"
        inv = invariants(lv, k, f, df, dom)
        if inv:
            b = N.subst(lv.body[k], inv)
            if decide.proof(b, newton(lv.c[k]), dom2(dom, lv), 30, 400):
                return "induction over the loop with invariants"
        return False

    def counts():
        return sorted({int(x.attr) + i for x in N.walk([b for b in [lv.cond] if b is not None] + lv.body) if x.op == "const" and x.attr.denominator == 1 and 0 < x.attr < 10 ** 7 for i in (-1, 0, 1)})

    def late_step():
        """a step that changes with the iteration count, at a count the first iterations do not reach"""
        j = lv.counter()
        if lv.kind != "while" or j is None or len(lv.used) != 1:
            return None
        k = lv.used[0]
        first = N.subst(lv.body[k], {lv.c[j]: C(1)})
        for n in counts():
            b = N.subst(lv.body[k], {lv.c[j]: C(n)})
            if n <= 0 or b is first:
                continue
            d = Domain(dict(dom.dom), dom.constraints, dom.groups)
            for c in lv.c:
                d.dom[c.attr] = RANGE(-5, 5)
            v = decide.search(b, newton(lv.c[k]), d, 2000, False, 1, 31 + n)
            if v.status == "refuted":
                return v.how, dict(Run._det(v, b), iteration=n)
        return None
    multi(run, tag + ": every iteration is a Newton step", loc, "loop body computes x - f(x)/f'(x) of the documented equation", refs, prove_step, n=None if T == 3 else 4000, late=late_step)

    # --- exit
    true = N.boolean(True)
    refs = []
    for t in range(T):
        con = [lv.V(st[i], i) for i in range(t)]
        conv = cmp("<=", fn("abs", f(x[t])), tol)
        if corr and t >= 1:
            conv = lor(conv, cmp("<=", fn("abs", sub(x[t], x[t - 1])), tol))
        lim = cmp("<=", max_iter, C(t)) if max_iter is not None else N.boolean(False)
        if lv.kind == "while":
            goal = lor(lv.V(st[t], t), lor(conv, lim))
            refs.append((goal, true, dom.restrict(*con)))
        else:
            # a counted loop runs to its limit: the number of turns must be the limit
            refs.append((lor(lv.V(st[t], t), lim), true, dom))
            if t >= 1:
                pc = cmp("<=", fn("abs", f(x[t - 1])), tol)
                stay = lor(cmp("<=", fn("abs", f(x[t])), tol), cmp("<", tol, fn("abs", sub(x[t], x[t - 1]))))
                refs.append((implies(pc, lor(stay, cmp("<=", fn("abs", sub(x[t], x[t - 1])), tol))), true, dom))

    def prove_exit():
        if lv.kind != "while" or len(lv.used) != 1 or lv.out_node.op != "loop":
            raise Skip("exit rule not in inductive form")
        k = lv.used[0]
        j = lv.counter()
        n1 = add(lv.c[j], C(1)) if j is not None else None
        V1 = lv.at(lv.cond, lv.body)
        d = dom2(dom, lv)
        # the new iterate as an unknown
        Xs = S("$x")
        V1 = N.subst(V1, {lv.body[k]: Xs})
        inv = invariants(lv, k, f, df, dom)
        if inv:
            bb = [N.subst(b, inv) for b in lv.body]
            V1b = lv.at(lv.cond, [Xs if i == k else (N.subst(inv[lv.c[i]], {lv.c[k]: Xs}) if lv.c[i] in inv else b) for i, b in enumerate(bb)])
        else:
            V1b = V1
        d.dom["$x"] = REAL
        conv = cmp("<=", fn("abs", f(Xs)), tol)
        lim = cmp("<=", max_iter, n1) if (max_iter is not None and n1 is not None) else (cmp("<=", C(20), n1) if n1 is not None else N.boolean(False))
        goals = []
        for VV in (V1, V1b):
            goals.append(lor(VV, lor(conv, lim)))
            if corr:
                goals.append(lor(VV, lor(cmp("<=", fn("abs", sub(Xs, lv.c[k])), tol), lim)))
        ok = any(imp_valid(g, d) for g in goals)
        if not ok:
            return False
        # before the first iteration
        V0 = lv.at(lv.cond, lv.init)
        lim0 = cmp("<=", max_iter, C(0)) if max_iter is not None else N.boolean(False)
        g0 = lor(V0, lor(lim0, cmp("<=", fn("abs", f(lv.init[k])), tol)))
        g0 = N.subst(g0, {lv.init[k]: Xs})
        d0 = Domain(dict(dom.dom, **{"$x": REAL}), (), dom.groups)
        return "induction over the loop (exit condition implies convergence)" if imp_valid(g0, d0) else False
    absorbed(run, tag, loc, lv, dom)

    def late():
        """exits the first iterations do not show: a count below the caller's limit at which the loop stops in every state
        (reached by an iteration that does not converge, or with a tolerance below every residual), or a floor under the tolerance"""
        j = lv.counter()
        if lv.kind != "while" or j is None or max_iter is None or max_iter.op != "sym":
            return None
        for n in sorted(set(counts()) | {2, 3, 4, 18, 19, 20, 48, 49, 50, 98, 99, 100}):
            for m in (n + 1, 2 * n + 10, 10 ** 8):
                if n > 0 and N.subst(lv.cond, {lv.c[j]: C(n), max_iter: C(m)}).op == "bool" and not N.subst(lv.cond, {lv.c[j]: C(n), max_iter: C(m)}).attr:
                    return "constant folding of the loop condition", dict(stops_after=n, iteration_limit=m, in_state="every state")
        if tol.op == "sym":
            for small in (9, 12):
                for t, (goal, want, d) in enumerate(refs[:3]):
                    sub_ = {tol: C(Fraction(1, 10 ** small)), max_iter: C(1000)}
                    d2 = Domain({k: v for k, v in d.dom.items() if k not in (tol.attr, max_iter.attr)}, [N.subst(c, sub_) for c in d.constraints], d.groups, d.given)
                    v = decide.search(N.subst(goal, sub_), want, d2, 20000, False, 3, 17 + t)
                    if v.status == "refuted":
                        return v.how, Run._det(v, goal)
        return None
    multi(run, tag + ": leaves the loop only when converged", loc, "exit before the iteration limit implies the convergence test with the caller's tolerance", refs, prove_exit, late=late)


def absorbed(run, tag, loc, lv, dom):
    """the test before the first iteration compares two starting values x and x + small: the small part is lost to rounding when x is large"""
    rule = "the convergence test before the first iteration does not compare x with x + c (c is lost to rounding for large x)"
    if lv.kind != "while":
        run.fact(tag + ": first test not lost to rounding", loc, rule, True, how="counted loop")
        return

    def thunk():
        for x in N.walk([lv.cond]):
            if x.op not in ("add", "sub") or not all(a in lv.c or a.op == "neg" and a.args[0] in lv.c for a in x.args):
                continue
            if x.op == "add" and (x.args[0].op == "neg") == (x.args[1].op == "neg"):
                continue
            a, b = [lv.init[lv.c.index(y.args[0] if y.op == "neg" else y)] for y in x.args]
            d = sub(a, b)
            if a is b or d.op in ("inf", "neginf", "nan") or decide.proof(d, C(0), dom, 5, 50):
                continue
            for s in sorted(N.deps(a) & N.deps(b)):
                if dom.dom.get(s, REAL).kind == "int":
                    continue
                d2 = N.subst(d, {S(s): S(s + "'")})
                dd = Domain(dict(dom.dom), dom.constraints, dom.groups)
                dd.dom[s + "'"] = dom.dom.get(s, REAL)
                if decide.proof(d, d2, dd, 5, 50):
                    return "refuted", "normal form of the starting values", dict(compared=N.show(x, 4), starting_values=[N.show(a, 4), N.show(b, 4)], cancels=s, at=x.loc)
        return "proved", "normal form of the starting values", None
    run.ob(tag + ": first test not lost to rounding", loc, rule, thunk)


def imp_valid(goal, d):
    """validity of a disjunction: cut compared terms by value number, then propositional"""
    goal = decide.tidy(goal)
    if valid(goal, d, 12):
        return True
    # normalise comparisons to keys, then truth table over the distinct keys
    atoms = []

    def walk(x):
        if x.op in ("and", "or", "not", "beq"):
            for a in x.args:
                walk(a)
        elif x.op == "sel" and N.is_bool(x):
            for a in x.args:
                walk(a)
        elif x.op != "bool":
            atoms.append(x)
    walk(goal)
    atoms = list(dict.fromkeys(atoms))
    reps = []
    m = {}
    for a in atoms:
        if a.op != "cmp" or a.attr == "==":
            m[a] = (a, False)
            continue
        l, r = a.args
        u = sub(r, l)                     # u > 0 (strict) or u >= 0
        strict = a.attr == "<"
        for (u2, s2, b) in reps:
            if s2 == strict and decide.proof(u, u2, d, 6, 100):
                m[a] = (b, False)
                break
            if s2 != strict and decide.proof(u, neg(u2), d, 6, 100):
                m[a] = (b, True)          # u >= 0  is  not (-u > 0)
                break
        else:
            b = N.sym("?b%d" % len(reps))
            reps.append((u, strict, b))
            m[a] = (b, False)
    names = list(dict.fromkeys(v[0] for v in m.values()))
    if len(names) > 10:
        return False

    def ev(x, env):
        if x.op == "bool":
            return x.attr
        if x in m:
            b, ng = m[x]
            return env[b] != ng
        if x.op == "and":
            return ev(x.args[0], env) and ev(x.args[1], env)
        if x.op == "or":
            return ev(x.args[0], env) or ev(x.args[1], env)
        if x.op == "not":
            return not ev(x.args[0], env)
        if x.op == "beq":
            return ev(x.args[0], env) == ev(x.args[1], env)
        if x.op == "sel":
            return ev(x.args[1] if ev(x.args[0], env) else x.args[2], env)
        raise KeyError
    return all(ev(goal, dict(zip(names, bits))) for bits in itertools.product([False, True], repeat=len(names)))


def dom2(dom, lv):
    d = Domain(dict(dom.dom), (), dom.groups)
    for c in lv.c:
        d.dom[c.attr] = REAL
    return d


def invariants(lv, k, f, df, dom):
    """components that always equal a function of component k: {c_j: phi(c_k)}"""
    out = {}
    cand = [("f", f), ("df", df), ("|f|", lambda a: fn("abs", f(a))), ("f/df", lambda a: div(f(a), df(a))), ("-f/df", lambda a: neg(div(f(a), df(a)))), ("x", lambda a: a)]
    for j in range(lv.n):
        if j == k:
            continue
        for nm, g in cand:
            try:
                if decide.proof(lv.init[j], g(lv.init[k]), dom, 6, 100) and decide.proof(N.subst(lv.body[j], {lv.body[k]: S("$x")}), g(S("$x")), dom2(dom, lv), 6, 100):
                    out[lv.c[j]] = g(lv.c[k])
                    break
            except Exception:
                continue
    return out


def c03(run):
    specs = solver_specs()
    for nm, (f, df, corr) in specs.items():
        F = BYNAME[nm]
        loc = loc_of(run, nm)

        def build():
            out = scalar(run, nm, loc, one(run, nm)[0])
            dom = spec.domain_of(F)
            check_solver(run, nm, loc, out, dom, f, df, corr, S("tol"), S("max_iter"))
            fv = unwrap(run.value(F.path))
            if isinstance(fv, Func):
                need = len(F.args) - 2
                b = run.I.bind(fv, [None] * need, {})
                tv = None
                pos = [a.arg for a in fv.node.args.posonlyargs + fv.node.args.args]
                tname = "tol" if "tol" in b else (pos[need] if len(pos) > need else None)
                tv = b.get(tname)
                try:
                    t = Fraction(tv)
                    run.fact("%s: default tolerance" % nm, loc, "default tolerance between 0 and 1e-6", 0 < t <= Fraction(1, 10 ** 6), dict(default=str(float(t))))
                except (TypeError, ValueError):
                    run.fact("%s: default tolerance" % nm, loc, "default tolerance between 0 and 1e-6", None, dict(reason="default is %r" % (tv,)))
        run.guard(nm, loc, build)

    # the propagator's own solve
    loc = loc_of(run, "kepler")

    def kep():
        o = kepler_rows(run)
        r0, v0, mu = vec("r0"), vec("v0"), S("mu")
        tb = two_body(r0, v0, S("chi"), mu)
        for i in range(min(2, o[0].shape[0])):
            L = outer_loops(list(o[0][i]) + list(o[1][i]))
            if len(L) != 1:
                raise Skip("%d loops per row" % len(L))
            f = lambda a, i=i: spec.kep_uni(a, tb["alpha"], tb["r0"], tb["sigma0"], S("ts_%d" % i), mu)
            df = lambda a: spec.dkep_uni(a, tb["alpha"], tb["r0"], tb["sigma0"])
            check_solver(run, "kepler row %d" % i, loc, L[0], spec.domain_of(BYNAME["kepler"]), f, df, False, C(Fraction(1, 10 ** 6)), None)
    run.guard("kepler", loc, kep)

    # published residuals and derivatives
    M, e, Nn, E, H = S("M"), S("e"), S("N"), S("E"), S("H")
    chi, al, r0, s0, dt, mu = S("chi"), S("alpha"), S("r0"), S("sigma0"), S("deltat"), S("mu")
    g = {}
    for nm, ref in (("kepler_equ_elps", spec.kep_elps(E, e, M)), ("kepler_equ_hypb", spec.kep_hypb(H, e, Nn)), ("kepler_equ_uni", spec.kep_uni(chi, al, r0, s0, dt, mu)),
                    ("dE", C(1) - e * spec.cos(E)), ("dH", e * fn("cosh", H) - C(1))):
        l = loc_of(run, nm)

        def b2():
            g[nm] = scalar(run, nm, l, one(run, nm)[0])
            run.eq(nm, l, g[nm], ref, spec.domain_of(BYNAME[nm]))
        run.guard(nm, l, b2)
    for a, b, v in (("kepler_equ_elps", "dE", E), ("kepler_equ_hypb", "dH", H)):
        if a in g and b in g:
            run.eq("%s is the derivative of %s" % (b, a), loc_of(run, b), g[b], N.diff(g[a], v), Domain({"e": NONNEG}), rule="derivative of the value graph")


# ---------------------------------------------------------------------- C04
def trip_bound(lv_args, kind, n, depth, maxit, cap):
    """number of iterations after which the loop has certainly ended, knowing only constants and max_iter; None if not within cap"""
    init = list(lv_args[:n])
    env0 = {} if maxit is None else {"max_iter": Fraction(maxit)}
    ev = ival.Eval(dict(env0))
    if kind == "fori":
        lo, hi = ev(lv_args[n]), ev(lv_args[n + 1])
        lo, hi = ival.iv(lo), ival.iv(hi)
        if isinstance(lo, tuple) and isinstance(hi, tuple):
            return max(0, int(np.ceil(float(hi[1] - lo[0]))))
        return None
    cond, body = lv_args[n], list(lv_args[n + 1:])
    st = [ev(x) for x in init]
    # components whose evolution is decided by constants alone
    for t in range(cap + 1):
        env = dict(env0)
        for i in range(n):
            env["$c%d_%d" % (depth, i)] = st[i]
        e2 = ival.Eval(env)
        if e2(cond) is False:
            return t
        st = [e2(b) for b in body]
        st = [v if isinstance(v, (tuple, Fraction, bool)) else ival.UNK for v in st]
    return None


def chained(run, nm, loc, out):
    """loops one after the other: the iterations of a loop are added to those of the loops its start depends on"""
    loops = lambda roots: {(l.attr[0], l.attr[2], l.attr[3], l.args): l for l in N.walk(list(roots)) if l.op == "loop"}
    own = {}

    def total(key, l, m):
        if (key, m) not in own:
            own[key, m] = None
            t = trip_bound(l.args, l.attr[0], l.attr[2], l.attr[3], m, m + 3)
            before = loops(l.args[:l.attr[2]])
            # the limit handed over in a component of the earlier loop: not summed
            prev = [total(k2, l2, m) for k2, l2 in before.items()]
            own[key, m] = None if t is None or None in prev else t + max(prev, default=0)
        return own[key, m]
    top = loops(x for a in out for x in np.asarray(a, dtype=object).reshape(-1) if isinstance(x, N.Node))
    if not any(loops(l.args[:l.attr[2]]) for l in top.values()):
        return
    for m in (1, 2, 20):
        ts = [total(k, l, m) for k, l in top.items()]
        if any(t is None for t in ts):
            run.fact("%s: loops in sequence, max_iter = %d" % (nm, m), loc, "the iterations of all loops on a path add up to at most max_iter", None, dict(reason="iteration count of a loop not bounded by constants"))
            continue
        run.fact("%s: loops in sequence, max_iter = %d" % (nm, m), loc, "the iterations of all loops on a path add up to at most max_iter", max(ts) <= m, dict(max_iter=m, certain_end_after=max(ts), loops=len(top)), how="sum over the chain of loops")


def c04(run):
    for nm in ("solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni"):
        F = BYNAME[nm]
        loc = loc_of(run, nm)

        def build():
            run.I.loop_sites = {}
            run.I.reset_events()
            run.cache.clear()
            out = one(run, nm)
            sites = dict(run.I.loop_sites)
            run.fact("%s: iterates through a counted loop" % nm, loc, "loops found", True if sites else None, dict(reason="no loop found"))
            for (file, line, kind, func), ls in sites.items():
                for (n, d, args) in ls[:1]:
                    for m in ([0, 1, 2, 3, 20, 50] + ([101, 1000] if run.thorough else [])):
                        t = trip_bound(args, kind, n, d, m, m + 3)
                        run.fact("%s: loop at %s bounded for max_iter = %d" % (nm, func, m), "%s:%s %s" % (file, line, func), "loop condition is certainly false after max_iter iterations, whatever the other values",
                                 True if (t is not None and t <= m) else False, dict(max_iter=m, certain_end_after=t), how="abstract evaluation of the loop condition")
            chained(run, nm, loc, out)
            events(run, nm, loc)
        run.guard(nm, loc, build)
    # everything else: bounded by constants
    for F in spec.FUNCS:
        if F.name.startswith("solve_kepler"):
            continue
        loc = loc_of(run, F.name)

        def build2():
            run.I.loop_sites = {}
            run.I.reset_events()
            run.cache.clear()
            run.graph(F)
            for (file, line, kind, func), ls in run.I.loop_sites.items():
                for (n, d, args) in ls[:2]:
                    t = trip_bound(args, kind, n, d, None, 3000)
                    run.fact("%s: loop at %s" % (F.name, func), "%s:%s %s" % (file, line, func), "iteration count bounded by constants", t is not None, dict(certain_end_after=t), how="abstract evaluation of the loop condition")
            events(run, F.name, loc)
        run.guard(F.name, loc, build2)


def events(run, nm, loc):
    ev = [e for e in run.I.events if e.kind == "dynloop"]
    run.fact("%s: no loop or recursion on run-time values" % nm, loc if not ev else "%s:%s %s" % (ev[0].file, ev[0].line, ev[0].func), "no Python loop or recursion over run-time values", not ev, dict(events=[repr(e) for e in ev[:4]]))


# ---------------------------------------------------------------------- equivariance
def closure(lv):
    """carry components that influence the output or the exit"""
    need = set(lv.used)
    if lv.kind == "while":
        V1 = lv.at(lv.cond, lv.body)
        need |= {i for i in range(lv.n) if lv.c[i].attr in N.deps(V1)}
    while True:
        add_ = {i for j in need for i in range(lv.n) if lv.c[i].attr in N.deps(lv.body[j])}
        if add_ <= need:
            return sorted(need)
        need |= add_


def equivariance(run, name, loc, out, sigma, scale, domain, cands, rule, with_exit=True, T=2, types=None, want=None):
    """out[sigma] == scale * out.  types: symbol -> homogeneity type, want: expected type"""
    def typed():
        if types is None:
            return False
        g = grade.Grader(types, with_exit)(out)
        return g is grade.ANY or g == want
    if not outer_loops([out]):
        if typed():
            run.fact(name, loc, rule, True, how="homogeneity types of the value graph")
        else:
            run.eq(name, loc, N.subst(out, sigma), mul(scale, out), domain, rule=rule, exact_boundary=False)
        return
    if typed():
        run.fact(name, loc, rule, True, how="homogeneity types of the value graph, inductive over the loop")
        return
    lv = Loop(out)
    st = lv.states(T)
    refs = []
    for t in range(T + 1):
        x = lv.out(st[t])
        con = [lv.V(st[i], i) for i in range(t)]
        con += [N.subst(c, sigma) for c in con]
        refs.append((N.subst(x, sigma), mul(scale, x), domain.restrict(*con)))
        if with_exit:
            v = lv.V(st[t], t)
            refs.append((N.subst(v, sigma), v, domain.restrict(*con)))

    def prove():
        K = closure(lv)
        d = dom2(domain, lv)
        opts = []
        for j in K:
            o = []
            for s in cands:
                if decide.proof(N.subst(lv.init[j], sigma), mul(s, lv.init[j]), domain, 8, 200):
                    o.append(s)
            if not o:
                # never read before it is overwritten?
                raise Skip("component %d of the loop state has no symmetry" % j)
            opts.append(o[:4])
        V1 = lv.at(lv.cond, lv.body) if lv.kind == "while" else None
        V0 = lv.at(lv.cond, lv.init) if lv.kind == "while" else None
        if with_exit and V0 is not None:
            if not (N.subst(V0, sigma) is V0 or decide.proof(N.subst(V0, sigma), V0, domain, 8, 200) or bool_equal(N.subst(V0, sigma), V0, domain)):
                return False
        if lv.kind == "fori" and (N.subst(lv.hi, sigma) is not lv.hi or N.subst(lv.lo, sigma) is not lv.lo):
            return False
        for combo in itertools.islice(itertools.product(*opts), 12):
            sg = dict(sigma)
            for j, s in zip(K, combo):
                sg[lv.c[j]] = mul(s, lv.c[j])
            ok = True
            for j, s in zip(K, combo):
                a, b = N.subst(lv.body[j], sg), mul(s, lv.body[j])
                if a is not b and not decide.proof(a, b, d, 15, 300) and not decide.sweep(a, b, d, 15, 300):
                    ok = False
                    break
            if ok and with_exit and V1 is not None:
                a = N.subst(V1, sg)
                if a is not V1 and not decide.proof(a, V1, d, 15, 300) and not bool_equal(a, V1, d):
                    ok = False
            if ok:
                m = {l: S("$y%d" % l.attr[1]) for l in lv.L}
                m2 = dict(sigma)
                sc = dict(zip(K, combo))
                o2 = N.subst(lv.out_node, m)
                o3 = N.subst(o2, {**sigma, **{S("$y%d" % l.attr[1]): mul(sc[l.attr[1]], S("$y%d" % l.attr[1])) for l in lv.L}})
                dd = Domain(dict(domain.dom, **{"$y%d" % l.attr[1]: REAL for l in lv.L}), (), domain.groups)
                if o3 is mul(scale, o2) or decide.proof(o3, mul(scale, o2), dd, 20, 300) or decide.sweep(o3, mul(scale, o2), dd, 15, 300):
                    return "induction over the loop (normal form)"
        return False
    multi(run, name, loc, rule, refs, prove, n=300 if not run.thorough else 2000)


def bool_equal(a, b, d):
    return imp_valid(lor(land(a, b), land(lnot(a), lnot(b))), d)


# ---------------------------------------------------------------------- C05
MINUS = (Fraction(0), Fraction(0), -1)


def c05(run):
    one_, m1 = C(1), C(-1)
    cases = {"solve_kepler_elps": {S("M"): neg(S("M"))}, "solve_kepler_hypb": {S("N"): neg(S("N"))},
             "solve_kepler_uni": {S("deltat"): neg(S("deltat")), S("sigma0"): neg(S("sigma0"))}}
    for nm, sg in cases.items():
        loc = loc_of(run, nm)

        def build():
            out = scalar(run, nm, loc, one(run, nm)[0])
            equivariance(run, "%s is odd" % nm, loc, out, sg, m1, spec.domain_of(BYNAME[nm]), [one_, m1], "odd under time reversal for the same tolerance and limit",
                         types={s.attr: MINUS for s in sg}, want=MINUS)
            cancel(run, nm, loc, out, spec.domain_of(BYNAME[nm]))
        run.guard(nm, loc, build)
    loc = loc_of(run, "kepler")

    def kep():
        o = kepler_rows(run)
        v0 = vec("v0")
        sg = {S("ts_0"): neg(S("ts_0")), S("ts_1"): neg(S("ts_1")), **{x: neg(x) for x in v0}}
        ty = {s.attr: MINUS for s in sg}
        dom = spec.domain_of(BYNAME["kepler"])
        for i in range(min(2, o[0].shape[0])):
            for k in range(3):
                equivariance(run, "position row %d[%d] reversible" % (i, k), loc, o[0][i, k], sg, one_, dom, [one_, m1], "same position after reversing time and velocity", T=1, types=ty, want=grade.ONE)
                equivariance(run, "velocity row %d[%d] reversible" % (i, k), loc, o[1][i, k], sg, m1, dom, [one_, m1], "opposite velocity after reversing time and velocity", T=1, types=ty, want=MINUS)
        cancel(run, "kepler", loc, o[0][0, 0], dom)
    run.guard("kepler", loc, kep)


def cancel(run, nm, loc, out, dom):
    """t + sqrt(t^2 + c) with t of either sign in a starting guess"""
    try:
        lv = Loop(out)
    except Skip as e:
        run.fact("%s: starting guess free of cancellation" % nm, loc, "starting guess", None, dict(reason=str(e)))
        return
    bad = []
    # only the starting values that feed the iteration
    for x in N.walk([lv.init[k] for k in lv.used]):
        if x.op in ("add", "sub"):
            for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                if not (b.op == "pow" and b.args[1] is N.HALF):
                    continue
                if x.op == "sub" and b is x.args[0]:
                    a_eff = a
                z = b.args[0]
                dlt = sub(z, sq(a))
                if all(decide.proof(N.diff(dlt, S(s)), C(0), dom, 5, 50) for s in N.deps(dlt)):
                    # sign of a: both?
                    ctx = dom.ctx()
                    try:
                        mask = ctx.s_poly(nf.to_poly(ctx, a))
                    except Exception:
                        mask = 7
                    cancels = 1 if x.op == "add" else 4
                    if mask & cancels:
                        bad.append(x)
    run.fact("%s: starting guess free of cancellation" % nm, loc if not bad else (bad[0].loc or loc), "no t + sqrt(t^2 + c) with t of either sign in the starting guess", not bad,
             dict(construct=[N.show(b, 5) for b in bad[:3]]), how="pattern over the value graph of the starting guess")


# ---------------------------------------------------------------------- C13
def scale_of(dim):
    a, b = dim
    return mul(power(S("lam"), C(Fraction(a))), power(S("tau"), C(Fraction(b))))


def gt(dim):
    return (Fraction(dim[0]), Fraction(dim[1]), 1)


def unit_sigma(F, types):
    sg = {}

    def put(s, dim):
        sg[s] = mul(scale_of(dim), s)
        types[s.attr] = gt(dim)
    for a in F.args:
        if isinstance(a.role, tuple):
            for k in a.role[1]:
                put(S(k), spec.DICT_DOM[k][1])
            continue
        for i in np.ndindex(*a.shape):
            s = S(a.name + "".join("_%d" % q for q in i))
            if a.dim is None:
                continue
            dim = a.dim
            if dim == "state":
                dim = spec.L1 if i[0] < 3 else spec.V1
            if dim == (0, 0):
                continue
            put(s, dim)
    return sg


def c13(run):
    for F in spec.FUNCS:
        loc = loc_of(run, F.name)

        def build():
            o = run.outs(F)
            ty = {}
            sg = unit_sigma(F, ty)
            if F.name == "solve_kepler_uni":
                ty["tol"] = gt((Fraction(3, 2), 0))
                sg[S("tol")] = mul(scale_of((Fraction(3, 2), 0)), S("tol"))
            base = spec.domain_of(F)
            d = Domain(dict(base.dom, lam=POS, tau=POS), base.constraints, base.groups)
            cands = [C(1)] + [scale_of(x) for x in ((Fraction(1, 2), 0), (Fraction(3, 2), 0), (1, 0), (0, 1), (-1, 0), (0, -1), (Fraction(-1, 2), 0))]
            dims = F.out
            if len(o) != len(dims):
                raise Skip("%d results" % len(o))
            for q, (a, dim) in enumerate(zip(o, dims)):
                for idx in np.ndindex(*a.shape):
                    dd = dim
                    if dim == "stm":
                        dd = [[spec.D0, spec.T1], [(0, -1), spec.D0]][idx[0] // 3][idx[1] // 3]
                    nm = "%s%s%s" % (F.name, " result %d" % q if len(o) > 1 else "", "[%s]" % ",".join(map(str, idx)) if idx else "")
                    x = a[idx]
                    if F.kind == "bool":
                        x = N.n2b(x) if not N.is_bool(x) else x
                        if grade.Grader(ty)(x) == grade.ONE:
                            run.fact(nm + " unit-free", loc, "true/false answers do not depend on units", True, how="homogeneity types of the value graph")
                        else:
                            run.eq(nm + " unit-free", loc, N.subst(x, sg), x, d, rule="true/false answers do not depend on units", exact_boundary=False)
                        continue
                    if F.kind == "count":
                        if grade.Grader(ty)(x) == grade.ONE:
                            run.fact(nm + " unit-free", loc, "counts do not depend on units", True, how="homogeneity types of the value graph")
                        else:
                            run.eq(nm + " unit-free", loc, N.subst(x, sg), x, d, rule="counts do not depend on units", exact_boundary=False)
                        continue
                    equivariance(run, nm + " scales with units", loc, x, sg, scale_of(dd), d, cands, "rescaling length and time rescales the result by its dimension", with_exit=F.name != "kepler", T=1, types=ty, want=gt(dd))
        run.guard(F.name, loc, build)
