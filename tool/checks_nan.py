"""C30 an input that is not a number is never turned into an ordinary result."""
from fractions import Fraction
import random
import decide
import ival
from ival import INFV, NANV, UNK
import nodes as N
from nodes import sym as S
import spec
from checks_formula import loc_of, one, scalar, BYNAME
from decide import NEGD, POS, REAL, Domain

ARITH = ("add", "sub", "mul", "div", "neg", "mark")
TESTS = ("isnan", "isfinite", "isinf")
RULE = "abstract evaluation with the argument not a number"


class NanEval(ival.Eval):
    """as in floating-point arithmetic: not-a-number wins over anything, except in comparisons, selections and tests"""

    def step(self, x, a):
        if any(v is NANV for v in a):
            if x.op in ARITH or x.op == "fn" and x.attr not in TESTS:
                return NANV
            if x.op == "pow":
                e = x.args[1]
                return NANV if e.op == "const" and e.attr != 0 or a[1] is NANV and not (isinstance(a[0], Fraction) and a[0] == 1) else UNK
        if x.op in ("inf", "neginf") or x.op == "fn" and x.attr == "abs" and a[0] is INFV:
            return INFV
        if x.op == "cmp" and x.attr != "==" and INFV in a:
            big = [v is INFV and (n.op == "inf" or n.op == "fn" and n.attr == "abs") for v, n in zip(a, x.args)]
            if any(big) and any(isinstance(ival.iv(v), tuple) for v in a):
                return big[1]
        return super().step(x, a)

    def outside(self, x):
        if x.op != "loop":
            return UNK
        p = N.loop_parts(x)
        n, d, k = p["n"], p["depth"], p["k"]
        st = [self(v) for v in p["init"]]

        def at(state, i=None):
            env = dict(self.env)
            for j in range(n):
                env["$c%d_%d" % (d, j)] = state[j]
            if i is not None:
                env["$i%d" % d] = i
            return NanEval(env)
        lo, t = (0, None) if p["kind"] == "while" else (self(p["lo"]), self(p["hi"]))
        for i in range(70):
            if p["kind"] == "while":
                go = at(st)(p["cond"])
            else:
                go = lo + i < t if isinstance(lo, Fraction) and isinstance(t, Fraction) else None
            if go is False:
                return st[k]
            if go is None:
                break
            e = at(st, None if p["kind"] == "while" else lo + i)
            st = [e(b) for b in p["body"]]
        # any number of iterations from here
        J = list(st)
        for _ in range(n + 2):
            e = at(J, UNK)
            nb = [e(b) for b in p["body"]]
            K = [a if a is b else UNK for a, b in zip(J, nb)]
            if all(a is b for a, b in zip(J, K)):
                break
            J = K
        else:
            return UNK
        return J[k]


def number(v):
    v = ival.iv(v)
    return isinstance(v, tuple)


SKIP = ("tol", "max_iter")
COUNTS = ("nmax_by_periapsis",)   # integers held in floating point


def points(y, s, dom, n, salt):
    """generic points of the domain, as narrow boxes"""
    syms = sorted(N.deps(y) | {t for c in dom.constraints for t in N.deps(c)})
    rng = random.Random((decide.SEED, salt, len(syms)).__hash__() & 0xffffffff)
    env = decide.proposals(syms, dom, [], n, rng)
    for i in range(n):
        p = {}
        for t in syms:
            v = float(env[t][i])
            if dom.dom.get(t, REAL).kind == "int":
                p[t] = Fraction(50)
            elif t == "tol":
                p[t] = Fraction(1, 10 ** 9)
            elif v == 0 or abs(v) > 50 or abs(v) < 0.02:
                break
            else:
                p[t] = ival.box(Fraction(v))
        else:
            yield p


def verdict(F, y, s, dom, salt, n=120):
    """('proved' | 'refuted' | 'open', detail)"""
    if NanEval({"max_iter": (ival.mpf(1), ival.mpf(10) ** 6), s: NANV})(y) is NANV:
        return "proved", None
    hits = tried = 0
    for p in points(y, s, dom, n, salt):
        e = ival.Eval(p)
        if any(e(c) is not True for c in dom.constraints):
            continue
        # the result depends on this argument here
        q = dict(p)
        mid = (p[s][0] + p[s][1]) / 2
        k = 32 if F.kind == "count" else 1.0625
        q[s] = ival.box(mid * ival.mpf(k))
        if not dom.dom.get(s, REAL).ok(float(mid) * k):
            continue
        u, v = NanEval(p)(y), NanEval(q)(y)
        if not (number(u) and number(v) and ival.separated(u, v)):
            continue
        tried += 1
        got = NanEval(dict(p, **{s: NANV}))(y)
        if number(got) or got is INFV:
            hits += 1
            if hits >= 2:
                return "refuted", dict(point={k: str(float(ival.iv(w)[0])) for k, w in p.items() if k != s}, nan=s, got="infinite" if got is INFV else str(ival.iv(got)[0]), normally=str(ival.iv(u)[0]))
        if tried >= 40 and not hits:
            break
    return "open", dict(reason="neither proved nor refuted", points=tried)


def c30(run):
    def build(F, loc):
        if F.kind != "num" and F.name not in COUNTS:
            return
        outs = [(k, i, y) for k, o in enumerate(run.outs(F)) for i, y in enumerate(o.reshape(-1))]
        dom = spec.domain_of(F)
        for a in F.args:
            if a.name in SKIP:
                continue
            names = a.role[1] if isinstance(a.role, tuple) else [a.name]
            for nm in names:
                def thunk(nm=nm):
                    mine = lambda s: s == nm or s.startswith(nm + "_") and s[len(nm) + 1:].replace("_", "").isdigit()
                    bad = openn = None
                    done = 0
                    for k, i, y in outs:
                        for s in sorted(t for t in N.deps(y) if mine(t)):
                            st, det = verdict(F, y, s, dom, 100 * k + i)
                            done += st == "proved"
                            if st == "refuted":
                                return "refuted", "evaluation on narrow boxes", dict(det, output="%d[%d]" % (k, i), construct=N.show(y, 4))
                            if st == "open":
                                openn = dict(det, output="%d[%d]" % (k, i), nan=s, construct=N.show(y, 4))
                    if openn:
                        return "open", "", openn
                    return "proved", "%d (argument, result) pairs: not-a-number reaches the result on every branch" % done, None
                run.ob("%s: %s" % (F.name, nm), loc, RULE, thunk)
    run.each(spec.FUNCS, build)
    # arguments for which the formula has no value
    for nm, sign in (("orb_period", NEGD), ("mean_anomaly_elps", NEGD), ("mean_anomaly_hypb", POS)):
        F = BYNAME[nm]
        loc = loc_of(run, nm)

        def wrong(nm=nm, sign=sign, F=F, loc=loc):
            y = scalar(run, nm, loc, one(run, nm)[0])
            dom = Domain(dict(spec.domain_of(F).dom, a=sign))

            def thunk():
                hits = done = 0
                for p in points(y, "a", dom, 60, 0):
                    p = {k: Fraction(float(w[0])) for k, w in p.items()}
                    v = ival.Eval(p)(y)
                    done += v is NANV
                    hits += number(v)
                    if hits >= 2:
                        return "refuted", "evaluation on narrow boxes", dict(point={k: str(float(w)) for k, w in p.items()}, got=str(ival.iv(v)[0]))
                sg = NanEval({"a": (ival.mpf(-9), ival.mpf(-1) / 9) if sign is NEGD else (ival.mpf(1) / 9, ival.mpf(9)), "mu": (ival.mpf(1) / 9, ival.mpf(9)), "deltat": (ival.mpf(1), ival.mpf(2))})(y)
                if sg is NANV:
                    return "proved", "interval evaluation on a wide box", None
                return "open", "", dict(reason="neither proved nor refuted", points=done)
            run.ob("%s: semimajor axis of the wrong sign" % nm, loc, "no value for an argument outside the formula's domain", thunk)
        run.guard(nm, loc, wrong)
    run.extra["explanation"] = "every (argument, result) pair of the numeric public functions: the abstract value not-a-number is propagated through the value graph, comparisons with it being false; loops to a fixed point"
