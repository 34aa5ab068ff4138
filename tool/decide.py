"""Deciding equality of two value graphs over a domain.

  proved   -- the graphs are identical or have the same algebraic normal form
  refuted  -- the interval semantics separates them on a box inside the domain
              (or exactly, on a rational boundary point)
  open     -- neither

The float evaluation below only proposes boxes; it never decides anything.
"""
from fractions import Fraction
import math
import os
import random
import time

import numpy as np
from mpmath import mpf

import nodes as N
import nf
import ival
import guide

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


# ------------------------------------------------------------------ domains
class Dom:
    """kind: real | pos | neg | nonneg | nonzero | range(lo, hi) | int | const"""

    def __init__(self, kind, lo=None, hi=None):
        self.kind, self.lo, self.hi = kind, lo, hi

    def mask(self):
        return {"real": 7, "pos": 4, "neg": 1, "nonneg": 6, "nonzero": 5, "int": 6}.get(self.kind, self._rmask())

    def _rmask(self):
        if self.kind != "range":
            return 7
        if self.lo > 0:
            return 4
        if self.lo == 0:
            return 6
        if self.hi < 0:
            return 1
        return 7

    def bounds(self):
        if self.kind == "range":
            return (Fraction(self.lo), Fraction(self.hi))
        return None

    def ok(self, v):
        k = self.kind
        if k == "pos":
            return v > 0
        if k == "neg":
            return v < 0
        if k == "nonneg" or k == "int":
            return v >= 0
        if k == "nonzero":
            return v != 0
        if k == "range":
            return (v >= self.lo) & (v <= self.hi)
        return np.isfinite(v)


REAL, POS, NONNEG, NONZERO, NEGD = Dom("real"), Dom("pos"), Dom("nonneg"), Dom("nonzero"), Dom("neg")


def RANGE(a, b, log=False):
    d = Dom("range", a, b)
    d.log = log
    return d


class Domain:
    """dom: symbol name -> Dom (default real); constraints: boolean nodes;
    groups: lists of symbol names forming vectors"""

    def __init__(self, dom=None, constraints=(), groups=(), given=None):
        self.dom, self.constraints, self.groups = dict(dom or {}), list(constraints), [list(g) for g in groups]
        self.given = dict(given or {})      # Node(sym) -> Node, on-manifold parametrisation

    def ctx(self):
        m = {s: d.mask() for s, d in self.dom.items()}
        b = {s: d.bounds() for s, d in self.dom.items() if d.bounds()}
        return nf.Ctx(m, b)

    def restrict(self, *cons):
        return Domain(self.dom, self.constraints + list(cons), self.groups, self.given)


# ------------------------------------------------------------------ float proposals
_NPF = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "sinh": np.sinh, "cosh": np.cosh, "tanh": np.tanh, "exp": np.exp, "expm1": np.expm1,
        "log": np.log, "log1p": np.log1p, "arcsin": np.arcsin, "arccos": np.arccos, "arctan": np.arctan, "arcsinh": np.arcsinh,
        "arccosh": np.arccosh, "arctanh": np.arctanh, "abs": np.abs, "sign": np.sign, "floor": np.floor, "ceil": np.ceil, "round": np.rint,
        "trunc": np.trunc, "cbrt": np.cbrt, "max": np.maximum, "min": np.minimum, "mod": np.mod, "arctan2": np.arctan2,
        "isnan": np.isnan, "isfinite": np.isfinite, "isinf": np.isinf}


def feval(roots, env, n):
    """vectorised float evaluation; env: name -> array"""
    memo = {}
    with np.errstate(all="ignore"):
        for r in roots:
            stack = [r]
            while stack:
                x = stack[-1]
                if x.id in memo:
                    stack.pop()
                    continue
                todo = [a for a in x.args if a.id not in memo] if x.op != "loop" else []
                if todo:
                    stack.extend(todo)
                    continue
                memo[x.id] = _fstep(x, [memo[a.id] for a in x.args] if x.op != "loop" else [], env, n)
                stack.pop()
    return [np.broadcast_to(memo[r.id], (n,)) for r in roots]


def _fstep(x, a, env, n):
    o = x.op
    if o == "const":
        try:
            return np.float64(float(x.attr))
        except OverflowError:
            return np.float64(math.inf if x.attr > 0 else -math.inf)
    if o == "sym":
        return env.get(x.attr, np.full(n, np.nan)) if not (isinstance(x.attr, str) and x.attr.startswith("?")) else env.get(x.attr, np.zeros(n, bool))
    if o == "pi":
        return np.float64(math.pi)
    if o == "inf":
        return np.float64(math.inf)
    if o == "neginf":
        return np.float64(-math.inf)
    if o == "nan":
        return np.float64(math.nan)
    if o == "bool":
        return np.bool_(x.attr)
    if o in ("loop", "opq"):
        return np.full(n, np.nan)
    if o == "mark":
        return a[0]
    if o == "add":
        return a[0] + a[1]
    if o == "sub":
        return a[0] - a[1]
    if o == "mul":
        return a[0] * a[1]
    if o == "div":
        return np.asarray(a[0], float) / a[1]
    if o == "neg":
        return -a[0]
    if o == "pow":
        e = x.args[1]
        if e.op == "const" and e.attr.denominator == 1:
            return np.power(np.asarray(a[0], float), float(e.attr))
        if e is N.HALF:
            return np.sqrt(a[0])
        return np.power(np.asarray(a[0], float), a[1])
    if o == "fn":
        return _NPF[x.attr](*a)
    if o == "cmp":
        return {"<": np.less, "<=": np.less_equal, "==": np.equal}[x.attr](a[0], a[1])
    if o == "and":
        return np.logical_and(*a)
    if o == "or":
        return np.logical_or(*a)
    if o == "not":
        return np.logical_not(a[0])
    if o == "beq":
        return np.equal(*a)
    if o == "sel":
        return np.where(a[0], a[1], a[2])
    return np.full(n, np.nan)


def nice(rng):
    """small rational"""
    return rng.choice([0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 0.25, 4.0, 1.5])


def proposals(syms, domain, consts, n, rng):
    env = {}
    groups = [g for g in domain.groups if any(s in syms for s in g)]
    ingroup = {s for g in groups for s in g}
    mode = np.array([i % 12 for i in range(n)])
    # modes 10, 11: a few quantities are far smaller (or larger) than the rest
    ext = [set() for _ in range(n)]
    free = [s for s in syms if domain.dom.get(s, REAL).kind not in ("range", "int")]
    for i in range(n):
        if mode[i] >= 10 and free:
            ext[i] = set(rng.sample(free, min(len(free), mode[i] - 9)))
    # a common scale per sample keeps vectors comparable
    base = {}
    for s in syms:
        d = domain.dom.get(s, REAL)
        v = np.empty(n)
        for i in range(n):
            m = mode[i]
            if d.kind == "range":
                u = rng.random()
                if m == 3 and u < 0.3:
                    u = 10.0 ** rng.uniform(-9, -1)
                elif m == 4 and u < 0.3:
                    u = 1 - 10.0 ** rng.uniform(-9, -1)
                elif m == 5 and rng.random() < 0.3:
                    u = rng.choice([0.0, 1.0, 0.5])
                if getattr(d, "log", False) and m in (0, 1, 2, 6, 7):
                    x = float(d.lo) * (float(d.hi) / float(d.lo)) ** u
                elif getattr(d, "log", False):
                    x = float(d.lo) + u * min(3.0, float(d.hi - d.lo))
                else:
                    x = float(d.lo) + u * float(d.hi - d.lo)
            elif d.kind == "int":
                x = float(rng.choice([0, 1, 2, 3, 5, 10, 20, 50]))
            else:
                if m >= 10:
                    if s in ext[i]:
                        x = 10.0 ** (rng.uniform(-13, -4) if rng.random() < 0.8 else rng.uniform(3, 8))
                    else:
                        x = 10.0 ** rng.uniform(-0.7, 0.7)
                elif m in (0, 1, 2):
                    x = 10.0 ** rng.uniform(-0.7, 0.7)
                elif m in (3, 4):
                    x = 10.0 ** rng.uniform(-3, 3)
                elif m == 6:
                    x = 10.0 ** rng.uniform(-8, 8)
                elif m == 7 and consts and rng.random() < 0.5:
                    x = abs(rng.choice(consts)) * rng.choice([0.5, 1.0, 2.0, 0.9, 1.1, 0.01, 100.0])
                elif m == 8:
                    x = float(rng.choice([1, 2, 3, 4, 0.5, 0.25, 1.5, 8]))
                else:
                    x = 10.0 ** rng.uniform(-1.5, 1.5)
                if d.kind == "real":
                    if rng.random() < 0.5:
                        x = -x
                    if m in (5, 8, 9) and rng.random() < 0.25:
                        x = 0.0
                elif d.kind == "nonneg" and m in (5, 8, 9) and rng.random() < 0.25:
                    x = 0.0
                elif d.kind == "neg":
                    x = -x
                elif d.kind == "nonzero" and rng.random() < 0.5:
                    x = -x
            v[i] = x
        env[s] = v
    # related vectors
    if len(groups) >= 2:
        for i in range(n):
            if mode[i] in (8, 9):
                g, h = rng.sample(groups, 2)
                k = rng.random()
                if len(g) == len(h):
                    f = rng.choice([1.0, -1.0, 2.0, 0.5])
                    if k < 0.35:
                        for p, q in zip(g, h):
                            if p in env and q in env:
                                env[p][i] = f * env[q][i]
                    elif k < 0.6 and len(g) == 3 and all(q in env for q in list(g) + list(h)):
                        # perpendicular in the x-y plane
                        env[g[0]][i], env[g[1]][i], env[g[2]][i] = -env[h[1]][i], env[h[0]][i], 0.0
    return env


def graph_consts(roots, lim=40):
    out = set()
    for n in N.walk(roots):
        if n.op == "cmp":
            for a in n.args:
                for y in N.walk([a]):
                    if y.op == "const" and y.attr != 0:
                        try:
                            out.add(float(y.attr))
                        except OverflowError:
                            pass
                    if len(out) > lim:
                        return sorted(out)
    return sorted(out)


def boundary_points(roots, env, n, domain, rng, lim=10):
    """points next to the surfaces where a comparison of the graphs flips"""
    cmps = []
    for x in N.walk(roots):
        if x.op == "cmp" and N.deps(x) and not (x.args[0].op == "loop" or x.args[1].op == "loop"):
            cmps.append(x)
    cmps = sorted(cmps, key=lambda x: x.id)[:lim]
    extra = []
    for c in cmps:
        g = N.sub(c.args[0], c.args[1])
        gv = feval([g], env, n)[0]
        pos = [i for i in range(n) if gv[i] > 0]
        neg = [i for i in range(n) if gv[i] < 0]
        if not pos or not neg:
            continue
        for _ in range(8):
            i, j = rng.choice(pos), rng.choice(neg)
            lo, hi = 0.0, 1.0
            names = list(env)
            A = {s: env[s][i] for s in names}
            B = {s: env[s][j] for s in names}
            pt = lambda t: {s: np.array([A[s] + t * (B[s] - A[s])]) for s in names}
            bad = False
            for _k in range(60):
                mid = (lo + hi) / 2
                v = feval([g], pt(mid), 1)[0][0]
                if v != v:
                    bad = True
                    break
                if v > 0:
                    lo = mid
                else:
                    hi = mid
            if bad:
                continue
            for dlt in (1e-2, 1e-4, 1e-7, -1e-2, -1e-4, -1e-7):
                t = lo + dlt
                p = pt(t)
                if all(np.all(domain.dom.get(s, REAL).ok(p[s])) for s in names):
                    extra.append({s: float(p[s][0]) for s in names})
    return extra


class Verdict:
    def __init__(self, status, how="", witness=None, got=None, want=None, regions=0, boxes=0):
        self.status, self.how, self.witness, self.got, self.want, self.regions, self.boxes = status, how, witness, got, want, regions, boxes

    def __repr__(self):
        return "%s(%s)" % (self.status, self.how)


def confirm(code, ref, domain, point, exact):
    """interval check at a box around point; returns (got, want) if separated"""
    env = {}
    for s, v in point.items():
        f = Fraction(v)
        env[s] = f if (exact or v == 0) else ival.box(f)
    ev = ival.Eval(env)
    for c in domain.constraints:
        if ev(c) is not True:
            return None
    for s, v in point.items():
        d = domain.dom.get(s, REAL)
        if not d.ok(float(v)):
            return None
    w = ev(ref)
    if w in (ival.NANV, ival.INFV, ival.UNK) or w is None:
        return None
    g = ev(code)
    if ival.separated(g, w):
        gi, wi = ival.iv(g), ival.iv(w)
        if isinstance(gi, tuple) and isinstance(wi, tuple):
            gap = max(wi[0] - gi[1], gi[0] - wi[1])
            if gap <= mpf(10) ** -10 * max(abs(gi[0]), abs(wi[0]), abs(gi[1]), abs(wi[1])):
                return None
        return (g, w)
    return None


def search(code, ref, domain, n=600, exact_boundary=True, rounds=1, salt=0):
    """look for a box inside the domain on which the two graphs certainly differ"""
    if domain.given:
        memo = {}
        code, ref = N.subst(code, domain.given, memo), N.subst(ref, domain.given, memo)
        domain = Domain(domain.dom, [N.subst(c, domain.given, memo) for c in domain.constraints], domain.groups)
    roots = [code, ref] + domain.constraints
    syms = sorted({s for r in roots for s in N.deps(r)})
    if any(s.startswith("?") for s in syms):
        pass
    consts = graph_consts([code, ref])
    boxes = 0

    def attempt(env, m):
        nonlocal boxes
        vals = feval(roots, env, m)
        u, v = vals[0], vals[1]
        okc = np.ones(m, bool)
        for c in vals[2:]:
            okc &= np.asarray(c, bool)
        boxes += int(okc.sum())
        with np.errstate(all="ignore"):
            if u.dtype == bool and v.dtype == bool:
                score = np.where(u != v, 1.0, 0.0)
            else:
                uf, vf = np.asarray(u, float), np.asarray(v, float)
                d = np.abs(uf - vf) / np.maximum(np.abs(uf), np.abs(vf))
                score = np.where(np.isfinite(d), d, 0.0)
                score = np.where(np.isfinite(vf) & ~np.isfinite(uf), 2.0, score)
                score = np.where(uf == vf, 0.0, score)
        score = np.where(okc, score, 0.0)
        cand = [i for i in np.argsort(-score) if score[i] > 1e-10]
        # keep well-conditioned candidates first: those of moderate magnitude
        cand.sort(key=lambda i: (score[i] < 1e-4, sum(abs(math.log10(abs(env[s][i]))) if env[s][i] != 0 else 0.3 for s in syms)))
        for i in cand[:40]:
            p = {s: float(env[s][i]) for s in syms}
            r = confirm(code, ref, domain, p, False)
            how = "box"
            if r is None and exact_boundary:
                r = confirm(code, ref, domain, p, True)
                how = "exact point"
            if r is not None:
                return Verdict("refuted", how, p, r[0], r[1], boxes=boxes)
        return None

    for rd in range(rounds):
        rng = random.Random((SEED, salt, rd, len(syms)).__hash__() & 0xffffffff)
        env = proposals(syms, domain, consts, n, rng)
        ex = boundary_points([code, ref], env, n, domain, rng)
        if ex:
            for s in syms:
                env[s] = np.concatenate([env[s], np.array([p[s] for p in ex])])
        m = len(env[syms[0]]) if syms else 1
        r = attempt(env, m)
        if r:
            return r
    if syms:
        for p in guide.flip_points(feval, code, ref, domain, env, m, syms, consts, rng, REAL):
            r = attempt({s: np.array(p[s]) for s in syms}, len(p[syms[0]]))
            if r:
                return r
    if exact_boundary:
        r = exact_search(code, ref, domain, 250, salt)
        if r:
            return Verdict("refuted", "exact point", {s: float(v) for s, v in r[0].items()}, r[1], r[2], boxes=boxes)
        if syms:
            for p in guide.equality_points(feval, code, ref, domain, env, m, syms, consts, rng, REAL):
                boxes += 1
                r = confirm(code, ref, domain, p, True)
                if r is not None:
                    return Verdict("refuted", "exact point", {s: float(v) for s, v in p.items()}, r[0], r[1], boxes=boxes)
    return Verdict("open", boxes=boxes)


def structured(roots, domain, syms, n, rng):
    """exact points of a simple kind (axis vectors, small numbers, simple angles) at which comparisons meet equality"""
    groups = [g for g in domain.groups if any(s in syms for s in g)]
    angles = {x.args[0].attr for x in N.walk(list(roots)) if x.op == "fn" and x.attr in ("sin", "cos") and x.args[0].op == "sym"}
    for _ in range(n):
        p = {}
        for g in groups:
            if rng.random() < 0.8:
                ax, v = rng.randrange(len(g)), rng.choice((1, 1, 1, -1, 2, Fraction(1, 2)))
                for j, s in enumerate(g):
                    p[s] = Fraction(v if j == ax else 0)
            else:
                v = rng.choice(((3, 4, 0), (0, 4, 3), (1, 2, 2), (1, 1, 0), (2, -1, 2)))
                for j, s in enumerate(g):
                    p[s] = Fraction(v[j] if j < 3 else 0)
        for s in syms:
            if s in p:
                continue
            d = domain.dom.get(s, REAL)
            if d.kind == "range":
                c = [Fraction(0), Fraction(1), Fraction(1, 2), ival.pim(Fraction(1, 2), 1), ival.pim(Fraction(1), 1), ival.pim(Fraction(3, 2), 1), Fraction(d.lo), Fraction(d.hi)]
                c = [v for v in c if float(d.lo) <= float(v) <= float(d.hi)]
                p[s] = rng.choice(c)
            elif d.kind == "int":
                p[s] = Fraction(rng.choice((0, 1, 2, 5)))
            else:
                if s in angles and d.kind == "real" and rng.random() < 0.8:
                    p[s] = ival.pim(Fraction(rng.choice((-2, -1, 0, 1, 1, 2, 2, 2, 3, 4)), 2), 1)
                    continue
                v = rng.choice((Fraction(1), Fraction(1), Fraction(1), Fraction(2), Fraction(1, 2), Fraction(4), ival.pim(Fraction(2), 1), ival.pim(Fraction(1), 1), Fraction(0)))
                if d.kind in ("real", "neg", "nonzero") and rng.random() < 0.4:
                    v = ival.pim(-v.c, v.k) if isinstance(v, ival.PiM) else -v
                p[s] = v
        if all(domain.dom.get(s, REAL).ok(float(p[s])) for s in syms):
            yield {s: p[s] for s in syms}


def exact_search(code, ref, domain, n, salt, turn=False):
    """turn: angles that differ by a full turn (0 and 2 pi) are the same"""
    syms = sorted({s for r in [code, ref] + domain.constraints for s in N.deps(r)})
    if any(x.op in ("loop", "opq") for x in N.walk([code, ref])):
        return None
    rng = random.Random((SEED, salt, 77, len(syms)).__hash__() & 0xffffffff)
    seen = set()
    for p in structured([code, ref], domain, syms, n, rng):
        k = tuple(p.values())
        if k in seen:
            continue
        seen.add(k)
        ev = ival.Eval(p)
        if any(ev(c) is not True for c in domain.constraints):
            continue
        w = ev(ref)
        if not isinstance(w, (Fraction, ival.PiM, bool)):
            continue
        g = ev(code)
        if isinstance(g, (Fraction, ival.PiM, bool)) and isinstance(g, bool) == isinstance(w, bool) and g != w:
            if isinstance(g, bool) or abs(float(g) - float(w)) > 1e-9 and not (turn and abs(abs(float(g) - float(w)) - 2 * math.pi) < 1e-9):
                return p, g, w
    return None


STATS = {"identical": 0, "normal-form": 0, "refuted": 0, "open": 0, "boxes": 0, "regions": 0}


def equal(code, ref, domain, budget=15.0, limit=200, n=400, exact_boundary=True, rounds=1, prove_on=None, salt=0):
    """decide code == ref on domain"""
    if code is ref:
        STATS["identical"] += 1
        return Verdict("proved", "identical value graphs")
    v = search(code, ref, domain, n, exact_boundary, rounds, salt)
    STATS["boxes"] += v.boxes
    if v.status == "refuted":
        STATS["refuted"] += 1
        return v
    try:
        code, ref = unmod(tidy(code)), unmod(tidy(ref))
        if N.is_bool(code) or N.is_bool(ref):
            ok, regions = prove_bool(code, ref, domain, budget, limit)
        else:
            big = sum(1 for _ in N.walk([code, ref])) > 250
            ok, regions = False, 0
            if big and sweep(code, ref, domain, budget / 3, limit):
                ok = True
            if not ok:
                r = nf.prove_zero(N.sub(code, ref), domain.ctx(), limit=limit, budget=budget)
                ok, regions = r.ok, r.regions
            if not ok and not big and sweep(code, ref, domain, budget / 3, limit):
                ok = True
            if not ok and domain.given:
                c2, r2 = N.subst(code, domain.given), N.subst(ref, domain.given)
                r = nf.prove_zero(N.sub(c2, r2), domain.ctx(), limit=limit, budget=budget)
                ok, regions = r.ok, regions + r.regions
    except (nf.Blowup, RecursionError, OverflowError, ZeroDivisionError, KeyError, AssertionError):
        ok, regions = False, 0
    STATS["regions"] += regions
    if not ok and mixed(code, ref):
        ok = _proof(cosines(code), cosines(ref), domain, budget, limit)
    if ok:
        STATS["normal-form"] += 1
        return Verdict("proved", "normal form", regions=regions, boxes=v.boxes)
    STATS["open"] += 1
    return Verdict("open", boxes=v.boxes)


def cosines(root):
    """the angle of a point of the upper half plane, written as an inverse cosine"""
    m = {}
    for x in N.walk([root]):
        if x.op == "fn" and x.attr == "arctan2" and nonneg(x.args[0]):
            y, z = x.args
            m[x] = N.fn("arccos", N.div(z, N.sqrt(N.add(N.power(y, N.TWO), N.power(z, N.TWO)))))
    return N.subst(root, m) if m else root


def mixed(code, ref):
    has = lambda r, f: any(x.op == "fn" and x.attr == f for x in N.walk([r]))
    return has(code, "arccos") != has(ref, "arccos") and has(code, "arctan2") | has(ref, "arctan2")


def proof(code, ref, domain, budget, limit):
    """normal-form proof of code == ref"""
    return _proof(code, ref, domain, budget, limit) or mixed(code, ref) and _proof(cosines(code), cosines(ref), domain, budget, limit)


def _proof(code, ref, domain, budget, limit):
    try:
        code, ref = unmod(tidy(code)), unmod(tidy(ref))
        if N.is_bool(code) or N.is_bool(ref):
            ok, regions = prove_bool(code, ref, domain, budget, limit)
        else:
            r = nf.prove_zero(N.sub(code, ref), domain.ctx(), limit=limit, budget=budget)
            ok, regions = r.ok, r.regions
    except (nf.Blowup, RecursionError, OverflowError, ZeroDivisionError, KeyError, AssertionError):
        ok, regions = False, 0
    STATS["regions"] += regions
    return ok


def sweep(code, ref, domain, budget, limit):
    """prove code == ref after merging internally equal subgraphs (conditionals, function arguments,
    compared terms) into fresh unknowns: equality for every value of the unknowns implies equality"""
    t_end = time.process_time() + budget
    order, seen = [], set()
    for root in (code, ref):
        stack = [(root, 0)]
        while stack:
            x, k = stack.pop()
            if k == 0:
                if x.id in seen:
                    continue
                seen.add(x.id)
                stack.append((x, 1))
                stack.extend((a, 0) for a in x.args if a.id not in seen)
            else:
                order.append(x)
    cand = set()
    for x in order:
        if x.op == "sel" and not N.is_bool(x):
            cand.add(x.id)
            for y in N.walk([x.args[0]]):
                if y.op == "cmp":
                    cand.update(a.id for a in y.args)
        elif x.op == "fn":
            st = list(x.args)
            while st:       # leaves of the product decomposition of the arguments
                a = st.pop()
                if a.op in ("mul", "div", "neg", "mark"):
                    st.extend(a.args)
                elif a.op == "pow" and a.args[1].op == "const":
                    st.append(a.args[0])
                else:
                    cand.add(a.id)
    cand = [x for x in order if x.id in cand and x.op not in ("const", "pi", "sym", "bool") and N.deps(x) and not N.is_bool(x)]
    if not cand:
        return False
    syms = sorted({s for x in cand for s in N.deps(x)})
    rng = random.Random(7)
    env = proposals(syms, Domain(domain.dom, (), domain.groups), [], 24, rng)
    vals = feval(cand, env, 24)
    keys = {}
    for x, v in zip(cand, vals):
        v = np.asarray(v, float)
        ok = np.isfinite(v)
        k = (tuple(ok), tuple("%.6e" % q if abs(q) > 1e-9 else "0" for q in v[ok]))
        keys.setdefault(k, []).append(x)
    rep, m, dom = {}, {}, dict(domain.dom)
    cnt = 0
    gid = {x.id: k for k, l in keys.items() for x in l}
    inner = {a.id for x in order if x.op == "sel" for a in x.args[1:] if a.op == "sel"}
    done = {}
    memo = {}
    for x in cand:
        if time.process_time() > t_end:
            return False
        k = gid[x.id]
        y = N.subst(x, m)
        if k in done:
            s, y0 = done[k]
            if y is y0 or s.attr in N.deps(y) and proof(y, s, Domain(dom, (), domain.groups), max(1.0, budget / 8), limit) or proof(y, y0, Domain(dom, (), domain.groups), max(1.0, budget / 8), limit):
                m[x] = s
        elif x.op == "sel" and len(keys[k]) == 1 and x.id in inner:
            continue    # an inner arm of a case split that the other side arranges differently
        else:
            cnt += 1
            s = N.sym("$k%d" % cnt)
            dom[s.attr] = REAL
            done[k] = (s, y)
            m[x] = s
    c2, r2 = N.subst(code, m), N.subst(ref, m)
    if c2 is r2:
        return True
    return proof(c2, r2, Domain(dom, (), domain.groups), max(1.0, t_end - time.process_time()), limit)


def tidy(root):
    """in the branch taken where neither x > c nor x < c (or where x == c), x is c"""
    sels = [x for x in N.walk([root]) if x.op == "sel"]
    if not sels:
        return root
    m = {}

    def facts(c, val):
        if c.op == "not":
            return facts(c.args[0], not val)
        if c.op == "and" and val or c.op == "or" and not val:
            return [f for a in c.args for f in facts(a, val)]
        if c.op != "cmp":
            return []
        a, b = c.args
        if c.attr == "==":
            return [(a, b), (b, a)] if val else []
        return [(a, b)] if val else [(b, a)]

    def zero(fs):
        out = {}
        st = set(fs)
        for a, b in fs:
            if b.op == "const" and a.op != "const" and (b, a) in st:
                out[a] = b
        return out

    def go(x, fs, depth):
        if x.op != "sel" or depth > 8:
            return x
        c = x.args[0]
        br = []
        for val, y in ((True, x.args[1]), (False, x.args[2])):
            f2 = fs + facts(c, val)
            y2 = go(y, f2, depth + 1)
            z = zero(f2)
            if z and y2.op != "sel":
                y2 = N.subst(y2, z)
            br.append(y2)
        return x if br[0] is x.args[1] and br[1] is x.args[2] else N.sel(c, br[0], br[1])
    for x in sels:
        y = go(x, [], 0)
        if y is not x:
            m[x] = y
    return N.subst(root, m) if m else root


def unmod(root):
    """mod of an angle whose range is known, written as a case split"""
    m = {}
    for x in N.walk([root]):
        if x.op == "fn" and x.attr == "mod":
            u, v = angle_range(x.args[0]), angle_range(x.args[1])
            if u and v and v[0] == v[1] and v[0] > 0 and u[1] < v[0] and u[0] >= -v[0]:
                m[x] = N.sel(N.cmp("<", x.args[0], N.ZERO), N.add(x.args[0], x.args[1]), x.args[0]) if u[0] < 0 else x.args[0]
    return N.subst(root, m) if m else root


def angle_range(n, facts=None):
    """range of a graph in multiples of pi (lo, hi), or None; facts: node id -> (lo, hi)"""
    facts = facts or {}
    if n.id in facts:
        return facts[n.id]
    o, a = n.op, n.args
    if o == "const":
        return (0, 0) if n.attr == 0 else None
    if o == "pi":
        return (1, 1)
    if o == "mark":
        return angle_range(a[0], facts)
    if o == "fn":
        if n.attr == "arccos":
            return (0, 1)
        if n.attr in ("arcsin", "arctan"):
            return (-Fraction(1, 2), Fraction(1, 2))
        if n.attr == "arctan2":
            return (0, 1) if nonneg(a[0]) else (-1, 1)
        if n.attr == "mod":
            r = angle_range(a[1], facts)
            return (0, r[1]) if r and r[0] == r[1] and r[0] > 0 else None
        if n.attr == "abs":
            r = angle_range(a[0], facts)
            return (0, max(abs(r[0]), abs(r[1]))) if r else None
        return None
    if o in ("add", "sub"):
        u, v = angle_range(a[0], facts), angle_range(a[1], facts)
        if u is None or v is None:
            return None
        return (u[0] + v[0], u[1] + v[1]) if o == "add" else (u[0] - v[1], u[1] - v[0])
    if o == "neg":
        u = angle_range(a[0], facts)
        return None if u is None else (-u[1], -u[0])
    if o in ("mul", "div"):
        x, c = (a[0], a[1]) if a[1].op == "const" else (a[1], a[0])
        if c.op == "const" and (o == "mul" or c is a[1]) and c.attr != 0:
            k = Fraction(c.attr) if o == "mul" else 1 / Fraction(c.attr)
            u = angle_range(x, facts)
            if u is None:
                return None
            return (u[0] * k, u[1] * k) if k > 0 else (u[1] * k, u[0] * k)
        return None
    if o == "sel":
        ft, ff = dict(facts), dict(facts)
        c = a[0]
        if c.op == "cmp" and c.attr in ("<", "<="):
            l, r = c.args
            lr, rr = angle_range(l, facts), angle_range(r, facts)
            if lr and rr and rr[0] == rr[1]:
                ft[l.id] = (lr[0], min(lr[1], rr[1]))
                ff[l.id] = (max(lr[0], rr[0]), lr[1])
            elif lr and rr and lr[0] == lr[1]:
                ft[r.id] = (max(rr[0], lr[0]), rr[1])
                ff[r.id] = (rr[0], min(rr[1], lr[1]))
        u, v = angle_range(a[1], ft), angle_range(a[2], ff)
        if u is None or v is None:
            return None
        return (min(u[0], v[0]), max(u[1], v[1]))
    return None


def nonneg(n):
    if n.op == "pow" and n.args[1].op == "const" and (n.args[1].attr.denominator % 2 == 0 or n.args[1].attr.numerator % 2 == 0):
        return True
    if n.op == "fn" and n.attr == "abs":
        return True
    if n.op == "mark":
        return nonneg(n.args[0])
    if n.op in ("add", "mul", "div"):
        return nonneg(n.args[0]) and nonneg(n.args[1])
    if n.op == "const":
        return n.attr >= 0
    return False


def prove_bool(code, ref, domain, budget, limit):
    """code <-> ref by resolving both under a sign partition"""
    def test(c):
        a, b = nf.truth(c, code), nf.truth(c, ref)
        if a is None and b is None and nf.cond_key(c, code) == nf.cond_key(c, ref):
            return True
        if a is None:
            raise nf.NeedSplit(nf.pick_split(c, code))
        if b is None:
            raise nf.NeedSplit(nf.pick_split(c, ref))
        return a == b
    r = nf.prove(test, domain.ctx(), limit, budget)
    return r.ok, r.regions
