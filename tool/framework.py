"""Running a check: building value graphs from /repo, deciding obligations in
parallel, reporting and evidence."""
import ast
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

import numpy as np

sys.setrecursionlimit(20000)
import nodes as N
import decide
import spec
from absint import Interp
from values import Arr, AbsRaise, Incomplete, Raised, Func, Wrapped, Partial, Class, Ext, Module, LDict, flatten

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(ROOT, "evidence"))
REPO = os.environ.get("ASTRODYNX_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class Missing(Exception):
    """a public name the analysis is anchored at does not exist"""


class Skip(Exception):
    """obligation cannot be stated on this source (undecided)"""


class Wrong(Exception):
    """the result cannot be the documented one (a violation)"""


def short(v):
    s = repr(v) if not isinstance(v, str) else v
    return s if len(s) < 300 else s[:297] + "..."


def show_val(v):
    if isinstance(v, tuple) and len(v) == 2:
        try:
            return "[%.12g, %.12g]" % (float(v[0]), float(v[1]))
        except Exception:
            return short(v)
    try:
        return "%.12g" % float(v) if not isinstance(v, bool) else str(v)
    except Exception:
        return str(v)


class Ob:
    """one obligation: thunk() -> (status, how, detail)"""

    def __init__(self, name, loc, rule, thunk):
        self.name, self.loc, self.rule, self.thunk = name, loc, rule, thunk
        self.status, self.how, self.detail = None, "", None


class Run:
    def __init__(self, pid, tier, level="proof"):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = decide.SEED
        self.t0 = time.time()
        self.obs = []
        self.notes = []
        self.extra = {}
        self.I = Interp(SRC)
        self.cache = {}
        self.trusted = []
        self.assumptions = []
        self.broken = None
        self.deadline = float(os.environ.get("VERIF_DEADLINE", "780" if tier == "quick" else "3000"))

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -------------------------------------------------------------- source access
    def trees(self):
        for m in list(self.I.modules.values()):
            t = getattr(m, "tree", None)
            if t is None and getattr(m, "path", None):
                try:
                    t = ast.parse(open(m.path, encoding="utf-8").read())
                except (OSError, SyntaxError, TypeError):
                    continue
            if t is not None:
                yield t

    def limits(self, lo=2, hi=1100, most=6):
        """integers k the library compares, slices, ranges or divides by, with their neighbours: sizes at which a
        branch on the size of an argument could change sides"""
        if not hasattr(self, "_ints"):
            ks = set()
            for t in self.trees():
                named = {}
                for n in ast.walk(t):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant) and type(n.value.value) is int:
                        for x in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            if isinstance(x, ast.Name):
                                named[x.id] = n.value.value
                for n in ast.walk(t):
                    if isinstance(n, ast.Compare):
                        l = [n.left] + n.comparators
                    elif isinstance(n, ast.Subscript):
                        l = [n.slice]
                    elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
                        l = [n.right]
                    elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) in ("range", "min", "max", "slice", "islice", "minimum", "maximum", "array_split", "split", "pad", "batched", "map"):
                        l = list(n.args) + [k.value for k in n.keywords]
                    elif isinstance(n, ast.Match):
                        l = [v.pattern for v in n.cases]
                    else:
                        continue
                    for e in l:
                        for c in ast.walk(e):
                            if isinstance(c, ast.Constant) and type(c.value) is int:
                                ks.add(c.value)
                            elif isinstance(c, ast.Name) and c.id in named:
                                ks.add(named[c.id])
            self._ints = ks
        out = set()
        for k in self._ints:
            if lo + 1 < k <= hi:
                out |= {k - 1, k, k + 1}
        return sorted(x for x in out if x >= lo)[:3 * most]

    def module(self, name):
        try:
            return self.I.load(name)
        except AbsRaise as e:
            raise Missing("importing %s fails: %s" % (name, e))

    def value(self, path):
        m, _, n = path.rpartition(".")
        mod = self.module(m)
        try:
            return self.I.getattr(mod, n)
        except AbsRaise:
            raise Missing("%s does not exist" % path)

    def where(self, v):
        """file:line of a callable's definition"""
        d = 0
        while isinstance(v, (Wrapped, Partial)) and d < 10:
            v, d = v.f, d + 1
        if isinstance(v, Func):
            return "%s:%s %s" % (self.I.rel(v.file), getattr(v.node, "lineno", 0), v.name)
        return short(v)

    def call(self, f, args, kw=None):
        """value over all paths, or Raised"""
        self.I.fuel = 400000
        self.I.stack, self.I.depth, self.I.loop_depth = [], 0, 0
        v, paths = self.I.merged(lambda: self.I.call(f, list(args), dict(kw or {})))
        return v, paths

    def graph(self, fn, batch=None, kw=None, given=None, nargs=None):
        """(value, paths) of a public function on symbolic arguments.
        batch: arg name -> leading shape; given: arg name -> value"""
        key = (fn.path, tuple(sorted((batch or {}).items())), tuple(sorted(given)) if given else None, nargs)
        if key in self.cache and not given and not kw:
            r = self.cache[key]
            if isinstance(r, Exception):
                raise r
            return r
        f = self.value(fn.path)
        args = []
        for a in fn.args[:nargs]:
            if given and a.name in given:
                args.append(given[a.name])
            else:
                args.append(spec.arg_value(a, (batch or {}).get(a.name, ())))
        try:
            r = self.call(f, args, kw)
        except Incomplete as e:
            if not given and not kw:
                self.cache[key] = e
            raise
        if not given and not kw:
            self.cache[key] = r
        return r

    def outs(self, fn, **kw):
        """list of object arrays, one per output"""
        v, paths = self.graph(fn, **kw)
        return self.as_outs(fn, v)

    def as_outs(self, fn, v):
        if isinstance(v, Raised):
            raise v.e
        if isinstance(v, tuple):
            r = list(v)
        elif isinstance(v, list):
            r = list(v)
        else:
            r = [v]
        out = []
        for x in r:
            if isinstance(x, Arr):
                out.append(x.a)
            else:
                try:
                    out.append(self.I.lib.asarr(self.I, x).a)
                except Exception:
                    raise Incomplete("unexpected result %s of %s" % (short(x), fn.path))
        return out

    # -------------------------------------------------------------- obligations
    def ob(self, name, loc, rule, thunk):
        self.obs.append(Ob(name, loc, rule, thunk))

    def fact(self, name, loc, rule, ok, detail=None, how="inspection"):
        """obligation already decided"""
        o = Ob(name, loc, rule, None)
        o.status = "proved" if ok is True else ("refuted" if ok is False else "open")
        o.how, o.detail = how, detail
        self.obs.append(o)

    def eq(self, name, loc, code, ref, domain, rule="value graph equals reference", **kw):
        """scalar equality obligation"""
        code, ref = _node(code), _node(ref)
        k = dict(budget=25.0 if self.tier == "quick" else 150.0, limit=200 if self.tier == "quick" else 2000,
                 n=400 if self.tier == "quick" else 3000, rounds=1 if self.tier == "quick" else 3)
        k.update(kw)
        k["salt"] = len(self.obs)

        def thunk():
            v = decide.equal(code, ref, domain, **k)
            det = None
            if v.status == "refuted":
                det = dict(box={s: repr(x) for s, x in (v.witness or {}).items()}, got=show_val(v.got), want=show_val(v.want),
                           construct=N.show(code, 5), at=code.loc)
            elif v.status == "open":
                det = dict(reason="neither proved nor refuted", boxes=v.boxes, construct=N.show(code, 4))
            return v.status, v.how, det
        self.ob(name, loc, rule, thunk)

    def _k(self, **kw):
        k = dict(budget=25.0 if self.tier == "quick" else 150.0, limit=200 if self.tier == "quick" else 2000,
                 n=400 if self.tier == "quick" else 3000, rounds=1 if self.tier == "quick" else 3)
        k.update(kw)
        return k

    @staticmethod
    def _det(v, code):
        return dict(box={s: repr(x) for s, x in (v.witness or {}).items()}, got=show_val(v.got), want=show_val(v.want), construct=N.show(code, 5), at=code.loc)

    def two_step(self, name, loc, rule, refute, prove, exact=None, **kw):
        """refute = (code, want, domain): searched for a separating box; prove = (code, ref, domain): proved equal by normal form"""
        k = self._k(**kw)
        salt = len(self.obs)

        def thunk():
            v = decide.search(_node(refute[0]), _node(refute[1]), refute[2], k["n"], False, k["rounds"], salt)
            decide.STATS["boxes"] += v.boxes
            if v.status == "refuted":
                return "refuted", v.how, self._det(v, _node(prove[0]))
            c, r, d = _node(prove[0]), _node(prove[1]), prove[2]
            if c is r:
                return "proved", "identical value graphs", None
            if exact is not None:
                x = decide.exact_search(c, r, exact[0], k["n"], salt, exact[1])
                if x is not None:
                    v = decide.Verdict("refuted", "exact point", {s: float(a) for s, a in x[0].items()}, x[1], x[2])
                    return "refuted", v.how, self._det(v, c)
            if decide.proof(c, r, d, k["budget"], k["limit"]):
                return "proved", "normal form", None
            return "open", "", dict(reason="neither proved nor refuted", boxes=v.boxes, construct=N.show(c, 4))
        self.ob(name, loc, rule, thunk)

    def invert(self, name, loc, code, ref, want, gdom, mdom, exact=None):
        self.two_step(name, loc, "recovers the element of the orbit the state was built from; equals the closed form", (code, want, mdom), (code, ref, gdom), exact)

    def predicate(self, name, loc, code, ref, gdom, on, want, mdom):
        self.two_step(name, loc, "true exactly for the documented geometry", (on, want, mdom), (code, ref, gdom))

    def rng(self, name, loc, code, bad, mdom, lo, hi):
        """code within [lo, hi] multiples of pi: range analysis of the graph, or refuted by a box"""
        k = self._k()
        salt = len(self.obs)

        def thunk():
            r = decide.angle_range(code)
            if r is not None and r[0] >= lo and r[1] <= hi:
                return "proved", "range analysis", None
            v = decide.search(bad, N.boolean(True), mdom, k["n"], False, k["rounds"], salt)
            if v.status == "refuted":
                return "refuted", v.how, self._det(v, code)
            return "open", "", dict(reason="range %s" % (r,))
        self.ob(name, loc, "returned angle lies in its documented range", thunk)

    def arreq(self, name, loc, code, ref, domain, **kw):
        """elementwise equality of object arrays (shape first)"""
        code, ref = np.asarray(code, dtype=object), np.asarray(ref, dtype=object)
        if code.shape != ref.shape:
            self.fact(name, loc, "result shape", False, dict(got=str(code.shape), want=str(ref.shape)))
            return
        for i in np.ndindex(*code.shape):
            self.eq(name + ("[%s]" % ",".join(map(str, i)) if i else ""), loc, code[i], ref[i], domain, **kw)

    def guard(self, name, loc, build):
        """run build(); analysis gaps become undecided, certain exceptions become violations"""
        try:
            build()
        except AbsRaise as e:
            self.fact(name, e.loc or loc, "evaluates without raising for admissible arguments", False,
                      dict(raises=str(e), at=str(e.loc)))
        except Wrong as e:
            self.fact(name, loc, "a result of the documented shape", False, dict(got=str(e)))
        except (Incomplete, Skip) as e:
            self.fact(name, loc, "construct understood by the analysis", None, dict(reason=str(e)))
        except (RecursionError, OverflowError) as e:
            self.fact(name, loc, "construct understood by the analysis", None, dict(reason="%s" % type(e).__name__))

    def each(self, fns, build, prefix=""):
        for fn in fns:
            loc = fn.path
            try:
                loc = self.where(self.value(fn.path))
            except Missing:
                pass
            self.guard(prefix + fn.name, loc, lambda: build(fn, loc))

    # -------------------------------------------------------------- solving
    def solve(self):
        todo = [i for i, o in enumerate(self.obs) if o.status is None]
        if not todo:
            return
        global _OBS
        _OBS = self.obs
        ctx = mp.get_context("fork")
        procs = min(8, os.cpu_count() or 1, len(todo))
        stop = self.t0 + self.deadline
        with ctx.Pool(procs, maxtasksperchild=20) as pool:
            res = [(i, pool.apply_async(_solve_one, (i,))) for i in todo]
            for i, r in res:
                o = self.obs[i]
                try:
                    o.status, o.how, o.detail, st = r.get(timeout=max(0.5, stop - time.time()))
                    for k, v in st.items():
                        decide.STATS[k] = decide.STATS.get(k, 0) + v
                except mp.TimeoutError:
                    o.status, o.how, o.detail = "open", "", dict(reason="time limit of the run")
            pool.terminate()

    # -------------------------------------------------------------- reporting
    def finish(self):
        self.solve()
        known = load_known()
        viol, kn = [], []
        for o in self.obs:
            if o.status == "refuted":
                hit = [k for k in known if k["property"] == self.pid and k["obligation"] == o.name]
                (kn if hit else viol).append(o)
        op = [o for o in self.obs if o.status == "open"]
        done = [o for o in self.obs if o.status == "proved"]
        for o in kn:
            print("KNOWN-FINDING: property=%s %s at %s" % (self.pid, o.name, o.loc))
        hows = {}
        for o in done:
            hows[o.how] = hows.get(o.how, 0) + 1
        cov = dict(obligations=len(self.obs), discharged=len(done), undecided=len(op), discharged_by=hows,
                   functions_analysed=len(self.I.analysed), call_sites=self.I.call_sites, statements=self.I.stmts,
                   boxes_searched=decide.STATS.get("boxes", 0), sign_regions=decide.STATS.get("regions", 0),
                   rules=sorted({o.rule for o in self.obs}),
                   checker_cmd="python3-vt tool/check.py %s --tier %s" % (self.pid, self.tier),
                   trusted_base=self.trusted or TRUSTED,
                   explanation=self.extra.get("explanation", "static analysis of the source under %s; obligations listed in samples" % SRC),
                   samples=[dict(obligation=o.name, at=o.loc, rule=o.rule, status=o.status, how=o.how) for o in pick(self.obs, 25)])
        for k, v in self.extra.items():
            cov.setdefault(k, v)
        if op:
            cov["undecided_obligations"] = [dict(obligation=o.name, at=o.loc, detail=o.detail) for o in op[:40]]
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions + ASSUME, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d functions, %d call sites analysed, %.1f s)" % (
            self.pid, len(self.obs), len(done), len(op), len(viol), len(self.I.analysed), self.I.call_sites, time.time() - self.t0))
        for o in op[:12]:
            print("UNDECIDED %s at %s: %s" % (o.name, o.loc, short(o.detail)))
        if viol:
            path = os.path.join(EVIDENCE, self.pid + ".violation.json")
            with open(path, "w") as f:
                json.dump([dict(obligation=o.name, construct=o.loc, rule=o.rule, how=o.how, detail=o.detail) for o in viol], f, indent=1, default=str)
            for o in viol[:12]:
                print("  %s: %s -- %s: %s" % (o.loc, o.name, o.rule, short(json.dumps(o.detail, default=str))))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if not self.obs or not done:
            print("ANALYSIS-BROKEN property=%s: no obligation could be decided" % self.pid)
            return 2
        return 0


TRUSTED = ["tool/absint.py (abstract interpreter of the Python subset)", "tool/lib.py (model of jax.numpy, jax.lax, NumPy and builtins)",
           "tool/nf.py (algebraic normal form)", "tool/ival.py (outward-rounded interval semantics)", "tool/spec.py (reference formulas)"]
ASSUME = ["real arithmetic: floating-point rounding is not modelled", "JAX, NumPy and diffrax behave as modelled in tool/lib.py"]
_OBS = None


def pick(l, n):
    if len(l) <= n:
        return l
    st = len(l) / n
    return [l[int(i * st)] for i in range(n)]


def _node(x):
    if isinstance(x, N.Node):
        return x
    from values import _coerce1
    return _coerce1(x)


def _solve_one(i):
    before = dict(decide.STATS)
    o = _OBS[i]
    try:
        s, h, d = o.thunk()
    except AbsRaise as e:
        s, h, d = "refuted", "exception", dict(raises=str(e))
    except (Incomplete, Skip) as e:
        s, h, d = "open", "", dict(reason=str(e))
    except Exception as e:
        s, h, d = "open", "", dict(reason="%s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-600:])
    return s, h, d, {k: v - before.get(k, 0) for k, v in decide.STATS.items()}


def load_known():
    """known-findings.txt: lines 'finding: property=<id> <obligation>' (suppressing) and 'fixed: ...' (informative)"""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property="):
                rest = l[len("finding: property="):]
                pid, _, ob = rest.partition(" ")
                out.append(dict(property=pid, obligation=ob.split(" -- ")[0].strip()))
    return out
