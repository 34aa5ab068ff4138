"""C19 problem forwarding, C20 saving and stepping, C22 public names."""
import ast
import os
import re
from fractions import Fraction

import numpy as np

import framework
import nodes as N
import spec
from checks_effect import REPRS, _repr, COWELL, REQUIRED, orbdyn, cowell_args, load_all
from decide import Domain, REAL
from framework import Missing, Skip, short
from spec import sym
from values import Arr, AbsRaise, Incomplete, Raised, LDict, Tok, Func, Ext, ExtCall, Wrapped, Partial, Class, Module, Inst, Bound, flatten

SIG = ["terms", "solver", "t0", "t1", "dt0", "y0", "args"]
KWS = {"saveat", "stepsize_controller", "adjoint", "event", "max_steps", "throw", "progress_meter", "solver_state", "controller_state", "made_jump", "discrete_terminating_event"}
ABSENT = Ext("<absent>")


def num(v):
    """exact Python value of a constant, else None"""
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, Arr) and v.size == 1 and v.ndim == 0:
        n = v.item()
        if n.op == "const":
            return n.attr
        if n.op == "bool":
            return n.attr
    return None


def same(a, b):
    """True / False / list of (node, node) pairs still to be compared / None (cannot tell)"""
    if a is b:
        return True
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return x == y
    if isinstance(a, (Arr, int, Fraction)) and isinstance(b, (Arr, int, Fraction)) and not isinstance(a, bool) and not isinstance(b, bool):
        p, q = arr(a), arr(b)
        if p.shape != q.shape:
            return False
        r = [(u, v) for u, v in zip(p.reshape(-1), q.reshape(-1)) if u is not v]
        return r if r else True
    if isinstance(a, Arr) != isinstance(b, Arr):
        o = a if isinstance(b, Arr) else b
        if isinstance(o, ExtCall) or isinstance(o, Arr):
            return None
        return False
    if isinstance(a, (Tok, Ext)) and isinstance(b, (Tok, Ext)):
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return combine([same(a[k], b[k]) for k in a])
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return combine([same(u, v) for u, v in zip(a, b)])
    if isinstance(a, ExtCall) and isinstance(b, ExtCall):
        if last(a.path) != last(b.path) or len(a.args) != len(b.args) or set(a.kwargs) != set(b.kwargs):
            return False
        return combine([same(u, v) for u, v in zip(a.args, b.args)] + [same(a.kwargs[k], b.kwargs[k]) for k in a.kwargs])
    if isinstance(a, ExtCall) or isinstance(b, ExtCall):
        e, o = (a, b) if isinstance(a, ExtCall) else (b, a)
        if e.path.startswith(("op.", "attr.", "item", "call:")):
            return None
        return False
    if isinstance(a, Inst) and isinstance(b, Inst):
        return combine([same(a.d.get(k), b.d.get(k)) for k in set(a.d) | set(b.d)])
    if type(a) is type(b):
        try:
            return bool(a == b)
        except Exception:
            return None
    return False


def arr(a):
    if isinstance(a, Arr):
        return a.a
    r = np.empty((), dtype=object)
    r[()] = N.const(a)
    return r


def combine(l):
    if any(x is False for x in l):
        return False
    if any(x is None for x in l):
        return None
    out = [p for x in l if isinstance(x, list) for p in x]
    return out if out else True


def last(p):
    return p.split(".")[-1]


def bind(c):
    """diffeqsolve call -> dict of parameters"""
    d = {}
    for k, v in zip(SIG, c.args):
        d[k] = v
    if len(c.args) > len(SIG):
        raise AbsRaise("TypeError", "too many positional arguments for diffeqsolve", c.loc)
    for k, v in c.kwargs.items():
        if k in d or (k not in SIG and k not in KWS):
            raise AbsRaise("TypeError", "diffeqsolve got an unexpected or repeated argument %s" % k, c.loc)
        d[k] = v
    for k in SIG[:6]:
        if k not in d:
            raise AbsRaise("TypeError", "diffeqsolve is missing %s" % k, c.loc)
    return d


def is_solve(c):
    return isinstance(c, ExtCall) and c.path.startswith("diffrax.") and last(c.path) == "diffeqsolve"


CONFIGS_DOC = "every subset of optional arguments passed or omitted x event given, absent or defaulted x positional or keyword call"


def configs(name):
    """lists of optional argument names that are passed"""
    opt = COWELL[name][REQUIRED[name]:]
    out = []
    for m in range(2 ** len(opt)):
        out.append([o for i, o in enumerate(opt) if m >> i & 1])
    return out


def solves(run, name):
    """yields (label, given, orbdyn, args dict, passed dict, path calls, value)"""
    f = run.value("astrodynx.prop." + name)
    for ev in ("tok", None, "default"):
        for passed in configs(name):
            for style in ("keyword", "positional"):
                n = REQUIRED[name]
                if style == "positional" and passed != COWELL[name][n:n + len(passed)]:
                    continue
                lab = "%s(event %s; %s; %s)" % (name, {"tok": "given", None: "None", "default": "default"}[ev], "+".join(passed) or "defaults", style)
                yield from solve_paths(run, f, name, lab, ev, passed, style, None, {})
    opt = COWELL[name][REQUIRED[name]:]
    for form, args, over in forms(name, run):
        for passed in ([], opt):
            ov = {k: v for k, v in over.items() if k in COWELL[name]}
            if over and not ov or any(k in opt and k not in passed for k in ov):
                continue
            lab = "%s(%s; %s)" % (name, form, "+".join(passed) or "defaults")
            yield from solve_paths(run, f, name, lab, "tok", passed, "keyword", args, ov)


def words(run):
    """short string constants of the propagators' module that could be keys of a dictionary"""
    import ast
    ks = set()
    for t in run.trees():
        for n in ast.walk(t):
            if isinstance(n, (ast.Compare, ast.Subscript, ast.Call)):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value.isidentifier() and len(c.value) < 20:
                        ks.add(c.value)
    return sorted(ks)[:12]


def forms(name, run):
    """other admissible values: (label, (dynamics arguments,) or None, argument values)"""
    k = lambda v: Arr(N.const(v), "f")
    out = [("empty dynamics arguments", (LDict(),), {}), ("no dynamics arguments", (None,), {}), ("tuple of dynamics arguments", ((spec.symarr("mu"), spec.symarr("J2")),), {}),
           ("scalar dynamics arguments", (spec.symarr("mu"),), {}), ("zero dynamics arguments", (LDict({"mu": 0}),), {}),
           ("state of 7", None, {"x0": spec.symarr("x0", (7,))}), ("state of 42", None, {"x0": spec.symarr("x0", (42,))}), ("batch of states", None, {"x0": spec.symarr("x0", (2, 6))}),
           ("NumPy state", None, {"x0": Arr(spec.symarr("x0", (6,)).a, "f", conc=True, isnp=True)})]
    for t in (Fraction(0), Fraction(-7), Fraction(1, 10), Fraction(10 ** 7), 1):
        out.append(("end time %s" % t, None, {"t1": k(t) if t != 1 else 1}))
    for n in run.limits(hi=10 ** 7) + [10 ** 6]:
        out.append(("end time %d" % n, None, {"t1": n}))
        out.append(("step %d" % n, None, {"dt": n, "dt0": n}))
    for kind, what in REPRS.items():
        for a, shape in (("t1", ()), ("dt", ()), ("dt0", ()), ("x0", (6,)), ("ts", (2,))):
            if not (kind.startswith("py") and shape):
                out.append(("%s as %s" % (a, what), None, {a: _repr(spec.symarr(a, shape), kind)}))
    for kind, what in REPRS.items():
        out.append(("all times and steps as %s" % what, None, {a: _repr(spec.symarr(a, ()), kind) for a in ("t1", "dt", "dt0")}))
    out.append(("irregular step", None, {"t1": 7.5, "dt": 0.7, "dt0": 0.7}))
    for ks in [["_k", "rho", "mu"], ["mu", 0], ["MU"]] + [[w] for w in words(run)]:
        out.append(("dynamics arguments %s" % ", ".join(map(str, ks)), (LDict({x: spec.symarr("arg_%s" % x, ()) for x in ks}),), {}))
    out.append(("nested dynamics arguments", (LDict({"mu": spec.symarr("mu", ()), "drag": LDict({"cd": spec.symarr("cd", ())})}),), {}))
    for m in [None, 1, 16, 4096, 100000] + run.limits(hi=10 ** 7):
        out.append(("max_steps %s" % m, None, {"max_steps": m}))
    for t in (Fraction(1, 1000), Fraction(-1, 2), Fraction(10 ** 6), 1):
        out.append(("step %s" % t, None, {"dt": k(t) if t != 1 else 1}))
        out.append(("initial step %s" % t, None, {"dt0": k(t) if t != 1 else 1}))
    out.append(("no initial step", None, {"dt0": None}))
    for n in [0, 1, 5] + run.limits(hi=200):
        out.append(("%d times" % n, None, {"ts": spec.symarr("ts", (n,))}))
    return out


def solve_paths(run, f, name, lab, ev, passed, style, dargs, over):
    n = REQUIRED[name]
    run.I.fuel = 400000
    od, d = orbdyn(run, ev, args=dargs)
    vals = dict(zip(COWELL[name], cowell_args(run, name, od)))
    vals.update(over)
    req = COWELL[name][:n]
    if style == "keyword":
        args, kw = [vals[k] for k in req[:1]], {k: vals[k] for k in req[1:] + passed}
    else:
        args, kw = [vals[k] for k in req + passed], {}
    run.I.stack, run.I.depth, run.I.loop_depth = [], 0, 0
    paths = run.I.explore(lambda: run.I.call(f, list(args), dict(kw)))
    for i, (trace, v, cs) in enumerate(paths):
        yield lab + (" path %d" % i if len(paths) > 1 else ""), vals, ev, d, passed, cs, v, trace


def decide_same(run, name, loc, rule, got, want):
    r = same(got, want)
    if r is True:
        run.fact(name, loc, rule, True, how="same abstract value")
    elif r is False:
        run.fact(name, loc, rule, False, dict(got=short(got), want=short(want)), "abstract value of the call argument")
    elif r is None:
        run.fact(name, loc, rule, None, dict(reason="cannot compare %s with %s" % (short(got), short(want))))
    else:
        dom = Domain({s: REAL for p in r for x in p for s in N.deps(x)})
        for i, (u, v) in enumerate(r):
            w = [x.attr for x in N.walk([u]) if x.op == "mark" and x.attr in ("cast:f32", "cast:f16")]
            if w and not any(x.op == "mark" for x in N.walk([v])):
                run.fact("%s [%d]" % (name, i), loc, rule, False, dict(got=short(got), want=short(want), narrowed=w[0]), "abstract value of the call argument")
                continue
            run.eq("%s [%d]" % (name, i), loc, u, v, dom, rule=rule)


def the_solve(run, lab, loc, cs, v, quiet=False):
    """the single ODE solve on this path, or None after recording why not"""
    rule = "exactly one ODE solve, whose solution is returned"
    if isinstance(v, Raised):
        run.fact(lab, v.e.loc or loc, "evaluates without raising for admissible arguments", False, dict(raises=str(v.e)))
        return None
    ss = [c for c in cs if is_solve(c)]
    if len(ss) != 1:
        unk = isinstance(v, ExtCall) and not is_solve(v) and not ss
        run.fact(lab + " solve", loc, rule, None if unk else False, dict(solves=len(ss), returned=short(v)))
        return None
    ok = v is ss[0]
    if not ok and isinstance(v, ExtCall) and not v.path.startswith(("attr.", "item", "op.")):
        ok = None
    if not quiet or ok is not True:
        run.fact(lab + " solve", ss[0].loc or loc, rule, ok, None if ok else dict(returned=short(v)), "path exploration")
    return ss[0] if ok is not False else None


def c19(run):
    paths = 0
    for name in COWELL:
        loc = run.where(run.value("astrodynx.prop." + name))

        def build(name=name, loc=loc):
            nonlocal paths
            for lab, vals, ev, d, passed, cs, v, trace in solves(run, name):
                paths += 1
                c = the_solve(run, lab, loc, cs, v)
                if c is None:
                    continue
                p = bind(c)
                L = c.loc or loc
                rule = "the caller's %s reaches the solve unmodified"
                decide_same(run, lab + " terms", L, rule % "dynamics", p["terms"], Tok("terms"))
                decide_same(run, lab + " args", L, rule % "dynamics arguments", p.get("args"), d)
                decide_same(run, lab + " event", L, rule % "event", p.get("event"), Tok("event") if ev == "tok" else None)
                decide_same(run, lab + " y0", L, rule % "initial state", p["y0"], vals["x0"])
                decide_same(run, lab + " t1", L, rule % "end time", p["t1"], vals["t1"])
                decide_same(run, lab + " t0", L, "integration starts at time 0", p["t0"], 0)
                for k, q in (("solver", "solver"), ("stepsize_controller", "stepsize_controller"), ("max_steps", "max_steps"), ("dt0", "dt0")):
                    if k in passed:
                        decide_same(run, lab + " " + k, L, rule % k, p.get(q), vals[k])
                if name == "cowell_method":
                    decide_same(run, lab + " saveat", L, rule % "save specification", p.get("saveat"), vals["saveat"])
                thr = p.get("throw", True)
                run.fact(lab + " throw", L, "integration failures are not silenced", True if num(thr) is True or thr is True else (False if num(thr) is not None else None), dict(throw=short(thr)), "abstract value of the call argument")
                st = [k for k in ("solver_state", "controller_state", "made_jump", "discrete_terminating_event") if p.get(k) is not None]
                run.fact(lab + " state", L, "the solve starts from scratch", not st, dict(passed=st), "abstract value of the call argument")
        run.guard(name, loc, build)
    run.extra["paths"] = paths
    run.extra["explanation"] = "every path of every propagator explored with opaque tokens for dynamics, event, solver, controller and limits (%s); the arguments of the single ODE solve compared with the caller's" % CONFIGS_DOC


# ------------------------------------------------------------------ C20
SAVE_DEFAULT = {"t0": False, "t1": False, "ts": None, "steps": False}


def norm_save(v):
    """SaveAt -> dict(t0, t1, ts, steps) plus 'other' keys; raises Skip when not understood"""
    if not isinstance(v, ExtCall) or last(v.path) not in ("SaveAt", "SubSaveAt"):
        raise Skip("save specification %s" % short(v))
    if v.args:
        raise AbsRaise("TypeError", "SaveAt takes keyword arguments only", v.loc)
    kw = dict(v.kwargs)
    subs = kw.pop("subs", None)
    other = {}
    out = dict(SAVE_DEFAULT)
    for k, x in kw.items():
        if k in out:
            out[k] = x
        elif k in ("dense", "solver_state", "controller_state", "made_jump", "fn"):
            if num(x) is not False:
                other[k] = x
        else:
            raise AbsRaise("TypeError", "SaveAt got an unexpected argument %s" % k, v.loc)
    if subs is not None:
        if any(k in SAVE_DEFAULT and num(x) is not False and x is not None for k, x in kw.items()):
            raise AbsRaise("ValueError", "SaveAt got both subs and explicit times", v.loc)
        s, o2 = norm_save(subs)
        other.update(o2)
        out.update(s)
    st = num(out["steps"])
    if st is not None and not isinstance(st, bool):
        out["steps"] = {0: False, 1: True}.get(int(st), st)
    return out, other


def flag(v):
    x = num(v)
    return x if isinstance(x, bool) else v


PID = ["rtol", "atol", "norm", "pcoeff", "icoeff", "dcoeff", "dtmin", "dtmax", "force_dtmin", "factormin", "factormax", "safety", "error_order", "step_ts", "jump_ts"]


def pid_args(v):
    if not isinstance(v, ExtCall) or last(v.path) != "PIDController":
        return None
    d = dict(zip(["rtol", "atol", "norm", "pcoeff", "icoeff", "dcoeff", "dtmin", "dtmax", "force_dtmin", "factormin", "factormax", "safety", "error_order"], v.args))
    d.update(v.kwargs)
    return d


def c20(run):
    defaults = {"solver": {}, "stepsize_controller": {}}
    for name in COWELL:
        loc = run.where(run.value("astrodynx.prop." + name))

        def build(name=name, loc=loc):
            for lab, vals, ev, d, passed, cs, v, trace in solves(run, name):
                c = the_solve(run, lab, loc, cs, v, quiet=True)
                if c is None:
                    continue
                p = bind(c)
                L = c.loc or loc

                def f(what, rule, ok, got):
                    run.fact(lab + " " + what, L, rule, ok, None if ok is True else dict(got=short(got)), "abstract value of the call argument")
                # what is saved
                if name != "cowell_method":
                    sv = p.get("saveat", ExtCall("diffrax.SaveAt", [], {"t1": True}, None, 0))
                    s, other = norm_save(sv)
                    t0, t1, st, ts = flag(s["t0"]), flag(s["t1"]), flag(s["steps"]), s["ts"]
                    if name in ("fixed_steps", "adaptive_steps"):
                        f("saveat", "saves the initial state and every step", t0 is True and st is True and ts is None and "fn" not in other, sv)
                    elif name == "custom_steps":
                        f("saveat", "saves exactly the caller's times", t0 is False and st is False and t1 is False and "fn" not in other, sv)
                        if ts is None:
                            f("saved times", "saves exactly the caller's times", False, sv)
                        else:
                            decide_same(run, lab + " saved times", L, "saves exactly the caller's times", ts, vals["ts"])
                    else:
                        f("saveat", "saves only the final state", t1 is True and t0 is False and st is False and ts is None and "fn" not in other, sv)
                # stepping
                ctl = p.get("stepsize_controller", ExtCall("diffrax.ConstantStepSize", [], {}, None, 0))
                if name == "fixed_steps":
                    f("controller", "constant step size", isinstance(ctl, ExtCall) and last(ctl.path) == "ConstantStepSize", ctl)
                    decide_same(run, lab + " dt0", L, "constant step of exactly the caller's dt", p["dt0"], vals["dt"])
                elif "stepsize_controller" not in passed:
                    defaults["stepsize_controller"].setdefault(name, (ctl, L))
                    a = pid_args(ctl)
                    if a is None:
                        f("controller", "default controller is adaptive with tolerances of 1e-8 or tighter", False if isinstance(ctl, ExtCall) and ctl.path.startswith("diffrax.") else None, ctl)
                    else:
                        tol = [num(a.get("rtol", 1)), num(a.get("atol", 1))]
                        ok = all(t is not None and not isinstance(t, bool) and 0 <= t <= Fraction(1, 10 ** 8) for t in tol)
                        ok = ok and a.get("dtmin") is None and "error_order" not in a and "norm" not in a
                        f("controller", "default controller is adaptive with tolerances of 1e-8 or tighter", ok, ctl)
                if "solver" not in passed:
                    defaults["solver"].setdefault(name, (p["solver"], L))
                if name == "cowell_method" and "dt0" not in passed:
                    f("dt0", "default initial step is chosen by the solver", p["dt0"] is None, p["dt0"])
                elif name in ("adaptive_steps", "custom_steps", "to_final"):
                    x = p["dt0"]
                    ok = x is None
                    if not ok and isinstance(x, Arr) and x.ndim == 0 and x.item() is not None:
                        r = same(x, Arr(N.mul(N.const(Fraction(1, 100)), sym("t1"))))
                        ok = None if isinstance(r, list) else r
                    f("dt0", "initial step is chosen by the solver", ok, x)
                # step limit
                ms = p.get("max_steps", 4096)
                if name == "custom_steps":
                    f("max_steps", "no step limit", ms is None, ms)
                elif "max_steps" not in passed:
                    m = num(ms)
                    f("max_steps", "at least the documented 4096 steps", ms is None or (m is not None and not isinstance(m, bool) and m >= 4096), ms)
        run.guard(name, loc, build)
    for what, names in (("solver", list(COWELL)), ("stepsize_controller", [n for n in COWELL if n != "fixed_steps"])):
        have = [(n,) + defaults[what][n] for n in names if n in defaults[what]]
        if len(have) < 2:
            continue
        # the value most propagators use is the reference
        votes = [sum(1 for _, w, _ in have if same(v, w) is True) for _, v, _ in have]
        ref = have[votes.index(max(votes))][1]
        for n, v, L in have:
            r = same(v, ref)
            run.fact("default %s of %s" % (what, n), L, "all propagators share one default %s" % what, r if r in (True, False) else None, dict(got=short(v), want=short(ref)), "abstract value of the default")
    run.extra["explanation"] = "save specification, controller, step and step-limit arguments of the ODE solve on every path of every propagator (%s), normalised to diffrax's semantics" % CONFIGS_DOC


# ------------------------------------------------------------------ C22
def signature(v):
    """[(name, required, default)], varargs?, varkw? of a callable"""
    d = 0
    while isinstance(v, Wrapped) and d < 10 and v.f is not None:
        v, d = v.f, d + 1
    if isinstance(v, Func):
        a = v.node.args
        pos = a.posonlyargs + a.args
        nd = len(v.defaults)
        out = []
        for i, x in enumerate(pos):
            k = i - (len(pos) - nd)
            out.append((x.arg, k < 0, v.defaults[k] if k >= 0 else None, "posonly" if x in a.posonlyargs else "pos"))
        for x in a.kwonlyargs:
            out.append((x.arg, x.arg not in v.kwdefaults, v.kwdefaults.get(x.arg), "kwonly"))
        return out, a.vararg is not None, a.kwarg is not None
    if isinstance(v, Class):
        return [(n, not has, dv, "pos") for n, dv, has in v.fields], False, False
    return None


def unwrap(v):
    d = 0
    while isinstance(v, (Wrapped, Partial)) and d < 10 and v.f is not None:
        v, d = v.f, d + 1
    return v


def documented():
    """[(namespace, name, file:line)] of the API reference"""
    out = []
    d = os.path.join(framework.REPO, "docs", "api")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".rst"):
            continue
        mod, auto, indent = None, False, 0
        for i, l in enumerate(open(os.path.join(d, fn), encoding="utf-8"), 1):
            m = re.match(r"\s*\.\. currentmodule::\s*(\S+)", l)
            if m:
                mod = m.group(1)
                continue
            m = re.match(r"(\s*)\.\. autosummary::", l)
            if m:
                auto, indent = True, len(m.group(1))
                continue
            if auto and l.strip():
                ind = len(l) - len(l.lstrip())
                if ind <= indent:
                    auto = False
                elif not l.strip().startswith(":") and mod and re.match(r"^[A-Za-z_][\w.]*$", l.strip()):
                    out.append((mod, l.strip(), "docs/api/%s:%d" % (fn, i)))
    return out


def dval(v):
    """printable value of a default"""
    x = num(v)
    if x is not None:
        return x
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, dict):
        return {k: dval(z) for k, z in v.items()}
    if isinstance(v, ExtCall):
        return (last(v.path), tuple(dval(z) for z in v.args), tuple(sorted((k, dval(z)) for k, z in v.kwargs.items())))
    return short(v)


def tolerance_default(run, nm, loc, got, want):
    """solver results with omitted limits: the loops may differ only in a tighter tolerance or a larger limit"""
    consts = lambda n: sorted({x.attr for l in N.walk([n]) if l.op == "loop" for x in N.walk([N.loop_parts(l)["cond"]] if N.loop_parts(l)["kind"] == "while" else [N.loop_parts(l)["hi"]]) if x.op == "const"})
    a, b = consts(got), consts(want)
    tol, lim = lambda l: [x for x in l if 0 < x < Fraction(1, 100)], lambda l: [x for x in l if x >= 2]
    loose = (tol(a) and tol(b) and max(tol(a)) > max(tol(b))) or (lim(a) and lim(b) and min(lim(a)) < min(lim(b)))
    run.fact(nm, loc, "an omitted argument has its documented default", False if loose else None, dict(got=[float(x) for x in a], want=[float(x) for x in b]))


def acts_as(run, fn, name, vals, got, want, j, i):
    """a value other than the documented one which, given explicitly, yields exactly the result of leaving the argument out"""
    key = next(a.name for a in fn.args if a.name in vals)
    every = lambda n: {z.attr for l in N.walk([n]) for z in ([l] if l.op == "const" else N.walk([v for k, v in N.loop_parts(l).items() if isinstance(v, N.Node)]) if l.op == "loop" else []) if z.op == "const"}
    if isinstance(vals[key], (LDict, Arr)):
        return None
    for q in sorted(every(got) - every(want)):
        if q != vals[key]:
            c = run.outs(fn, given=dict(vals, **{key: q}))
            if j < len(c) and c[j].shape and c[j][i] is got or not c[j].shape and c[j][()] is got:
                return q
    return None


def c22(run):
    load_all(run)
    import sigs
    docs = documented()
    run.fact("documented names", "docs/api", "the API reference lists public names", len(docs) >= 60, dict(found=len(docs)))
    listed = {(m, n) for m, n, _ in docs}
    names = {n for _, n, _ in docs} | {n for t in sigs.SIGS.values() for n in t}
    todo = [(m, n, w) for m, n, w in docs] + [(m, n, "documented signature") for m, t in sigs.SIGS.items() for n in t if (m, n) not in listed]
    for m, n, w in todo:
        mod_name, short_n = (m + "." + n).rsplit(".", 1)
        try:
            mod = run.module(mod_name)
        except Missing as e:
            run.fact("%s.%s" % (m, n), w, "documented name is importable", False, dict(reason=str(e)))
            continue
        if not isinstance(mod, Module):
            run.fact("%s.%s" % (m, n), w, "documented name is importable", None, dict(reason="not a module"))
            continue
        try:
            v = run.I.getattr(mod, short_n)
        except AbsRaise as e:
            run.fact("%s.%s" % (m, n), w, "documented name is importable", False, dict(reason=str(e)))
            continue
        loc = run.where(v)
        run.fact("%s.%s importable" % (m, n), loc, "documented name is importable", True, how="name resolution")
        al = mod.ns.get("__all__")
        if al is not None:
            pub = [x for x in run.I.iterate(al)]
            run.fact("%s.%s listed" % (m, n), run.I.rel(mod.path), "documented name is in the namespace's public names", short_n in pub, dict(all=short(pub)), "name resolution")
        # bound to its own function
        u = unwrap(v)
        own = getattr(u, "name", None)
        if isinstance(v, Module):
            run.fact("%s.%s bound" % (m, n), loc, "public name is bound to its own definition", v.name.endswith(short_n), dict(bound_to=v.name), "name resolution")
            continue
        if isinstance(u, (Func, Class)):
            bad = own != short_n and own in names
            run.fact("%s.%s bound" % (m, n), loc, "public name is bound to its own definition", not bad, dict(bound_to=own), "name resolution")
        elif isinstance(v, Ext):
            bad = last(v.path) != short_n and last(v.path) in names
            run.fact("%s.%s bound" % (m, n), w, "public name is bound to its own definition", not bad, dict(bound_to=v.path), "name resolution")
            continue
        else:
            run.fact("%s.%s bound" % (m, n), loc, "public name is bound to its own definition", None, dict(reason=short(v)))
            continue
        want = sigs.SIGS.get(mod_name, {}).get(short_n)
        got = signature(v)
        if want is None or got is None:
            continue
        ps, va, vk = got
        if isinstance(u, Func) and u is not v and isinstance(v, Partial):
            continue
        pos = [p for p in ps if p[3] != "kwonly"]
        probs = []
        if va and len(pos) < len(want):
            run.fact("%s.%s signature" % (m, n), loc, "documented signature", None, dict(reason="variadic signature"))
            continue
        for i, (pn, dv) in enumerate(want):
            if i >= len(pos) or pos[i][0] != pn:
                probs.append("parameter %d should be %s, is %s" % (i + 1, pn, pos[i][0] if i < len(pos) else "missing"))
                continue
            _, req, have, kind = pos[i]
            if kind == "posonly":
                probs.append("%s cannot be passed by keyword" % pn)
            if dv == "required":
                continue
            if req:
                probs.append("%s should be optional" % pn)
        for p in ps[len(want):] if len(pos) >= len(want) else []:
            if p[1]:
                probs.append("unexpected required parameter %s" % p[0])
        run.fact("%s.%s signature" % (m, n), loc, "documented parameters, order and optional values", not probs, dict(problems=probs), "signature inspection")
    # the solver facade: a name of the ODE library is that object
    try:
        mod = run.module("astrodynx.diffeq")
    except Missing:
        mod = None
    if isinstance(mod, Module) and mod.ns.get("__all__") is not None:
        for x in run.I.iterate(mod.ns["__all__"]):
            try:
                v = run.I.getattr(mod, x)
            except AbsRaise as e:
                run.fact("diffeq.%s" % x, run.I.rel(mod.path), "listed name exists", False, dict(reason=str(e)))
                continue
            if isinstance(v, Ext):
                run.fact("diffeq.%s bound" % x, run.I.rel(mod.path), "name of the ODE library is bound to the object of that name", last(v.path) == x or not v.path.startswith("diffrax"), dict(bound_to=v.path), "name resolution")
    # leaving an optional argument out means its documented default
    for fn in spec.FUNCS:
        m, _, n = fn.path.rpartition(".")
        want = sigs.SIGS.get(m, {}).get(n)
        if want is None:
            continue
        k = [i for i, (_, d) in enumerate(want) if d != "required"]
        if not k:
            continue
        loc = run.where(run.value(fn.path))

        def one(fn=fn, want=want, k=k, loc=loc):
            for cut, alone in [(c, False) for c in k] + [(c, True) for c in k if c < len(want) - 1]:
                # alone: only this argument is left out, the later ones are given by keyword
                rest = {want[i][0]: spec.arg_value(fn.args[i], ()) for i in range(cut + 1, len(want))} if alone else None
                a = run.outs(fn, nargs=cut, kw=rest)
                vals = {}
                for i in range(cut, cut + 1 if alone else len(want)):
                    d = want[i][1]
                    if isinstance(d, dict):
                        v = LDict((x, Arr(N.const(y), "f", conc=True, weak=True)) for x, y in d.items())
                    elif d == "pi":
                        v = Arr(N.PI, "f", conc=True, weak=True)
                    elif d == "optional":
                        raise Skip("default not stated")
                    else:
                        v = d
                    vals[fn.args[i].name] = v
                b = run.outs(fn, given=vals)
                if [x.shape for x in a] != [x.shape for x in b]:
                    run.fact("%s default of %s" % (fn.name, want[cut][0]), loc, "an omitted argument has its documented default", False, dict(got=str([x.shape for x in a])))
                    continue
                for j, (x, y) in enumerate(zip(a, b)):
                    for i in np.ndindex(*x.shape):
                        nm = "%s default of %s%s %d%s" % (fn.name, want[cut][0], " alone" if alone else "", j, list(i) if i else "")
                        if x[i] is y[i]:
                            run.fact(nm, loc, "an omitted argument has its documented default", True, how="identical value graphs")
                        else:
                            l = [z for z in N.walk([x[i]]) if z.op == "loop"]
                            if l and fn.loops:
                                q = acts_as(run, fn, want[cut][0], vals, x[i], y[i], j, i) if fn.args[cut].name not in ("tol", "max_iter") else None
                                if q is not None:
                                    run.fact(nm, loc, "an omitted argument has its documented default", False, dict(acts_as=float(q), documented=str(want[cut][1])))
                                else:
                                    tolerance_default(run, nm, loc, x[i], y[i])
                            else:
                                run.eq(nm, loc, x[i], y[i], spec.domain_of(fn), rule="an omitted argument has its documented default")
        run.guard("%s defaults" % fn.name, loc, one)
    od = run.value("astrodynx.prop.OrbDynx")

    def dyn():
        v = run.I.call(od, [Tok("terms")], {})
        for f, w in (("terms", Tok("terms")), ("args", LDict({"mu": 1})), ("event", None)):
            decide_same(run, "OrbDynx default " + f, run.where(od), "an omitted field has its documented default", run.I.getattr(v, f), w)
        v = run.I.call(od, [Tok("terms"), Tok("args"), Tok("event")], {})
        for f in ("terms", "args", "event"):
            decide_same(run, "OrbDynx " + f, run.where(od), "fields are stored as given", run.I.getattr(v, f), Tok(f))
    run.guard("OrbDynx", run.where(od), dyn)
    # names every namespace exports must resolve
    for name, mod in sorted(run.I.modules.items()):
        al = mod.ns.get("__all__")
        if al is None:
            continue
        for x in run.I.iterate(al):
            ok = True
            try:
                run.I.getattr(mod, x)
            except AbsRaise:
                ok = False
            run.fact("%s.__all__ %s" % (name, x), run.I.rel(mod.path), "exported name exists", ok, how="name resolution")
    # the same public name means the same object in every namespace
    byname = {}
    for name, mod in sorted(run.I.modules.items()):
        al = mod.ns.get("__all__")
        if al is None or name.endswith(".diffeq"):
            continue
        for x in run.I.iterate(al):
            try:
                v = run.I.getattr(mod, x)
            except AbsRaise:
                continue
            if isinstance(v, (Func, Wrapped, Class)):
                byname.setdefault(x, []).append((name, unwrap(v)))
    for x, l in sorted(byname.items()):
        for nm, v in l:
            own = getattr(v, "name", x)
            bad = own != x and own in names
            run.fact("%s.%s own" % (nm, x), run.where(v), "public name is bound to its own definition", not bad, dict(bound_to=own), "name resolution")
    run.extra["documented_names"] = len(docs)
    run.extra["explanation"] = "name resolution over the package's import graph against docs/api/*.rst, export lists, and the documented signatures"
